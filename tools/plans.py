"""What each check explores."""
import json, os, random, shutil
import lib
from lib import ToolError

PROFILES = "basic peg expiry self crank cancel funds batch slots expired auth deep huge dear".split()

# focus: (depth, wide, lines to execute) for quick and thorough
FOCI = {
    "trade":  ((2, 0, 16000), (3, 1, 300000)),
    "types":  ((1, 0, 15000), (2, 0, 400000)),
    "peg":    ((2, 0, 20000), (3, 0, 300000)),
    "self":   ((1, 0, 13000), (2, 0, 300000)),
    "expiry": ((2, 0, 20000), (3, 0, 300000)),
    "crank":  ((2, 0, 20000), (3, 0, 300000)),
    "cancel": ((2, 0, 20000), (3, 0, 300000)),
    "funds":  ((2, 0, 20000), (3, 0, 300000)),
    "batch":  ((1, 0, 20000), (2, 0, 400000)),
    "wind":   ((3, 0, 20000), (5, 0, 300000)),
    "auth":   ((2, 0, 20000), (3, 0, 300000)),
    "stale":  ((1, 0, 14000), (2, 0, 300000)),
    "many":   ((1, 0, 12000), (2, 0, 300000)),
    "twin":   ((2, 0, 20000), (3, 0, 300000)),
    "quote":  ((1, 0, 20000), (2, 0, 300000)),
}

RUNTIME = ("The program runs behind its entry point in a minimal emulation of the Solana runtime "
           "(account serialization, rollback, SPL token processor, system and associated-token programs); "
           "Pyth, Switchboard and fixed-point dependencies are stand-ins with the same interface.")
SCALE = ("The specification computes with amounts below 2^31; larger ones are explored as multiples of those only "
         "(token amounts in units of 2^33 with fees that come out even, prices in units of 2^33 without fees).")


def walks(c, engine, first, profiles, per):
    """Random executions; 8 processes share the indices. Returns the number of files."""
    d = c.path("traces")
    step = max(1, -(-per // lib.CORES))
    jobs, no = [], first
    for a in range(0, per, step):
        k = min(step, per - a)
        cmd = [engine, "walk", d, str(no), str(c.seed), str(a), str(k)] + profiles
        jobs.append(lambda cmd=cmd: int(lib.run(cmd)))
        no += k * len(profiles)
    lines = sum(lib.parallel(jobs))
    c.steps += lines
    return no - first


def explore(c, engine, first, foci, lines=None, look=False):
    """Model checks each focus, then puts the program through the transitions of the states found, or with look
    has the client say what it sees in them."""
    d = c.path("traces")
    which = 1 if c.thorough else 0

    def one(f):
        depth, wide, budget = FOCI[f][which]
        out = os.path.join(c.path("mc"), f + ".json")
        t = lib.Tlc("MarketMC", dict(FOCUS=f, DEPTH=depth, WIDE=wide, PROP=c.prop, OUT=out), workers=1,
                    timeout=850 if c.thorough else 300)
        return f, t, out

    no = first
    jobs = []
    summary = {}
    for f, t, out in lib.parallel([lambda f=f: one(f) for f in foci]):
        c.model(t, f)
        depth, wide, budget = FOCI[f][which]
        budget = lines[which] if lines else budget
        acts = 1 if look else len(json.load(open(out))["acts"])
        paths = sorted(set("[%s]" % p[2:-2] for p in t.prints("PATH")), key=lambda p: (p.count(","), p))
        if len(paths) != t.distinct:
            raise ToolError("%d paths for %d states" % (len(paths), t.distinct))
        keep = max(1, budget // acts)
        # all of the shallow states, and a seeded choice of the deepest ones
        if len(paths) > keep:
            shallow = [p for p in paths if p.count(",") < depth][:keep]
            rest = [p for p in paths if p.count(",") >= depth]
            random.Random("%d/%s" % (c.seed, f)).shuffle(rest)
            paths = shallow + rest[:keep - len(shallow)]
        summary[f] = dict(depth=depth, states=t.distinct, actions=acts, states_executed=len(paths))
        per_file = max(1, min(8, 1200 // acts))
        chunk = -(-len(paths) // lib.CORES)
        chunk = -(-chunk // per_file) * per_file
        for a in range(0, len(paths), chunk):
            part = paths[a:a + chunk]
            pf = os.path.join(c.path("mc"), "%s-%d.paths" % (f, a))
            with open(pf, "w") as h:
                h.write("\n".join(part) + "\n")
            cmd = [engine, "look" if look else "expand", d, str(no), out, pf, str(per_file)]
            jobs.append(lambda cmd=cmd: int(lib.run(cmd)))
            no += -(-len(part) // per_file)
    c.steps += sum(lib.parallel(jobs))
    c.detail["model"] = summary
    return no - first


def part(c, binary, first, module, env, depth, per, steps, runs=False, tag=""):
    """A data structure by itself: model checks its specification, then puts the implementation through all
    short sequences of the operations the model names (or, with runs, through those that reach each state of
    the model, followed by the model's queries) and through random long ones."""
    d = c.path("traces")
    out = os.path.join(c.path("mc"), module + tag + ".json")
    t = lib.Tlc(module, dict(env, OUT=out), timeout=850 if c.thorough else 300)
    c.model(t, module)
    no = first
    jobs = []

    def job(cmd):
        jobs.append(lambda: int(lib.run(cmd, timeout=800).splitlines()[-1].split()[0]))

    spec = json.load(open(out))
    if runs:
        paths = sorted(set("[%s]" % p[2:-2] for p in t.prints("PATH")), key=lambda p: (p.count(","), p))
        per_file = max(1, min(60, -(-len(paths) // 32)))
        chunk = -(-(-(-len(paths) // lib.CORES)) // per_file) * per_file
        for a in range(0, len(paths), chunk):
            pf = os.path.join(c.path("mc"), "%s%s-%d.paths" % (module, tag, a))
            with open(pf, "w") as h:
                h.write("\n".join(paths[a:a + chunk]) + "\n")
            job([binary, "run", d, str(no), out, pf, str(per_file)])
            no += -(-len(paths[a:a + chunk]) // per_file)
        c.detail.setdefault("sequences", {})[module + tag] = len(paths)
    else:
        shares = len(spec["setups"]) * len(spec["acts"])
        for k in range(lib.CORES):
            job([binary, "all", d, str(no), out, str(depth), str(k), str(lib.CORES)])
            no += sum(1 for i in range(1, shares + 1) if i % lib.CORES == k)
        c.detail.setdefault("sequences", {})[module + tag] = len(spec["setups"]) * len(spec["acts"]) ** depth
    step = max(1, -(-per // lib.CORES))
    for a in range(0, per, step):
        n = min(step, per - a)
        job([binary, "walk", d, str(no), str(c.seed), str(a), str(n), str(steps), out])
        no += n * len(spec["setups"])
    c.steps += sum(lib.parallel(jobs))
    return no - first


def grid(c, binary, first, module, env, per, steps, per_file=250):
    """A question and its answer: model checks the questions, has the implementation answer each of them, each
    from the same state, and then random ones."""
    d = c.path("traces")
    out = os.path.join(c.path("mc"), module + ".json")
    c.model(lib.Tlc(module, dict(env, OUT=out), timeout=850 if c.thorough else 300), module)
    spec = json.load(open(out))
    shares = len(spec["setups"]) * -(-len(spec["acts"]) // per_file)
    no, jobs = first, []

    def job(cmd):
        jobs.append(lambda: int(lib.run(cmd, timeout=800).splitlines()[-1].split()[0]))

    for k in range(lib.CORES):
        job([binary, "cases", d, str(no), out, str(per_file), str(k), str(lib.CORES)])
        no += sum(1 for i in range(1, shares + 1) if i % lib.CORES == k)
    step = max(1, -(-per // lib.CORES))
    for a in range(0, per, step):
        n = min(step, per - a)
        job([binary, "walk", d, str(no), str(c.seed), str(a), str(n), str(steps), out])
        no += n * len(spec["setups"])
    c.steps += sum(lib.parallel(jobs))
    c.detail.setdefault("questions", {})[module] = len(spec["setups"]) * len(spec["acts"])
    return no - first


def oracle(c):
    c.assumptions.append("Oracle accounts are encoded for the stand-ins of the Pyth and Switchboard libraries.")
    b = lib.build("oracle")
    n = grid(c, b, 1, "OracleMC", {}, 800 if c.thorough else 40, 300)
    c.judge("OracleTrace", c.path("traces"), n)
    samples(c, n)


def questions(binary, module, quick=24, thorough=400, steps=300, assume=()):
    """A plan of one grid."""
    def plan(c):
        c.assumptions += assume
        b = lib.build(binary)
        n = grid(c, b, 1, module + "MC", {}, thorough if c.thorough else quick, steps)
        c.judge(module + "Trace", c.path("traces"), n)
        samples(c, n)
    return plan


def chain(c):
    c.assumptions.append("The client's chain data is driven directly; messages are delivered one at a time.")
    b = lib.build("chain")
    n = 0
    for fork in ["", "2", "3"]:
        n += part(c, b, n + 1, "ChainMC", dict(FOCUS=fork, DEPTH=4 if c.thorough else 3), 3,
                  100 if c.thorough else 8, 400, tag="-fork" + fork)
    c.judge("ChainTrace", c.path("traces"), n)
    samples(c, n)


def registry(c):
    c.assumptions.append(RUNTIME)
    b = lib.build("registry")
    deep = 3 if c.thorough else 2
    n = part(c, b, 1, "RegistryMC", dict(FOCUS="", DEPTH=deep + 2), deep, 200 if c.thorough else 16, 300)
    n += part(c, b, n + 1, "RegistryMC", dict(FOCUS="crowd", DEPTH=deep), deep, 16 if c.thorough else 1, 300, tag="-crowd")
    c.judge("RegistryTrace", c.path("traces"), n)
    samples(c, n)


def registry_by_rust(c):
    b = lib.build("rcreg")
    deep = 3 if c.thorough else 2
    n = part(c, b, 1, "RegistryMC", dict(FOCUS="rust", DEPTH=deep + 1), deep, 200 if c.thorough else 16, 200, tag="-rust")
    c.judge("RegistryTrace", c.path("traces"), n)
    samples(c, n)


def fetchers(c):
    c.assumptions.append("The network is a stand-in whose answers arrive when the driver lets them; requests are polled one at a time.")
    n = part(c, lib.build("cache"), 1, "CacheMC", dict(DEPTH=7 if c.thorough else 5), 3 if c.thorough else 2,
             160 if c.thorough else 16, 600)
    c.judge("CacheTrace", c.path("traces"), n)
    samples(c, n)


def sending(c):
    c.assumptions.append("The node is a stand-in that answers when the driver lets it; the client's libraries are stand-ins.")
    n = part(c, lib.build("sending"), 1, "SendingMC", dict(DEPTH=10 if c.thorough else 7), 3 if c.thorough else 2,
             100 if c.thorough else 8, 120)
    c.judge("SendingTrace", c.path("traces"), n)
    samples(c, n)


def confirm(c):
    c.assumptions.append("The node the Rust client waits for answers from a script, and its pauses take no time.")
    n = grid(c, lib.build("confirm"), 1, "ConfirmMC", dict(DEPTH=9 if c.thorough else 7), 160 if c.thorough else 16, 300)
    c.judge("ConfirmTrace", c.path("traces"), n)


def snapshots(c):
    c.assumptions.append("The node answers when the driver lets it, timers run on a clock set by the driver; the async crates are stand-ins.")
    n = part(c, lib.build("snapshot"), 1, "SnapshotMC", dict(DEPTH=9 if c.thorough else 7), 3 if c.thorough else 2,
             80 if c.thorough else 8, 300)
    c.judge("SnapshotTrace", c.path("traces"), n)
    samples(c, n)


def chain_fetcher(c):
    c.assumptions.append("The client's chain data is driven directly; messages are delivered one at a time.")
    n = part(c, lib.build("chainf"), 1, "ChainMC", dict(FOCUS="fetch", DEPTH=4 if c.thorough else 3), 3 if c.thorough else 2,
             100 if c.thorough else 8, 400, tag="-fetch")
    c.judge("ChainTrace", c.path("traces"), n)


def heap(c):
    c.assumptions.append("The heap is driven directly, without the program around it.")
    b = lib.build("heap")
    n = part(c, b, 1, "EventHeapMC", dict(DEPTH=6 if c.thorough else 5), 6 if c.thorough else 4,
             240 if c.thorough else 24, 1500)
    c.judge("EventHeapTrace", c.path("traces"), n)
    samples(c, n)


def book(foci):
    def plan(c):
        c.assumptions.append("The book side is driven directly, without the program around it.")
        b = lib.build("book")
        n = 0
        for f in foci:
            runs = f == "prices"
            deep = dict(keys=(3, 4), expiry=(3, 4), prices=(2, 3))[f][c.thorough]
            n += part(c, b, n + 1, "BookSideMC", dict(FOCUS=f, DEPTH=deep), deep,
                      200 if c.thorough else 24, 700, runs, "-" + f)
        c.judge("BookSideTrace", c.path("traces"), n)
        samples(c, n)
    return plan


def both(*plans):
    def plan(c):
        for p in plans:
            shutil.rmtree(os.path.join(c.dir, "traces"), ignore_errors=True)
            p(c)
    return plan


def samples(c, count):
    d = c.path("traces")
    r = random.Random(c.seed)
    for k in sorted(r.sample(range(1, count + 1), min(2, count))):
        lines = open(os.path.join(d, "%d.ndjson" % k)).read().splitlines()
        acts = [json.loads(x)["a"] for x in lines[1:6]]
        c.samples.append(dict(execution=json.loads(lines[0])["a"].get("id"), steps=len(lines),
                              first_actions=[{k: v for k, v in a.items() if v not in (0, [], None)} for a in acts]))


def market(foci, profiles, quick=24, thorough=700, rest=True, binary="engine", crowds=(), lines=None,
           look=False):
    def plan(c):
        c.assumptions += [a for a in (RUNTIME, SCALE) if a not in c.assumptions]
        engine = lib.build(binary)
        n = explore(c, engine, 1, foci, lines, look)
        more = [p for p in PROFILES if p not in profiles]
        per = thorough if c.thorough else quick
        n += walks(c, engine, n + 1, profiles, per * 2)
        n += walks(c, engine, n + 1, more, max(1, per // 2)) if more and rest else 0
        # a full book or heap: few but long to judge
        n += walks(c, engine, n + 1, list(crowds), 64 if c.thorough else 8) if crowds else 0
        c.judge("MarketTrace", c.path("traces"), n)
        samples(c, n)
    return plan


def by_client(plan, what="CLIENT"):
    """The same with instructions made by the TypeScript client, or (LOOK) looked at by it."""
    def f(c):
        os.environ[what] = "1"
        try:
            plan(c)
        finally:
            del os.environ[what]
    return f


PLANS = {
    "C01": market(["trade", "funds", "self", "crank"], ["basic", "self", "funds", "crank", "deep", "huge"], crowds=["full", "flood"]),
    "C02": market(["trade", "types", "peg", "stale"], ["basic", "peg", "deep", "self", "dear"]),
    "C03": market(["types", "peg"], ["basic", "deep", "peg", "self"]),
    "C04": market(["types", "funds", "trade"], ["basic", "deep", "batch", "funds", "huge"]),
    "C05": market(["trade", "self", "crank", "funds"], ["basic", "crank", "funds", "self", "huge"]),
    "C06": book(["keys"]),
    "C07": both(book(["expiry", "keys"]), market(["expiry", "stale"], ["expiry", "peg"], quick=8, rest=False, crowds=["full"])),
    "C08": both(book(["prices"]), market(["peg", "twin", "stale"], ["peg", "deep"], quick=8, rest=False, crowds=["full"])),
    "C09": heap,
    "C10": market(["crank", "self", "expiry", "many", "stale"], ["crank", "expiry", "self", "expired"], crowds=["full", "flood"]),
    "C11": market(["cancel", "crank", "self", "expiry"], ["slots", "cancel", "expiry", "peg", "deep"], crowds=["full"]),
    "C12": market(["cancel", "batch", "wind"], ["cancel", "slots", "batch", "peg"]),
    "C13": both(questions("access", "Access", 1, 1, 1, [RUNTIME]),
                market(["auth", "wind"], ["auth", "expired"], quick=12)),
    "C14": market(["funds", "wind"], ["funds", "crank", "basic", "huge"]),
    "C15": market(["wind", "expiry"], ["expired", "expiry"]),
    "C16": both(oracle, market(["twin", "peg"], ["peg", "expiry"])),
    "C17": market(["self", "batch"], ["self", "batch"]),
    "C18": market(["peg", "twin"], ["peg", "expiry", "dear"]),
    "C19": market(["batch"], ["batch", "slots"]),
    "C20": both(registry, market(["wind", "auth"], ["auth", "expired"], quick=8, rest=False)),
    "C21": questions("create", "CreateMarket", assume=[RUNTIME]),
    "C22": questions("loader", "Loader"),
    "C24": chain,
    "C26": market(["trade", "crank", "funds", "self", "auth"], ["crank", "funds", "self", "batch", "expired"]),
    "C25": market(["quote"], ["quote"], quick=48, rest=False, binary="swap"),
    "C27": both(market(["trade", "crank", "self", "wind"], ["seen", "used"], quick=16, thorough=400, rest=False, binary="ts",
                       lines=(400, 12000), look=True),
                by_client(registry, "LOOK")),
    "C28": both(market(["trade", "cancel", "crank", "wind"], ["used", "seen"], quick=16, thorough=400, rest=False, binary="ts",
                       lines=(1500, 30000)),
                by_client(registry), by_client(questions("create", "CreateMarket"))),
    "C29": both(market(["trade", "cancel", "crank", "batch"], ["basic", "cancel", "funds", "batch", "auth", "peg"], quick=40, thorough=400, rest=False,
                       binary="rc", lines=(6000, 60000)),
                registry_by_rust, questions("rcmk", "CreateMarket")),
    "C30": both(fetchers, chain_fetcher),
    "C31": both(sending, confirm),
    "C32": snapshots,
    "C33": by_client(both(market(["trade", "crank", "funds"], ["used", "seen"], quick=8, thorough=200, rest=False, binary="ts", lines=(500, 10000), look=True),
                          by_client(registry), by_client(questions("create", "CreateMarket"))), "PUBLISHED"),
    "C23": market(["wind", "expiry"], ["expired", "basic", "funds", "peg"], crowds=["flood"]),
}
