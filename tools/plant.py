#!/usr/bin/env python3
"""plant.py SPEC.py: writes /verif/seeded/<id> from a description; plant.py --try ID...: confirms and runs checks.

SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], scenario=... or main=...)].
"""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
ENGINE = os.path.join(ROOT, "target/debug/engine")

DEMO = """#!/bin/bash
# Builds the program from /repo with a small runtime around it and plays scenario.json.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo" "$work/" || exit 3
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${DEMO_TARGET:-$work/target}
unset RUSTFLAGS
cd "$work/demo/engine" && cargo build --offline -q || exit 3
"$CARGO_TARGET_DIR/debug/engine" %s
"""


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    r = sh("git", "-C", "/repo", "status", "--porcelain", "--untracked-files=no")
    if r.stdout.strip():
        sys.exit("/repo is not clean:\n" + r.stdout)


def write(b):
    clean()
    d = os.path.join(SEEDED, b["id"])
    os.makedirs(d, exist_ok=True)
    for f, old, new in b["edits"]:
        p = os.path.join("/repo", f)
        s = open(p).read()
        if s.count(old) != 1:
            sh("git", "-C", "/repo", "checkout", "--", ".")
            sys.exit("%s: %d matches in %s of %r" % (b["id"], s.count(old), f, old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git", "-C", "/repo", "diff").stdout
    sh("git", "-C", "/repo", "checkout", "--", ".")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    demo = os.path.join(d, "demo")
    shutil.rmtree(demo, ignore_errors=True)
    kind = b.get("kind", "engine")
    shutil.copytree(os.path.join(ROOT, "harness/shims"), os.path.join(demo, "shims"))
    shutil.copytree(os.path.join(ROOT, "harness", kind), os.path.join(demo, "engine"),
                    ignore=shutil.ignore_patterns("target", "bin", "parts.rs"))
    ct = os.path.join(demo, "engine/Cargo.toml")
    s = open(ct).read().replace("opt-level = 2", "opt-level = 0").replace('name = "client"', 'name = "engine"')
    open(ct, "w").write(s)
    if kind != "engine":
        cl = os.path.join(demo, "engine/Cargo.lock")
        s = open(cl).read().replace('name = "%s"\nversion = "0.0.0"' % kind, 'name = "engine"\nversion = "0.0.0"')
        open(cl, "w").write(s)
    if "scenario" in b:
        json.dump(b["scenario"], open(os.path.join(d, "scenario.json"), "w"))
        r = sh(os.path.join(os.path.dirname(ENGINE), b.get("bin", "engine")), "record", os.path.join(d, "scenario.json"))
        print(r.stdout)
        cmd = 'scenario "$here/scenario.json"'
        if b.get("bin") == "ts":
            shutil.copytree(os.path.join(ROOT, "harness/ts"), os.path.join(demo, "ts"))
        if "bin" in b:
            s = open(os.path.join(ROOT, "harness/engine/src/bin/%s.rs" % b["bin"])).read().replace('"../', '"')
            for v in b.get("env", []):
                s = s.replace("fn main() {\n", 'fn main() {\n    std::env::set_var("%s", "1");\n' % v)
            open(os.path.join(demo, "engine/src/main.rs"), "w").write(s)
    else:
        open(os.path.join(demo, "engine/src/main.rs"), "w").write(b["main"])
        cmd = ""
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % cmd)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    print("wrote", b["id"])


def trial(i, with_tests=True):
    clean()
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    env = dict(os.environ, DEMO_TARGET="/root/scratch/demotarget")
    out = [i, meta["property"]]
    demo = ["bash", os.path.join(d, "demo.sh")]
    r = sh(*demo, cwd="/repo", env=env)
    out.append("demo clean %d" % r.returncode)
    if r.returncode:
        print(r.stdout[-1500:])
    r = sh("git", "-C", "/repo", "apply", os.path.join(d, "patch.diff"))
    if r.returncode:
        sys.exit(i + ": " + r.stdout)
    try:
        if with_tests:
            r = sh("bash", "/opt/vp/build.sh")
            out.append("build %d" % r.returncode)
            r = sh("bash", "/opt/vp/test.sh", "/root/scratch/t.json")
            m = re.search(r"test result: .*", r.stdout)
            out.append(m.group(0)[:40] if m else "tests?")
        r = sh(*demo, cwd="/repo", env=env)
        out.append("demo bug %d" % r.returncode)
        print("   ", r.stdout.strip()[-300:])
        for p in [meta["property"]] + [x for x in sys.argv if x.startswith("+")]:
            p = p.strip("+")
            r = sh("python3", os.path.join(ROOT, "tools/check.py"), p, cwd=ROOT,
                   env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            out.append("check %s: %d" % (p, r.returncode))
            if r.returncode == 1:
                print("   ", r.stdout.strip().splitlines()[0][:400])
            if r.returncode == 2:
                print("   ", r.stdout.strip()[-800:])
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    print(" | ".join(out), flush=True)


if sys.argv[1] == "--try":
    ids = [x for x in sys.argv[2:] if not x.startswith(("+", "-"))]
    for i in ids or sorted(os.listdir(SEEDED)):
        trial(i, "--fast" not in sys.argv)
else:
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    for b in g["BUGS"]:
        if not only or b["id"] in only:
            write(b)
