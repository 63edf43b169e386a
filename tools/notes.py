"""Texts of the manifest."""
MARKET_TECHNIQUE = ("TLA+ specification of the market (specs/Market.tla), model-checked with TLC on bounded instances; "
                    "every transition found there and random executions of the real program are validated against it")
MARKET_LEVEL = ("Exhaustive on the bounded model (few accounts, small amounts, stated depth). The real program is bound to "
                "it by executing all actions from the explored states and by long random executions, each step judged by "
                "TLC; behaviour outside those bounds is not covered. Trusts TLC, the runtime emulation and the stand-ins "
                "for unavailable dependencies.")
BOOK = ("TLA+ specification of a book side (specs/BookSide.tla: two ordered maps on a shared pool, expiries, prices), "
        "model-checked with TLC; all short sequences of the model's operations and long random ones are run on the real "
        "structure and validated against it")
PART_LEVEL = ("Exhaustive on the bounded model and on all operation sequences up to the stated length from chosen starting "
              "points (empty, populated, at capacity); beyond that random. Trusts TLC and the driver.")
BOTH = "; executions of the whole program are validated against specs/Market.tla as well"
TECHNIQUE = {
    "C16": "TLA+ specification of the price a market takes from its oracles (specs/Oracle.tla); every question of its "
           "grid and random ones are answered by the real code and validated against it" + BOTH,
    "C06": BOOK, "C07": BOOK + BOTH, "C08": BOOK + BOTH,
    "C09": "TLA+ specification of the event heap (specs/EventHeap.tla), model-checked with TLC; all short sequences of "
           "operations and long random ones are run on the real heap and validated against it",
    "C13": "TLA+ specification of who may do what with which accounts (specs/Access.tla); every instruction with every "
           "substituted account and signer is attempted on the real program and validated against it" + BOTH,
    "C20": "TLA+ specification of owners' registries (specs/Registry.tla), model-checked with TLC; all short sequences and "
           "long random ones are run on the real program and validated against it" + BOTH,
    "C21": "TLA+ specification of market creation (specs/CreateMarket.tla); every case of its grid and random ones are "
           "attempted on the real program, and the outcome validated against it",
    "C22": "TLA+ specification of loading accounts and of optional keys (specs/Loader.tla); every case of its grid and random "
           "ones are answered by the real code and validated against it",
    "C24": "TLA+ specification of the client's view of the chain (specs/Chain.tla), model-checked with TLC; all short sequences "
           "of messages and long random ones are given to the real client code and validated against it",
    "C25": "TLA+ specification of quotes as swaps on the market specification (specs/MarketQuote.tla), model-checked with "
           "TLC; the real client's quotes in the explored states and on random executions are validated against it, and "
           "against the real program executing the swap",
    "C27": "TLA+ specification of what a client has to show of a market state (specs/ClientView.tla), model-checked with TLC for "
           "soundness against the market's claims; the real TypeScript client looks at the accounts of explored states and of "
           "random executions of the real program, and what it shows is validated against it",
    "C28": MARKET_TECHNIQUE + ". Here the TypeScript client makes the instructions that the program executes; registries and "
           "market creation likewise, against specs/Registry.tla and specs/CreateMarket.tla",
    "C29": MARKET_TECHNIQUE + ". Here the Rust client sends the transactions that the program executes; registries, finding "
           "accounts and market creation likewise, against specs/Registry.tla and specs/CreateMarket.tla",
    "C33": MARKET_TECHNIQUE + ". Here the instructions are encoded, and accounts and events decoded, with the published interface "
           "description; registries and market creation likewise, against specs/Registry.tla and specs/CreateMarket.tla",
    "C30": "TLA+ specifications of the caching fetcher (specs/Cache.tla) and of the view of the chain (specs/Chain.tla), "
           "model-checked with TLC; all short sequences of requests, answers and messages and long random ones are given to "
           "the real fetchers and validated against them",
    "C31": "TLA+ specifications of requests on their way (specs/Sending.tla) and of waiting for a transaction "
           "(specs/Confirm.tla), model-checked with TLC; all short sequences of requests and answers and long random ones are "
           "given to the real clients and validated against them",
    "C32": "TLA+ specification of the source of snapshots (specs/Snapshot.tla), model-checked with TLC; all short sequences of "
           "answers, failures and waits and long random ones are given to the real source and validated against it",
}
TS_LEVEL = (MARKET_LEVEL + " The client's libraries (web3.js, anchor, spl-token, bn.js, big.js) are stand-ins, since "
            "they are not available offline.")
RUST_LEVEL = (MARKET_LEVEL + " The network and the client's libraries (anchor-client, solana-client, reqwest, async crates) are "
              "stand-ins, since they are not available offline.")
LEVEL = {"C33": TS_LEVEL, "C31": PART_LEVEL + " The nodes and the clients' libraries are stand-ins.", "C32": PART_LEVEL + " The node, the clock and the async crates are stand-ins.", "C30": PART_LEVEL + " The network and the async crates are stand-ins.", "C29": RUST_LEVEL, "C27": TS_LEVEL, "C28": TS_LEVEL, "C13": PART_LEVEL, "C20": PART_LEVEL, "C21": PART_LEVEL, "C22": PART_LEVEL, "C24": PART_LEVEL, "C16": PART_LEVEL, "C06": PART_LEVEL, "C07": PART_LEVEL, "C08": PART_LEVEL, "C09": PART_LEVEL}
NOT_APPLICABLE = {}
NOTES = ("tools/check.py PROPERTY [quick|thorough] runs one check; it rebuilds the program from /repo if its sources "
         "changed since the last build. known-findings.txt lists defects found; see DESIGN.md.")
