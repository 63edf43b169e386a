#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the wording is reviewed in one place."""
import json, os

S = "programs/openbook-v2/src/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": [f if "/" in f and f.startswith(("lib/", "programs/", "ts/")) else S + f for f in files],
                "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
                "mechanism": [{"name": n, "where": w if w.startswith(("lib/", "ts/")) else S + w} for n, w in mechanism],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


BOOK, OOA, MKT = "state/orderbook/book.rs", "state/open_orders_account.rs", "state/market.rs"
TREE, SIDE, ITER, NODES, HEAP = (
    "state/orderbook/ordertree.rs",
    "state/orderbook/bookside.rs",
    "state/orderbook/bookside_iterator.rs",
    "state/orderbook/nodes.rs",
    "state/orderbook/heap.rs",
)

prop(
    "C01",
    "Vaults always hold exactly what the market owes",
    "After every successful instruction the tokens in a market's base and quote vaults equal the market's recorded deposit totals, "
    "and those equal the sum of every claim on them: each account's free balance, what its resting orders lock (maker fees included), "
    "what unprocessed fills still have to move, accrued referrer rebates and unswept fees (tokens somebody sends straight to a vault aside). "
    "No instruction creates, destroys or double-counts a claim, so every user can always be paid in full.",
    ["histories", "inputs", "configurations"],
    "every sequence of instructions by any set of users, with any order parameters, fee settings, lot sizes and crank timing",
    "Tests follow a few hand-written sequences and compare single balances at the end; the repository's fuzz target is not run and checks totals only at the very end. No test covers all interleavings of partial fills, cancels, expiries, self-trades and out-of-order event processing.",
    [BOOK, OOA, MKT, "instructions/place_order.rs", "instructions/place_take_order.rs", "instructions/settle_funds.rs", "instructions/deposit.rs", "instructions/consume_events.rs", "instructions/sweep_fees.rs"],
    [("execute_maker / execute_taker / cancel_order", OOA), ("new_order", BOOK), ("deposit totals kept in step with token transfers", "instructions/settle_funds.rs")],
    [("base_deposit_total, quote_deposit_total, fees_available", "what the market says it holds", MKT), ("Position", "what one account may claim", OOA)],
    ["token balances of the two vaults", "market, open orders, book and event heap accounts after each instruction"],
)
prop(
    "C02",
    "Matching follows price, then time, within the taker's limit",
    "An incoming order trades with the best-priced live resting orders first, and among equal prices with the one placed first; "
    "each trade happens at the resting order's price and never at a price worse than the taker's limit. "
    "No live resting order that is better than one that traded is passed over, whether it is fixed-price or oracle-pegged.",
    ["histories", "inputs"],
    "every book content (fixed and pegged, expired and live, up to a full book), every taker side, price, size and match limit",
    "The tests place a handful of orders at one or two prices; they never mix many pegged and fixed orders with expiries and partial fills and compare the complete list of trades.",
    [BOOK, SIDE, ITER, NODES, "state/orderbook/ordertree_iterator.rs", "state/orderbook/order.rs", "state/orderbook/order_type.rs"],
    [("iter_all_including_invalid", SIDE), ("rank_orders", ITER), ("new_node_key", NODES), ("matching loop", BOOK)],
    [("order key", "price data in the high half, sequence number (inverted for bids) in the low half", NODES)],
    ["fill events on the heap and positions of makers after a place instruction"],
)
prop(
    "C03",
    "Order types do what they say",
    "Immediate-or-cancel, market and fill-or-kill orders never leave anything on the book, and a fill-or-kill order either trades its whole base size or fails without effect; "
    "post-only orders never trade, and a sliding post-only order rests no better than one tick behind the opposing best price; a limit order rests exactly the part of it that could not trade, unless the instruction's match limit, its funds limit or its price made resting unsafe. "
    "Orders whose expiry has already passed are skipped, and expiries further than 65,535 seconds ahead are cut to that.",
    ["inputs", "histories"],
    "every order type, side, price, size, expiry and match limit against every book",
    "test_order_types, test_ioc and test_fill_or_kill check one price level per type; combinations with limits, pegged liquidity, expired makers and quote caps are not exercised.",
    [BOOK, "state/orderbook/order.rs", "state/orderbook/order_type.rs", "instructions/place_order.rs", "lib.rs"],
    [("post_target", "state/orderbook/order.rs"), ("post_only_slide_limit", "state/orderbook/order.rs"), ("tif_from_expiry", "state/orderbook/order.rs"), ("WouldExecutePartially", BOOK)],
    [],
    ["book and open orders account after a place instruction; success or failure of the instruction"],
)
prop(
    "C04",
    "An order never trades or spends more than its limits",
    "Over its whole execution an order never trades plus rests more base than its base limit, and never pays plus locks more quote than its quote limit including all fees. "
    "The tokens taken from the wallet are exactly what the account's free balance does not already cover, and the instruction fails without effect when the wallet cannot supply them.",
    ["inputs", "histories", "configurations"],
    "every combination of base limit, quote limit, price, lot sizes, fee rates and existing free balance",
    "The tests use round numbers for which rounding of fees and lots never matters, and rarely start from a partial free balance.",
    [BOOK, MKT, "instructions/place_order.rs", "instructions/place_take_order.rs"],
    [("subtract_taker_fees, taker_fees_ceil, maker_fees_ceil", MKT), ("remaining_quote_lots after fees", BOOK), ("max_quote / free_to_lock split", "instructions/place_order.rs")],
    [],
    ["wallet balances, locked and free balances before and after a place instruction"],
)
prop(
    "C05",
    "Fees are charged, rebated and credited exactly as configured",
    "A taker pays the taker rate on the quote it traded with others, rounded up; a maker pays the maker rate rounded down, or receives the rebate rounded down when the rate is negative; what the taker pays beyond maker rebates goes to the referrer balance or to the market's fees and nowhere else. "
    "Takes without an open orders account pay the maker rebates only, no fee is ever charged on the part of an order that trades against its own account, and the market's fee and volume counters move by exactly the same amounts.",
    ["inputs", "histories", "configurations"],
    "every fee pair the market accepts, every lot size, every split of an order into fills, and every settlement order",
    "test_fees checks two fee settings with amounts that divide evenly; sums of many rounded fills, self-trades with positive maker fees and settlement by referrers are not covered.",
    [MKT, OOA, BOOK, "instructions/settle_funds.rs", "instructions/sweep_fees.rs", "instructions/place_take_order.rs"],
    [("maker_fees_floor, maker_rebate_floor, taker_fees_ceil", MKT), ("execute_maker, execute_taker", OOA), ("referrer_rebate split", "instructions/settle_funds.rs")],
    [],
    ["positions, market counters and wallets after trades, settlements and fee sweeps"],
)
prop(
    "C06",
    "The order tree is an exact ordered map of resting orders",
    "Whatever sequence of insertions, replacements and removals is applied to the two trees sharing one pool of nodes, iterating a tree yields exactly the orders inserted and not removed, each once and in key order; lookups, minimum, maximum and leaf counts agree with that. "
    "A rejected insertion leaves every tree unchanged, nodes are neither leaked nor shared, and a freed node can always be used again up to the full capacity.",
    ["histories", "inputs"],
    "every sequence of operations with any 128-bit keys (adjacent, extreme, differing in one bit) up to and at full capacity",
    "The unit tests insert at most a few hundred random keys in one tree and never reuse freed nodes across both trees near capacity.",
    [TREE, "state/orderbook/ordertree_iterator.rs", NODES],
    [("insert_leaf, remove_by_key", TREE), ("free list and bump index", TREE), ("OrderTreeIter", "state/orderbook/ordertree_iterator.rs")],
    [("OrderTreeNodes", "shared node pool", TREE)],
    ["results of the tree operations and the node pool after each one"],
)
prop(
    "C07",
    "Expired orders are found, and only expired orders are evicted as such",
    "The tree always knows the soonest expiry among its orders, whatever was inserted, replaced or removed before. "
    "Dropping one expired order removes exactly one order that expires soonest among those of the requested kind (fixed or pegged) if that expiry lies before the current second, otherwise one of the other kind by the same rule, and otherwise nothing.",
    ["histories", "inputs"],
    "every history of insertions and removals with any mix of timestamps and times in force, at every query time",
    "order_tree_expiry_random checks one random tree of a single kind with distinct expiries; equal expiries, replaced keys, two kinds sharing the pool and never-expiring orders are not combined.",
    [TREE, NODES, SIDE],
    [("child_earliest_expiry kept up to date", TREE), ("find_earliest_expiry, remove_one_expired", TREE), ("LeafNode::expiry, is_expired", NODES)],
    [],
    ["find_earliest_expiry and remove_one_expired results after each operation"],
)
prop(
    "C08",
    "A book side presents every order once, correctly priced and ranked",
    "For any oracle price and time, walking a book side yields every resting order exactly once from best to worst price and oldest first at equal prices, with pegged orders priced at oracle plus offset; the only orders left out are pegged orders whose price cannot be represented, or all pegged orders when there is no oracle price. "
    "An order is reported valid exactly when it has not expired and its pegged price has not passed its limit; the best price, depth at a price and impact price agree with that walk. The order chosen for eviction is the worst one, a pegged order without a representable price counting at the closest price there is and pegged orders not counting at all without an oracle price.",
    ["inputs", "histories"],
    "every mixture of fixed and pegged orders, offsets and limits, any oracle price including the extremes, any time",
    "bookside_iteration_random uses one oracle price for which every pegged price is representable, and bookside_order_filtering a single small book.",
    [SIDE, ITER, NODES, "state/orderbook/ordertree_iterator.rs"],
    [("BookSideIter::next", ITER), ("oracle_pegged_price", ITER), ("remove_worst, best_price, quantity_at_price, impact_price", SIDE)],
    [],
    ["iter_all_including_invalid, iter_valid and the derived queries"],
)
prop(
    "C09",
    "The event heap never loses, duplicates or reorders events",
    "Events leave the heap in the order they were pushed unless they are removed by position, each exactly once and unaltered; removing one by position affects no other event and its position keeps naming the same event until then. "
    "Positions are reused without ever aliasing two live events, the length is exact, a push on a full heap and a removal from an empty one or of a free position fail without effect, and all 600 positions can always be used again.",
    ["histories"],
    "every sequence of pushes, pops and removals by position, from empty to full and back",
    "The unit tests fill once and delete in one fixed pattern; arbitrary interleavings around the empty and full ends are not covered.",
    [HEAP],
    [("push_back, pop_front, delete_slot", HEAP), ("doubly linked used list and free list", HEAP)],
    [("EventHeapHeader", "free_head, used_head, count", HEAP)],
    ["heap contents after each operation"],
)
prop(
    "C10",
    "Every fill and removal reaches its maker exactly once, in any order",
    "Each trade and each eviction is applied to the maker's account exactly once: at once when that account accompanies the instruction (at most 15 fills), otherwise later through the event heap. "
    "Events whose account is not supplied stay queued, at most eight are processed per call, positions named explicitly are processed whatever their place in the queue, and every processing order leads to the same final balances.",
    ["schedules", "histories"],
    "every set of accounts passed along, every choice and order of cranked events, interleaved with new orders, cancels and settlements",
    "test_crank and test_place_order_remaining process everything in queue order; no test compares different processing orders or interleaves them with cancels.",
    [BOOK, OOA, HEAP, "instructions/consume_events.rs", "lib.rs"],
    [("process_fill_event, process_out_event", BOOK), ("consume_events, consume_given_events", "instructions/consume_events.rs"), ("execute_maker", OOA)],
    [],
    ["positions and event heap before and after each crank"],
)
prop(
    "C11",
    "Book, open orders and positions always tell the same story",
    "At any time each order on the book is listed in exactly one slot of its owner's account with the same id, side and client id, and each listed slot is either on the book or has its closing event queued. "
    "The locked lots recorded for an account are exactly the sum over its resting orders and its queued events, and order ids are never used twice.",
    ["histories", "schedules"],
    "every history of places, fills, cancels, expiries, evictions and cranks over several accounts, including full books and full accounts",
    "No test walks the book and the accounts and compares them; the consistency of slots during partially processed heaps is never looked at.",
    [BOOK, OOA, MKT],
    [("add_order, remove_order, next_order_slot", OOA), ("gen_order_id", MKT), ("new_order posting part", BOOK)],
    [],
    ["book, open orders and event heap accounts after each instruction"],
)
prop(
    "C12",
    "A cancel removes exactly the named orders and refunds all they lock",
    "Cancelling by id, by client id, or all orders of a side removes from the book exactly the matching orders of the given account, up to the limit in the account's slot order, and returns exactly what their unfilled part still locks, maker fee included, to the account's free balance. "
    "It never touches another account's order, and cancelling an order that is no longer on the book changes nothing.",
    ["inputs", "histories"],
    "every account content and book, every id, client id, side filter and limit, before and after partial fills and pending events",
    "Tests cancel freshly placed orders only; duplicate client ids, limits, already filled but unprocessed orders and pegged bids with maker fees are not combined.",
    [BOOK, OOA, "instructions/cancel_order.rs", "instructions/cancel_order_by_client_order_id.rs", "instructions/cancel_all_orders.rs", "instructions/prune_orders.rs"],
    [("Orderbook::cancel_order, cancel_all_orders", BOOK), ("OpenOrdersAccount::cancel_order", OOA)],
    [],
    ["book and position before and after the cancel instructions"],
)
prop(
    "C13",
    "Only the entitled signer can act for an account or a market",
    "Orders can be placed, edited and cancelled only by the account's owner or its delegate, and the delegate and the account itself can be changed or closed only by the owner; a delegate can withdraw only to token accounts of the owner. "
    "Where a market names an admin for placing orders, consuming events, collecting fees or closing, the corresponding instruction succeeds only with that admin's signature, and accounts, vaults, books and oracles of another market are never accepted.",
    ["inputs", "configurations"],
    "every instruction with every choice of signers and substituted accounts, on open and permissioned markets",
    "test_permissioned and a few negative cases cover single substitutions; the full instruction by signer by account matrix is not tested.",
    ["accounts_ix/place_order.rs", "accounts_ix/place_take_order.rs", "accounts_ix/cancel_order.rs", "accounts_ix/settle_funds.rs", "accounts_ix/settle_funds_expired.rs", "accounts_ix/consume_events.rs", "accounts_ix/sweep_fees.rs", "accounts_ix/set_delegate.rs", "accounts_ix/close_market.rs", "accounts_ix/close_open_orders_account.rs", OOA, "pubkey_option.rs"],
    [("is_owner_or_delegate, is_settle_destination_allowed", OOA), ("account constraints", "accounts_ix/place_order.rs"), ("NonZeroPubkeyOption comparisons", "pubkey_option.rs")],
    [],
    ["success or failure of each instruction"],
)
prop(
    "C14",
    "Settling pays out the whole free balance, once",
    "Settling transfers exactly the account's free base and quote from the vaults to the destination and leaves those balances at zero, so settling again pays nothing; open orders and other accounts are unaffected. "
    "Accrued referrer rebates, and leftover rounding of maker fees when no bid remains, go in full to the referrer if one is given and otherwise to the market's fees; deposits and refills credit exactly what leaves the wallet.",
    ["histories", "inputs"],
    "every balance, with and without a referrer, at every point of an order's life, repeated and interleaved with cranks",
    "Tests settle once after everything is processed; repeated settlement, settlement with open bids and refills over existing balances are not combined.",
    ["instructions/settle_funds.rs", "instructions/settle_funds_expired.rs", "instructions/deposit.rs", OOA],
    [("settle_funds", "instructions/settle_funds.rs"), ("deposit, refill", "instructions/deposit.rs")],
    [],
    ["wallets, vaults and positions before and after"],
)
prop(
    "C15",
    "An expired market only winds down, and closes only when empty",
    "Once a market's expiry has passed, or its closing admin has declared it expired, no instruction can place an order or add funds, and this never reverts; cancelling, cranking, settling and fee sweeping keep working. "
    "Pruning other users' orders and settling on their behalf are possible only then and only for the closing admin, the funds go only to their owners, and the market closes only when it is expired, holds no funds, and its book and event heap are empty.",
    ["histories", "configurations"],
    "every instruction at every time relative to the expiry, in every state of book, heap and balances",
    "test_close_market style tests walk one path; the instruction by phase matrix and closing attempts in every non-empty state are not covered.",
    [MKT, "accounts_ix/close_market.rs", "accounts_ix/prune_orders.rs", "accounts_ix/set_market_expired.rs", "accounts_ix/settle_funds_expired.rs", "accounts_ix/place_order.rs", "accounts_ix/place_take_order.rs", "accounts_ix/deposit.rs", "instructions/close_market.rs", "instructions/set_market_expired.rs", "instructions/prune_orders.rs"],
    [("is_expired", MKT), ("is_empty", MKT), ("account constraints", "accounts_ix/close_market.rs")],
    [],
    ["success or failure and effect of each instruction per market phase"],
)
prop(
    "C16",
    "The oracle price is used only when fresh and certain enough",
    "The price pegged orders use is the first oracle's price, or the ratio of the two oracles' prices, scaled by the token decimals and lot sizes; there is no price when an oracle is older than the configured number of slots or its uncertainty exceeds the configured fraction. "
    "Without a price no pegged order can be placed, matched or evicted, and fixed-price orders keep trading among themselves.",
    ["inputs", "configurations"],
    "every oracle arrangement (none, one, two), kind, price, deviation, update slot and configuration",
    "Tests use a stub oracle with zero deviation and no staleness limit; two-oracle confidence, boundary slots and other feed kinds are only checked for type detection.",
    ["state/oracle.rs", MKT, "instructions/place_order.rs", "accounts_ix/place_order.rs"],
    [("oracle_price, oracle_price_lots", MKT), ("is_stale, has_valid_confidence, has_valid_combined_confidence, oracle_state_unchecked", "state/oracle.rs")],
    [],
    ["oracle_price_lots, and effects of place instructions"],
)
prop(
    "C17",
    "Self-trades follow the behaviour the order asked for",
    "When an order meets an order of the same account it either trades with it without any fee or rebate, cancels the resting order with a full refund and goes on, or fails the whole instruction, exactly as the order requested. "
    "Orders of other accounts are never treated as self-trades, whoever owns those accounts, and takes without an account never are.",
    ["inputs", "histories"],
    "every mixture of own and foreign resting orders, each behaviour, side, size, fee setting, fixed or pegged",
    "test_self_trade covers one own order and one foreign order at the same price with a negative maker fee.",
    [BOOK, OOA],
    [("self-trade branch of the matching loop", BOOK), ("execute_maker self-trade case", OOA)],
    [],
    ["positions, book and heap after a place instruction and its cranks"],
)
prop(
    "C18",
    "Pegged orders track the oracle and never trade beyond their limit",
    "A resting pegged order always trades at oracle price plus its offset at that moment and never at a price beyond its peg limit; once the oracle moves past the limit it is removed rather than traded, and an order whose price is already past its limit never comes to rest. "
    "A pegged bid locks its limit price and gets back the difference and the excess fee at each fill, so that it never costs more than the limit and cancelling it returns everything unspent.",
    ["inputs", "histories"],
    "every offset, limit, oracle path, side, fee setting and sequence of partial fills, cancels and evictions",
    "test_oracle_peg moves the oracle twice with a few orders and zero maker fee locks.",
    [BOOK, ITER, OOA, "state/orderbook/order.rs", "instructions/place_order.rs"],
    [("peg_limit handling", ITER), ("locked price of pegged bids", OOA), ("posting at peg limit", BOOK)],
    [],
    ["fills, positions and book across oracle moves"],
)
prop(
    "C19",
    "Batch and edit instructions equal their single steps",
    "Placing several orders at once has the same effect as cancelling (where asked) and placing them one after another, bids before asks, each sized to the funds still available in the wallet and the account, and moves exactly the tokens their sum requires. "
    "Editing an order cancels it and places its replacement reduced by whatever of the expected size is no longer there; nothing is placed when that leaves nothing or when more than expected was still there, and nothing happens at all when the replacement has already expired.",
    ["inputs", "histories"],
    "every list of bids and asks, order type, limit, funding situation, and every fill state of the edited order",
    "test_multiple_orders places three resting orders; crossing batches, insufficient funds, expired entries and edits of unfilled, partly filled and missing orders are not covered.",
    ["instructions/cancel_all_and_place_orders.rs", "instructions/edit_order.rs", "lib.rs"],
    [("cancel_all_and_place_orders", "instructions/cancel_all_and_place_orders.rs"), ("edit_order", "instructions/edit_order.rs")],
    [],
    ["book, position and wallets after the batch instruction"],
)
prop(
    "C20",
    "The open-orders registry lists exactly the live accounts",
    "Each owner's registry counts the accounts it ever created, gives each new one the next number, and lists exactly those not yet closed, in creation order; while the registry exists numbers and addresses are never reused. "
    "An account can be closed only when it holds no funds, fees, penalties or orders, the registry itself only when it lists none, and only by the owner, with the rent going to the named destination.",
    ["histories", "inputs"],
    "every sequence of creating and closing accounts and registries by several owners, in every account state",
    "test_indexer creates three accounts and closes two in one order.",
    ["state/open_orders_indexer.rs", "instructions/create_open_orders_account.rs", "instructions/close_open_orders_account.rs", "instructions/create_open_orders_indexer.rs", "instructions/close_open_orders_indexer.rs", "accounts_ix/create_open_orders_account.rs", "accounts_ix/close_open_orders_account.rs", "accounts_ix/create_open_orders_indexer.rs", "accounts_ix/close_open_orders_indexer.rs", OOA],
    [("addresses list and counter", "state/open_orders_indexer.rs"), ("Position::is_empty", OOA)],
    [],
    ["indexer and open orders accounts after each instruction"],
)
prop(
    "C21",
    "A market starts only with sound parameters and exactly as asked",
    "Creating a market succeeds only with positive lot sizes, fees within range and with the taker paying at least the rebate granted, a future expiry or none, and an oracle arrangement that makes sense; everything else is refused. "
    "A created market carries exactly the requested parameters, admins, oracles and vaults, with empty book, heap and counters, and is announced with those parameters.",
    ["inputs", "configurations"],
    "every combination of lot sizes, fees, expiry, admins, oracles and name",
    "test_create_market covers a few refused oracle combinations and one fee error.",
    ["instructions/create_market.rs", "accounts_ix/create_market.rs", MKT, "state/oracle.rs"],
    [("parameter checks", "instructions/create_market.rs")],
    [],
    ["success or failure, and the new market, book and heap accounts"],
)
prop(
    "C22",
    "Account data is only read as what it is",
    "Loading an account as one of the program's types succeeds only if the program owns the account and its discriminator is that type's; anything else, including short, uninitialised or foreign data, is refused without touching it. "
    "This holds for shared and mutable loads and for every account type, and an optional key that is unset never equals any key.",
    ["inputs"],
    "every owner, length, discriminator and load flavour; every pair of set and unset keys",
    "There is no test of the loaders' refusals; pubkey_option has three example tests.",
    ["accounts_zerocopy.rs", "pubkey_option.rs"],
    [("LoadZeroCopy, LoadMutZeroCopy, LoadZeroCopyRef, LoadMutZeroCopyRef", "accounts_zerocopy.rs"), ("NonZeroPubkeyOption", "pubkey_option.rs")],
    [],
    ["results of the load functions"],
)
prop(
    "C23",
    "Funds are never stuck: any market can be fully wound down",
    "From every state the market can reach, cancelling, cranking and settling, each by the entitled party, always succeed and end with empty accounts, an empty book and heap, and vaults that hold nothing but swept-out fees. "
    "No order, event, rounding residue or evicted position can prevent an owner from withdrawing everything, closing their account, and the admin from closing the market.",
    ["histories", "schedules", "configurations"],
    "every reachable state, wound down in any order",
    "No test winds down a market after a varied history; the closing tests start from nearly empty markets.",
    [BOOK, OOA, "instructions/settle_funds.rs", "instructions/consume_events.rs", "instructions/close_market.rs", "instructions/close_open_orders_account.rs", "instructions/sweep_fees.rs"],
    [("cancel_all_orders, consume_events, settle_funds, sweep_fees, close_*", "lib.rs")],
    [],
    ["success of the wind-down instructions and the final account contents"],
)
prop(
    "C24",
    "The client's view of the chain is the best fork's newest data",
    "The best chain is that of the highest slot whose parent is known. Whatever the order in which slot updates and account writes arrive, the client returns for each account the newest write that lies on the best chain, is rooted or older than the root, or is newer than the chain's head, and never one from an abandoned fork. "
    "Dropping old slots and writes when a slot of the best chain becomes the root never changes that answer, late messages about older slots change nothing, and a later write for the same slot replaces the earlier one.",
    ["schedules", "fault_sequences"],
    "every interleaving, duplication, omission and reordering of slot and account messages over forks",
    "The client's chain data has no tests at all.",
    ["lib/client/src/chain_data.rs"],
    [("update_slot, update_account, is_account_write_live", "lib/client/src/chain_data.rs")],
    [],
    ["account_and_slot, accounts_snapshot, iter_accounts"],
)
prop(
    "C25",
    "What the client library quotes is what a take executes",
    "For any book, oracle price and time, the amounts and fee the client library quotes for swapping a given amount equal what the program charges and pays when the same take is executed against the same state, and never exceed the amount offered; for markets that need an admin's signature it offers nothing. "
    "The maker accounts it suggests passing along are those of the orders the take would meet first.",
    ["inputs", "histories"],
    "every book, side and size, fee setting, expiry and oracle state",
    "The only test needs a running validator with an existing market and is skipped otherwise.",
    ["lib/client/src/book.rs", "lib/client/src/jup.rs", BOOK],
    [("iterate_book, amounts_from_book, remaining_accounts_to_crank", "lib/client/src/book.rs"), ("quote", "lib/client/src/jup.rs")],
    [],
    ["quoted amounts compared with executed amounts"],
)
prop(
    "C26",
    "Logs announce exactly what happened",
    "Every trade is announced once when it is made and once more, with maker, taker, price, quantity and both fees, when it reaches the maker's account, together with that account's resulting position; each order that traded is announced with its totals. "
    "Deposits, settlements, fee withdrawals and changes of delegate are announced with exactly the amounts and accounts involved, and nothing else is announced.",
    ["histories", "inputs"],
    "every sequence of instructions, on every market",
    "No test reads a log.",
    ["logs.rs", BOOK, OOA, "instructions/deposit.rs", "instructions/settle_funds.rs", "instructions/sweep_fees.rs", "instructions/set_delegate.rs"],
    [("emit_stack", "logs.rs"), ("FillLog, OpenOrdersPositionLog", OOA), ("TakerSignatureLog, TotalOrderFillEvent", BOOK)],
    [],
    ["data logs of each instruction"],
)
prop(
    "C27",
    "What the TypeScript client shows is what the accounts hold",
    "For any state of a market, the TypeScript client's view of it is true: each fixed-price order on either side, best first, with its price, size, owner and whether it has expired; price levels; pending events in order; every field of the market and of open orders accounts; "
    "each account's orders and balances, pending fills included; the accounts and events still to be consumed; which accounts a person has. Amounts converted to decimal numbers and back come back as they were, and subscriptions keep the view current.",
    ["histories", "configurations"],
    "every reachable state of a market, its accounts, lot sizes and decimals",
    "The TypeScript tests need a running network and are not part of the suite.",
    ["ts/client/src/accounts/bookSide.ts", "ts/client/src/accounts/openOrders.ts", "ts/client/src/accounts/market.ts", "ts/client/src/accounts/eventHeap.ts", "ts/client/src/accounts/openOrdersIndexer.ts",
     "ts/client/src/structs/order.ts", "ts/client/src/market.ts", "ts/client/src/utils/utils.ts", "ts/client/src/utils/watcher.ts", "ts/client/src/client.ts"],
    [("BookSide.items, getL2, best", "ts/client/src/accounts/bookSide.ts"), ("OpenOrders.items, getBalanceNative", "ts/client/src/accounts/openOrders.ts"),
     ("getAccountsToConsume, getSlotsToConsume", "ts/client/src/client.ts")],
    [],
    ["values returned by the client for the accounts' bytes"],
)
prop(
    "C28",
    "Instructions the TypeScript client builds do what was asked of it",
    "Whatever a caller asks of the TypeScript client (place, pegged, take, batch, cancel in each form, prune, consume, deposit, settle, create and close accounts, registries and markets), the instructions it builds, given to the program, are accepted exactly when the request is one the program allows, and have exactly the effect requested: "
    "the same side, price, size, limits, type, expiry, client id, accounts and amounts, signed only by those the caller has the keys of.",
    ["inputs", "histories", "configurations"],
    "every request in every reachable state, as owner, delegate or admin",
    "The TypeScript tests need a running network and are not part of the suite.",
    ["ts/client/src/client.ts", "ts/client/src/accounts/openOrders.ts", "ts/client/src/accounts/market.ts", "ts/client/src/openbook_v2.ts", "ts/client/src/utils/utils.ts"],
    [("placeOrderIx, placeTakeOrderIx, cancelAllOrdersIx, settleFundsIx, createMarketIx, ...", "ts/client/src/client.ts"), ("placeOrder, cancelOrder, cancelAllOrders", "ts/client/src/accounts/openOrders.ts")],
    [],
    ["instructions built by the client, executed by the program"],
)
prop(
    "C29",
    "Transactions the Rust client sends do what was asked of it",
    "Whatever a caller asks of the Rust client (place, pegged, batch, cancel, cancel all, consume, deposit, settle, create registries, accounts and markets), the transaction it sends is signed by the owner and the fee payer, paid for by the fee payer with the priority fee configured, accepted exactly when the request is one the program allows, and has exactly the effect requested: "
    "the same side, price, size, limits, type, expiry, client id, accounts and amounts. Asked to find or create an account, it finds the one of that owner, market and name if there is one and otherwise creates it under the next number of the owner's registry; asked for all accounts of an owner, it gives those and no others.",
    ["inputs", "histories", "configurations"],
    "every request in every reachable state; fee payer the owner or somebody else; with and without registry, with accounts of other markets, names and owners",
    "The repository's tests do not run the Rust client.",
    ["lib/client/src/client.rs", "lib/client/src/gpa.rs", "lib/client/src/account_fetcher.rs"],
    [("OpenBookClient::place_order, place_orders, cancel_all_orders, settle_funds, consume_events, ...", "lib/client/src/client.rs"), ("OpenBookClient::find_or_create_account, create_market", "lib/client/src/client.rs"),
     ("fetch_openbook_accounts", "lib/client/src/gpa.rs")],
    [],
    ["transactions sent by the client, executed by the program", "account addresses returned"],
)
prop(
    "C30",
    "Account fetchers give the current account and do not fetch what they have",
    "Asked for an account, or for all accounts of a program with a given discriminator, the Rust client's fetchers give exactly those, with the data the node or the tracked chain has: the caching fetcher gives what the latest successful fetch since its cache was last cleared returned, asks the node only for what it does not remember, at most once at a time for the same thing, "
    "tells everybody who waits the same outcome, and never remembers a failure; the fetcher over the tracked chain gives the tracked chain's newest data, learns what it refreshes from the node in the slot the node says, fetches lookup tables only when they are missing, and fails where there is no account.",
    ["histories", "schedules", "fault_sequences"],
    "every order of requests, answers, failures, changes on the node, clearing and giving up; every history of messages about slots and accounts in between",
    "The repository's tests do not run the fetchers; overlapping requests need a node that can be made to wait.",
    ["lib/client/src/account_fetcher.rs", "lib/client/src/chain_data_fetcher.rs", "lib/client/src/chain_data.rs"],
    [("CachedAccountFetcher, RpcAccountFetcher", "lib/client/src/account_fetcher.rs"), ("AccountFetcher (refresh_account_via_rpc, fetch_program_accounts, ...)", "lib/client/src/chain_data_fetcher.rs")],
    [],
    ["accounts returned", "requests made to the node"],
)

prop(
    "C31",
    "Clients send the transactions they are asked to and report what became of them",
    "A transaction the TypeScript client sends holds exactly the instructions given, in their order, names the wallet as payer, is signed by the wallet and every further signer, and uses the block hash, lookup tables and price the caller gave or else the client was set up with, whatever other requests are under way. "
    "Either client reports success, with the right signature (the Rust client also the slot), only for a transaction the node took and then reported at the commitment wanted without an error; a transaction that was refused, failed, can no longer be taken or is never answered for is reported as failure, and neither gives up while it can still succeed nor sends it twice. "
    "The callback given is told of each transaction once, as soon as the node took it, and cannot prevent the outcome from being reported.",
    ["histories", "schedules", "fault_sequences", "configurations"],
    "every order of the node's answers and failures for requests under way at the same time; every sequence of statuses; settings of the client and of the call",
    "The repository's tests send their transactions without these functions.",
    ["ts/client/src/utils/rpc.ts", "ts/client/src/client.ts", "lib/client/src/util.rs"],
    [("sendTransaction", "ts/client/src/utils/rpc.ts"), ("OpenBookV2Client.sendAndConfirmTransaction", "ts/client/src/client.ts"), ("send_and_confirm_transaction", "lib/client/src/util.rs")],
    [],
    ["transactions given to the node", "what is confirmed", "outcome reported", "callbacks"],
)
prop(
    "C32",
    "Snapshots are whole, of the slots they say, and taken when they should be",
    "The Rust client's snapshot source begins once the node's final slot is beyond the one it was told, and from then on once per interval, also after a snapshot failed. "
    "Each snapshot is one message with every account of the program and every listed oracle that exists, each once, with the data and the slot of the node's answer it came in; if any request fails or comes without its slot nothing is handed on. "
    "Oracles are asked for in portions no larger, and no more at a time, than configured.",
    ["histories", "schedules", "fault_sequences", "configurations"],
    "every order of answers, failures, passing time and changes on the node; sizes of portions, numbers of oracles and of requests at a time",
    "The repository's tests do not run the snapshot source, which needs a node.",
    ["lib/client/src/snapshot_source.rs", "lib/client/src/account_update_stream.rs"],
    [("start, feed_snapshots", "lib/client/src/snapshot_source.rs")],
    [],
    ["snapshot messages", "requests made to the node"],
)
prop(
    "C33",
    "The published interface tells how to use and read the program",
    "Someone who knows only the interface description in the repository (idl/openbook_v2.json) and the addresses can use the program: instructions encoded by it, with the accounts it lists in its order and roles, are accepted exactly when the request is one the program allows and have exactly the effect requested. "
    "Markets, books, heaps, accounts and registries decoded by it show what they hold. "
    "Every event the program's market instructions emit is in it and decodes by it to what happened.",
    ["inputs", "histories", "configurations"],
    "every request, state and event of a market, its registries and its creation",
    "No test reads the interface description; the program's own types are used instead.",
    ["idl/openbook_v2.json", "programs/openbook-v2/src/lib.rs", "programs/openbook-v2/src/logs.rs", "programs/openbook-v2/src/accounts_ix/mod.rs", "programs/openbook-v2/src/types.rs"],
    [("events, instructions, accounts, types", "idl/openbook_v2.json"), ("events", "programs/openbook-v2/src/logs.rs")],
    [],
    ["instructions, accounts and events in the terms of the interface"],
)

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
