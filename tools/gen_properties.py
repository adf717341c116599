#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the anchors stay easy to edit)."""
import json, os
P = "program/src/"
OB, CB, EQ, MS = P+"state/orderbook.rs", P+"state/critbit.rs", P+"state/event_queue.rs", P+"state/market_state.rs"
PR = P+"processor/"
props = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    props.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
        "anchors": {"files": list(files),
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Matching follows strict price-time priority",
 "While an incoming order is matched, the resting orders of the opposite side are taken best price first and, at equal price, in the order in which they were posted. A resting order is never passed over, nor left partly filled and still resting, while a worse-placed one is traded or cancelled by the same incoming order.",
 ["histories", "inputs"], "every history of posts, cancels, fills, evictions and consumptions, every incoming order on either side, every price and arrival pattern",
 "The unit tests match against at most two resting orders at different prices; no test has two orders at one price, so time priority is never exercised.",
 [OB, CB, EQ], [("find_bbo takes max bid / min ask", OB+" OrderBookState::find_bbo"), ("order id = price in the high half, sequence number (inverted for bids) in the low half", EQ+" gen_order_id"), ("matching loop", OB+" new_order")],
 [("order id", "price and arrival rank of a resting order", EQ)], ["event queue bytes after each instruction", "bids/asks accounts before and after"])

prop("C02", "Every fill is at the maker's price, within the limit, correctly rounded",
 "Every fill executes at the limit price the resting order was posted with, and that price is never worse for the incoming order than its own limit. Its quote amount is base times price in 32-bit fixed point, rounded up when the taker buys and down when the taker sells; base and quote are both positive, base never exceeds what the resting order or the incoming order had left, and the event names the taker's side.",
 ["inputs", "histories"], "all 64-bit prices, base quantities and quote budgets, both sides, any book",
 "The tests use a handful of round prices (multiples of 2^32 or 2^30) for which both rounding directions coincide.",
 [OB], [("base_trade_qty / quote_maker_qty", OB+" new_order"), ("fp32_mul_ceil / fp32_mul_floor", "bonfida-utils fp_math")],
 (), ["Fill events", "order parameters", "posted prices"])

prop("C03", "Order budgets are respected and the order summary is exact",
 "The base and quote amounts a new order uses never exceed its maximum base and maximum quote quantities. The returned summary is exact: total base is the sum of its fills plus the posted quantity, total quote is the sum of its fills' quote plus the posted quantity valued at the limit price (rounded up for bids, down for asks), and the posted id and posted quantity describe the order now resting, being absent and zero exactly when nothing was posted.",
 ["inputs", "histories"], "all order parameters over the full 64-bit ranges, any book, including orders that fill several makers, are partly posted, or are refused by a full book",
 "A few summaries are compared with hand-computed numbers for round prices; nothing relates summaries to the events emitted and to the book for arbitrary inputs.",
 [OB, PR+"new_order.rs"], [("remaining base/quote bookkeeping and OrderSummary", OB+" new_order")], (), ["OrderSummary", "events emitted", "book after"])

prop("C04", "Order quantity is conserved from posting to removal",
 "At every moment, the quantity an order was posted with equals the sum of the fills recorded against it, plus what still rests, plus what was released when it left the book (its Out event's size or the size its cancellation reported). A resting quantity changes in no other way, no order appears in the book without having been posted, and an order that left the book never rests or trades again.",
 ["histories"], "every history of operations, across slot reuse, evictions and self-trade cancellations",
 "Tests check single events against constants; none follows an order through its whole life or looks at the other orders of the book.",
 [OB, CB, PR+"cancel_order.rs", PR+"mass_cancel_orders.rs"], [("base_quantity updates and removal", OB+" new_order"), ("remove_by_key / insert_leaf / free lists", CB)], [("LeafNode.base_quantity", "quantity resting", CB)], ["book before/after every instruction", "Fill/Out events", "cancel summaries"])

prop("C05", "The book is never crossed at rest",
 "After every successful instruction the best bid price is strictly lower than the best ask price whenever both sides are non-empty.",
 ["histories", "inputs"], "every history, including orders stopped by their match limit, by a dust trade, by budget exhaustion, by self-trade handling or by being post-only",
 "No test looks at the spread after an order was stopped early.",
 [OB], [("crossed flag decides about posting", OB+" new_order")], (), ["bids and asks accounts", "get_spread"])

prop("C06", "An order rests exactly when it should, on tick and not below minimum",
 "What remains of a new order is posted, with the largest base quantity that both remaining budgets allow at its limit price, exactly when posting is allowed, the order does not cross the best remaining opposite order, it did not use up its match limit, and that quantity is at least the market's minimum order size (a full side is the only further obstacle); post-only orders never trade. Orders whose limit price is not a multiple of the tick size, or that may be posted and are priced below one tick, are refused. So every resting order is at a positive multiple of the tick size and holds at least the minimum size, also after being partly filled.",
 ["inputs", "histories"], "all combinations of post_only, post_allowed, match_limit, budgets, tick and minimum sizes, any book",
 "Tests post only in the plain cases; post_only, tick violations and exhausted match limits are not exercised.",
 [OB, PR+"new_order.rs"], [("tick checks", PR+"new_order.rs process"), ("posting decision", OB+" new_order")], (), ["OrderSummary", "book after", "error returned"])

prop("C07", "Matching is complete and bounded by the match limit",
 "An incoming order trades with, or self-trade-cancels, at most match_limit resting orders. It stops earlier only if it is post-only, or no remaining opposite order crosses its limit, or the next trade would have a zero base quantity (budget exhausted) or a zero quote value.",
 ["inputs", "histories"], "all match limits and budgets, any book depth",
 "Every test uses a match limit far above the number of resting orders.",
 [OB], [("loop exits and match_limit accounting", OB+" new_order")], (), ["events emitted", "best opposite order left in the book"])

prop("C08", "Self-trade behaviour is honoured exactly",
 "When the next resting order to trade with carries the same callback id as the incoming order (compared on the id part of the callback information only), decrement-take trades as usual, cancel-provide removes that order without trading, releases its full remaining size in one Out event and leaves the incoming order's budgets untouched, and abort fails the whole instruction. An order with a different callback id is never treated as a self-trade.",
 ["inputs", "histories"], "every book and order mix of several users, every callback type whose id is all or part of it",
 "One scripted cancel-provide case exists; abort, partial ids and mixed queues of own and foreign orders are untested.",
 [OB, P+"state.rs"], [("callback id comparison and per-behaviour branch", OB+" new_order"), ("CallbackInfo::as_callback_id", OB)], (), ["events", "book", "error code"])

prop("C09", "Order ids are unique, self-describing and ranked",
 "An order id returned by a successful instruction is never returned again during the life of the market, even after the order is gone. The id encodes the order's limit price in its upper 64 bits and its side, and among orders of one side and price, ids order by arrival (ascending for asks, descending for bids).",
 ["histories", "inputs"], "every history of a market, any number of posts, removals, refused posts and queue wrap-arounds",
 "Tests see a handful of ids and never compare two of them.",
 [EQ, P+"state.rs"], [("gen_order_id / gen_seq_num", EQ), ("get_side_from_order_id", P+"state.rs")], [("seq_num", "per-market sequence number", EQ)], ["posted_order_id"])

prop("C10", "The event queue delivers every event exactly once, in order, or not at all",
 "Events are delivered to the consumer in the order they were produced, each exactly once and unaltered from production until consumed; consuming n pops exactly the min(n, length) oldest, and the queue's length, emptiness, indexed peek and iteration all agree with that. An instruction whose events do not all fit in the free space fails with the queue-full error instead of dropping or overwriting events, and one whose events fit is not refused for space.",
 ["histories", "inputs"], "every interleaving of producing and consuming, every capacity and wrap-around position, any n including 0 and u64::MAX",
 "One test fills a fresh queue once; head never moves with events present, so wrap-around is unexercised.",
 [EQ, PR+"consume_events.rs", OB], [("push_back / full / pop_n / peek_at / iter", EQ)], [("head, count", "ring position and length", EQ)], ["event queue account bytes before/after", "EventQueue::iter / peek_at / len / is_empty"])

prop("C11", "Every involuntary removal is announced by exactly one Out event",
 "Every order that leaves the book other than by being cancelled (filled until less than the minimum size is left, cancelled by self-trade handling, or evicted) produces, in the instruction that removes it, exactly one Out event carrying its id, its side and the quantity it still had. No Out event is produced for an order that stays in the book or was cancelled, and none of its fills follows its Out event.",
 ["histories", "inputs"], "every history and every way of leaving the book",
 "Out events are compared in three scripted cases only.",
 [OB], [("Out events at exhaustion, self-trade, eviction", OB+" new_order")], (), ["book diff", "events emitted"])

prop("C12", "Cancelling removes exactly the named order and reports what was left",
 "Cancelling a resting order's id removes that order and nothing else, changes no other order and emits no event, and the summary reports its remaining base quantity, that quantity's quote value at its price rounded down, and nothing posted. Cancelling any other id (never issued, already filled, cancelled, evicted, or of a different market) fails with the order-not-found error and changes nothing.",
 ["inputs", "histories"], "every book shape and every 128-bit id, including ids one bit away from live ones",
 "One live id is cancelled in one test; stale and near-miss ids are never tried.",
 [PR+"cancel_order.rs", CB], [("remove_by_key", CB), ("cancel_order::process", PR+"cancel_order.rs")], (), ["book before/after", "OrderSummary", "error code"])

prop("C13", "Mass cancel is all-or-nothing and equals the individual cancels",
 "A mass cancel of a list of resting order ids has the same effect on the book as cancelling each once, and its summary reports the sums of their remaining base quantities and of their individually rounded-down quote values. If any listed id is not (or, being repeated, no longer) resting, the whole instruction fails with the order-not-found error and no order is removed; it fails likewise, removing nothing, when a sum does not fit 64 bits.",
 ["inputs", "histories"], "every list of ids of both sides, any length and order, with stale, foreign and repeated ids",
 "The instruction is never executed by any test.",
 [PR+"mass_cancel_orders.rs", P+"instruction.rs"], [("mass_cancel_orders::process", PR+"mass_cancel_orders.rs")], (), ["book before/after", "OrderSummary", "error code"])

prop("C14", "A full side evicts only its worst order, and only for a better price",
 "A side holds as many resting orders as its account was sized for, whatever was inserted and removed before, and an order is evicted or refused for lack of space only when that many rest. A remainder that would be posted to a full side takes the place of exactly one order, the one with the worst price and, among those, the latest posted, if its own price is strictly better than that; otherwise it is refused without an error or any effect on its side, its fills standing.",
 ["histories", "inputs"], "every capacity, every insertion/removal history, bids and asks",
 "Two scripted cases at capacity two; equal prices, and slot reuse after removals, are untested.",
 [OB, CB], [("SlabOutOfSpace handling", OB+" new_order"), ("allocate/free of leaves and inner nodes", CB)], [("free lists", "recycled slots", CB)], ["book before/after", "Out events", "OrderSummary"])

prop("C15", "Lookup, iteration and best prices agree with the set of resting orders",
 "At every moment, for each side: looking up an id finds it if and only if that order rests, the minimum and maximum queries, ascending and descending iteration, the reported order count, depth and emptiness, and the market's reported spread all agree with the set of resting orders, each appearing exactly once in price-then-id order. The stored tree that external readers walk is well formed: it reaches exactly those orders, each on the path its id selects.",
 ["histories", "inputs"], "every insertion/removal order and key pattern, up to full capacity",
 "simulate_operations runs two seeds of uniformly random 128-bit keys; order ids are structured (few prices, consecutive sequence numbers), and iteration is not covered.",
 [CB, OB, P+"utils.rs"], [("insert_leaf / remove_by_key / find_min_max / find_by_key / into_iter / get_depth", CB), ("get_spread", OB+", "+P+"utils.rs")], [("InnerNode prefix_len/key/children", "critbit structure", CB)], ["slab account bytes", "Slab and OrderBookState read API"])

prop("C16", "Callback information stays attached to its own order",
 "The callback information stored with a resting order is, byte for byte, what it was submitted with, for as long as it rests and whatever happens to other orders or reused slots. Fill events carry the maker's and the taker's, and Out events the removed order's, callback information unaltered.",
 ["histories", "inputs"], "every history with slot reuse, evictions and removals, callback types of any size",
 "Tests use one or two constant callback values, so a mix-up between slots would go unseen.",
 [OB, CB, EQ], [("callback_infos indexed by leaf handle / event slot", CB+", "+EQ)], [("callback_infos", "per-slot callback information", CB)], ["callback bytes in slab and queue accounts"])

prop("C17", "Instructions only act on the market's own, valid accounts",
 "New-order, cancel, mass-cancel, consume and close fail, changing nothing, unless the market account is owned by the program and holds an open market, and the event queue, bids and asks given are the very accounts recorded when it was created: accounts of another market, swapped sides, look-alikes with identical contents, uninitialised and closed ones are all refused. Event queue, bids or asks owned by another program are refused by all of these but close, and an account whose type tag is not the expected one is refused by every instruction that reads it.",
 ["inputs", "configurations"], "every instruction with every single substitution of an account by one that is wrong in key, owner, tag or role, and pairs of substitutions, at any market state",
 "No test passes a wrong account.",
 [PR+"new_order.rs", PR+"cancel_order.rs", PR+"mass_cancel_orders.rs", PR+"consume_events.rs", PR+"close_market.rs", P+"utils.rs", MS], [("perform_checks / check_accounts", PR+"*.rs"), ("account tags", MS+", "+EQ+", "+CB)], (), ["instruction results", "all account bytes"])

prop("C18", "Market creation initialises exactly once, with valid parameters only",
 "Creating a market succeeds exactly when all four accounts are uninitialised, distinct, rent exempt and of a size the program can operate, the event queue, bids and asks are owned by the program, and minimum order size and tick size are positive. It then records exactly the given accounts and parameters, and the market starts with an empty book and an empty queue, of the capacities the accounts were sized for; no account of an existing or closed market can be initialised again.",
 ["inputs", "configurations"], "every combination of parameters, account sizes, owners, balances and prior contents",
 "One successful creation is tested, no refusal.",
 [PR+"create_market.rs", MS, EQ, CB], [("checks in create_market::process", PR+"create_market.rs"), ("check_buffer_size, tags", MS+", "+EQ)], (), ["account bytes after", "instruction results"])

prop("C19", "A market closes only when drained, hands over all lamports, and stays closed",
 "Closing fails while any order rests on either side or any event is unconsumed, and succeeds otherwise. It then moves the entire balance of the four market accounts to the target account, creating and losing none, and every later instruction on that market fails, as does creating a market on any of its accounts.",
 ["histories", "inputs"], "every market state and balance, at any point of any history",
 "One close of a drained market is tested, without looking at balances or at later instructions.",
 [PR+"close_market.rs"], [("is_empty / count checks, Disabled tags, lamport moves", PR+"close_market.rs")], (), ["lamports", "account bytes", "later results"])

prop("C20", "Instruction builders, dispatcher and register agree on the wire format",
 "For every instruction and any parameters, the instruction the crate's builder produces is dispatched to that very operation with exactly those parameters and accounts, marks every account the operation modifies as writable and asks none of them to sign. Afterwards the register account holds the optional result in serialised form (present for new, cancel and mass-cancel orders and absent otherwise), a present result taking at most the published size after the presence byte; the published borsh sizes equal the real serialised lengths.",
 ["inputs"], "all six instructions, all parameter values and list lengths",
 "Only five builders are run, each with one set of parameters; the mass-cancel builder never.",
 [P+"instruction.rs", P+"processor.rs", P+"entrypoint.rs", PR+"*.rs"], [("builders", P+"instruction.rs"), ("process_instruction", P+"processor.rs"), ("register write", P+"entrypoint.rs")], (), ["Instruction data and metas", "state change versus direct library call", "register account bytes"])

prop("C21", "Published allocation sizes give exactly the requested capacity",
 "For every desired capacity and callback information size, an orderbook side account of the published allocation size holds exactly that many orders and an event queue account of the published allocation size holds exactly that many events.",
 ["configurations"], "all capacities and callback sizes",
 "Two capacities with one callback size are used, neither filled by the book tests to its exact bound for the queue and book together.",
 [CB, EQ], [("compute_allocation_size / from_buffer", CB+", "+EQ)], (), ["number of orders accepted before eviction", "number of events accepted before queue-full"])

prop("C22", "Price rounding yields the nearest tick in the safe direction",
 "For every positive tick size and price, rounding a price for a bid gives the largest multiple of the tick size not above it, and for an ask the smallest multiple not below it whenever that multiple is representable in 64 bits. Rounding is idempotent, and the result is accepted as a limit price by a market of that tick size (when it is not zero).",
 ["inputs"], "all 64-bit tick sizes and prices",
 "One price and one tick size are tested.",
 [P+"utils.rs", PR+"new_order.rs"], [("round_price", P+"utils.rs")], (), ["round_price results"])

prop("C23", "No instruction corrupts memory, relies on wrapped arithmetic or hangs",
 "On any market reached through the program's own instructions, an instruction with arbitrary data or parameter values terminates by succeeding or by failing, never reads or writes outside the accounts it was given, and never succeeds with a result that depended on an arithmetic overflow; nor does a query of the book, the spread or the queue read or write outside them. An order, cancel or consume instruction that breaks no documented rule never aborts abnormally, and after every success the book and the queue are well formed.",
 ["inputs", "histories"], "arbitrary instruction bytes and account lists, extreme parameter values, any reachable market state",
 "Tests only send well-formed instructions with small values.",
 [P+"processor.rs", P+"entrypoint.rs", OB, CB, EQ], [("borsh decoding, checked fixed-point arithmetic, bounds-checked slices", P)], (), ["instruction outcomes in overflow-checked, unchecked and address-sanitised builds"])

prop("C24", "Execution is deterministic and the on-chain code path equals the host's",
 "The result and resulting account contents of an instruction depend only on the program, the accounts' contents and the instruction: replaying a history gives identical results and bytes in another process, at other memory addresses and interleaved with other markets' instructions. The code compiled for the chain behaves exactly as the code compiled for the host.",
 ["histories", "configurations"], "every history; host and on-chain configurations of the crate",
 "The on-chain configuration is never compiled by the tests, and no test replays a history.",
 [CB, EQ, OB], [("cfg(target_os = \"solana\") twins of order-id handling", CB+", "+EQ+", "+OB)], (), ["digests of results and account bytes per history and build"])

prop("C25", "The TypeScript client reads back exactly the program's state",
 "For any market state the program produces, the TypeScript client's parsers report the same market parameters, resting orders (ids, prices, quantities, callback information, best-first order, lookups by id), price-level aggregates and queued events, in queue order, as the program holds.",
 ["histories", "configurations"], "every reachable market state, every callback size, any queue position",
 "The TypeScript code has no runnable test; its one test file needs a validator and a missing module.",
 ["js/src/slab.ts", "js/src/event_queue.ts", "js/src/market_state.ts", "js/src/utils.ts"], [("Slab / EventQueue / MarketState parsers", "js/src/*.ts")], (), ["parser outputs on account bytes produced by the program"])

prop("C26", "TypeScript instruction data means the same to the program",
 "The instruction data the TypeScript client builds for each operation decodes in the program to that operation with the parameters the client was given, and the accounts it sets up for a new market have the sizes that give the capacities asked for and belong to the program named, or to the deployed one when none is named.",
 ["inputs"], "all client instruction classes and parameter values",
 "Nothing runs the TypeScript encoders.",
 ["js/src/raw_instructions.ts", P+"processor.rs", P+"instruction.rs"], [("borsh schemas", "js/src/raw_instructions.ts")], (), ["encoded bytes decoded by the program's own parameter types"])

prop("C27", "The wasm reader reports true best orders and depth",
 "For any order tree in the slab layout it reads, the wasm helper's minimum and maximum queries return the handles of the lowest and the highest order by price, then id (none for an empty tree), and its depth query returns, best level first, the total quantity and price of each of the requested number of price levels.",
 ["inputs", "histories"], "every tree shape, callback size, depth and direction",
 "Its one test asserts 2 + 2 = 4.",
 ["js/wasm/src/critbit.rs", "js/wasm/src/lib.rs"], [("find_min / find_max / find_l2_depth", "js/wasm/src/critbit.rs")], (), ["returned handles and levels"])

prop("C28", "Under the real runtime, failed instructions leave no trace",
 "Executed by the Solana runtime, a transaction containing a failing instruction changes no account of the market, and a successful one changes them exactly as the library's own functions do on the same accounts, with every account the instruction modifies declared writable (and none a signer) by the builder and every market account it modifies owned by the program.",
 ["histories", "fault_sequences"], "every history of succeeding and failing instructions and multi-instruction transactions",
 "One scripted sequence of successes is run in the runtime.",
 [P+"entrypoint.rs", P+"instruction.rs", PR+"*.rs"], [("errors returned instead of swallowed", P+"entrypoint.rs"), ("account metas", P+"instruction.rs")], (), ["bank account states after each transaction"])

prop("C29", "Instructions change only the accounts they act on; reading changes nothing",
 "A successful instruction other than closing leaves the market account, every lamport balance and every account's owner as they were. A new order changes only the two sides and the event queue (the opposite side only if it met an order there, its own only if it was posted); a cancel or mass cancel changes only the sides that held the cancelled orders; consuming changes only the event queue. Querying the book, the spread or the queue, and opening an account under another account's tag (which fails), changes no byte.",
 ["histories", "inputs"], "every successful instruction of every history, every query in every state",
 "Tests look at single fields after an operation; none compares the bytes of the accounts an operation should leave alone.",
 [PR+"*.rs", OB, CB, EQ, P+"state/market_state.rs", P+"utils.rs"], [("process functions", PR+"*.rs"), ("from_buffer, find_*, iter, peek_at, get_spread", P+"state/*.rs, "+P+"utils.rs")], (), ["account bytes, lamports and owners before and after each instruction and each query"])

prop("C30", "The work of an instruction does not grow with the size of the market",
 "The work of an instruction is bounded by what it processes: one order, the orders a new order meets (at most its match limit), the ids of a mass cancel, the events consumed, each at a cost bounded by the depth of the tree. It does not grow with the number of resting orders or queued events or with the accounts' sizes; the same holds for the memory it allocates, and for looking up an order, the best prices, the spread, an event or the queue's length.",
 ["inputs", "histories", "configurations"], "every instruction on markets of any size, in particular beyond 2^16 orders or events",
 "Tests use books of a few orders and never measure anything; work that grows with the market is only felt on chain, when large markets run out of compute.",
 [OB, CB, EQ, PR+"*.rs"], [("critbit walks and free lists", CB), ("match loop", OB), ("ring buffer", EQ)], (), ["control-flow edges and allocated bytes counted around each instruction and query"])

prop("C31", "A refusal names the rule that was broken",
 "An instruction that breaks a single rule fails with that rule's published error. Accounts: an event queue, bids or asks account other than the one recorded in the market (WrongEventQueueAccount, WrongBidsAccount, WrongAsksAccount); an account not owned by the program (WrongMarketOwner, WrongEventQueueOwner, WrongBidsOwner, WrongAsksOwner); an account it reads that does not carry the tag of its role (AccountTagMismatch). New order: a price off tick, or below one tick when posting is allowed (InvalidLimitPrice); an own order met under abort-transaction (WouldSelfTrade); more events than the queue has room for (EventQueueFull). Cancel and mass cancel: an id that does not rest (OrderNotFound). Close: orders or events left (MarketStillActive). Creation: zero minimum or tick size (InvalidArgument), an account below rent exemption (AccountNotRentExempt), of an unusable size (InvalidAccountData), a side that carries a tag (AccountAlreadyInitialized). Dispatch: data that does not decode (InvalidInstructionData), too few accounts (NotEnoughAccountKeys). When several rules are broken, the error is that of one of them.",
 ["inputs", "histories"], "every refused instruction, on every market state",
 "Tests look at one error code; a calling program that tells a full queue from a self trade, or a gone order from a wrong account, relies on all of them.",
 [P+"error.rs", PR+"*.rs", P+"processor.rs", OB, EQ, CB, P+"utils.rs"], [("AoError", P+"error.rs"), ("account checks", PR+"*.rs"), ("dispatch", P+"processor.rs")], (), ["error code of each refused instruction against the set of rules its input breaks"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
print(len(props), "properties;", "titles over 80:", [p["id"] for p in props if len(p["title"]) > 80])
