#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as code so that the long records stay reviewable).
import json
T31 = ("The 31 tests that run reliably drive the in-memory order book with a handful of fixed sequences; the integration tests that "
       "go through the on-chain entry point cannot run here, so ")
FIFO="src/state/markets/fifo.rs"; NEW="src/program/processor/new_order.rs"; LOAD="src/program/validation/loaders.rs"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=T31+why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        observe_at=observe or ["phoenix::process_instruction (accounts in, accounts out)"],hook_needed=hook)))

prop("C01","Vaults always exactly back every trader's claim",
 "After every instruction, each market vault holds exactly the sum, over all registered traders, of free plus locked funds in that token (converted to token atoms), plus, for the quote vault, the fees taken but not yet collected. "
 "Each trader's locked funds equal exactly what that trader's resting orders need (quote value of the bids, base size of the asks). No instruction sequence can make the market insolvent or strand tokens in it.",
 ["histories","inputs","configurations"],"every sequence of instructions by any set of traders, for every lot size, tick size and fee setting",
 "no test ever compares vault token balances with the books after arbitrary histories",
 [FIFO,NEW,"src/state/trader_state.rs","src/program/token_utils.rs","src/program/processor/withdraw.rs","src/program/processor/deposit.rs"],
 [("trader state lock/unlock arithmetic","src/state/trader_state.rs"),("lots to atoms conversion on every token transfer",NEW),("fee accrual",FIFO)],
 [("trader_state","free and locked lots per trader",FIFO),("unclaimed fees","quote lots of fee not yet collected",FIFO)])

prop("C02","Value is conserved and bystanders are untouched",
 "For every token, the sum of all wallets and vaults is the same before and after each instruction, and each trader's total change (wallet plus free plus locked) equals what the trades, fees and transfers of that instruction explain. "
 "A trader who neither signs the instruction nor is a counterparty whose resting order is traded against, expires or is evicted keeps every order, every free and locked lot and every token. "
 "An instruction that fails changes nothing.",
 ["histories","inputs"],"every instruction at every reachable state, with every other trader as a bystander",
 "tests check the balances of the participants they set up, never those of every other trader after every instruction",
 [FIFO,NEW,"src/program/token_utils.rs"],[("per-trader state keyed by public key",FIFO),("inflight order/resting order settlement",FIFO)])

prop("C03","Matching follows price-time priority at the maker's price",
 "An incoming order trades against the opposite side strictly from best price to worst and, within a price, from the earliest placed order to the latest; it never skips a live order that is better placed. "
 "Every fill happens at the resting order's price, and after the instruction each traded order is reduced by exactly the traded size (removed at zero) while its owner is credited exactly size times price.",
 ["histories","inputs","configurations"],"every book reachable by placements, cancels, reductions and fills, and every incoming order",
 "tests use a few fixed books; priority after mixes of cancels, partial fills, evictions and amended prices is not enumerated",
 [FIFO],[("order key ordering and tree iteration",FIFO),("matching loop",FIFO)])

prop("C04","A taker never trades beyond the limits it set",
 "No fill is worse than the order's limit price, and an order never buys or sells more base, nor spends or receives more quote (fee included), than its size allows, while it trades as much as those limits and the live book permit. "
 "An immediate-or-cancel order whose minimum fill cannot be met (including fill-or-kill) fails without effect and otherwise never leaves a resting order; a limit order rests exactly its unfilled remainder (or nothing, where resting it would cross the book because its match limit stopped it early). "
 "The number of resting orders consumed never exceeds the match limit it specified.",
 ["inputs","histories"],"every order packet (side, price, base or quote budget, minimum fills, match limit) at every reachable book",
 "budget, minimum-fill and match-limit corner cases (equal, one more, one less, partial last fill, quote budget with fees) are sampled at a few points only",
 [FIFO,"src/state/inflight_order.rs","src/state/order_schema/order_packet.rs"],[("inflight order budgets",FIFO),("min fill checks",FIFO)])

prop("C05","Fees are exact, charged to takers only, and fully accounted",
 "Each taker pays exactly the market's fee rate applied to the quote amount traded, rounded up to a whole quote lot, on top when buying and deducted when selling; makers never pay, and quote budgets include the fee. "
 "Uncollected fees grow by exactly the fees charged, and collection moves exactly that amount from the quote vault to a token account of the current fee recipient, leaving zero uncollected and adding it to the collected total.",
 ["inputs","histories","configurations"],"every fee rate from 0 to 100 percent, every trade size and price, every interleaving of trades and collections",
 "fee tests use one or two rates and round numbers; rounding boundaries and repeated collections are not covered",
 [FIFO,"src/program/processor/fees.rs"],[("fee rounding",FIFO),("fee collection",FIFO)])

prop("C06","Post-only orders never take liquidity",
 "A post-only order never trades. When it would cross the best live opposite order it is either rejected without any effect or, if its owner allowed amending, rests one tick inside that best opposite price; otherwise it rests exactly at its own price and size.",
 ["inputs","histories"],"every post-only packet (price, size, reject flag, expiry, funding mode) at every reachable book",
 "tests cover single crossing situations, not books whose top orders are expired, owned by the same trader or at the lowest price",
 [FIFO],[("post-only cross check",FIFO)])

prop("C07","The book is never crossed and always well formed",
 "After every instruction the best live bid is strictly below the best live ask. Every resting order has positive size and price, belongs to a registered trader, and both sides are sorted by price and then by placement order with no duplicate identifiers.",
 ["histories","inputs"],"every reachable market state",
 "the invariant is never asserted over whole histories",
 [FIFO],[("crossing check before posting",FIFO),("ordered storage of both sides",FIFO)])

prop("C08","Self-trades follow the behaviour the taker chose",
 "An order never trades with its owner's own resting orders. When the next match would be such an order then, as the taker selected, the whole instruction fails, or the resting order is cancelled and its funds released, or both are reduced by the overlapping size with no fill, no fee and no payment.",
 ["inputs","histories"],"every self-trade mode, side, size relation and position of own orders among others'",
 "one or two fixed books per mode are tested, with no combination of modes, budgets, expiries and other makers",
 [FIFO],[("self trade handling in the matching loop",FIFO)])

prop("C09","Expired orders never trade and return their funds",
 "A resting order is never traded once the current slot or time is past its last valid slot or time, and it can be traded up to and including that instant. When a matching or crossing check meets an expired order it is removed and its full collateral is returned to its owner's free funds; an incoming order that is already expired has no effect.",
 ["inputs","histories"],"every combination of last valid slot and time, current slot and time (before, equal, after) and resting/incoming role",
 "expiry tests use one expiry field at a time and one position in the book",
 [FIFO,"src/state/order_schema/order_packet.rs"],[("resting order expiry",FIFO),("packet expiry","src/state/order_schema/order_packet.rs")])

prop("C10","Cancelling and reducing affects only one's own named orders, exactly",
 "Reduce, cancel by id, cancel up to a price and cancel all remove or shrink only orders owned by the instruction's trader that match the request (side, price bound, search and cancel counts), release exactly their collateral, and leave the rest of the book and its priority unchanged. "
 "A reduced order keeps its place in the queue; naming a missing order has no effect and naming another trader's order never changes it. Released funds stay as free funds in the free-funds variants and are paid out to the trader's token accounts otherwise.",
 ["inputs","histories"],"every cancel and reduce request (including duplicates, wrong side, zero, oversize) at every reachable book",
 "tests issue well-formed requests for the caller's own orders",
 [FIFO,"src/program/processor/cancel_multiple_orders.rs","src/program/processor/reduce_order.rs"],[("cancel/reduce in the market",FIFO),("withdrawal after cancel","src/program/processor/cancel_multiple_orders.rs")])

prop("C11","Deposited-funds trading never touches a wallet",
 "Instructions that trade with deposited funds only, and the free-funds variants of cancel and reduce, move no tokens at all: everything is settled against the trader's free funds on the market. "
 "They fail without effect when the free funds do not cover the order, and never make a trader's free or locked funds wrap or go negative.",
 ["inputs","histories"],"every deposited-funds order, swap, multi-order and cancel at every reachable state and every level of free funds",
 "tests of this mode use amply funded traders; exact-boundary funding and partial fills are not enumerated",
 [FIFO,NEW],[("use-only-deposited-funds settlement",FIFO)])

prop("C12","Deposits and withdrawals are exact and withdrawal is always possible",
 "A deposit moves exactly the stated lots from the signer's token accounts to the vaults and to the signer's free funds. A withdrawal pays the signer exactly the smaller of the requested and free amounts (all when unspecified), in every market status in which the market still holds funds and whether or not the signer's seat is approved. "
 "Locked funds can never be withdrawn.",
 ["inputs","histories","configurations"],"every amount around the free balance, every status and seat state",
 "deposit and withdrawal processing is not exercised by any runnable test",
 ["src/program/processor/withdraw.rs","src/program/processor/deposit.rs",FIFO],[("withdraw","src/program/processor/withdraw.rs"),("claim funds",FIFO)])

prop("C13","A full book only evicts a strictly worse-priced order",
 "When a side of the book is at capacity a new order is accepted only if its price is strictly better than the worst resting order's; then exactly that worst order (the most recent at the worst price) is removed, its full collateral returned to its owner's free funds, and everything else is untouched. Otherwise the new order is rejected without effect.",
 ["inputs","histories","configurations"],"every full or almost full book reached, either side, every relation of new price to worst price",
 "only one unit test fills a book, on one side and price pattern, and it does not look at balances or ties",
 [FIFO],[("eviction when the side is full",FIFO)])

prop("C14","A batch of post-only orders is equivalent to placing them one by one",
 "Submitting several post-only orders in one instruction has the same effect on the book and on the trader's total funds as placing the bids and then the asks one after another, most aggressive first and earlier first among equals, where identical neighbouring orders are merged; batches whose bids and asks overlap are rejected. "
 "Orders that cross are rejected or amended, and orders that cannot be funded fail the whole batch or are skipped, exactly as the batch's mode says, and exactly the tokens needed beyond the free funds are taken from the wallet.",
 ["inputs","histories"],"every small batch (order, duplicates, crossing, funding) in every mode at every reachable book",
 "multi-order placement processing is not exercised by any runnable test",
 [NEW,"src/state/order_schema/order_packet.rs"],[("multiple order placement",NEW)])

prop("C15","The event log fully and truthfully describes every state change",
 "Every market instruction emits a log whose header carries the instruction, the market, the signer, the clock and a sequence number that grows by one per instruction, and whose events are numbered consecutively from zero across batches with matching counts. "
 "Replaying the logged fills, placements, reductions, evictions and expiries from an empty book reproduces the order book, and fees and summaries equal what was charged and traded, even when an instruction produces more events than fit one batch.",
 ["histories","inputs"],"every instruction at every reachable state, including instructions with hundreds of events",
 "no runnable test inspects emitted logs",
 ["src/program/event_recorder.rs","src/program/events.rs",FIFO],[("event recorder batching","src/program/event_recorder.rs"),("event emission",FIFO)])

prop("C16","Order identifiers are unique, side-tagged, FIFO, and returned to the caller",
 "Every placed order gets an identifier never used before on that market whose sequence number encodes its side and placement order, and an instruction that places orders returns exactly the identifiers of the orders it left resting, in placement order. "
 "Identifiers and client ids stay attached to the order through partial fills and reductions; when the identifier space is exhausted placing fails instead of reusing one.",
 ["histories","inputs"],"every history, including sequence numbers at the end of their range",
 "return data is not inspected by any runnable test and sequence exhaustion is not reached",
 [FIFO,NEW,"src/state/enums.rs"],[("order id construction",FIFO),("return data",NEW)])

prop("C17","Only the rightful accounts and signers can drive each instruction",
 "An instruction takes effect only if every account it needs is the genuine one: the market owned by the program, the market's own vaults, token accounts of the right mint belonging to the trader, the trader's own seat, the genuine log authority and programs, and the required signer actually signing. "
 "Substituting any account by another plausible one, dropping a signature, or calling another party's privileged instruction is rejected with no effect. Nobody but the program itself can write to the event log.",
 ["fault_sequences","inputs"],"for every instruction: every single substitution of any account by every other account of the world, dropped signer/writable flags, removed accounts",
 "account validation is not exercised by any runnable test",
 [LOAD,"src/program/validation/checkers/phoenix_checkers.rs","src/program/validation/checkers/token_checkers.rs","src/program/validation/checkers/mod.rs","src/lib.rs"],
 [("account loaders",LOAD),("seat, vault and market checks","src/program/validation/checkers/phoenix_checkers.rs"),("token account checks","src/program/validation/checkers/token_checkers.rs")])

prop("C18","Market status gates what may happen",
 "Trades against resting orders happen only while the market is active; new orders, deposits and seat requests only while it is active or post-only; cancels and withdrawals stay possible until it is tombstoned. "
 "Only the authority changes the status and only along the documented transitions. Tombstoning is possible only for a closed market with no orders, no registered traders and no uncollected fees, and then returns all its rent to the chosen receiver.",
 ["histories","configurations"],"every status, every requested transition, every instruction in every status, every occupancy of the market",
 "status gating lives in processors no runnable test reaches; tests only check the transition table in isolation if at all",
 ["src/program/status.rs","src/program/processor/governance.rs",NEW,LOAD],[("status predicates","src/program/status.rs"),("status change","src/program/processor/governance.rs")])

prop("C19","Seats gate trading, and eviction never loses a trader's funds",
 "Only a trader holding an approved seat for the market can place orders or deposit; seat approval changes only by the authority along the documented transitions, and approval registers the trader while revoking it leaves their funds and orders intact. "
 "A trader can be removed from the market only when not approved and with nothing locked, and all of their free funds are paid to their own token accounts; forced cancellation applies only to traders without approval and pays out everything released.",
 ["histories","inputs"],"every seat state, every seat and eviction instruction, every fund/order situation of the trader, including pre-funded seat addresses",
 "seat management is not exercised by any runnable test",
 ["src/program/processor/manage_seat.rs","src/program/processor/cancel_multiple_orders.rs","src/program/processor/withdraw.rs","src/program/system_utils.rs","src/program/validation/checkers/phoenix_checkers.rs"],
 [("seat approval and eviction","src/program/processor/manage_seat.rs"),("evict and force-cancel","src/program/processor/withdraw.rs, src/program/processor/cancel_multiple_orders.rs")])

prop("C20","Market creation is validated and happens once",
 "A market can be created only on a fresh account large enough for the requested capacity, with its two mints, positive lot and tick sizes that divide evenly, and a fee of at most 100 percent, and then starts post-only with an empty book, the creator as authority, exactly the requested parameters, and two empty vaults it controls. "
 "A market can never be initialised again, and unsupported sizes are rejected without effect.",
 ["inputs","configurations"],"every combination of sizes, decimals, lot and tick parameters and fee around the validity boundaries; repeated initialisation in every status",
 "initialisation is not exercised by any runnable test",
 ["src/program/processor/initialize.rs","src/program/dispatch_market.rs","src/program/token_utils.rs","src/program/system_utils.rs"],
 [("parameter validation","src/program/processor/initialize.rs"),("size dispatch","src/program/dispatch_market.rs")])

prop("C21","Market authority and fee recipient change hands only by consent",
 "Authority passes only to the successor the current authority named, and only when that successor claims it; until then the old authority keeps all powers and afterwards has none. "
 "Status changes, seat approvals, evictions, forced cancels and fee-recipient changes are possible for the current authority only, and the fee recipient changes while fees are uncollected only with the current recipient's signature.",
 ["histories","inputs"],"every sequence of naming, claiming, recipient change and privileged calls by every party",
 "governance is not exercised by any runnable test",
 ["src/program/processor/governance.rs","src/program/processor/fees.rs",LOAD],[("authority succession","src/program/processor/governance.rs"),("fee recipient change","src/program/processor/fees.rs")])

prop("C22","Instruction and order encodings are decoded faithfully and compatibly",
 "Orders in the current encoding and in each older, shorter encoding are understood with the same meaning, missing trailing fields taking their neutral default; every order kind is accepted only by the instructions meant for it, and malformed, truncated or trailing-garbage data is rejected without effect. "
 "Transactions built with the published instruction builders address the accounts the program expects, and the published order constructors and accessors build and report exactly the order they name.",
 ["inputs"],"every order kind, every optional field present or absent, every truncation length and tag byte; every published builder",
 "tests decode a handful of packets and never go through the entry point",
 ["src/state/order_schema/order_packet.rs",NEW,"src/lib.rs","src/program/instruction_builders/market_instructions.rs"],[("packet decoding","src/state/order_schema/order_packet.rs"),("instruction dispatch","src/lib.rs")])

prop("C23","Read-only market views agree with the market state",
 "The price ladder, order listings, trader balances, sequence number and fee totals that clients read from a market account always agree with the state: levels aggregate exactly the live resting orders at each price, best first, cut at the requested depth, and expired orders are left out when a clock is given.",
 ["histories","inputs"],"every reachable market state, every depth and clock",
 "one or two fixed books are compared",
 ["src/state/markets/market_traits.rs",FIFO,"src/program/dispatch_market.rs"],[("ladder aggregation","src/state/markets/market_traits.rs")])

prop("C24","Orders take exactly their collateral, free funds first",
 "An accepted order takes from its trader exactly the traded amounts, fees and collateral of what it leaves resting: first out of the trader's free funds on the market, and only the shortfall from the wallet, while proceeds go to the wallet (or to free funds when trading with deposited funds only). "
 "If the trader cannot cover it the instruction fails without effect, except that a limit or post-only order flagged to fail silently succeeds without any effect when the funds cannot cover its full limit price and size.",
 ["inputs","histories"],"every order at every level of free and wallet funds around the exact need",
 "funding paths live in processors no runnable test reaches",
 [NEW,FIFO],[("funding checks and transfers",NEW),("deposit computation",FIFO)])

prop("C25","A market behaves the same at every supported size",
 "Every supported combination of bid, ask and seat capacity accepts exactly that many orders and traders and otherwise gives identical results for identical instruction sequences.",
 ["configurations","histories"],"all supported size combinations, common histories, and fills up to the capacity",
 "tests use a single hard-coded size",
 ["src/program/dispatch_market.rs",FIFO],[("size dispatch","src/program/dispatch_market.rs")])

prop("C26","A market can always be wound down and everyone paid out",
 "Whatever has happened on a market (any orders, fills, expiries, fees, status changes and seat decisions), nothing in it can get stuck. Every trader can get out alone: it can cancel all its orders and withdraw, which pays out exactly everything it has locked or free. "
 "The authority can get everyone out without their help: revoke or retire a seat, force-cancel that trader's orders, and evict it, which pays all it owns to its own token accounts. After that the fees can be collected, the market can be closed and deleted, and both of its vaults are then empty. "
 "A trader put out in this way can be approved again and trade as before.",
 ["histories"],"from every explored state, complete wind-downs by the traders and by the authority, and an eviction with a comeback",
 "a dead end is a property of histories followed by further histories; tests wind no market down",
 [FIFO,"src/program/processor/governance.rs","src/program/processor/withdraw.rs","src/program/processor/manage_seat.rs"],[("deletion of a market","src/program/processor/governance.rs"),("eviction","src/program/processor/withdraw.rs"),("order removal",FIFO)])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
