#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table (run by hand after an edit)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
X = "contracts/oraiswap-v3/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), note=note))

H = ["histories", "inputs", "configurations"]
HT = "all sequences of contract calls by any accounts, all pool configurations (fee, tick spacing, initial price, protocol fee up to 100%), all amounts up to the supported integer widths"

prop("C01", "Solvency: everybody can exit, in any order",
 "After any history of calls, every open position can be closed by its owner, every position's fees can be claimed and every pool's accrued protocol fee can be withdrawn, whatever the order in which the holders leave, out of the tokens the contract holds. Once all positions of a pool are closed its active liquidity is zero.",
 H, HT + "; all exit orders",
 "Tests exit at most one or two positions after a fixed script; rounding and tick bookkeeping errors of one unit only surface when the last holder leaves after particular price movements.",
 [X+"entrypoints/execute.rs", X+"entrypoints/common.rs", X+"storage/pool.rs", X+"storage/position.rs", X+"math/clamm.rs"],
 [("deposits round up, withdrawals and fee shares round down", X+"math/clamm.rs calculate_amount_delta"), ("fees are credited rounding down", X+"storage/pool.rs add_fee")],
 ["RemovePosition, ClaimFee, WithdrawProtocolFee succeed and are paid"],
 "generated histories against the real contract on a simulated bank/cw20 chain, then every holder leaves in a generated order; oracle: every exit call succeeds and liquidity ends at zero")

prop("C02", "Exact token movement: only what is owed moves, change is refunded",
 "A successful call moves exactly the amounts it owes: the caller pays exactly the required input of each token (native coins out of what it attached, the surplus of every attached coin going back to it; cw20 tokens by transfer from it), the payee receives exactly the amount due, and no other account's balance changes. A call whose attached native funds do not cover its total need is refused, an amply funded one is not, and a failed call moves nothing.",
 H, HT + "; all combinations of native and cw20 tokens, all attached amounts (short, exact, surplus, unrelated coin)",
 "Tests use cw20 tokens and exact funds almost everywhere; refunds, unneeded coins, several hops paid from one coin and mixed token kinds are combinations they do not enumerate.",
 [X+"entrypoints/execute.rs", X+"entrypoints/common.rs", X+"interface.rs"],
 [("asset transfer and refund helpers", X+"interface.rs Asset / AssetInfo"), ("per-call payment code", X+"entrypoints/execute.rs")],
 ["balances of all accounts in all tokens before and after each call"],
 "generated histories with all funding variants; oracle: full balance sheet predicted by the reference model, compared for every account and token after every call")

prop("C03", "Swaps execute at the exact concentrated-liquidity price",
 "Every swap that can be executed within its price limit takes and pays exactly the amounts given by constant-product liquidity between initialised ticks with the pool's fee - input rounded up, output rounded down, tick by tick in both directions, for exact input and exact output - and leaves the pool at exactly the resulting price, tick and active liquidity. Swaps that cannot (limit reached, limit on the wrong side, no liquidity left before the end of the price range, nothing to receive, zero amount) are refused.",
 H, HT,
 "Expected numbers in tests are recorded from a few runs of the same code; they cannot tell a pricing error from the intended result at other prices, liquidities, fees, spacings or tick layouts.",
 [X+"entrypoints/common.rs", X+"math/clamm.rs", X+"storage/pool.rs", X+"state.rs"],
 [("swap loop", X+"entrypoints/common.rs calculate_swap"), ("one step", X+"math/clamm.rs compute_swap_step"), ("tick crossing", X+"storage/pool.rs update_tick")],
 ["trader's balances, Pool query"],
 "generated histories; oracle: independent reference implementation of the swap in 512-bit integers computed from the list of open positions (no bitmap, no incremental liquidity), compared for amounts, price, tick, liquidity and accept/refuse")

prop("C04", "No free lunch: a trader cannot extract value by its own operations",
 "Starting from any reachable state, an account that performs any sequence of its own swaps, routes, position openings, fee claims and closings, and ends with no open position, never ends with more of some token and no less of every other, provided the pools' token graph offers no cyclic arbitrage. In particular swapping there and back, or opening and closing a position, never gains a unit.",
 H, HT + "; all sequences of one account's operations with nobody else acting",
 "Rounding in the trader's favour by a single unit, or fees paid out that were not earned, shows only at particular prices, liquidities and orders of operations.",
 [X+"math/clamm.rs", X+"storage/pool.rs", X+"storage/position.rs", X+"entrypoints/execute.rs"],
 [("rounding against the caller", X+"math/clamm.rs"), ("fee growth inside a range at opening", X+"storage/position.rs")],
 ["balances of the account before and after"],
 "generated background history, then a generated attacker sequence that closes all it opened; oracle: dominance check on the attacker's balance vector")

prop("C05", "Pool liquidity and ticks always equal the open positions",
 "After every call, each pool's active liquidity is the sum of the liquidities of the open positions whose range contains the current tick, each tick reports the gross and net liquidity of the open positions ending there together with its own price, and a tick is stored and marked initialised exactly when some open position ends at it. The current tick is always on the pool's grid and its price range contains the pool price.",
 H, HT,
 "Tests look at a few pools after scripted steps; the incremental bookkeeping can drift from the positions only along particular histories (shared ticks, exact landings on a tick, close and reopen).",
 [X+"storage/pool.rs", X+"storage/tick.rs", X+"storage/position.rs", X+"state.rs", X+"entrypoints/common.rs"],
 [("tick update on open/close", X+"storage/tick.rs"), ("crossing", X+"storage/pool.rs"), ("bitmap", X+"state.rs")],
 ["Pool, Tick, IsTickInitialized, TickMap, Position queries"],
 "generated histories; oracle: invariant recomputed after every call from the positions the contract itself reports")

prop("C06", "Trading fees go pro rata to in-range liquidity, once",
 "At any time a position's owed fees in each token are its share of the fees - after the protocol's part - of exactly those swap steps made since its last claim while its range contained the price, in proportion to its liquidity over the liquidity active in that step, rounded down. Claiming, or closing, pays exactly that amount and resets it: claiming twice pays nothing more, closing pays what claiming and then closing pays, and transfers of the position or operations of others do not change it.",
 H, HT + "; all claim times and orders",
 "Fee growth inside a range depends on the whole history of crossings relative to the range's opening; tests check single scripted crossings with one or two positions.",
 [X+"storage/pool.rs", X+"storage/tick.rs", X+"storage/position.rs", X+"math/types/fee_growth.rs"],
 [("fee growth inside a range", X+"math/types/fee_growth.rs calculate_fee_growth_inside"), ("claim", X+"storage/position.rs claim_fee")],
 ["balances of the owner on ClaimFee / RemovePosition"],
 "generated histories with claim sweeps on copies of the chain; oracle: per-position accumulator in the reference model (each swap step credits each position in range separately)")

prop("C07", "Protocol fee: accrues exactly and is withdrawn exactly once",
 "Each swap adds to the pool's protocol fee, in the input token, exactly the configured share of the fee charged in each swap step, rounded up; changes of the share affect later swaps only. A withdrawal by the pool's fee receiver pays it exactly the accrued amounts of both tokens, resets them to zero and changes nothing else, so that a second withdrawal pays nothing.",
 H, HT,
 "Tests use one or two fee settings and a single swap; accrual over multi-step swaps, changed settings and repeated withdrawals is a matter of histories.",
 [X+"storage/pool.rs", X+"entrypoints/execute.rs"],
 [("add_fee / withdraw_protocol_fee", X+"storage/pool.rs"), ("withdraw_protocol_fee", X+"entrypoints/execute.rs")],
 ["Pool query, balances of the fee receiver and the contract"],
 "generated histories; oracle: reference model's protocol counters after every call and paid amounts of every withdrawal")

prop("C08", "Only the admin administers, only the fee receiver withdraws",
 "Adding and removing fee tiers, changing the protocol fee, a pool's fee receiver or the admin succeed for the current admin and for nobody else, and protocol fees can be withdrawn by the pool's current fee receiver and by nobody else; the right passes on at once when the role is handed over. The admin, the protocol fee, the set of fee tiers and every pool's fee receiver are at all times what the accepted administrative calls made them: no other call changes them.",
 H, "all sequences of calls by all senders, including hand-overs of both roles and refused calls",
 "Tests try one wrong sender per call on a fresh contract; they do not follow role hand-overs or check that no other call touches the settings.",
 [X+"entrypoints/execute.rs", X+"contract.rs", X+"storage/config.rs"],
 [("sender checks", X+"entrypoints/execute.rs")],
 ["Admin, ProtocolFee, FeeTiers, Pool queries; accept/refuse of each call"],
 "generated histories of administrative calls by random senders; oracle: role model (accept iff entitled) and settings compared after every call")

prop("C09", "Only the owner or someone it authorised acts on a position",
 "A position is closed, burned, transferred, sent, or its fees claimed only by its owner or, for transfer, send and burn, by an operator of the owner or a spender approved for that very token whose approval has not expired; approvals are granted and revoked only by the owner or its unexpired operators, and end when the token changes hands. The value of a position closed, burned or claimed goes to its owner alone, and ownership, approvals and operators reported by queries (with and without expired ones) are exactly those granted; a send notifies exactly the receiving contract.",
 H, "all sequences of NFT calls by all accounts over all tokens, all expirations (never, height, time) and all times at which they are exercised",
 "The permission relation depends on grants, revocations, transfers, index reuse after removals and block time; tests check each message once in a fixed order.",
 [X+"entrypoints/execute.rs", X+"entrypoints/common.rs", X+"entrypoints/query.rs", X+"state.rs"],
 [("check_can_send / check_can_approve", X+"entrypoints/common.rs"), ("approval and operator storage", X+"state.rs")],
 ["accept/refuse of each call; OwnerOf, AllNftInfo, ApprovedForAll; balances; cw721 receive notification"],
 "generated NFT histories with time advancing; oracle: permission model, owner's payout, and query answers compared after every call")

prop("C10", "Position registry and enumeration are exact",
 "For every account the number of positions, each position by index, the paged position and token lists (for any offset and limit), the per-token info and the per-position boundary ticks describe exactly the positions that were opened or received and not closed or given away, with nothing lost, duplicated or left behind by removals, and the list of all tokens walked page by page yields every live token exactly once.",
 H, "all histories of opening, closing, burning and transferring positions; all paging parameters",
 "Removal swaps the last entry into the hole; tests remove from fixed lists and do not combine it with transfers between accounts and arbitrary paging.",
 [X+"state.rs", X+"entrypoints/query.rs", X+"entrypoints/execute.rs"],
 [("add_position / remove_position", X+"state.rs"), ("paged queries", X+"entrypoints/query.rs")],
 ["UserPositionAmount, Position, Positions, Tokens, AllTokens, NftInfo, PositionTicks"],
 "generated histories; oracle: list model of each account's positions compared with every enumeration query under generated paging")

prop("C11", "Quotes equal execution",
 "A swap quote succeeds exactly when executing the same swap, amply funded, in the same state would, and then states exactly the input taken, the output paid, the final price and the crossed ticks in their new state. A route quote (of a route visiting no pool twice) states exactly the final output of executing that route and that amount can be demanded as the minimum; quoting changes nothing.",
 H, HT + "; all routes over distinct pools",
 "Quote and execution share part of their code only; tests compare them for single swaps in one pool.",
 [X+"entrypoints/query.rs", X+"entrypoints/common.rs", X+"entrypoints/execute.rs"],
 [("quote", X+"entrypoints/query.rs"), ("swap", X+"entrypoints/common.rs swap")],
 ["Quote, QuoteRoute answers; balances, Pool and Tick queries after execution on a copy of the chain"],
 "generated histories; each swap or route is quoted, then executed on a copy of the chain state (differential oracle)")

prop("C12", "The caller's limits are enforced exactly",
 "A swap never moves the price past the caller's limit nor against its direction, and spends exactly the requested input (or yields exactly the requested output) with a non-zero gain; a route pays at least the expected amount less the allowed slippage, spends exactly its input and leaves the caller's intermediate tokens untouched; a position is opened, exactly as requested, only while the pool price is within the caller's bounds (inclusive). Requests that would break their limits are refused, and requests that keep them are not refused because of them.",
 H, HT + "; all limits including those met with equality or missed by one unit",
 "Limits are exercised in tests at a few values well inside or outside; equality and off-by-one depend on the exact rounding of the execution.",
 [X+"entrypoints/common.rs", X+"entrypoints/execute.rs", X+"math/clamm.rs", X+"storage/position.rs"],
 [("price limit", X+"entrypoints/common.rs calculate_swap"), ("minimum output", X+"math/clamm.rs calculate_min_amount_out"), ("slippage bounds", X+"storage/position.rs create")],
 ["accept/refuse, balances, Pool query"],
 "generated histories with limits placed at, and one unit beside, the value reached; oracle: limits checked on observed balances/prices, refusals against the reference model")

prop("C15", "Pool and fee-tier registry",
 "A pool is created exactly when its fee tier is registered, the two tokens differ, no pool of that pair (in either order) and tier exists, and the initial tick lies on the grid in range with the initial price inside that tick's range; it starts empty at that price with the admin as fee receiver. A fee tier is added exactly when its fee is below 100%, its spacing is between 1 and 100 and it is not registered yet, and removed exactly when registered - existing pools of a removed tier stay usable; pool, pool list, pair and tier queries report exactly this, independent of token order and paging.",
 H, "all sequences of tier and pool administration with valid and invalid parameters",
 "Tests create a handful of pools with fixed parameters; registry answers after removals, re-additions, token order and paging combinations are not enumerated.",
 [X+"entrypoints/execute.rs", X+"entrypoints/query.rs", X+"storage/pool_key.rs", X+"storage/fee_tier.rs", X+"state.rs", X+"math/types/sqrt_price.rs"],
 [("create_pool", X+"entrypoints/execute.rs"), ("PoolKey::new ordering", X+"storage/pool_key.rs"), ("check_tick_to_sqrt_price_relationship", X+"math/types/sqrt_price.rs")],
 ["CreatePool, AddFeeTier, RemoveFeeTier accept/refuse; Pool, Pools, PoolsForPair, FeeTiers, FeeTierExist"],
 "generated administration histories; oracle: registry model for accept/refuse and all registry queries under generated paging")

prop("C21", "Pools are isolated from each other",
 "A call changes no state of a pool it does not name, even of pools sharing a token, the pair, or the fee tier. No pool ever pays out more of a token - through swaps, closings, claims and protocol fee withdrawals together - than was paid into that pool, so one pool's holders are never paid with another's tokens.",
 H, HT + "; all sets of pools sharing tokens or tiers",
 "Tests mostly run one pool; a shared storage key or a cross-pool payment shows only with particular pairs of pools and a total balance that hides it.",
 [X+"state.rs", X+"storage/pool_key.rs", X+"entrypoints/execute.rs"],
 [("storage keys", X+"state.rs tick_key, bitmap_key"), ("pool key", X+"storage/pool_key.rs")],
 ["Pool, Tick, TickMap of other pools; token ledger per pool"],
 "generated histories over overlapping pools; oracle: byte-equality of untouched pools' query answers and a non-negative per-pool token ledger, also after everybody has left")

prop("C22", "Time accounting of pools and ticks",
 "A pool's start time is its creation time for ever and its last-update time is the last moment at which one of its positions was opened, closed or claimed or one of its ticks crossed. A tick counts the time the price spent on the other side of it, taking all of the pool's time as spent below when it is initialised at or below the current tick. A position keeps the height of the block it was opened in. For every open position, the time the pool spent with its price inside the position's range since it was opened is exactly what the stored ticks' outside times say, whatever crossings happened in between.",
 H, "all histories of swaps, openings and closings interleaved with any passage of block time",
 "Outside times flip at each crossing relative to their initialisation; tests look at one tick after one crossing.",
 [X+"storage/tick.rs", X+"storage/pool.rs", X+"entrypoints/common.rs"],
 [("Tick::cross and creation", X+"storage/tick.rs")],
 ["Pool and Tick queries"],
 "generated histories with block time advancing; oracle: per-position and per-tick clocks in the reference model compared with the stored ticks, pools and positions")

prop("C23", "Valid requests complete",
 "A call that satisfies its documented preconditions - sender entitled, parameters in range, funds sufficient, enough liquidity before the price limit - is not refused, in any reachable state and for amounts within the supported integer widths, and the pools it touched can be queried afterwards.",
 H, HT,
 "Overflow, missing-tick and iteration errors appear only in states reached by particular histories (full chunks, distant ticks, empty ranges, extreme prices).",
 [X+"entrypoints/execute.rs", X+"entrypoints/common.rs", X+"state.rs", X+"math/clamm.rs"],
 [("error paths of all entry points", X+"entrypoints")],
 ["accept/refuse of every call"],
 "generated histories of all message kinds; oracle: reference model's accept/refuse prediction, refusals allowed only where an intermediate exceeds its integer width")

exec(open(os.path.join(R, "tools/props_math.py")).read()) if os.path.exists(os.path.join(R, "tools/props_math.py")) else None
P.sort(key=lambda p: p["id"])
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        q = {k: v for k, v in p.items() if k != "note"}
        f.write(json.dumps(q) + "\n")
checks = []
for p in P:
    checks.append(dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick bash /verif/run.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bash /verif/run.sh {p['id']}",
        technique="property-based testing: " + p["note"], level=p.get("level", "exploration"),
        level_note="held on every generated case of the run; quick and thorough differ in the number and kind of cases only"))
json.dump(dict(version=1, setup_cmd="bash /verif/run.sh build", checks=checks, not_applicable=[]), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md
import glob
t = ""
for p in P:
    t += f"**{p['id']} {p['title']}.** How it is decided: {p['note']}. Quantifier: {p['quantifier']['text']}. Beyond the tests: {p['why_tests_cant']}\n\n"
res = {}
rp = os.path.join(R, "tools/seed_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
st = "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    st += f"| {i} | {d['property']} | {d['what_it_breaks']} (needs: {d['needs']}) | {res.get(i, '-')} |\n"
s = open(os.path.join(R, "tools/DESIGN.in.md")).read().replace("HISTORY_TABLE", t.strip()).replace("SEED_TABLE", st.strip())
open(os.path.join(R, "DESIGN.md"), "w").write(s)
