W_ = "wasm/"
prop("C13", "Ticks and prices convert exactly, over the whole range and every spacing",
 "In the contract and the SDK alike, the sqrt price of every tick is 1.0001^(tick/2) to within 4e-9 (its fixed-point product of the truncated powers, so strictly increasing), and the tick of a price, for every spacing 1..100, is the greatest multiple of the spacing whose price does not exceed it: for every tick, for the prices one unit below and above it, and for any price between. Ticks and prices outside the range are refused, the range's ends per spacing are the outermost multiples of it, and a price is accepted for a tick exactly when it lies from that tick's price up to, not including, the next one's (at the top: equals it).",
 ["inputs"], "all 443,637 ticks; all prices from the minimum to the maximum; all tick spacings",
 "Tests convert a handful of ticks; a wrong digit in one factor or a rounding slip in the logarithm affects few of the 443,637 ticks and only prices next to a tick.",
 [X+"math/log.rs", X+"math/types/sqrt_price.rs", W_+"log.rs", W_+"types/sqrt_price.rs", W_+"helpers.rs"],
 [("table of factors", X+"math/types/sqrt_price.rs calculate_sqrt_price"), ("logarithm with correction", X+"math/log.rs get_tick_at_sqrt_price")],
 ["calculate_sqrt_price, get_tick_at_sqrt_price, check_tick_to_sqrt_price_relationship, get_max_tick, get_min_tick and prices of both crates"],
 "every tick and its two neighbouring prices for every relevant spacing (enumerated), plus generated prices; oracle: independently derived table of powers with binary search, floating-point powers for accuracy")
prop("C14", "The tick bitmap is an exact ordered set",
 "After any sequence of initialisations and de-initialisations, a tick is reported initialised exactly when it is, the search upwards finds the nearest initialised tick strictly above and the search downwards the nearest at or below, within 256 steps of the spacing and never beyond the range, the stop a swap takes from there is that tick, or the search limit, or the caller's price limit, whichever comes first, and flipping a tick to the state it already has is refused. Pools do not see each other's ticks. The SDK's tickmap behaves the same.",
 ["histories", "inputs"], "all sets of ticks, all spacings 1..100, all start ticks, both directions, several pools in one store",
 "Searches go wrong only at chunk borders, at exactly 256 steps and at the ends of the range; tests use a few positions around zero.",
 [X+"state.rs", X+"storage/tickmap.rs", W_+"collections/tickmap.rs"],
 [("flip, search, closer limit", X+"state.rs flip_bitmap next_initialized prev_initialized get_closer_limit"), ("positions", X+"storage/tickmap.rs tick_to_position")],
 ["state::get_bitmap, next_initialized, prev_initialized, get_closer_limit; Tickmap of the SDK"],
 "generated sequences of flips and searches over three pools sharing a store, model-based; oracle: an ordered set of ticks")
prop("C16", "The SDK's swap simulation equals the contract",
 "Given the pool, its tick bitmap and its liquidity ticks (in any order) as the contract's queries report them, the SDK's simulated swap reports exactly the input, output, fee, final price and crossed ticks of the contract's swap with the same direction, amount, kind and limit, and raises none of its flags, whenever the contract would execute it crossing at most 173 ticks; a swap the contract refuses is refused by the simulation or flagged or yields nothing. A simulation that needs a tick it was not given says that its state is outdated, and one that needs more than 173 crossings says that it stopped.",
 H, HT + "; all swaps (direction, amount, exact input or output, limit) in every reachable pool state",
 "The SDK is a second implementation without tests against the contract: they drift apart only in particular states and amounts.",
 [W_+"swap.rs", W_+"storage/pool.rs", W_+"storage/tick.rs", W_+"clamm.rs", W_+"collections/tickmap.rs", X+"entrypoints/common.rs"],
 [("simulation loop", W_+"swap.rs simulate_swap"), ("crossing", W_+"storage/pool.rs update_tick, "+W_+"storage/tick.rs LiquidityTick::cross")],
 ["simulate_swap's result against the contract's Quote answer"],
 "generated histories on the contract, after each call generated swaps are simulated from the contract's own query answers (differential oracle: the contract's quote, the reference model for the fee)")
prop("C17", "SDK arithmetic equals the contract's",
 "Every computation the SDK shares with the contract - price steps, token deltas, swap steps, amounts of a liquidity change, fee growth, position fees, minimum output, enough-to-move test, ticks and prices, chunk and limit constants, fixed-point conversions - returns for every input the same value as the contract, and fails where the contract fails.",
 ["inputs"], "all argument values of the shared functions, over their full integer ranges",
 "Two copies of the same formulas; tests of each sample a few values and never both together.",
 [W_+"clamm.rs", W_+"math.rs", W_+"helpers.rs", W_+"consts.rs", W_+"types", X+"math/clamm.rs", X+"logic/math.rs"],
 [("SDK copies of the contract's arithmetic", W_+"clamm.rs, "+W_+"types/*, "+W_+"storage/*")],
 ["return values of the paired public functions"],
 "boundary-biased generated arguments to both copies (differential oracle), all shared constants compared")
prop("C18", "Fixed-point library: exact results, stated rounding, no silent wrap",
 "Every operation of the decimal library on every declared type - sums, differences, products and quotients in either rounding, by another type, big variants, conversions between scales and integer widths, square root, checked operations, comparison constants, printing - yields exactly the mathematically exact result rounded the way its name says; a result that does not fit its type is refused (error or abort), never wrapped, except by the operations documented as wrapping.",
 ["inputs"], "all raw values of all decimal types (seven of the contract, six further widths and scales), all pairs of types",
 "Rounding and overflow matter at the few values next to a multiple of the scale or the end of the integer; tests sample round numbers.",
 ["packages/decimal", "packages/decimal-core"],
 [("generated operations", "packages/decimal-core/src/*.rs"), ("traits", "packages/decimal/src/*.rs")],
 ["results of Decimal, BigOps, CheckedOps, Factories, Conversion, BetweenDecimals operations"],
 "boundary-biased generated operands for each pair of types; oracle: exact 512-bit integer arithmetic")
prop("C19", "Rounding is below one unit and always favours the pool",
 "Judged against exact real-number values at the pool's price: opening a position takes the exact value of each token rounded up, and closing it pays the principal's exact value rounded down, each within one unit (for the first token up to a relative 1e-14); a swap takes at least the exact amount the liquidity between the old and the new price needs plus the fee on it, and pays at most the exact amount it releases.",
 H, HT,
 "Tests compare with numbers recorded from the code itself; a rounding in the wrong place changes the result by one unit at some prices only.",
 [X+"math/clamm.rs", X+"storage/pool.rs", X+"entrypoints/execute.rs"],
 [("deltas with rounding direction", X+"math/clamm.rs get_delta_x get_delta_y calculate_amount_delta compute_swap_step")],
 ["balances moved by CreatePosition, RemovePosition, Swap; Pool price"],
 "generated histories; oracle: exact fractions in 512-bit integers from the pool price and the list of positions, independent of the code's formulas")
prop("C20", "Liquidity helpers tell the truth about amounts and liquidity",
 "For every tick range, price and pair of offered amounts, the helpers of contract and SDK that turn token amounts into liquidity return the liquidity those amounts pay for (to their documented precision, never more than the exact value when rounding down) together with the amounts that opening such a position takes, within what was offered for the determining token; they refuse ranges that make no sense, and never abort on a valid range and price, including prices exactly at a bound.",
 ["inputs"], "all tick ranges, all prices (inside, at and outside the bounds), all amounts, both roundings",
 "Tests cover a few ranges with the price well inside; the bounds, tiny and huge amounts are where the formulas break.",
 [X+"logic/math.rs", W_+"math.rs", W_+"helpers.rs"],
 [("get_liquidity, get_liquidity_by_x, get_liquidity_by_y, calculate_x, calculate_y", X+"logic/math.rs, "+W_+"math.rs")],
 ["return values of the helpers"],
 "generated ranges, prices at, next to, inside and outside the bounds, and amounts; oracle: exact 512-bit arithmetic of the documented formulas and the exact value as an upper bound")
prop("C24", "Tick queries report exactly the initialised ticks",
 "After every call, for every window on a pool's grid, the tick-initialised query, the tick query, the tick count (inclusive at both ends), the bitmap chunks (in the requested direction, every non-empty chunk touched by the window, up to the documented 1638) and the liquidity ticks (for up to 780 listed indices, in the order asked) describe exactly the ticks at which open positions end, with their net liquidity; windows off the grid, outside the range or reversed, and lists naming an uninitialised tick, are refused.",
 H, HT + "; all windows, directions and index lists",
 "Windows that start or end at chunk borders, at initialised ticks or at the ends of the grid, and answers of maximal size, are not among the windows tests try.",
 [X+"entrypoints/query.rs", X+"entrypoints/common.rs", X+"storage/tickmap.rs", X+"state.rs"],
 [("count and chunks", X+"entrypoints/query.rs get_liquidity_ticks_amount get_tickmap get_liquidity_ticks"), ("chunk slices", X+"entrypoints/common.rs tickmap_slice")],
 ["IsTickInitialized, Tick, LiquidityTicksAmount, TickMap, LiquidityTicks queries"],
 "generated histories (and pools with ticks in over 1600 chunks); oracle: the ordered set of end ticks of the open positions")

prop("C25", "Events report exactly what happened",
 "Every successful call emits exactly one action attribute naming it, and the other attributes are true: a swap's amount_in and amount_out and a route's amount_out are what the caller paid and received, claim_fee's amounts are what was paid out, create_position and remove_position (also through mint and burn) name the position's owner, its liquidity, its two ticks and the pool's current price, and the NFT and admin calls name the accounts they concern.",
 H, HT,
 "Tests do not look at events; an indexer that trusts them goes wrong when one branch reports another amount than it moves (refund, burn by a spender, swapped ticks).",
 [X+"entrypoints/execute.rs"],
 [("attributes of every response", X+"entrypoints/execute.rs")],
 ["attributes of the execute responses, balances, Position and Pool queries"],
 "generated histories; oracle: balances before and after, the position and pool as queried")
prop("C26", "Pools of arbitrary tokens are told apart, in either order",
 "For any set of distinct token names (prefixes of one another, equal when concatenated, any length and characters) and any fee tiers, each unordered pair with a tier is at most one pool: it can be created once in either token order and never with twice the same token, is read back in either order with the price, tick and time it was created with, is listed exactly once with the same names by Pools (any page size) and PoolsForPair, and the ticks of its positions are its alone. Pools never created cannot be read.",
 ["inputs", "histories"], "all token names, all fee tiers, all sets of pools over them, both token orders, all page sizes",
 "Tests use two or three similar names; a key that drops a length, a byte of the fee or the order of the tokens collides only for particular names.",
 [X+"storage/pool_key.rs", X+"storage/fee_tier.rs", X+"state.rs", X+"entrypoints/query.rs"],
 [("length-prefixed key and its decoding", X+"storage/pool_key.rs"), ("fee tier bytes", X+"storage/fee_tier.rs"), ("tick and bitmap keys", X+"state.rs")],
 ["CreatePool, Pool, Pools, PoolsForPair, Tick, IsTickInitialized, LiquidityTicksAmount"],
 "generated token names and tiers, sequences of pool and position creations on the real contract; oracle: a map keyed by the pair and tier")
prop("C27", "Deployment starts empty, migration changes nothing",
 "A fresh deployment has the deployer as admin, the given protocol fee and no tiers, pools or positions. Migrating the contract at any point of any history (also repeatedly) succeeds, sends no messages and leaves every query's answer as it was, positions stored before approvals existed included, and every later call has the same outcome, transfers and events as without the migration.",
 H, HT + "; all points of migration",
 "No test migrates a contract with state.",
 [X+"contract.rs", X+"storage/position.rs", X+"state.rs"],
 [("instantiate and migrate", X+"contract.rs"), ("default of the approvals field", X+"storage/position.rs Position")],
 ["instantiate, migrate, then all queries and calls"],
 "generated histories continued on a migrated contract and on its unmigrated twin (metamorphic oracle)")
prop("C28", "SDK previews equal what the contract pays",
 "At every point of every history, the client SDK fed with the contract's own answers (pool, position, ticks) tells the exact truth: its fee preview for a position is, to the token, what claiming pays at that moment, its amount preview for a position's liquidity is what closing pays on top of those fees, and its rounded-up amount preview is what opening a position costs the sender.",
 H, HT + "; all open positions at every point",
 "The SDK has its own copy of the fee and amount arithmetic; a copy that swaps the two ticks, wraps differently or rounds the other way agrees with the contract on the states tests build.",
 ["wasm/custom.rs", "wasm/clamm.rs", "wasm/types", X+"storage/position.rs", X+"math/clamm.rs"],
 [("calculate_fee and calculate_amount_delta of the SDK", "wasm/custom.rs"), ("claim_fee, remove and create of the contract", X+"storage/position.rs")],
 ["SDK calculateFee and calculateAmountDelta; Pool, Position, Tick queries; balances after ClaimFee, RemovePosition, CreatePosition"],
 "generated histories on the real contract with the SDK as the second implementation (differential oracle)")
prop("C29", "Messages do what their JSON says",
 "Clients talk to the contract in JSON. A message written with the published names (snake_case, 128-bit amounts, prices and liquidity as decimal strings, fees and ticks as numbers, token ids in base64, optional fields given, null or absent) does exactly what it says, whatever the order of its fields or blanks between them. A text that is not exactly one such message (a mandatory field missing or null, an unknown field, a number out of range, negative, fractional or of the wrong kind, another variant name, two messages, trailing or missing text) is refused and changes nothing: no limit, amount or direction is ever filled in silently. Answers carry the true values under the published names.",
 H, HT + "; at every accepted call also several malformed variants of it",
 "Tests build messages as Rust values with the same types the contract parses, so a renamed, defaulted or leniently read field agrees with itself and no test can see it.",
 [X+"msg.rs", X+"interface.rs", X+"storage/pool_key.rs", X+"storage/fee_tier.rs", X+"storage/pool.rs", X+"storage/position.rs", X+"storage/tick.rs"],
 [("ExecuteMsg, QueryMsg, InstantiateMsg, MigrateMsg", X+"msg.rs"), ("SwapHop and the answer types", X+"interface.rs"), ("Pool, Position, Tick, FeeTier, PoolKey as JSON", X+"storage")],
 ["raw JSON to instantiate/execute/query; raw JSON answers; balances and stored state"],
 "generated histories in which every call is also sent as JSON written by hand (metamorphic relation with the typed call), mutated into malformed texts that must be refused, and answers read as plain JSON against the model")
prop("C30", "Strangers cannot make a call more expensive",
 "The work a call or a query with a fixed page size does (storage operations and bytes read and written, what gas is charged for) depends on the call and on the ticks it walks over, not on how much everybody else has stored: after strangers have opened any number of positions on existing ticks, registered pools of their own tokens, granted approvals and given their positions away to anyone, the same call by the same sender costs what it cost before, up to a small constant.",
 H, HT + "; every call and query on a quiet chain and on the same chain crowded by strangers",
 "A loop over all positions or pools is functionally right and fast on the handful a test creates; it lets anyone price others out of closing their positions.",
 [X+"state.rs", X+"entrypoints/execute.rs", X+"entrypoints/query.rs", X+"entrypoints/common.rs"],
 [("position list, length counter and swap-remove", X+"state.rs"), ("paged range queries", X+"entrypoints/query.rs"), ("direct keys for pools and ticks", X+"state.rs")],
 ["storage operations and bytes of execute and query calls, as the host sees them"],
 "generated histories; every sampled call is metered on the chain as it is and on a copy crowded by generated strangers (metamorphic relation)")
