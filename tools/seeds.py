#!/usr/bin/env python3
"""Planted bugs as (file, old, new) edits. 'seeds.py diff ID' writes the patch; 'seeds.py try ID...' runs the repository's tests on it in a scratch copy."""
import sys, os, subprocess, json, shutil
X="contracts/oraiswap-v3/src/"
W="wasm/"
D="packages/decimal/"
S={}
def seed(id, prop, needs, breaks, *edits):
    S[id]=dict(property=prop, needs=needs, what_it_breaks=breaks, edits=edits)

seed("c01-claim-y-twice","C01","fees in the second token, claimed more than once","a claim does not reset the fees owed in token y, so claiming again pays them again out of other holders' deposits",
 (X+"storage/position.rs","        self.tokens_owed_x = TokenAmount(0);\n        self.tokens_owed_y = TokenAmount(0);\n","        self.tokens_owed_x = TokenAmount(0);\n"))
seed("c01-deinit-by-net","C01","two positions meeting at a tick with equal liquidity, a third one closed there","closing decides whether a tick is still used by its net instead of its gross liquidity, so a holder whose tick nets to zero cannot leave",
 (X+"storage/position.rs","let deinitialize_upper_tick = upper_tick.liquidity_gross.is_zero();","let deinitialize_upper_tick = upper_tick.liquidity_change.is_zero();"))
seed("c09-expired-operator","C09","an operator whose grant has expired approves a spender","operators can approve spenders after their grant has expired",
 (X+"entrypoints/common.rs","""    let op = state::OPERATORS.may_load(deps.storage, (owner_raw, sender_raw))?;
    match op {
        Some(ex) => {
            if ex.is_expired(&env.block) {
                Err(ContractError::Unauthorized {})
            } else {
                Ok(())
            }
        }
        None => Err(ContractError::Unauthorized {}),
    }
}

/// returns true if the sender can transfer""","""    let _ = env;
    if state::OPERATORS.has(deps.storage, (owner_raw, sender_raw)) {
        return Ok(());
    }
    Err(ContractError::Unauthorized {})
}

/// returns true if the sender can transfer"""))
seed("c10-stale-last","C10","a position is closed from the middle of its owner's list","the entry moved into the hole stays at its old place too",
 (X+"state.rs","        POSITIONS.remove(store, &prev_db_key);\n",""))
seed("c15-upper-price","C15","a pool created with the price of the next tick","a pool can be created with a price that belongs to the next tick",
 (X+"math/types/sqrt_price.rs","if sqrt_price >= upper_bound || sqrt_price < lower_bound","if sqrt_price > upper_bound || sqrt_price < lower_bound"))
seed("c21-tick-key","C21","two pools of one pair with equal spacing and different fees","both pools share their ticks",
 (X+"state.rs","""    let mut db_key = pool_key.key();
    db_key.extend_from_slice(&index.to_be_bytes());""","""    let mut db_key = cosmwasm_storage::to_length_prefixed_nested(&[
        pool_key.token_x.as_bytes(),
        pool_key.token_y.as_bytes(),
        &pool_key.fee_tier.tick_spacing.to_be_bytes(),
    ]);
    db_key.extend_from_slice(&index.to_be_bytes());"""))
seed("c08-admin-withdraws","C08","the fee receiver differs from the admin","the admin can still withdraw protocol fees after the receiver was changed",
 (X+"entrypoints/execute.rs","if pool.fee_receiver != info.sender {","if pool.fee_receiver != info.sender && CONFIG.load(deps.storage)?.admin != info.sender {"))
seed("c09-approvals-stay","C09","an approved token is transferred","approvals survive a transfer of the token",
 (X+"entrypoints/execute.rs","    position.approvals = vec![];\n",""),(X+"entrypoints/execute.rs","let mut position = state::get_position(deps.storage, &caller, index)?;\n\n    state::remove","let position = state::get_position(deps.storage, &caller, index)?;\n\n    state::remove"))
seed("c06-upper-edge","C06","price at the upper tick of a position","fees of swaps above a position are credited to it while the current tick is its upper tick",
 (X+"math/types/fee_growth.rs","let current_below_upper = tick_current < tick_upper;","let current_below_upper = tick_current <= tick_upper;"))
seed("c02-keeps-one","C02","a native coin attached with a surplus of exactly one unit","a surplus of one unit of an attached native coin is kept instead of refunded",
 (X+"interface.rs","if !refund_amount.is_zero() {","if refund_amount > Uint128::one() {"))
seed("c22-create-seconds","C22","a tick initialised at or below the price, some time after the pool's last change","a new tick counts the time until the pool's last change instead of until now",
 (X+"storage/tick.rs","true => current_timestamp - pool.start_timestamp,","true => pool.last_timestamp.min(current_timestamp) - pool.start_timestamp,"))
seed("c26-case-order","C26","two tokens whose names differ only in case","tokens are ordered ignoring case, so such a pair can be created twice, once in each order",
 (X+"storage/pool_key.rs","if token_0 < token_1 {","if token_0.to_lowercase() < token_1.to_lowercase() {"))
seed("c27-default","C27","positions stored before approvals were introduced","positions of an older version can no longer be read",
 (X+"storage/position.rs","    #[serde(default)]\n",""))
seed("c05-flip-upper-only","C05","a position removed whose lower tick is no longer used while its upper tick still is","the tick stays in the tickmap",
 (X+"entrypoints/execute.rs","    if deinitialize_lower_tick {\n","    if deinitialize_lower_tick && (deinitialize_upper_tick || pool.liquidity.is_zero()) {\n"))
seed("c14-next-chunk","C14","the next initialised tick lies exactly 256 spacings above","a swap upwards does not see a tick exactly at the end of the search range and steps over it",
 (X+"state.rs","while chunk < limiting_chunk || (chunk == limiting_chunk && bit <= limiting_bit) {\n        let db_key = bitmap_key(chunk, pool_key);\n        let mut shifted","while chunk < limiting_chunk || (chunk == limiting_chunk && bit < limiting_bit) {\n        let db_key = bitmap_key(chunk, pool_key);\n        let mut shifted"))
seed("c16-cross-limit","C16","a swap that crosses exactly 173 ticks","the simulation stops at 173 crossings",
 (W+"swap.rs","if crossed_ticks.len() > MAX_TICK_CROSS as usize {","if crossed_ticks.len() >= MAX_TICK_CROSS as usize {"))
seed("c16-leftover","C16","an exact-input swap downwards that ends on an initialised tick with an input left that cannot move the price","the simulation forgets the input taken as fee",
 (W+"swap.rs","        total_amount_in += amount_to_add;\n",""))
seed("c17-y-down","C17","exact output of y that is not a whole multiple","the SDK rounds the price of an exact y output the other way",
 (W+"clamm.rs","            ok_or_mark_trace!(SqrtPrice::checked_big_div_values_up(numerator, denominator))?;\n        from_result!(starting_sqrt_price.checked_sub(quotient))","            ok_or_mark_trace!(SqrtPrice::checked_big_div_values(numerator, denominator))?;\n        from_result!(starting_sqrt_price.checked_sub(quotient))"))
seed("c12-oneside","C12","a position opened entirely above or below the current price, with the price outside the caller's bounds","the caller's price bounds are only looked at when the range contains the price",
 (X+"storage/position.rs","        if pool.sqrt_price < slippage_limit_lower || pool.sqrt_price > slippage_limit_upper {","        let active = lower_tick.index <= pool.current_tick_index\n            && pool.current_tick_index < upper_tick.index;\n        if active\n            && (pool.sqrt_price < slippage_limit_lower || pool.sqrt_price > slippage_limit_upper)\n        {"))
seed("c07-only-y","C07","protocol fees accrued in token y only, withdrawn twice","the fee in token y is reset only when there was one in token x",
 (X+"storage/pool.rs","        self.fee_protocol_token_x = TokenAmount(0);\n        self.fee_protocol_token_y = TokenAmount(0);\n\n        (fee","        if !fee_protocol_token_x.is_zero() {\n            self.fee_protocol_token_x = TokenAmount(0);\n            self.fee_protocol_token_y = TokenAmount(0);\n        }\n\n        (fee"))
seed("c10-offset","C10","a page of the token list with an offset and a limit","the limit of a page counts from the first token instead of from the offset",
 (X+"state.rs","""    (from_idx..to_idx)
        .map(|index| position_key(account_id, index))
        .collect()""","""    (0..to_idx)
        .skip(from_idx as usize)
        .take(limit.unwrap_or(MAX_LIMIT).saturating_sub(from_idx.min(1)) as usize)
        .map(|index| position_key(account_id, index))
        .collect()"""))
seed("c03-leftover","C03","an exact-input swap downwards ending on an initialised tick with an input left that cannot move the price","the input left is neither taken nor counted, so the swap takes less than it was told",
 (X+"entrypoints/common.rs","        total_amount_in += amount_to_add;\n","        if has_crossed {\n            total_amount_in += amount_to_add;\n        }\n"))
seed("c28-outside","C28","a position whose two ticks have been crossed a different number of times","the SDK's preview mixes up the two ticks' outside growth in token y",
 (W+"custom.rs","        lower_tick_fee_growth_outside_y,\n        upper_tick_index,\n        upper_tick_fee_growth_outside_x,\n        upper_tick_fee_growth_outside_y,\n        pool_current","        lower_tick_fee_growth_outside_y,\n        upper_tick_index,\n        upper_tick_fee_growth_outside_x,\n        if pool_current_tick_index < lower_tick_index { lower_tick_fee_growth_outside_y } else { upper_tick_fee_growth_outside_y },\n        pool_current"))
seed("c01-remove-up","C01","a position entirely above the price opened and closed","closing rounds the amount of x up",
 (X+"math/clamm.rs","""        amount_x = get_delta_x(
            SqrtPrice::from_tick(lower_tick)?,
            SqrtPrice::from_tick(upper_tick)?,
            liquidity_delta,
            liquidity_sign,
        )?;""","""        amount_x = get_delta_x(
            SqrtPrice::from_tick(lower_tick)?,
            SqrtPrice::from_tick(upper_tick)?,
            liquidity_delta,
            liquidity_sign || current_tick_index > 0,
        )?;"""))
seed("c18-sat","C18","a difference that would be negative","a subtraction that does not fit yields zero instead of being refused",
 ("packages/decimal-core/src/ops.rs","""                Self::new(self.get()
                    .checked_sub(rhs.get())
                    .unwrap_or_else(|| panic!("decimal: overflow in method {}::sub()", #name_str))
                )""","""                let _ = #name_str;
                Self::new(self.get().saturating_sub(rhs.get()))"""))
seed("c11-seconds","C11","a swap crossing a tick in a block whose time is not a whole second","the quoted ticks carry a time rounded down to whole seconds",
 (X+"entrypoints/query.rs","""    let calculate_swap_result = calculate_swap(
        deps.storage,
        env.block.time.millis(),""","""    let calculate_swap_result = calculate_swap(
        deps.storage,
        env.block.time.seconds() * 1000,"""))
seed("c25-route-min","C25","a route that pays more than its minimum","the route event reports the demanded minimum instead of what was paid",
 (X+"entrypoints/execute.rs","""        .add_attribute("action", "swap_route")
        .add_attribute("amount_out", amount_out.to_string()))""","""        .add_attribute("action", "swap_route")
        .add_attribute("amount_out", min_amount_out.to_string()))"""))
seed("c24-sorted","C24","liquidity ticks asked for in descending order, or one twice","the answer comes in ascending order without repetitions",
 (X+"entrypoints/query.rs","    for index in tick_indexes {\n","    for index in std::collections::BTreeSet::from_iter(tick_indexes) {\n"))
seed("c13-sdk-bit","C13","a tick whose index has bit 9 set, in the SDK","the SDK's price of such ticks is off by a relative 1e-12",
 (W+"types/sqrt_price.rs","FixedPoint::new(1025929181080)","FixedPoint::new(1025929181081)"))
seed("c20-sdk-nearest","C20","SDK liquidity by y, rounding up, with a fraction below one half","the amount of x to offer is rounded to the nearest unit instead of up",
 (W+"math.rs","""((U256::from(common) + U256::from(Liquidity::from_integer(1).get()) - U256::from(1))""","""((U256::from(common) + U256::from(Liquidity::from_integer(1).get() / 2))"""))
seed("c23-empty-claim","C23","a claim on a position that has earned nothing","a claim with nothing to pay is refused",
 (X+"entrypoints/execute.rs","""        &mut lower_tick,
        current_timestamp,
    )?;

    state::update_position""","""        &mut lower_tick,
        current_timestamp,
    )?;
    if x.is_zero() && y.is_zero() {
        return Err(ContractError::AmountIsZero);
    }

    state::update_position"""))
seed("c29-no-minimum","C29","a route message that leaves out expected_amount_out","a client that forgets the minimum gets a route without one instead of a refusal",
 (X+"msg.rs","""        expected_amount_out: TokenAmount,""","""        #[serde(default)]
        expected_amount_out: TokenAmount,"""))
seed("c29-growth-names","C29","reading a pool's fee growth from the JSON answer","the two fee growth numbers of a pool swap names in its JSON (stored state included), consistently with themselves",
 (X+"storage/pool.rs","""    pub fee_growth_global_x: FeeGrowth,
    pub fee_growth_global_y: FeeGrowth,
    pub fee_protocol_token_x: TokenAmount,""","""    #[serde(rename = "fee_growth_global_y")]
    pub fee_growth_global_x: FeeGrowth,
    #[serde(rename = "fee_growth_global_x")]
    pub fee_growth_global_y: FeeGrowth,
    pub fee_protocol_token_x: TokenAmount,"""))
seed("c30-free-slot","C30","an account that strangers have given many positions opens one","the place of a new position is searched from the start of the list, so gifts make opening ever dearer",
 (X+"state.rs","""    let positions_length: u32 = get_position_length(store, account_id);
    let db_key = position_key(account_id, positions_length);
    POSITIONS.save(store, &db_key, position)?;
""","""    let mut positions_length = 0u32;
    while POSITIONS.has(store, &position_key(account_id, positions_length)) {
        positions_length += 1;
    }
    let db_key = position_key(account_id, positions_length);
    POSITIONS.save(store, &db_key, position)?;
"""))
seed("c30-pool-scan","C30","many pools registered by anyone","registering a pool walks over all pools there are",
 (X+"entrypoints/execute.rs","""    if POOLS.has(deps.storage, &db_key) {
        return Err(ContractError::PoolAlreadyExist);""","""    let taken = POOLS
        .keys_raw(deps.storage, None, None, cosmwasm_std::Order::Ascending)
        .filter(|k| *k == db_key)
        .count();
    if taken > 0 {
        return Err(ContractError::PoolAlreadyExist);"""))
def scratch(id, root="/tmp/s/try"):
    subprocess.run(["rsync","-rlpgoD","--checksum","--delete","--exclude","target","--exclude",".git","/repo/",root+"/"],check=True)
    subprocess.run("rm -rf .git && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm b",shell=True,cwd=root,check=True,stdout=subprocess.DEVNULL)
    for f,o,n in S[id]["edits"]:
        p=os.path.join(root,f); s=open(p).read()
        assert s.count(o)==1, (id,f,s.count(o))
        open(p,"w").write(s.replace(o,n))
    return root
def diff(id):
    r=scratch(id)
    d=subprocess.run(["git","diff"],cwd=r,capture_output=True,text=True).stdout
    out=f"/verif/seeded/{id}"; os.makedirs(out,exist_ok=True)
    open(out+"/patch.diff","w").write(d)
    json.dump({k:S[id][k] for k in("property","needs","what_it_breaks")},open(out+"/meta.json","w"),indent=1)
    for f in("chain.rs","kit.rs","Cargo.toml","Cargo.lock","demo.sh"):
        if not os.path.exists(out+"/"+f): shutil.copy("/verif/tools/demo/"+f,out)
    if any(f.startswith(W) for f,_,_ in S[id]["edits"]):
        for f in("sdk.rs","Cargo.toml","Cargo.lock","stub_lib.rs","stub_Cargo.toml","demo.sh"): shutil.copy("/verif/tools/demo_sdk/"+f,out)
def tests(id):
    r=scratch(id)
    p=r+"/Cargo.toml"; s=open(p).read(); s=s[:s.index("[patch.crates-io]")]; open(p,"w").write(s)
    env=dict(os.environ,RUSTUP_TOOLCHAIN="1.76-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true",CARGO_TARGET_DIR="/tmp/s/target")
    o=subprocess.run("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/s/t.log 2>&1; python3 /opt/vp/results.py /tmp/s/r.json cargo:/tmp/s/t.log",shell=True,cwd=r,env=env,capture_output=True)
    b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); g=set(json.load(open("/tmp/s/r.json"))["passed"]) if os.path.exists("/tmp/s/r.json") else set()
    m=sorted(b-g); print(id, "OK" if not m else f"{len(m)} not passing: {m[:3]}",flush=True)
if __name__=="__main__":
    for i in sys.argv[2:] or list(S):
        (diff if sys.argv[1]=="diff" else tests)(i)
