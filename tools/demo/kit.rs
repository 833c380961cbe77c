//! Helpers of the demonstrations: short calls to the contract on the miniature chain.
pub use crate::chain::*;
pub use cosmwasm_std::{Addr, Binary};
pub use decimal::Decimal;
pub use oraiswap_v3::interface::*;
pub use oraiswap_v3::liquidity::Liquidity;
pub use oraiswap_v3::msg::*;
pub use oraiswap_v3::percentage::Percentage;
pub use oraiswap_v3::sqrt_price::{calculate_sqrt_price, SqrtPrice};
pub use oraiswap_v3::token_amount::TokenAmount;
pub use oraiswap_v3::{FeeTier, Pool, PoolKey, Position, Tick, MAX_SQRT_PRICE, MIN_SQRT_PRICE};

pub const X: &str = "orai1tka";
pub const Y: &str = "orai1tkb";
pub const A: &str = "orai1alice";
pub const B: &str = "orai1bob";
pub const C: &str = "orai1carol";

pub fn ft(fee: u64, s: u16) -> FeeTier {
    FeeTier { fee: Percentage::new(fee), tick_spacing: s }
}
pub fn rich(c: &mut Chain) {
    for who in [ADMIN, A, B, C] {
        for t in [X, Y, "orai", "usdc"] {
            c.mint(who, t, 1 << 110);
        }
    }
}
/// chain with one pool at `tick` (price of the tick plus `off`)
pub fn pool(protocol: u64, x: &str, y: &str, fee: u64, s: u16, tick: i32, off: u128) -> (Chain, PoolKey) {
    let mut c = Chain::new(protocol);
    rich(&mut c);
    let k = add_pool(&mut c, x, y, fee, s, tick, off);
    (c, k)
}
pub fn add_pool(c: &mut Chain, x: &str, y: &str, fee: u64, s: u16, tick: i32, off: u128) -> PoolKey {
    let _ = c.exec(ADMIN, &[], &ExecuteMsg::AddFeeTier { fee_tier: ft(fee, s) });
    let p = calculate_sqrt_price(tick).unwrap().get() + off;
    c.exec(A, &[], &ExecuteMsg::CreatePool { token_0: x.into(), token_1: y.into(), fee_tier: ft(fee, s), init_sqrt_price: SqrtPrice::new(p), init_tick: tick }).map_err(|e| e.text()).unwrap();
    PoolKey::new(x.into(), y.into(), ft(fee, s)).unwrap()
}
pub fn funds(k: &PoolKey) -> Vec<(String, u128)> {
    [&k.token_x, &k.token_y].iter().filter(|t| !is_cw20(t)).map(|t| (t.to_string(), 1u128 << 100)).collect()
}
pub fn open(c: &mut Chain, who: &str, k: &PoolKey, lo: i32, hi: i32, l: u128) -> Result<ExecOk, ExecErr> {
    let f = funds(k);
    c.exec(who, &f, &ExecuteMsg::CreatePosition { pool_key: k.clone(), lower_tick: lo, upper_tick: hi, liquidity_delta: Liquidity::new(l), slippage_limit_lower: SqrtPrice::new(0), slippage_limit_upper: SqrtPrice::new(u128::MAX) })
}
pub fn swap(c: &mut Chain, who: &str, k: &PoolKey, x_to_y: bool, amount: u128, by_in: bool) -> Result<ExecOk, ExecErr> {
    let lim = if x_to_y { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE };
    swap_to(c, who, k, x_to_y, amount, by_in, lim)
}
pub fn swap_to(c: &mut Chain, who: &str, k: &PoolKey, x_to_y: bool, amount: u128, by_in: bool, lim: u128) -> Result<ExecOk, ExecErr> {
    let f: Vec<_> = funds(k).into_iter().filter(|f| &f.0 == if x_to_y { &k.token_x } else { &k.token_y }).collect();
    c.exec(who, &f, &ExecuteMsg::Swap { pool_key: k.clone(), x_to_y, amount: TokenAmount::new(amount), by_amount_in: by_in, sqrt_price_limit: SqrtPrice::new(lim) })
}
pub fn close(c: &mut Chain, who: &str, index: u32) -> Result<ExecOk, ExecErr> {
    c.exec(who, &[], &ExecuteMsg::RemovePosition { index })
}
pub fn claim(c: &mut Chain, who: &str, index: u32) -> Result<ExecOk, ExecErr> {
    c.exec(who, &[], &ExecuteMsg::ClaimFee { index })
}
pub fn get_pool(c: &Chain, k: &PoolKey) -> Pool {
    c.query(&QueryMsg::Pool { token_0: k.token_x.clone(), token_1: k.token_y.clone(), fee_tier: k.fee_tier }).map_err(|e| e.text()).unwrap()
}
pub fn get_tick(c: &Chain, k: &PoolKey, index: i32) -> Tick {
    c.query(&QueryMsg::Tick { key: k.clone(), index }).map_err(|e| e.text()).unwrap()
}
pub fn tid(owner: &str, index: u32) -> Binary {
    let mut v = owner.as_bytes().to_vec();
    v.extend_from_slice(&index.to_be_bytes());
    Binary(v)
}
pub fn price(t: i32) -> u128 {
    calculate_sqrt_price(t).unwrap().get()
}
pub fn must<T>(r: Result<T, ExecErr>) -> T {
    r.map_err(|e| e.text()).expect("call must succeed")
}
