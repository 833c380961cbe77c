//! Runs the SDK's simulation on the state of a pool of the miniature chain.
use crate::kit::*;
pub use oraiswap_v3_wasm as s;

pub fn simulate(c: &Chain, k: &PoolKey, ticks: &[i32], down: bool, amount: u128, by_in: bool) -> s::swap_simulation::CalculateSwapResult {
    let p = get_pool(c, k);
    let mut map = s::Tickmap::default();
    let mut lt = vec![];
    for i in ticks {
        let (ch, b) = s::tickmap::tick_to_position(*i, k.fee_tier.tick_spacing);
        *map.bitmap.entry(ch as u64).or_insert(0) |= 1u64 << b;
        let t = get_tick(c, k, *i);
        lt.push(s::LiquidityTick { index: t.index, liquidity_change: s::liquidity::Liquidity::new(t.liquidity_change.get()), sign: t.sign });
    }
    let p = s::Pool {
        liquidity: s::liquidity::Liquidity::new(p.liquidity.get()),
        sqrt_price: s::sqrt_price::SqrtPrice::new(p.sqrt_price.get()),
        current_tick_index: p.current_tick_index,
        fee_growth_global_x: s::fee_growth::FeeGrowth::new(p.fee_growth_global_x.get()),
        fee_growth_global_y: s::fee_growth::FeeGrowth::new(p.fee_growth_global_y.get()),
        fee_protocol_token_x: s::token_amount::TokenAmount::new(p.fee_protocol_token_x.get()),
        fee_protocol_token_y: s::token_amount::TokenAmount::new(p.fee_protocol_token_y.get()),
        start_timestamp: p.start_timestamp,
        last_timestamp: p.last_timestamp,
        fee_receiver: p.fee_receiver.to_string(),
    };
    serde_wasm_bindgen::set_next(serde_json::to_string(&lt).unwrap());
    let lim = if down { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE };
    s::simulate_swap(
        map,
        s::FeeTier { fee: s::percentage::Percentage::new(k.fee_tier.fee.get()), tick_spacing: k.fee_tier.tick_spacing },
        p,
        wasm_bindgen::JsValue::NULL,
        down,
        s::token_amount::TokenAmount::new(amount),
        by_in,
        s::sqrt_price::SqrtPrice::new(lim),
    )
    .ok()
    .expect("simulation")
}
pub fn quote(c: &Chain, k: &PoolKey, down: bool, amount: u128, by_in: bool) -> QuoteResult {
    let lim = if down { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE };
    must(c.query(&QueryMsg::Quote { pool_key: k.clone(), x_to_y: down, amount: TokenAmount::new(amount), by_amount_in: by_in, sqrt_price_limit: SqrtPrice::new(lim) }))
}
