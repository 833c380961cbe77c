//! C16: the SDK's swap simulation against the contract, on the contract's own state.
use crate::chain::*;
use crate::check;
use crate::drive::*;
use crate::hist::*;
use crate::model::*;
use crate::report::{fail, Ctx, Res, Violation};
use crate::tape::Tape;
use cosmwasm_std::Addr;
use decimal::Decimal;
use oraiswap_v3::interface::QuoteResult;
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::{LiquidityTick, Pool};
use oraiswap_v3_wasm as s;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn need<T>(r: Result<T, ExecErr>, what: &str) -> Result<T, Violation> {
    r.or_else(|e| fail("query-refused", format!("{what}: {}", e.text())))
}

/// what a client fetches before it simulates: bitmap, liquidity ticks, pool
fn snapshot(w: &World, t: &mut Tape, ctx: &mut Ctx, k: &Key) -> Result<(s::Tickmap, Vec<s::LiquidityTick>, s::Pool), Violation> {
    let set: Vec<i32> = w.model.ticks(k).into_iter().collect();
    let mut map = s::Tickmap::default();
    let span = k.s as i32 * 64 * 1600;
    let from_queries = t.chance(1, 4);
    if from_queries {
        // as a client does: windows of at most 1638 chunks over the whole grid
        let m = max_tick(k.s as i32);
        let mut lo = -m;
        while lo <= m {
            let hi = (lo as i64 + span as i64).min(m as i64) as i32;
            let v: Vec<(u16, u64)> = need(
                w.chain.query(&QueryMsg::TickMap { pool_key: pk(k), lower_tick_index: lo, upper_tick_index: hi, x_to_y: t.bool() }),
                "tick map",
            )?;
            for (c, b) in v {
                *map.bitmap.entry(c as u64).or_insert(0) |= b;
            }
            lo = hi + k.s as i32;
        }
        ctx.label("tick map fetched from the contract");
    } else {
        for i in &set {
            let (c, b) = s::tickmap::tick_to_position(*i, k.s);
            *map.bitmap.entry(c as u64).or_insert(0) |= 1u64 << b;
        }
    }
    let mut lt: Vec<s::LiquidityTick> = vec![];
    for ch in set.chunks(700) {
        let v: Vec<LiquidityTick> = need(w.chain.query(&QueryMsg::LiquidityTicks { pool_key: pk(k), tick_indexes: ch.to_vec() }), "liquidity ticks")?;
        for x in v {
            lt.push(s::LiquidityTick { index: x.index, liquidity_change: s::liquidity::Liquidity::new(x.liquidity_change.get()), sign: x.sign });
        }
    }
    if t.bool() {
        lt.reverse();
    }
    let p = need(w.q_pool(k), "pool")?;
    let p = s::Pool {
        liquidity: s::liquidity::Liquidity::new(p.liquidity.get()),
        sqrt_price: s::sqrt_price::SqrtPrice::new(p.sqrt_price.get()),
        current_tick_index: p.current_tick_index,
        fee_growth_global_x: s::fee_growth::FeeGrowth::new(p.fee_growth_global_x.get()),
        fee_growth_global_y: s::fee_growth::FeeGrowth::new(p.fee_growth_global_y.get()),
        fee_protocol_token_x: s::token_amount::TokenAmount::new(p.fee_protocol_token_x.get()),
        fee_protocol_token_y: s::token_amount::TokenAmount::new(p.fee_protocol_token_y.get()),
        start_timestamp: p.start_timestamp,
        last_timestamp: p.last_timestamp,
        fee_receiver: p.fee_receiver.to_string(),
    };
    Ok((map, lt, p))
}

fn simulate(map: &s::Tickmap, lt: &[s::LiquidityTick], p: &s::Pool, k: &Key, down: bool, amount: u128, by_in: bool, limit: u128) -> Option<s::swap_simulation::CalculateSwapResult> {
    serde_wasm_bindgen::set_next(serde_json::to_string(lt).unwrap());
    catch_unwind(AssertUnwindSafe(|| {
        s::simulate_swap(
            map.clone(),
            s::FeeTier { fee: s::percentage::Percentage::new(k.fee), tick_spacing: k.s },
            p.clone(),
            wasm_bindgen::JsValue::NULL,
            down,
            s::token_amount::TokenAmount::new(amount),
            by_in,
            s::sqrt_price::SqrtPrice::new(limit),
        )
        .ok()
    }))
    .unwrap_or(None)
}

fn trial(w: &World, t: &mut Tape, ctx: &mut Ctx, k: &Key) -> Res {
    let Op::Swap { down, amount, by_in, limit, .. } = w.swap_choice(t, k) else { unreachable!() };
    let (map, lt, p) = snapshot(w, t, ctx, k)?;
    let what = format!("{} {amount} by {} limit {limit}", if down { "x->y" } else { "y->x" }, if by_in { "input" } else { "output" });
    let q: Result<QuoteResult, _> = w.chain.query(&QueryMsg::Quote {
        pool_key: pk(k), x_to_y: down, amount: TokenAmount::new(amount), by_amount_in: by_in, sqrt_price_limit: SqrtPrice::new(limit),
    });
    let r = simulate(&map, &lt, &p, k, down, amount, by_in, limit);
    ctx.evals += 1;
    ctx.log(|| format!("  simulate {what} on {k:?}: {:?}", r.as_ref().map(|r| (r.amount_in.0, r.amount_out.0, r.fee.0, r.crossed_ticks.len(), r.global_insufficient_liquidity, r.state_outdated, r.max_ticks_crossed))));
    match (&q, &r) {
        (Ok(q), Some(r)) => {
            let crossed: Vec<i32> = r.crossed_ticks.iter().map(|x| x.index).collect();
            let qc: Vec<i32> = q.ticks.iter().map(|x| x.index).collect();
            if qc.len() > s::MAX_TICK_CROSS as usize {
                ctx.label("crosses more ticks than the SDK follows");
                check!(r.max_ticks_crossed, "cross-limit", "{what}: crosses {} ticks, SDK does not say it stopped", qc.len());
                return Ok(());
            }
            check!(!r.global_insufficient_liquidity && !r.state_outdated && !r.max_ticks_crossed, "flag-on-good-swap", "{what}: the contract would execute (in {} out {}), the SDK says liquidity {} outdated {} too many ticks {}", q.amount_in.get(), q.amount_out.get(), r.global_insufficient_liquidity, r.state_outdated, r.max_ticks_crossed);
            check!(r.amount_in.0 == q.amount_in.get() && r.amount_out.0 == q.amount_out.get(), "amounts", "{what}: contract in {} out {}, SDK in {} out {}", q.amount_in.get(), q.amount_out.get(), r.amount_in.0, r.amount_out.0);
            check!(r.start_sqrt_price.0 == p.sqrt_price.0 && r.target_sqrt_price.0 == q.target_sqrt_price.get(), "prices", "{what}: price from {} to {}, SDK from {} to {}", p.sqrt_price.0, q.target_sqrt_price.get(), r.start_sqrt_price.0, r.target_sqrt_price.0);
            check!(crossed == qc, "crossed", "{what}: contract crosses {qc:?}, SDK {crossed:?}");
            ctx.label("simulation = contract");
            if !by_in {
                ctx.label("by output");
            }
            if !crossed.is_empty() {
                ctx.nontrivial = true;
                ctx.label("crossing");
            }
            // the fee it reports, and the liquidity changes of the ticks it lists
            if let Ok(o) = w.model.swap(k, down, amount, by_in, limit) {
                check!(r.fee.0 == o.fee, "fee", "{what}: fee charged {}, SDK reports {}", o.fee, r.fee.0);
            }
            for c in &r.crossed_ticks {
                check!(lt.contains(c), "crossed-tick", "{what}: crossed tick {c:?} is none of those given");
            }
            // without one of the ticks it crosses, it has to say that its data is incomplete
            if !crossed.is_empty() && t.bool() {
                let gone = *t.pick(&crossed);
                let lt2: Vec<_> = lt.iter().filter(|x| x.index != gone).cloned().collect();
                if let Some(r2) = simulate(&map, &lt2, &p, k, down, amount, by_in, limit) {
                    check!(r2.state_outdated, "stale-data", "{what}: tick {gone} was not given but has to be crossed, SDK reports no stale state");
                }
                ctx.label("tick withheld");
            }
        }
        (Ok(q), None) => return fail("sdk-refuses", format!("{what}: the contract would execute (in {} out {}), the SDK fails", q.amount_in.get(), q.amount_out.get())),
        (Err(e), Some(r)) => {
            ctx.label("contract refuses");
            if !(r.global_insufficient_liquidity || r.state_outdated || r.max_ticks_crossed || r.amount_out.0 == 0) {
                // the contract also keeps running totals of protocol fees the SDK does not
                let wide = match w.model.swap(k, down, amount, by_in, limit) {
                    Ok(o) => o.wide,
                    Err((_, wd)) => wd,
                };
                check!(wide, "sdk-accepts", "{what}: the contract refuses ({}), the SDK promises out {}", e.text(), r.amount_out.0);
            }
            check!(!r.state_outdated || w.model.swap(k, down, amount, by_in, limit).map_or_else(|e| e.1, |o| o.wide), "outdated-on-fresh", "{what}: fresh data reported as outdated");
        }
        (Err(_), None) => ctx.label("both refuse"),
    }
    Ok(())
}

pub fn c16(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.w[K_CREATE] = 14;
    cfg.max_ops = 16;
    let mut w = World::new(t, ctx, cfg);
    let n = w.cfg.min_ops + t.below(w.cfg.max_ops - w.cfg.min_ops + 1);
    let dense = t.chance(1, 40);
    if dense {
        // many one-tick ranges in a row, to reach the SDK's crossing limit
        if let Some(k) = w.pick_pool(t) {
            let s = k.s as i32;
            let cur = w.model.pools[&k].tick;
            let liq = w.liq_choice(t).max(1);
            let n = 60 + t.below(140) as i32;
            let up = t.bool();
            for i in 0..n {
                let lo = if up { cur + i * s } else { cur - (i + 1) * s };
                if lo < -max_tick(s) || lo + s > max_tick(s) {
                    break;
                }
                let mut c = Call { sender: w.user(t), funds: vec![], op: Op::Create { key: k.clone(), lo, hi: lo + s, liq: liq.saturating_add((i % 7) as u128), smin: 0, smax: u128::MAX, mint: false } };
                let needs = w.needs(&c);
                w.fund(t, &mut c, &needs);
                w.call_quiet(ctx, c);
            }
            ctx.label("dense ticks");
            // swap over all of them
            let tt = (if up { cur + n * s } else { cur - n * s }).clamp(-max_tick(s), max_tick(s));
            for _ in 0..2 {
                trial_to(&w, t, ctx, &k, !up, tt)?;
            }
        }
    }
    let mut last = None;
    for i in 0..n {
        t.begin();
        let save = w.cfg.w;
        if i < 2 {
            w.cfg.w = [0; NK];
            w.cfg.w[K_CREATE] = 1;
        }
        let c = w.gen(t, last.as_ref());
        w.cfg.w = save;
        let mut fl = Flow::Go;
        if let Some(c) = c {
            fl = step(&mut w, ctx, &c, &mut |_, _, _| Ok(Flow::Go))?;
            last = Some(c);
        }
        if fl == Flow::Stop {
            t.end();
            break;
        }
        let mut r = Ok(());
        for _ in 0..1 + t.below(2) {
            if let Some(k) = w.pick_pool(t) {
                r = trial(&w, t, ctx, &k);
                if r.is_err() {
                    break;
                }
            }
        }
        t.end();
        r?;
    }
    Ok(())
}

/// a simulation of a swap that has to reach a far tick
fn trial_to(w: &World, t: &mut Tape, ctx: &mut Ctx, k: &Key, down: bool, tt: i32) -> Res {
    let (map, lt, p) = snapshot(w, t, ctx, k)?;
    let (ci, _) = w.cost_to(k, down, price_of(tt));
    let amount = World::nudge(t, ci).max(1);
    let limit = if down { MIN_PRICE } else { MAX_PRICE };
    let q: Result<QuoteResult, _> = w.chain.query(&QueryMsg::Quote {
        pool_key: pk(k), x_to_y: down, amount: TokenAmount::new(amount), by_amount_in: true, sqrt_price_limit: SqrtPrice::new(limit),
    });
    let r = simulate(&map, &lt, &p, k, down, amount, true, limit);
    ctx.evals += 1;
    if let (Ok(q), Some(r)) = (&q, &r) {
        let n = q.ticks.len();
        if n > s::MAX_TICK_CROSS as usize {
            ctx.label("crosses more ticks than the SDK follows");
            check!(r.max_ticks_crossed, "cross-limit", "swap of {amount} crosses {n} ticks, SDK does not say it stopped");
        } else {
            check!(!r.max_ticks_crossed && r.amount_in.0 == q.amount_in.get() && r.amount_out.0 == q.amount_out.get(), "amounts", "swap of {amount} over {n} ticks: contract in {} out {}, SDK in {} out {} (stopped early: {})", q.amount_in.get(), q.amount_out.get(), r.amount_in.0, r.amount_out.0, r.max_ticks_crossed);
            if n > 100 {
                ctx.label("more than 100 ticks in one swap");
            }
        }
    }
    Ok(())
}

// ---- C28 ---------------------------------------------------------------------------------------

fn moved(a: &Chain, b: &Chain, who: &str, tk: &str) -> i128 {
    b.balance(who, tk) as i128 - a.balance(who, tk) as i128
}

/// the SDK's figures for one open position against what the contract pays for it
fn preview(w: &World, t: &mut Tape, ctx: &mut Ctx, owner: &str, i: u32) -> Res {
    let a = Addr::unchecked(owner);
    let p: oraiswap_v3::Position = need(w.chain.query(&QueryMsg::Position { owner_id: a.clone(), index: i }), "position")?;
    let k = key_of(&p.pool_key);
    let pool = need(w.q_pool(&k), "pool")?;
    let (lo, hi) = (p.lower_tick_index, p.upper_tick_index);
    // as a client has them: from the position's ticks, or from the tick query
    let g = |v: u128| s::fee_growth::FeeGrowth::new(v);
    let (l, u) = if t.bool() {
        let v: Vec<oraiswap_v3::interface::PositionTick> = need(w.chain.query(&QueryMsg::PositionTicks { owner: a.clone(), offset: i }), "position ticks")?;
        check!(v.len() >= 2, "position-ticks", "PositionTicks from position {i} of {owner} gives {} ticks", v.len());
        ((v[0].fee_growth_outside_x.get(), v[0].fee_growth_outside_y.get()), (v[1].fee_growth_outside_x.get(), v[1].fee_growth_outside_y.get()))
    } else {
        let (b, c) = (need(w.q_tick(&k, lo), "tick")?, need(w.q_tick(&k, hi), "tick")?);
        ((b.fee_growth_outside_x.get(), b.fee_growth_outside_y.get()), (c.fee_growth_outside_x.get(), c.fee_growth_outside_y.get()))
    };
    let fee = catch_unwind(AssertUnwindSafe(|| {
        s::calculate_fee(
            lo, g(l.0), g(l.1), hi, g(u.0), g(u.1), pool.current_tick_index,
            g(pool.fee_growth_global_x.get()), g(pool.fee_growth_global_y.get()),
            g(p.fee_growth_inside_x.get()), g(p.fee_growth_inside_y.get()),
            s::liquidity::Liquidity::new(p.liquidity.get()),
        )
        .ok()
    }))
    .unwrap_or(None);
    let value = amounts(&pool, p.liquidity.get(), false, lo, hi);
    ctx.evals += 1;
    let owed = [p.tokens_owed_x.get(), p.tokens_owed_y.get()];
    let what = format!("position {i} of {owner} ({lo}..{hi}, liquidity {}) in {k:?}", p.liquidity.get());
    ctx.log(|| format!("  preview of {what}: fees {:?}, value {value:?}", fee.as_ref().map(|f| (f.x.0, f.y.0))));
    for close in [false, true] {
        let mut ch = w.chain.clone();
        let op = if close { Op::Remove { index: i } } else { Op::Claim { index: i } };
        let r = ch.exec(owner, &[], &to_msg(&op));
        match (r, &fee) {
            (Ok(_), Some(f)) => {
                let v = if close { value } else { Some([0, 0]) };
                let Some(v) = v else { return fail("value-refused", format!("{what}: closing pays, the SDK cannot tell its value")) };
                for (j, (tk, f)) in [(&k.x, f.x.0), (&k.y, f.y.0)].into_iter().enumerate() {
                    let got = moved(&w.chain, &ch, owner, tk);
                    let want = f as i128 + v[j] as i128 + owed[j] as i128;
                    check!(got == want, if close { "value" } else { "fee" }, "{what}: {} pays {got} of {tk}, the SDK says {want} (fee {f}, value {})", if close { "closing" } else { "claiming" }, v[j]);
                    if f > 0 {
                        ctx.nontrivial = true;
                        ctx.label("fee preview above zero");
                    }
                }
            }
            (Ok(_), None) => return fail("fee-refused", format!("{what}: the contract pays, the SDK cannot tell the fees")),
            (Err(_), _) => ctx.label("contract refuses"),
        }
    }
    Ok(())
}
fn amounts(p: &Pool, liq: u128, add: bool, lo: i32, hi: i32) -> Option<[u128; 2]> {
    catch_unwind(AssertUnwindSafe(|| {
        s::clamm::calculate_amount_delta(
            p.current_tick_index,
            s::sqrt_price::SqrtPrice::new(p.sqrt_price.get()),
            s::liquidity::Liquidity::new(liq),
            add,
            hi,
            lo,
        )
        .ok()
        .map(|r| [r.x.0, r.y.0])
    }))
    .unwrap_or(None)
}

pub fn c28(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.w[K_CREATE] = 12;
    cfg.max_ops = 24;
    let mut w = World::new(t, ctx, cfg);
    let n = w.cfg.min_ops + t.below(w.cfg.max_ops - w.cfg.min_ops + 1);
    let mut last = None;
    for i in 0..n {
        t.begin();
        let save = w.cfg.w;
        if i < 2 {
            w.cfg.w = [0; NK];
            w.cfg.w[K_CREATE] = 1;
        }
        let c = w.gen(t, last.as_ref());
        w.cfg.w = save;
        let mut r = Ok(());
        let mut fl = Flow::Go;
        if let Some(c) = c {
            // what opening will cost, before it is done
            let cost = match &c.op {
                Op::Create { key, lo, hi, liq, .. } => w.q_pool(key).ok().map(|p| (key.clone(), amounts(&p, *liq, true, *lo, *hi), w.chain.clone())),
                _ => None,
            };
            fl = step(&mut w, ctx, &c, &mut |_, _, _| Ok(Flow::Go))?;
            if let (Some((k, cost, before)), true) = (cost, w.chain.bal.len() > 0) {
                let opened = w.q_count(&c.sender) > before.query::<u32>(&QueryMsg::UserPositionAmount { owner: Addr::unchecked(&c.sender) }).unwrap_or(0);
                if opened {
                    ctx.evals += 1;
                    ctx.label("cost of opening compared");
                    let Some(cost) = cost else { return fail("cost-refused", format!("{:?} succeeds, the SDK cannot tell its cost", c.op)) };
                    for (tk, want) in [(&k.x, cost[0]), (&k.y, cost[1])] {
                        let got = -moved(&before, &w.chain, &c.sender, tk);
                        check!(got == want as i128, "cost", "{:?}: {} pays {got} of {tk}, the SDK says {want}", c.op, c.sender);
                    }
                }
            }
            last = Some(c);
        }
        if fl == Flow::Stop {
            t.end();
            break;
        }
        let own: Vec<(String, usize)> = w.model.pos.iter().filter(|(_, v)| !v.is_empty()).map(|(o, v)| (o.clone(), v.len())).collect();
        if !own.is_empty() {
            let (o, n) = t.pick(&own).clone();
            let i = t.below(n as u64) as u32;
            r = preview(&w, t, ctx, &o, i);
        }
        t.end();
        r?;
    }
    Ok(())
}
