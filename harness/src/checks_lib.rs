//! Function-level checks: tick/price conversion (C13), tick bitmap (C14), SDK arithmetic against
//! the contract's (C17), liquidity helpers (C20).
use crate::big::{div_up, p10, W};
use crate::check;
use crate::model::{max_tick, price_of, tick_of, MAX_PRICE, MAX_TICK, MIN_PRICE};
use crate::report::*;
use crate::tape::Tape;
use decimal::*;
use oraiswap_v3 as c;
use oraiswap_v3_wasm as s;
use std::collections::BTreeSet;

fn csp(v: u128) -> c::sqrt_price::SqrtPrice {
    c::sqrt_price::SqrtPrice::new(v)
}
fn ssp(v: u128) -> s::sqrt_price::SqrtPrice {
    s::sqrt_price::SqrtPrice::new(v)
}

// ---- C13 -------------------------------------------------------------------------------------

fn c_price(t: i32) -> Option<u128> {
    quiet(|| c::sqrt_price::calculate_sqrt_price(t).ok()).flatten().map(|p| p.get())
}
fn s_price(t: i32) -> Option<u128> {
    quiet(|| s::sqrt_price::calculate_sqrt_price(t).ok()).flatten().map(|p| p.get())
}
fn c_tick(p: u128, sp: u16) -> Option<i32> {
    quiet(|| c::log::get_tick_at_sqrt_price(csp(p), sp).ok()).flatten()
}
fn s_tick(p: u128, sp: u16) -> Option<i32> {
    quiet(|| s::log::get_tick_at_sqrt_price(ssp(p), sp).ok()).flatten()
}

fn one_price(p: u128, sp: i32) -> Res {
    let want = if (MIN_PRICE..=MAX_PRICE).contains(&p) { Some(tick_of(p, sp)) } else { None };
    let got = c_tick(p, sp as u16);
    check!(got == want, "tick-at-price", "tick at sqrt price {p} (spacing {sp}): contract {got:?}, expected {want:?}");
    let got = s_tick(p, sp as u16);
    check!(got == want, "sdk-tick-at-price", "tick at sqrt price {p} (spacing {sp}): SDK {got:?}, expected {want:?}");
    Ok(())
}
fn one_rel(tick: i32, sp: i32, p: u128) -> Res {
    let want = if tick + sp > MAX_TICK { p == price_of(max_tick(sp)) } else { price_of(tick) <= p && p < price_of(tick + sp) };
    let got = quiet(|| c::sqrt_price::check_tick_to_sqrt_price_relationship(tick, sp as u16, csp(p)).ok()).flatten();
    check!(got == Some(want), "relationship", "price {p} belongs to tick {tick} (spacing {sp}): contract {got:?}, expected {want}");
    let got = quiet(|| s::check_tick_to_sqrt_price_relationship(tick, sp as u16, ssp(p)).ok()).flatten();
    check!(got == Some(want), "sdk-relationship", "price {p} belongs to tick {tick} (spacing {sp}): SDK {got:?}, expected {want}");
    Ok(())
}

/// all ticks, all spacings
pub fn c13_all(thorough: bool) -> Result<(u64, String), Violation> {
    // the factors really are the 2^i-th powers of sqrt(1.0001), each the truncated square of the
    // one before, and the product stays within 4e-9 (relative) of the true power
    let mut b: u128 = 1_000_100_000_000;
    for i in 1..18 {
        let got = c_price(1 << i);
        check!(got == Some(b * 1_000_000_000_000), "factor", "sqrt price of tick 2^{i} is {got:?}, expected {b}e12");
        b = b * b / 1_000_000_000_000;
    }
    let n = std::sync::atomic::AtomicU64::new(0);
    let bad: std::sync::Mutex<Option<(i64, Violation)>> = std::sync::Mutex::new(None);
    let next = std::sync::atomic::AtomicI64::new(0);
    let put = |k: i64, v: Violation| {
        let mut b = bad.lock().unwrap();
        if b.as_ref().map_or(true, |x| k < x.0) {
            *b = Some((k, v));
        }
    };
    let total = 2 * MAX_TICK as i64 + 1;
    let block = 2048;
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let k0 = next.fetch_add(block, std::sync::atomic::Ordering::SeqCst);
                if k0 >= total || bad.lock().unwrap().is_some() {
                    break;
                }
                let mut cnt = 0;
                for k in k0..(k0 + block).min(total) {
                    let t = (k - MAX_TICK as i64) as i32;
                    let r = (|| -> Res {
                        let p = price_of(t);
                        let got = c_price(t);
                        check!(got == Some(p), "price", "sqrt price of tick {t}: contract {got:?}, expected {p}");
                        let got = s_price(t);
                        check!(got == Some(p), "sdk-price", "sqrt price of tick {t}: SDK {got:?}, expected {p}");
                        let exact = 1.0001f64.powf(t as f64 / 2.0);
                        let v = p as f64 / 1e24;
                        check!((v - exact).abs() <= exact * 4e-9 + 2e-10, "accuracy", "sqrt price of tick {t} is {v}, 1.0001^({t}/2) is {exact}");
                        if t > -MAX_TICK {
                            check!(c_price(t - 1).map_or(false, |q| q < p), "monotone", "sqrt prices do not increase at tick {t}");
                        }
                        for sp in 1..=100i32 {
                            if t % sp == 0 || (thorough && sp % 7 == 3) {
                                one_price(p, sp)?;
                                one_price(p - 1, sp)?;
                                cnt += 2;
                                if t % sp == 0 {
                                    one_rel(t, sp, p)?;
                                    one_rel(t, sp, p - 1)?;
                                    if t + sp <= MAX_TICK {
                                        one_rel(t, sp, price_of(t + sp))?;
                                        one_rel(t, sp, price_of(t + sp) - 1)?;
                                    }
                                }
                            }
                        }
                        if t < MAX_TICK {
                            let q = price_of(t + 1);
                            for x in [p + 1, p + (q - p) / 2, p + (q - p) / 3] {
                                one_price(x, 1)?;
                                cnt += 1;
                            }
                        }
                        Ok(())
                    })();
                    if let Err(v) = r {
                        put(k, v);
                        break;
                    }
                    cnt += 1;
                }
                n.fetch_add(cnt, std::sync::atomic::Ordering::SeqCst);
            });
        }
    });
    if let Some((_, v)) = bad.into_inner().unwrap() {
        return Err(v);
    }
    for t in [MAX_TICK + 1, -MAX_TICK - 1, MAX_TICK + 44, 262_143, -262_144, i32::MAX, -i32::MAX] {
        check!(c_price(t).is_none() && s_price(t).is_none(), "out-of-range", "tick {t} is out of range but has a price {:?} / {:?}", c_price(t), s_price(t));
    }
    for p in [0, 1, MIN_PRICE - 1, MAX_PRICE + 1, u128::MAX] {
        one_price(p, 1)?;
    }
    for sp in 1..=100i32 {
        let m = max_tick(sp);
        let w = sp as u16;
        check!(c::sqrt_price::get_max_tick(w) == m && s::sqrt_price::get_max_tick(w) == m, "max-tick", "max tick for spacing {sp}");
        check!(c::sqrt_price::get_min_tick(w) == -m && s::sqrt_price::get_min_tick(w) == -m, "min-tick", "min tick for spacing {sp}");
        check!(c::sqrt_price::get_max_sqrt_price(w).get() == price_of(m) && s::sqrt_price::get_max_sqrt_price(w).get() == price_of(m), "max-price", "max price for spacing {sp}");
        check!(c::sqrt_price::get_min_sqrt_price(w).get() == price_of(-m) && s::sqrt_price::get_min_sqrt_price(w).get() == price_of(-m), "min-price", "min price for spacing {sp}");
    }
    let n = n.into_inner();
    Ok((n, format!("every tick from -221818 to 221818 with every spacing 1..100 it lies on, the prices at, next to and between ticks ({n} conversions), on the contract's functions and the SDK's.")))
}

pub fn c13(t: &mut Tape, ctx: &mut Ctx) -> Res {
    for _ in 0..8 {
        t.begin();
        let sp = 1 + t.below(100) as i32;
        let tick = t.range_i(-(MAX_TICK as i64), MAX_TICK as i64 - 1) as i32;
        let (a, b) = (price_of(tick), price_of(tick + 1));
        let p = match t.below(4) {
            0 => a + t.u128_below(b - a),
            1 => b - 1 - t.u128_below((b - a).min(1 << 40)),
            2 => a + t.u128_below((b - a).min(1 << 40)),
            _ => MIN_PRICE + t.u128_below(MAX_PRICE - MIN_PRICE),
        };
        ctx.log(|| format!("spacing {sp} tick {tick} price {p}"));
        one_price(p, sp)?;
        let g = tick_of(p, sp);
        if (-max_tick(sp)..=max_tick(sp)).contains(&g) {
            for d in [-1, 0, 1] {
                let g2 = g + d * sp;
                if (-max_tick(sp)..=max_tick(sp)).contains(&g2) {
                    one_rel(g2, sp, p)?;
                }
            }
        }
        let al = s::align_tick_to_spacing(tick, sp);
        check!(al == tick.div_euclid(sp) * sp, "align", "SDK aligns tick {tick} to spacing {sp} as {al}");
        if p != a {
            ctx.nontrivial = true;
        }
        ctx.evals += 5;
        t.end();
    }
    Ok(())
}

// ---- C14 -------------------------------------------------------------------------------------

fn search_limit(tick: i32, sp: i32, up: bool) -> i32 {
    let m = max_tick(sp);
    if up { (tick + 256 * sp).min(m) } else { (tick - 256 * sp).max(-m) }
}

pub fn c14(t: &mut Tape, ctx: &mut Ctx) -> Res {
    use c::state::*;
    let sp = *t.pick(&[1i32, 2, 3, 5, 10, 60, 64, 99, 100]);
    let w = sp as u16;
    let m = max_tick(sp);
    let key = |a: &str, f: u64| {
        c::PoolKey::new(a.into(), "tokeny".into(), c::FeeTier { fee: c::percentage::Percentage::new(f), tick_spacing: w }).unwrap()
    };
    let keys = [key("tokena", 1), key("tokena", 2), key("tokenb", 1)];
    let mut st = cosmwasm_std::MemoryStorage::new();
    let mut sets: Vec<BTreeSet<i32>> = vec![BTreeSet::new(); 3];
    let mut map = s::collections::tickmap::Tickmap::default();
    let centre = crate_tick(t, sp);
    let n = 2 + t.below(24);
    for _ in 0..n {
        t.begin();
        let near = |t: &mut Tape, set: &BTreeSet<i32>| -> i32 {
            let k = match t.below(6) {
                0 => centre + sp * t.range_i(-3, 3) as i32,
                1 => centre + sp * t.range_i(-70, 70) as i32,
                2 => centre + sp * t.range_i(-520, 520) as i32,
                3 if !set.is_empty() => {
                    let v: Vec<_> = set.iter().copied().collect();
                    let b = *t.pick(&v);
                    b + sp * *t.pick(&[0, 1, -1, 255, -255, 256, -256, 257, -257, 64, -64, 63, -63])
                }
                4 => *t.pick(&[m, -m, m - sp, -m + sp]),
                _ => crate_tick(t, sp),
            };
            k.clamp(-m, m)
        };
        let i = if t.below(3) == 0 { 1 + t.below(2) as usize } else { 0 };
        if t.below(2) == 0 {
            // flip
            let x = near(t, &sets[i]);
            let on = !sets[i].contains(&x);
            let want_wrong = t.below(6) == 0;
            let v = if want_wrong { !on } else { on };
            ctx.log(|| format!("pool {i}: flip tick {x} to {v} (spacing {sp})"));
            let r = quiet(|| flip_bitmap(&mut st, v, x, w, &keys[i]).is_ok()).unwrap_or(false);
            check!(r == (v == on), "flip", "flip of tick {x} to {v} (currently {}) was {}", !on, if r { "accepted" } else { "refused" });
            if r {
                if on { sets[i].insert(x); } else { sets[i].remove(&x); }
            }
            if i == 0 {
                let r = quiet(|| { let mut m2 = map.clone(); m2.flip(v, x, w); m2 });
                check!(r.is_some() == (v == on), "sdk-flip", "SDK flip of tick {x} to {v}");
                if let Some(m2) = r { map = m2; }
            }
        } else {
            let x = near(t, &sets[i]);
            let set = &sets[i];
            ctx.log(|| format!("pool {i}: search around {x} (spacing {sp}) in {set:?}"));
            let get = quiet(|| get_bitmap(&st, x, w, &keys[i]));
            check!(get == Some(set.contains(&x)), "get", "tick {x} initialised: {get:?}, set {set:?}");
            let next = set.range(x..=search_limit(x, sp, true)).copied().find(|v| *v > x);
            let prev = set.range(search_limit(x, sp, false)..=x).next_back().copied();
            let g = quiet(|| next_initialized(&st, x, w, &keys[i]));
            check!(g == Some(next), "next", "next initialised after {x} (spacing {sp}): {g:?}, expected {next:?} of {set:?}");
            let g = quiet(|| prev_initialized(&st, x, w, &keys[i]));
            check!(g == Some(prev), "prev", "previous initialised from {x} (spacing {sp}): {g:?}, expected {prev:?} of {set:?}");
            if i == 0 {
                check!(quiet(|| map.get(x, w)) == Some(set.contains(&x)), "sdk-get", "SDK: tick {x}");
                let g = quiet(|| map.next_initialized(x, w));
                check!(g == Some(next), "sdk-next", "SDK: next initialised after {x} (spacing {sp}): {g:?}, expected {next:?} of {set:?}");
                let g = quiet(|| map.prev_initialized(x, w));
                check!(g == Some(prev), "sdk-prev", "SDK: previous initialised from {x} (spacing {sp}): {g:?}, expected {prev:?} of {set:?}");
            }
            if next.is_some() || prev.is_some() {
                ctx.nontrivial = true;
            }
            // the stop of the next swap step
            for down in [false, true] {
                let (stop, init) = match if down { prev } else { next } {
                    Some(v) => (v, true),
                    None => (search_limit(x, sp, !down), false),
                };
                let lim = match t.below(5) {
                    0 => price_of(stop),
                    1 => price_of(stop) + 1,
                    2 => price_of(stop) - 1,
                    3 => price_of(x),
                    _ => *t.pick(&[MIN_PRICE, MAX_PRICE]),
                };
                let want = if !init && stop == x {
                    None
                } else if (down && price_of(stop) > lim) || (!down && price_of(stop) <= lim) {
                    Some((price_of(stop), Some((stop, init))))
                } else {
                    Some((lim, None))
                };
                let g = quiet(|| get_closer_limit(&st, csp(lim), down, x, w, &keys[i]).ok()).flatten().map(|(p, k)| (p.get(), k));
                check!(g == want, "stop", "swap stop from tick {x} (down {down}, limit {lim}): {g:?}, expected {want:?}");
                if i == 0 {
                    let g = quiet(|| map.get_closer_limit(ssp(lim), down, x, w).ok()).flatten().map(|(p, k)| (p.get(), k));
                    check!(g == want, "sdk-stop", "SDK swap stop from tick {x} (down {down}, limit {lim}): {g:?}, expected {want:?}");
                }
            }
            // coordinates
            let idx = (x + m) / sp;
            let pos = ((idx / 64) as u16, (idx % 64) as u8);
            check!(quiet(|| c::tickmap::tick_to_position(x, w)) == Some(pos), "position", "position of tick {x} spacing {sp}");
            check!(quiet(|| s::tickmap::tick_to_position(x, w)) == Some(pos), "sdk-position", "SDK position of tick {x} spacing {sp}");
            check!(quiet(|| c::tickmap::position_to_tick(pos.0, pos.1, w)) == Some(x), "position-to-tick", "tick of position {pos:?} spacing {sp}");
            check!(quiet(|| s::tickmap::position_to_tick(pos.0, pos.1, w)) == Some(x), "sdk-position-to-tick", "SDK tick of position {pos:?} spacing {sp}");
            ctx.evals += 12;
        }
        t.end();
    }
    check!(quiet(|| c::tickmap::get_max_chunk(w)) == Some((2 * m / sp / 64) as u16), "max-chunk", "last chunk for spacing {sp}");
    check!(quiet(|| s::get_max_chunk(w)) == Some((2 * m / sp / 64) as u16), "sdk-max-chunk", "SDK last chunk for spacing {sp}");
    check!(quiet(|| c::tickmap::get_min_chunk(w)) == Some(0), "min-chunk", "first chunk for spacing {sp}");
    Ok(())
}

/// a tick on the grid, biased to the middle, the ends and chunk borders
fn crate_tick(t: &mut Tape, s: i32) -> i32 {
    let k = (max_tick(s) / s) as i64;
    let v = match t.below(6) {
        0 => t.range_i(-8, 8),
        1 => t.range_i(-400, 400),
        2 => t.range_i(-k, k),
        3 => -k + t.range_i(0, 600),
        4 => k - t.range_i(0, 600),
        _ => t.range_i(0, 2 * k / 64) * 64 - k + t.range_i(-2, 2),
    };
    (v.clamp(-k, k) as i32) * s
}

// ---- C17 -------------------------------------------------------------------------------------

fn gprice(t: &mut Tape) -> u128 {
    match t.below(6) {
        0 => price_of(crate_tick(t, 1)),
        1 => price_of(t.range_i(-(MAX_TICK as i64), MAX_TICK as i64) as i32) + t.below(3) as u128,
        2 => price_of(t.range_i(-(MAX_TICK as i64), MAX_TICK as i64) as i32) - 1 - t.below(3) as u128,
        3 => MIN_PRICE + t.u128_below(MAX_PRICE - MIN_PRICE),
        4 => t.log_u128(96).max(1),
        _ => price_of(t.range_i(-3000, 3000) as i32) + t.u128_below(1 << 60),
    }
}
fn gpair(t: &mut Tape) -> (u128, u128) {
    let a = gprice(t);
    let b = match t.below(4) {
        0 => gprice(t),
        1 => a + t.log_u128(70),
        2 => a.saturating_sub(t.log_u128(70)).max(1),
        _ => {
            let k = tick_of(a.clamp(MIN_PRICE, MAX_PRICE), 1) + t.range_i(-300, 300) as i32;
            price_of(k.clamp(-MAX_TICK, MAX_TICK))
        }
    };
    (a, b)
}
fn gliq(t: &mut Tape) -> u128 {
    match t.below(5) {
        0 => t.log_u128(128),
        1 => t.below(5) as u128,
        2 => 1_000_000u128.saturating_mul(t.log_u128(80)),
        _ => t.log_u128(90),
    }
}
fn gamt(t: &mut Tape) -> u128 {
    match t.below(4) {
        0 => t.log_u128(128),
        1 => t.below(5) as u128,
        _ => t.log_u128(80),
    }
}
fn gpct(t: &mut Tape) -> u64 {
    match t.below(6) {
        0 => 0,
        1 => t.below(3),
        2 => 1_000_000_000_000 - t.below(3),
        3 => 1_000_000_000u64 * (1 + t.below(100)),
        4 => t.below(1_000_000_000_001),
        _ => t.below(20_000_000_000),
    }
}
fn gtick(t: &mut Tape) -> i32 {
    match t.below(8) {
        0 => *t.pick(&[MAX_TICK + 1, -MAX_TICK - 1, MAX_TICK, -MAX_TICK, 300_000]),
        _ => crate_tick(t, 1),
    }
}

type Out = Option<Vec<u128>>;
fn same(what: &str, args: String, a: Out, b: Out, ctx: &mut Ctx) -> Res {
    ctx.log(|| format!("{what}({args}) = {a:?}"));
    check!(a == b, format!("differs:{what}"), "{what}({args}): contract {a:?}, SDK {b:?}");
    if a.is_some() {
        ctx.nontrivial = true;
    }
    ctx.evals += 1;
    Ok(())
}
fn u(b: bool) -> u128 {
    b as u128
}
fn i(x: i32) -> u128 {
    x as i64 as u128
}

pub fn c17(t: &mut Tape, ctx: &mut Ctx) -> Res {
    use c::fee_growth::FeeGrowth as CF;
    use c::liquidity::Liquidity as CL;
    use c::percentage::Percentage as CP;
    use c::seconds_per_liquidity::SecondsPerLiquidity as CS;
    use c::token_amount::TokenAmount as CT;
    use s::fee_growth::FeeGrowth as SF;
    use s::liquidity::Liquidity as SL;
    use s::percentage::Percentage as SP;
    use s::seconds_per_liquidity::SecondsPerLiquidity as SS;
    use s::token_amount::TokenAmount as ST;
    for _ in 0..1 + t.below(8) {
        t.begin();
        match t.below(17) {
            0 | 1 | 2 => {
                let (a, b) = gpair(t);
                let (l, x, by, f) = (gliq(t), gamt(t), t.bool(), gpct(t));
                let q = quiet(|| c::clamm::compute_swap_step(csp(a), csp(b), CL::new(l), CT(x), by, CP::new(f)).ok()).flatten()
                    .map(|r| vec![r.next_sqrt_price.get(), r.amount_in.0, r.amount_out.0, r.fee_amount.0]);
                let r = quiet(|| s::clamm::compute_swap_step(ssp(a), ssp(b), SL::new(l), ST(x), by, SP::new(f)).ok()).flatten()
                    .map(|r| vec![r.next_sqrt_price.get(), r.amount_in.0, r.amount_out.0, r.fee_amount.0]);
                same("compute_swap_step", format!("{a}, {b}, {l}, {x}, {by}, {f}"), q, r, ctx)?;
            }
            3 => {
                let (a, b) = gpair(t);
                let (l, up) = (gliq(t), t.bool());
                same("get_delta_x", format!("{a}, {b}, {l}, {up}"),
                    quiet(|| c::clamm::get_delta_x(csp(a), csp(b), CL::new(l), up).ok()).flatten().map(|v| vec![v.0]),
                    quiet(|| s::clamm::get_delta_x(ssp(a), ssp(b), SL::new(l), up).ok()).flatten().map(|v| vec![v.0]), ctx)?;
                same("get_delta_y", format!("{a}, {b}, {l}, {up}"),
                    quiet(|| c::clamm::get_delta_y(csp(a), csp(b), CL::new(l), up).ok()).flatten().map(|v| vec![v.0]),
                    quiet(|| s::clamm::get_delta_y(ssp(a), ssp(b), SL::new(l), up).ok()).flatten().map(|v| vec![v.0]), ctx)?;
            }
            4 => {
                let (a, l, x, add) = (gprice(t), gliq(t), gamt(t), t.bool());
                same("get_next_sqrt_price_x_up", format!("{a}, {l}, {x}, {add}"),
                    quiet(|| c::clamm::get_next_sqrt_price_x_up(csp(a), CL::new(l), CT(x), add).ok()).flatten().map(|v| vec![v.get()]),
                    quiet(|| s::clamm::get_next_sqrt_price_x_up(ssp(a), SL::new(l), ST(x), add).ok()).flatten().map(|v| vec![v.get()]), ctx)?;
                // the price a trade leads to, where the contract keeps its own to itself: against the model
                if l > 0 {
                    let xy = t.bool();
                    let want = |on_x: bool, add: bool| {
                        let mut wd = crate::model::Wide::default();
                        let v = if on_x { crate::model::next_price_x(a, l, x, add, &mut wd) } else { crate::model::next_price_y(a, l, x, add, &mut wd) };
                        v.filter(|_| !wd.0).map(|v| vec![v.low_u128()])
                    };
                    for (name, m, g) in [
                        ("get_next_sqrt_price_y_down", want(false, add), quiet(|| s::clamm::get_next_sqrt_price_y_down(ssp(a), SL::new(l), ST(x), add).ok()).flatten()),
                        ("get_next_sqrt_price_from_input", want(xy, true), quiet(|| s::clamm::get_next_sqrt_price_from_input(ssp(a), SL::new(l), ST(x), xy).ok()).flatten()),
                        ("get_next_sqrt_price_from_output", want(!xy, false), quiet(|| s::clamm::get_next_sqrt_price_from_output(ssp(a), SL::new(l), ST(x), xy).ok()).flatten()),
                    ] {
                        if m.is_some() {
                            same(name, format!("{a}, {l}, {x}, {add}/{xy}"), m, g.map(|v| vec![v.get()]), ctx)?;
                        }
                    }
                }
            }
            5 => {
                let (a, l, x, f, by, xy) = (gprice(t), gliq(t), gamt(t), gpct(t), t.bool(), t.bool());
                same("is_enough_amount_to_change_price", format!("{x}, {a}, {l}, {f}, {by}, {xy}"),
                    quiet(|| c::clamm::is_enough_amount_to_change_price(CT(x), csp(a), CL::new(l), CP::new(f), by, xy).ok()).flatten().map(|v| vec![u(v)]),
                    quiet(|| s::clamm::is_enough_amount_to_change_price(ST(x), ssp(a), SL::new(l), SP::new(f), by, xy).ok()).flatten().map(|v| vec![u(v)]), ctx)?;
            }
            6 | 7 => {
                let a = gprice(t).clamp(MIN_PRICE, MAX_PRICE);
                let cur = if t.below(4) == 0 { gtick(t) } else { tick_of(a, 1) };
                let (lo, hi) = if t.below(4) == 0 { (gtick(t), gtick(t)) } else { (cur + t.range_i(-500, 300) as i32, cur + t.range_i(-300, 500) as i32) };
                let (l, sign) = (gliq(t), t.bool());
                same("calculate_amount_delta", format!("{cur}, {a}, {l}, {sign}, {hi}, {lo}"),
                    quiet(|| c::clamm::calculate_amount_delta(cur, csp(a), CL::new(l), sign, hi, lo).ok()).flatten().map(|v| vec![v.0.0, v.1.0, u(v.2)]),
                    quiet(|| s::clamm::calculate_amount_delta(cur, ssp(a), SL::new(l), sign, hi, lo).ok()).flatten().map(|v| vec![v.x.0, v.y.0, u(v.update_liquidity)]), ctx)?;
                // the same through the pools
                let l0 = gliq(t);
                same("Pool::update_liquidity", format!("{cur}, {a}, {l0}, {l}, {sign}, {hi}, {lo}"),
                    quiet(|| { let mut p = c::Pool { liquidity: CL::new(l0), sqrt_price: csp(a), current_tick_index: cur, ..Default::default() };
                        p.update_liquidity(CL::new(l), sign, hi, lo).ok().map(|v| vec![v.0.0, v.1.0, p.liquidity.get()]) }).flatten(),
                    quiet(|| { let mut p = s::Pool { liquidity: SL::new(l0), sqrt_price: ssp(a), current_tick_index: cur, ..Default::default() };
                        p.update_liquidity(SL::new(l), sign, hi, lo).ok().map(|v| vec![v.0.0, v.1.0, p.liquidity.get()]) }).flatten(), ctx)?;
            }
            8 => {
                let sp = if t.below(8) == 0 { t.below(300) } else { 1 + t.below(100) } as u16;
                let (a, b) = (gtick(t), gtick(t));
                let (a, b) = if t.bool() && sp > 0 { (a / sp as i32 * sp as i32, b / sp as i32 * sp as i32) } else { (a, b) };
                same("check_ticks", format!("{a}, {b}, {sp}"),
                    quiet(|| c::clamm::check_ticks(a, b, sp).is_ok()).map(|v| vec![u(v)]),
                    quiet(|| s::clamm::check_ticks(a, b, sp).is_ok()).map(|v| vec![u(v)]), ctx)?;
                same("check_tick", format!("{a}, {sp}"),
                    quiet(|| c::clamm::check_tick(a, sp).is_ok()).map(|v| vec![u(v)]),
                    quiet(|| s::clamm::check_tick(a, sp).is_ok()).map(|v| vec![u(v)]), ctx)?;
                same("calculate_max_liquidity_per_tick", format!("{sp}"),
                    quiet(|| c::clamm::calculate_max_liquidity_per_tick(sp)).map(|v| vec![v.get()]),
                    quiet(|| s::clamm::calculate_max_liquidity_per_tick(sp)).map(|v| vec![v.get()]), ctx)?;
                let f = if t.below(4) == 0 { t.raw64() } else { gpct(t) };
                same("FeeTier::new", format!("{f}, {sp}"),
                    quiet(|| c::FeeTier::new(CP::new(f), sp).ok()).flatten().map(|v| vec![v.fee.get() as u128, v.tick_spacing as u128]),
                    quiet(|| s::new_fee_tier(SP::new(f), sp).ok()).flatten().map(|v| vec![v.fee.get() as u128, v.tick_spacing as u128]), ctx)?;
                same("tick_to_position", format!("{a}, {sp}"),
                    quiet(|| c::tickmap::tick_to_position(a, sp)).map(|v| vec![v.0 as u128, v.1 as u128]),
                    quiet(|| s::tickmap::tick_to_position_js(a, sp).ok()).flatten().map(|v| vec![v.chunk as u128, v.bit as u128]), ctx)?;
            }
            9 => {
                let (x, f) = (gamt(t), gpct(t));
                same("calculate_min_amount_out", format!("{x}, {f}"),
                    quiet(|| c::clamm::calculate_min_amount_out(CT(x), CP::new(f))).map(|v| vec![v.0]),
                    quiet(|| s::clamm::calculate_min_amount_out(ST(x), SP::new(f))).map(|v| vec![v.0]), ctx)?;
            }
            10 => {
                let k = gtick(t);
                same("calculate_sqrt_price", format!("{k}"),
                    quiet(|| c::sqrt_price::calculate_sqrt_price(k).ok()).flatten().map(|v| vec![v.get()]),
                    quiet(|| s::sqrt_price::calculate_sqrt_price(k).ok()).flatten().map(|v| vec![v.get()]), ctx)?;
                let (p, sp) = (gprice(t), 1 + t.below(100) as u16);
                same("get_tick_at_sqrt_price", format!("{p}, {sp}"),
                    quiet(|| c::log::get_tick_at_sqrt_price(csp(p), sp).ok()).flatten().map(|v| vec![i(v)]),
                    quiet(|| s::log::get_tick_at_sqrt_price(ssp(p), sp).ok()).flatten().map(|v| vec![i(v)]), ctx)?;
                same("check_tick_to_sqrt_price_relationship", format!("{k}, {sp}, {p}"),
                    quiet(|| c::sqrt_price::check_tick_to_sqrt_price_relationship(k, sp, csp(p)).ok()).flatten().map(|v| vec![u(v)]),
                    quiet(|| s::check_tick_to_sqrt_price_relationship(k, sp, ssp(p)).ok()).flatten().map(|v| vec![u(v)]), ctx)?;
            }
            11 | 12 => {
                let x = gamt(t);
                let cur = gprice(t).clamp(MIN_PRICE, MAX_PRICE);
                let ct = tick_of(cur, 1);
                let (lo, hi) = if t.below(4) == 0 { (gtick(t), gtick(t)) } else { (ct + t.range_i(-500, 300) as i32, ct + t.range_i(-300, 500) as i32) };
                let up = t.bool();
                let args = format!("{x}, {lo}, {hi}, {cur}, {up}");
                same("get_liquidity_by_x", args.clone(),
                    quiet(|| c::logic::math::get_liquidity_by_x(CT(x), lo, hi, csp(cur), up).ok()).flatten().map(|v| vec![v.l.get(), v.amount.0]),
                    quiet(|| s::get_liquidity_by_x(ST(x), lo, hi, ssp(cur), up).ok()).flatten().map(|v| vec![v.l.get(), v.amount.0]), ctx)?;
                same("get_liquidity_by_y", args,
                    quiet(|| c::logic::math::get_liquidity_by_y(CT(x), lo, hi, csp(cur), up).ok()).flatten().map(|v| vec![v.l.get(), v.amount.0]),
                    quiet(|| s::get_liquidity_by_y(ST(x), lo, hi, ssp(cur), up).ok()).flatten().map(|v| vec![v.l.get(), v.amount.0]), ctx)?;
            }
            13 => {
                let (a, b) = gpair(t);
                let (l, up) = (gliq(t), t.bool());
                same("calculate_x", format!("{a}, {b}, {l}, {up}"),
                    quiet(|| c::logic::math::calculate_x(csp(a), csp(b), CL::new(l), up).ok()).flatten().map(|v| vec![v.0]),
                    quiet(|| s::calculate_x(ssp(a), ssp(b), SL::new(l), up).ok()).flatten().map(|v| vec![v.0]), ctx)?;
                same("calculate_y", format!("{a}, {l}, {up}"),
                    quiet(|| c::logic::math::calculate_y(csp(a), CL::new(l), up).ok()).flatten().map(|v| vec![v.0]),
                    quiet(|| s::calculate_y(ssp(a), SL::new(l), up).ok()).flatten().map(|v| vec![v.0]), ctx)?;
            }
            14 => {
                let mut g = || t.log_u128(128);
                let v: Vec<u128> = (0..8).map(|_| g()).collect();
                let k = [gtick(t), gtick(t), gtick(t)];
                let l = gliq(t);
                same("calculate_fee", format!("{k:?}, {v:?}, {l}"),
                    quiet(|| {
                        let f = |j: usize| CF::new(v[j]);
                        let (gx, gy) = c::fee_growth::calculate_fee_growth_inside(k[0], f(0), f(1), k[1], f(2), f(3), k[2], f(4), f(5));
                        let x = gx.unchecked_sub(f(6)).to_fee(CL::new(l)).ok()?;
                        let y = gy.unchecked_sub(f(7)).to_fee(CL::new(l)).ok()?;
                        Some(vec![x.0, y.0])
                    }).flatten(),
                    quiet(|| {
                        let f = |j: usize| SF::new(v[j]);
                        s::calculate_fee(k[0], f(0), f(1), k[1], f(2), f(3), k[2], f(4), f(5), f(6), f(7), SL::new(l)).ok().map(|r| vec![r.x.0, r.y.0])
                    }).flatten(), ctx)?;
                let x = gamt(t);
                same("FeeGrowth::from_fee", format!("{l}, {x}"),
                    quiet(|| CF::from_fee(CL::new(l), CT(x)).ok()).flatten().map(|v| vec![v.get()]),
                    quiet(|| SF::from_fee(SL::new(l), ST(x)).ok()).flatten().map(|v| vec![v.get()]), ctx)?;
            }
            15 => {
                let (l, a, b) = (gliq(t), t.raw64() >> t.below(64), t.raw64() >> t.below(64));
                same("seconds_per_liquidity_global", format!("{l}, {a}, {b}"),
                    quiet(|| CS::calculate_seconds_per_liquidity_global(CL::new(l), a, b).ok()).flatten().map(|v| vec![v.get()]),
                    quiet(|| SS::calculate_seconds_per_liquidity_global(SL::new(l), a, b).ok()).flatten().map(|v| vec![v.get()]), ctx)?;
                let k = [gtick(t), gtick(t), gtick(t)];
                let v = [t.log_u128(128), t.log_u128(128), t.log_u128(128)];
                same("seconds_per_liquidity_inside", format!("{k:?}, {v:?}"),
                    quiet(|| c::seconds_per_liquidity::calculate_seconds_per_liquidity_inside(k[0], k[1], k[2], CS::new(v[0]), CS::new(v[1]), CS::new(v[2])).ok()).flatten().map(|v| vec![v.get()]),
                    quiet(|| s::seconds_per_liquidity::calculate_seconds_per_liquidity_inside(k[0], k[1], k[2], SS::new(v[0]), SS::new(v[1]), SS::new(v[2])).ok()).flatten().map(|v| vec![v.get()]), ctx)?;
            }
            _ => {
                // crossing a tick
                let (l0, dl, sign, ti, cur) = (gliq(t), gliq(t), t.bool(), gtick(t), gtick(t));
                let v: Vec<u128> = (0..4).map(|_| t.log_u128(128)).collect();
                let tm: Vec<u64> = (0..3).map(|_| t.raw64() >> (20 + t.below(40))).collect();
                same("Tick::cross", format!("{l0}, {dl}, {sign}, {ti}, {cur}, {v:?}, {tm:?}"),
                    quiet(|| {
                        let mut p = c::Pool { liquidity: CL::new(l0), current_tick_index: cur, fee_growth_global_x: CF::new(v[0]), fee_growth_global_y: CF::new(v[1]), start_timestamp: tm[0], ..Default::default() };
                        let mut k = c::Tick { index: ti, sign, liquidity_change: CL::new(dl), fee_growth_outside_x: CF::new(v[2]), fee_growth_outside_y: CF::new(v[3]), seconds_outside: tm[1], ..Default::default() };
                        k.cross(&mut p, tm[2]).ok()?;
                        Some(vec![p.liquidity.get(), p.last_timestamp as u128, k.fee_growth_outside_x.get(), k.fee_growth_outside_y.get(), k.seconds_outside as u128])
                    }).flatten(),
                    quiet(|| {
                        let mut p = s::Pool { liquidity: SL::new(l0), current_tick_index: cur, fee_growth_global_x: SF::new(v[0]), fee_growth_global_y: SF::new(v[1]), start_timestamp: tm[0], ..Default::default() };
                        let mut k = s::Tick { index: ti, sign, liquidity_change: SL::new(dl), fee_growth_outside_x: SF::new(v[2]), fee_growth_outside_y: SF::new(v[3]), seconds_outside: tm[1], ..Default::default() };
                        k.cross(&mut p, tm[2]).ok()?;
                        Some(vec![p.liquidity.get(), p.last_timestamp as u128, k.fee_growth_outside_x.get(), k.fee_growth_outside_y.get(), k.seconds_outside as u128])
                    }).flatten(), ctx)?;
                // token order and keys
                let name = |t: &mut Tape| { let n = 1 + t.below(4); (0..n).map(|_| *t.pick(&['a', 'b', 'B', '1', 'z', '/', 'é'])).collect::<String>() };
                let (a, b) = (name(t), name(t));
                same("is_token_x", format!("{a}, {b}"),
                    quiet(|| c::PoolKey::new(a.clone(), b.clone(), c::FeeTier::default()).ok()).flatten().map(|v| vec![u(v.token_x == a), u(v.token_y == b)]),
                    quiet(|| s::new_pool_key(a.clone(), b.clone(), s::FeeTier::default()).ok()).flatten().map(|v| vec![u(v.token_x == a), u(v.token_y == b)]), ctx)?;
                if a != b {
                    same("is_token_x fn", format!("{a}, {b}"), Some(vec![u(a < b)]),
                        quiet(|| s::is_token_x(a.clone(), b.clone()).ok()).flatten().map(|v| vec![u(v)]), ctx)?;
                }
            }
        }
        t.end();
    }
    Ok(())
}

/// constants and limits the SDK repeats
pub fn c17_consts(_: bool) -> Result<(u64, String), Violation> {
    let pairs: Vec<(&str, u128, u128)> = vec![
        ("MAX_TICK", i(c::MAX_TICK), i(s::MAX_TICK)),
        ("MIN_TICK", i(c::MIN_TICK), i(s::MIN_TICK)),
        ("MAX_SQRT_PRICE", c::MAX_SQRT_PRICE, s::MAX_SQRT_PRICE),
        ("MIN_SQRT_PRICE", c::MIN_SQRT_PRICE, s::MIN_SQRT_PRICE),
        ("TICK_SEARCH_RANGE", i(c::TICK_SEARCH_RANGE), i(s::get_tick_search_range())),
        ("CHUNK_SIZE", i(c::tickmap::CHUNK_SIZE), i(s::get_chunk_size())),
        ("MAX_TICKMAP_QUERY_SIZE", c::tickmap::MAX_TICKMAP_QUERY_SIZE as u128, s::get_max_tickmap_query_size() as u128),
        ("LIQUIDITY_TICK_LIMIT", c::tick::LIQUIDITY_TICK_LIMIT as u128, s::get_liquidity_ticks_limit() as u128),
    ];
    let n = pairs.len() as u64;
    for (name, a, b) in pairs {
        check!(a == b, format!("constant:{name}"), "{name}: contract {a}, SDK {b}");
    }
    for sp in 1..=100u16 {
        check!(c::tickmap::get_max_chunk(sp) == s::get_max_chunk(sp), "constant:get_max_chunk", "get_max_chunk({sp})");
    }
    Ok((n + 100, "the limits and constants the SDK repeats.".into()))
}

// ---- C20 -------------------------------------------------------------------------------------

fn fitu(x: W) -> Option<u128> {
    if x.bits() > 128 { None } else { Some(x.low_u128()) }
}
/// value and whether every intermediate fits
struct Lx {
    l: W,
    lo: W,
    amount: W,
    fits: bool,
}
fn m_x(nom: u128, den: u128, l: W, up: bool) -> Option<(W, bool)> {
    if den == 0 {
        return None;
    }
    // liquidity * nominator / denominator at the liquidity's six decimals, truncated
    let a = l * W::from(nom) / p10(24);
    let v = a * p10(24) / W::from(den);
    let r = if up { div_up(v, p10(6)) } else { v / p10(6) };
    Some((r, fitu(a).is_some() && fitu(v).is_some() && fitu(r).is_some()))
}
fn m_y(diff: u128, l: W, up: bool) -> (W, bool) {
    // whole units of liquidity
    let a = W::from(diff) * (l / p10(6));
    let r = if up { div_up(a, p10(24)) } else { a / p10(24) };
    (r, fitu(r).is_some())
}
/// liquidity bought by x (between a < b), as the exact floor and with the price product truncated
fn m_lx(x: u128, a: u128, b: u128) -> (W, W, bool) {
    let prod = W::from(a) * W::from(b) / p10(24);
    let n = W::from(x) * prod * p10(6);
    let l = n / W::from(b - a);
    let exact = W::from(x) * W::from(a) * W::from(b) * p10(6) / p10(24) / W::from(b - a);
    (l, exact, n.bits() <= 256 && fitu(l).is_some())
}
fn m_ly(y: u128, a: u128, b: u128) -> (W, bool) {
    let l = W::from(y) * p10(30) / W::from(b - a);
    (l, fitu(l).is_some())
}

enum Want {
    No(&'static str),
    Yes { l: W, amount: W, fits: bool },
}
fn want_by_x(x: u128, lo: u128, hi: u128, cur: u128, up: bool) -> Want {
    if cur >= hi {
        return Want::No("the range lies below the price: no x");
    }
    if cur < lo {
        let (l, _, f) = m_lx(x, lo, hi);
        return Want::Yes { l, amount: W::from(0u8), fits: f };
    }
    let (l, _, f) = m_lx(x, cur, hi);
    let (y, g) = m_y(cur - lo, l, up);
    Want::Yes { l, amount: y, fits: f && g }
}
fn want_by_y(y: u128, lo: u128, hi: u128, cur: u128, up: bool) -> Want {
    if cur <= lo {
        return Want::No("the range lies above the price: no y");
    }
    if hi <= cur {
        let (l, f) = m_ly(y, lo, hi);
        return Want::Yes { l, amount: W::from(0u8), fits: f };
    }
    let (l, f) = m_ly(y, lo, cur);
    let den = W::from(cur) * W::from(hi) / p10(24);
    match m_x(hi - cur, den.low_u128(), l, up) {
        Some((x, g)) => Want::Yes { l, amount: x, fits: f && g },
        None => Want::Yes { l, amount: W::from(0u8), fits: false },
    }
}

fn judge(what: &str, args: &str, got: Option<Option<(u128, u128)>>, want: &Want) -> Res {
    match (got, want) {
        (Some(Some(g)), Want::No(why)) => fail(format!("accepted:{what}"), format!("{what}({args}) gave {g:?}: {why}")),
        (None, Want::No(why)) => fail(format!("panic:{what}"), format!("{what}({args}) aborts instead of returning an error: {why}")),
        (Some(None), Want::No(_)) => Ok(()),
        (Some(Some(g)), Want::Yes { l, amount, .. }) => {
            check!(W::from(g.0) == *l, format!("liquidity:{what}"), "{what}({args}): liquidity {}, expected {l}", g.0);
            check!(W::from(g.1) == *amount, format!("amount:{what}"), "{what}({args}): other amount {}, expected {amount}", g.1);
            Ok(())
        }
        (_, Want::Yes { l, fits, .. }) => {
            check!(!fits, format!("refused:{what}"), "{what}({args}) refused, expected liquidity {l}");
            Ok(())
        }
    }
}

pub fn c20(t: &mut Tape, ctx: &mut Ctx) -> Res {
    use c::liquidity::Liquidity as CL;
    use c::token_amount::TokenAmount as CT;
    use s::liquidity::Liquidity as SL;
    use s::token_amount::TokenAmount as ST;
    for _ in 0..1 + t.below(6) {
        t.begin();
        let sp = *t.pick(&[1i32, 1, 10, 100]);
        let (a, b) = (crate_tick(t, sp), crate_tick(t, sp));
        let (lo, mut hi) = match t.below(4) {
            0 => (a.min(b), a.max(b)),
            _ => (a, a + sp * (1 + t.below(200) as i32)),
        };
        if hi > max_tick(sp) || hi <= lo {
            hi = max_tick(sp);
        }
        let lo = if lo >= hi { hi - sp } else { lo };
        let (pl, ph) = (price_of(lo), price_of(hi));
        let cur = match t.below(8) {
            0 => pl,
            1 => ph,
            2 => pl - 1,
            3 => ph + 1,
            4 => ph - 1,
            5 => pl + t.u128_below(ph - pl),
            6 => pl + 1,
            _ => gprice(t),
        }
        .clamp(MIN_PRICE, MAX_PRICE);
        let (x, y, up) = (gamt(t), gamt(t), t.bool());
        let args = format!("x {x} y {y} ticks {lo}..{hi} price {cur} up {up}");
        ctx.log(|| args.clone());
        let wx = want_by_x(x, pl, ph, cur, up);
        let wy = want_by_y(y, pl, ph, cur, up);
        let r = quiet(|| c::logic::math::get_liquidity_by_x(CT(x), lo, hi, csp(cur), up).ok()).map(|o| o.map(|v| (v.l.get(), v.amount.0)));
        judge("get_liquidity_by_x", &args, r, &wx)?;
        let r = quiet(|| c::logic::math::get_liquidity_by_y(CT(y), lo, hi, csp(cur), up).ok()).map(|o| o.map(|v| (v.l.get(), v.amount.0)));
        judge("get_liquidity_by_y", &args, r, &wy)?;
        let r = quiet(|| s::get_liquidity_by_x(ST(x), lo, hi, ssp(cur), up).ok()).map(|o| o.map(|v| (v.l.get(), v.amount.0)));
        judge("sdk getLiquidityByX", &args, r, &wx)?;
        let r = quiet(|| s::get_liquidity_by_y(ST(y), lo, hi, ssp(cur), up).ok()).map(|o| o.map(|v| (v.l.get(), v.amount.0)));
        judge("sdk getLiquidityByY", &args, r, &wy)?;
        // what it is for: the liquidity bought costs no more than the offered amount, and one more
        // unit of precision would cost at least that much
        if let Want::Yes { l, fits: true, .. } = &wx {
            let (p, q) = (cur.max(pl), ph);
            let (_, exact, _) = m_lx(x, p, q);
            check!(*l <= exact, "overbuys-x", "{args}: x buys {exact}, helper says {l}");
            check!(exact - *l <= exact / p10(14) + W::from(x) * p10(6) / W::from(q - p) + W::from(1u8), "underbuys-x", "{args}: x buys {exact}, helper says {l}");
        }
        // both together
        let r = quiet(|| c::logic::math::get_liquidity(CT(x), CT(y), lo, hi, csp(cur), up).ok()).map(|o| o.map(|v| (v.l.get(), v.x.0, v.y.0)));
        let (wl, wxa, wya, f) = match (&wx, &wy) {
            (Want::Yes { l, amount, fits }, Want::No(_)) => (*l, W::from(x), *amount, *fits),
            (Want::No(_), Want::Yes { l, amount, fits }) => (*l, *amount, W::from(y), *fits),
            (Want::Yes { l: l1, amount: a1, fits: f1 }, Want::Yes { l: l2, amount: a2, fits: f2 }) => {
                if l2 < l1 { (*l2, *a2, W::from(y), *f1 && *f2) } else { (*l1, W::from(x), *a1, *f1 && *f2) }
            }
            _ => (W::from(0u8), W::from(0u8), W::from(0u8), false),
        };
        match r {
            Some(Some((l, gx, gy))) => {
                check!(W::from(l) == wl, "liquidity:get_liquidity", "get_liquidity({args}): liquidity {l}, expected {wl}");
                check!(W::from(gx) == wxa && W::from(gy) == wya, "amounts:get_liquidity", "get_liquidity({args}): amounts {gx} {gy}, expected {wxa} {wya} for liquidity {wl}");
                ctx.nontrivial = true;
            }
            _ => check!(!f, "refused:get_liquidity", "get_liquidity({args}) {}, expected liquidity {wl} amounts {wxa} {wya}", if r.is_none() { "aborts" } else { "refuses" }),
        }
        // the two conversions themselves
        let (l, n, d) = (gliq(t), gprice(t), gprice(t));
        let w1 = m_x(n, d, W::from(l), up);
        for (name, got) in [
            ("calculate_x", quiet(|| c::logic::math::calculate_x(csp(n), csp(d), CL::new(l), up).ok()).flatten().map(|v| v.0)),
            ("sdk calculate_x", quiet(|| s::calculate_x(ssp(n), ssp(d), SL::new(l), up).ok()).flatten().map(|v| v.0)),
        ] {
            match (got, w1) {
                (Some(g), Some((w, _))) => check!(W::from(g) == w, format!("value:{name}"), "{name}({n}, {d}, {l}, {up}) = {g}, expected {w}"),
                (Some(g), None) => return fail(format!("value:{name}"), format!("{name}({n}, {d}, {l}, {up}) = {g}")),
                (None, Some((w, f))) => check!(!f, format!("refused:{name}"), "{name}({n}, {d}, {l}, {up}) refused, expected {w}"),
                _ => {}
            }
        }
        let (w2, f2) = m_y(n, W::from(l), up);
        for (name, got) in [
            ("calculate_y", quiet(|| c::logic::math::calculate_y(csp(n), CL::new(l), up).ok()).flatten().map(|v| v.0)),
            ("sdk calculate_y", quiet(|| s::calculate_y(ssp(n), SL::new(l), up).ok()).flatten().map(|v| v.0)),
        ] {
            match got {
                Some(g) => check!(W::from(g) == w2, format!("value:{name}"), "{name}({n}, {l}, {up}) = {g}, expected {w2}"),
                None => check!(!f2, format!("refused:{name}"), "{name}({n}, {l}, {up}) refused, expected {w2}"),
            }
        }
        // out of range ticks
        if t.below(8) == 0 {
            let k = MAX_TICK + 1 + t.below(1000) as i32;
            let z = quiet(|| c::logic::math::get_liquidity_by_x(CT(x), lo, k, csp(cur), up).is_ok());
            check!(z == Some(false), "bounds", "get_liquidity_by_x accepts tick {k}");
            let z = quiet(|| c::logic::math::get_liquidity_by_y(CT(y), -k, hi, csp(cur), up).is_ok());
            check!(z == Some(false), "bounds", "get_liquidity_by_y accepts tick {}", -k);
        }
        ctx.evals += 9;
        t.end();
    }
    Ok(())
}
