//! C19 (rounding against exact rationals) and C24 (tick queries against the set of ticks).
use crate::big::*;
use crate::chain::*;
use crate::check;
use crate::drive::*;
use crate::hist::*;
use crate::model::*;
use crate::report::{fail, Ctx, Res, Violation};
use crate::tape::Tape;
use decimal::Decimal;
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::{LiquidityTick, Tick};
use std::collections::{BTreeMap, BTreeSet};

// ---- C19 ---------------------------------------------------------------------------------------

/// exact token x between two prices as a fraction: L (b - a) 10^18 / (a b)
fn frac_x(a: u128, b: u128, l: u128) -> (W, W) {
    (w(l) * w(b - a) * p10(18), w(a) * w(b))
}
/// exact token y between two prices as a fraction: L (b - a) / 10^30
fn frac_y(a: u128, b: u128, l: u128) -> (W, W) {
    (w(l) * w(b - a), p10(30))
}
/// the part of the range below / above the price
fn split(price: u128, lo: i32, hi: i32) -> ((u128, u128), (u128, u128)) {
    let (a, b) = (price_of(lo), price_of(hi));
    let p = price.clamp(a, b);
    ((a, p), (p, b))
}
/// (at least the exact value, less than a unit above it), up to a relative error of 1e-14 for x
fn deposit_ok(paid: u128, n: W, d: W) -> bool {
    let e = p10(14);
    let one = w(1);
    w(paid) * d * e + d >= n * e && w(paid) * d * e < n * (e + one) + d * (e + one)
}
fn withdrawal_ok(got: u128, n: W, d: W) -> bool {
    let e = p10(14);
    let one = w(1);
    w(got) * d <= n && w(got) * d * e + d * (e + one) > n * (e - one)
}

pub fn c19(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.w[K_CREATE] = 18;
    cfg.w[K_REMOVE] = 12;
    cfg.w[K_BURN] = 2;
    cfg.w[K_SWAP] = 40;
    cfg.w[K_ROUND] = 10;
    cfg.w[K_WITHDRAW] = 0;
    cfg.w[K_TIME] = 0;
    let mut w = World::new(t, ctx, cfg);
    history(&mut w, t, ctx, &mut |w, ctx, s| {
        let Ok(_) = s.res else { return Ok(Flow::Go) };
        match &s.c.op {
            Op::Create { key, lo, hi, liq, .. } => {
                let price = s.old.pools[key].price;
                let ((ya, yb), (xa, xb)) = split(price, *lo, *hi);
                let px = s.moved(w, CONTRACT, &key.x);
                let py = s.moved(w, CONTRACT, &key.y);
                check!(px >= 0 && py >= 0, "deposit", "opening a position paid ({px}, {py}) into the contract");
                let (nx, dx) = frac_x(xa, xb, *liq);
                let (ny, dy) = frac_y(ya, yb, *liq);
                check!(deposit_ok(px as u128, nx, dx), "deposit-x", "liquidity {liq} in {lo}..{hi} at price {price}: took {px} of x, exact value is {}/{}", nx, dx);
                check!(u(py as u128) == div_up(ny, dy), "deposit-y", "liquidity {liq} in {lo}..{hi} at price {price}: took {py} of y, exact value rounded up is {}", div_up(ny, dy));
                if !(nx % dx).is_zero() || !(ny % dy).is_zero() {
                    ctx.label("deposit rounded");
                }
            }
            Op::Remove { .. } | Op::Burn { .. } => {
                // on a copy: collect the fees first, so that closing pays the principal alone
                let (owner, i) = match &s.c.op {
                    Op::Remove { index } => (s.c.sender.clone(), *index),
                    Op::Burn { id } => (String::from_utf8_lossy(&id[..id.len() - 4]).into_owned(), u32::from_be_bytes(id[id.len() - 4..].try_into().unwrap())),
                    _ => unreachable!(),
                };
                let Some(p) = s.old.pos.get(&owner).and_then(|v| v.get(i as usize)) else { return Ok(Flow::Go) };
                let mut ch = s.before.clone();
                if ch.exec(&owner, &[], &to_msg(&Op::Claim { index: i })).is_err() {
                    return Ok(Flow::Go);
                }
                let b0 = (ch.balance(&owner, &p.key.x), ch.balance(&owner, &p.key.y));
                if ch.exec(&s.c.sender, &[], &to_msg(&s.c.op)).is_err() {
                    return Ok(Flow::Go);
                }
                let gx = ch.balance(&owner, &p.key.x) - b0.0;
                let gy = ch.balance(&owner, &p.key.y) - b0.1;
                let price = s.old.pools[&p.key].price;
                let ((ya, yb), (xa, xb)) = split(price, p.lo, p.hi);
                let (nx, dx) = frac_x(xa, xb, p.liq);
                let (ny, dy) = frac_y(ya, yb, p.liq);
                let what = format!("liquidity {} in {}..{} at price {price}", p.liq, p.lo, p.hi);
                check!(withdrawal_ok(gx, nx, dx), "withdraw-x", "{what}: paid {gx} of x, exact value is {nx}/{dx}");
                check!(u(gy) == ny / dy, "withdraw-y", "{what}: paid {gy} of y, exact value rounded down is {}", ny / dy);
                if !(nx % dx).is_zero() || !(ny % dy).is_zero() {
                    ctx.label("withdrawal rounded");
                    ctx.nontrivial = true;
                }
            }
            Op::Swap { key, down, .. } => {
                let (p0, p1) = match (s.old.pools.get(key), w.q_pool(key)) {
                    (Some(a), Ok(b)) => (a.price, b.sqrt_price.get()),
                    _ => return Ok(Flow::Go),
                };
                let (ti, to) = if *down { (&key.x, &key.y) } else { (&key.y, &key.x) };
                let paid = s.moved(w, CONTRACT, ti);
                let out = -s.moved(w, CONTRACT, to);
                let (a, b) = if p0 < p1 { (p0, p1) } else { (p1, p0) };
                check!(if *down { p1 <= p0 } else { p1 >= p0 }, "direction", "price went from {p0} to {p1}");
                // exact areas under the liquidity between the two prices, in 10^-24 units
                let mut cuts: Vec<u128> = vec![a];
                cuts.extend(s.old.ticks(key).into_iter().map(price_of).filter(|p| *p > a && *p < b));
                cuts.push(b);
                let (mut in_lo, mut out_hi) = (u(0), u(0));
                let e24 = p10(24);
                for c in cuts.windows(2) {
                    if c[0] == c[1] {
                        continue;
                    }
                    let l: u128 = s.old.positions_in(key).filter(|p| price_of(p.lo) <= c[0] && c[1] <= price_of(p.hi)).map(|p| p.liq).sum();
                    let (nx, dx) = frac_x(c[0], c[1], l);
                    let (ny, dy) = frac_y(c[0], c[1], l);
                    if *down {
                        in_lo = in_lo + nx * e24 / dx;
                        out_hi = out_hi + div_up(ny * e24, dy);
                    } else {
                        in_lo = in_lo + ny * e24 / dy;
                        out_hi = out_hi + div_up(nx * e24, dx);
                    }
                }
                let steps = (cuts.len() + (tick_of(b, 1) - tick_of(a, 1)) as usize / (256 * key.s as usize) + 2) as u128;
                // the fee is taken on top of what the curve needs
                check!(paid > 0 && u(paid as u128) * e24 * u(ONE as u128) + p10(10 + 12) * u(steps) >= in_lo * u((ONE + key.fee) as u128), "swap-in", "{:?}: moving the price from {p0} to {p1} took {paid}, the curve alone needs {}e-24 and the fee is {}e-12", s.c.op, in_lo, key.fee);
                check!(out >= 0 && u(out as u128) * e24 <= out_hi, "swap-out", "{:?}: moving the price from {p0} to {p1} paid {out}, the curve releases only {}e-24", s.c.op, out_hi);
                ctx.label("swap against exact areas");
                if cuts.len() > 2 {
                    ctx.label("swap over several ranges");
                }
            }
            _ => {}
        }
        Ok(Flow::Go)
    })?;
    Ok(())
}
fn u(v: u128) -> W {
    crate::big::w(v)
}

// ---- C24 ---------------------------------------------------------------------------------------

fn q<T: serde::de::DeserializeOwned>(ch: &Chain, what: &str, m: &QueryMsg) -> Result<T, Violation> {
    ch.query(m).or_else(|e| fail("query-refused", format!("{what}: {}", e.text())))
}
fn bit(i: i32, s: i32) -> (u16, u32) {
    let n = i / s + MAX_TICK / s;
    ((n / 64) as u16, (n % 64) as u32)
}
/// a grid tick at, or near, something that matters for the answer
fn spot(t: &mut Tape, set: &[i32], s: i32) -> i32 {
    let m = max_tick(s);
    let v = match t.below(6) {
        0 => *t.pick(&[-m, m]),
        1 | 2 if !set.is_empty() => *t.pick(set) + s * *t.pick(&[-1, 0, 0, 1]),
        3 => {
            let chunks = (2 * m / s) as i64 / 64;
            ((t.range_i(0, chunks) * 64) as i32 - MAX_TICK / s + t.range_i(-1, 1) as i32) * s
        }
        4 if !set.is_empty() => {
            // border of the chunk an initialised tick lies in
            let (c, _) = bit(*t.pick(set), s);
            ((c as i32 * 64) - MAX_TICK / s + *t.pick(&[-1, 0, 63, 64])) * s
        }
        _ => tick_choice(t, s),
    };
    v.clamp(-m, m)
}

/// compares the tick queries of one pool with the set of ticks at which positions end
fn ticks_agree(ch: &Chain, k: &Key, set: &BTreeSet<i32>, info: &dyn Fn(i32) -> (u128, i128), t: &mut Tape, ctx: &mut Ctx, what: &str) -> Res {
    let s = k.s as i32;
    let v: Vec<i32> = set.iter().cloned().collect();
    for _ in 0..4 {
        let i = spot(t, &v, s);
        let is: bool = q(ch, what, &QueryMsg::IsTickInitialized { key: pk(k), index: i })?;
        check!(is == set.contains(&i), "is-initialised", "{what}: IsTickInitialized({i}) of {k:?} is {is}; initialised are {v:?}");
        let tk: Result<Tick, _> = ch.query(&QueryMsg::Tick { key: pk(k), index: i });
        check!(tk.is_ok() == set.contains(&i), "tick", "{what}: Tick({i}) of {k:?} exists: {}; initialised are {v:?}", tk.is_ok());
        ctx.evals += 2;
    }
    // counts
    for _ in 0..3 {
        let (a, b) = (spot(t, &v, s), spot(t, &v, s));
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let n: u32 = q(ch, what, &QueryMsg::LiquidityTicksAmount { pool_key: pk(k), lower_tick: a, upper_tick: b })?;
        let want = set.range(a..=b).count() as u32;
        check!(n == want, "count", "{what}: LiquidityTicksAmount({a}..={b}) of {k:?} is {n}, must be {want}; initialised are {v:?}");
        if want > 0 {
            ctx.label("count of ticks in a window");
        }
        if a < b {
            let r: Result<u32, _> = ch.query(&QueryMsg::LiquidityTicksAmount { pool_key: pk(k), lower_tick: b, upper_tick: a });
            check!(r.is_err() || matches!(r, Ok(0)), "count-reversed", "{what}: LiquidityTicksAmount of the empty window {b}..={a} of {k:?} is {:?}", r.ok());
        }
        ctx.evals += 2;
    }
    // bad windows are refused
    let off = spot(t, &v, s);
    if s > 1 && off + s <= max_tick(s) {
        let r: Result<u32, _> = ch.query(&QueryMsg::LiquidityTicksAmount { pool_key: pk(k), lower_tick: off + 1 + t.below(s as u64 - 1) as i32, upper_tick: max_tick(s) });
        check!(r.is_err(), "off-grid", "{what}: LiquidityTicksAmount from a tick that is off the grid of {k:?} is answered");
    }
    let r: Result<u32, _> = ch.query(&QueryMsg::LiquidityTicksAmount { pool_key: pk(k), lower_tick: -max_tick(s) - s, upper_tick: off });
    check!(r.is_err(), "out-of-range", "{what}: LiquidityTicksAmount from below the grid of {k:?} is answered");
    let r: Result<u32, _> = ch.query(&QueryMsg::LiquidityTicksAmount { pool_key: pk(k), lower_tick: off, upper_tick: max_tick(s) + s });
    check!(r.is_err(), "out-of-range", "{what}: LiquidityTicksAmount to above the grid of {k:?} is answered");
    // bitmap chunks
    let mut chunks: BTreeMap<u16, u64> = BTreeMap::new();
    for i in &v {
        let (c, b) = bit(*i, s);
        *chunks.entry(c).or_insert(0) |= 1 << b;
    }
    for _ in 0..2 {
        let (a, b) = (spot(t, &v, s), spot(t, &v, s));
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let rev = t.bool();
        let got: Vec<(u16, u64)> = q(ch, what, &QueryMsg::TickMap { pool_key: pk(k), lower_tick_index: a, upper_tick_index: b, x_to_y: rev })?;
        let mut want: Vec<(u16, u64)> = chunks.range(bit(a, s).0..=bit(b, s).0).map(|(c, v)| (*c, *v)).collect();
        if rev {
            want.reverse();
        }
        let all = want.len();
        want.truncate(1638);
        let got: Vec<(u16, u64)> = if all > 1638 { got } else { got.into_iter().filter(|x| x.1 != 0).collect() };
        check!(got == want, "bitmap", "{what}: TickMap({a}..={b}, x_to_y {rev}) of {k:?} has {} chunks, must have {}: {:?} against {:?}", got.len(), want.len(), &got[..got.len().min(20)], &want[..want.len().min(20)]);
        if want.len() > 1 {
            ctx.nontrivial = true;
            ctx.label("bitmap window over several chunks");
        }
        if all > 1638 {
            ctx.label("bitmap window cut at its documented size");
        }
        ctx.evals += 1;
    }
    // liquidity of listed ticks, in the order asked for
    if !v.is_empty() {
        let n = match t.below(8) {
            0 => 780,
            1 => 779,
            _ => t.below(12) as usize,
        };
        let mut ask: Vec<i32> = (0..n).map(|_| 0).collect();
        if n > 100 {
            let at = t.below(v.len() as u64) as usize;
            for (j, x) in ask.iter_mut().enumerate() {
                *x = v[(at + j) % v.len()];
            }
        } else {
            for x in ask.iter_mut() {
                *x = *t.pick(&v);
            }
        }
        let got: Vec<LiquidityTick> = q(ch, what, &QueryMsg::LiquidityTicks { pool_key: pk(k), tick_indexes: ask.clone() })?;
        check!(got.len() == ask.len(), "liquidity-ticks", "{what}: LiquidityTicks of {} ticks returns {}", ask.len(), got.len());
        for (g, i) in got.iter().zip(&ask) {
            let (_, net) = info(*i);
            let have = if g.sign { g.liquidity_change.get() as i128 } else { -(g.liquidity_change.get() as i128) };
            check!(g.index == *i && have == net, "liquidity-ticks", "{what}: LiquidityTicks entry for {i} is tick {} net {have}, must be net {net}", g.index);
        }
        ctx.evals += 1;
        let miss = spot(t, &v, s);
        if !set.contains(&miss) {
            let mut ask2 = ask.clone();
            ask2.truncate(10);
            ask2.push(miss);
            let r: Result<Vec<LiquidityTick>, _> = ch.query(&QueryMsg::LiquidityTicks { pool_key: pk(k), tick_indexes: ask2 });
            check!(r.is_err(), "missing-tick", "{what}: LiquidityTicks answers for {miss}, which is not initialised");
        }
    }
    Ok(())
}

pub fn c24(t: &mut Tape, ctx: &mut Ctx) -> Res {
    if t.chance(1, 150) {
        return bulk(t, ctx);
    }
    let mut cfg = Cfg::trading();
    cfg.w[K_CREATE] = 16;
    cfg.w[K_REMOVE] = 10;
    cfg.w[K_BURN] = 2;
    cfg.w[K_SWAP] = 6;
    cfg.pools = 3;
    cfg.bad_inputs = t.bool();
    let mut w = World::new(t, ctx, cfg);
    let n = w.cfg.min_ops + t.below(w.cfg.max_ops - w.cfg.min_ops + 1);
    let mut last: Option<Call> = None;
    for _ in 0..n {
        t.begin();
        let c = w.gen(t, last.as_ref());
        let mut fl = Flow::Go;
        let mut r = Ok(());
        if let Some(c) = c {
            fl = step(&mut w, ctx, &c, &mut |_, _, _| Ok(Flow::Go))?;
            if fl == Flow::Go && t.chance(1, 3) {
                if let Some(k) = w.pick_pool(t) {
                    let set = w.model.ticks(&k);
                    let m = w.model.clone();
                    r = ticks_agree(&w.chain, &k, &set, &|i| m.tick_info(&k, i), t, ctx, &format!("after {} {:?}", c.sender, c.op));
                }
            }
            last = Some(c);
        }
        t.end();
        r?;
        if fl == Flow::Stop {
            return Ok(());
        }
    }
    Ok(())
}

/// one pool with ticks in very many chunks, as large as the documented answer size and beyond
fn bulk(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let s = *t.pick(&[1u16, 1, 2, 1]);
    let si = s as i32;
    let mut ch = Chain::new(0);
    let (x, y) = ("orai1tka", "orai1tkb");
    for tk in [x, y] {
        ch.mint(USERS[0], tk, 1 << 126);
    }
    let k = Key { x: x.into(), y: y.into(), fee: 0, s };
    for (who, op) in [
        (ADMIN, Op::AddTier { fee: 0, s }),
        (USERS[0], Op::CreatePool { t0: x.into(), t1: y.into(), fee: 0, s, price: price_of(0), tick: 0 }),
    ] {
        if ch.exec(who, &[], &to_msg(&op)).is_err() {
            return Ok(());
        }
    }
    let m = max_tick(si);
    let step = si * 64;
    let n = 500 + t.below(420) as i32;
    let base = -m + (t.below(64 * 2) as i32) * si;
    let mut net: BTreeMap<i32, (u128, i128)> = BTreeMap::new();
    for j in 0..n {
        let lo = base + 2 * j * step;
        let hi = lo + step + si * (t.below(3) as i32 - 1);
        if hi > m {
            break;
        }
        let liq = 1_000_000 + j as u128;
        let op = Op::Create { key: k.clone(), lo, hi, liq, smin: 0, smax: u128::MAX, mint: false };
        if ch.exec(USERS[0], &[], &to_msg(&op)).is_err() {
            return Ok(());
        }
        for (i, d) in [(lo, liq as i128), (hi, -(liq as i128))] {
            let e = net.entry(i).or_insert((0, 0));
            e.0 += liq;
            e.1 += d;
        }
    }
    ctx.log(|| format!("{} ticks over about as many chunks, from {base}, spacing {s}", net.len()));
    let set: BTreeSet<i32> = net.keys().cloned().collect();
    ctx.label("pool with ticks in very many chunks");
    for _ in 0..6 {
        ticks_agree(&ch, &k, &set, &|i| net[&i], t, ctx, "many ticks")?;
    }
    // the whole grid, cut at the documented size, from either end
    for rev in [false, true] {
        let got: Vec<(u16, u64)> = q(&ch, "many ticks", &QueryMsg::TickMap { pool_key: pk(&k), lower_tick_index: -m, upper_tick_index: m, x_to_y: rev })?;
        let mut chunks: BTreeMap<u16, u64> = BTreeMap::new();
        for i in &set {
            let (c, b) = bit(*i, si);
            *chunks.entry(c).or_insert(0) |= 1 << b;
        }
        let mut want: Vec<(u16, u64)> = chunks.into_iter().collect();
        if rev {
            want.reverse();
        }
        want.truncate(1638);
        check!(got == want, "bitmap", "TickMap of the whole grid (x_to_y {rev}) has {} chunks, must have {}", got.len(), want.len());
    }
    let n: u32 = q(&ch, "many ticks", &QueryMsg::LiquidityTicksAmount { pool_key: pk(&k), lower_tick: -m, upper_tick: m })?;
    check!(n as usize == set.len(), "count", "LiquidityTicksAmount of the whole grid is {n}, must be {}", set.len());
    Ok(())
}
