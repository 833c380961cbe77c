//! Independent reference model of the exchange.
//!
//! Nothing here calls the code under test. Prices come from this file's own table, amounts from
//! exact big-integer arithmetic, the active liquidity and the initialised ticks are *derived* from
//! the list of open positions, and fees are credited to each position one by one at the moment
//! they are paid.
use crate::big::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

pub const MAX_TICK: i32 = 221_818;
pub const MIN_PRICE: u128 = 15_258_932_000_000_000_000;
pub const MAX_PRICE: u128 = 65_535_383_934_512_647_000_000_000_000;
pub const SEARCH: i32 = 256;
pub const ONE: u64 = 1_000_000_000_000; // 100 %

const BITS: [u128; 18] = [
    1000049998750, 1000100000000, 1000200010000, 1000400060004, 1000800280056, 1001601200560, 1003204964963,
    1006420201726, 1012881622442, 1025929181080, 1052530684591, 1107820842005, 1227267017980, 1506184333421,
    2268591246242, 5146506242525, 26486526504348, 701536086265529,
];

fn table() -> &'static Vec<u128> {
    static T: OnceLock<Vec<u128>> = OnceLock::new();
    T.get_or_init(|| {
        (-MAX_TICK..=MAX_TICK)
            .map(|t| {
                let a = t.unsigned_abs();
                let mut v: u128 = 1_000_000_000_000;
                for (i, b) in BITS.iter().enumerate() {
                    if a >> i & 1 == 1 {
                        v = v * b / 1_000_000_000_000;
                    }
                }
                if t < 0 {
                    v = 1_000_000_000_000_000_000_000_000 / v;
                }
                v * 1_000_000_000_000
            })
            .collect()
    })
}
/// sqrt price of a tick
pub fn price_of(t: i32) -> u128 {
    table()[(t + MAX_TICK) as usize]
}
/// greatest multiple of `s` whose price does not exceed `p` (p within the price range)
pub fn tick_of(p: u128, s: i32) -> i32 {
    let tb = table();
    let n = tb.partition_point(|v| *v <= p);
    let t = n as i32 - 1 - MAX_TICK;
    t.div_euclid(s) * s
}
pub fn max_tick(s: i32) -> i32 {
    MAX_TICK / s * s
}

// ---- exact step arithmetic -------------------------------------------------------------------

/// Tracks whether an intermediate value would not fit the contract's documented integer widths.
/// If that happens the contract may refuse the request, but it may not produce a wrong result.
#[derive(Default, Clone, Copy)]
pub struct Wide(pub bool);
impl Wide {
    fn lim(&mut self, v: W, bits: usize) -> W {
        if v.bits() > bits {
            self.0 = true;
        }
        v
    }
}
fn e6() -> W {
    w(1_000_000)
}
fn e24() -> W {
    p10(24)
}

pub fn delta_x(a: u128, b: u128, l: u128, up: bool, wd: &mut Wide) -> W {
    let d = a.abs_diff(b);
    let num = wd.lim(w(d) * w(l) / e6(), 256);
    let ab = w(a) * w(b);
    if up {
        let den = ab / e24();
        let q = div_up(wd.lim(num * e24(), 320), den);
        wd.lim(q, 256);
        wd.lim(div_up(q, e24()), 128)
    } else {
        let den = div_up(ab, e24());
        let q = wd.lim(num * e24(), 320) / den;
        wd.lim(q, 256);
        wd.lim(q / e24(), 128)
    }
}
pub fn delta_y(a: u128, b: u128, l: u128, up: bool, wd: &mut Wide) -> W {
    let d = a.abs_diff(b);
    let r = if up { div_up(div_up(w(d) * w(l), e6()), e24()) } else { w(d) * w(l) / e6() / e24() };
    wd.lim(r, 128)
}
/// price after adding / removing x; None when the pool cannot pay that much x at any price
pub fn next_price_x(p: u128, l: u128, x: u128, add: bool, wd: &mut Wide) -> Option<W> {
    if x == 0 {
        return Some(w(p));
    }
    let base = wd.lim(w(l) * p10(18), 256);
    let px = wd.lim(w(p) * w(x), 256);
    let den = if add {
        wd.lim(base + px, 256)
    } else {
        if px >= base {
            return None;
        }
        base - px
    };
    let num = div_up(w(p) * w(l), e6());
    let r = div_up(wd.lim(num * e24(), 320), den);
    Some(wd.lim(r, 128))
}
pub fn next_price_y(p: u128, l: u128, y: u128, add: bool, wd: &mut Wide) -> Option<W> {
    let num = wd.lim(w(y) * e24(), 256);
    let den = wd.lim(w(l) * p10(18), 256);
    if add {
        let q = wd.lim(num * e24(), 256) / den;
        wd.lim(q, 128);
        Some(wd.lim(w(p) + q, 128))
    } else {
        let q = div_up(wd.lim(num * e24(), 320), den);
        if q > w(p) {
            return None;
        }
        Some(w(p) - q)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SErr {
    NoPool,
    AmountZero,
    WrongLimit,
    PriceLimit,
    TickLimit,
    NoGain,
    Other,
}

pub struct Step {
    pub next: W,
    pub a_in: W,
    pub a_out: W,
    pub fee: W,
}
/// One step of a swap inside a range of constant liquidity.
pub fn swap_step(cur: u128, target: u128, l: u128, amount: u128, by_in: bool, fee: u64, wd: &mut Wide) -> Option<Step> {
    if l == 0 {
        return Some(Step { next: w(target), a_in: w(0), a_out: w(0), fee: w(0) });
    }
    let down = cur >= target;
    let full_in = |wd: &mut Wide| if down { delta_x(target, cur, l, true, wd) } else { delta_y(cur, target, l, true, wd) };
    let full_out = |wd: &mut Wide| if down { delta_y(target, cur, l, false, wd) } else { delta_x(cur, target, l, false, wd) };
    let next: W;
    let mut capped = None;
    if by_in {
        let net = w(amount) * w((ONE - fee) as u128) / w(ONE as u128);
        if net >= full_in(wd) {
            next = w(target);
        } else {
            let net = net.low_u128();
            let n = if down { next_price_x(cur, l, net, true, wd)? } else { next_price_y(cur, l, net, true, wd)? };
            // the amount needed is rounded up: a little less can already be enough
            if down && n <= w(target) {
                capped = Some(w(net));
            }
            next = if down { n.max(w(target)) } else { n };
        }
    } else if w(amount) >= full_out(wd) {
        next = w(target);
    } else {
        next = if down { next_price_y(cur, l, amount, false, wd)? } else { next_price_x(cur, l, amount, false, wd)? };
    }
    let np = fit(next)?;
    let (mut a_in, mut a_out) = if down {
        (delta_x(np, cur, l, true, wd), delta_y(np, cur, l, false, wd))
    } else {
        (delta_y(cur, np, l, true, wd), delta_x(cur, np, l, false, wd))
    };
    if let Some(c) = capped {
        a_in = c;
    }
    if !by_in && a_out > w(amount) {
        a_out = w(amount);
    }
    let f = if by_in && np != target {
        if a_in > w(amount) {
            return None;
        }
        w(amount) - a_in
    } else {
        wd.lim(div_up(a_in * w(fee as u128), w(ONE as u128)), 128)
    };
    Some(Step { next, a_in, a_out, fee: f })
}

// ---- state ------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Key {
    pub x: String,
    pub y: String,
    pub fee: u64,
    pub s: u16,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Exp {
    Never,
    Height(u64),
    Time(u64),
}
impl Exp {
    pub fn expired(&self, height: u64, nanos: u64) -> bool {
        match self {
            Exp::Never => false,
            Exp::Height(h) => height >= *h,
            Exp::Time(t) => nanos >= *t,
        }
    }
}

#[derive(Clone, Debug)]
pub struct MPos {
    pub uid: u64,
    pub key: Key,
    pub lo: i32,
    pub hi: i32,
    pub liq: u128,
    /// fee growth earned since the last settlement, modulo 2^128 (28+6 decimals per liquidity)
    pub acc: [u128; 2],
    /// true when the un-modded growth exceeded 2^128
    pub wrapped: [bool; 2],
    pub block: u64,
    pub approvals: Vec<(String, Exp)>,
    /// milliseconds spent with the pool inside the range since creation
    pub inside: u64,
    /// amounts paid when the position was opened
    pub paid: [u128; 2],
}

#[derive(Clone, Debug)]
pub struct MPool {
    pub price: u128,
    pub tick: i32,
    pub growth: [u128; 2],
    pub proto: [u128; 2],
    pub receiver: String,
    pub start: u64,
}

#[derive(Clone, Default)]
pub struct Model {
    pub admin: String,
    pub pfee: u64,
    pub tiers: Vec<(u64, u16)>,
    pub pools: BTreeMap<Key, MPool>,
    pub pos: BTreeMap<String, Vec<MPos>>,
    pub ops: BTreeMap<(String, String), Exp>,
    pub next_uid: u64,
}

#[derive(Clone, Debug)]
pub struct SwapOut {
    pub a_in: u128,
    pub a_out: u128,
    pub fee: u128,
    pub price: u128,
    pub tick: i32,
    pub proto: u128,
    pub growth: u128,
    pub crossed: Vec<i32>,
    pub steps: u32,
    pub wide: bool,
    /// (uid, growth earned mod 2^128, overflowed)
    pub credit: BTreeMap<u64, (u128, bool)>,
    /// the last input was too small to move the price and was taken as a fee
    pub dust: bool,
    pub moved: bool,
}

impl Model {
    pub fn positions_in<'a>(&'a self, k: &'a Key) -> impl Iterator<Item = &'a MPos> + 'a {
        self.pos.values().flatten().filter(move |p| p.key == *k)
    }
    pub fn liquidity(&self, k: &Key, tick: i32) -> u128 {
        self.positions_in(k).filter(|p| p.lo <= tick && tick < p.hi).map(|p| p.liq).sum()
    }
    pub fn ticks(&self, k: &Key) -> BTreeSet<i32> {
        self.positions_in(k).flat_map(|p| [p.lo, p.hi]).collect()
    }
    /// (gross, net) liquidity referenced at a tick
    pub fn tick_info(&self, k: &Key, t: i32) -> (u128, i128) {
        let (mut g, mut n) = (0u128, 0i128);
        for p in self.positions_in(k) {
            if p.lo == t {
                g += p.liq;
                n += p.liq as i128;
            }
            if p.hi == t {
                g += p.liq;
                n -= p.liq as i128;
            }
        }
        (g, n)
    }
    pub fn next_init(ticks: &BTreeSet<i32>, cur: i32, s: i32, down: bool) -> (i32, bool) {
        let lim = if down { ((cur / s - SEARCH).max(-(MAX_TICK / s))) * s } else { ((cur / s + SEARCH).min(MAX_TICK / s)) * s };
        if down {
            match ticks.range(..=cur).next_back() {
                Some(t) if *t >= lim => (*t, true),
                _ => (lim, false),
            }
        } else {
            match ticks.range(cur + 1..).next() {
                Some(t) if *t <= lim => (*t, true),
                _ => (lim, false),
            }
        }
    }

    /// What a swap must do. Err(.., wide) when it must fail; `wide` says that integer-width
    /// limits were touched on the way, in which case failing is always acceptable.
    pub fn swap(&self, k: &Key, down: bool, amount: u128, by_in: bool, limit: u128) -> Result<SwapOut, (SErr, bool)> {
        if amount == 0 {
            return Err((SErr::AmountZero, false));
        }
        let pool = self.pools.get(k).ok_or((SErr::NoPool, false))?;
        if down {
            if pool.price <= limit || limit > MAX_PRICE {
                return Err((SErr::WrongLimit, false));
            }
        } else if pool.price >= limit || limit < MIN_PRICE {
            return Err((SErr::WrongLimit, false));
        }
        let s = k.s as i32;
        let ticks = self.ticks(k);
        let mut wd = Wide::default();
        let mut price = pool.price;
        let mut tick = pool.tick;
        let mut rem = amount;
        let mut o = SwapOut {
            a_in: 0, a_out: 0, fee: 0, price, tick, proto: 0, growth: 0, crossed: vec![], steps: 0, wide: false,
            credit: BTreeMap::new(), dust: false, moved: false,
        };
        let (mut tin, mut tout, mut tfee) = (w(0), w(0), w(0));
        let mut proto = w(0);
        macro_rules! bail {
            ($e:expr) => {
                return Err(($e, wd.0))
            };
        }
        // credits a fee to the liquidity active at `tick`
        let add_fee = |tick: i32, fee: W, o: &mut SwapOut, proto: &mut W, wd: &mut Wide| {
            let l = self.liquidity(k, tick);
            let pf = div_up(fee * w(self.pfee as u128), w(ONE as u128));
            if l == 0 || fee.is_zero() {
                return;
            }
            if pf > fee {
                wd.0 = true;
                return;
            }
            let g = wd.lim((fee - pf) * p10(34) / w(l), 128).low_u128();
            *proto = *proto + pf;
            o.growth = o.growth.wrapping_add(g);
            for p in self.positions_in(k).filter(|p| p.lo <= tick && tick < p.hi) {
                let e = o.credit.entry(p.uid).or_insert((0, false));
                let (v, of) = e.0.overflowing_add(g);
                *e = (v, e.1 | of);
            }
        };
        while rem > 0 {
            o.steps += 1;
            let (idx, init) = Self::next_init(&ticks, tick, s, down);
            if !init && idx == tick {
                bail!(SErr::TickLimit);
            }
            let tp = price_of(idx);
            let (target, at) = if (down && tp > limit) || (!down && tp <= limit) { (tp, Some((idx, init))) } else { (limit, None) };
            let l = self.liquidity(k, tick);
            let st = match swap_step(price, target, l, rem, by_in, k.fee, &mut wd) {
                Some(x) => x,
                None => bail!(SErr::Other),
            };
            let used = if by_in { st.a_in + st.fee } else { st.a_out };
            if used > w(rem) {
                // cannot happen for exact arithmetic; treat as refusal
                bail!(SErr::Other);
            }
            rem -= used.low_u128();
            add_fee(tick, st.fee, &mut o, &mut proto, &mut wd);
            tin = tin + st.a_in + st.fee;
            tout = tout + st.a_out;
            tfee = tfee + st.fee;
            let np = match fit(st.next) {
                Some(x) => x,
                None => bail!(SErr::Other),
            };
            if np != price {
                o.moved = true;
            }
            price = np;
            if price == limit && rem > 0 {
                bail!(SErr::PriceLimit);
            }
            if at.is_none() || price != target {
                let t = tick_of(price.clamp(MIN_PRICE, MAX_PRICE), s);
                tick = if down { t.min(tick) } else { t };
            } else {
                // the step ended exactly on the tick
                let enough = if l == 0 {
                    true
                } else if by_in {
                    let net = (w(rem) * w((ONE - k.fee) as u128) / w(ONE as u128)).low_u128();
                    let n = if down { next_price_x(price, l, net, true, &mut wd) } else { next_price_y(price, l, net, true, &mut wd) };
                    n.map_or(true, |n| n != w(price))
                } else {
                    rem > 0
                };
                if init {
                    if !down || enough {
                        o.crossed.push(idx);
                    } else if rem > 0 {
                        if by_in {
                            o.dust = true;
                            add_fee(tick, w(rem), &mut o, &mut proto, &mut wd);
                            tin = tin + w(rem);
                        }
                        rem = 0;
                    }
                }
                tick = if down && enough { idx - s } else { idx };
            }
            if (down && tick <= -max_tick(s)) || (!down && tick >= max_tick(s)) {
                bail!(SErr::TickLimit);
            }
        }
        wd.lim(tin, 128);
        wd.lim(tout, 128);
        if tout.is_zero() {
            bail!(SErr::NoGain);
        }
        if wd.0 && (tin.bits() > 128 || tout.bits() > 128) {
            bail!(SErr::Other);
        }
        o.a_in = tin.low_u128();
        o.a_out = tout.low_u128();
        o.fee = tfee.low_u128();
        let pr = w(pool.proto[if down { 0 } else { 1 }]) + proto;
        wd.lim(pr, 128);
        o.proto = proto.low_u128();
        o.price = price;
        o.tick = tick;
        o.wide = wd.0;
        Ok(o)
    }

    pub fn apply_swap(&mut self, k: &Key, down: bool, o: &SwapOut) {
        let t = if down { 0 } else { 1 };
        let p = self.pools.get_mut(k).unwrap();
        p.price = o.price;
        p.tick = o.tick;
        p.growth[t] = p.growth[t].wrapping_add(o.growth);
        p.proto[t] = p.proto[t].wrapping_add(o.proto); // beyond 128 bits o.wide is set and the call cannot be funded
        for q in self.pos.values_mut().flatten() {
            if let Some((g, of)) = o.credit.get(&q.uid) {
                let (v, of2) = q.acc[t].overflowing_add(*g);
                q.acc[t] = v;
                q.wrapped[t] |= of | of2;
            }
        }
    }

    /// tokens needed to add (up) or returned for removing (down) liquidity
    pub fn amounts(&self, k: &Key, lo: i32, hi: i32, l: u128, up: bool, wd: &mut Wide) -> (W, W) {
        let p = &self.pools[k];
        let (pl, ph) = (price_of(lo), price_of(hi));
        if p.tick < lo {
            (delta_x(pl, ph, l, up, wd), w(0))
        } else if p.tick < hi {
            (delta_x(p.price, ph, l, up, wd), delta_y(pl, p.price, l, up, wd))
        } else {
            (w(0), delta_y(pl, ph, l, up, wd))
        }
    }
    pub fn fee_owed(acc: u128, l: u128) -> W {
        w(acc) * w(l) / p10(34)
    }
    pub fn max_gross(s: u16) -> u128 {
        u128::MAX / ((2 * MAX_TICK as u128 + 1) / s as u128)
    }
    pub fn find(&self, uid: u64) -> Option<(&String, usize, &MPos)> {
        for (o, v) in &self.pos {
            for (i, p) in v.iter().enumerate() {
                if p.uid == uid {
                    return Some((o, i, p));
                }
            }
        }
        None
    }
    pub fn tick_time(&mut self, ms: u64) {
        let t: BTreeMap<Key, i32> = self.pools.iter().map(|(k, p)| (k.clone(), p.tick)).collect();
        for q in self.pos.values_mut().flatten() {
            let c = t[&q.key];
            if q.lo <= c && c < q.hi {
                q.inside += ms;
            }
        }
    }
}
