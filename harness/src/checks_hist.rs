//! Checks over histories of the contract (C01 - C12, C21 - C23).
use crate::big::*;
use crate::chain::*;
use crate::check;
use crate::drive::*;
use crate::hist::*;
use crate::model::*;
use crate::report::{fail, Ctx, Res, Violation};
use crate::tape::Tape;
use cosmwasm_std::{Addr, Binary};
use decimal::Decimal;
use oraiswap_v3::interface::*;
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::{Pool, PoolKey, Position, Tick};
use std::collections::{BTreeMap, BTreeSet};

pub fn accounts() -> Vec<String> {
    USERS.iter().map(|s| s.to_string()).chain([ADMIN.to_string(), NFTPOOL.to_string()]).collect()
}

// ---- C01 ---------------------------------------------------------------------------------------

/// Everybody leaves, in a generated order; every exit must be paid in full.
fn exit_all(w: &World, t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut ch = w.chain.clone();
    let mut todo: Vec<(String, Option<Key>)> = vec![];
    let cnt = |ch: &Chain, o: &str| -> u32 { ch.query(&QueryMsg::UserPositionAmount { owner: Addr::unchecked(o) }).unwrap_or(0) };
    for o in accounts() {
        for _ in 0..cnt(&ch, &o) {
            todo.push((o.clone(), None));
        }
    }
    let npos = todo.len();
    for k in w.pools() {
        todo.push((String::new(), Some(k)));
    }
    while !todo.is_empty() {
        let i = t.below(todo.len() as u64) as usize;
        let (o, k) = todo.remove(i);
        ctx.evals += 1;
        match k {
            Some(k) => {
                let p: Pool = match ch.query(&QueryMsg::Pool { token_0: k.x.clone(), token_1: k.y.clone(), fee_tier: ft(k.fee, k.s) }) {
                    Ok(p) => p,
                    Err(e) => return fail("pool-query", format!("pool {k:?} cannot be read: {}", e.text())),
                };
                let r = ch.exec(&p.fee_receiver, &[], &to_msg(&Op::Withdraw { key: k.clone() }));
                if let Err(e) = r {
                    return fail("protocol-fee-exit", format!("exit: fee receiver {} cannot withdraw protocol fees ({}, {}) of {k:?}: {}", p.fee_receiver, p.fee_protocol_token_x.get(), p.fee_protocol_token_y.get(), e.text()));
                }
            }
            None => {
                let n = cnt(&ch, &o);
                let idx = t.below(n as u64) as u32;
                // fees first, sometimes
                if t.chance(1, 4) {
                    if let Err(e) = ch.exec(&o, &[], &to_msg(&Op::Claim { index: idx })) {
                        return fail("claim-exit", format!("exit: {o} cannot claim fees of position {idx}: {}", e.text()));
                    }
                }
                let pos: Position = ch.query(&QueryMsg::Position { owner_id: Addr::unchecked(&o), index: idx }).map_err(|e| Violation { sig: "pos-query".into(), msg: e.text() })?;
                if let Err(e) = ch.exec(&o, &[], &to_msg(&Op::Remove { index: idx })) {
                    return fail("remove-exit", format!("exit: {o} cannot remove position {idx} (ticks {}..{}, liquidity {}): {}", pos.lower_tick_index, pos.upper_tick_index, pos.liquidity.get(), e.text()));
                }
            }
        }
    }
    for k in w.pools() {
        let p: Pool = ch.query(&QueryMsg::Pool { token_0: k.x.clone(), token_1: k.y.clone(), fee_tier: ft(k.fee, k.s) }).map_err(|e| Violation { sig: "pool-query".into(), msg: e.text() })?;
        check!(p.liquidity.get() == 0, "liquidity-left", "all positions of {k:?} are closed but liquidity {} is left", p.liquidity.get());
    }
    if npos > 1 {
        ctx.label("exit with several positions");
    }
    Ok(())
}

pub fn c01(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.pools = 3;
    cfg.w[K_ROUTE] = 4;
    cfg.w[K_BURN] = 1;
    cfg.w[K_TPOS] = 1;
    cfg.w[K_APPALL] = 1;
    cfg.native_variants = t.bool();
    cfg.pfee_max = true;
    let mut w = World::new(t, ctx, cfg);
    let mut crossed = 0;
    history(&mut w, t, ctx, &mut |_w, ctx, s| {
        if s.both_ok() {
            for (_, _, o) in &s.pred.ok.as_ref().unwrap().2.swaps {
                crossed += o.crossed.len();
                ctx.label("swap executed");
            }
        }
        Ok(Flow::Go)
    })?;
    if crossed > 0 {
        ctx.nontrivial = true;
        ctx.label("history crossing initialised ticks");
    }
    exit_all(&w, t, ctx)
}

// ---- C02 ---------------------------------------------------------------------------------------

pub fn c02(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.native_variants = true;
    cfg.stray_coins = true;
    cfg.w[K_TPOS] = 2;
    cfg.w[K_SNFT] = 2;
    cfg.w[K_APPALL] = 1;
    cfg.w[K_REVOKE] = 1;
    cfg.w[K_ADMIN] = 2;
    cfg.w[K_POOL] = 1;
    cfg.pools = 3;
    cfg.w[K_ROUTE] = 8;
    cfg.w[K_WITHDRAW] = 3;
    cfg.w[K_BURN] = 3;
    cfg.w[K_APPROVE] = 3;
    cfg.w[K_TNFT] = 2;
    cfg.max_ops = 20;
    let mut w = World::new(t, ctx, cfg);
    history(&mut w, t, ctx, &mut |w, ctx, s| {
        let is_payment = matches!(s.c.op, Op::Create { .. } | Op::Swap { .. } | Op::Route { .. } | Op::Remove { .. } | Op::Claim { .. } | Op::Burn { .. } | Op::Withdraw { .. });
        match s.res {
            Err(_) => {
                check!(w.chain.bal == s.before.bal, "moved-on-failure", "failed call moved tokens: {}", s.show());
                if s.pred.why == "attached funds insufficient" {
                    ctx.label("short native funds refused");
                }
                if s.refused() && (is_payment || !s.c.funds.is_empty()) {
                    // pricing is C03's business; here only payments that the caller fully covered
                    return fail("refused-payment", format!("fully funded call was refused: {}", s.show()));
                }
            }
            Ok(ok) => {
                if s.pred.ok.is_none() && (s.pred.why == "attached funds insufficient" || s.pred.why == "balance insufficient") {
                    return fail("underfunded-accepted", format!("underfunded call accepted: {} {}", s.show(), show_transfers(&ok.transfers)));
                }
                if let Some((_, b, note)) = &s.pred.ok {
                    let keys: BTreeSet<_> = b.keys().chain(w.chain.bal.keys()).cloned().collect();
                    for k in keys {
                        let want = b.get(&k).copied().unwrap_or(0);
                        let got = w.chain.balance(&k.0, &k.1);
                        let start = s.before.balance(&k.0, &k.1);
                        check!(want == got, "wrong-movement", "{}: balance of {} in {} went {start} -> {got}, must be {want}; transfers {}", s.show(), k.0, k.1, show_transfers(&ok.transfers));
                    }
                    let mut native = false;
                    for (d, a) in &s.c.funds {
                        native = true;
                        if s.before.balance(&s.c.sender, d) - a != w.chain.balance(&s.c.sender, d) {
                            ctx.label("refund or native payout");
                        }
                    }
                    if native {
                        ctx.nontrivial = true;
                        ctx.label("native funds attached");
                        if s.c.funds.iter().any(|(d, _)| !w.needs(s.c).iter().any(|n| n.0 == *d)) {
                            ctx.label("coins attached that the call does not take");
                        }
                    }
                    if !note.swaps.is_empty() || note.paid.is_some() {
                        ctx.label("paying operation");
                    }
                    if note.swaps.len() > 1 {
                        ctx.label("multi-hop route");
                    }
                }
            }
        }
        Ok(Flow::Go)
    })?;
    Ok(())
}

// ---- C03 ---------------------------------------------------------------------------------------

fn cmp_pool_price(w: &World, s: &Seen, k: &Key) -> Res {
    let m = &w.model.pools[k];
    let p = match w.q_pool(k) {
        Ok(p) => p,
        Err(e) => return fail("pool-query", format!("{}: pool unreadable {}", s.show(), e.text())),
    };
    check!(p.sqrt_price.get() == m.price, "price", "{}: sqrt price is {}, exact result {}", s.show(), p.sqrt_price.get(), m.price);
    check!(p.current_tick_index == m.tick, "tick", "{}: tick is {}, must be {} (price {})", s.show(), p.current_tick_index, m.tick, m.price);
    let l = w.model.liquidity(k, m.tick);
    check!(p.liquidity.get() == l, "liquidity", "{}: active liquidity is {}, open positions give {}", s.show(), p.liquidity.get(), l);
    Ok(())
}

pub fn c03(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.pools = 1;
    cfg.w[K_SWAP] = 30;
    cfg.bad_inputs = true;
    if t.chance(1, 5) {
        cfg.pools = 3;
        cfg.w[K_ROUTE] = 16;
    }
    let mut w = World::new(t, ctx, cfg);
    history(&mut w, t, ctx, &mut |w, ctx, s| {
        if let (Op::Route { hops, .. }, true) = (&s.c.op, s.both_ok()) {
            // each hop trades what the one before it gave, at the exact result of its pool
            let sw = &s.pred.ok.as_ref().unwrap().2.swaps;
            let mut net: std::collections::BTreeMap<&str, i128> = Default::default();
            for ((k, d), (_, _, o)) in hops.iter().zip(sw) {
                let (ti, to) = if *d { (&k.x, &k.y) } else { (&k.y, &k.x) };
                *net.entry(ti).or_default() -= o.a_in as i128;
                *net.entry(to).or_default() += o.a_out as i128;
            }
            for (tok, want) in net {
                let got = s.moved(w, &s.c.sender, tok);
                check!(got == want, "route-amounts", "{}: the sender's {tok} changed by {got}, the exact results of the hops give {want}", s.show());
            }
            for (k, _) in hops {
                cmp_pool_price(w, s, k)?;
            }
            ctx.label("route executed");
            return Ok(Flow::Go);
        }
        let Op::Swap { key, down, .. } = &s.c.op else { return Ok(Flow::Go) };
        if s.refused() {
            return fail("swap-refused", s.show());
        }
        if s.overaccepted() {
            return fail("swap-accepted", s.show());
        }
        if s.both_ok() {
            let o = &s.pred.ok.as_ref().unwrap().2.swaps[0].2;
            let (ti, to) = if *down { (&key.x, &key.y) } else { (&key.y, &key.x) };
            let paid = -s.moved(w, &s.c.sender, ti);
            let got = s.moved(w, &s.c.sender, to);
            check!(paid == o.a_in as i128, "amount-in", "{}: paid {paid}, exact result {}", s.show(), o.a_in);
            check!(got == o.a_out as i128, "amount-out", "{}: received {got}, exact result {}", s.show(), o.a_out);
            cmp_pool_price(w, s, key)?;
            ctx.label("swap executed");
            if o.moved && o.steps > 1 {
                ctx.nontrivial = true;
            }
            if !o.crossed.is_empty() {
                ctx.label("crossed initialised tick");
            }
            if o.crossed.len() > 1 {
                ctx.label("crossed several ticks");
            }
            if o.dust {
                ctx.label("dust input taken as fee");
            }
            if o.wide {
                ctx.label("wide arithmetic");
            }
        } else if s.res.is_err() {
            ctx.label(match s.pred.why {
                "price limit reached" => "refused: price limit",
                "end of the price range" => "refused: end of range",
                "nothing to receive" => "refused: no gain",
                "limit on the wrong side" => "refused: wrong limit",
                _ => "refused: other",
            });
        }
        Ok(Flow::Go)
    })?;
    Ok(())
}

// ---- C04 ---------------------------------------------------------------------------------------

pub fn c04(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.pools = 1;
    cfg.w[K_TIME] = 0;
    cfg.w[K_ADMIN] = 0;
    cfg.native_variants = t.chance(1, 4);
    cfg.max_ops = 12;
    let mut w = World::new(t, ctx, cfg);
    // further pools, keeping the token graph free of cycles (a cycle would allow honest arbitrage)
    let extra = t.below(3);
    for _ in 0..extra {
        t.begin();
        let n = w.model.pools.len();
        let save = (w.chain.clone(), w.model.clone());
        w.setup_pool(t, ctx);
        if w.model.pools.len() > n && !acyclic(&w.pools()) {
            w.chain = save.0;
            w.model = save.1;
            ctx.log(|| "(that pool would close a cycle: dropped)".into());
        }
        t.end();
    }
    let fl = history(&mut w, t, ctx, &mut |_, _, _| Ok(Flow::Go))?;
    if fl == Flow::Stop {
        return Ok(());
    }
    // a fresh account arrives
    let me = "orai1mallory";
    for tk in TOKENS {
        w.chain.mint(me, tk, START_BAL / 2);
    }
    let start: Vec<u128> = TOKENS.iter().map(|k| w.chain.balance(me, k)).collect();
    let n = 1 + t.below(10);
    let mut did = 0;
    w.cfg.w = [0; NK];
    w.cfg.w[K_SWAP] = 10;
    w.cfg.w[K_ROUND] = 8;
    w.cfg.w[K_CREATE] = 6;
    w.cfg.w[K_REMOVE] = 4;
    w.cfg.w[K_CLAIM] = 4;
    w.cfg.w[K_ROUTE] = 5;
    ctx.log(|| "-- mallory arrives --".into());
    let mut last: Option<Call> = None;
    for _ in 0..n {
        t.begin();
        // her own positions only
        let stash: BTreeMap<_, _> = w.model.pos.clone();
        let c = w.gen(t, last.as_ref()).and_then(|mut c| {
            let mine = stash.get(me).map_or(0, |v| v.len());
            c.sender = me.into();
            match &mut c.op {
                Op::Remove { index } | Op::Claim { index } => {
                    if mine == 0 {
                        return None;
                    }
                    *index %= mine as u32;
                }
                Op::Route { expected, .. } => *expected = 0,
                _ => {}
            }
            Some(c)
        });
        let mut fl = Flow::Go;
        if let Some(c) = c {
            fl = step(&mut w, ctx, &c, &mut |_, _, s| {
                if s.res.is_ok() {
                    did += 1;
                }
                Ok(Flow::Go)
            })?;
            last = Some(c);
        }
        t.end();
        if fl == Flow::Stop {
            break;
        }
    }
    // she closes everything
    let mut left = w.q_count(me);
    while left > 0 {
        let i = t.below(left as u64) as u32;
        let r = w.chain.exec(me, &[], &to_msg(&Op::Remove { index: i }));
        ctx.log(|| format!("{me} closes position {i}: {}", if r.is_ok() { "ok".into() } else { r.as_ref().err().unwrap().text() }));
        if r.is_err() {
            return Ok(()); // stuck funds: C01's business
        }
        left -= 1;
    }
    let end: Vec<u128> = TOKENS.iter().map(|k| w.chain.balance(me, k)).collect();
    if did >= 2 {
        ctx.nontrivial = true;
    }
    let no_loss = (0..TOKENS.len()).all(|i| end[i] >= start[i]);
    let gain = (0..TOKENS.len()).any(|i| end[i] > start[i]);
    if no_loss && gain {
        let d: Vec<String> = (0..TOKENS.len()).filter(|i| end[*i] != start[*i]).map(|i| format!("+{} {}", end[i] - start[i], TOKENS[i])).collect();
        return fail("free-gain", format!("mallory's own operations left her with {} and nothing less of any token", d.join(", ")));
    }
    if end.iter().zip(&start).any(|(a, b)| a < b) {
        ctx.label("sequence with a net cost");
    }
    Ok(())
}
fn acyclic(ks: &[Key]) -> bool {
    let mut comp: BTreeMap<String, usize> = TOKENS.iter().enumerate().map(|(i, t)| (t.to_string(), i)).collect();
    for k in ks {
        let (a, b) = (comp[&k.x], comp[&k.y]);
        if a == b {
            return false;
        }
        for v in comp.values_mut() {
            if *v == b {
                *v = a;
            }
        }
    }
    true
}

// ---- C05 ---------------------------------------------------------------------------------------

/// every open position as the contract reports it
pub fn observed_positions(w: &World) -> Result<Vec<(String, u32, Position)>, Violation> {
    let mut out = vec![];
    for o in accounts() {
        for i in 0..w.q_count(&o) {
            match w.q_pos(&o, i) {
                Ok(p) => out.push((o.clone(), i, p)),
                Err(e) => return fail("position-unreadable", format!("position {i} of {o}: {}", e.text())),
            }
        }
    }
    Ok(out)
}

fn accounting(w: &World, ctx: &mut Ctx, deep: bool, what: &str) -> Res {
    let ps = observed_positions(w)?;
    for k in w.pools() {
        ctx.evals += 1;
        let s = k.s as i32;
        let pool = match w.q_pool(&k) {
            Ok(p) => p,
            Err(e) => return fail("pool-query", format!("{what}: {}", e.text())),
        };
        let cur = pool.current_tick_index;
        let price = pool.sqrt_price.get();
        check!(cur % s == 0 && cur.abs() <= max_tick(s), "tick-grid", "{what}: current tick {cur} is not on the grid");
        let hi_ok = cur + s > MAX_TICK || price <= price_of(cur + s);
        check!(price_of(cur) <= price && hi_ok, "tick-price", "{what}: current tick {cur} does not match sqrt price {price} (tick range {}..{})", price_of(cur), if cur + s > MAX_TICK { 0 } else { price_of(cur + s) });
        let mine: Vec<&Position> = ps.iter().map(|x| &x.2).filter(|p| key_of(&p.pool_key) == k).collect();
        let act: u128 = mine.iter().filter(|p| p.lower_tick_index <= cur && cur < p.upper_tick_index).map(|p| p.liquidity.get()).sum();
        check!(pool.liquidity.get() == act, "active-liquidity", "{what}: pool liquidity {} but the open positions containing tick {cur} sum to {act}", pool.liquidity.get());
        let mut info: BTreeMap<i32, (u128, i128)> = BTreeMap::new();
        for p in &mine {
            check!(p.lower_tick_index < p.upper_tick_index && p.liquidity.get() > 0, "bad-position", "{what}: degenerate position {}..{} liquidity {}", p.lower_tick_index, p.upper_tick_index, p.liquidity.get());
            let e = info.entry(p.lower_tick_index).or_default();
            e.0 += p.liquidity.get();
            e.1 += p.liquidity.get() as i128;
            let e = info.entry(p.upper_tick_index).or_default();
            e.0 += p.liquidity.get();
            e.1 -= p.liquidity.get() as i128;
        }
        for (i, (g, n)) in &info {
            let tk: Tick = match w.q_tick(&k, *i) {
                Ok(t) => t,
                Err(e) => return fail("tick-missing", format!("{what}: tick {i} carries liquidity {g} but is not stored: {}", e.text())),
            };
            let net = if tk.sign { tk.liquidity_change.get() as i128 } else { -(tk.liquidity_change.get() as i128) };
            check!(tk.index == *i && tk.liquidity_gross.get() == *g && net == *n, "tick-liquidity", "{what}: tick {i} stores gross {} net {net}, positions give gross {g} net {n}", tk.liquidity_gross.get());
            check!(tk.sqrt_price.get() == price_of(*i), "tick-sqrt-price", "{what}: tick {i} stores sqrt price {}", tk.sqrt_price.get());
            let on: bool = w.chain.query(&QueryMsg::IsTickInitialized { key: pk(&k), index: *i }).unwrap_or(false);
            check!(on, "bitmap-missing", "{what}: tick {i} carries liquidity but is not marked initialised");
        }
        // nothing else may be initialised
        let near: Vec<i32> = if deep { vec![] } else { vec![cur, cur + s, cur - s] };
        for i in near {
            if i.abs() <= max_tick(s) && !info.contains_key(&i) {
                check!(w.q_tick(&k, i).is_err(), "tick-stale", "{what}: tick {i} is stored but no open position uses it");
            }
        }
        if deep {
            let map: Vec<(u16, u64)> = match w.chain.query(&QueryMsg::TickMap { pool_key: pk(&k), lower_tick_index: -max_tick(s), upper_tick_index: max_tick(s), x_to_y: false }) {
                Ok(m) => m,
                Err(e) => return fail("tickmap-query", format!("{what}: {}", e.text())),
            };
            let mut set = BTreeSet::new();
            for (c, v) in map {
                for b in 0..64 {
                    if v >> b & 1 == 1 {
                        set.insert((c as i32 * 64 + b - MAX_TICK / s) * s);
                    }
                }
            }
            let want: BTreeSet<i32> = info.keys().cloned().collect();
            check!(set == want, "bitmap-set", "{what}: initialised ticks {set:?}, open positions use {want:?}");
        }
    }
    Ok(())
}

pub fn c05(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.pools = 2;
    cfg.w[K_TPOS] = 1;
    cfg.w[K_BURN] = 1;
    cfg.w[K_TNFT] = 1;
    cfg.w[K_SNFT] = 1;
    cfg.w[K_ROUTE] = 2;
    let mut w = World::new(t, ctx, cfg);
    let mut crossed = 0;
    let fl = history(&mut w, t, ctx, &mut |w, ctx, s| {
        if s.res.is_ok() {
            if let Some((_, _, n)) = &s.pred.ok {
                for (_, _, o) in &n.swaps {
                    if !o.crossed.is_empty() {
                        crossed += 1;
                        ctx.label("swap crossing initialised ticks");
                    }
                }
            }
            accounting(w, ctx, false, &format!("after {} {:?}", s.c.sender, s.c.op))?;
        }
        Ok(Flow::Go)
    })?;
    if crossed > 0 {
        ctx.nontrivial = true;
    }
    let _ = fl;
    accounting(&w, ctx, true, "at the end")
}
