//! C25 (events tell the truth), C26 (pools of arbitrary tokens), C27 (deployment and migration).
use crate::big::*;
use crate::chain::*;
use crate::check;
use crate::checks_hist::accounts;
use crate::drive::*;
use crate::hist::*;
use crate::model::*;
use crate::report::{fail, Ctx, Res, Violation};
use crate::tape::Tape;
use cosmwasm_std::Addr;
use decimal::Decimal;
use oraiswap_v3::interface::*;
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::{FeeTier, Pool, PoolKey, Position};
use std::collections::{BTreeMap, BTreeSet};

fn viol<T>(r: Result<T, ExecErr>, what: &str) -> Result<T, Violation> {
    r.map_err(|e| Violation { sig: "query".into(), msg: format!("{what}: {}", e.text()) })
}

// ---- C25 ---------------------------------------------------------------------------------------

/// the number a decimal string denotes, in units of 10^-scale (None: not a number, or finer than that)
fn parse_dec(s: &str, scale: u32) -> Option<W> {
    let (a, b) = match s.split_once('.') {
        Some((a, b)) => (a, b),
        None => (s, ""),
    };
    if a.is_empty() || !a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) || a.len() + b.len() > 90 {
        return None;
    }
    let mut v = W::zero();
    for c in a.bytes() {
        v = v * w(10) + w((c - b'0') as u128);
    }
    let mut n = 0;
    for c in b.bytes() {
        if n == scale {
            if c != b'0' {
                return None;
            }
            continue;
        }
        v = v * w(10) + w((c - b'0') as u128);
        n += 1;
    }
    Some(v * p10(scale - n))
}

struct Ev<'a> {
    a: &'a [(String, String)],
    what: String,
}
impl<'a> Ev<'a> {
    fn one(&self, k: &str) -> Result<&'a str, Violation> {
        let v: Vec<&str> = self.a.iter().filter(|x| x.0 == k).map(|x| x.1.as_str()).collect();
        if v.len() != 1 {
            return fail("attribute-missing", format!("{}: {} values of attribute {k} in {:?}", self.what, v.len(), self.a));
        }
        Ok(v[0])
    }
    fn text(&self, k: &str, want: &str) -> Res {
        let g = self.one(k)?;
        check!(g == want, format!("attribute-{k}"), "{}: event says {k} = {g}, it is {want}", self.what);
        Ok(())
    }
    fn num(&self, k: &str, want: u128, scale: u32) -> Res {
        let g = self.one(k)?;
        check!(parse_dec(g, scale) == Some(w(want)), format!("attribute-{k}"), "{}: event says {k} = {g}, it is {want} (10^-{scale})", self.what);
        Ok(())
    }
}

pub fn c25(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.w[K_ROUTE] = 6;
    cfg.w[K_REMOVE] = 6;
    cfg.w[K_CLAIM] = 8;
    cfg.w[K_TPOS] = 2;
    cfg.w[K_TNFT] = 2;
    cfg.w[K_SNFT] = 2;
    cfg.w[K_BURN] = 5;
    cfg.w[K_APPROVE] = 3;
    cfg.w[K_REVOKE] = 1;
    cfg.w[K_APPALL] = 3;
    cfg.w[K_REVALL] = 1;
    cfg.w[K_ADMIN] = 2;
    cfg.w[K_TIER] = 1;
    cfg.w[K_POOL] = 1;
    cfg.native_variants = true;
    cfg.pools = 3;
    let mut w = World::new(t, ctx, cfg);
    history(&mut w, t, ctx, &mut |w, ctx, s| {
        let Ok(ok) = s.res else { return Ok(Flow::Go) };
        let me = &s.c.sender;
        let ev = Ev { a: &ok.attrs, what: s.show() };
        let action = match &s.c.op {
            Op::Advance { .. } => return Ok(Flow::Go),
            Op::AddTier { .. } => "add_fee_tier",
            Op::RemoveTier { .. } => "remove_fee_tier",
            Op::CreatePool { .. } => "create_pool",
            Op::Create { .. } => "create_position",
            Op::Swap { .. } => "swap",
            Op::Route { .. } => "swap_route",
            Op::Remove { .. } | Op::Burn { .. } => "remove_position",
            Op::Claim { .. } => "claim_fee",
            Op::TransferPos { .. } => "transfer_position",
            Op::TransferNft { .. } => "transfer_nft",
            Op::SendNft { .. } => "send_nft",
            Op::Approve { .. } => "approve",
            Op::Revoke { .. } => "revoke",
            Op::ApproveAll { .. } => "approve_all",
            Op::RevokeAll { .. } => "revoke_all",
            Op::Withdraw { .. } => "withdraw_protocol_fee",
            Op::SetProtocolFee { .. } => "change_protocol_fee",
            Op::SetReceiver { .. } => "change_fee_receiver",
            Op::SetAdmin { .. } => "change_admin",
        };
        ev.text("action", action)?;
        let neg = |v: i128| if v > 0 { 0 } else { (-v) as u128 };
        let pos = |v: i128| if v < 0 { 0 } else { v as u128 };
        match &s.c.op {
            Op::Swap { key, down, .. } => {
                let (ti, to) = if *down { (&key.x, &key.y) } else { (&key.y, &key.x) };
                ev.num("amount_in", neg(s.moved(w, me, ti)), 0)?;
                ev.num("amount_out", pos(s.moved(w, me, to)), 0)?;
                ctx.nontrivial = true;
                ctx.label("swap event");
            }
            Op::Route { hops, .. } => {
                let first = &hops[0];
                let last = hops.last().unwrap();
                let ti = if first.1 { &first.0.x } else { &first.0.y };
                let to = if last.1 { &last.0.y } else { &last.0.x };
                if ti != to {
                    ev.num("amount_out", pos(s.moved(w, me, to)), 0)?;
                    ctx.label("route event");
                    ctx.nontrivial = true;
                }
            }
            Op::Create { key, lo, hi, liq, .. } => {
                let p: Pool = viol(w.q_pool(key), "pool")?;
                ev.text("address", me)?;
                ev.num("liquidity", *liq, 6)?;
                ev.text("lower_tick", &lo.to_string())?;
                ev.text("upper_tick", &hi.to_string())?;
                ev.num("current_sqrt_price", p.sqrt_price.get(), 24)?;
                ctx.label("create event");
            }
            Op::Remove { .. } | Op::Burn { .. } => {
                let (owner, i) = match &s.c.op {
                    Op::Remove { index } => (me.clone(), *index),
                    Op::Burn { id } => (String::from_utf8_lossy(&id[..id.len() - 4]).into_owned(), u32::from_be_bytes(id[id.len() - 4..].try_into().unwrap())),
                    _ => unreachable!(),
                };
                let p: Position = viol(s.before.query(&QueryMsg::Position { owner_id: Addr::unchecked(&owner), index: i }), "position")?;
                let pool: Pool = viol(w.q_pool(&key_of(&p.pool_key)), "pool")?;
                ev.text("address", &owner)?;
                ev.num("liquidity", p.liquidity.get(), 6)?;
                ev.text("lower_tick", &p.lower_tick_index.to_string())?;
                ev.text("upper_tick", &p.upper_tick_index.to_string())?;
                ev.num("current_sqrt_price", pool.sqrt_price.get(), 24)?;
                ctx.label(if owner == *me { "remove event" } else { "burn by another account" });
                ctx.nontrivial = true;
            }
            Op::Claim { index } => {
                let p: Position = viol(s.before.query(&QueryMsg::Position { owner_id: Addr::unchecked(me), index: *index }), "position")?;
                ev.num("amount_x", pos(s.moved(w, me, &p.pool_key.token_x)), 0)?;
                ev.num("amount_y", pos(s.moved(w, me, &p.pool_key.token_y)), 0)?;
                ctx.label("claim event");
            }
            Op::SetAdmin { to } => ev.text("new_admin", to)?,
            Op::TransferNft { to, .. } | Op::SendNft { to, .. } => {
                ev.text("sender", me)?;
                ev.text("recipient", to)?;
                ctx.label("nft event");
            }
            Op::Approve { spender, .. } | Op::Revoke { spender, .. } => {
                ev.text("sender", me)?;
                ev.text("spender", spender)?;
            }
            Op::ApproveAll { op, .. } | Op::RevokeAll { op } => {
                ev.text("sender", me)?;
                ev.text("operator", op)?;
            }
            _ => {}
        }
        Ok(Flow::Go)
    })?;
    Ok(())
}

// ---- C26 ---------------------------------------------------------------------------------------

/// token names chosen to collide wherever lengths or order are not kept apart
fn names(t: &mut Tape) -> Vec<String> {
    let alphabet: [&str; 8] = ["a", "b", "A", "0", "/", "\u{1}", "é", "_"];
    let mut v: Vec<String> = vec![];
    let n = 2 + t.below(5);
    while (v.len() as u64) < n {
        t.begin();
        let s = match t.below(6) {
            0 if !v.is_empty() => {
                let base = t.pick(&v).clone();
                format!("{base}{}", t.pick(&alphabet))
            }
            1 if v.len() > 1 => {
                let a = t.pick(&v).clone();
                let b = t.pick(&v).clone();
                format!("{a}{b}")
            }
            2 => format!("orai1{}", ["ca", "cb", "caa", "cab", "c0"][t.below(5) as usize]),
            3 => "a".repeat(1 + *t.pick(&[0usize, 1, 2, 61, 126, 127, 128, 254, 255, 256, 300])),
            4 => format!("ibc/{}", t.below(4)),
            _ => (0..1 + t.below(4)).map(|_| *t.pick(&alphabet)).collect(),
        };
        t.end();
        if !v.contains(&s) {
            v.push(s);
        } else {
            v.push(format!("{s}{}", v.len()));
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn c26(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let toks = names(t);
    if toks.len() < 2 {
        return Ok(());
    }
    let mut ch = Chain::new(0);
    for u in USERS {
        for k in &toks {
            ch.mint(u, k, 1 << 100);
        }
    }
    ctx.log(|| format!("tokens {toks:?}"));
    // tiers that differ in one byte of one field
    let base_fee = fee_choice(t);
    let mut tiers: Vec<(u64, u16)> = vec![];
    let many = t.chance(1, 100);
    for i in 0..if many { 12 + t.below(30) } else { 1 + t.below(3) } {
        let f = match t.below(4) {
            0 if many => base_fee.wrapping_add(i * 256) % ONE,
            0 => base_fee,
            1 => (base_fee ^ (1 << (8 * t.below(5)))).min(ONE - 1),
            2 => (base_fee >> (8 * t.below(3))).min(ONE - 1),
            _ => fee_choice(t),
        };
        let s = spacing_choice(t);
        if !tiers.contains(&(f, s)) {
            if let Err(e) = ch.exec(ADMIN, &[], &to_msg(&Op::AddTier { fee: f, s })) {
                return fail("tier-refused", format!("adding fee tier ({f}, {s}): {}", e.text()));
            }
            tiers.push((f, s));
        }
    }
    let mut pools: BTreeMap<Key, (u128, i32, u64)> = BTreeMap::new();
    let mut ticks: BTreeMap<Key, BTreeSet<i32>> = BTreeMap::new();
    let n = 2 + t.below(14);
    for _ in 0..n {
        t.begin();
        ctx.evals += 1;
        ch.nanos += 1_000_000 * (1 + t.below(1000));
        let i = t.below(toks.len() as u64) as usize;
        let j = t.below(toks.len() as u64) as usize;
        let (f, s) = *t.pick(&tiers);
        let (lo, hi) = if toks[i] < toks[j] { (i, j) } else { (j, i) };
        let k = Key { x: toks[lo].clone(), y: toks[hi].clone(), fee: f, s };
        match t.below(4) {
            0 | 1 => {
                let tick = tick_choice(t, s as i32);
                let price = price_in_tick(t, tick, s as i32);
                let r = ch.exec(USERS[0], &[], &to_msg(&Op::CreatePool { t0: toks[i].clone(), t1: toks[j].clone(), fee: f, s, price, tick }));
                ctx.log(|| format!("create pool {:?} {:?} ({f}, {s}) -> {}", toks[i], toks[j], r.as_ref().map(|_| "ok".to_string()).unwrap_or_else(|e| e.text())));
                let must = i != j && !pools.contains_key(&k);
                check!(r.is_ok() == must, "create-pool", "creating pool {:?}/{:?} ({f}, {s}): accepted {}, existing {:?}", toks[i], toks[j], r.is_ok(), pools.keys().collect::<Vec<_>>());
                if must {
                    pools.insert(k.clone(), (price, tick, ch.nanos / 1_000_000));
                    ticks.insert(k, BTreeSet::new());
                }
            }
            2 if !pools.is_empty() => {
                // leave ticks in one of the pools
                let ks: Vec<Key> = pools.keys().cloned().collect();
                let k = t.pick(&ks).clone();
                let sp = k.s as i32;
                let c = (pools[&k].1 / sp) * sp;
                let (a, b) = ((c - sp * (1 + t.below(70) as i32)).max(-max_tick(sp)), (c + sp * (1 + t.below(70) as i32)).min(max_tick(sp)));
                if a < b {
                    let funds: Vec<(String, u128)> = [&k.x, &k.y].iter().filter(|x| !is_cw20(x)).map(|x| (x.to_string(), 1u128 << 80)).collect();
                    let p = pools[&k].0;
                    let r = ch.exec(USERS[1], &funds, &to_msg(&Op::Create { key: k.clone(), lo: a, hi: b, liq: 1 + t.u128_below(1 << 40), smin: p, smax: p, mint: false }));
                    if r.is_ok() {
                        ticks.get_mut(&k).unwrap().extend([a, b]);
                    }
                    ctx.log(|| format!("position {a}..{b} in {k:?}: {}", r.is_ok()));
                    if let Err(e) = r {
                        if matches!(e, ExecErr::Sub(_)) {
                            return fail("position-refused", format!("{k:?}: {}", e.text()));
                        }
                    }
                }
            }
            _ => {}
        }
        t.end();
    }
    if many {
        // more pools of one pair, and more pools at all, than fit one page
        'fill: for i in 0..toks.len() {
            for j in 0..i {
                for (f, s) in &tiers {
                    let k = Key { x: toks[j].clone(), y: toks[i].clone(), fee: *f, s: *s };
                    if pools.contains_key(&k) {
                        continue;
                    }
                    if pools.len() as u64 > 98 + base_fee % 30 {
                        break 'fill;
                    }
                    if let Err(e) = ch.exec(USERS[0], &[], &to_msg(&Op::CreatePool { t0: toks[i].clone(), t1: toks[j].clone(), fee: *f, s: *s, price: price_of(0), tick: 0 })) {
                        return fail("create-pool", format!("creating {k:?} as pool {}: {}", pools.len(), e.text()));
                    }
                    pools.insert(k.clone(), (price_of(0), 0, ch.nanos / 1_000_000));
                    ticks.insert(k, BTreeSet::new());
                }
            }
        }
        if pools.len() > 100 {
            ctx.label("more than one page of pools");
        }
    }
    // every pool is its own, whichever order the tokens are named in; nothing else exists
    for i in 0..toks.len() {
        for j in 0..toks.len() {
            for (f, s) in &tiers {
                ctx.evals += 1;
                let r: Result<Pool, _> = ch.query(&QueryMsg::Pool { token_0: toks[i].clone(), token_1: toks[j].clone(), fee_tier: ft(*f, *s) });
                let (x, y) = if toks[i] < toks[j] { (i, j) } else { (j, i) };
                let k = Key { x: toks[x].clone(), y: toks[y].clone(), fee: *f, s: *s };
                match (r, pools.get(&k)) {
                    (Ok(p), Some((price, tick, start))) => {
                        check!(p.sqrt_price.get() == *price && p.current_tick_index == *tick && p.start_timestamp == *start, "mixed-up", "Pool({:?}, {:?}, {f}, {s}) is at price {} tick {} since {}, created at {price} {tick} {start}", toks[i], toks[j], p.sqrt_price.get(), p.current_tick_index, p.start_timestamp);
                    }
                    (Err(_), None) => {}
                    (Ok(_), None) => return fail("phantom-pool", format!("Pool({:?}, {:?}, {f}, {s}) exists but was never created", toks[i], toks[j])),
                    (Err(e), Some(_)) => return fail("lost-pool", format!("Pool({:?}, {:?}, {f}, {s}): {}", toks[i], toks[j], e.text())),
                }
            }
            if i < j {
                let r: Vec<PoolWithPoolKey> = viol(ch.query(&QueryMsg::PoolsForPair { token_0: toks[j].clone(), token_1: toks[i].clone() }), "PoolsForPair")?;
                let got: BTreeSet<Key> = r.iter().map(|p| key_of(&p.pool_key)).collect();
                let want: BTreeSet<Key> = pools.keys().filter(|k| k.x == toks[i] && k.y == toks[j]).cloned().collect();
                check!(got == want && r.len() == got.len(), "pair", "PoolsForPair({:?}, {:?}) gives {got:?}, must be {want:?}", toks[j], toks[i]);
            }
        }
    }
    for (k, set) in ticks.iter().filter(|(_, v)| !many || !v.is_empty()) {
        let mt = max_tick(k.s as i32);
        let n: u32 = viol(ch.query(&QueryMsg::LiquidityTicksAmount { pool_key: pk(k), lower_tick: -mt, upper_tick: mt }), "LiquidityTicksAmount")?;
        check!(n as usize == set.len(), "foreign-ticks", "{k:?} has {n} ticks, its positions use {set:?}");
        for other in ticks.values() {
            for i in other {
                let b: bool = ch.query(&QueryMsg::IsTickInitialized { key: pk(k), index: *i }).unwrap_or(false);
                check!(b == set.contains(i), "foreign-ticks", "{k:?}: tick {i} initialised {b}, its positions use {set:?}");
                let r: Result<oraiswap_v3::Tick, _> = ch.query(&QueryMsg::Tick { key: pk(k), index: *i });
                check!(r.is_ok() == set.contains(i), "foreign-ticks", "{k:?}: tick {i} readable {}, its positions use {set:?}", r.is_ok());
            }
        }
    }
    // the list names every pool once, exactly as created, whatever the page size
    let lim = match t.below(3) {
        0 => None,
        _ if many => Some(*t.pick(&[7u32, 50, 99, 100])),
        _ => Some(1 + t.below(3) as u32),
    };
    let mut seen = vec![];
    let mut after: Option<PoolKey> = None;
    loop {
        let r: Vec<PoolWithPoolKey> = viol(ch.query(&QueryMsg::Pools { limit: lim, start_after: after.clone() }), "Pools")?;
        if let Some(l) = lim {
            let left = pools.len().saturating_sub(seen.len());
            check!(r.len() == left.min(l as usize), "page", "Pools limit {l} after {} pools of {} gives {}", seen.len(), pools.len(), r.len());
        }
        if r.is_empty() || seen.len() > pools.len() + 5 {
            break;
        }
        after = r.last().map(|p| p.pool_key.clone());
        for p in r {
            let k = key_of(&p.pool_key);
            check!(pools.get(&k).map(|q| q.0) == Some(p.pool.sqrt_price.get()), "list", "Pools lists {k:?} at price {}, created {:?}", p.pool.sqrt_price.get(), pools.get(&k));
            seen.push(k);
        }
    }
    let uniq: BTreeSet<Key> = seen.iter().cloned().collect();
    check!(uniq.len() == seen.len() && uniq.len() == pools.len(), "list", "Pools (limit {lim:?}) lists {seen:?}, existing are {:?}", pools.keys().collect::<Vec<_>>());
    let related = pools.keys().any(|a| pools.keys().any(|b| a != b && (a.x != b.x && (a.x.starts_with(&b.x)) || a.y != b.y && a.y.starts_with(&b.y) || format!("{}{}", a.x, a.y) == format!("{}{}", b.x, b.y))));
    if related {
        ctx.nontrivial = true;
        ctx.label("pools with prefix-related names");
    }
    if pools.keys().any(|k| k.x.len() > 255 || k.y.len() > 255) {
        ctx.label("name longer than 255 bytes");
    }
    Ok(())
}

// ---- C27 ---------------------------------------------------------------------------------------

type View = Vec<(String, Result<Vec<u8>, ()>)>;
/// every answer a client can ask for that the history can have touched
fn everything(ch: &Chain, m: &Model) -> View {
    let mut v: View = vec![];
    let mut ask = |name: String, q: QueryMsg| {
        let r = ch.query_raw(&q).map_err(|_| ());
        v.push((name, r));
    };
    ask("Admin".into(), QueryMsg::Admin {});
    ask("ProtocolFee".into(), QueryMsg::ProtocolFee {});
    ask("FeeTiers".into(), QueryMsg::FeeTiers {});
    ask("Pools".into(), QueryMsg::Pools { limit: None, start_after: None });
    ask("AllTokens".into(), QueryMsg::AllTokens { start_after: None, limit: None });
    for k in m.pools.keys() {
        let mt = max_tick(k.s as i32);
        ask(format!("TickMap {k:?}"), QueryMsg::TickMap { pool_key: pk(k), lower_tick_index: -mt, upper_tick_index: mt, x_to_y: false });
        ask(format!("PoolsForPair {k:?}"), QueryMsg::PoolsForPair { token_0: k.x.clone(), token_1: k.y.clone() });
        for i in m.ticks(k) {
            ask(format!("Tick {i} of {k:?}"), QueryMsg::Tick { key: pk(k), index: i });
        }
    }
    for a in accounts() {
        ask(format!("Positions of {a}"), QueryMsg::Positions { owner_id: Addr::unchecked(&a), limit: Some(1000), offset: None });
        ask(format!("UserPositionAmount of {a}"), QueryMsg::UserPositionAmount { owner: Addr::unchecked(&a) });
        ask(format!("Tokens of {a}"), QueryMsg::Tokens { owner: Addr::unchecked(&a), start_after: None, limit: Some(1000) });
        ask(format!("ApprovedForAll of {a}"), QueryMsg::ApprovedForAll { owner: Addr::unchecked(&a), include_expired: Some(true), start_after: None, limit: None });
    }
    v
}
fn same_view(a: &View, b: &View, what: &str) -> Res {
    for (x, y) in a.iter().zip(b) {
        let show = |r: &Result<Vec<u8>, ()>| match r {
            Ok(v) => String::from_utf8_lossy(v).into_owned(),
            Err(()) => "refused".into(),
        };
        check!(x.1 == y.1, "migration-changes", "{what}: {} answers {} instead of {}", x.0, show(&y.1), show(&x.1));
    }
    Ok(())
}

pub fn c27(t: &mut Tape, ctx: &mut Ctx) -> Res {
    // a fresh deployment
    let who = accounts()[t.below(accounts().len() as u64) as usize].clone();
    let fee = pfee_choice(t);
    let fresh = Chain::deploy(&who, fee);
    let a: Addr = viol(fresh.query(&QueryMsg::Admin {}), "admin")?;
    check!(a.as_str() == who, "fresh-admin", "deployed by {who}, admin is {a}");
    let f: Percentage = viol(fresh.query(&QueryMsg::ProtocolFee {}), "protocol fee")?;
    check!(f.get() == fee, "fresh-fee", "deployed with protocol fee {fee}, it is {}", f.get());
    let ts: Vec<FeeTier> = viol(fresh.query(&QueryMsg::FeeTiers {}), "tiers")?;
    let ps: Vec<PoolWithPoolKey> = viol(fresh.query(&QueryMsg::Pools { limit: None, start_after: None }), "pools")?;
    let tk: TokensResponse = viol(fresh.query(&QueryMsg::AllTokens { start_after: None, limit: None }), "tokens")?;
    check!(ts.is_empty() && ps.is_empty() && tk.tokens.is_empty(), "fresh-empty", "a fresh deployment lists {ts:?} {ps:?} {:?}", tk.tokens);

    let mut cfg = Cfg::trading();
    cfg.w[K_ROUTE] = 3;
    cfg.w[K_TPOS] = 2;
    cfg.w[K_TNFT] = 2;
    cfg.w[K_BURN] = 1;
    cfg.w[K_APPROVE] = 3;
    cfg.w[K_APPALL] = 3;
    cfg.w[K_ADMIN] = 3;
    cfg.w[K_TIER] = 1;
    cfg.w[K_POOL] = 1;
    cfg.pools = 3;
    cfg.native_variants = true;
    let mut w = World::new(t, ctx, cfg);
    let at = t.below(16);
    let mut n = 0;
    let mut twin: Option<Chain> = None;
    let mut after = 0;
    history(&mut w, t, ctx, &mut |w, ctx, s| {
        if let Some(tw) = twin.as_mut() {
            if !matches!(s.c.op, Op::Advance { .. }) {
                let r = tw.exec(&s.c.sender, &s.c.funds, &to_msg(&s.c.op));
                match (s.res, &r) {
                    (Ok(a), Ok(b)) => {
                        check!(a.transfers == b.transfers && a.attrs == b.attrs && a.nft_hooks == b.nft_hooks, "migrated-differs", "{}: after a migration the same call moves {} and reports {:?}, without it {} and {:?}", s.show(), show_transfers(&b.transfers), b.attrs, show_transfers(&a.transfers), a.attrs);
                        after += 1;
                    }
                    (Err(_), Err(_)) => {}
                    (a, b) => return fail("migrated-differs", format!("{}: the same call after a migration is accepted: {}", s.show(), b.is_ok())),
                }
            }
            tw.nanos = w.chain.nanos;
            tw.height = w.chain.height;
        }
        n += 1;
        if n == at {
            let mut c = w.chain.clone();
            let before = everything(&c, &w.model);
            for _ in 0..1 + n % 2 {
                if let Err(e) = c.migrate() {
                    return fail("migrate-refused", format!("migrating the contract: {}", e.text()));
                }
            }
            ctx.log(|| "-- migrate --".into());
            same_view(&before, &everything(&c, &w.model), "after migrating")?;
            check!(c.bal == w.chain.bal, "migration-changes", "migrating moved tokens");
            // positions written before approvals existed have no such field
            if n % 2 == 0 {
                let mut legacy = 0;
                for v in c.store.m.values_mut() {
                    if let Ok(serde_json::Value::Object(mut o)) = serde_json::from_slice(v) {
                        if o.get("approvals") == Some(&serde_json::json!([])) {
                            o.remove("approvals");
                            *v = serde_json::to_vec(&o).unwrap();
                            legacy += 1;
                        }
                    }
                }
                same_view(&before, &everything(&c, &w.model), "after migrating from a version without approvals")?;
                if legacy > 0 {
                    ctx.label("positions of an older version");
                }
            }
            twin = Some(c);
        }
        Ok(Flow::Go)
    })?;
    if let Some(tw) = &twin {
        same_view(&everything(&w.chain, &w.model), &everything(tw, &w.model), "some calls after migrating")?;
        if after >= 3 {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}
