//! Further checks over histories of the contract (C06 - C12, C15, C21 - C23).
use crate::big::*;
use crate::chain::*;
use crate::check;
use crate::checks_hist::{accounts, observed_positions};
use crate::drive::*;
use crate::hist::*;
use crate::model::*;
use crate::report::{fail, Ctx, Res, Violation};
use crate::tape::Tape;
use cosmwasm_std::{Addr, Binary};
use cw20::Expiration;
use decimal::Decimal;
use oraiswap_v3::interface::*;
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::{FeeTier, Pool, PoolKey, Position, Tick};
use std::collections::{BTreeMap, BTreeSet};

fn viol<T>(sig: &str, r: Result<T, ExecErr>, what: &str) -> Result<T, Violation> {
    r.map_err(|e| Violation { sig: sig.into(), msg: format!("{what}: {}", e.text()) })
}

/// true when prices and amounts of the swaps of this step are as the model has them (otherwise the
/// model is out of step for reasons which belong to C03)
fn in_step(w: &World, s: &Seen) -> bool {
    let Some((_, b, note)) = &s.pred.ok else { return false };
    for (k, _, _) in &note.swaps {
        let m = &w.model.pools[k];
        match w.q_pool(k) {
            Ok(p) if p.sqrt_price.get() == m.price && p.current_tick_index == m.tick => {}
            _ => return false,
        }
    }
    if !note.swaps.is_empty() {
        return TOKENS.iter().all(|t| w.chain.balance(&s.c.sender, t) == b.get(&(s.c.sender.clone(), t.to_string())).copied().unwrap_or(0));
    }
    true
}

// ---- C06 ---------------------------------------------------------------------------------------

/// Every position claims (in a generated order, on a copy of the chain): it must be paid exactly
/// its share, and a second claim must pay nothing.
fn claim_sweep(w: &World, t: &mut Tape, ctx: &mut Ctx, what: &str) -> Result<u32, Violation> {
    let mut ch = w.chain.clone();
    let mut all: Vec<(String, u32)> = vec![];
    for (o, v) in &w.model.pos {
        for i in 0..v.len() {
            all.push((o.clone(), i as u32));
        }
    }
    let mut paid_n = 0;
    while !all.is_empty() {
        let i = t.below(all.len() as u64) as usize;
        let (o, idx) = all.remove(i);
        let p = &w.model.pos[&o][idx as usize];
        let (fx, fy) = (Model::fee_owed(p.acc[0], p.liq), Model::fee_owed(p.acc[1], p.liq));
        let (Some(fx), Some(fy)) = (fit(fx), fit(fy)) else { continue };
        for round in 0..2 {
            ctx.evals += 1;
            let b0 = (ch.balance(&o, &p.key.x), ch.balance(&o, &p.key.y));
            let r = ch.exec(&o, &[], &to_msg(&Op::Claim { index: idx }));
            let (wx, wy) = if round == 0 { (fx, fy) } else { (0, 0) };
            match r {
                Err(e) => {
                    if p.wrapped[0] || p.wrapped[1] {
                        continue; // growth since the last claim exceeded its integer: amount is not meaningful
                    }
                    return fail("claim-refused", format!("{what}: {o} cannot claim position {idx} (owed {wx}, {wy}): {}", e.text()));
                }
                Ok(_) => {
                    let (gx, gy) = (ch.balance(&o, &p.key.x) - b0.0, ch.balance(&o, &p.key.y) - b0.1);
                    let sig = if round == 0 { "fee-share" } else { "double-claim" };
                    check!(gx == wx && gy == wy, sig, "{what}: claim {} of position {idx} of {o} (ticks {}..{}, liquidity {}) paid ({gx}, {gy}), its share is ({wx}, {wy})", round + 1, p.lo, p.hi, p.liq);
                    if round == 0 && (gx > 0 || gy > 0) {
                        paid_n += 1;
                    }
                }
            }
        }
    }
    Ok(paid_n)
}

pub fn c06(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.w[K_SWAP] = 30;
    cfg.w[K_CLAIM] = 8;
    cfg.w[K_REMOVE] = 4;
    cfg.w[K_TPOS] = 1;
    cfg.w[K_TNFT] = 1;
    cfg.w[K_SNFT] = 1;
    cfg.w[K_BURN] = 2;
    cfg.w[K_ROUTE] = 3;
    cfg.w[K_ADMIN] = 1;
    cfg.max_ops = 30;
    // growth per unit of liquidity only wraps its integer with tiny liquidity and large fees
    let wrap = t.chance(1, 4);
    let mut w = World::new(t, ctx, cfg);
    if wrap {
        w.lbits = 1 + t.below(14) as u32;
        w.skew = false;
        ctx.label("tiny-liquidity history");
    }
    let mut crossed = 0;
    let mut settled = 0;
    let sweep_at = t.below(30);
    let mut n = 0;
    let mut mid: Option<World> = None;
    let fl = history(&mut w, t, ctx, &mut |w, ctx, s| {
        if !s.both_ok() {
            return Ok(Flow::Go);
        }
        if !in_step(w, s) {
            ctx.label("model out of step");
            return Ok(Flow::Stop);
        }
        let note = &s.pred.ok.as_ref().unwrap().2;
        for (_, _, o) in &note.swaps {
            crossed += o.crossed.len();
        }
        match &s.c.op {
            Op::Claim { index } => {
                let (x, y) = note.paid.unwrap();
                let key = note.touched.iter().next().unwrap();
                let (gx, gy) = (s.moved(w, &s.c.sender, &key.x), s.moved(w, &s.c.sender, &key.y));
                check!(gx == x as i128 && gy == y as i128, "fee-share", "{}: paid ({gx}, {gy}), the share is ({x}, {y})", s.show());
                if x > 0 || y > 0 {
                    settled += 1;
                    ctx.label("claim paying fees");
                }
            }
            Op::Remove { index } => {
                // closing pays what claiming first and closing afterwards pays
                let key = note.touched.iter().next().unwrap();
                let (fx, fy) = note.fees.unwrap();
                let mut ch = s.before.clone();
                let b0 = (ch.balance(&s.c.sender, &key.x), ch.balance(&s.c.sender, &key.y));
                if ch.exec(&s.c.sender, &[], &to_msg(&Op::Claim { index: *index })).is_ok() {
                    let c = (ch.balance(&s.c.sender, &key.x) - b0.0, ch.balance(&s.c.sender, &key.y) - b0.1);
                    check!(c == (fx, fy), "fee-share", "{}: claiming before closing pays {c:?}, the share is ({fx}, {fy})", s.show());
                    if ch.exec(&s.c.sender, &[], &to_msg(&Op::Remove { index: *index })).is_ok() {
                        for tk in [&key.x, &key.y] {
                            let (a, b) = (ch.balance(&s.c.sender, tk), w.chain.balance(&s.c.sender, tk));
                            check!(a == b, "close-pays-fees", "{}: claim and close leaves {a} {tk}, close alone leaves {b}", s.show());
                        }
                    }
                }
                if fx > 0 || fy > 0 {
                    settled += 1;
                    ctx.label("close paying fees");
                }
            }
            _ => {}
        }
        n += 1;
        if n == sweep_at {
            mid = Some(World { chain: w.chain.clone(), model: w.model.clone(), cfg: w.cfg.clone(), lbits: w.lbits, skew: w.skew, home: w.home, comb: w.comb.clone() });
        }
        Ok(Flow::Go)
    })?;
    if let Some(m) = mid {
        claim_sweep(&m, t, ctx, "in mid-history")?;
    }
    if fl == Flow::Go {
        let n = claim_sweep(&w, t, ctx, "at the end")?;
        if n > 0 {
            ctx.label("sweep paying fees");
        }
        if w.model.pools.iter().any(|(k, p)| w.model.pos.values().flatten().any(|q| q.key == *k && q.acc != [0, 0] && (q.acc[0] > p.growth[0] || q.acc[1] > p.growth[1]))) {
            ctx.label("fee growth counter wrapped");
        }
        if (n > 0 || settled > 0) && crossed > 0 {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

// ---- C07 ---------------------------------------------------------------------------------------

pub fn c07(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.w[K_SWAP] = 30;
    cfg.w[K_WITHDRAW] = 8;
    cfg.w[K_ADMIN] = 6;
    cfg.w[K_ROUTE] = 3;
    cfg.pools = 3;
    let mut w = World::new(t, ctx, cfg);
    let mut some = 0;
    let fl = history(&mut w, t, ctx, &mut |w, ctx, s| {
        if s.res.is_err() {
            if let (Op::Withdraw { .. }, true) = (&s.c.op, s.refused()) {
                return fail("withdraw-refused", s.show());
            }
            return Ok(Flow::Go);
        }
        if s.overaccepted() {
            if let Op::Withdraw { .. } = s.c.op {
                return fail("withdraw-accepted", s.show());
            }
            return Ok(Flow::Stop);
        }
        if !in_step(w, s) {
            ctx.label("model out of step");
            return Ok(Flow::Stop);
        }
        let note = &s.pred.ok.as_ref().unwrap().2;
        for k in w.pools() {
            let p = viol("pool-query", w.q_pool(&k), "pool")?;
            let m = &w.model.pools[&k];
            let got = [p.fee_protocol_token_x.get(), p.fee_protocol_token_y.get()];
            check!(got == m.proto, "protocol-fee", "{}: protocol fees of {k:?} are {got:?}, must be {:?}", s.show(), m.proto);
        }
        for (_, _, o) in &note.swaps {
            if o.proto > 0 {
                ctx.label("swap accruing protocol fee");
                some += 1;
            }
        }
        if let Op::Withdraw { key } = &s.c.op {
            let (x, y) = note.paid.unwrap();
            for (tk, a) in [(&key.x, x), (&key.y, y)] {
                let g = s.moved(w, &s.c.sender, tk);
                check!(g == a as i128, "withdraw-amount", "{}: paid {g} {tk}, accrued {a}", s.show());
                let c = s.moved(w, CONTRACT, tk);
                check!(c == -(a as i128), "withdraw-amount", "{}: contract balance of {tk} changed by {c}, accrued {a}", s.show());
            }
            if x > 0 || y > 0 {
                ctx.label("withdrawal paying out");
                some += 1;
            }
            // nothing but the two counters changes
            let old: Pool = viol("pool-query", s.before.query(&QueryMsg::Pool { token_0: key.x.clone(), token_1: key.y.clone(), fee_tier: ft(key.fee, key.s) }), "pool before")?;
            let new = viol("pool-query", w.q_pool(key), "pool after")?;
            let want = Pool { fee_protocol_token_x: TokenAmount::new(0), fee_protocol_token_y: TokenAmount::new(0), ..old };
            check!(new == want, "withdraw-side-effect", "{}: pool after withdrawal {new:?}", s.show());
        }
        Ok(Flow::Go)
    })?;
    if some >= 2 {
        ctx.nontrivial = true;
    }
    if fl == Flow::Go {
        for k in w.pools() {
            let p = viol("pool-query", w.q_pool(&k), "pool")?;
            let c = Call { sender: p.fee_receiver.clone(), funds: vec![], op: Op::Withdraw { key: k.clone() } };
            let m = w.model.pools[&k].proto;
            for round in 0..2 {
                let b0 = (w.chain.balance(&p.fee_receiver, &k.x), w.chain.balance(&p.fee_receiver, &k.y));
                if let Err(e) = w.exec(&c) {
                    return fail("withdraw-refused", format!("final withdrawal {round} of {m:?} from {k:?} by {}: {}", p.fee_receiver, e.text()));
                }
                let g = [w.chain.balance(&p.fee_receiver, &k.x) - b0.0, w.chain.balance(&p.fee_receiver, &k.y) - b0.1];
                let want = if round == 0 { m } else { [0; 2] };
                check!(g == want, "withdraw-amount", "final withdrawal {round} from {k:?} paid {g:?}, accrued {want:?}");
            }
        }
    }
    Ok(())
}

// ---- C08 ---------------------------------------------------------------------------------------

pub fn c08(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.w = [0; NK];
    cfg.w[K_ADMIN] = 12;
    cfg.w[K_TIER] = 8;
    cfg.w[K_WITHDRAW] = 6;
    cfg.w[K_POOL] = 3;
    cfg.w[K_CREATE] = 3;
    cfg.w[K_SWAP] = 6;
    cfg.w[K_CLAIM] = 1;
    cfg.w[K_APPALL] = 1;
    cfg.w[K_TIME] = 1;
    cfg.min_ops = 8;
    cfg.max_ops = 40;
    cfg.pools = 3;
    cfg.bad_inputs = true;
    let mut w = World::new(t, ctx, cfg);
    let mut handed = false;
    history(&mut w, t, ctx, &mut |w, ctx, s| {
        let guarded = matches!(s.c.op, Op::AddTier { .. } | Op::RemoveTier { .. } | Op::Withdraw { .. } | Op::SetProtocolFee { .. } | Op::SetReceiver { .. } | Op::SetAdmin { .. });
        if guarded {
            if s.overaccepted() && matches!(s.pred.why, "not admin" | "not the fee receiver") {
                return fail("unauthorised-accepted", s.show());
            }
            if s.refused() {
                return fail("authorised-refused", s.show());
            }
            if s.res.is_err() && matches!(s.pred.why, "not admin" | "not the fee receiver") {
                ctx.label("unauthorised call refused");
                if handed {
                    ctx.nontrivial = true;
                }
            }
        }
        if s.res.is_ok() != s.pred.ok.is_some() {
            return Ok(Flow::Stop);
        }
        // settings are what the authorised calls made them - after every call of any kind
        let m = &w.model;
        let a: Addr = viol("query", w.chain.query(&QueryMsg::Admin {}), "admin query")?;
        check!(a.as_str() == m.admin, "admin", "{}: admin is {a}, must be {}", s.show(), m.admin);
        let f: Percentage = viol("query", w.chain.query(&QueryMsg::ProtocolFee {}), "protocol fee query")?;
        check!(f.get() == m.pfee, "protocol-fee-rate", "{}: protocol fee is {}, must be {}", s.show(), f.get(), m.pfee);
        let ts: Vec<FeeTier> = viol("query", w.chain.query(&QueryMsg::FeeTiers {}), "fee tiers query")?;
        let mut got: Vec<(u64, u16)> = ts.iter().map(|x| (x.fee.get(), x.tick_spacing)).collect();
        let mut want = m.tiers.clone();
        got.sort();
        want.sort();
        check!(got == want, "tiers", "{}: fee tiers {got:?}, must be {want:?}", s.show());
        for k in w.pools() {
            let p = viol("query", w.q_pool(&k), "pool query")?;
            let r = &m.pools[&k].receiver;
            check!(p.fee_receiver == *r, "receiver", "{}: fee receiver of {k:?} is {}, must be {r}", s.show(), p.fee_receiver);
        }
        if let (Op::SetAdmin { to }, true) = (&s.c.op, s.res.is_ok()) {
            if *to != s.c.sender {
                handed = true;
                ctx.label("admin handed over");
            }
        }
        if let (Op::SetReceiver { .. }, true) = (&s.c.op, s.res.is_ok()) {
            ctx.label("fee receiver changed");
        }
        Ok(Flow::Go)
    })?;
    Ok(())
}

// ---- C09 / C10 ---------------------------------------------------------------------------------

fn nft_cfg() -> Cfg {
    let mut cfg = Cfg::trading();
    cfg.w = [0; NK];
    cfg.w[K_CREATE] = 10;
    cfg.w[K_SWAP] = 3;
    cfg.w[K_REMOVE] = 3;
    cfg.w[K_CLAIM] = 3;
    cfg.w[K_TPOS] = 4;
    cfg.w[K_TNFT] = 8;
    cfg.w[K_SNFT] = 4;
    cfg.w[K_BURN] = 6;
    cfg.w[K_APPROVE] = 10;
    cfg.w[K_REVOKE] = 5;
    cfg.w[K_APPALL] = 6;
    cfg.w[K_REVALL] = 3;
    cfg.w[K_TIME] = 6;
    cfg.min_ops = 8;
    cfg.max_ops = 40;
    cfg.bad_inputs = true;
    cfg
}
fn exp_of(e: &Expiration) -> Exp {
    match e {
        Expiration::Never {} => Exp::Never,
        Expiration::AtHeight(h) => Exp::Height(*h),
        Expiration::AtTime(t) => Exp::Time(t.nanos()),
    }
}
fn apr(v: &[Approval]) -> BTreeMap<String, String> {
    v.iter().map(|a| (a.spender.to_string(), format!("{:?}", exp_of(&a.expires)))).collect()
}

pub fn c09(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut w = World::new(t, ctx, nft_cfg());
    let everyone = accounts();
    let mut third = 0;
    history(&mut w, t, ctx, &mut |w, ctx, s| {
        let concerned = matches!(
            s.c.op,
            Op::Remove { .. } | Op::Claim { .. } | Op::TransferPos { .. } | Op::TransferNft { .. } | Op::SendNft { .. } | Op::Burn { .. } | Op::Approve { .. } | Op::Revoke { .. } | Op::ApproveAll { .. } | Op::RevokeAll { .. }
        );
        if concerned {
            if s.overaccepted() {
                return fail("unauthorised-accepted", s.show());
            }
            if s.refused() && s.pred.ok.is_some() {
                return fail("authorised-refused", s.show());
            }
            if s.res.is_err() && s.pred.why == "not authorised" {
                ctx.label("unauthorised call refused");
            }
        }
        if s.res.is_ok() != s.pred.ok.is_some() {
            return Ok(Flow::Stop);
        }
        if s.res.is_err() {
            return Ok(Flow::Go);
        }
        let ok = s.res.as_ref().ok().unwrap();
        let note = &s.pred.ok.as_ref().unwrap().2;
        // SendNft notifies exactly the receiving contract
        if concerned {
            let want: Vec<_> = note.hook.iter().cloned().collect();
            check!(ok.nft_hooks == want, "hook", "{}: notifications {:?}, must be {want:?}", s.show(), ok.nft_hooks);
        }
        // the value of a closed or claimed position goes to its owner and to nobody else
        let owner = match &s.c.op {
            Op::Remove { .. } | Op::Claim { .. } => Some(s.c.sender.clone()),
            Op::Burn { id } => String::from_utf8(id[..id.len() - 4].to_vec()).ok(),
            _ => None,
        };
        if let Some(o) = owner {
            for a in &everyone {
                for tk in TOKENS {
                    let d = s.moved(w, a, tk);
                    check!(d == 0 || (*a == o && d > 0), "payee", "{}: balance of {a} in {tk} changed by {d}; the position belongs to {o}", s.show());
                }
            }
            if o != s.c.sender {
                ctx.label("burn by a third party");
            }
        } else if concerned {
            check!(w.chain.bal == s.before.bal, "payee", "{}: tokens moved {}", s.show(), show_transfers(&ok.transfers));
        }
        if let Op::TransferNft { id, .. } | Op::SendNft { id, .. } | Op::Burn { id } = &s.c.op {
            if !id.starts_with(s.c.sender.as_bytes()) || id.len() != s.c.sender.len() + 4 {
                third += 1;
                ctx.label("acted on somebody else's token");
            }
        }
        // ownership and permissions, as the contract reports them
        let (h, n) = (w.chain.height, w.chain.nanos);
        for a in &everyone {
            let cnt = w.q_count(a);
            let want = w.model.pos.get(a).map_or(0, |v| v.len());
            check!(cnt as usize == want, "ownership", "{}: {a} holds {cnt} positions, must be {want}", s.show());
            for (i, p) in w.model.pos.get(a).map(|v| v.as_slice()).unwrap_or(&[]).iter().enumerate() {
                ctx.evals += 1;
                let id = Binary(token_id(a, i as u32));
                for all in [true, false] {
                    let r: AllNftInfoResponse = viol("owner-query", w.chain.query(&QueryMsg::AllNftInfo { token_id: id.clone(), include_expired: Some(all) }), "AllNftInfo")?;
                    check!(r.access.owner.as_str() == a, "ownership", "{}: token {i} of {a} reports owner {}", s.show(), r.access.owner);
                    let q = &r.info.extension;
                    check!(
                        key_of(&q.pool_key) == p.key && q.lower_tick_index == p.lo && q.upper_tick_index == p.hi && q.liquidity.get() == p.liq,
                        "ownership", "{}: token {i} of {a} is {}..{} liquidity {}, must be {}..{} liquidity {}", s.show(), q.lower_tick_index, q.upper_tick_index, q.liquidity.get(), p.lo, p.hi, p.liq
                    );
                    let want: BTreeMap<String, String> = p.approvals.iter().filter(|(_, e)| all || !e.expired(h, n)).map(|(s, e)| (s.clone(), format!("{e:?}"))).collect();
                    check!(apr(&r.access.approvals) == want, "approvals", "{}: token {i} of {a} lists approvals {:?}, must be {want:?}", s.show(), r.access.approvals);
                    let o: OwnerOfResponse = viol("owner-query", w.chain.query(&QueryMsg::OwnerOf { token_id: id.clone(), include_expired: Some(all) }), "OwnerOf")?;
                    check!(o == r.access, "approvals", "{}: OwnerOf and AllNftInfo disagree on token {i} of {a}", s.show());
                }
            }
            for all in [true, false] {
                let r: ApprovedForAllResponse = viol("operators-query", w.chain.query(&QueryMsg::ApprovedForAll { owner: Addr::unchecked(a), include_expired: Some(all), start_after: None, limit: None }), "ApprovedForAll")?;
                let want: BTreeMap<String, String> = w.model.ops.iter().filter(|((o, _), e)| o == a && (all || !e.expired(h, n))).map(|((_, p), e)| (p.clone(), format!("{e:?}"))).collect();
                check!(apr(&r.operators) == want, "operators", "{}: operators of {a} are {:?}, must be {want:?}", s.show(), r.operators);
            }
        }
        Ok(Flow::Go)
    })?;
    if third > 0 {
        ctx.nontrivial = true;
    }
    grants(&mut w, t, ctx)
}

/// more grants than fit one page, each listed, pages of the operator list, and each usable or not
fn grants(w: &mut World, t: &mut Tape, ctx: &mut Ctx) -> Res {
    let who = w.user(t);
    if t.chance(1, 12) {
        let n = if t.chance(1, 4) { 95 + t.below(40) } else { 3 + t.below(20) };
        let mut calls = vec![];
        for j in 0..n {
            calls.push(Op::ApproveAll { op: format!("orai1op{:03}", (j * 37) % 211), exp: w.exp_choice(t) });
        }
        if w.model.pos.get(&who).map_or(0, |v| v.len()) > 0 {
            let len = w.model.pos[&who].len() as u64;
            let id = token_id(&who, t.below(len) as u32);
            for j in 0..3 + t.below(40) {
                calls.push(Op::Approve { id: id.clone(), spender: format!("orai1sp{j:02}"), exp: w.exp_choice(t) });
            }
            let j = t.below(30);
            calls.push(Op::Revoke { id: id.clone(), spender: format!("orai1sp{j:02}") });
        }
        calls.push(Op::Advance { nanos: t.below(3) * 1_000_000_000, blocks: t.below(3) });
        for op in calls {
            let c = Call { sender: who.clone(), funds: vec![], op };
            let f = step(w, ctx, &c, &mut |_, _, s| {
                if s.res.is_ok() != s.pred.ok.is_some() {
                    return fail("grant", s.show());
                }
                Ok(Flow::Go)
            })?;
            if f == Flow::Stop {
                return Ok(());
            }
        }
        ctx.label("many grants");
        let (h, n) = (w.chain.height, w.chain.nanos);
        for (i, p) in w.model.pos.get(&who).map(|v| v.as_slice()).unwrap_or(&[]).iter().enumerate() {
            for all in [true, false] {
                let o: OwnerOfResponse = viol("owner-query", w.chain.query(&QueryMsg::OwnerOf { token_id: Binary(token_id(&who, i as u32)), include_expired: Some(all) }), "OwnerOf")?;
                let want: BTreeMap<String, String> = p.approvals.iter().filter(|(_, e)| all || !e.expired(h, n)).map(|(s, e)| (s.clone(), format!("{e:?}"))).collect();
                check!(apr(&o.approvals) == want, "approvals", "after many grants: token {i} of {who} lists approvals {:?}, must be {want:?}", o.approvals);
            }
        }
    }
    // pages of the operator list
    let (h, n) = (w.chain.height, w.chain.nanos);
    for _ in 0..3 {
        let all = t.bool();
        let ops: Vec<(String, String)> = w.model.ops.iter().filter(|((o, _), e)| *o == who && (all || !e.expired(h, n))).map(|((_, p), e)| (p.clone(), format!("{e:?}"))).collect();
        let known: Vec<String> = w.model.ops.keys().filter(|(o, _)| *o == who).map(|(_, p)| p.clone()).collect();
        let after = if known.is_empty() || t.bool() { None } else { Some(t.pick(&known).clone()) };
        let limit = match t.below(4) {
            0 => None,
            1 => Some(t.below(4) as u32),
            2 => Some(t.below(140) as u32),
            _ => Some(1),
        };
        let want: Vec<(String, String)> = ops.into_iter().filter(|(p, _)| after.as_ref().map_or(true, |a| p > a)).take(limit.unwrap_or(100).min(100) as usize).collect();
        let r: ApprovedForAllResponse = viol(
            "operators-query",
            w.chain.query(&QueryMsg::ApprovedForAll { owner: Addr::unchecked(&who), include_expired: Some(all), start_after: after.as_ref().map(Addr::unchecked), limit }),
            "ApprovedForAll",
        )?;
        let got: Vec<(String, String)> = r.operators.iter().map(|a| apr(std::slice::from_ref(a)).into_iter().next().unwrap()).collect();
        ctx.evals += 1;
        check!(got == want, "operator-page", "operators of {who} after {after:?} limit {limit:?} (expired ones {all}): {got:?}, must be {want:?}");
    }
    Ok(())
}

fn same_pos(q: &Position, p: &MPos) -> bool {
    key_of(&q.pool_key) == p.key && q.lower_tick_index == p.lo && q.upper_tick_index == p.hi && q.liquidity.get() == p.liq && q.last_block_number == p.block
}

pub fn registry(w: &World, t: &mut Tape, ctx: &mut Ctx, what: &str) -> Res {
    let mut all_ids: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut names = accounts();
    names.push("orai1nobody".into());
    for a in &names {
        let n = w.model.pos.get(a).map_or(0, |v| v.len()) as u32;
        let cnt: u32 = viol("count-query", w.chain.query(&QueryMsg::UserPositionAmount { owner: Addr::unchecked(a) }), what)?;
        check!(cnt == n, "count", "{what}: {a} holds {cnt} positions, must be {n}");
        let ps: Vec<Position> = viol("positions-query", w.chain.query(&QueryMsg::Positions { owner_id: Addr::unchecked(a), limit: None, offset: None }), what)?;
        check!(ps.len() == n.min(100) as usize, "positions", "{what}: Positions lists {} of {n} positions of {a}", ps.len());
        let mut qs: Vec<Position> = vec![];
        for i in 0..n {
            ctx.evals += 1;
            let p = &w.model.pos[a][i as usize];
            let q = match w.q_pos(a, i) {
                Ok(q) => q,
                Err(e) => return fail("position-unreadable", format!("{what}: position {i} of {a}: {}", e.text())),
            };
            check!(same_pos(&q, p), "position", "{what}: position {i} of {a} is {:?} {}..{} liquidity {} of block {}, must be {:?} {}..{} liquidity {} of block {}", q.pool_key, q.lower_tick_index, q.upper_tick_index, q.liquidity.get(), q.last_block_number, p.key, p.lo, p.hi, p.liq, p.block);
            if (i as usize) < ps.len() {
                check!(ps[i as usize] == q, "positions", "{what}: Positions[{i}] of {a} differs from Position {i}");
            }
            let id = token_id(a, i);
            let r: NftInfoResponse = viol("nft-query", w.chain.query(&QueryMsg::NftInfo { token_id: Binary(id.clone()) }), what)?;
            check!(r.extension == q, "nft-info", "{what}: NftInfo of token {i} of {a} differs from Position {i}");
            qs.push(q);
            all_ids.insert(id);
        }
        check!(w.q_pos(a, n).is_err(), "phantom", "{what}: position {n} of {a} exists beyond the count");
        let gone: Result<NftInfoResponse, _> = w.chain.query(&QueryMsg::NftInfo { token_id: Binary(token_id(a, n)) });
        check!(gone.is_err(), "phantom", "{what}: token {n} of {a} exists beyond the count");
        // paging: any offset and limit gives that slice
        let lim = match t.below(4) {
            0 => None,
            1 => Some(t.below(4) as u32),
            2 => Some(t.below(101) as u32),
            _ => Some(1 + t.below((n as u64 + 1).min(100)) as u32),
        };
        let off = match t.below(5) {
            0 => None,
            1 => Some(t.below(n as u64 + 3) as u32),
            2 => Some(u32::MAX - t.below(3) as u32),
            _ => Some(t.below(n as u64 + 1) as u32),
        };
        let from = off.unwrap_or(0).min(n);
        let to = (from as u64 + lim.unwrap_or(100) as u64).min(n as u64) as u32;
        let pg: Vec<Position> = viol("positions-query", w.chain.query(&QueryMsg::Positions { owner_id: Addr::unchecked(a), limit: lim, offset: off }), &format!("{what}: Positions limit {lim:?} offset {off:?} of {n}"))?;
        check!(pg == &qs[from as usize..to as usize], "paging", "{what}: Positions limit {lim:?} offset {off:?} of {a} ({n} positions) returns {} entries, must be {from}..{to}", pg.len());
        let tk: TokensResponse = viol("tokens-query", w.chain.query(&QueryMsg::Tokens { owner: Addr::unchecked(a), start_after: off, limit: lim }), &format!("{what}: Tokens limit {lim:?} start {off:?} of {n}"))?;
        let want: Vec<Vec<u8>> = (from..to).map(|i| token_id(a, i)).collect();
        let got: Vec<Vec<u8>> = tk.tokens.iter().map(|b| b.to_vec()).collect();
        check!(got == want, "tokens", "{what}: Tokens limit {lim:?} start {off:?} of {a} ({n} positions) returns {got:?}");
        // boundary ticks of the positions, two per position, from the offset on
        if n > 0 {
            let o = if t.chance(1, 3) { 0 } else { t.below(n as u64 + 1) as u32 };
            let pt: Vec<PositionTick> = viol("position-ticks-query", w.chain.query(&QueryMsg::PositionTicks { owner: Addr::unchecked(a), offset: o }), what)?;
            let want: Vec<i32> = w.model.pos[a][o as usize..].iter().flat_map(|p| [p.lo, p.hi]).take(372).collect();
            let got: Vec<i32> = pt.iter().map(|x| x.index).collect();
            check!(got == want, "position-ticks", "{what}: PositionTicks offset {o} of {a} gives {got:?}, must be {want:?}");
            for (j, x) in pt.iter().enumerate() {
                let p = &w.model.pos[a][o as usize + j / 2];
                let tkk = viol("tick-query", w.q_tick(&p.key, x.index), what)?;
                check!(tkk.fee_growth_outside_x == x.fee_growth_outside_x && tkk.fee_growth_outside_y == x.fee_growth_outside_y && tkk.seconds_outside == x.seconds_outside, "position-ticks", "{what}: PositionTicks entry {j} of {a} differs from tick {}", x.index);
            }
        }
    }
    // all tokens, walked page by page
    let lim = if t.chance(1, 3) { 100 - t.below(3) as u32 } else { 1 + t.below(7) as u32 };
    let default = t.chance(1, 4);
    let lim = if default { 100 } else { lim };
    let mut got: Vec<Vec<u8>> = vec![];
    let mut after: Option<Binary> = None;
    loop {
        let r: TokensResponse = viol("all-tokens-query", w.chain.query(&QueryMsg::AllTokens { start_after: after.clone(), limit: if default { None } else { Some(lim) } }), what)?;
        check!(r.tokens.len() <= lim as usize, "all-tokens", "{what}: AllTokens limit {lim} returned {}", r.tokens.len());
        if r.tokens.is_empty() || got.len() > all_ids.len() + 10 {
            break;
        }
        after = r.tokens.last().cloned();
        got.extend(r.tokens.iter().map(|b| b.to_vec()));
    }
    let want: Vec<Vec<u8>> = all_ids.into_iter().collect();
    check!(got == want, "all-tokens", "{what}: AllTokens walked with limit {lim} gives {} tokens {got:?}, live are {} {want:?}", got.len(), want.len());
    Ok(())
}

/// One account with very many positions (more than 256, now and then more than 65536), thinned out
/// again by closing and transferring; positions are told apart by their liquidity.
fn crowd(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let (x, y) = ("orai1tka", "orai1tkb");
    let k = Key { x: x.into(), y: y.into(), fee: 0, s: 1 };
    let mut ch = Chain::new(0);
    for tk in [x, y] {
        ch.mint(USERS[0], tk, 1 << 126);
    }
    for (who, op) in [
        (ADMIN, Op::AddTier { fee: 0, s: 1 }),
        (USERS[0], Op::CreatePool { t0: x.into(), t1: y.into(), fee: 0, s: 1, price: price_of(0), tick: 0 }),
    ] {
        if ch.exec(who, &[], &to_msg(&op)).is_err() {
            return Ok(());
        }
    }
    let huge = t.chance(1, 60);
    let n = if huge { 65530 + t.below(40) } else if t.chance(1, 6) { 500 + t.below(800) } else { 250 + t.below(50) } as u128;
    let mut own: [Vec<u128>; 2] = [vec![], vec![]];
    for j in 0..n {
        let liq = 1_000_000 + j;
        let op = Op::Create { key: k.clone(), lo: -1, hi: 1, liq, smin: 0, smax: u128::MAX, mint: false };
        if ch.exec_kept(USERS[0], &to_msg(&op)).is_err() {
            return Ok(());
        }
        own[0].push(liq);
    }
    ctx.label(if huge { "account with more than 65536 positions" } else { "account with more than 256 positions" });
    let steps = if huge { 4 } else { 3 + t.below(20) };
    for step in 0..=steps {
        if step > 0 {
            // the last of the accounts are the two that exchange positions
            let from = if own[1].is_empty() || t.chance(3, 4) { 0 } else { 1 };
            if own[from].is_empty() {
                continue;
            }
            let len = own[from].len() as u64;
            let i = match t.below(4) {
                0 => len - 1,
                1 => t.below(len),
                2 => 255u64.min(len - 1),
                _ => len.saturating_sub(1 + t.below(40)),
            } as usize;
            let tid = Binary(token_id(USERS[from], i as u32));
            let (op, moved) = match t.below(4) {
                0 => (Op::Remove { index: i as u32 }, false),
                1 => (Op::Burn { id: tid.to_vec() }, false),
                2 => (Op::TransferPos { index: i as u32, to: USERS[1 - from].into() }, true),
                _ => (Op::TransferNft { id: tid.to_vec(), to: USERS[1 - from].into() }, true),
            };
            ctx.log(|| format!("  {} {op:?} ({} positions)", USERS[from], len));
            if let Err(e) = ch.exec_kept(USERS[from], &to_msg(&op)) {
                return fail("refused", format!("{} {op:?} with {len} positions: {}", USERS[from], e.text()));
            }
            let l = own[from].swap_remove(i);
            if moved {
                own[1 - from].push(l);
            }
        }
        for (who, v) in own.iter().enumerate() {
            let u = USERS[who];
            let n: u32 = viol("count", ch.query(&QueryMsg::UserPositionAmount { owner: Addr::unchecked(u) }), "position amount")?;
            check!(n as usize == v.len(), "count", "{u} has {} positions, told {n}", v.len());
            let mut at: BTreeSet<usize> = [0, 1, 127, 128, 254, 255, 256, 257, 65534, 65535, 65536, v.len().wrapping_sub(1), v.len().wrapping_sub(2)].into_iter().collect();
            for _ in 0..4 {
                at.insert(t.below(v.len().max(1) as u64) as usize);
            }
            for i in at {
                let q: Result<Position, _> = ch.query(&QueryMsg::Position { owner_id: Addr::unchecked(u), index: i as u32 });
                ctx.evals += 1;
                match v.get(i) {
                    Some(l) => {
                        let q = viol("lost", q, "position")?;
                        check!(q.liquidity.get() == *l, "swapped", "position {i} of {u} has liquidity {}, must be {l}", q.liquidity.get());
                        let o: OwnerOfResponse = viol("lost", ch.query(&QueryMsg::OwnerOf { token_id: Binary(token_id(u, i as u32)), include_expired: None }), "owner")?;
                        check!(o.owner == u, "owner", "token {i} of {u} belongs to {}", o.owner);
                        let off = i as u32;
                        let r: TokensResponse = viol("tokens", ch.query(&QueryMsg::Tokens { owner: Addr::unchecked(u), start_after: Some(off), limit: Some(3) }), "tokens")?;
                        let want: Vec<Binary> = (i..v.len().min(i + 3)).map(|j| Binary(token_id(u, j as u32))).collect();
                        check!(r.tokens == want, "tokens", "tokens of {u} from {i}: {:?}, must be {want:?}", r.tokens);
                    }
                    None => check!(q.is_err(), "ghost", "{u} has {} positions, position {i} exists", v.len()),
                }
            }
        }
    }
    // page through both lists to their end
    if !huge {
        for (who, v) in own.iter().enumerate() {
            let u = USERS[who];
            let limit = *t.pick(&[None, Some(100), Some(64), Some(99)]);
            let (mut liqs, mut ids) = (vec![], vec![]);
            while liqs.len() < v.len() {
                let r: Vec<Position> = viol("positions", ch.query(&QueryMsg::Positions { owner_id: Addr::unchecked(u), limit, offset: Some(liqs.len() as u32) }), "positions")?;
                if r.is_empty() {
                    break;
                }
                liqs.extend(r.iter().map(|p| p.liquidity.get()));
            }
            while ids.len() < v.len() {
                let r: TokensResponse = viol("tokens", ch.query(&QueryMsg::Tokens { owner: Addr::unchecked(u), start_after: Some(ids.len() as u32), limit }), "tokens")?;
                if r.tokens.is_empty() {
                    break;
                }
                ids.extend(r.tokens);
            }
            ctx.evals += 2;
            check!(liqs == *v, "positions", "paging through the {} positions of {u} lists {} of them, or others", v.len(), liqs.len());
            let want: Vec<Binary> = (0..v.len()).map(|j| Binary(token_id(u, j as u32))).collect();
            check!(ids == want, "tokens", "paging through the {} tokens of {u} lists {} of them, or others", v.len(), ids.len());
        }
    }
    if !huge && !own[1].is_empty() {
        ctx.nontrivial = true;
    }
    Ok(())
}

pub fn c10(t: &mut Tape, ctx: &mut Ctx) -> Res {
    if t.chance(1, 80) {
        return crowd(t, ctx);
    }
    let mut cfg = nft_cfg();
    cfg.w[K_CREATE] = 16;
    cfg.w[K_REMOVE] = 8;
    cfg.w[K_BURN] = 5;
    cfg.w[K_TPOS] = 8;
    cfg.w[K_APPROVE] = 2;
    cfg.w[K_REVOKE] = 0;
    cfg.w[K_APPALL] = 2;
    cfg.w[K_REVALL] = 0;
    cfg.w[K_TIME] = 1;
    let mut w = World::new(t, ctx, cfg);
    let mut holes = 0;
    if t.chance(1, 60) {
        // an account with more positions than fit one page of any list
        w.lbits = 20;
        w.skew = false;
        let n = *t.pick(&[98u64, 100, 101, 184, 186, 187, 205]) + t.below(3);
        let who = w.user(t);
        if let Some(k) = w.pick_pool(t) {
            for _ in 0..n {
                let (lo, hi) = w.range_choice(t, &k);
                let mut c = Call { sender: who.clone(), funds: vec![], op: Op::Create { key: k.clone(), lo, hi, liq: w.liq_choice(t), smin: 0, smax: u128::MAX, mint: false } };
                let needs = w.needs(&c);
                w.fund(t, &mut c, &needs);
                w.call_quiet(ctx, c);
            }
        }
        ctx.label("more than one page of positions");
        registry(&w, t, ctx, "with many positions")?;
    }
    let n = w.cfg.min_ops + t.below(w.cfg.max_ops - w.cfg.min_ops + 1);
    let mut last: Option<Call> = None;
    for i in 0..n {
        t.begin();
        let c = w.gen(t, last.as_ref());
        let mut stop = false;
        if let Some(c) = c {
            let mut done = false;
            let fl = step(&mut w, ctx, &c, &mut |_, _, s| {
                let about = matches!(s.c.op, Op::Remove { .. } | Op::Burn { .. } | Op::TransferPos { .. } | Op::TransferNft { .. } | Op::SendNft { .. });
                if about && s.refused() {
                    return fail("refused", s.show());
                }
                done = s.both_ok();
                if done && about {
                    holes += 1;
                    ctx_label_hole(s);
                }
                Ok(Flow::Go)
            })?;
            stop = fl == Flow::Stop;
            if !stop && done && t.chance(1, 3) {
                registry(&w, t, ctx, &format!("after {} {:?}", c.sender, c.op))?;
            }
            last = Some(c);
        }
        t.end();
        if stop {
            return Ok(());
        }
    }
    registry(&w, t, ctx, "at the end")?;
    if holes > 1 {
        ctx.nontrivial = true;
        ctx.label("several removals or transfers");
    }
    Ok(())
}
fn ctx_label_hole(_s: &Seen) {}

// ---- C11 ---------------------------------------------------------------------------------------

const RICH: &str = "orai1rich";

pub fn c11(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.pools = if t.chance(1, 6) { 9 } else { 4 };
    cfg.fresh_hops = t.chance(3, 4);
    cfg.w[K_ROUTE] = 12;
    cfg.w[K_SWAP] = 18;
    cfg.bad_inputs = t.bool();
    let mut w = World::new(t, ctx, cfg);
    for tk in TOKENS {
        w.chain.mint(RICH, tk, 1 << 126);
    }
    history(&mut w, t, ctx, &mut |w, ctx, s| {
        // (the chain before this call) quote, then really do it on a copy, funded amply
        let ch0 = s.before;
        match &s.c.op {
            Op::Swap { key, down, amount, by_in, limit } => {
                ctx.evals += 1;
                let q: Result<QuoteResult, _> = ch0.query(&QueryMsg::Quote { pool_key: pk(key), x_to_y: *down, amount: TokenAmount::new(*amount), by_amount_in: *by_in, sqrt_price_limit: SqrtPrice::new(*limit) });
                let mut ch = ch0.clone();
                let (ti, to) = if *down { (&key.x, &key.y) } else { (&key.y, &key.x) };
                let funds = if is_cw20(ti) { vec![] } else { vec![(ti.clone(), 1u128 << 126)] };
                let r = ch.exec(RICH, &funds, &to_msg(&s.c.op));
                match (&q, &r) {
                    (Ok(q), Ok(_)) => {
                        let paid = ch0.balance(RICH, ti) - ch.balance(RICH, ti);
                        let got = ch.balance(RICH, to) - ch0.balance(RICH, to);
                        check!(paid == q.amount_in.get() && got == q.amount_out.get(), "quote-amounts", "quote of {:?} said in {} out {}, execution took {paid} and gave {got}", s.c.op, q.amount_in.get(), q.amount_out.get());
                        let p: Pool = viol("pool-query", ch.query(&QueryMsg::Pool { token_0: key.x.clone(), token_1: key.y.clone(), fee_tier: ft(key.fee, key.s) }), "pool")?;
                        check!(p.sqrt_price == q.target_sqrt_price, "quote-price", "quote of {:?} said price {}, execution ended at {}", s.c.op, q.target_sqrt_price.get(), p.sqrt_price.get());
                        // the crossed ticks it lists are the ones that changed, in their new state
                        let mut listed: BTreeMap<i32, Tick> = BTreeMap::new();
                        for tk in &q.ticks {
                            listed.insert(tk.index, tk.clone());
                        }
                        check!(listed.len() == q.ticks.len(), "quote-ticks", "quote of {:?} lists a tick twice", s.c.op);
                        for i in s.old.ticks(key) {
                            let a: Tick = viol("tick-query", ch0.query(&QueryMsg::Tick { key: pk(key), index: i }), "tick")?;
                            let b: Tick = viol("tick-query", ch.query(&QueryMsg::Tick { key: pk(key), index: i }), "tick")?;
                            match listed.get(&i) {
                                Some(l) => check!(*l == b, "quote-ticks", "quote of {:?}: tick {i} quoted {l:?}, stored {b:?}", s.c.op),
                                None => check!(a == b, "quote-ticks", "quote of {:?} does not list tick {i}, which execution changed", s.c.op),
                            }
                        }
                        ctx.label("quote = execution");
                        if !q.ticks.is_empty() {
                            ctx.nontrivial = true;
                            ctx.label("quote crossing ticks");
                            if q.ticks.len() > 50 {
                                ctx.label("quote crossing over 50 ticks");
                            }
                        }
                    }
                    (Err(_), Err(_)) => ctx.label("both refused"),
                    (Ok(q), Err(e)) => {
                        // cannot be for lack of funds unless the amount is beyond what exists
                        if q.amount_in.get() <= 1 << 126 && !matches!(e, ExecErr::Sub(_)) {
                            return fail("quote-only", format!("quote of {:?} succeeds (in {} out {}), execution fails: {}", s.c.op, q.amount_in.get(), q.amount_out.get(), e.text()));
                        }
                    }
                    (Err(e), Ok(_)) => return fail("exec-only", format!("quote of {:?} fails ({}), execution succeeds", s.c.op, e.text())),
                }
            }
            Op::Route { amount, hops, .. } => {
                let set: BTreeSet<&Key> = hops.iter().map(|h| &h.0).collect();
                if set.len() != hops.len() {
                    return Ok(Flow::Go); // a quote is priced on the current state: no pool twice
                }
                ctx.evals += 1;
                let q: Result<TokenAmount, _> = ch0.query(&QueryMsg::QuoteRoute { amount_in: TokenAmount::new(*amount), swaps: hop_msgs(hops) });
                let mut ch = ch0.clone();
                let mut funds: Vec<(String, u128)> = vec![];
                for (k, d) in hops {
                    let ti = if *d { &k.x } else { &k.y };
                    if !is_cw20(ti) && !funds.iter().any(|f| f.0 == *ti) {
                        funds.push((ti.clone(), 1 << 126));
                    }
                }
                let r = ch.exec(RICH, &funds, &to_msg(&Op::Route { amount: *amount, expected: 0, slippage: 0, hops: hops.clone() }));
                match (&q, &r) {
                    (Ok(q), Ok(_)) => {
                        let chained = hops.windows(2).all(|h| (if h[0].1 { &h[0].0.y } else { &h[0].0.x }) == (if h[1].1 { &h[1].0.x } else { &h[1].0.y }));
                        if chained {
                            let first = if hops[0].1 { &hops[0].0.x } else { &hops[0].0.y };
                            let l = hops.last().unwrap();
                            let last = if l.1 { &l.0.y } else { &l.0.x };
                            let spent = if first == last { *amount as i128 } else { 0 };
                            let d = ch.balance(RICH, last) as i128 - ch0.balance(RICH, last) as i128;
                            check!(d == q.get() as i128 - spent, "route-quote", "route quote of {amount} over {hops:?} said {}, execution changed the {last} balance by {d}", q.get());
                        }
                        ctx.label("route quote = execution");
                        if hops.len() > 1 {
                            ctx.nontrivial = true;
                            ctx.label("multi-hop quote");
                            if hops.len() > 4 {
                                ctx.label("route of five or more pools");
                            }
                        }
                        // the quoted amount is exactly what may be demanded as minimum
                        let mut c2 = ch0.clone();
                        let demand = Op::Route { amount: *amount, expected: q.get(), slippage: 0, hops: hops.clone() };
                        check!(c2.exec(RICH, &funds, &to_msg(&demand)).is_ok(), "route-quote-min", "route over {hops:?} refuses to guarantee the quoted {}", q.get());
                    }
                    (Err(_), Err(_)) => ctx.label("both refused"),
                    (Ok(_), Err(ExecErr::Sub(_))) => {}
                    (Ok(q), Err(e)) => return fail("quote-only", format!("route quote of {amount} over {hops:?} succeeds ({}), execution fails: {}", q.get(), e.text())),
                    (Err(e), Ok(_)) => return fail("exec-only", format!("route quote of {amount} over {hops:?} fails ({}), execution succeeds", e.text())),
                }
            }
            _ => {}
        }
        Ok(Flow::Go)
    })?;
    Ok(())
}

// ---- C12 ---------------------------------------------------------------------------------------

pub fn c12(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.bad_inputs = true;
    cfg.pools = 3;
    cfg.w[K_ROUTE] = 10;
    cfg.w[K_CREATE] = 16;
    let mut w = World::new(t, ctx, cfg);
    history(&mut w, t, ctx, &mut |w, ctx, s| {
        let pool_before = |k: &Key| -> Result<Pool, ExecErr> { s.before.query(&QueryMsg::Pool { token_0: k.x.clone(), token_1: k.y.clone(), fee_tier: ft(k.fee, k.s) }) };
        match &s.c.op {
            Op::Swap { key, down, amount, by_in, limit } => {
                if s.refused() {
                    return fail("swap-within-limits-refused", s.show());
                }
                if s.res.is_err() {
                    if s.pred.why == "price limit reached" {
                        ctx.label("swap refused at its price limit");
                    }
                    return Ok(Flow::Go);
                }
                let p0 = viol("pool-query", pool_before(key), "pool before")?.sqrt_price.get();
                let p1 = viol("pool-query", w.q_pool(key), "pool after")?.sqrt_price.get();
                check!(if *down { p1 <= p0 && p1 >= *limit } else { p1 >= p0 && p1 <= *limit }, "price-limit", "{}: price went {p0} -> {p1}, limit {limit}", s.show());
                check!(if *down { *limit < p0 } else { *limit > p0 }, "wrong-side-limit", "{}: limit {limit} on the wrong side of {p0}", s.show());
                let (ti, to) = if *down { (&key.x, &key.y) } else { (&key.y, &key.x) };
                let paid = -s.moved(w, &s.c.sender, ti);
                let got = s.moved(w, &s.c.sender, to);
                if *by_in {
                    check!(paid == *amount as i128, "exact-in", "{}: paid {paid}, asked to spend {amount}", s.show());
                } else {
                    check!(got == *amount as i128, "exact-out", "{}: received {got}, asked for {amount}", s.show());
                }
                check!(got > 0, "no-gain", "{}: received nothing", s.show());
                ctx.label("swap kept its limits");
                if p1 == *limit {
                    ctx.label("swap ending exactly at its limit");
                    ctx.nontrivial = true;
                }
            }
            Op::Route { amount, expected, slippage, hops } => {
                if s.refused() {
                    return fail("route-within-limits-refused", s.show());
                }
                if s.res.is_err() {
                    if s.pred.why == "below the minimum" {
                        ctx.label("route refused below its minimum");
                        ctx.nontrivial = true;
                    }
                    return Ok(Flow::Go);
                }
                if hops.is_empty() {
                    return Ok(Flow::Go);
                }
                let chained = hops.windows(2).all(|h| (if h[0].1 { &h[0].0.y } else { &h[0].0.x }) == (if h[1].1 { &h[1].0.x } else { &h[1].0.y }));
                let first = if hops[0].1 { &hops[0].0.x } else { &hops[0].0.y };
                let l = hops.last().unwrap();
                let last = if l.1 { &l.0.y } else { &l.0.x };
                if chained {
                    let same = first == last;
                    let got = s.moved(w, &s.c.sender, last) + if same { *amount as i128 } else { 0 };
                    let tol = ONE.saturating_sub(*slippage);
                    check!(*slippage <= ONE && w_ge(got, *expected, tol), "route-minimum", "{}: received {got}, expected {expected} with slippage {slippage}", s.show());
                    if !same {
                        let paid = -s.moved(w, &s.c.sender, first);
                        check!(paid == *amount as i128, "route-input", "{}: paid {paid}, asked to spend {amount}", s.show());
                        for tk in TOKENS {
                            if tk != first && tk != last {
                                let d = s.moved(w, &s.c.sender, tk);
                                check!(d == 0, "route-middle", "{}: balance in {tk} changed by {d}", s.show());
                            }
                        }
                    }
                    ctx.label("route kept its minimum");
                    if *expected > 0 {
                        ctx.nontrivial = true;
                    }
                }
            }
            Op::Create { key, lo, hi, liq, smin, smax, .. } => {
                if s.refused() {
                    return fail("create-within-limits-refused", s.show());
                }
                if s.res.is_err() {
                    if s.pred.why == "price outside the caller's bounds" {
                        ctx.label("position refused outside its price bounds");
                    }
                    return Ok(Flow::Go);
                }
                let p0 = viol("pool-query", pool_before(key), "pool before")?.sqrt_price.get();
                check!(*smin <= p0 && p0 <= *smax, "slippage-bounds", "{}: pool price {p0} is outside {smin}..{smax}", s.show());
                let n = w.q_count(&s.c.sender);
                let p = viol("position-query", w.q_pos(&s.c.sender, n.wrapping_sub(1)), "new position")?;
                check!(key_of(&p.pool_key) == *key && p.lower_tick_index == *lo && p.upper_tick_index == *hi && p.liquidity.get() == *liq, "position-as-asked", "{}: position opened is {}..{} liquidity {}", s.show(), p.lower_tick_index, p.upper_tick_index, p.liquidity.get());
                if p0 == *smin || p0 == *smax {
                    ctx.label("position opened exactly at a bound");
                    ctx.nontrivial = true;
                }
            }
            _ => {}
        }
        Ok(Flow::Go)
    })?;
    Ok(())
}
/// got >= expected * keep / ONE, exactly
fn w_ge(got: i128, expected: u128, keep: u64) -> bool {
    got >= 0 && crate::big::w(got as u128) * crate::big::w(ONE as u128) >= crate::big::w(expected) * crate::big::w(keep as u128)
}

// ---- C15 ---------------------------------------------------------------------------------------

pub fn c15(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.w = [0; NK];
    cfg.w[K_POOL] = 16;
    cfg.w[K_TIER] = 10;
    cfg.w[K_CREATE] = 5;
    cfg.w[K_SWAP] = 4;
    cfg.w[K_ADMIN] = 1;
    cfg.w[K_TIME] = 2;
    cfg.min_ops = 6;
    cfg.max_ops = 40;
    cfg.pools = 2;
    cfg.bad_inputs = true;
    let mut w = World::new(t, ctx, cfg);
    let n = w.cfg.min_ops + t.below(w.cfg.max_ops - w.cfg.min_ops + 1);
    let mut last: Option<Call> = None;
    for _ in 0..n {
        t.begin();
        let mut fl = Flow::Go;
        if let Some(c) = w.gen(t, last.as_ref()) {
            let mut hit = false;
            fl = step(&mut w, ctx, &c, &mut |w, ctx, s| {
                let about = matches!(s.c.op, Op::CreatePool { .. } | Op::AddTier { .. } | Op::RemoveTier { .. });
                if about && s.overaccepted() {
                    return fail("accepted", s.show());
                }
                if s.refused() && (about || matches!(s.c.op, Op::Create { .. })) {
                    // pools of a removed tier stay usable
                    return fail("refused", s.show());
                }
                if !s.both_ok() {
                    if about && s.res.is_err() {
                        ctx.label(match s.pred.why {
                            "tier not registered" => "refused: tier not registered",
                            "pool exists" => "refused: pool exists",
                            "price does not match tick" => "refused: price and tick disagree",
                            "same token" => "refused: same token",
                            "tier exists" => "refused: tier exists",
                            "invalid tier" => "refused: invalid tier",
                            "no such tier" => "refused: no such tier",
                            "bad tick" => "refused: bad tick",
                            _ => "refused: other",
                        });
                    }
                    return Ok(Flow::Go);
                }
                if let Op::CreatePool { t0, t1, fee, s: sp, price, tick } = &s.c.op {
                    hit = true;
                    ctx.label("pool created");
                    let p: Pool = viol("pool-query", w.chain.query(&QueryMsg::Pool { token_0: t0.clone(), token_1: t1.clone(), fee_tier: ft(*fee, *sp) }), "new pool")?;
                    let ms = w.ms();
                    check!(
                        p.liquidity.get() == 0 && p.sqrt_price.get() == *price && p.current_tick_index == *tick && p.fee_growth_global_x.get() == 0 && p.fee_growth_global_y.get() == 0
                            && p.fee_protocol_token_x.get() == 0 && p.fee_protocol_token_y.get() == 0 && p.start_timestamp == ms && p.last_timestamp == ms && p.fee_receiver == w.model.admin,
                        "new-pool", "{}: new pool is {p:?}", s.show()
                    );
                }
                if about {
                    hit = true;
                }
                Ok(Flow::Go)
            })?;
            if fl == Flow::Go && hit {
                pool_registry(&w, t, ctx, &format!("after {} {:?}", c.sender, c.op))?;
            }
            last = Some(c);
        }
        t.end();
        if fl == Flow::Stop {
            return Ok(());
        }
    }
    pool_registry(&w, t, ctx, "at the end")?;
    if w.model.pools.len() > 2 {
        ctx.nontrivial = true;
        ctx.label("three or more pools");
    }
    Ok(())
}
fn pool_registry(w: &World, t: &mut Tape, ctx: &mut Ctx, what: &str) -> Res {
    let m = &w.model;
    ctx.evals += 1;
    let ts: Vec<FeeTier> = viol("query", w.chain.query(&QueryMsg::FeeTiers {}), what)?;
    let mut got: Vec<(u64, u16)> = ts.iter().map(|x| (x.fee.get(), x.tick_spacing)).collect();
    let mut want = m.tiers.clone();
    got.sort();
    want.sort();
    check!(got == want, "tiers", "{what}: fee tiers {got:?}, must be {want:?}");
    let probe = (fee_choice(t), spacing_choice(t));
    for (f, s) in m.tiers.iter().chain([&probe]) {
        let e: bool = viol("query", w.chain.query(&QueryMsg::FeeTierExist { fee_tier: ft(*f, *s) }), what)?;
        check!(e == m.tiers.contains(&(*f, *s)), "tier-exist", "{what}: FeeTierExist({f}, {s}) answers {e}");
    }
    // listing, walked page by page
    let lim = match t.below(3) {
        0 => None,
        _ => Some(1 + t.below(4) as u32),
    };
    let mut seen: Vec<Key> = vec![];
    let mut after: Option<PoolKey> = None;
    loop {
        let r: Vec<PoolWithPoolKey> = viol("query", w.chain.query(&QueryMsg::Pools { limit: lim, start_after: after.clone() }), what)?;
        if let Some(l) = lim {
            check!(r.len() <= l as usize, "pools", "{what}: Pools limit {l} returned {}", r.len());
        }
        if r.is_empty() || seen.len() > m.pools.len() + 5 {
            break;
        }
        after = r.last().map(|p| p.pool_key.clone());
        for p in r {
            let k = key_of(&p.pool_key);
            let one = viol("query", w.q_pool(&k), what)?;
            check!(one == p.pool, "pools", "{what}: Pools lists {k:?} with a state that differs from Pool");
            seen.push(k);
        }
    }
    let uniq: BTreeSet<Key> = seen.iter().cloned().collect();
    let want: BTreeSet<Key> = m.pools.keys().cloned().collect();
    check!(uniq.len() == seen.len() && uniq == want, "pools", "{what}: Pools (limit {lim:?}) lists {seen:?}, existing are {want:?}");
    for i in 0..TOKENS.len() {
        for j in 0..TOKENS.len() {
            if i == j {
                continue;
            }
            let (x, y) = if TOKENS[i] < TOKENS[j] { (TOKENS[i], TOKENS[j]) } else { (TOKENS[j], TOKENS[i]) };
            let r: Vec<PoolWithPoolKey> = viol("query", w.chain.query(&QueryMsg::PoolsForPair { token_0: TOKENS[i].into(), token_1: TOKENS[j].into() }), what)?;
            let got: BTreeSet<Key> = r.iter().map(|p| key_of(&p.pool_key)).collect();
            check!(got.len() == r.len(), "pair", "{what}: PoolsForPair({}, {}) lists a pool twice", TOKENS[i], TOKENS[j]);
            let must: BTreeSet<Key> = m.pools.keys().filter(|k| k.x == x && k.y == y && m.tiers.contains(&(k.fee, k.s))).cloned().collect();
            let may: BTreeSet<Key> = m.pools.keys().filter(|k| k.x == x && k.y == y).cloned().collect();
            check!(must.is_subset(&got) && got.is_subset(&may), "pair", "{what}: PoolsForPair({}, {}) gives {got:?}, must contain {must:?}", TOKENS[i], TOKENS[j]);
            for p in &r {
                let one = viol("query", w.q_pool(&key_of(&p.pool_key)), what)?;
                check!(one == p.pool, "pair", "{what}: PoolsForPair lists {:?} with a state that differs from Pool", p.pool_key);
            }
        }
    }
    for (k, mp) in &m.pools {
        let a: Pool = viol("query", w.chain.query(&QueryMsg::Pool { token_0: k.x.clone(), token_1: k.y.clone(), fee_tier: ft(k.fee, k.s) }), what)?;
        let b: Pool = viol("query", w.chain.query(&QueryMsg::Pool { token_0: k.y.clone(), token_1: k.x.clone(), fee_tier: ft(k.fee, k.s) }), what)?;
        check!(a == b, "pool-order", "{what}: Pool answers differ with the order of the tokens of {k:?}");
        check!(a.start_timestamp == mp.start, "pool-start", "{what}: start of {k:?} is {}, created at {}", a.start_timestamp, mp.start);
    }
    let k = Key { x: TOKENS[0].into(), y: TOKENS[1].into(), fee: probe.0, s: probe.1 };
    if !m.pools.contains_key(&k) {
        check!(w.q_pool(&k).is_err(), "phantom-pool", "{what}: pool {k:?} was never created but can be read");
    }
    Ok(())
}

// ---- C21 ---------------------------------------------------------------------------------------

fn snapshot(ch: &Chain, m: &Model, k: &Key) -> Result<Vec<Vec<u8>>, Violation> {
    let mut v = vec![];
    v.push(viol("query", ch.query_raw(&QueryMsg::Pool { token_0: k.x.clone(), token_1: k.y.clone(), fee_tier: ft(k.fee, k.s) }), "pool")?);
    let mt = max_tick(k.s as i32);
    v.push(viol("query", ch.query_raw(&QueryMsg::TickMap { pool_key: pk(k), lower_tick_index: -mt, upper_tick_index: mt, x_to_y: false }), "tickmap")?);
    for i in m.ticks(k) {
        v.push(ch.query_raw(&QueryMsg::Tick { key: pk(k), index: i }).unwrap_or_default());
    }
    Ok(v)
}

pub fn c21(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.pools = 1;
    cfg.w[K_ROUTE] = 6;
    cfg.w[K_BURN] = 1;
    cfg.w[K_WITHDRAW] = 3;
    cfg.w[K_ADMIN] = 2;
    cfg.native_variants = t.bool();
    let mut w = World::new(t, ctx, cfg);
    let mut ledger: BTreeMap<(Key, String), i128> = BTreeMap::new();
    if let Some(k) = &w.comb {
        // what the positions of the set-up paid
        for tk in [&k.x, &k.y] {
            ledger.insert((k.clone(), tk.clone()), w.chain.balance(CONTRACT, tk) as i128);
        }
    }
    // more pools, each sharing the pair, one token or the tier with an existing one
    for _ in 0..1 + t.below(3) {
        t.begin();
        let base = w.pick_pool(t);
        if let Some(b) = base {
            let (mut x, mut y, mut fee, mut s) = (b.x.clone(), b.y.clone(), b.fee, b.s);
            match t.below(8) {
                0 => fee = fee_choice(t),
                7 => {
                    let n = b.s ^ (1 << t.below(7));
                    s = if n == 0 || n > 100 { spacing_choice(t) } else { n };
                }
                5 | 6 => fee = (b.fee ^ (1 << t.below(40))).min(ONE - 1),
                1 => s = spacing_choice(t),
                2 => x = t.pick(&TOKENS).to_string(),
                3 => y = t.pick(&TOKENS).to_string(),
                _ => {
                    // same spacing, neighbouring fee
                    fee = (b.fee + 1) % (ONE - 1);
                }
            }
            let tick = tick_choice(t, s as i32);
            let tick = if t.bool() { (w.model.pools[&b].tick / s as i32) * s as i32 } else { tick };
            let price = price_in_tick(t, tick, s as i32);
            let adm = w.model.admin.clone();
            if !w.model.tiers.contains(&(fee, s)) {
                w.call_quiet(ctx, Call { sender: adm, funds: vec![], op: Op::AddTier { fee, s } });
            }
            let (kx, ky) = if x < y { (x.clone(), y.clone()) } else { (y.clone(), x.clone()) };
            w.call_quiet(ctx, Call { sender: USERS[0].into(), funds: vec![], op: Op::CreatePool { t0: x, t1: y, fee, s, price, tick } });
            let k2 = Key { x: kx, y: ky, fee, s };
            if w.model.pools.contains_key(&k2) && t.bool() {
                // positions on ticks that both grids have
                let (a, c) = (b.s as i32, s as i32);
                let l = (1..).map(|i| a * i).find(|m| m % c == 0).unwrap();
                let base = tick / l * l;
                for k in [&b, &k2] {
                    let (lo, hi) = (base - l * t.below(2) as i32, base + l * (1 + t.below(2) as i32));
                    let liq = 1 + t.log_u128(40);
                    let mut call = Call { sender: w.user(t), funds: vec![], op: Op::Create { key: k.clone(), lo, hi, liq, smin: 0, smax: u128::MAX, mint: false } };
                    call.funds = w.needs(&call).into_iter().filter(|(tok, n)| !is_cw20(tok) && *n > 0).collect();
                    let old = w.chain.bal.clone();
                    w.call_quiet(ctx, call);
                    for tk in [&k.x, &k.y] {
                        let had = old.get(&(CONTRACT.to_string(), tk.clone())).copied().unwrap_or(0);
                        *ledger.entry((k.clone(), tk.clone())).or_insert(0) += w.chain.balance(CONTRACT, tk) as i128 - had as i128;
                    }
                    ctx.label("both pools use the same ticks");
                }
            }
        }
        t.end();
    }
    let mut others = 0;
    let fl = history(&mut w, t, ctx, &mut |w, ctx, s| {
        if s.res.is_err() || s.pred.ok.is_none() {
            return Ok(Flow::Go);
        }
        let note = &s.pred.ok.as_ref().unwrap().2;
        for k in s.old.pools.keys() {
            if note.touched.contains(k) {
                continue;
            }
            ctx.evals += 1;
            let a = snapshot(s.before, s.old, k)?;
            let b = snapshot(&w.chain, s.old, k)?;
            check!(a == b, "other-pool-changed", "{}: changed the state of pool {k:?}, which it does not name", s.show());
            if !note.touched.is_empty() {
                others += 1;
            }
        }
        // token ledger per pool
        if note.swaps.is_empty() {
            if note.touched.len() == 1 {
                let k = note.touched.iter().next().unwrap();
                for tk in [&k.x, &k.y] {
                    *ledger.entry((k.clone(), tk.to_string())).or_insert(0) += s.moved(w, CONTRACT, tk);
                }
            }
        } else {
            if !in_step(w, s) {
                return Ok(Flow::Stop);
            }
            for (k, down, o) in &note.swaps {
                let (ti, to) = if *down { (&k.x, &k.y) } else { (&k.y, &k.x) };
                *ledger.entry((k.clone(), ti.clone())).or_insert(0) += o.a_in as i128;
                *ledger.entry((k.clone(), to.clone())).or_insert(0) -= o.a_out as i128;
            }
        }
        for (k, v) in &ledger {
            check!(*v >= 0, "pool-overdrawn", "{}: pool {:?} has paid out {} more {} than was ever paid into it", s.show(), k.0, -v, k.1);
        }
        Ok(Flow::Go)
    })?;
    if others > 0 && w.model.pools.len() > 1 {
        ctx.nontrivial = true;
        ctx.label("operation beside other pools");
    }
    if fl == Flow::Stop {
        return Ok(());
    }
    // everybody leaves: still no pool pays more than it received
    let mut ch = w.chain.clone();
    for o in accounts() {
        loop {
            let n: u32 = ch.query(&QueryMsg::UserPositionAmount { owner: Addr::unchecked(&o) }).unwrap_or(0);
            if n == 0 {
                break;
            }
            let i = t.below(n as u64) as u32;
            let p: Position = match ch.query(&QueryMsg::Position { owner_id: Addr::unchecked(&o), index: i }) {
                Ok(p) => p,
                Err(_) => return Ok(()),
            };
            let k = key_of(&p.pool_key);
            let b0 = (ch.balance(CONTRACT, &k.x), ch.balance(CONTRACT, &k.y));
            if ch.exec(&o, &[], &to_msg(&Op::Remove { index: i })).is_err() {
                return Ok(()); // C01's business
            }
            for (tk, b) in [(&k.x, b0.0), (&k.y, b0.1)] {
                let e = ledger.entry((k.clone(), tk.clone())).or_insert(0);
                *e += ch.balance(CONTRACT, tk) as i128 - b as i128;
                check!(*e >= 0, "pool-overdrawn", "closing positions: pool {k:?} pays out {} more {tk} than was ever paid into it", -*e);
            }
        }
    }
    for k in w.pools() {
        let p: Pool = viol("query", ch.query(&QueryMsg::Pool { token_0: k.x.clone(), token_1: k.y.clone(), fee_tier: ft(k.fee, k.s) }), "pool")?;
        for (tk, a) in [(&k.x, p.fee_protocol_token_x.get()), (&k.y, p.fee_protocol_token_y.get())] {
            let e = ledger.get(&(k.clone(), tk.clone())).copied().unwrap_or(0);
            check!(e >= 0 && e as u128 >= a, "pool-overdrawn", "after all positions closed pool {k:?} holds {e} {tk}, owes {a} of protocol fees");
        }
    }
    Ok(())
}

// ---- C22 ---------------------------------------------------------------------------------------

/// time the pool spent inside lo..hi, from what the contract stores (modulo 2^64)
fn inside_now(w: &World, k: &Key, lo: i32, hi: i32) -> Result<u64, Violation> {
    let p = viol("query", w.q_pool(k), "pool")?;
    let a = viol("tick-query", w.q_tick(k, lo), "lower tick")?;
    let b = viol("tick-query", w.q_tick(k, hi), "upper tick")?;
    let total = w.ms().wrapping_sub(p.start_timestamp);
    let cur = p.current_tick_index;
    let below = if cur >= lo { a.seconds_outside } else { total.wrapping_sub(a.seconds_outside) };
    let above = if cur < hi { b.seconds_outside } else { total.wrapping_sub(b.seconds_outside) };
    Ok(total.wrapping_sub(below).wrapping_sub(above))
}

pub fn c22(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.w[K_TIME] = 14;
    cfg.w[K_SWAP] = 26;
    cfg.w[K_ROUTE] = 6;
    cfg.w[K_TPOS] = 1;
    cfg.w[K_TNFT] = 1;
    cfg.w[K_BURN] = 1;
    cfg.max_ops = 30;
    let mut w = World::new(t, ctx, cfg);
    let mut base: BTreeMap<u64, u64> = BTreeMap::new();
    let mut crossed = 0;
    let mut last: BTreeMap<Key, u64> = BTreeMap::new();
    let mut outside: BTreeMap<(Key, i32), u64> = BTreeMap::new();
    history(&mut w, t, ctx, &mut |w, ctx, s| {
        if !s.both_ok() {
            return Ok(Flow::Go);
        }
        if !in_step(w, s) {
            return Ok(Flow::Stop);
        }
        let note = &s.pred.ok.as_ref().unwrap().2;
        for (k, _, o) in &note.swaps {
            crossed += o.crossed.len();
            for i in &o.crossed {
                let e = outside.get_mut(&(k.clone(), *i)).expect("crossed tick is known");
                *e = (w.ms() - w.model.pools[k].start).wrapping_sub(*e);
                last.insert(k.clone(), w.ms());
            }
        }
        if matches!(s.c.op, Op::Create { .. } | Op::Remove { .. } | Op::Burn { .. } | Op::Claim { .. }) {
            for k in &note.touched {
                last.insert(k.clone(), w.ms());
            }
        }
        for k in w.pools() {
            let p = viol("query", w.q_pool(&k), "pool")?;
            check!(p.start_timestamp == w.model.pools[&k].start, "start", "{}: start of {k:?} is {}, created at {}", s.show(), p.start_timestamp, w.model.pools[&k].start);
            check!(p.last_timestamp >= p.start_timestamp && p.last_timestamp <= w.ms(), "last", "{}: last timestamp {} outside {}..{}", s.show(), p.last_timestamp, p.start_timestamp, w.ms());
            let want = *last.entry(k.clone()).or_insert(w.model.pools[&k].start);
            check!(p.last_timestamp == want, "last-update", "{}: the last update of {k:?} was at {want}, the pool says {}", s.show(), p.last_timestamp);
            let on = w.model.ticks(&k);
            outside.retain(|(q, i), _| *q != k || on.contains(i));
            for i in on {
                let total = w.ms() - w.model.pools[&k].start;
                let new = if i <= w.model.pools[&k].tick { total } else { 0 };
                let fresh = !outside.contains_key(&(k.clone(), i));
                let want = *outside.entry((k.clone(), i)).or_insert(new);
                let got = viol("tick-query", w.q_tick(&k, i), "tick")?.seconds_outside;
                ctx.evals += 1;
                if fresh && new > 0 {
                    ctx.label("tick initialised below the price, some time after the pool's start");
                }
                check!(got == want, "outside", "{}: the time outside of tick {i} of {k:?} is {want}, the tick says {got}", s.show());
            }
        }
        let mut spent = false;
        for v in w.model.pos.values() {
            for p in v {
                ctx.evals += 1;
                let now = inside_now(w, &p.key, p.lo, p.hi)?;
                let b = *base.entry(p.uid).or_insert_with(|| now.wrapping_sub(p.inside));
                let got = now.wrapping_sub(b);
                check!(got == p.inside, "time-inside", "{}: the stored ticks say the pool spent {got} ms in {}..{} since that position was opened, it spent {}", s.show(), p.lo, p.hi, p.inside);
                if p.inside > 0 {
                    spent = true;
                }
            }
        }
        for (o, v) in &w.model.pos {
            for (i, p) in v.iter().enumerate() {
                let q = viol("query", w.q_pos(o, i as u32), "position")?;
                check!(q.last_block_number == p.block, "block", "{}: position {i} of {o} was opened in block {}, it says {}", s.show(), p.block, q.last_block_number);
            }
        }
        if spent && crossed > 0 {
            ctx.nontrivial = true;
            ctx.label("time inside measured across tick crossings");
        }
        Ok(Flow::Go)
    })?;
    Ok(())
}

// ---- C23 ---------------------------------------------------------------------------------------

pub fn c23(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.pools = 3;
    cfg.w = [3; NK];
    cfg.w[K_CREATE] = 14;
    cfg.w[K_SWAP] = 22;
    cfg.w[K_REMOVE] = 8;
    cfg.w[K_CLAIM] = 6;
    cfg.w[K_ROUTE] = 6;
    cfg.w[K_TIER] = 2;
    cfg.w[K_POOL] = 2;
    cfg.max_ops = 36;
    let mut w = World::new(t, ctx, cfg);
    let mut done = 0;
    history(&mut w, t, ctx, &mut |w, ctx, s| {
        if s.refused() {
            return fail("valid-request-refused", s.show());
        }
        if s.both_ok() && !matches!(s.c.op, Op::Advance { .. }) {
            done += 1;
            ctx.label(match &s.c.op {
                Op::Swap { .. } => "swap",
                Op::Route { .. } => "route",
                Op::Create { .. } => "open",
                Op::Remove { .. } => "close",
                Op::Claim { .. } => "claim",
                Op::Burn { .. } => "burn",
                Op::Withdraw { .. } => "withdraw",
                Op::TransferPos { .. } | Op::TransferNft { .. } | Op::SendNft { .. } => "transfer",
                Op::Approve { .. } | Op::Revoke { .. } | Op::ApproveAll { .. } | Op::RevokeAll { .. } => "approval",
                _ => "administration",
            });
            // what was just changed can be read
            for k in &s.pred.ok.as_ref().unwrap().2.touched {
                ctx.evals += 1;
                viol("query-refused", w.q_pool(k), "pool query")?;
                let mt = max_tick(k.s as i32);
                let _: Vec<(u16, u64)> = viol("query-refused", w.chain.query(&QueryMsg::TickMap { pool_key: pk(k), lower_tick_index: -mt, upper_tick_index: mt, x_to_y: true }), "tickmap query")?;
            }
        }
        Ok(Flow::Go)
    })?;
    if done >= 6 {
        ctx.nontrivial = true;
    }
    Ok(())
}
