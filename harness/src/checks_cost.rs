//! C30: what strangers do does not make a call more expensive.
use crate::big::fit;
use crate::chain::*;
use crate::check;
use crate::drive::*;
use crate::hist::*;
use crate::model::*;
use crate::report::{Ctx, Res};
use crate::tape::{Rng, Tape};
use cosmwasm_std::{Addr, Binary};
use decimal::Decimal;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::{ExecuteMsg, QueryMsg};
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;

fn crowd_name(i: usize) -> String {
    format!("orai1crowd{}", i % 7)
}

/// strangers open positions on ticks that exist already, approve each other, register pools of their own
/// tokens and give positions to the users
fn crowd(c: &mut Chain, m: &Model, n: usize, r: &mut Rng, gifts: &[String]) -> (usize, usize, usize) {
    let spots: Vec<(Key, i32, i32)> = m.pos.values().flatten().map(|p| (p.key.clone(), p.lo, p.hi)).collect();
    let (mut opened, mut pools, mut given) = (0, 0, 0);
    let mut have = [0u32; 7];
    for i in 0..n {
        let who = crowd_name(i);
        if !spots.is_empty() {
            let (k, lo, hi) = &spots[(r.next() % spots.len() as u64) as usize];
            let mut wd = Wide::default();
            let (x, y) = m.amounts(k, *lo, *hi, 1, true, &mut wd);
            if let (Some(x), Some(y)) = (fit(x), fit(y)) {
                let mut funds = vec![];
                for (tok, a) in [(&k.x, x), (&k.y, y)] {
                    if a < 1 << 80 {
                        c.mint(&who, tok, a);
                        if !is_cw20(tok) && a > 0 {
                            funds.push((tok.clone(), a));
                        }
                    }
                }
                let msg = ExecuteMsg::CreatePosition {
                    pool_key: pk(k),
                    lower_tick: *lo,
                    upper_tick: *hi,
                    liquidity_delta: Liquidity::new(1),
                    slippage_limit_lower: SqrtPrice::new(0),
                    slippage_limit_upper: SqrtPrice::new(u128::MAX),
                };
                let snap = (c.store.clone(), c.bal.clone());
                if c.exec_kept_with(&who, &funds, &msg).is_ok() {
                    opened += 1;
                    have[i % 7] += 1;
                } else {
                    (c.store, c.bal) = snap;
                }
            }
        }
        let next = Addr::unchecked(crowd_name(i + 1));
        let _ = c.exec_kept(&who, &ExecuteMsg::ApproveAll { operator: next.clone(), expires: None });
        if !gifts.is_empty() {
            let g = if r.next() % 4 == 0 { &gifts[(r.next() % gifts.len() as u64) as usize] } else { &gifts[0] };
            let _ = c.exec_kept(&who, &ExecuteMsg::ApproveAll { operator: Addr::unchecked(g), expires: None });
            if have[i % 7] > 0 {
                if i % 5 == 0 {
                    let id = Binary(token_id(&who, 0));
                    let _ = c.exec_kept(&who, &ExecuteMsg::Approve { spender: Addr::unchecked(g), token_id: id, expires: None });
                } else if i % 3 != 0 && c.exec_kept(&who, &ExecuteMsg::TransferPosition { index: have[i % 7] - 1, receiver: g.clone() }).is_ok() {
                    have[i % 7] -= 1;
                    given += 1;
                }
            }
        }
        if i % 3 == 2 {
            if let Some(k) = m.pools.keys().next().filter(|k| m.tiers.contains(&(k.fee, k.s))) {
                let msg = ExecuteMsg::CreatePool {
                    token_0: format!("crowd{i}"),
                    token_1: if i % 2 == 0 { k.x.clone() } else { format!("other{i}") },
                    fee_tier: ft(k.fee, k.s),
                    init_sqrt_price: SqrtPrice::new(price_of(0)),
                    init_tick: 0,
                };
                if c.exec_kept(&who, &msg).is_ok() {
                    pools += 1;
                }
            }
        }
    }
    (opened, pools, given)
}

fn dearer(a: (u64, u64), b: (u64, u64)) -> bool {
    b.0 > a.0 + a.0 / 4 + 14 || b.1 > 2 * a.1 + 6000
}

pub fn c30(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.w[K_ROUTE] = 4;
    cfg.w[K_REMOVE] = 6;
    cfg.w[K_CLAIM] = 5;
    cfg.w[K_TPOS] = 4;
    cfg.w[K_TNFT] = 3;
    cfg.w[K_SNFT] = 2;
    cfg.w[K_BURN] = 3;
    cfg.w[K_APPROVE] = 4;
    cfg.w[K_REVOKE] = 2;
    cfg.w[K_APPALL] = 3;
    cfg.w[K_REVALL] = 2;
    cfg.w[K_ADMIN] = 3;
    cfg.w[K_POOL] = 2;
    cfg.pools = 2;
    cfg.max_ops = 14;
    let mut r = Rng::new(t.raw64());
    let mut w = World::new(t, ctx, cfg);
    let mut left = 3;
    history(&mut w, t, ctx, &mut |w, ctx, s| {
        if matches!(s.c.op, Op::Advance { .. }) || s.res.is_err() || left == 0 || r.next() % 3 != 0 {
            return Ok(Flow::Go);
        }
        left -= 1;
        let msg = to_msg(&s.c.op);
        let mut quiet = s.before.clone();
        let qa = quiet.exec(&s.c.sender, &s.c.funds, &msg);
        let a = last_cost();
        let mut busy = s.before.clone();
        // mostly to the one whose list the call touches
        let mut gifts: Vec<String> = s.old.pos.keys().cloned().collect();
        let first = match &s.c.op {
            Op::TransferPos { to, .. } | Op::TransferNft { to, .. } | Op::SendNft { to, .. } if r.next() % 2 == 0 => to.clone(),
            Op::TransferNft { id, .. } | Op::SendNft { id, .. } | Op::Burn { id } | Op::Approve { id, .. } | Op::Revoke { id, .. } if id.len() > 4 => String::from_utf8_lossy(&id[..id.len() - 4]).into_owned(),
            _ => s.c.sender.clone(),
        };
        gifts.insert(0, first);
        let made = crowd(&mut busy, s.old, 90, &mut r, &gifts);
        let before = busy.clone();
        let qb = busy.exec(&s.c.sender, &s.c.funds, &msg);
        let b = last_cost();
        if qa.is_ok() && qb.is_ok() {
            ctx.log(|| format!("cost of {:?}: {a:?} quiet, {b:?} with {made:?} strangers' positions, pools and gifts", s.c.op));
            check!(!dearer(a, b), "call-cost", "{}: {} storage operations and {} bytes, but {} and {} once strangers have opened {} positions and {} pools and given away {} positions", s.show(), a.0, a.1, b.0, b.1, made.0, made.1, made.2);
            ctx.evals += 1;
            if s.old.pos.get(&s.c.sender).map_or(false, |p| !p.is_empty()) && made.0 >= 20 {
                ctx.nontrivial = true;
            }
            ctx.label("call compared");
        }
        // queries
        let mut qs: Vec<QueryMsg> = vec![
            QueryMsg::Admin {},
            QueryMsg::ProtocolFee {},
            QueryMsg::FeeTiers {},
            QueryMsg::Pools { limit: Some(1), start_after: None },
            QueryMsg::AllTokens { start_after: None, limit: Some(1) },
        ];
        for (o, ps) in &s.old.pos {
            let oa = Addr::unchecked(o);
            qs.push(QueryMsg::UserPositionAmount { owner: oa.clone() });
            if !ps.is_empty() {
                let id = Binary(token_id(o, 0));
                qs.push(QueryMsg::Position { owner_id: oa.clone(), index: 0 });
                qs.push(QueryMsg::Positions { owner_id: oa.clone(), limit: Some(1), offset: Some(0) });
                qs.push(QueryMsg::Tokens { owner: oa.clone(), start_after: None, limit: Some(1) });
                qs.push(QueryMsg::OwnerOf { token_id: id.clone(), include_expired: None });
                qs.push(QueryMsg::NftInfo { token_id: id.clone() });
                qs.push(QueryMsg::AllNftInfo { token_id: id, include_expired: None });
                qs.push(QueryMsg::ApprovedForAll { owner: oa, include_expired: None, start_after: None, limit: None });
            }
        }
        for (k, p) in s.old.pools.iter().take(2) {
            qs.push(QueryMsg::Pool { token_0: k.x.clone(), token_1: k.y.clone(), fee_tier: ft(k.fee, k.s) });
            qs.push(QueryMsg::PoolsForPair { token_0: k.x.clone(), token_1: k.y.clone() });
            let ts = s.old.ticks(k);
            if let (Some(lo), Some(hi)) = (ts.first(), ts.last()) {
                qs.push(QueryMsg::Tick { key: pk(k), index: *lo });
                qs.push(QueryMsg::IsTickInitialized { key: pk(k), index: *hi });
                qs.push(QueryMsg::LiquidityTicks { pool_key: pk(k), tick_indexes: vec![*lo, *hi] });
                qs.push(QueryMsg::LiquidityTicksAmount { pool_key: pk(k), lower_tick: *lo, upper_tick: *hi });
                qs.push(QueryMsg::TickMap { pool_key: pk(k), lower_tick_index: *lo, upper_tick_index: *hi, x_to_y: true });
            }
            for down in [true, false] {
                qs.push(QueryMsg::Quote {
                    pool_key: pk(k),
                    x_to_y: down,
                    amount: TokenAmount::new(1000),
                    by_amount_in: true,
                    sqrt_price_limit: SqrtPrice::new(if down { MIN_PRICE } else { MAX_PRICE }),
                });
            }
        }
        for q in qs {
            let ra = s.before.query_raw(&q).is_ok();
            let a = last_cost();
            let rb = before.query_raw(&q).is_ok();
            let b = last_cost();
            if ra && rb {
                check!(!dearer(a, b), "query-cost", "{q:?}: {} storage operations and {} bytes, but {} and {} once strangers have opened {} positions and {} pools and given away {} positions", a.0, a.1, b.0, b.1, made.0, made.1, made.2);
                ctx.evals += 1;
            }
        }
        Ok(Flow::Go)
    })?;
    Ok(())
}
