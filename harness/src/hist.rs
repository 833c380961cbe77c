//! Histories: a chain running the contract next to the reference model, the operations that can
//! be sent to it, their generator, and the model's prediction of each.
use crate::chain::*;
use crate::model::*;
use crate::report::Ctx;
use crate::tape::Tape;
use cosmwasm_std::{Addr, Binary, Timestamp};
use cw20::Expiration;
use decimal::Decimal;
use oraiswap_v3::interface::SwapHop;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::{ExecuteMsg, NftExtensionMsg, QueryMsg};
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::{FeeTier, Pool, PoolKey, Position, Tick};
use std::collections::{BTreeMap, BTreeSet};

pub const TOKENS: [&str; 5] = ["ibc/atom", "orai", "orai1tka", "orai1tkb", "usdc"];
pub const USERS: [&str; 4] = ["orai1alice", "orai1bob", "orai1bobx", "orai1carol"];
pub const NFTPOOL: &str = "orai1nftpool";
pub const START_BAL: u128 = 1 << 122;

pub fn ft(fee: u64, s: u16) -> FeeTier {
    FeeTier { fee: Percentage::new(fee), tick_spacing: s }
}
pub fn pk(k: &Key) -> PoolKey {
    PoolKey { token_x: k.x.clone(), token_y: k.y.clone(), fee_tier: ft(k.fee, k.s) }
}
pub fn key_of(p: &PoolKey) -> Key {
    Key { x: p.token_x.clone(), y: p.token_y.clone(), fee: p.fee_tier.fee.get(), s: p.fee_tier.tick_spacing }
}
pub fn token_id(owner: &str, index: u32) -> Vec<u8> {
    let mut v = owner.as_bytes().to_vec();
    v.extend_from_slice(&index.to_be_bytes());
    v
}
pub fn cw_exp(e: Exp) -> Expiration {
    match e {
        Exp::Never => Expiration::Never {},
        Exp::Height(h) => Expiration::AtHeight(h),
        Exp::Time(t) => Expiration::AtTime(Timestamp::from_nanos(t)),
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    AddTier { fee: u64, s: u16 },
    RemoveTier { fee: u64, s: u16 },
    CreatePool { t0: String, t1: String, fee: u64, s: u16, price: u128, tick: i32 },
    Create { key: Key, lo: i32, hi: i32, liq: u128, smin: u128, smax: u128, mint: bool },
    Swap { key: Key, down: bool, amount: u128, by_in: bool, limit: u128 },
    Route { amount: u128, expected: u128, slippage: u64, hops: Vec<(Key, bool)> },
    Remove { index: u32 },
    Claim { index: u32 },
    TransferPos { index: u32, to: String },
    TransferNft { id: Vec<u8>, to: String },
    SendNft { id: Vec<u8>, to: String, msg: Option<Vec<u8>> },
    Burn { id: Vec<u8> },
    Approve { id: Vec<u8>, spender: String, exp: Option<Exp> },
    Revoke { id: Vec<u8>, spender: String },
    ApproveAll { op: String, exp: Option<Exp> },
    RevokeAll { op: String },
    Withdraw { key: Key },
    SetProtocolFee { fee: u64 },
    SetReceiver { key: Key, to: String },
    SetAdmin { to: String },
    Advance { nanos: u64, blocks: u64 },
}
#[derive(Clone, Debug)]
pub struct Call {
    pub sender: String,
    pub funds: Vec<(String, u128)>,
    pub op: Op,
}

pub fn to_msg(op: &Op) -> ExecuteMsg {
    let a = |s: &String| Addr::unchecked(s.clone());
    let b = |v: &Vec<u8>| Binary(v.clone());
    match op {
        Op::AddTier { fee, s } => ExecuteMsg::AddFeeTier { fee_tier: ft(*fee, *s) },
        Op::RemoveTier { fee, s } => ExecuteMsg::RemoveFeeTier { fee_tier: ft(*fee, *s) },
        Op::CreatePool { t0, t1, fee, s, price, tick } => ExecuteMsg::CreatePool {
            token_0: t0.clone(),
            token_1: t1.clone(),
            fee_tier: ft(*fee, *s),
            init_sqrt_price: SqrtPrice::new(*price),
            init_tick: *tick,
        },
        Op::Create { key, lo, hi, liq, smin, smax, mint } => {
            if *mint {
                ExecuteMsg::Mint {
                    extension: NftExtensionMsg {
                        pool_key: pk(key),
                        lower_tick: *lo,
                        upper_tick: *hi,
                        liquidity_delta: Liquidity::new(*liq),
                        slippage_limit_lower: SqrtPrice::new(*smin),
                        slippage_limit_upper: SqrtPrice::new(*smax),
                    },
                }
            } else {
                ExecuteMsg::CreatePosition {
                    pool_key: pk(key),
                    lower_tick: *lo,
                    upper_tick: *hi,
                    liquidity_delta: Liquidity::new(*liq),
                    slippage_limit_lower: SqrtPrice::new(*smin),
                    slippage_limit_upper: SqrtPrice::new(*smax),
                }
            }
        }
        Op::Swap { key, down, amount, by_in, limit } => ExecuteMsg::Swap {
            pool_key: pk(key),
            x_to_y: *down,
            amount: TokenAmount::new(*amount),
            by_amount_in: *by_in,
            sqrt_price_limit: SqrtPrice::new(*limit),
        },
        Op::Route { amount, expected, slippage, hops } => ExecuteMsg::SwapRoute {
            amount_in: TokenAmount::new(*amount),
            expected_amount_out: TokenAmount::new(*expected),
            slippage: Percentage::new(*slippage),
            swaps: hop_msgs(hops),
        },
        Op::Remove { index } => ExecuteMsg::RemovePosition { index: *index },
        Op::Claim { index } => ExecuteMsg::ClaimFee { index: *index },
        Op::TransferPos { index, to } => ExecuteMsg::TransferPosition { index: *index, receiver: to.clone() },
        Op::TransferNft { id, to } => ExecuteMsg::TransferNft { recipient: a(to), token_id: b(id) },
        Op::SendNft { id, to, msg } => ExecuteMsg::SendNft { contract: a(to), token_id: b(id), msg: msg.clone().map(Binary) },
        Op::Burn { id } => ExecuteMsg::Burn { token_id: b(id) },
        Op::Approve { id, spender, exp } => ExecuteMsg::Approve { spender: a(spender), token_id: b(id), expires: exp.map(cw_exp) },
        Op::Revoke { id, spender } => ExecuteMsg::Revoke { spender: a(spender), token_id: b(id) },
        Op::ApproveAll { op, exp } => ExecuteMsg::ApproveAll { operator: a(op), expires: exp.map(cw_exp) },
        Op::RevokeAll { op } => ExecuteMsg::RevokeAll { operator: a(op) },
        Op::Withdraw { key } => ExecuteMsg::WithdrawProtocolFee { pool_key: pk(key) },
        Op::SetProtocolFee { fee } => ExecuteMsg::ChangeProtocolFee { protocol_fee: Percentage::new(*fee) },
        Op::SetReceiver { key, to } => ExecuteMsg::ChangeFeeReceiver { pool_key: pk(key), fee_receiver: a(to) },
        Op::SetAdmin { to } => ExecuteMsg::ChangeAdmin { new_admin: a(to) },
        Op::Advance { .. } => unreachable!(),
    }
}
pub fn hop_msgs(h: &[(Key, bool)]) -> Vec<SwapHop> {
    h.iter().map(|(k, d)| SwapHop { pool_key: pk(k), x_to_y: *d }).collect()
}

pub type Bal = BTreeMap<(String, String), u128>;

/// Extra facts about a predicted success.
#[derive(Clone, Debug, Default)]
pub struct Note {
    pub swaps: Vec<(Key, bool, SwapOut)>,
    pub paid: Option<(u128, u128)>,
    pub fees: Option<(u128, u128)>,
    pub hook: Option<(String, String, Vec<u8>, Option<Vec<u8>>)>,
    pub touched: BTreeSet<Key>,
}
pub struct Pred {
    pub ok: Option<(Model, Bal, Note)>,
    /// integer-width limits touched: the contract is allowed to refuse
    pub wide: bool,
    pub why: &'static str,
}
impl Pred {
    fn no(why: &'static str) -> Pred {
        Pred { ok: None, wide: false, why }
    }
    fn now(why: &'static str, wide: bool) -> Pred {
        Pred { ok: None, wide, why }
    }
}

pub struct World {
    pub chain: Chain,
    pub model: Model,
    pub cfg: Cfg,
    pub lbits: u32,
    pub skew: bool,
    pub home: i32,
    pub comb: Option<Key>,
}

#[derive(Clone)]
pub struct Cfg {
    pub w: [u32; NK],
    pub min_ops: u64,
    pub max_ops: u64,
    pub pools: u64,
    pub native_variants: bool,
    /// now and then coins are attached which the call does not take
    pub stray_coins: bool,
    /// routes go on to pools they have not visited
    pub fresh_hops: bool,
    pub bad_inputs: bool,
    pub fee_zero_only: bool,
    pub pfee_max: bool,
}
pub const NK: usize = 19;
// op-kind indices for Cfg::w
pub const K_CREATE: usize = 0;
pub const K_SWAP: usize = 1;
pub const K_ROUTE: usize = 2;
pub const K_REMOVE: usize = 3;
pub const K_CLAIM: usize = 4;
pub const K_TPOS: usize = 5;
pub const K_TNFT: usize = 6;
pub const K_SNFT: usize = 7;
pub const K_BURN: usize = 8;
pub const K_APPROVE: usize = 9;
pub const K_REVOKE: usize = 10;
pub const K_APPALL: usize = 11;
pub const K_REVALL: usize = 12;
pub const K_WITHDRAW: usize = 13;
pub const K_ADMIN: usize = 14;
pub const K_TIER: usize = 15;
pub const K_POOL: usize = 16;
pub const K_TIME: usize = 17;
pub const K_ROUND: usize = 18; // a swap straight back

impl Cfg {
    pub fn trading() -> Cfg {
        let mut w = [0; NK];
        w[K_CREATE] = 10;
        w[K_SWAP] = 22;
        w[K_ROUND] = 4;
        w[K_REMOVE] = 5;
        w[K_CLAIM] = 5;
        w[K_WITHDRAW] = 1;
        w[K_TIME] = 2;
        w[K_ADMIN] = 1;
        Cfg { w, min_ops: 4, max_ops: 26, pools: 2, native_variants: false, stray_coins: false, fresh_hops: false, bad_inputs: false, fee_zero_only: false, pfee_max: false }
    }
}

pub fn fee_choice(t: &mut Tape) -> u64 {
    match t.below(12) {
        0 => 0,
        1 => 6_000_000_000,
        2 => 100_000_000,       // 0.01 %
        3 => 500_000_000,       // 0.05 %
        4 => 3_000_000_000,     // 0.3 %
        5 => 10_000_000_000,    // 1 %
        6 => 1,
        7 => ONE - 10u64.pow(t.below(10) as u32),
        8 => 500_000_000_000,
        9 => t.below(ONE),
        _ => t.below(20_000_000_000),
    }
}
pub fn spacing_choice(t: &mut Tape) -> u16 {
    match t.below(4) {
        0 => 1,
        1 => *t.pick(&[2, 10, 60, 100, 64, 5]),
        2 => 10,
        _ => t.range_i(1, 100) as u16,
    }
}
pub fn pfee_choice(t: &mut Tape) -> u64 {
    match t.below(8) {
        0 => 0,
        1 => 10_000_000_000,
        2 => 250_000_000_000,
        3 => ONE,
        5 => 1 + t.below(20),
        6 => ONE - 1 - t.below(20),
        4 => t.below(ONE + 1),
        _ => t.below(100_000_000_000),
    }
}
/// a tick (multiple of s), biased to interesting places
pub fn tick_choice(t: &mut Tape, s: i32) -> i32 {
    let m = max_tick(s);
    let k = m / s;
    let v = match t.below(8) {
        0 => t.range_i(-8, 8),
        1 => t.range_i(-400, 400),
        2 => t.range_i(-(k as i64), k as i64),
        3 => -(k as i64) + t.range_i(0, 600),
        4 => k as i64 - t.range_i(0, 600),
        5 => {
            // near a chunk boundary of the bitmap
            let chunks = (2 * k as i64) / 64;
            let c = t.range_i(0, chunks);
            c * 64 - (MAX_TICK / s) as i64 + t.range_i(-2, 2)
        }
        6 => -(k as i64) / 2 + t.range_i(-300, 300),
        _ => t.range_i(-(k as i64) / 8, k as i64 / 8),
    };
    (v.clamp(-(k as i64), k as i64) as i32) * s
}
/// a price inside [P(t), P(t+s))
pub fn price_in_tick(t: &mut Tape, tick: i32, s: i32) -> u128 {
    if tick + s > MAX_TICK {
        return price_of(max_tick(s));
    }
    let (a, b) = (price_of(tick), price_of(tick + s));
    match t.below(4) {
        0 => a,
        1 => b - 1,
        2 => a + 1 + t.u128_below((b - a - 1).min(1000)),
        _ => a + t.u128_below(b - a),
    }
}

impl World {
    pub fn new(t: &mut Tape, ctx: &mut Ctx, cfg: Cfg) -> World {
        t.begin();
        let pfee = if cfg.pfee_max { *t.pick(&[250_000_000_000u64, ONE, 10_000_000_000, 0]) } else { pfee_choice(t) };
        let mut chain = Chain::new(pfee);
        for u in USERS.iter().chain([ADMIN].iter()) {
            for tk in TOKENS {
                chain.mint(u, tk, START_BAL);
            }
        }
        let mut model = Model { admin: ADMIN.into(), pfee, ..Default::default() };
        model.pos = BTreeMap::new();
        let lbits = 1 + t.below(105) as u32;
        let skew = t.chance(1, 3);
        let n = 1 + t.below(cfg.pools);
        let mut wd = World { chain, model, cfg, lbits, skew, home: 0, comb: None };
        if wd.cfg.pools > 1 && wd.cfg.w[K_ROUTE] > 0 && t.chance(3, 5) {
            wd.setup_linked(t, ctx);
        } else {
            for _ in 0..n {
                wd.setup_pool(t, ctx);
            }
        }
        if wd.cfg.w[K_SWAP] > 0 && t.chance(1, 50) {
            wd.setup_comb(t, ctx);
        }
        t.end();
        wd
    }
    pub fn setup_pool(&mut self, t: &mut Tape, ctx: &mut Ctx) {
        let s = spacing_choice(t);
        let fee = if self.cfg.fee_zero_only { 0 } else { fee_choice(t) };
        let i = t.below(TOKENS.len() as u64) as usize;
        let j = (i + 1 + t.below(TOKENS.len() as u64 - 1) as usize) % TOKENS.len();
        let tick = tick_choice(t, s as i32);
        let price = price_in_tick(t, tick, s as i32);
        self.home = tick;
        if !self.model.tiers.contains(&(fee, s)) {
            self.call_quiet(ctx, Call { sender: self.model.admin.clone(), funds: vec![], op: Op::AddTier { fee, s } });
        }
        self.call_quiet(ctx, Call {
            sender: USERS[0].into(),
            funds: vec![],
            op: Op::CreatePool { t0: TOKENS[i].into(), t1: TOKENS[j].into(), fee, s, price, tick },
        });
    }
    /// pools that share tokens and have depth around their prices, so that routes can pass them
    pub fn setup_linked(&mut self, t: &mut Tape, ctx: &mut Ctx) {
        let n = 2 + t.below((self.cfg.pools - 1).max(1));
        self.lbits = 24 + t.below(70) as u32;
        self.skew = false;
        let mut i = t.below(TOKENS.len() as u64) as usize;
        for _ in 0..n {
            let s = spacing_choice(t);
            let si = s as i32;
            let fee = match t.below(4) {
                _ if self.cfg.fee_zero_only => 0,
                0 => 0,
                1 => 3_000_000_000,
                2 => 500_000_000,
                _ => t.below(50_000_000_000),
            };
            let j = (i + 1 + t.below(TOKENS.len() as u64 - 1) as usize) % TOKENS.len();
            let wide = t.range_i(-20000, 20000) as i32;
            let near = t.range_i(-300, 300) as i32;
            let tick = if t.chance(1, 3) { wide } else { near } / si * si;
            let price = price_in_tick(t, tick, si);
            self.home = tick;
            if !self.model.tiers.contains(&(fee, s)) {
                self.call_quiet(ctx, Call { sender: self.model.admin.clone(), funds: vec![], op: Op::AddTier { fee, s } });
            }
            self.call_quiet(ctx, Call { sender: USERS[0].into(), funds: vec![], op: Op::CreatePool { t0: TOKENS[i].into(), t1: TOKENS[j].into(), fee, s, price, tick } });
            let (x, y) = if TOKENS[i] < TOKENS[j] { (TOKENS[i], TOKENS[j]) } else { (TOKENS[j], TOKENS[i]) };
            let key = Key { x: x.into(), y: y.into(), fee, s };
            if self.model.pools.contains_key(&key) && !t.chance(1, 6) {
                let lo = (tick - (1 + t.below(400) as i32) * si).max(-max_tick(si));
                let hi = (tick + (1 + t.below(400) as i32) * si).min(max_tick(si));
                let liq = self.liq_choice(t);
                let mut c = Call { sender: self.user(t), funds: vec![], op: Op::Create { key, lo, hi, liq, smin: 0, smax: u128::MAX, mint: false } };
                for (tok, a) in self.needs(&c) {
                    if !is_cw20(&tok) && a > 0 {
                        c.funds.push((tok, a));
                    }
                }
                self.call_quiet(ctx, c);
            }
            // mostly a chain of tokens, sometimes a fork or a parallel pool
            if !t.chance(1, 4) {
                i = j;
            }
        }
    }
    /// dozens of initialised ticks side by side around the price, so that one swap can cross many
    pub fn setup_comb(&mut self, t: &mut Tape, ctx: &mut Ctx) {
        let Some(k) = self.pick_pool(t) else { return };
        let s = k.s as i32;
        let gap = if t.chance(1, 3) { 2 + t.below(4) as i32 } else { 1 } * s;
        let most = if t.chance(1, 4) { 250 } else { 90 };
        let n = 10 + t.below(most) as i32;
        let from = self.model.pools[&k].tick - *t.pick(&[0, n / 2, n]) * gap;
        let bits = 14 + t.below(70) as u32;
        let liq = t.bits_u128(bits);
        let mine = self.user(t);
        for i in 0..n {
            let lo = from + i * gap;
            let hi = lo + gap * if i % 5 == 4 { 3 } else { 1 };
            if lo < -max_tick(s) || hi > max_tick(s) {
                continue;
            }
            let sender = if i % 3 == 0 { USERS[i as usize % USERS.len()].to_string() } else { mine.clone() };
            let mut c = Call { sender, funds: vec![], op: Op::Create { key: k.clone(), lo, hi, liq: liq + (i % 7) as u128, smin: 0, smax: u128::MAX, mint: false } };
            for (tok, a) in self.needs(&c) {
                if !is_cw20(&tok) && a > 0 {
                    c.funds.push((tok, a));
                }
            }
            self.call_quiet(ctx, c);
        }
        self.comb = Some(k);
        ctx.label("dozens of ticks side by side");
    }
    /// setup call: the model follows only if the contract accepts
    pub fn call_quiet(&mut self, ctx: &mut Ctx, c: Call) -> bool {
        let p = self.predict(&c);
        let r = self.exec(&c);
        ctx.log(|| format!("{} {:?} -> {}", c.sender, c.op, if r.is_ok() { "ok".into() } else { r.as_ref().err().unwrap().text() }));
        if let (Ok(_), Some((m, _, _))) = (&r, p.ok) {
            self.model = m;
            true
        } else {
            false
        }
    }
    pub fn exec(&mut self, c: &Call) -> Result<ExecOk, ExecErr> {
        if let Op::Advance { nanos, blocks } = &c.op {
            self.chain.nanos += nanos;
            self.chain.height += blocks;
            return Ok(ExecOk { transfers: vec![], attrs: vec![], nft_hooks: vec![] });
        }
        self.chain.exec(&c.sender, &c.funds, &to_msg(&c.op))
    }
    pub fn ms(&self) -> u64 {
        self.chain.nanos / 1_000_000
    }

    // ---- prediction ------------------------------------------------------------------------

    fn can_send(&self, who: &str, owner: &str, p: &MPos) -> bool {
        let (h, n) = (self.chain.height, self.chain.nanos);
        who == owner
            || p.approvals.iter().any(|(s, e)| s == who && !e.expired(h, n))
            || self.model.ops.get(&(owner.to_string(), who.to_string())).map_or(false, |e| !e.expired(h, n))
    }
    fn can_approve(&self, who: &str, owner: &str) -> bool {
        let (h, n) = (self.chain.height, self.chain.nanos);
        who == owner || self.model.ops.get(&(owner.to_string(), who.to_string())).map_or(false, |e| !e.expired(h, n))
    }
    /// resolves a token id to (owner, index) of a live position
    pub fn resolve(&self, id: &[u8]) -> Option<(String, usize)> {
        if id.len() < 4 {
            return None;
        }
        let owner = String::from_utf8(id[..id.len() - 4].to_vec()).ok()?;
        let i = u32::from_be_bytes(id[id.len() - 4..].try_into().unwrap()) as usize;
        let v = self.model.pos.get(&owner)?;
        if i < v.len() {
            Some((owner, i))
        } else {
            None
        }
    }
    fn mv(b: &mut Bal, from: &str, to: &str, tok: &str, amt: u128) -> bool {
        if amt == 0 {
            return true;
        }
        let f = b.entry((from.to_string(), tok.to_string())).or_insert(0);
        if *f < amt {
            return false;
        }
        *f -= amt;
        *b.entry((to.to_string(), tok.to_string())).or_insert(0) += amt;
        true
    }
    /// takes `amt` of `tok` from the sender; native tokens must be covered by `avail`
    fn take(b: &mut Bal, avail: &mut BTreeMap<String, u128>, who: &str, tok: &str, amt: u128) -> Result<(), &'static str> {
        if !is_cw20(tok) && amt > 0 {
            let a = avail.entry(tok.to_string()).or_insert(0);
            if *a < amt {
                return Err("attached funds insufficient");
            }
            *a -= amt;
        }
        if !Self::mv(b, who, CONTRACT, tok, amt) {
            return Err("balance insufficient");
        }
        Ok(())
    }
    fn drop_pos(m: &mut Model, owner: &str, i: usize) -> MPos {
        m.pos.get_mut(owner).unwrap().swap_remove(i)
    }
    fn payout(&self, owner: &str, i: usize, remove: bool) -> (bool, u128, u128, u128, u128, Key) {
        // (wide, fee_x, fee_y, x, y)
        let p = &self.model.pos[owner][i];
        let mut wd = Wide::default();
        let fx = Model::fee_owed(p.acc[0], p.liq);
        let fy = Model::fee_owed(p.acc[1], p.liq);
        let (mut x, mut y) = (fx, fy);
        if remove {
            let (ax, ay) = self.model.amounts(&p.key, p.lo, p.hi, p.liq, false, &mut wd);
            x = x + ax;
            y = y + ay;
        }
        let wide = wd.0 || x.bits() > 128 || y.bits() > 128;
        (wide, fx.low_u128(), fy.low_u128(), x.low_u128(), y.low_u128(), p.key.clone())
    }

    pub fn predict(&self, c: &Call) -> Pred {
        let mut m = self.model.clone();
        let mut b = self.chain.bal.clone();
        let mut note = Note::default();
        let who = c.sender.as_str();
        let mut avail: BTreeMap<String, u128> = BTreeMap::new();
        for (d, a) in &c.funds {
            if self.chain.balance(who, d) < *a {
                return Pred::no("cannot attach funds");
            }
            *avail.entry(d.clone()).or_insert(0) += a;
        }
        let mut wide = false;
        let admin = who == m.admin;
        match &c.op {
            Op::AddTier { fee, s } => {
                if !admin {
                    return Pred::no("not admin");
                }
                if *s == 0 || *s > 100 || *fee >= ONE {
                    return Pred::no("invalid tier");
                }
                if m.tiers.contains(&(*fee, *s)) {
                    return Pred::no("tier exists");
                }
                m.tiers.push((*fee, *s));
            }
            Op::RemoveTier { fee, s } => {
                if !admin {
                    return Pred::no("not admin");
                }
                match m.tiers.iter().position(|x| *x == (*fee, *s)) {
                    Some(i) => {
                        m.tiers.remove(i);
                    }
                    None => return Pred::no("no such tier"),
                }
            }
            Op::CreatePool { t0, t1, fee, s, price, tick } => {
                if !m.tiers.contains(&(*fee, *s)) {
                    return Pred::no("tier not registered");
                }
                if t0 == t1 {
                    return Pred::no("same token");
                }
                let si = *s as i32;
                if tick % si != 0 || *tick > max_tick(si) || *tick < -max_tick(si) {
                    return Pred::no("bad tick");
                }
                let ok = if tick + si > MAX_TICK {
                    *price == price_of(max_tick(si))
                } else {
                    *price >= price_of(*tick) && *price < price_of(tick + si)
                };
                if !ok {
                    return Pred::no("price does not match tick");
                }
                let (x, y) = if t0 < t1 { (t0, t1) } else { (t1, t0) };
                let k = Key { x: x.clone(), y: y.clone(), fee: *fee, s: *s };
                if m.pools.contains_key(&k) {
                    return Pred::no("pool exists");
                }
                let start = self.ms();
                m.pools.insert(k.clone(), MPool { price: *price, tick: *tick, growth: [0; 2], proto: [0; 2], receiver: m.admin.clone(), start });
                note.touched.insert(k);
            }
            Op::Create { key, lo, hi, liq, smin, smax, .. } => {
                if *liq == 0 {
                    return Pred::no("zero liquidity");
                }
                let Some(p) = m.pools.get(key) else { return Pred::no("no pool") };
                let s = key.s as i32;
                for tk in [lo, hi] {
                    if tk % s != 0 || *tk > max_tick(s) || *tk < -max_tick(s) {
                        return Pred::no("bad tick");
                    }
                }
                if lo >= hi {
                    return Pred::no("empty range");
                }
                if p.price < *smin || p.price > *smax {
                    return Pred::no("price outside the caller's bounds");
                }
                let mg = Model::max_gross(key.s);
                for tk in [*lo, *hi] {
                    let g = m.tick_info(key, tk).0;
                    if g.checked_add(*liq).map_or(true, |v| v >= mg) {
                        return Pred::no("too much liquidity on a tick");
                    }
                }
                let mut wd = Wide::default();
                let (x, y) = m.amounts(key, *lo, *hi, *liq, true, &mut wd);
                wide |= wd.0;
                if x.bits() > 128 || y.bits() > 128 {
                    return Pred::now("amount too large", true);
                }
                let (x, y) = (x.low_u128(), y.low_u128());
                for (tok, a) in [(&key.x, x), (&key.y, y)] {
                    if let Err(e) = Self::take(&mut b, &mut avail, who, tok, a) {
                        return Pred::now(e, wide);
                    }
                }
                note.paid = Some((x, y));
                note.touched.insert(key.clone());
                m.next_uid += 1;
                let uid = m.next_uid;
                m.pos.entry(who.to_string()).or_default().push(MPos {
                    uid, key: key.clone(), lo: *lo, hi: *hi, liq: *liq, acc: [0; 2], wrapped: [false; 2], block: self.chain.height,
                    approvals: vec![], inside: 0, paid: [x, y],
                });
            }
            Op::Swap { key, down, amount, by_in, limit } => {
                let o = match m.swap(key, *down, *amount, *by_in, *limit) {
                    Ok(o) => o,
                    Err((e, wd)) => {
                        return Pred::now(
                            match e {
                                SErr::NoPool => "no pool",
                                SErr::AmountZero => "zero amount",
                                SErr::WrongLimit => "limit on the wrong side",
                                SErr::PriceLimit => "price limit reached",
                                SErr::TickLimit => "end of the price range",
                                SErr::NoGain => "nothing to receive",
                                SErr::Other => "arithmetic",
                            },
                            wd,
                        )
                    }
                };
                wide |= o.wide;
                let (ti, to) = if *down { (&key.x, &key.y) } else { (&key.y, &key.x) };
                if let Err(e) = Self::take(&mut b, &mut avail, who, ti, o.a_in) {
                    return Pred::now(e, wide);
                }
                if !Self::mv(&mut b, CONTRACT, who, to, o.a_out) {
                    return Pred::now("contract cannot pay", wide);
                }
                m.apply_swap(key, *down, &o);
                note.touched.insert(key.clone());
                note.swaps.push((key.clone(), *down, o));
            }
            Op::Route { amount, expected, slippage, hops } => {
                let mut a = *amount;
                for (key, down) in hops {
                    let lim = if *down { MIN_PRICE } else { MAX_PRICE };
                    let o = match m.swap(key, *down, a, true, lim) {
                        Ok(o) => o,
                        Err((_, wd)) => return Pred::now("a hop fails", wide | wd),
                    };
                    wide |= o.wide;
                    let (ti, to) = if *down { (&key.x, &key.y) } else { (&key.y, &key.x) };
                    if let Err(e) = Self::take(&mut b, &mut avail, who, ti, o.a_in) {
                        return Pred::now(e, wide);
                    }
                    if !Self::mv(&mut b, CONTRACT, who, to, o.a_out) {
                        return Pred::now("contract cannot pay", wide);
                    }
                    m.apply_swap(key, *down, &o);
                    a = o.a_out;
                    note.touched.insert(key.clone());
                    note.swaps.push((key.clone(), *down, o));
                }
                if *slippage > ONE {
                    return Pred::now("slippage above 100%", wide);
                }
                let min = crate::big::div_up(crate::big::w(*expected) * crate::big::w((ONE - slippage) as u128), crate::big::w(ONE as u128));
                if crate::big::w(a) < min {
                    return Pred::now("below the minimum", wide);
                }
            }
            Op::Remove { index } => {
                let i = *index as usize;
                if i >= m.pos.get(who).map_or(0, |v| v.len()) {
                    return Pred::no("no such position");
                }
                return self.predict_remove(m, b, note, who, i);
            }
            Op::Burn { id } => {
                let Some((owner, i)) = self.resolve(id) else { return Pred::no("no such token") };
                if !self.can_send(who, &owner, &self.model.pos[&owner][i]) {
                    return Pred::no("not authorised");
                }
                return self.predict_remove(m, b, note, &owner, i);
            }
            Op::Claim { index } => {
                let i = *index as usize;
                if i >= m.pos.get(who).map_or(0, |v| v.len()) {
                    return Pred::no("no such position");
                }
                let (wd, fx, fy, x, y, key) = self.payout(who, i, false);
                wide |= wd;
                if !Self::mv(&mut b, CONTRACT, who, &key.x, x) || !Self::mv(&mut b, CONTRACT, who, &key.y, y) {
                    return Pred::now("contract cannot pay", wide);
                }
                let p = &mut m.pos.get_mut(who).unwrap()[i];
                p.acc = [0; 2];
                p.wrapped = [false; 2];
                note.paid = Some((x, y));
                note.fees = Some((fx, fy));
                note.touched.insert(key);
            }
            Op::TransferPos { index, to } => {
                let i = *index as usize;
                if i >= m.pos.get(who).map_or(0, |v| v.len()) {
                    return Pred::no("no such position");
                }
                if !is_cw20(to) {
                    return Pred::no("invalid address");
                }
                let mut p = Self::drop_pos(&mut m, who, i);
                p.approvals.clear();
                m.pos.entry(to.clone()).or_default().push(p);
            }
            Op::TransferNft { id, to } | Op::SendNft { id, to, .. } => {
                let Some((owner, i)) = self.resolve(id) else { return Pred::no("no such token") };
                if !self.can_send(who, &owner, &self.model.pos[&owner][i]) {
                    return Pred::no("not authorised");
                }
                let mut p = Self::drop_pos(&mut m, &owner, i);
                p.approvals.clear();
                m.pos.entry(to.clone()).or_default().push(p);
                if let Op::SendNft { msg, .. } = &c.op {
                    note.hook = Some((to.clone(), who.to_string(), id.clone(), msg.clone()));
                }
            }
            Op::Approve { id, spender, exp } => {
                let Some((owner, i)) = self.resolve(id) else { return Pred::no("no such token") };
                if !self.can_approve(who, &owner) {
                    return Pred::no("not authorised");
                }
                let e = exp.unwrap_or(Exp::Never);
                if e.expired(self.chain.height, self.chain.nanos) {
                    return Pred::no("already expired");
                }
                let p = &mut m.pos.get_mut(&owner).unwrap()[i];
                p.approvals.retain(|(s, _)| s != spender);
                p.approvals.push((spender.clone(), e));
            }
            Op::Revoke { id, spender } => {
                let Some((owner, i)) = self.resolve(id) else { return Pred::no("no such token") };
                if !self.can_approve(who, &owner) {
                    return Pred::no("not authorised");
                }
                m.pos.get_mut(&owner).unwrap()[i].approvals.retain(|(s, _)| s != spender);
            }
            Op::ApproveAll { op, exp } => {
                let e = exp.unwrap_or(Exp::Never);
                if e.expired(self.chain.height, self.chain.nanos) {
                    return Pred::no("already expired");
                }
                m.ops.insert((who.to_string(), op.clone()), e);
            }
            Op::RevokeAll { op } => {
                m.ops.remove(&(who.to_string(), op.clone()));
            }
            Op::Withdraw { key } => {
                let Some(p) = m.pools.get_mut(key) else { return Pred::no("no pool") };
                if p.receiver != who {
                    return Pred::no("not the fee receiver");
                }
                let [x, y] = p.proto;
                p.proto = [0; 2];
                if !Self::mv(&mut b, CONTRACT, who, &key.x, x) || !Self::mv(&mut b, CONTRACT, who, &key.y, y) {
                    return Pred::no("contract cannot pay");
                }
                note.paid = Some((x, y));
                note.touched.insert(key.clone());
            }
            Op::SetProtocolFee { fee } => {
                if !admin {
                    return Pred::no("not admin");
                }
                m.pfee = *fee;
            }
            Op::SetReceiver { key, to } => {
                if !admin {
                    return Pred::no("not admin");
                }
                let Some(p) = m.pools.get_mut(key) else { return Pred::no("no pool") };
                p.receiver = to.clone();
                note.touched.insert(key.clone());
            }
            Op::SetAdmin { to } => {
                if !admin {
                    return Pred::no("not admin");
                }
                m.admin = to.clone();
            }
            Op::Advance { nanos, .. } => {
                let ms = (self.chain.nanos + nanos) / 1_000_000 - self.ms();
                m.tick_time(ms);
            }
        }
        Pred { ok: Some((m, b, note)), wide, why: "" }
    }
    fn predict_remove(&self, mut m: Model, mut b: Bal, mut note: Note, owner: &str, i: usize) -> Pred {
        let (wide, fx, fy, x, y, key) = self.payout(owner, i, true);
        if !Self::mv(&mut b, CONTRACT, owner, &key.x, x) || !Self::mv(&mut b, CONTRACT, owner, &key.y, y) {
            return Pred::now("contract cannot pay", wide);
        }
        Self::drop_pos(&mut m, owner, i);
        note.paid = Some((x, y));
        note.fees = Some((fx, fy));
        note.touched.insert(key);
        Pred { ok: Some((m, b, note)), wide, why: "" }
    }

    // ---- generation ------------------------------------------------------------------------

    pub fn pools(&self) -> Vec<Key> {
        self.model.pools.keys().cloned().collect()
    }
    pub fn pick_pool(&self, t: &mut Tape) -> Option<Key> {
        let p = self.pools();
        if p.is_empty() {
            return None;
        }
        Some(t.pick(&p).clone())
    }
    pub fn liq_choice(&self, t: &mut Tape) -> u128 {
        let bits = if self.skew || t.chance(1, 8) {
            1 + t.below(112) as u32
        } else {
            (self.lbits as i64 + t.range_i(-6, 6)).clamp(1, 112) as u32
        };
        t.bits_u128(bits)
    }
    /// a range of ticks around interesting places of this pool
    pub fn range_choice(&self, t: &mut Tape, k: &Key) -> (i32, i32) {
        let s = k.s as i32;
        let p = &self.model.pools[k];
        let m = MAX_TICK / s;
        let c = p.tick / s;
        let ticks: Vec<i32> = self.model.ticks(k).into_iter().collect();
        let pick = |t: &mut Tape| -> i64 {
            match t.below(7) {
                0 => c as i64 + t.range_i(-3, 3),
                1 => c as i64 + t.range_i(-40, 40),
                2 if !ticks.is_empty() => (*t.pick(&ticks) / s) as i64 + t.range_i(-1, 1),
                3 => c as i64 + *t.pick(&[-257i64, -256, -255, -64, 64, 255, 256, 257, 512, -512]),
                4 => c as i64 + t.range_i(-700, 700),
                5 => *t.pick(&[-(m as i64), m as i64]),
                _ => (tick_choice(t, s) / s) as i64,
            }
        };
        let a = pick(t);
        let b = if t.chance(1, 4) { a + 1 } else { pick(t) };
        let a = a.clamp(-(m as i64), m as i64) as i32;
        let b = b.clamp(-(m as i64), m as i64) as i32;
        let (lo, hi) = if a < b { (a, b) } else if b < a { (b, a) } else if a < m { (a, a + 1) } else { (a - 1, a) };
        (lo * s, hi * s)
    }
    /// (input, output) needed to move the price exactly onto `target`
    pub fn cost_to(&self, k: &Key, down: bool, target: u128) -> (u128, u128) {
        let s = k.s as i32;
        let p = &self.model.pools[k];
        let ticks = self.model.ticks(k);
        let mut price = p.price;
        let mut tick = p.tick;
        let mut wd = Wide::default();
        let (mut tin, mut tout) = (crate::big::w(0), crate::big::w(0));
        let one = crate::big::w(ONE as u128);
        let net1 = crate::big::w((ONE - k.fee) as u128);
        for _ in 0..2000 {
            let (idx, init) = Model::next_init(&ticks, tick, s, down);
            if !init && idx == tick {
                break;
            }
            let tp = price_of(idx);
            let l = self.model.liquidity(k, tick);
            let last = if down { tp <= target } else { tp >= target };
            let goal = if last { target } else { tp };
            let (ain, aout) = if down {
                (delta_x(goal, price, l, true, &mut wd), delta_y(goal, price, l, false, &mut wd))
            } else {
                (delta_y(price, goal, l, true, &mut wd), delta_x(price, goal, l, false, &mut wd))
            };
            tout = tout + aout;
            if last {
                tin = tin + crate::big::div_up(ain * one, net1);
                break;
            }
            tin = tin + ain + crate::big::div_up(ain * crate::big::w(k.fee as u128), one);
            price = goal;
            tick = if down { idx - s } else { idx };
        }
        (crate::big::fit(tin).unwrap_or(u128::MAX), crate::big::fit(tout).unwrap_or(u128::MAX))
    }
    pub fn nudge(t: &mut Tape, v: u128) -> u128 {
        match t.below(8) {
            0 | 1 => v,
            2 => v.saturating_add(1),
            3 => v.saturating_sub(1),
            4 => v.saturating_add(t.log_u128(40)),
            5 => v.saturating_sub(t.log_u128(40)),
            6 => {
                let d = t.log_u128(110);
                v.saturating_add(d)
            }
            _ => {
                // a fraction
                let n = t.below(1001) as u128;
                v / 1000 * n + v % 1000 * n / 1000
            }
        }
    }
    pub fn swap_choice(&self, t: &mut Tape, k: &Key) -> Op {
        let s = k.s as i32;
        let p = &self.model.pools[k];
        let down = t.bool();
        let by_in = !t.chance(2, 5);
        let ticks = self.model.ticks(k);
        // candidate targets: upcoming initialised ticks
        let ahead = if self.comb.as_ref() == Some(k) && t.bool() { 400 } else { 4 };
        let mut cand: Vec<i32> = if down {
            ticks.range(..=p.tick).rev().take(ahead).cloned().collect()
        } else {
            ticks.range(p.tick + 1..).take(ahead).cloned().collect()
        };
        if cand.is_empty() || t.chance(1, 6) {
            let off = *t.pick(&[1, 2, 10, 255, 256, 257]) * s;
            let c = if down { p.tick - off } else { p.tick + s + off };
            cand = vec![c.clamp(-max_tick(s), max_tick(s))];
        }
        if cand.len() > 9 && t.bool() {
            cand = cand.split_off(cand.len() - 3);
        }
        let tt = *t.pick(&cand);
        let target = price_of(tt);
        let (ci, co) = self.cost_to(k, down, target);
        let amount = match t.below(10) {
            0 => 1 + t.log_u128(20),
            1 => t.log_u128(118),
            _ => Self::nudge(t, if by_in { ci } else { co }),
        };
        let limit = self.limit_choice(t, p.price, target, down);
        Op::Swap { key: k.clone(), down, amount, by_in, limit }
    }
    pub fn limit_choice(&self, t: &mut Tape, price: u128, target: u128, down: bool) -> u128 {
        let far = if down { MIN_PRICE } else { MAX_PRICE };
        match t.below(20) {
            0..=11 => far,
            12..=15 => target,
            16 => {
                let (a, b) = if price < target { (price, target) } else { (target, price) };
                a + t.u128_below(b - a + 1)
            }
            17 => if down { price - 1 } else { price + 1 },
            18 => *t.pick(&[0u128, 1, u128::MAX, MIN_PRICE - 1, MAX_PRICE + 1, MIN_PRICE, MAX_PRICE]),
            _ => *t.pick(&[price, target + 1, target - 1]),
        }
    }
    pub fn user(&self, t: &mut Tape) -> String {
        t.pick(&USERS).to_string()
    }
    pub fn any_acct(&self, t: &mut Tape) -> String {
        match t.below(8) {
            0 => ADMIN.into(),
            1 => NFTPOOL.into(),
            _ => self.user(t),
        }
    }
    /// an owner together with one of its position indices (sometimes a wrong index)
    pub fn pick_pos(&self, t: &mut Tape) -> Option<(String, u32)> {
        let own: Vec<&String> = self.model.pos.iter().filter(|(_, v)| !v.is_empty()).map(|(k, _)| k).collect();
        if own.is_empty() {
            return None;
        }
        let o = (*t.pick(&own)).clone();
        let n = self.model.pos[&o].len() as u64;
        let i = if self.cfg.bad_inputs && t.chance(1, 15) { n + t.below(3) } else { t.below(n) };
        Some((o, i as u32))
    }
    pub fn exp_choice(&self, t: &mut Tape) -> Option<Exp> {
        match t.below(8) {
            0 => None,
            1 => Some(Exp::Never),
            6 => Some(Exp::Height(self.chain.height + t.below(1 << 40))),
            7 => Some(Exp::Time(self.chain.nanos + t.below(1 << 56))),
            2 => Some(Exp::Height(self.chain.height + t.below(4))),
            3 => Some(Exp::Time(self.chain.nanos + t.below(4) * 1_000_000_000)),
            4 => Some(Exp::Height((self.chain.height + 2).saturating_sub(t.below(4)))),
            _ => Some(Exp::Time(self.chain.nanos + 2_000_000_000 - t.below(4) * 1_000_000_000)),
        }
    }
    /// someone with a plausible relation to the token
    fn nft_actor(&self, t: &mut Tape, owner: &str, i: usize) -> String {
        let mut c: Vec<String> = vec![owner.to_string()];
        if let Some(p) = self.model.pos.get(owner).and_then(|v| v.get(i)) {
            c.extend(p.approvals.iter().map(|a| a.0.clone()));
        }
        c.extend(self.model.ops.keys().filter(|(o, _)| o == owner).map(|(_, p)| p.clone()));
        if t.chance(1, 4) {
            self.any_acct(t)
        } else {
            t.pick(&c).clone()
        }
    }
    fn nft_id(&self, t: &mut Tape) -> Option<(Vec<u8>, String, u32)> {
        let (o, i) = self.pick_pos(t)?;
        if self.cfg.bad_inputs && t.chance(1, 30) {
            return Some((vec![1, 2, 3][..t.below(4) as usize].to_vec(), o, i));
        }
        Some((token_id(&o, i), o, i))
    }
    /// attaches native funds to a call, given what it will need
    pub fn fund(&self, t: &mut Tape, c: &mut Call, needs: &[(String, u128)]) {
        for (tok, need) in needs {
            if is_cw20(tok) {
                continue;
            }
            let a = if self.cfg.native_variants {
                match t.below(8) {
                    0 => need.saturating_add(1),
                    1 => need.saturating_add(1 + t.log_u128(60)),
                    2 => need.saturating_sub(1),
                    3 => 0,
                    4 => need / 2,
                    _ => *need,
                }
            } else {
                *need
            };
            if a > 0 {
                match c.funds.iter_mut().find(|f| f.0 == *tok) {
                    Some(f) => f.1 = f.1.saturating_add(a),
                    None => c.funds.push((tok.clone(), a)),
                }
            }
        }
    }
    /// native needs of a call according to the model (empty when it fails anyway)
    pub fn needs(&self, c: &Call) -> Vec<(String, u128)> {
        match &c.op {
            Op::Create { key, lo, hi, liq, .. } => {
                let s = key.s as i32;
                if !self.model.pools.contains_key(key) || lo >= hi || lo % s != 0 || hi % s != 0 || *lo < -MAX_TICK || *hi > MAX_TICK {
                    return vec![];
                }
                let mut wd = Wide::default();
                let (x, y) = self.model.amounts(key, *lo, *hi, *liq, true, &mut wd);
                match (crate::big::fit(x), crate::big::fit(y)) {
                    (Some(x), Some(y)) => vec![(key.x.clone(), x), (key.y.clone(), y)],
                    _ => vec![],
                }
            }
            Op::Swap { key, down, amount, by_in, limit } => {
                let tok = if *down { &key.x } else { &key.y };
                let need = match self.model.swap(key, *down, *amount, *by_in, *limit) {
                    Ok(o) => o.a_in,
                    Err(_) => if *by_in { *amount } else { 0 },
                };
                vec![(tok.clone(), need)]
            }
            Op::Route { amount, hops, .. } => {
                let mut m = self.model.clone();
                let mut a = *amount;
                let mut out = vec![];
                for (k, d) in hops {
                    let tok = if *d { &k.x } else { &k.y };
                    out.push((tok.clone(), a));
                    match m.swap(k, *d, a, true, if *d { MIN_PRICE } else { MAX_PRICE }) {
                        Ok(o) => {
                            m.apply_swap(k, *d, &o);
                            a = o.a_out;
                        }
                        Err(_) => break,
                    }
                }
                out
            }
            _ => vec![],
        }
    }
    pub fn route_choice(&self, t: &mut Tape) -> Option<Op> {
        let pools = self.pools();
        if pools.is_empty() {
            return None;
        }
        let n = if t.chance(1, 8) { 5 + t.below(8) } else { 1 + t.below(4) };
        let mut hops: Vec<(Key, bool)> = vec![];
        let mut cur: Option<String> = None;
        for _ in 0..n {
            let seen = |k: &Key| self.cfg.fresh_hops && hops.iter().any(|h| h.0 == *k);
            let cand: Vec<&Key> = match &cur {
                None => pools.iter().collect(),
                Some(c) => pools.iter().filter(|k| (k.x == *c || k.y == *c) && !seen(k)).collect(),
            };
            if cand.is_empty() {
                break;
            }
            let k = (*t.pick(&cand)).clone();
            let down = match &cur {
                None => t.bool(),
                Some(c) => k.x == *c,
            };
            cur = Some(if down { k.y.clone() } else { k.x.clone() });
            hops.push((k, down));
        }
        if self.cfg.bad_inputs && t.chance(1, 12) {
            // broken chain: tokens do not connect
            if let Some(h) = hops.last_mut() {
                h.1 = !h.1;
            }
        }
        let (k, d) = hops[0].clone();
        let p = &self.model.pools[&k];
        let s = k.s as i32;
        let off = (1 + t.below(300) as i32) * s;
        let tt = (if d { p.tick - off } else { p.tick + s + off }).clamp(-max_tick(s), max_tick(s));
        let (ci, _) = self.cost_to(&k, d, price_of(tt));
        let amount = match t.below(4) {
            0 => 1 + t.log_u128(100),
            _ => Self::nudge(t, ci),
        };
        // what it yields
        let mut m = self.model.clone();
        let mut a = amount;
        for (k, d) in &hops {
            match m.swap(k, *d, a, true, if *d { MIN_PRICE } else { MAX_PRICE }) {
                Ok(o) => {
                    m.apply_swap(k, *d, &o);
                    a = o.a_out;
                }
                Err(_) => break,
            }
        }
        let slippage = match t.below(5) {
            0 => 0,
            1 => 10_000_000_000,
            2 => ONE,
            3 => if self.cfg.bad_inputs { ONE + 1 } else { 1 },
            _ => t.below(ONE),
        };
        // expected amounts around the point where the minimum equals what is paid
        let expected = match t.below(5) {
            0 => 0,
            1 => a,
            _ => {
                let den = (ONE - slippage.min(ONE - 1)) as u128;
                let e = crate::big::w(a) * crate::big::w(ONE as u128) / crate::big::w(den);
                let e = crate::big::fit(e).unwrap_or(u128::MAX);
                match t.below(5) {
                    0 => e,
                    1 => e.saturating_add(1),
                    2 => e.saturating_sub(1),
                    3 => e.saturating_add(2),
                    _ => e.saturating_add(t.log_u128(30)),
                }
            }
        };
        Some(Op::Route { amount, expected, slippage, hops })
    }
    pub fn gen(&self, t: &mut Tape, last: Option<&Call>) -> Option<Call> {
        let k = t.weighted(&self.cfg.w);
        let mk = |sender: String, op: Op| Some(Call { sender, funds: vec![], op });
        let mut call = match k {
            K_CREATE => {
                let key = self.pick_pool(t)?;
                let (mut lo, mut hi) = self.range_choice(t, &key);
                let mut liq = self.liq_choice(t);
                let p = self.model.pools[&key].price;
                let (mut smin, mut smax) = (0, u128::MAX);
                match t.below(8) {
                    0 => smin = p,
                    1 => smax = p,
                    2 => {
                        smin = p;
                        smax = p;
                    }
                    3 if self.cfg.bad_inputs => smin = p + 1,
                    4 if self.cfg.bad_inputs => smax = p - 1,
                    _ => {}
                }
                if self.cfg.bad_inputs {
                    match t.below(40) {
                        0 => std::mem::swap(&mut lo, &mut hi),
                        1 => hi = lo,
                        2 => liq = 0,
                        3 => hi += 1,
                        4 => lo -= 1,
                        5 => hi = max_tick(key.s as i32) + key.s as i32,
                        6 => lo = -max_tick(key.s as i32) - key.s as i32,
                        7 => liq = Model::max_gross(key.s) - t.below(3) as u128,
                        8 => liq = u128::MAX - t.below(2) as u128,
                        _ => {}
                    }
                }
                mk(self.user(t), Op::Create { key, lo, hi, liq, smin, smax, mint: t.chance(1, 4) })
            }
            K_SWAP => {
                let mut key = self.pick_pool(t)?;
                if let (Some(k), true) = (&self.comb, t.chance(2, 3)) {
                    key = k.clone();
                }
                mk(self.user(t), self.swap_choice(t, &key))
            }
            K_ROUND => match last {
                Some(Call { sender, op: Op::Swap { key, down, amount, by_in, .. }, .. }) => {
                    // send back what came out
                    let lim = if *down { MAX_PRICE } else { MIN_PRICE };
                    let amount = Self::nudge(t, *amount);
                    mk(sender.clone(), Op::Swap { key: key.clone(), down: !*down, amount, by_in: !*by_in, limit: lim })
                }
                _ => {
                    let key = self.pick_pool(t)?;
                    mk(self.user(t), self.swap_choice(t, &key))
                }
            },
            K_ROUTE => mk(self.user(t), self.route_choice(t)?),
            K_REMOVE => {
                let (o, index) = self.pick_pos(t)?;
                mk(o, Op::Remove { index })
            }
            K_CLAIM => {
                let (o, index) = self.pick_pos(t)?;
                mk(o, Op::Claim { index })
            }
            K_TPOS => {
                let (o, index) = self.pick_pos(t)?;
                let to = if self.cfg.bad_inputs && t.chance(1, 10) { "bad address".to_string() } else { self.any_acct(t) };
                mk(o, Op::TransferPos { index, to })
            }
            K_TNFT => {
                let (id, o, i) = self.nft_id(t)?;
                mk(self.nft_actor(t, &o, i as usize), Op::TransferNft { id, to: self.any_acct(t) })
            }
            K_SNFT => {
                let (id, o, i) = self.nft_id(t)?;
                let msg = if t.bool() { Some(vec![t.below(256) as u8; t.below(3) as usize]) } else { None };
                mk(self.nft_actor(t, &o, i as usize), Op::SendNft { id, to: NFTPOOL.into(), msg })
            }
            K_BURN => {
                let (id, o, i) = self.nft_id(t)?;
                mk(self.nft_actor(t, &o, i as usize), Op::Burn { id })
            }
            K_APPROVE => {
                let (id, o, i) = self.nft_id(t)?;
                mk(self.nft_actor(t, &o, i as usize), Op::Approve { id, spender: self.any_acct(t), exp: self.exp_choice(t) })
            }
            K_REVOKE => {
                let (id, o, i) = self.nft_id(t)?;
                mk(self.nft_actor(t, &o, i as usize), Op::Revoke { id, spender: self.any_acct(t) })
            }
            K_APPALL => mk(self.user(t), Op::ApproveAll { op: self.any_acct(t), exp: self.exp_choice(t) }),
            K_REVALL => mk(self.user(t), Op::RevokeAll { op: self.any_acct(t) }),
            K_WITHDRAW => {
                let key = self.pick_pool(t)?;
                let r = self.model.pools[&key].receiver.clone();
                let who = if t.chance(1, 4) { self.any_acct(t) } else { r };
                mk(who, Op::Withdraw { key })
            }
            K_ADMIN => {
                let who = if t.chance(1, 3) { self.any_acct(t) } else { self.model.admin.clone() };
                match t.below(5) {
                    0 | 1 => mk(who, Op::SetProtocolFee { fee: pfee_choice(t) }),
                    2 | 3 => {
                        let key = self.pick_pool(t)?;
                        mk(who, Op::SetReceiver { key, to: self.any_acct(t) })
                    }
                    _ => mk(who, Op::SetAdmin { to: self.any_acct(t) }),
                }
            }
            K_TIER => {
                let who = if t.chance(1, 4) { self.any_acct(t) } else { self.model.admin.clone() };
                let (fee, s) = if !self.model.tiers.is_empty() && t.bool() {
                    *t.pick(&self.model.tiers)
                } else {
                    (fee_choice(t), spacing_choice(t))
                };
                let (fee, s) = if self.cfg.bad_inputs {
                    match t.below(10) {
                        0 => (fee, 0),
                        1 => (fee, 101),
                        2 => (ONE, s),
                        3 => (ONE + t.below(1000), s),
                        4 => (fee, 101 + t.below(60000) as u16),
                        _ => (fee, s),
                    }
                } else {
                    (fee, s)
                };
                if t.chance(1, 3) {
                    mk(who, Op::RemoveTier { fee, s })
                } else {
                    mk(who, Op::AddTier { fee, s })
                }
            }
            K_POOL => {
                let (fee, s) = if !self.model.tiers.is_empty() && !t.chance(1, 10) { *t.pick(&self.model.tiers) } else { (fee_choice(t), spacing_choice(t)) };
                let i = t.below(TOKENS.len() as u64) as usize;
                let j = if t.chance(1, 15) { i } else { (i + 1 + t.below(TOKENS.len() as u64 - 1) as usize) % TOKENS.len() };
                let si = s as i32;
                let mut tick = tick_choice(t, si);
                let mut price = price_in_tick(t, tick, si);
                if self.cfg.bad_inputs {
                    match t.below(12) {
                        0 => tick += 1,
                        1 => tick = max_tick(si) + si,
                        2 => tick = -max_tick(si) - si,
                        3 => price = price_of(tick) - 1,
                        4 if tick + si <= MAX_TICK => price = price_of(tick + si),
                        5 => price = 0,
                        6 => price = u128::MAX,
                        _ => {}
                    }
                }
                mk(self.any_acct(t), Op::CreatePool { t0: TOKENS[i].into(), t1: TOKENS[j].into(), fee, s, price, tick })
            }
            K_TIME => {
                let nanos = match t.below(4) {
                    0 => 1_000_000_000,
                    1 => t.below(3_000_000_000),
                    2 => 1_000_000 * t.below(10_000),
                    _ => t.below(1 << 55),
                };
                let blocks = match t.below(12) {
                    0 => t.below(1 << 40),
                    1 => t.below(1 << 20),
                    _ => t.below(4),
                };
                mk("time".into(), Op::Advance { nanos, blocks })
            }
            _ => None,
        }?;
        let needs = self.needs(&call);
        self.fund(t, &mut call, &needs);
        if self.cfg.stray_coins && !matches!(call.op, Op::Advance { .. }) && t.chance(1, 5) {
            for tok in TOKENS.iter().filter(|x| !is_cw20(x)) {
                if t.chance(1, 2) && !call.funds.iter().any(|f| f.0 == *tok) {
                    call.funds.push((tok.to_string(), 1 + t.log_u128(60)));
                }
            }
            call.funds.sort();
        }
        Some(call)
    }

    // ---- observation -----------------------------------------------------------------------

    pub fn q_pool(&self, k: &Key) -> Result<Pool, ExecErr> {
        self.chain.query(&QueryMsg::Pool { token_0: k.x.clone(), token_1: k.y.clone(), fee_tier: ft(k.fee, k.s) })
    }
    pub fn q_tick(&self, k: &Key, i: i32) -> Result<Tick, ExecErr> {
        self.chain.query(&QueryMsg::Tick { key: pk(k), index: i })
    }
    pub fn q_pos(&self, o: &str, i: u32) -> Result<Position, ExecErr> {
        self.chain.query(&QueryMsg::Position { owner_id: Addr::unchecked(o), index: i })
    }
    pub fn q_count(&self, o: &str) -> u32 {
        self.chain.query(&QueryMsg::UserPositionAmount { owner: Addr::unchecked(o) }).unwrap_or(0)
    }
}
