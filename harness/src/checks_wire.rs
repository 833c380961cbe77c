//! C29: what goes over the wire. The JSON a client writes by hand (the published field names, 128-bit
//! numbers as decimal strings) does what the typed message does; anything else is refused; answers
//! carry the numbers under the published names.
use crate::chain::*;
use crate::check;
use crate::drive::*;
use crate::hist::*;
use crate::model::*;
use crate::report::{fail, Ctx, Res, Violation};
use crate::tape::{Rng, Tape};
use cosmwasm_std::from_slice;
use decimal::Decimal;
use oraiswap_v3::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg, QueryMsg};
use serde_json::{json, Map, Value};

fn big(v: u128) -> Value {
    Value::String(v.to_string())
}
pub fn b64(v: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in v.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(A[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
fn tier(fee: u64, s: u16) -> Value {
    json!({"fee": fee, "tick_spacing": s})
}
fn jkey(k: &Key) -> Value {
    json!({"token_x": k.x, "token_y": k.y, "fee_tier": tier(k.fee, k.s)})
}
fn jexp(e: &Exp) -> Value {
    match e {
        Exp::Never => json!({"never": {}}),
        Exp::Height(h) => json!({"at_height": h}),
        Exp::Time(t) => json!({"at_time": t.to_string()}),
    }
}
/// optional fields are left out, null or given
fn opt(m: &mut Value, k: &str, v: Option<Value>, null: bool) {
    match v {
        Some(v) => {
            m[k] = v;
        }
        None if null => {
            m[k] = Value::Null;
        }
        None => {}
    }
}
fn exec_json(op: &Op, null: bool) -> (&'static str, Value) {
    match op {
        Op::AddTier { fee, s } => ("add_fee_tier", json!({"fee_tier": tier(*fee, *s)})),
        Op::RemoveTier { fee, s } => ("remove_fee_tier", json!({"fee_tier": tier(*fee, *s)})),
        Op::CreatePool { t0, t1, fee, s, price, tick } => (
            "create_pool",
            json!({"token_0": t0, "token_1": t1, "fee_tier": tier(*fee, *s), "init_sqrt_price": big(*price), "init_tick": tick}),
        ),
        Op::Create { key, lo, hi, liq, smin, smax, mint } => {
            let v = json!({"pool_key": jkey(key), "lower_tick": lo, "upper_tick": hi, "liquidity_delta": big(*liq),
                "slippage_limit_lower": big(*smin), "slippage_limit_upper": big(*smax)});
            if *mint {
                ("mint", json!({ "extension": v }))
            } else {
                ("create_position", v)
            }
        }
        Op::Swap { key, down, amount, by_in, limit } => (
            "swap",
            json!({"pool_key": jkey(key), "x_to_y": down, "amount": big(*amount), "by_amount_in": by_in, "sqrt_price_limit": big(*limit)}),
        ),
        Op::Route { amount, expected, slippage, hops } => (
            "swap_route",
            json!({"amount_in": big(*amount), "expected_amount_out": big(*expected), "slippage": slippage, "swaps": jhops(hops)}),
        ),
        Op::Remove { index } => ("remove_position", json!({ "index": index })),
        Op::Claim { index } => ("claim_fee", json!({ "index": index })),
        Op::TransferPos { index, to } => ("transfer_position", json!({"index": index, "receiver": to})),
        Op::TransferNft { id, to } => ("transfer_nft", json!({"recipient": to, "token_id": b64(id)})),
        Op::SendNft { id, to, msg } => {
            let mut v = json!({"contract": to, "token_id": b64(id)});
            opt(&mut v, "msg", msg.as_ref().map(|m| Value::String(b64(m))), null);
            ("send_nft", v)
        }
        Op::Burn { id } => ("burn", json!({"token_id": b64(id)})),
        Op::Approve { id, spender, exp } => {
            let mut v = json!({"spender": spender, "token_id": b64(id)});
            opt(&mut v, "expires", exp.as_ref().map(jexp), null);
            ("approve", v)
        }
        Op::Revoke { id, spender } => ("revoke", json!({"spender": spender, "token_id": b64(id)})),
        Op::ApproveAll { op, exp } => {
            let mut v = json!({ "operator": op });
            opt(&mut v, "expires", exp.as_ref().map(jexp), null);
            ("approve_all", v)
        }
        Op::RevokeAll { op } => ("revoke_all", json!({ "operator": op })),
        Op::Withdraw { key } => ("withdraw_protocol_fee", json!({"pool_key": jkey(key)})),
        Op::SetProtocolFee { fee } => ("change_protocol_fee", json!({ "protocol_fee": fee })),
        Op::SetReceiver { key, to } => ("change_fee_receiver", json!({"pool_key": jkey(key), "fee_receiver": to})),
        Op::SetAdmin { to } => ("change_admin", json!({ "new_admin": to })),
        Op::Advance { .. } => unreachable!(),
    }
}
fn jhops(h: &[(Key, bool)]) -> Value {
    Value::Array(h.iter().map(|(k, d)| json!({"pool_key": jkey(k), "x_to_y": d})).collect())
}

/// all places of a value: paths of object keys and array positions
fn places(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                places(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                places(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            v => &mut v[k.as_str()],
        };
    }
    v
}
fn optional(p: &[String]) -> bool {
    matches!(p.last().map(|s| s.as_str()), Some("expires") | Some("msg") | Some("limit") | Some("offset") | Some("start_after") | Some("include_expired"))
}
/// the width of the number a field holds: (signed, bits)
fn width(name: &str) -> (bool, u32) {
    match name {
        "tick_spacing" => (false, 16),
        "fee" | "slippage" | "protocol_fee" | "at_height" => (false, 64),
        "index" | "limit" | "offset" | "start_after" => (false, 32),
        _ => (true, 32),
    }
}

/// a text that is not a well-formed message although it is close to `v`; what was done to it
fn spoil(name: &str, body: &Value, r: &mut Rng) -> (String, String) {
    let whole = json!({ name: body });
    let txt = whole.to_string();
    let below = |r: &mut Rng, n: usize| (r.next() % n as u64) as usize;
    match below(r, 12) {
        0 => {
            let mut c: Vec<String> = name
                .split('_')
                .map(|w| {
                    let mut c = w.chars();
                    c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
                })
                .collect();
            let other = match below(r, 4) {
                0 => c.concat(),
                1 => {
                    let f = c.remove(0).to_lowercase();
                    let camel = f + &c.concat();
                    if camel == name { format!("{camel}s") } else { camel }
                }
                2 => name.to_uppercase(),
                _ => format!("{name}_"),
            };
            (json!({ other.as_str(): body }).to_string(), format!("variant called {other}"))
        }
        1 => {
            let mut o = whole.as_object().unwrap().clone();
            o.insert(if name == "swap" { "claim_fee".into() } else { "swap".into() }, json!({"index": 0}));
            (Value::Object(o).to_string(), "two messages in one".into())
        }
        2 => match below(r, 3) {
            0 => (format!("{txt}{txt}"), "the message twice".into()),
            1 => (format!("{txt}x"), "a letter after the message".into()),
            _ => (txt[..txt.len() - 1 - below(r, txt.len() - 1)].to_string(), "the message cut short".into()),
        },
        _ => {
            let mut ps = vec![];
            places(body, &mut vec![], &mut ps);
            // any place; the body itself only for additions
            let p = ps[below(r, ps.len())].clone();
            let last = p.last().cloned().unwrap_or_default();
            let show = p.join(".");
            let mut b = body.clone();
            let here = at(&mut b, &p).clone();
            let kind;
            if p.is_empty() || (here.is_object() && below(r, 2) == 0) {
                if here.as_object().map_or(true, |m| m.contains_key("never")) {
                    // content of "never" is somebody else's type
                    return (format!("{txt}]"), "a bracket after the message".into());
                }
                let o = at(&mut b, &p).as_object_mut().unwrap();
                o.insert("memo".into(), json!("x"));
                kind = format!("unknown field in {show:?}");
            } else if !optional(&p) && last.parse::<usize>().is_err() && below(r, 3) == 0 {
                let parent = at(&mut b, &p[..p.len() - 1]).as_object_mut().unwrap();
                parent.remove(&last);
                kind = format!("{show} missing");
            } else {
                let bad = match &here {
                    Value::String(s) if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) => {
                        let xs = [
                            json!(1), json!(""), json!("-1"), json!("1.5"), json!("340282366920938463463374607431768211456"), json!(" 1"), json!("1 "),
                            json!("0x1"), json!("+1"), json!("1e3"), json!("a"), json!("1_0"), Value::Null, json!(true), json!(["1"]), json!({"0": "1"}),
                        ];
                        xs[below(r, xs.len())].clone()
                    }
                    Value::String(_) => {
                        let mut xs = vec![json!(1), json!(false), Value::Null, json!([1]), json!({"a": 1})];
                        if last == "token_id" || last == "msg" {
                            xs.push(json!("!!!!"));
                            if last == "msg" {
                                xs.remove(2);
                            }
                        }
                        xs[below(r, xs.len())].clone()
                    }
                    Value::Bool(_) => {
                        let xs = [json!(1), json!(0), json!("true"), Value::Null, json!("")];
                        xs[below(r, xs.len())].clone()
                    }
                    Value::Number(_) => {
                        let (signed, bits) = width(&last);
                        let raw = |s: String| -> Value { Value::String(format!("\u{1}{s}\u{1}")) };
                        let xs = [
                            raw(if signed { (1i128 << (bits - 1)).to_string() } else { (1u128 << bits).to_string() }),
                            raw(if signed { (-(1i128 << (bits - 1)) - 1).to_string() } else { "-1".into() }),
                            raw(((1u128 << bits) + 5).to_string()),
                            raw("1.5".into()),
                            raw("99999999999999999999999999999999999999999999".into()),
                            json!("1"), json!(""), Value::Null, json!(true), json!([1]),
                        ];
                        xs[below(r, xs.len())].clone()
                    }
                    Value::Object(_) => {
                        let xs = [json!(1), json!("x"), json!(true)];
                        xs[below(r, xs.len())].clone()
                    }
                    _ => {
                        let xs = [json!(1), json!("x"), json!({"a": 1})];
                        xs[below(r, xs.len())].clone()
                    }
                };
                kind = format!("{show} = {}", bad.to_string().replace("\"\\u0001", "").replace("\\u0001\"", ""));
                *at(&mut b, &p) = bad;
            }
            let out = json!({ name: b }).to_string().replace("\"\\u0001", "").replace("\\u0001\"", "");
            (out, kind)
        }
    }
}

fn same(field: &str, got: &Value, want: Value, what: &str) -> Res {
    check!(got.get(field) == Some(&want), "answer-field", "{what}: field {field} of {got} should be {want}");
    Ok(())
}

fn ask(c: &Chain, raw: &str) -> Result<Value, ExecErr> {
    let b = c.query_json(raw.as_bytes())?;
    serde_json::from_slice(&b).map_err(|e| ExecErr::Contract(format!("the answer is not JSON: {e}")))
}

fn answers(w: &World, r: &mut Rng, ctx: &mut Ctx) -> Res {
    let get = |name: &str, body: Value| -> Result<Value, Violation> {
        ask(&w.chain, &json!({ name: body }).to_string()).map_err(|e| Violation { sig: "query-json".into(), msg: format!("{name} {body}: {}", e.text()) })
    };
    let m = &w.model;
    check!(get("admin", json!({}))? == json!(m.admin), "answer-admin", "admin");
    check!(get("protocol_fee", json!({}))? == json!(m.pfee), "answer-protocol-fee", "protocol_fee answers {}, it is {}", get("protocol_fee", json!({}))?, m.pfee);
    let tiers = get("fee_tiers", json!({}))?;
    let mut a: Vec<String> = tiers.as_array().map(|v| v.iter().map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut b: Vec<String> = m.tiers.iter().map(|x| tier(x.0, x.1).to_string()).collect();
    a.sort();
    b.sort();
    check!(a == b, "answer-tiers", "fee_tiers answers {tiers}, they are {b:?}");
    for x in &m.tiers {
        check!(get("fee_tier_exist", json!({"fee_tier": tier(x.0, x.1)}))? == json!(true), "answer-tier-exist", "fee_tier_exist {x:?}");
    }
    for (k, p) in &m.pools {
        let v = get("pool", json!({"token_0": k.x, "token_1": k.y, "fee_tier": tier(k.fee, k.s)}))?;
        let what = format!("pool {k:?}");
        same("sqrt_price", &v, big(p.price), &what)?;
        same("current_tick_index", &v, json!(p.tick), &what)?;
        same("fee_growth_global_x", &v, big(p.growth[0]), &what)?;
        same("fee_growth_global_y", &v, big(p.growth[1]), &what)?;
        same("fee_protocol_token_x", &v, big(p.proto[0]), &what)?;
        same("fee_protocol_token_y", &v, big(p.proto[1]), &what)?;
        same("fee_receiver", &v, json!(p.receiver), &what)?;
        same("start_timestamp", &v, json!(p.start), &what)?;
        same("liquidity", &v, big(m.liquidity(k, p.tick)), &what)?;
        let ticks = m.ticks(k);
        let all: Vec<i32> = ticks.iter().copied().collect();
        for t in ticks.iter().take(3) {
            let (gross, net) = m.tick_info(k, *t);
            let v = get("tick", json!({"key": jkey(k), "index": t}))?;
            let what = format!("tick {t}");
            same("index", &v, json!(t), &what)?;
            same("liquidity_gross", &v, big(gross), &what)?;
            same("liquidity_change", &v, big(net.unsigned_abs()), &what)?;
            same("sqrt_price", &v, big(price_of(*t)), &what)?;
            if net != 0 {
                same("sign", &v, json!(net > 0), &what)?;
            }
            check!(get("is_tick_initialized", json!({"key": jkey(k), "index": t}))? == json!(true), "answer-tick", "is_tick_initialized {t}");
        }
        if all.len() <= 780 {
            let v = get("liquidity_ticks", json!({"pool_key": jkey(k), "tick_indexes": all}))?;
            check!(v.as_array().map(|a| a.len()) == Some(all.len()), "answer-liquidity-ticks", "liquidity_ticks answers {v} for {all:?}");
            for (x, t) in v.as_array().unwrap().iter().zip(&all) {
                let (_, net) = m.tick_info(k, *t);
                same("index", x, json!(t), "liquidity_ticks")?;
                same("liquidity_change", x, big(net.unsigned_abs()), "liquidity_ticks")?;
            }
        }
        if let (Some(lo), Some(hi)) = (all.first(), all.last()) {
            let n = get("liquidity_ticks_amount", json!({"pool_key": jkey(k), "lower_tick": lo, "upper_tick": hi}))?;
            check!(n == json!(all.len()), "answer-ticks-amount", "liquidity_ticks_amount answers {n}, there are {}", all.len());
            let v = get("tick_map", json!({"pool_key": jkey(k), "lower_tick_index": lo, "upper_tick_index": hi, "x_to_y": false}))?;
            let mut bits = 0u32;
            for e in v.as_array().into_iter().flatten() {
                let (Some(_), Some(x)) = (e[0].as_u64(), e[1].as_u64()) else { return fail("answer-tick-map", format!("tick_map entry {e} is not a pair of numbers")) };
                bits += x.count_ones();
            }
            check!(bits as usize >= all.len() || v.as_array().map_or(0, |a| a.len()) >= 1638, "answer-tick-map", "tick_map {v} shows {bits} ticks, there are {}", all.len());
        }
        // quote
        let amount = (r.next() >> (r.next() % 64)) as u128;
        let down = r.next() & 1 == 0;
        let limit = if down { price_of(-221818) } else { price_of(221818) };
        let body = json!({"pool_key": jkey(k), "x_to_y": down, "amount": big(amount), "by_amount_in": true, "sqrt_price_limit": big(limit)});
        let got = ask(&w.chain, &json!({ "quote": body }).to_string());
        if let (Ok(o), Ok(v)) = (m.swap(k, down, amount, true, limit), &got) {
            same("amount_in", v, big(o.a_in), "quote")?;
            same("amount_out", v, big(o.a_out), "quote")?;
            same("target_sqrt_price", v, big(o.price), "quote")?;
            let v = get("quote_route", json!({"amount_in": big(amount), "swaps": [{"pool_key": jkey(k), "x_to_y": down}]}));
            if let Ok(v) = v {
                check!(v == big(o.a_out), "answer-quote-route", "quote_route answers {v}, quote {}", o.a_out);
            }
        }
        let v = get("pools_for_pair", json!({"token_0": k.x, "token_1": k.y}))?;
        if m.tiers.contains(&(k.fee, k.s)) {
            let found = v.as_array().into_iter().flatten().any(|x| x["pool_key"] == jkey(k) && x["pool"]["sqrt_price"] == big(p.price));
            check!(found, "answer-pools-for-pair", "pools_for_pair {v} does not show {k:?}");
        }
        ctx.label("pool answers");
    }
    for null in [false, true] {
        let mut b = json!({});
        if null {
            b = json!({"limit": null, "start_after": null});
        }
        let v = get("pools", b)?;
        check!(v.as_array().map(|a| a.len()) == Some(m.pools.len().min(100)), "answer-pools", "pools answers {v}, there are {}", m.pools.len());
    }
    for (o, ps) in &m.pos {
        let n = get("user_position_amount", json!({ "owner": o }))?;
        check!(n == json!(ps.len()), "answer-count", "user_position_amount of {o} answers {n}, it is {}", ps.len());
        if ps.is_empty() {
            continue;
        }
        let list = get("positions", json!({"owner_id": o, "limit": 2, "offset": 0}))?;
        let toks = get("tokens", json!({"owner": o, "limit": 2}))?;
        for (i, q) in ps.iter().enumerate().take(2) {
            let v = get("position", json!({"owner_id": o, "index": i}))?;
            let what = format!("position {i} of {o}");
            same("pool_key", &v, jkey(&q.key), &what)?;
            same("liquidity", &v, big(q.liq), &what)?;
            same("lower_tick_index", &v, json!(q.lo), &what)?;
            same("upper_tick_index", &v, json!(q.hi), &what)?;
            same("last_block_number", &v, json!(q.block), &what)?;
            for f in ["fee_growth_inside_x", "fee_growth_inside_y", "tokens_owed_x", "tokens_owed_y"] {
                let ok = v[f].as_str().map_or(false, |s| s.parse::<u128>().is_ok());
                check!(ok, "answer-field", "{what}: {f} of {v} is not a number written as a string");
            }
            let ap: Vec<Value> = q.approvals.iter().map(|(s, e)| json!({"spender": s, "expires": jexp(e)})).collect();
            let mut got: Vec<String> = v["approvals"].as_array().into_iter().flatten().map(|x| x.to_string()).collect();
            let mut want: Vec<String> = ap.iter().map(|x| x.to_string()).collect();
            got.sort();
            want.sort();
            check!(got == want, "answer-approvals", "{what}: approvals {got:?}, granted {want:?}");
            check!(list[i] == v, "answer-positions", "positions shows {} where position shows {v}", list[i]);
            let id = b64(&token_id(o, i as u32));
            check!(toks["tokens"][i] == json!(id), "answer-tokens", "tokens of {o} answers {toks}, entry {i} should be {id}");
            let info = get("nft_info", json!({ "token_id": id }))?;
            check!(info["extension"] == v, "answer-nft-info", "nft_info shows {info} where position shows {v}");
            let own = get("owner_of", json!({"token_id": id, "include_expired": true}))?;
            check!(own["owner"] == json!(o), "answer-owner-of", "owner_of answers {own}, the owner is {o}");
            let all = get("all_nft_info", json!({"token_id": id, "include_expired": true}))?;
            check!(all["access"] == own && all["info"] == info, "answer-all-nft-info", "all_nft_info {all}");
        }
        let pt = get("position_ticks", json!({"owner": o, "offset": 0}))?;
        check!(pt[0]["index"].is_i64(), "answer-position-ticks", "position_ticks answers {pt}");
        ctx.label("position answers");
    }
    let all = get("all_tokens", json!({"start_after": null}))?;
    let n: usize = m.pos.values().map(|v| v.len()).sum();
    let k = all["tokens"].as_array().map(|a| a.len());
    check!(k.is_some() && k <= Some(n) && (n > 10 || k == Some(n)), "answer-all-tokens", "all_tokens answers {all}, there are {n}");
    Ok(())
}

pub fn c29(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut cfg = Cfg::trading();
    cfg.w[K_ROUTE] = 6;
    cfg.w[K_REMOVE] = 5;
    cfg.w[K_CLAIM] = 5;
    cfg.w[K_TPOS] = 4;
    cfg.w[K_TNFT] = 4;
    cfg.w[K_SNFT] = 4;
    cfg.w[K_BURN] = 4;
    cfg.w[K_APPROVE] = 5;
    cfg.w[K_REVOKE] = 3;
    cfg.w[K_APPALL] = 5;
    cfg.w[K_REVALL] = 3;
    cfg.w[K_ADMIN] = 6;
    cfg.w[K_TIER] = 4;
    cfg.w[K_POOL] = 3;
    cfg.native_variants = true;
    cfg.pools = 2;
    let mut r = Rng::new(t.raw64());
    let mut w = World::new(t, ctx, cfg);
    // deployment and migration
    let fee = r.next() >> (r.next() % 64);
    let ok = from_slice::<InstantiateMsg>(json!({ "protocol_fee": fee }).to_string().as_bytes());
    check!(ok.as_ref().map_or(false, |m| m.protocol_fee.get() == fee), "instantiate-json", "instantiate {{protocol_fee: {fee}}} is read as {ok:?}");
    for bad in ["{}", "{\"protocol_fee\":-1}", "{\"protocol_fee\":\"1\"}", "{\"protocol_fee\":null}", "{\"protocol_fee\":18446744073709551616}", "{\"protocol_fee\":1,\"admin\":\"orai1bob\"}", "[]", "null"] {
        check!(from_slice::<InstantiateMsg>(bad.as_bytes()).is_err(), "instantiate-json", "instantiate accepts {bad}");
    }
    check!(from_slice::<MigrateMsg>(b"{}").is_ok(), "migrate-json", "migrate refuses {{}}");
    let mut kinds = std::collections::BTreeSet::new();
    let end = history(&mut w, t, ctx, &mut |w, ctx, s| {
        if matches!(s.c.op, Op::Advance { .. }) {
            return Ok(Flow::Go);
        }
        let (name, body) = exec_json(&s.c.op, r.next() & 1 == 0);
        let raw = json!({ name: body }).to_string();
        let mut twin = s.before.clone();
        let g = twin.exec_raw(&s.c.sender, &s.c.funds, raw.as_bytes());
        match (&g, s.res) {
            (Ok(a), Ok(b)) => {
                check!(a.transfers == b.transfers && a.attrs == b.attrs && a.nft_hooks == b.nft_hooks && twin.store == w.chain.store && twin.bal == w.chain.bal,
                    "json-differs", "{raw} does something else than {}", s.show());
                kinds.insert(name);
            }
            (Err(ExecErr::Contract(e)), _) if e.starts_with("parse") => return fail("json-unreadable", format!("{raw} cannot be read: {e}")),
            (Ok(_), Err(_)) | (Err(_), Ok(_)) => return fail("json-verdict", format!("{raw}: {} but {}", g.as_ref().map_or_else(|e| e.text(), |_| "ok".into()), s.show())),
            _ => {}
        }
        if s.res.is_ok() {
            // the same text with blanks says the same
            let spaced = format!(" {}\n", raw.replace("\":", "\" :\t").replace(",\"", " ,\n \""));
            let mut twin = s.before.clone();
            let g = twin.exec_raw(&s.c.sender, &s.c.funds, spaced.as_bytes());
            check!(g.is_ok() && twin.store == w.chain.store, "json-blanks", "{spaced:?}: {}", g.map_or_else(|e| e.text(), |_| "differs".into()));
            for _ in 0..2 {
                let (bad, kind) = spoil(name, &body, &mut r);
                let mut twin = s.before.clone();
                let g = twin.exec_raw(&s.c.sender, &s.c.funds, bad.as_bytes());
                ctx.evals += 1;
                check!(g.is_err(), "json-accepted", "{bad} is accepted ({kind}; the message was {raw})");
                ctx.label("spoilt message refused");
            }
        }
        Ok(Flow::Go)
    })?;
    if kinds.len() >= 3 {
        ctx.nontrivial = true;
    }
    if end == Flow::Stop {
        return Ok(());
    }
    answers(&w, &mut r, ctx)
}
