//! A miniature chain hosting one instance of the contract: key/value storage, a bank for native
//! coins, cw20 token ledgers (balances and unlimited allowances), block time and height.
//! Messages go through the contract's public entry points only, JSON round-tripped as on chain,
//! and every failed message (error, panic, or a failing sub-message) is rolled back whole.
use cosmwasm_std::{
    from_slice, to_vec, Addr, Api, BankMsg, Binary, BlockInfo, CanonicalAddr, ContractInfo,
    CosmosMsg, Deps, DepsMut, Env, MessageInfo, Order, Querier, QuerierResult, QuerierWrapper,
    Record, RecoverPubkeyError, StdError, StdResult, Storage, SystemError, SystemResult, Timestamp,
    TransactionInfo, VerificationError, WasmMsg, Coin, Uint128,
};
use cw20::Cw20ExecuteMsg;
use oraiswap_v3::contract;
use oraiswap_v3::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use std::collections::BTreeMap;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const CONTRACT: &str = "orai1contract";
pub const ADMIN: &str = "orai1admin";

#[derive(Clone, Default, PartialEq, Eq)]
pub struct Mem {
    pub m: BTreeMap<Vec<u8>, Vec<u8>>,
}
impl Storage for Mem {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.m.get(key).cloned()
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        let s = start.map_or(Bound::Unbounded, |x| Bound::Included(x.to_vec()));
        let e = end.map_or(Bound::Unbounded, |x| Bound::Excluded(x.to_vec()));
        if let (Bound::Included(a), Bound::Excluded(b)) = (&s, &e) {
            if a > b {
                return Box::new(std::iter::empty());
            }
        }
        let it = self.m.range((s, e));
        match order {
            Order::Ascending => Box::new(it.map(|(k, v)| (k.clone(), v.clone()))),
            Order::Descending => Box::new(it.rev().map(|(k, v)| (k.clone(), v.clone()))),
        }
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.m.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.m.remove(key);
    }
}

pub struct ChainApi;
impl Api for ChainApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.starts_with("orai1") && human.len() >= 7 && human.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit()) {
            Ok(Addr::unchecked(human))
        } else {
            Err(StdError::generic_err("invalid address"))
        }
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        Ok(CanonicalAddr(Binary(human.as_bytes().to_vec())))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        String::from_utf8(c.0 .0.clone()).map(Addr::unchecked).map_err(|_| StdError::generic_err("bad canonical"))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        unimplemented!()
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn debug(&self, _: &str) {}
}
struct NoQuerier;
impl Querier for NoQuerier {
    fn raw_query(&self, _: &[u8]) -> QuerierResult {
        SystemResult::Err(SystemError::Unknown {})
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Transfer {
    pub from: String,
    pub to: String,
    pub token: String,
    pub amount: u128,
}

#[derive(Clone, Debug)]
pub enum ExecErr {
    /// the contract returned an error
    Contract(String),
    /// the contract panicked (aborts the transaction on chain)
    Panic(String),
    /// the contract returned Ok but one of its messages failed
    Sub(String),
    /// sender cannot attach the funds
    Funds,
}
impl ExecErr {
    pub fn text(&self) -> String {
        format!("{self:?}")
    }
}

pub struct ExecOk {
    pub transfers: Vec<Transfer>,
    pub attrs: Vec<(String, String)>,
    /// (contract, sender, token_id, msg) of every ReceiveNft hook
    pub nft_hooks: Vec<(String, String, Vec<u8>, Option<Vec<u8>>)>,
}

#[derive(Clone)]
pub struct Chain {
    pub store: Mem,
    pub bal: BTreeMap<(String, String), u128>,
    pub nanos: u64,
    pub height: u64,
}

pub fn is_cw20(token: &str) -> bool {
    ChainApi.addr_validate(token).is_ok()
}

#[derive(serde::Deserialize)]
struct RcvInner {
    sender: String,
    token_id: Binary,
    msg: Option<Binary>,
}
#[derive(serde::Deserialize)]
#[serde(rename_all = "snake_case")]
enum Rcv {
    ReceiveNft(RcvInner),
}

impl Chain {
    pub fn new(protocol_fee: u64) -> Chain {
        Chain::deploy(ADMIN, protocol_fee)
    }
    pub fn deploy(by: &str, protocol_fee: u64) -> Chain {
        let mut c = Chain { store: Mem::default(), bal: BTreeMap::new(), nanos: 1_700_000_000_000_000_000, height: 100 };
        let env = c.env();
        let info = MessageInfo { sender: Addr::unchecked(by), funds: vec![] };
        let q = NoQuerier;
        use decimal::Decimal;
        contract::instantiate(
            DepsMut { storage: &mut c.store, api: &ChainApi, querier: QuerierWrapper::new(&q) },
            env,
            info,
            InstantiateMsg { protocol_fee: oraiswap_v3::percentage::Percentage::new(protocol_fee) },
        )
        .expect("instantiate");
        c
    }
    pub fn env(&self) -> Env {
        Env {
            block: BlockInfo { height: self.height, time: Timestamp::from_nanos(self.nanos), chain_id: "orai".into() },
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo { address: Addr::unchecked(CONTRACT) },
        }
    }
    pub fn balance(&self, who: &str, token: &str) -> u128 {
        self.bal.get(&(who.to_string(), token.to_string())).copied().unwrap_or(0)
    }
    pub fn mint(&mut self, who: &str, token: &str, amt: u128) {
        *self.bal.entry((who.to_string(), token.to_string())).or_insert(0) += amt;
    }
    fn mv(bal: &mut BTreeMap<(String, String), u128>, log: &mut Vec<Transfer>, from: &str, to: &str, token: &str, amt: u128) -> Result<(), String> {
        let b = bal.get(&(from.to_string(), token.to_string())).copied().unwrap_or(0);
        if b < amt {
            return Err(format!("{from} has {b} {token}, needs {amt}"));
        }
        bal.insert((from.to_string(), token.to_string()), b - amt);
        let e = bal.entry((to.to_string(), token.to_string())).or_insert(0);
        *e = e.checked_add(amt).ok_or("balance overflow")?;
        log.push(Transfer { from: from.into(), to: to.into(), token: token.into(), amount: amt });
        Ok(())
    }
    /// Sends `msg` with `funds` attached. Rolls everything back on failure.
    pub fn exec(&mut self, sender: &str, funds: &[(String, u128)], msg: &ExecuteMsg) -> Result<ExecOk, ExecErr> {
        let raw = to_vec(msg).expect("serialise msg");
        self.exec_raw(sender, funds, &raw)
    }
    pub fn exec_raw(&mut self, sender: &str, funds: &[(String, u128)], raw: &[u8]) -> Result<ExecOk, ExecErr> {
        let snap_store = self.store.clone();
        let snap_bal = self.bal.clone();
        let r = self.exec_inner(sender, funds, raw);
        if r.is_err() {
            self.store = snap_store;
            self.bal = snap_bal;
        }
        r
    }
    fn exec_inner(&mut self, sender: &str, funds: &[(String, u128)], raw: &[u8]) -> Result<ExecOk, ExecErr> {
        let mut log = vec![];
        for (d, a) in funds {
            Self::mv(&mut self.bal, &mut log, sender, CONTRACT, d, *a).map_err(|_| ExecErr::Funds)?;
        }
        let msg: ExecuteMsg = from_slice(raw).map_err(|e| ExecErr::Contract(format!("parse: {e}")))?;
        let env = self.env();
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds: funds.iter().map(|(d, a)| Coin { denom: d.clone(), amount: Uint128::new(*a) }).collect(),
        };
        let q = NoQuerier;
        let store = &mut self.store;
        let r = catch_unwind(AssertUnwindSafe(|| {
            contract::execute(DepsMut { storage: store, api: &ChainApi, querier: QuerierWrapper::new(&q) }, env, info, msg)
        }));
        let resp = match r {
            Err(e) => return Err(ExecErr::Panic({ let _ = e; "panic".to_string() })),
            Ok(Err(e)) => return Err(ExecErr::Contract(format!("{e:?}"))),
            Ok(Ok(r)) => r,
        };
        let mut hooks = vec![];
        for sm in resp.messages {
            match sm.msg {
                CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                    for c in amount {
                        Self::mv(&mut self.bal, &mut log, CONTRACT, &to_address, &c.denom, c.amount.u128()).map_err(ExecErr::Sub)?;
                    }
                }
                CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) => {
                    if let Ok(m) = from_slice::<Cw20ExecuteMsg>(&msg) {
                        match m {
                            Cw20ExecuteMsg::Transfer { recipient, amount } => {
                                Self::mv(&mut self.bal, &mut log, CONTRACT, &recipient, &contract_addr, amount.u128()).map_err(ExecErr::Sub)?
                            }
                            Cw20ExecuteMsg::TransferFrom { owner, recipient, amount } => {
                                Self::mv(&mut self.bal, &mut log, &owner, &recipient, &contract_addr, amount.u128()).map_err(ExecErr::Sub)?
                            }
                            other => return Err(ExecErr::Sub(format!("unexpected cw20 message {other:?}"))),
                        }
                    } else if let Ok(Rcv::ReceiveNft(i)) = from_slice::<Rcv>(&msg) {
                        hooks.push((contract_addr, i.sender, i.token_id.to_vec(), i.msg.map(|m| m.to_vec())));
                    } else {
                        return Err(ExecErr::Sub(format!("unknown wasm message to {contract_addr}")));
                    }
                }
                other => return Err(ExecErr::Sub(format!("unknown message {other:?}"))),
            }
        }
        Ok(ExecOk {
            transfers: log,
            attrs: resp.attributes.into_iter().map(|a| (a.key, a.value)).collect(),
            nft_hooks: hooks,
        })
    }
    pub fn migrate(&mut self) -> Result<(), ExecErr> {
        let env = self.env();
        let q = NoQuerier;
        let store = &mut self.store;
        let r = catch_unwind(AssertUnwindSafe(|| {
            contract::migrate(DepsMut { storage: store, api: &ChainApi, querier: QuerierWrapper::new(&q) }, env, oraiswap_v3::msg::MigrateMsg {})
        }));
        match r {
            Err(e) => Err(ExecErr::Panic({ let _ = e; "panic".to_string() })),
            Ok(Err(e)) => Err(ExecErr::Contract(format!("{e:?}"))),
            Ok(Ok(r)) if r.messages.is_empty() => Ok(()),
            Ok(Ok(r)) => Err(ExecErr::Sub(format!("migration sends {:?}", r.messages))),
        }
    }
    pub fn query_raw(&self, msg: &QueryMsg) -> Result<Vec<u8>, ExecErr> {
        let raw = to_vec(msg).expect("serialise query");
        let msg: QueryMsg = from_slice(&raw).map_err(|e| ExecErr::Contract(format!("parse: {e}")))?;
        let env = self.env();
        let q = NoQuerier;
        let r = catch_unwind(AssertUnwindSafe(|| {
            contract::query(Deps { storage: &self.store, api: &ChainApi, querier: QuerierWrapper::new(&q) }, env, msg)
        }));
        match r {
            Err(e) => Err(ExecErr::Panic({ let _ = e; "panic".to_string() })),
            Ok(Err(e)) => Err(ExecErr::Contract(format!("{e:?}"))),
            Ok(Ok(b)) => Ok(b.to_vec()),
        }
    }
    pub fn query<T: serde::de::DeserializeOwned>(&self, msg: &QueryMsg) -> Result<T, ExecErr> {
        let b = self.query_raw(msg)?;
        from_slice(&b).map_err(|e| ExecErr::Contract(format!("cannot parse answer: {e}")))
    }
}
