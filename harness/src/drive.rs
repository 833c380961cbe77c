//! Drives a generated history and hands every step to a check.
use crate::chain::*;
use crate::hist::*;
use crate::model::*;
use crate::report::{Ctx, Violation};
use crate::tape::Tape;
use decimal::Decimal;

pub struct Seen<'a> {
    pub c: &'a Call,
    pub pred: &'a Pred,
    pub res: &'a Result<ExecOk, ExecErr>,
    /// chain and model before the call
    pub before: &'a Chain,
    pub old: &'a Model,
}
impl<'a> Seen<'a> {
    pub fn both_ok(&self) -> bool {
        self.res.is_ok() && self.pred.ok.is_some()
    }
    /// the contract refused what the model says must be accepted
    pub fn refused(&self) -> bool {
        self.res.is_err() && self.pred.ok.is_some() && !self.pred.wide
    }
    /// the contract accepted what the model says must be refused
    pub fn overaccepted(&self) -> bool {
        self.res.is_ok() && self.pred.ok.is_none() && !self.pred.wide
    }
    pub fn show(&self) -> String {
        let r = match self.res {
            Ok(_) => "ok".to_string(),
            Err(e) => e.text(),
        };
        let p = match &self.pred.ok {
            Some(_) => "accept".to_string(),
            None => format!("refuse ({})", self.pred.why),
        };
        format!("{} {:?} funds {:?}: contract {}, model says {}", self.c.sender, self.c.op, self.c.funds, r, p)
    }
    pub fn moved(&self, w: &World, who: &str, tok: &str) -> i128 {
        w.chain.balance(who, tok) as i128 - self.before.balance(who, tok) as i128
    }
}

#[derive(PartialEq)]
pub enum Flow {
    Go,
    Stop,
}

/// Runs one call on both sides; returns what was seen through `f`, keeps the model in step.
pub fn step(
    w: &mut World,
    ctx: &mut Ctx,
    c: &Call,
    f: &mut dyn FnMut(&mut World, &mut Ctx, &Seen) -> Result<Flow, Violation>,
) -> Result<Flow, Violation> {
    let pred = w.predict(c);
    let before = w.chain.clone();
    let old = w.model.clone();
    let res = w.exec(c);
    ctx.evals += 1;
    ctx.log(|| {
        let r = match &res {
            Ok(o) => format!("ok {}", show_transfers(&o.transfers)),
            Err(e) => e.text(),
        };
        let ps = if std::env::var("VERIF_POOLS").is_ok() {
            let v: Vec<_> = w.pools().iter().filter_map(|k| w.q_pool(k).ok()).map(|p| (p.sqrt_price.get(), p.current_tick_index, p.liquidity.get())).collect();
            format!(" {v:?}")
        } else {
            String::new()
        };
        format!("{} {:?} funds {:?} -> {}{}", c.sender, c.op, c.funds, r, ps)
    });
    if let (Ok(_), Some((m, _, _))) = (&res, &pred.ok) {
        w.model = m.clone();
    }
    let seen = Seen { c, pred: &pred, res: &res, before: &before, old: &old };
    let fl = f(w, ctx, &seen)?;
    if fl == Flow::Stop {
        return Ok(Flow::Stop);
    }
    if res.is_ok() != pred.ok.is_some() {
        if res.is_err() && pred.wide {
            ctx.label("refused at integer-width limit");
            return Ok(Flow::Go);
        }
        // not this check's concern, but the model is out of step now
        ctx.label("model out of step");
        return Ok(Flow::Stop);
    }
    Ok(Flow::Go)
}

pub fn show_transfers(t: &[Transfer]) -> String {
    t.iter().map(|x| format!("[{} {} {}->{}]", x.amount, x.token, x.from, x.to)).collect::<Vec<_>>().join(" ")
}

pub fn history(
    w: &mut World,
    t: &mut Tape,
    ctx: &mut Ctx,
    f: &mut dyn FnMut(&mut World, &mut Ctx, &Seen) -> Result<Flow, Violation>,
) -> Result<Flow, Violation> {
    let n = w.cfg.min_ops + t.below(w.cfg.max_ops - w.cfg.min_ops + 1);
    let mut last: Option<Call> = None;
    for i in 0..n {
        t.begin();
        // start with some liquidity
        let c = if i < 2 && w.cfg.w[K_CREATE] > 0 {
            let mut save = w.cfg.w;
            std::mem::swap(&mut save, &mut w.cfg.w);
            w.cfg.w = [0; NK];
            w.cfg.w[K_CREATE] = 1;
            let c = w.gen(t, last.as_ref());
            w.cfg.w = save;
            c
        } else {
            w.gen(t, last.as_ref())
        };
        let mut r = Ok(Flow::Go);
        if let Some(c) = c {
            r = step(w, ctx, &c, f);
            last = Some(c);
        }
        t.end();
        if r? == Flow::Stop {
            return Ok(Flow::Stop);
        }
    }
    Ok(Flow::Go)
}
