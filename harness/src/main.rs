#![allow(dead_code, unused_imports, unused_variables)]
mod big;
mod chain;
mod checks_ev;
mod checks_hist;
mod checks_more;
mod checks_cost;
mod checks_obs;
mod checks_wire;
mod drive;
mod hist;
mod model;
mod report;
mod tape;
use report::Check;

const G: &str = "each case is a fresh chain with generated tokens (native and cw20), tiers, pools (spacing 1..100, fee 0..<100%, any price), protocol fee and users, then a generated sequence of calls (valid, boundary and invalid) executed on the real contract through instantiate/execute/query next to the reference model";
const AS: &[&str] = &[
    "the simulated chain (bank, cw20 ledger, atomic rollback, block time and height) behaves like CosmWasm's",
    "protocol fee is at most 100%",
    "a refusal is accepted without verdict where an intermediate of the documented computation exceeds its integer width",
];

fn checks() -> Vec<Check> {
    let c = |id, rule, quick: u64, thorough: u64, case| Check {
        id, level: "exploration", gen: G, rule, assumptions: AS, quick_cases: quick, thorough_cases: thorough, case, exhaustive: None,
    };
    vec![
        c("C01", "A case is non-trivial when a swap crossed an initialised tick before the holders left.", 50000, 1000000, checks_hist::c01),
        c("C02", "A case is non-trivial when a call succeeded that involved a native token.", 40000, 1000000, checks_hist::c02),
        c("C03", "A case is non-trivial when a swap of more than one step moved the price.", 50000, 1000000, checks_hist::c03),
        c("C04", "A case is non-trivial when the attacking account completed at least two operations.", 50000, 1000000, checks_hist::c04),
        c("C05", "A case is non-trivial when a swap crossed an initialised tick.", 40000, 1000000, checks_hist::c05),
        c("C06", "A case is non-trivial when owed fees were compared with the model after an initialised tick had been crossed.", 50000, 1000000, checks_more::c06),
        c("C07", "A case is non-trivial when at least two calls changed or withdrew protocol fees.", 50000, 1000000, checks_more::c07),
        c("C08", "A case is non-trivial when, after a role was handed over, an unauthorised call was refused.", 40000, 1000000, checks_more::c08),
        c("C09", "A case is non-trivial when somebody other than the owner acted on a position under a grant.", 40000, 1000000, checks_more::c09),
        c("C10", "A case is non-trivial when more than one position was removed from, or left, the middle of a list.", 40000, 1000000, checks_more::c10),
        c("C11", "A case is non-trivial when a quote that crosses ticks or has several hops was compared with its execution.", 30000, 1000000, checks_more::c11),
        c("C12", "A case is non-trivial when a limit was met with equality, or a route minimum decided the outcome.", 40000, 1000000, checks_more::c12),
        c("C15", "A case is non-trivial when more than two pools were registered.", 40000, 1000000, checks_more::c15),
        c("C19", "A case is non-trivial when a position was closed whose exact value is not a whole number of units.", 40000, 1000000, checks_obs::c19),
        c("C21", "A case is non-trivial when calls executed while another pool with state existed.", 12000, 300000, checks_more::c21),
        c("C22", "A case is non-trivial when time passed between crossings of initialised ticks.", 40000, 1000000, checks_more::c22),
        c("C23", "A case is non-trivial when at least six calls of the history were accepted.", 30000, 1000000, checks_more::c23),
        c("C24", "A case is non-trivial when a bitmap window over several non-empty chunks was compared.", 30000, 1000000, checks_obs::c24),
        c("C25", "A case is non-trivial when a swap, route or removal succeeded and its event was compared with what happened.", 40000, 1000000, checks_ev::c25),
        Check { gen: "each case draws token names from a small alphabet (prefixes and concatenations of each other, other cases, non-ASCII, control characters, lengths around 1, 127, 255 and 300 bytes, contract addresses), fee tiers that differ in one byte, creates pools (in either token order, repeated, with equal tokens) and positions in them, and reads back every combination.", ..c("C26", "A case is non-trivial when two pools exist whose token names are prefixes of each other or concatenate to the same string.", 40000, 2000000, checks_ev::c26) },
        c("C27", "A case is non-trivial when at least three calls were accepted by both the migrated contract and its unmigrated twin.", 20000, 600000, checks_ev::c27),
        c("C29", "A case is non-trivial when at least three different messages written by hand as JSON were accepted and did what the typed ones did.", 30000, 800000, checks_wire::c29),
        c("C30", "A case is non-trivial when the cost of a call by someone with positions of their own was compared on a quiet and on a crowded chain.", 12000, 300000, checks_cost::c30),
    ]
}

fn main() {
    report::cli(checks())
}
