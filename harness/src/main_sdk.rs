#![allow(dead_code, unused_imports, unused_variables)]
mod big;
mod chain;
mod checks_sdk;
mod drive;
mod hist;
mod model;
mod report;
mod tape;
use report::Check;

fn main() {
    report::cli(vec![Check {
        id: "C16",
        level: "exploration",
        gen: "each case is a generated history of positions, swaps, claims and removals on the real contract; after every call, swaps drawn towards, at and past initialised ticks are quoted by the contract and simulated by the SDK on the pool, tick bitmap and liquidity ticks fetched from the contract (in shuffled order, sometimes with a tick withheld; some cases build up to 200 adjacent ranges).",
        rule: "A case is non-trivial when a simulation that crosses an initialised tick was compared with the contract's quote.",
        assumptions: &[
            "the JavaScript boundary (serde-wasm-bindgen) is replaced by JSON: there is no JS heap here",
            "a swap the contract refuses because a running total exceeds its integer width may still be simulated",
        ],
        quick_cases: 20_000,
        thorough_cases: 600_000,
        case: checks_sdk::c16,
        exhaustive: None,
    },
    Check {
        id: "C28",
        level: "exploration",
        gen: "each case is a generated history of positions, swaps, claims and removals on the real contract; before a position is opened its cost, and after every call the fees and the value of one open position, are computed by the SDK from what the contract's queries answer; the position is then claimed and closed on copies of the chain.",
        rule: "A case is non-trivial when the fees of a position that earned some were compared with what claiming and closing it pay.",
        assumptions: &["the JavaScript boundary is left out: SDK functions are called from Rust"],
        quick_cases: 20_000,
        thorough_cases: 800_000,
        case: checks_sdk::c28,
        exhaustive: None,
    }])
}
