#![allow(dead_code, unused_imports, unused_variables)]
mod big;
mod checks_lib;
mod model;
mod report;
mod tape;
use report::Check;

const ASM: &[&str] = &[
    "a refusal (panic or error) is accepted where an operand, the result or the product/sum formed before the final division exceeds the operation's integer type",
];

fn checks() -> Vec<Check> {
    let c = |id, gen, rule, quick: u64, thorough: u64, case, exhaustive| Check {
        id, level: "exploration", gen, rule, assumptions: ASM, quick_cases: quick, thorough_cases: thorough, case, exhaustive,
    };
    vec![
        c("C13", "after the exhaustive part, each case draws eight (price, spacing) pairs, biased to prices just above and below a tick's, and converts them with the contract's functions and the SDK's.",
          "A case is non-trivial when a price lies strictly between two ticks.", 300_000, 60_000_000, checks_lib::c13, Some(checks_lib::c13_all as fn(bool) -> _)),
        c("C14", "each case is a generated sequence of initialise/de-initialise operations on the bitmaps of three pools sharing one store (and on the SDK's tickmap) with searches in both directions from ticks at, next to, 255/256/257 steps from initialised ones, at chunk borders and at the ends of the grid, against an ordered set.",
          "A case is non-trivial when a search found an initialised tick.", 300_000, 30_000_000, checks_lib::c14, None),
        c("C17", "each case picks functions the SDK shares with the contract and runs both on the same boundary-biased prices, liquidities, amounts, fees and ticks.",
          "A case is non-trivial when at least one pair of calls returned a value.", 600_000, 100_000_000, checks_lib::c17, Some(checks_lib::c17_consts as fn(bool) -> _)),
        c("C20", "each case draws a tick range, a price at, next to, inside or outside its bounds, amounts of both tokens and a rounding direction, and compares the helpers of the contract and the SDK with exact arithmetic.",
          "A case is non-trivial when get_liquidity returned a liquidity for the offered amounts.", 500_000, 100_000_000, checks_lib::c20, None),
    ]
}

fn main() {
    report::cli(checks())
}
