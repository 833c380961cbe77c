#![allow(dead_code, unused_imports, unused_variables)]
mod big;
mod checks_dec;
mod report;
mod tape;
use report::Check;

const ASM: &[&str] = &[
    "a refusal (panic or error) is accepted where an operand, the result or the product/sum formed before the final division exceeds the operation's integer type",
];

fn checks() -> Vec<Check> {
    let c = |id, gen, rule, quick: u64, thorough: u64, case, exhaustive| Check {
        id, level: "exploration", gen, rule, assumptions: ASM, quick_cases: quick, thorough_cases: thorough, case, exhaustive,
    };
    vec![
        c("C18", "each case draws pairs of decimal types (the contract's seven and six more with other widths, scales and big types), boundary-biased raw values for them, and runs every operation of the library on them against exact 512-bit integer arithmetic.",
          "A case is non-trivial when an exact quotient it tests is not representable, so rounding decides the result.", 300_000, 60_000_000, checks_dec::c18, None),
    ]
}

fn main() {
    report::cli(checks())
}
