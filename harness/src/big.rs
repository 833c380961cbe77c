#![allow(clippy::all)]
use uint::construct_uint;
construct_uint! { pub struct W(8); }

pub fn w(x: u128) -> W {
    W::from(x)
}
#[inline(never)]
pub fn p10(n: u32) -> W {
    static T: std::sync::OnceLock<Vec<W>> = std::sync::OnceLock::new();
    T.get_or_init(|| (0..80u32).map(|n| W::from(10u8).pow(W::from(n))).collect())[n as usize]
}
#[inline(never)]
pub fn div_up(a: W, b: W) -> W {
    (a + b - W::from(1u8)) / b
}
pub fn fit(x: W) -> Option<u128> {
    if x.bits() > 128 {
        None
    } else {
        Some(x.low_u128())
    }
}
