//! C18: the decimal library against exact rational arithmetic.
use crate::big::{div_up, p10, W};
use crate::report::*;
use crate::tape::Tape;
use crate::check;
use decimal::*;
use oraiswap_v3::fee_growth::FeeGrowth;
use oraiswap_v3::fixed_point::FixedPoint;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::seconds_per_liquidity::SecondsPerLiquidity;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use std::panic::{catch_unwind, AssertUnwindSafe};

// types of the library's own, with other widths, scales, big types and a named field
#[decimal(3, u128)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
pub struct D3(u32);
#[decimal(1)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
pub struct D1 {
    v: u16,
}
#[decimal(0)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
pub struct D0(u8);
#[decimal(9)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
pub struct D9(u64);
#[decimal(37)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
pub struct D37(u128);
#[decimal(2)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
pub struct D2(u8);

pub trait Meta: Decimal + Copy + std::fmt::Display {
    const NAME: &'static str;
    const SCALE: u32;
    const BITS: u32;
    const BIGBITS: u32;
    fn mk(v: u128) -> Self;
    fn raw(self) -> u128;
}
macro_rules! meta {
    ($($t:ident, $u:ty, $s:expr, $bb:expr;)*) => {$(
        impl Meta for $t {
            const NAME: &'static str = stringify!($t);
            const SCALE: u32 = $s;
            const BITS: u32 = <$u>::BITS;
            const BIGBITS: u32 = $bb;
            fn mk(v: u128) -> Self { Self::new(v as $u) }
            fn raw(self) -> u128 { self.get() as u128 }
        }
    )*};
}
meta! {
    TokenAmount, u128, 0, 256; SqrtPrice, u128, 24, 256; Liquidity, u128, 6, 256; FeeGrowth, u128, 28, 256;
    Percentage, u64, 12, 256; FixedPoint, u128, 12, 256; SecondsPerLiquidity, u128, 24, 256;
    D3, u32, 3, 128; D1, u16, 1, 256; D0, u8, 0, 256; D9, u64, 9, 256; D37, u128, 37, 256; D2, u8, 2, 256;
}
trait ToW {
    fn to_w(self) -> W;
}
impl ToW for U256 {
    fn to_w(self) -> W {
        let mut b = [0u8; 32];
        self.to_little_endian(&mut b);
        W::from_little_endian(&b)
    }
}
impl ToW for u128 {
    fn to_w(self) -> W {
        W::from(self)
    }
}
fn from_w256(x: W) -> U256 {
    let mut b = [0u8; 64];
    x.to_little_endian(&mut b);
    U256::from_little_endian(&b[..32])
}

#[inline(never)]
fn fits(x: W, bits: u32) -> bool {
    x.bits() as u32 <= bits
}

/// `exact`: the mathematically exact rounded result (None: undefined, e.g. division by zero);
/// `inter`: whether every documented intermediate fits its integer width; `bits`: result width
#[inline(never)]
fn judge(what: &dyn Fn() -> String, got: Option<W>, exact: Option<W>, inter: bool, bits: u32) -> Res {
    match (got, exact) {
        (Some(g), None) => fail("undefined", format!("{} gave {g} where no value exists", what())),
        (Some(g), Some(e)) => {
            check!(g == e, "value", "{} gave {g}, exact is {e}", what());
            Ok(())
        }
        (None, Some(e)) => {
            check!(!(inter && fits(e, bits)), "refused", "{} was refused although the exact result {e} and all intermediates fit", what());
            Ok(())
        }
        (None, None) => Ok(()),
    }
}

#[inline(never)]
fn gen(t: &mut Tape, bits: u32, scale: u32) -> u128 {
    let max: u128 = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let one = 10u128.pow(scale);
    (match t.below(9) {
        0 => t.below(4) as u128,
        1 => max - t.below(3) as u128,
        2 => one.min(max).saturating_sub(1) + t.below(3) as u128,
        3 => one.saturating_mul(t.log_u128(40)),
        4 => 10u128.pow(t.below(39) as u32),
        5 => one.saturating_mul(t.log_u128(20)).saturating_add(1),
        6 => one.saturating_mul(t.log_u128(20)).saturating_sub(1),
        _ => t.log_u128(bits),
    })
    .min(max)
}

#[inline(never)]
fn mu(a: W, b: W) -> W {
    a * b
}
#[inline(never)]
fn dv(a: W, b: W) -> W {
    a / b
}
#[inline(never)]
fn inexact(a: W, b: W) -> bool {
    !(a % b).is_zero()
}

macro_rules! unary {
    ($t:ident, $big:ty, $tp:expr, $ctx:expr) => {{
        #[inline(never)]
        fn go(t: &mut Tape, ctx: &mut Ctx) -> Res {
        let (a, b) = (gen(t, $t::BITS, $t::SCALE), gen(t, $t::BITS, $t::SCALE));
        let (x, y) = ($t::mk(a), $t::mk(b));
        let one = p10($t::SCALE);
        let (wa, wb) = (W::from(a), W::from(b));
        let n = $t::NAME;
        let bits = $t::BITS;
        ctx.log(|| format!("{n}: a={a} b={b}"));
        check!(x.raw() == a, "get", "{n}::new({a}).get() = {}", x.raw());
        check!($t::scale() as u32 == $t::SCALE, "scale", "{n}::scale() = {}", $t::scale());
        judge(&|| format!("{n} {a} + {b}"), quiet(|| (x + y).raw().to_w()), Some(wa + wb), true, bits)?;
        judge(&|| format!("{n} {a} += {b}"), quiet(|| { let mut z = x; z += y; z.raw().to_w() }), Some(wa + wb), true, bits)?;
        judge(&|| format!("{n} {a}.checked_add({b})"), quiet(|| x.checked_add(y).ok()).flatten().map(|v| v.raw().to_w()), Some(wa + wb), true, bits)?;
        let d = if a >= b { Some(wa - wb) } else { None };
        judge(&|| format!("{n} {a} - {b}"), quiet(|| (x - y).raw().to_w()), d, true, bits)?;
        judge(&|| format!("{n} {a} -= {b}"), quiet(|| { let mut z = x; z -= y; z.raw().to_w() }), d, true, bits)?;
        judge(&|| format!("{n} {a}.checked_sub({b})"), quiet(|| x.checked_sub(y).ok()).flatten().map(|v| v.raw().to_w()), d, true, bits)?;
        let sa = if a >= b { wa - wb } else { wb - wa };
        judge(&|| format!("{n} {a}.sub_abs({b})"), quiet(|| x.sub_abs(y).raw().to_w()), Some(sa), true, bits)?;
        let q = if b == 0 { None } else { Some(dv(mu(wa, one), wb)) };
        judge(&|| format!("{n} {a}.checked_div({b})"), quiet(|| x.checked_div(y).ok()).flatten().map(|v| v.raw().to_w()), q, fits(mu(wa, one), bits), bits)?;
        judge(&|| format!("{n} {a} *= {b}"), quiet(|| { let mut z = x; z *= y; z.raw().to_w() }), Some(dv(mu(wa, wb), one)), fits(mu(wa, wb), bits), bits)?;
        judge(&|| format!("{n} {a} /= {b}"), quiet(|| { let mut z = x; z /= y; z.raw().to_w() }), q, fits(mu(wa, one), bits), bits)?;
        // factories
        judge(&|| format!("{n}::from_integer({a})"), quiet(|| $t::from_integer(a).raw().to_w()), Some(mu(wa, one)), fits(wa, bits), bits)?;
        let s = t.below(40) as u32;
        let v = gen(t, 128, s.min(38));
        let wv = W::from(v);
        let (dn, up, inter) = if $t::SCALE > s {
            let m = p10($t::SCALE - s);
            (mu(wv, m), mu(wv, m), true)
        } else {
            let m = p10(s - $t::SCALE);
            // 10^39 and the addition of the denominator may exceed 128 bits
            (dv(wv, m), div_up(wv, m), s - $t::SCALE <= 38)
        };
        let inter_up = inter && ($t::SCALE > s || fits(wv + p10(s - $t::SCALE), 128));
        judge(&|| format!("{n}::from_scale({v}, {s})"), quiet(|| $t::from_scale(v, s as u8).raw().to_w()), Some(dn), inter, bits)?;
        judge(&|| format!("{n}::checked_from_scale({v}, {s})"), quiet(|| $t::checked_from_scale(v, s as u8).ok()).flatten().map(|v| v.raw().to_w()), Some(dn), inter, bits)?;
        judge(&|| format!("{n}::from_scale_up({v}, {s})"), quiet(|| $t::from_scale_up(v, s as u8).raw().to_w()), Some(up), inter_up, bits)?;
        // by a big number
        let k = if t.below(8) == 0 { W::from(0u8) } else { W::from(t.log_u128(127)) * W::from(1u128 << t.below(if $t::BIGBITS == 256 { 100 } else { 1 })) };
        let k = if fits(k, $t::BIGBITS) { k } else { W::from(7u8) };
        let num = mu(wa, one);
        let (fd, cd) = if k.is_zero() { (None, None) } else { (Some(dv(num, k)), Some(div_up(num, k))) };
        let i1 = fits(num, $t::BIGBITS);
        let i2 = fits(num + k, $t::BIGBITS);
        macro_rules! kk { () => { <$big>::kk(k) } }
        judge(&|| format!("{n} {a}.big_div_by_number({k})"), quiet(|| x.big_div_by_number(kk!()).raw().to_w()), fd, i1, bits)?;
        judge(&|| format!("{n} {a}.checked_big_div_by_number({k})"), quiet(|| x.checked_big_div_by_number(kk!()).ok()).flatten().map(|v| v.raw().to_w()), fd, i1, bits)?;
        judge(&|| format!("{n} {a}.big_div_by_number_up({k})"), quiet(|| x.big_div_by_number_up(kk!()).raw().to_w()), cd, i2, bits)?;
        judge(&|| format!("{n} {a}.checked_big_div_by_number_up({k})"), quiet(|| x.checked_big_div_by_number_up(kk!()).ok()).flatten().map(|v| v.raw().to_w()), cd, i2, bits)?;
        // text
        if let Some(st) = quiet(|| format!("{x}")) {
            let ok = match st.split_once('.') {
                None => st.parse::<u128>().ok() == Some(a) && $t::SCALE == 0,
                Some((i, f)) => match (i.parse::<u128>(), f.trim_start_matches('0')) {
                    (Ok(i), ft) => {
                        let fv = if ft.is_empty() { Some(0) } else { ft.parse::<u128>().ok() };
                        // i + f / 10^len(f) == a / 10^scale
                        fv.map_or(false, |fv| (W::from(i) * p10(f.len() as u32) + W::from(fv)) * one == wa * p10(f.len() as u32))
                    }
                    _ => false,
                },
            };
            check!(ok, "display", "{n}({a}) prints as {st}");
        } else {
            return fail("display", format!("{n}({a}) cannot be printed"));
        }
        ctx.evals += 18;
        Ok(())
        }
        go($tp, $ctx)?;
    }};
}
trait KK {
    fn kk(w: W) -> Self;
}
impl KK for U256 {
    fn kk(w: W) -> Self {
        from_w256(w)
    }
}
impl KK for u128 {
    fn kk(w: W) -> Self {
        w.low_u128()
    }
}

macro_rules! binary {
    ($t:ident, $r:ident, $tp:expr, $ctx:expr) => {{
        #[inline(never)]
        fn go(t: &mut Tape, ctx: &mut Ctx) -> Res {
        let a = gen(t, $t::BITS, $t::SCALE);
        let b = gen(t, $r::BITS, $r::SCALE);
        let (x, y) = ($t::mk(a), $r::mk(b));
        let one = p10($r::SCALE);
        let (wa, wb) = (W::from(a), W::from(b));
        let (n, m) = ($t::NAME, $r::NAME);
        let (bits, big) = ($t::BITS, $t::BIGBITS);
        ctx.log(|| format!("{n}: a={a}, {m}: b={b}"));
        let prod = mu(wa, wb);
        let num = mu(wa, one);
        let rfits = fits(wb, bits) && fits(one, bits);
        let al = one - W::from(1u8);
        let (q, qu) = if b == 0 { (None, None) } else { (Some(dv(num, wb)), Some(div_up(num, wb))) };
        judge(&|| format!("{n}({a}) * {m}({b})"), quiet(|| (x * y).raw().to_w()), Some(dv(prod, one)), rfits && fits(prod, bits), bits)?;
        judge(&|| format!("{n}({a}).mul_up({m}({b}))"), quiet(|| x.mul_up(y).raw().to_w()), Some(div_up(prod, one)), rfits && fits(prod + al, bits), bits)?;
        judge(&|| format!("{n}({a}) / {m}({b})"), quiet(|| (x / y).raw().to_w()), q, rfits && fits(num, bits), bits)?;
        judge(&|| format!("{n}({a}).div_up({m}({b}))"), quiet(|| x.div_up(y).raw().to_w()), qu, rfits && fits(num + wb, bits), bits)?;
        let bone = fits(one, big);
        judge(&|| format!("{n}({a}).big_mul({m}({b}))"), quiet(|| x.big_mul(y).raw().to_w()), Some(dv(prod, one)), bone && fits(prod, big), bits)?;
        judge(&|| format!("{n}({a}).big_mul_up({m}({b}))"), quiet(|| x.big_mul_up(y).raw().to_w()), Some(div_up(prod, one)), bone && fits(prod + al, big), bits)?;
        judge(&|| format!("{n}({a}).big_div({m}({b}))"), quiet(|| x.big_div(y).raw().to_w()), q, bone && fits(num, big), bits)?;
        judge(&|| format!("{n}({a}).checked_big_div({m}({b}))"), quiet(|| x.checked_big_div(y).ok()).flatten().map(|v| v.raw().to_w()), q, bone && fits(num, big), bits)?;
        judge(&|| format!("{n}({a}).big_div_up({m}({b}))"), quiet(|| x.big_div_up(y).raw().to_w()), qu, bone && fits(num + wb, big), bits)?;
        judge(&|| format!("{n}({a}).big_mul_to_value({m}({b}))"), quiet(|| x.big_mul_to_value(y).to_w()), Some(dv(prod, one)), bone && fits(prod, big), big)?;
        judge(&|| format!("{n}({a}).big_mul_to_value_up({m}({b}))"), quiet(|| x.big_mul_to_value_up(y).to_w()), Some(div_up(prod, one)), bone && fits(prod + al, big), big)?;
        // conversions between decimals
        let (dn, up, den) = if $t::SCALE > $r::SCALE {
            let m = p10($t::SCALE - $r::SCALE);
            (mu(wb, m), mu(wb, m), W::from(1u8))
        } else {
            let m = p10($r::SCALE - $t::SCALE);
            (dv(wb, m), div_up(wb, m), m)
        };
        // scaling up needs the operand and the factor in the target's type, scaling down the
        // factor in the operand's
        let inter = if $t::SCALE > $r::SCALE { fits(wb, bits) && fits(p10($t::SCALE - $r::SCALE), bits) } else { fits(den, $r::BITS) };
        let inter_up = inter && ($t::SCALE > $r::SCALE || fits(wb + den - W::from(1u8), $r::BITS));
        judge(&|| format!("{n}::from_decimal({m}({b}))"), quiet(|| $t::from_decimal(y).raw().to_w()), Some(dn), inter, bits)?;
        judge(&|| format!("{n}::checked_from_decimal({m}({b}))"), quiet(|| $t::checked_from_decimal(y).ok()).flatten().map(|v| v.raw().to_w()), Some(dn), inter, bits)?;
        judge(&|| format!("{n}::from_decimal_up({m}({b}))"), quiet(|| $t::from_decimal_up(y).raw().to_w()), Some(up), inter_up, bits)?;
        judge(&|| format!("{n}::checked_from_decimal_to_value({m}({b}))"), quiet(|| $t::checked_from_decimal_to_value(y).ok()).flatten().map(|v| v.to_w()), Some(dn), fits(wb, bits), big)?;
        if inexact(prod, one) || (b != 0 && inexact(num, wb)) {
            ctx.nontrivial = true;
        }
        ctx.evals += 15;
        Ok(())
        }
        go($tp, $ctx)?;
    }};
}

macro_rules! table {
    ($($t:ident, $big:ty);* ; @ $rs:tt) => {
        fn unary_at(i: u64, t: &mut Tape, ctx: &mut Ctx) -> Res {
            let mut k = 0u64;
            $( if i == k { unary!($t, $big, t, ctx); } k += 1; )*
            let _ = k;
            Ok(())
        }
        fn binary_at(i: u64, j: u64, t: &mut Tape, ctx: &mut Ctx) -> Res {
            let mut k = 0u64;
            $( if i == k { table!(@row $t, j, t, ctx, $rs); } k += 1; )*
            let _ = k;
            Ok(())
        }
    };
    (@row $t:ident, $j:ident, $tp:ident, $ctx:ident, [$($r:ident)*]) => {{
        let mut k = 0u64;
        $( if $j == k { binary!($t, $r, $tp, $ctx); } k += 1; )*
        let _ = k;
    }};
}
table! { TokenAmount, U256; SqrtPrice, U256; Liquidity, U256; FeeGrowth, U256; Percentage, U256; FixedPoint, U256; SecondsPerLiquidity, U256;
    D3, u128; D1, U256; D0, U256; D9, U256; D37, U256; D2, U256;
    @ [TokenAmount SqrtPrice Liquidity FeeGrowth Percentage FixedPoint SecondsPerLiquidity D3 D1 D0 D9 D37 D2] }

pub fn c18(t: &mut Tape, ctx: &mut Ctx) -> Res {
    for _ in 0..1 + t.below(6) {
        t.begin();
        let (i, j) = (t.below(13), t.below(13));
        let r = unary_at(i, t, ctx).and_then(|_| binary_at(i, j, t, ctx));
        t.end();
        r?;
    }
    // the wide integers conversions go through
    t.begin();
    let mut x = W::from(0u8);
    for _ in 0..5 {
        x = (x << 64) | W::from(if t.below(3) == 0 { 0 } else { t.raw64() });
    }
    let x = x >> t.below(320) as usize;
    let mut b = [0u8; 64];
    x.to_little_endian(&mut b);
    let v320 = U320::from_little_endian(&b[..40]);
    let got = quiet(|| checked_u320_to_u256(v320)).flatten();
    judge(&|| format!("checked_u320_to_u256({x})"), got.map(|v| v.to_w()), Some(x), true, 256)?;
    if fits(x, 256) {
        let y = u256_to_u320(from_w256(x));
        check!(y == v320, "u256_to_u320", "u256_to_u320({x}) = {y}");
    }
    let v = x.low_u128();
    check!(to_u256(v).to_w() == W::from(v), "to_u256", "to_u256({v}) = {}", to_u256(v));
    t.end();
    Ok(())
}
