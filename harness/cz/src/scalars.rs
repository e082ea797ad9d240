//! S01, S02: the schema of a scalar against the values of its Rust type
use mz::{zod::num_ok, NoEnv, NumVal, Ty, Z};
use serde_json::{json, Value};
use zod_core::ZodType;

fn zt<T: ZodType>() -> (Z, Ty) {
    let z = mz::schema(&T::schema());
    zs::check(mz::schema(&T::inline_schema()) == z, "a scalar is referred to by another schema");
    let t = mz::ty(&T::type_def().to_string());
    zs::check(mz::ty(&T::inline().to_string()) == t, "a scalar is referred to by another type");
    (z, t)
}
/// largest and smallest value as sign and magnitude; None: no limit on that side
fn range(k: usize) -> (Z, Ty, Option<u128>, Option<u128>) {
    macro_rules! u { ($t:ty) => { { let (z, t) = zt::<$t>(); (z, t, Some(<$t>::MAX as u128), Some(0)) } } }
    macro_rules! i { ($t:ty) => { { let (z, t) = zt::<$t>(); (z, t, Some(<$t>::MAX as u128), Some(<$t>::MIN.unsigned_abs() as u128)) } } }
    match k {
        0 => u!(u8), 1 => u!(u16), 2 => u!(u32), 3 => u!(u64), 4 => u!(u128), 5 => { let (z, t) = zt::<usize>(); (z, t, None, Some(0)) }
        6 => i!(i8), 7 => i!(i16), 8 => i!(i32), 9 => i!(i64), 10 => i!(i128), _ => { let (z, t) = zt::<isize>(); (z, t, None, None) }
    }
}
/// every sign, magnitude of 128 bits, with and without a fraction
pub fn int_range() {
    let (z, t, max, min) = range(zs::choice(12));
    zs::check(t == Ty::Prim("number".into()), "the TypeScript type of an integer is not number");
    let Z::Num(c) = z else { zs::fail("the schema of an integer is not one of a number") };
    let mag = zs::u64() as u128 | (zs::u64() as u128) << 64;
    let neg = zs::byte(0, 1) == 1;
    let frac = zs::byte(0, 1) == 1;
    let inside = !frac && if neg { min.map_or(true, |m| mag <= m) } else { max.map_or(true, |m| mag <= m) };
    let got = num_ok(&c, &NumVal { neg, mag, frac });
    if inside { zs::cover(1); zs::check(got, "the schema rejects a value of the integer type") }
    else { zs::cover(2); zs::check(!got, "the schema accepts a number that is no value of the integer type") }
}
/// what serde reads and writes for the integer types of up to 64 bits; what it reads in windows of 256 around every power of two that is a limit
pub fn int_serde() {
    macro_rules! go { ($t:ty) => { {
        let (z, t) = zt::<$t>();
        if zs::flag() {
            let w = serde_json::to_value(zs::u64() as $t).unwrap();
            zs::check(z.accepts(Some(&w), &NoEnv, false), "the schema rejects what serde writes");
            zs::check(t.admits(Some(&w), &NoEnv), "the type does not admit what serde writes");
            zs::cover(3);
            return
        }
        let raw = [0u64, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63, (1u64 << 7).wrapping_neg(), (1u64 << 15).wrapping_neg(), (1u64 << 31).wrapping_neg()][zs::choice(11)].wrapping_add(zs::byte(0, 255) as u64).wrapping_sub(128);
        let v: Value = if zs::flag() { Value::from(raw) } else { Value::from(raw as i64) };
        let reads = serde_json::from_value::<$t>(v.clone()).is_ok();
        let accepts = z.accepts(Some(&v), &NoEnv, false);
        if reads { zs::cover(1); zs::check(accepts, "the schema rejects a number serde reads") } else { zs::cover(2); zs::check(!accepts, "the schema accepts a number serde does not read") }
        zs::check(t.admits(Some(&v), &NoEnv), "the type does not admit a number");
    } } }
    match zs::choice(8) { 0 => go!(u8), 1 => go!(u16), 2 => go!(u32), 3 => go!(u64), 4 => go!(i8), 5 => go!(i16), 6 => go!(i32), _ => go!(i64) }
}
fn value<T: ZodType + serde::Serialize>(x: T) {
    let (z, t) = zt::<T>();
    let v = serde_json::to_value(x).unwrap();
    zs::check(z.accepts(Some(&v), &NoEnv, false), "the schema rejects what serde writes for the value");
    zs::check(t.admits(Some(&v), &NoEnv), "the type does not admit what serde writes for the value");
    zs::cover(1);
}
/// every char
pub fn chars() {
    let b = zs::bytes(3, 0, 255);
    let n = b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16;
    zs::assume(n < 0x110000 && !(0xd800..0xe000).contains(&n));
    let Some(c) = char::from_u32(n) else { zs::fail("no char") };
    value(c)
}
/// texts of `param 0` arbitrary chars
pub fn text() {
    let mut s = String::new();
    for _ in 0..zs::param(0) {
        let b = zs::bytes(3, 0, 255);
        let n = b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16;
        zs::assume(n < 0x110000 && !(0xd800..0xe000).contains(&n));
        let Some(c) = char::from_u32(n) else { zs::fail("no char") };
        s.push(c);
    }
    match zs::choice(3) {
        0 => value(s),
        1 => { let l: &'static str = Box::leak(s.into_boxed_str()); value(l) }
        _ => value(smol_str::SmolStr::new(s)),
    }
}
pub fn bool_unit() { if zs::flag() { value(zs::byte(0, 1) == 1) } else { value(()) } }
/// every finite magnitude against the limits of the schema; a list of values against what serde writes
pub fn float() {
    if zs::flag() {
        macro_rules! z { ($t:ty) => { zt::<$t>().0 } }
        let k = zs::choice(4);
        let z = match k { 0 => z!(f32), 1 => z!(f64), 2 => z!(ordered_float::NotNan<f32>), _ => z!(ordered_float::NotNan<f64>) };
        let Z::Num(c) = z else { zs::fail("the schema of a float is not one of a number") };
        let n = NumVal { neg: zs::byte(0, 1) == 1, mag: zs::u64() as u128 | (zs::u64() as u128) << 64, frac: zs::byte(0, 1) == 1 };
        // beyond the largest f32 there is nothing to accept
        if k % 2 == 0 { zs::assume(n.mag < f32::MAX as u128 || n.mag == f32::MAX as u128 && !n.frac) }
        zs::check(num_ok(&c, &n), "the schema rejects a finite number");
        zs::cover(2);
        return
    }
    let i = zs::choice(9);
    let x = [0.0f64, -0.0, 0.1, 1.5, -2.75, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON][i];
    let y = [0.0f32, -0.0, 0.1, 1.5, -2.75, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON][i];
    match zs::choice(4) { 0 => value(x), 1 => value(y), 2 => value(ordered_float::NotNan::new(x).unwrap()), _ => value(ordered_float::NotNan::new(y).unwrap()) }
}
pub fn ip() {
    use std::net::*;
    let v4 = || { let at = zs::choice(4); let mut o = [[127, 0, 0, 1], [255, 255, 255, 255], [0, 0, 0, 0]][zs::choice(3)]; o[at] = zs::byte(0, 255); Ipv4Addr::from(o) };
    let v6 = || {
        // any set of zero segments, the others one symbolic value
        let mask = zs::choice(256);
        let b = zs::bytes(2, 0, 255);
        let x = b[0] as u16 | (b[1] as u16) << 8;
        let mut s = [0u16; 8];
        for i in 0..8 { if mask >> i & 1 == 1 { s[i] = x } }
        Ipv6Addr::from(s)
    };
    match zs::choice(4) { 0 => value(v4()), 1 => value(v6()), 2 => value(IpAddr::V4(v4())), _ => value(IpAddr::V6(v6())) }
}
/// values of another JSON kind are rejected
pub fn kinds() {
    macro_rules! go { ($k:expr, $t:ty) => { { let (z, t) = zt::<$t>(); (z, t, $k) } } }
    let (z, t, kind) = match zs::choice(14) {
        0 => go!(1, bool), 1 => go!(3, char), 2 => go!(3, String), 3 => go!(3, &'static str), 4 => go!(2, f32), 5 => go!(2, f64), 6 => go!(0, ()), 7 => go!(3, std::net::Ipv4Addr), 8 => go!(3, std::net::Ipv6Addr), 9 => go!(3, std::net::IpAddr),
        10 => go!(3, smol_str::SmolStr), 11 => go!(2, ordered_float::NotNan<f32>), 12 => go!(2, ordered_float::NotNan<f64>),
        _ => { let (z, t, _, _) = range(zs::choice(12)); (z, t, 2) }
    };
    let other = zs::choice(6);
    let n = zs::byte(0, 255);
    let s = zs::ascii_in(2, "0123456789truefalsenull.:-");
    let v = match other { 0 => Value::Null, 1 => Value::Bool(n > 127), 2 => json!(n), 3 => Value::String(s), 4 => json!([n]), _ => json!({ "a": n }) };
    if other == kind { zs::cover(1); zs::check(t.admits(Some(&v), &NoEnv), "the type names another JSON kind") }
    else { zs::cover(2); zs::check(!z.accepts(Some(&v), &NoEnv, true), "the schema accepts a value of another JSON kind"); zs::check(!t.admits(Some(&v), &NoEnv), "the type admits a value of another JSON kind") }
    zs::check(!z.accepts(None, &NoEnv, true) && !t.admits(None, &NoEnv), "the schema or type of a scalar accepts a missing value");
}
