//! N01: numbers put as f64; structs of as many fields as are supported
use crate::*;
use facet_reflect::Wip;
use std::num::*;

/// the integer a number stands for, sign and magnitude, if it is one below 2^128
fn integer(bits: u64) -> Option<(bool, u128)> {
    let neg = bits >> 63 == 1;
    let e = (bits >> 52 & 0x7ff) as i32;
    let frac = bits & ((1 << 52) - 1);
    let m = if e == 0 { frac } else { frac | 1 << 52 };
    let sh = if e == 0 { -1074 } else { e - 1075 };
    if m == 0 {
        return Some((neg, 0));
    }
    if sh > 75 {
        return None;
    }
    if sh >= 0 {
        return Some((neg, (m as u128) << sh));
    }
    if sh < -52 {
        return None;
    }
    let low = (1u64 << -sh) - 1;
    if m & low != 0 {
        return None;
    }
    Some((neg, (m >> -sh) as u128))
}
trait Int: Facet + Copy {
    /// (negative, magnitude)
    fn sm(self) -> (bool, u128);
    /// the largest magnitudes, negative and not
    const LIM: (u128, u128);
    const ZERO: bool;
}
macro_rules! ints {
    ($($t:ident $n:ident),*) => { $(
        impl Int for $t {
            fn sm(self) -> (bool, u128) { #[allow(unused_comparisons)] if self < 0 { (true, (self as i128).unsigned_abs()) } else { (false, self as u128) } }
            const LIM: (u128, u128) = (($t::MIN as i128).unsigned_abs(), $t::MAX as u128);
            const ZERO: bool = true;
        }
        impl Int for $n {
            fn sm(self) -> (bool, u128) { self.get().sm() }
            const LIM: (u128, u128) = <$t as Int>::LIM;
            const ZERO: bool = false;
        }
    )* };
}
ints!(u8 NonZeroU8, u16 NonZeroU16, u32 NonZeroU32, u64 NonZeroU64, u128 NonZeroU128, usize NonZeroUsize, i8 NonZeroI8, i16 NonZeroI16, i32 NonZeroI32, i64 NonZeroI64, i128 NonZeroI128,
    isize NonZeroIsize);

fn int<T: Int>(lo: u16, hi: u16) {
    let bits = any_u64();
    // exponents from lo to hi
    assume((bits >> 52 & 0x7ff) as u16 >= lo && (bits >> 52 & 0x7ff) as u16 <= hi);
    let x = f64::from_bits(bits);
    let want = integer(bits).filter(|(neg, mag)| *mag <= if *neg { T::LIM.0 } else { T::LIM.1 } && (T::ZERO || *mag != 0));
    let w = Wip::alloc::<T>();
    check(w.can_put_f64(), "a number can't be put where one goes");
    match w.try_put_f64(x) {
        Ok(w) => {
            let Some((neg, mag)) = want else { return fail("a number that isn't a value of the type was taken") };
            let Ok(v) = w.build().unwrap().materialize::<T>() else { return fail("the value isn't one of the type") };
            check(v.sm() == (neg && mag != 0, mag), "another number was stored");
            witness(0);
            out(&v.sm().1.to_le_bytes());
        }
        Err(_) => {
            check(want.is_none(), "a value of the type was refused");
            witness(1);
            out(b"refused");
        }
    }
}
fn f32s() {
    let bits = any_u64();
    let x = f64::from_bits(bits);
    match Wip::alloc::<f32>().try_put_f64(x) {
        Ok(w) => {
            let v = w.build().unwrap().materialize::<f32>().unwrap();
            check(x.abs() <= f32::MAX as f64, "a number that isn't a value of the type was taken");
            check(v.to_bits() == (x as f32).to_bits(), "another number was stored");
            witness(0);
            out(&v.to_bits().to_le_bytes());
        }
        Err(_) => {
            check(!(x.abs() <= f32::MAX as f64), "a value of the type was refused");
            witness(1);
        }
    }
}
fn f64s() {
    let bits = any_u64();
    let Ok(w) = Wip::alloc::<f64>().try_put_f64(f64::from_bits(bits)) else { return fail("a value of the type was refused") };
    let v = w.build().unwrap().materialize::<f64>().unwrap();
    check(v.to_bits() == bits, "another number was stored");
    witness(0);
}
#[derive(Facet)]
struct Pair {
    a: u8,
    b: u16,
}
fn other<T: Facet>() {
    let w = Wip::alloc::<T>();
    check(!w.can_put_f64(), "a number can be put where none goes");
    check(w.try_put_f64(f64::from_bits(any_u64())).is_err(), "a number was put where none goes");
    witness(0);
}
/// a number lands in its field only
#[derive(Facet)]
struct Around {
    a: u8,
    n: u16,
    b: u8,
    m: i32,
    c: u8,
}
fn around() {
    let (a, b, c) = (any_u8(), any_u8(), any_u8());
    let (n, m) = (any_u16(), any_u32() as i32);
    let f = |w: Wip<'static>, i: usize, x: f64| w.field(i).unwrap().try_put_f64(x).unwrap().pop().unwrap();
    let w = Wip::alloc::<Around>().field(0).unwrap().put(a).unwrap().pop().unwrap();
    let w = f(f(w, 3, m as f64), 1, n as f64);
    let w = w.field(2).unwrap().put(b).unwrap().pop().unwrap();
    let w = f(w, 4, c as f64);
    let v = w.build().unwrap().materialize::<Around>().unwrap();
    check(v.a == a && v.n == n && v.b == b && v.m == m && v.c == c, "a number put into a field is elsewhere, or another");
    witness(0);
    out(&[a, b, c]);
}
pub fn put(t: u64, lo: u64, hi: u64) {
    macro_rules! go {
        ($($i:literal $t:ident),*) => { match t { $($i => int::<$t>(lo as u16, hi as u16),)* 24 => f32s(), 25 => f64s(), 26 => other::<String>(), 27 => other::<bool>(), 28 => other::<char>(), 29 => other::<Vec<u8>>(),
            30 => other::<Pair>(), 31 => other::<Option<u8>>(), 32 => other::<()>(), 33 => other::<(u8,)>(), 34 => other::<&'static str>(), 35 => other::<[u8; 2]>(), 36 => other::<std::net::Ipv4Addr>(), _ => around() } };
    }
    go!(0 u8, 1 u16, 2 u32, 3 u64, 4 usize, 5 i8, 6 i16, 7 i32, 8 i64, 9 isize, 10 u128, 11 i128, 12 NonZeroU8, 13 NonZeroU16, 14 NonZeroU32, 15 NonZeroU64, 16 NonZeroUsize, 17 NonZeroI8,
        18 NonZeroI16, 19 NonZeroI32, 20 NonZeroI64, 21 NonZeroIsize, 22 NonZeroU128, 23 NonZeroI128)
}
macro_rules! wide {
    ($n:ident $e:ident: $($f:ident)*) => {
        #[derive(Facet)]
        struct $n { $($f: u8),* }
        #[derive(Facet)]
        #[repr(u8)]
        enum $e { V { $($f: u8),* } }
        impl $n { fn all(&self) -> Vec<u8> { vec![$(self.$f),*] } }
        impl $e { fn all(&self) -> Vec<u8> { match self { $e::V { $($f),* } => vec![$(*$f),*] } } }
    };
}
wide!(W64 E64: a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 b0 b1 b2 b3 b4 b5 b6 b7 b8 b9 c0 c1 c2 c3 c4 c5 c6 c7 c8 c9 d0 d1 d2 d3 d4 d5 d6 d7 d8 d9 e0 e1 e2 e3 e4 e5 e6 e7 e8 e9 f0 f1 f2 f3 f4 f5 f6 f7 f8 f9 g0 g1 g2 g3);
wide!(W63 E63: a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 b0 b1 b2 b3 b4 b5 b6 b7 b8 b9 c0 c1 c2 c3 c4 c5 c6 c7 c8 c9 d0 d1 d2 d3 d4 d5 d6 d7 d8 d9 e0 e1 e2 e3 e4 e5 e6 e7 e8 e9 f0 f1 f2 f3 f4 f5 f6 f7 f8 f9 g0 g1 g2);
wide!(W33 E33: a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 b0 b1 b2 b3 b4 b5 b6 b7 b8 b9 c0 c1 c2 c3 c4 c5 c6 c7 c8 c9 d0 d1 d2);
/// all fields but up to one are set: it can be built if none is missing
fn filled<T: Facet>(w: Wip<'static>, n: usize, all: fn(&T) -> Vec<u8>) {
    let skip = choose(n as u8 + 1) as usize;
    let rev = choose(2) == 1;
    let base = any_u8();
    let mut w = w;
    for i in 0..n {
        let i = if rev { n - 1 - i } else { i };
        if i != skip {
            w = w.field(i).unwrap().put(base.wrapping_add(i as u8)).unwrap().pop().unwrap();
        }
    }
    for i in 0..n {
        check(w.is_field_set(i).unwrap() == (i != skip), "a field is set, or not, wrongly");
    }
    match w.build() {
        Ok(h) => {
            check(skip == n, "a value without one of its fields was built");
            let Ok(v) = h.materialize::<T>() else { return fail("the value isn't one of the type") };
            for (i, x) in all(&v).into_iter().enumerate() {
                check(x == base.wrapping_add(i as u8), "a field holds something else");
            }
            witness(0);
        }
        Err(_) => {
            check(skip != n, "a complete value was refused");
            witness(1);
        }
    }
    out(&[skip as u8]);
}
pub fn wide(k: u64) {
    match k {
        0 => filled::<W64>(Wip::alloc::<W64>(), 64, W64::all),
        1 => filled::<E64>(Wip::alloc::<E64>().variant(0).unwrap(), 64, E64::all),
        2 => filled::<W63>(Wip::alloc::<W63>(), 63, W63::all),
        3 => filled::<E63>(Wip::alloc::<E63>().variant(0).unwrap(), 63, E63::all),
        4 => filled::<W33>(Wip::alloc::<W33>(), 33, W33::all),
        _ => filled::<E33>(Wip::alloc::<E33>().variant(0).unwrap(), 33, E33::all),
    }
}
