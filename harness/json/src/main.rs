//! JSON: deserializer and serializer against an independent typed reference parser.
#![allow(dead_code)]
use facet::Facet;
use std::collections::BTreeMap;
use symx_api::*;

// ------------------------------------------------------------ reference parser
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
type O<T> = Option<T>;
impl<'a> P<'a> {
    fn peek(&self) -> O<u8> {
        self.b.get(self.i).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\n' | b'\r' | b'\t')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        let r = self.peek() == Some(c);
        if r {
            self.i += 1;
        }
        r
    }
    fn lit(&mut self, s: &[u8]) -> O<()> {
        for &c in s {
            if !self.eat(c) {
                return None;
            }
        }
        Some(())
    }
    fn hex(&mut self) -> O<u32> {
        let mut v = 0u32;
        for _ in 0..4 {
            let c = self.peek()?;
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => return None,
            };
            v = v << 4 | d as u32;
            self.i += 1;
        }
        Some(v)
    }
    fn string(&mut self) -> O<String> {
        if !self.eat(b'"') {
            return None;
        }
        let mut o: Vec<u8> = vec![];
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(o).ok(),
                0..=31 => return None,
                b'\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut v = self.hex()?;
                            if v >= 0xd800 && v <= 0xdbff {
                                self.lit(b"\\u")?;
                                let l = self.hex()?;
                                if l < 0xdc00 || l > 0xdfff {
                                    return None;
                                }
                                v = (((v & 0x3ff) << 10) | (l & 0x3ff)) + 0x10000;
                            } else if v >= 0xdc00 && v <= 0xdfff {
                                return None;
                            }
                            char::from_u32(v)?
                        }
                        _ => return None,
                    };
                    let mut buf = [0; 4];
                    o.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                }
                _ => o.push(c),
            }
        }
    }
    fn digits(&mut self) -> O<()> {
        if !matches!(self.peek(), Some(b'0'..=b'9')) {
            return None;
        }
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        Some(())
    }
    /// the text, and whether it is an integer literal
    fn number(&mut self) -> O<(&'a str, bool)> {
        let s = self.i;
        let mut int = true;
        self.eat(b'-');
        if self.eat(b'0') {
            if matches!(self.peek(), Some(b'0'..=b'9')) {
                return None;
            }
        } else {
            self.digits()?;
        }
        if self.eat(b'.') {
            int = false;
            self.digits()?;
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.i += 1;
            int = false;
            if matches!(self.peek(), Some(b'+' | b'-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        Some((unsafe { std::str::from_utf8_unchecked(&self.b[s..self.i]) }, int))
    }
    /// any value at all
    fn skip(&mut self) -> O<()> {
        self.ws();
        match self.peek()? {
            b'"' => self.string().map(|_| ()),
            b't' => self.lit(b"true"),
            b'f' => self.lit(b"false"),
            b'n' => self.lit(b"null"),
            b'-' | b'0'..=b'9' => self.number().map(|_| ()),
            b'[' => self.list(|p| p.skip()),
            b'{' => self.object(|p, _| p.skip()),
            _ => None,
        }
    }
    fn list(&mut self, mut f: impl FnMut(&mut Self) -> O<()>) -> O<()> {
        if !self.eat(b'[') {
            return None;
        }
        self.ws();
        if self.eat(b']') {
            return Some(());
        }
        loop {
            f(self)?;
            self.ws();
            if self.eat(b']') {
                return Some(());
            }
            if !self.eat(b',') {
                return None;
            }
        }
    }
    fn object(&mut self, mut f: impl FnMut(&mut Self, String) -> O<()>) -> O<()> {
        if !self.eat(b'{') {
            return None;
        }
        self.ws();
        if self.eat(b'}') {
            return Some(());
        }
        loop {
            self.ws();
            let k = self.string()?;
            self.ws();
            if !self.eat(b':') {
                return None;
            }
            f(self, k)?;
            self.ws();
            if self.eat(b'}') {
                return Some(());
            }
            if !self.eat(b',') {
                return None;
            }
        }
    }
}
/// What a JSON text denotes as a value of this type, if anything; and a comparison.
trait R: Sized {
    fn rd(p: &mut P) -> O<Self>;
    fn same(&self, o: &Self) -> bool;
    fn write(&self, o: &mut Vec<u8>);
}
fn string_or<T: std::str::FromStr>(p: &mut P) -> O<O<T>> {
    p.ws();
    if p.peek()? == b'"' {
        return Some(Some(p.string()?.parse::<T>().ok()?));
    }
    Some(None)
}
macro_rules! r_int {
    ($($t:ty, $conv:expr);* $(;)?) => {$(
        impl R for $t {
            fn rd(p: &mut P) -> O<Self> {
                if let Some(v) = string_or::<$t>(p)? {
                    return Some(v);
                }
                if !matches!(p.peek()?, b'-' | b'0'..=b'9') {
                    return None;
                }
                let (t, int) = p.number()?;
                if int && t != "-0" {
                    t.parse().ok()
                } else {
                    // exactly that integer, or nothing
                    let f: f64 = t.parse().ok()?;
                    if !(f >= -1.7014118346046923e38 && f < 3.4028236692093846e38) || f.trunc() != f {
                        return None;
                    }
                    #[allow(clippy::redundant_closure_call)]
                    ($conv)(f)
                }
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
            fn write(&self, o: &mut Vec<u8>) {
                o.extend_from_slice(self.to_string().as_bytes());
            }
        }
    )*};
}
fn narrow<T: TryFrom<i128> + TryFrom<u128>>(f: f64) -> O<T> {
    if f < 0.0 {
        T::try_from(f as i128).ok()
    } else {
        T::try_from(f as u128).ok()
    }
}
use std::num::*;
r_int! {
    u8, narrow::<u8>; u16, narrow::<u16>; u32, narrow::<u32>; u64, narrow::<u64>; u128, narrow::<u128>; usize, narrow::<usize>;
    i8, narrow::<i8>; i16, narrow::<i16>; i32, narrow::<i32>; i64, narrow::<i64>; i128, narrow::<i128>; isize, narrow::<isize>;
    NonZero<u8>, |f| NonZero::new(narrow::<u8>(f)?); NonZero<i16>, |f| NonZero::new(narrow::<i16>(f)?);
    NonZero<u64>, |f| NonZero::new(narrow::<u64>(f)?); NonZero<i64>, |f| NonZero::new(narrow::<i64>(f)?);
}
macro_rules! r_float {
    ($($t:ty)*) => {$(
        impl R for $t {
            fn rd(p: &mut P) -> O<Self> {
                if let Some(v) = string_or::<$t>(p)? {
                    return Some(v);
                }
                if !matches!(p.peek()?, b'-' | b'0'..=b'9') {
                    return None;
                }
                let f: $t = p.number()?.0.parse().ok()?;
                f.is_finite().then_some(f)
            }
            fn same(&self, o: &Self) -> bool {
                self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan()
            }
            fn write(&self, o: &mut Vec<u8>) {
                o.extend_from_slice(self.to_string().as_bytes());
            }
        }
    )*};
}
r_float!(f32 f64);
impl R for bool {
    fn rd(p: &mut P) -> O<Self> {
        if let Some(v) = string_or::<bool>(p)? {
            return Some(v);
        }
        match p.peek()? {
            b't' => p.lit(b"true").map(|_| true),
            b'f' => p.lit(b"false").map(|_| false),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn write(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(if *self { b"true" } else { b"false" });
    }
}
impl R for char {
    fn rd(p: &mut P) -> O<Self> {
        string_or::<char>(p)?
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn write(&self, _o: &mut Vec<u8>) {}
}
/// The shortest escapes where JSON requires one
fn w_str(s: &str, o: &mut Vec<u8>) {
    o.push(b'"');
    for c in s.chars() {
        let e = match c {
            '"' => b'"',
            '\\' => b'\\',
            '\n' => b'n',
            '\r' => b'r',
            '\t' => b't',
            '\u{8}' => b'b',
            '\u{c}' => b'f',
            c if (c as u32) < 0x20 || (c as u32 >= 0x7f && (c as u32) < 0xa0) => {
                let h = |d: u32| b"0123456789abcdef"[(c as u32 >> d & 15) as usize];
                o.extend_from_slice(&[b'\\', b'u', b'0', b'0', h(4), h(0)]);
                continue;
            }
            c => {
                let mut b = [0; 4];
                o.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                continue;
            }
        };
        o.extend_from_slice(&[b'\\', e]);
    }
    o.push(b'"');
}
impl R for String {
    fn rd(p: &mut P) -> O<Self> {
        p.ws();
        p.string()
    }
    fn same(&self, o: &Self) -> bool {
        same_bytes(self.as_bytes(), o.as_bytes())
    }
    fn write(&self, o: &mut Vec<u8>) {
        w_str(self, o);
    }
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
impl<T: R> R for Option<T> {
    fn rd(p: &mut P) -> O<Self> {
        p.ws();
        if p.peek()? == b'n' {
            p.lit(b"null")?;
            return Some(None);
        }
        Some(Some(T::rd(p)?))
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
    fn write(&self, o: &mut Vec<u8>) {
        match self {
            None => o.extend_from_slice(b"null"),
            Some(v) => v.write(o),
        }
    }
}
impl<T: R> R for Vec<T> {
    fn rd(p: &mut P) -> O<Self> {
        p.ws();
        let mut v = vec![];
        p.list(|p| {
            v.push(T::rd(p)?);
            Some(())
        })?;
        Some(v)
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
    fn write(&self, o: &mut Vec<u8>) {
        o.push(b'[');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                o.push(b',');
            }
            x.write(o);
        }
        o.push(b']');
    }
}
impl<T: R> R for BTreeMap<String, T> {
    fn rd(_: &mut P) -> O<Self> {
        None
    }
    fn same(&self, _: &Self) -> bool {
        false
    }
    fn write(&self, o: &mut Vec<u8>) {
        o.push(b'{');
        for (i, (k, x)) in self.iter().enumerate() {
            if i > 0 {
                o.push(b',');
            }
            w_str(k, o);
            o.push(b':');
            x.write(o);
        }
        o.push(b'}');
    }
}
enum Missing<T> {
    Required,
    Value(fn() -> T),
}
/// struct description: field, the name in the JSON text, what it is when missing
macro_rules! r_struct {
    ($t:ty, deny = $deny:expr, default = $def:expr, { $($f:tt : $ft:ty = $n:expr, $miss:expr;)* }) => {
        impl R for $t {
            #[allow(non_snake_case, unused_variables, unused_mut)]
            fn rd(p: &mut P) -> O<Self> {
                const NAMES: &[(&str, &str)] = &[$(($n, stringify!($f))),*];
                p.ws();
                let mut vals: ($(O<$ft>,)*) = ($(None::<$ft>,)*);
                p.object(|p, k| {
                    // the name in the text first, then the name in the source
                    let at = NAMES.iter().position(|n| n.0 == k).or_else(|| NAMES.iter().position(|n| n.1 == k));
                    let Some(at) = at else {
                        return if $deny { None } else { p.skip() };
                    };
                    r_struct!(@set vals at p [] $(($f $ft))*);
                    Some(())
                })?;
                let def: O<fn() -> $t> = $def;
                r_struct!(@get vals def $t [] $(($f $ft, $miss))*)
            }
            fn same(&self, o: &Self) -> bool {
                true $(& self.$f.same(&o.$f))*
            }
            #[allow(unused_mut, unused_assignments)]
            fn write(&self, o: &mut Vec<u8>) {
                o.push(b'{');
                let mut first = true;
                $(
                    if !first {
                        o.push(b',');
                    }
                    first = false;
                    w_str($n, o);
                    o.push(b':');
                    self.$f.write(o);
                )*
                o.push(b'}');
            }
        }
    };
    (@set $v:ident $at:ident $p:ident []) => {};
    (@set $v:ident $at:ident $p:ident [] ($f0:tt $t0:ty) $(($f1:tt $t1:ty) $(($f2:tt $t2:ty) $(($f3:tt $t3:ty))?)?)?) => {
        match $at {
            0 => { if $v.0.is_some() { return None; } $v.0 = Some(<$t0>::rd($p)?); }
            $( 1 => { if $v.1.is_some() { return None; } $v.1 = Some(<$t1>::rd($p)?); }
            $( 2 => { if $v.2.is_some() { return None; } $v.2 = Some(<$t2>::rd($p)?); }
            $( 3 => { if $v.3.is_some() { return None; } $v.3 = Some(<$t3>::rd($p)?); } )? )? )?
            _ => return None,
        }
    };
    (@get $v:ident $d:ident $t:ty []) => { Some(make()) };
    (@get $v:ident $d:ident $t:ty [] ($f0:tt $t0:ty, $m0:expr) $(($f1:tt $t1:ty, $m1:expr) $(($f2:tt $t2:ty, $m2:expr) $(($f3:tt $t3:ty, $m3:expr))?)?)?) => {{
        Some(Self {
            $f0: r_struct!(@one $v.0, $d, $f0, $m0),
            $( $f1: r_struct!(@one $v.1, $d, $f1, $m1),
            $( $f2: r_struct!(@one $v.2, $d, $f2, $m2),
            $( $f3: r_struct!(@one $v.3, $d, $f3, $m3), )? )? )?
        })
    }};
    (@one $v:expr, $d:ident, $f:tt, $m:expr) => {
        match $v {
            Some(x) => x,
            None => match $d {
                Some(d) => d().$f,
                None => match $m {
                    Missing::Required => return None,
                    Missing::Value(f) => f(),
                },
            },
        }
    };
}
use Missing::*;

// ------------------------------------------------------------------- the types
#[derive(Facet, Debug, PartialEq)]
struct S2 {
    a: u8,
    b: Option<bool>,
}
r_struct!(S2, deny = false, default = None, { a: u8 = "a", Required; b: Option<bool> = "b", Required; });
#[derive(Facet)]
struct Strict {
    #[facet(rename = "b")]
    a: bool,
    #[facet(rename = "é\"")]
    b: bool,
}
// unknown fields are refused, and names that are each other's
#[derive(Facet)]
#[facet(deny_unknown_fields)]
struct Deny {
    a: bool,
    #[facet(rename = "q\"")]
    b: bool,
}
r_struct!(Strict, deny = false, default = None, { a: bool = "b", Required; b: bool = "é\"", Required; });
r_struct!(Deny, deny = true, default = None, { a: bool = "a", Required; b: bool = "q\"", Required; });
fn seven() -> u8 {
    7
}
#[derive(Facet)]
struct Defs {
    #[facet(default)]
    a: bool,
    #[facet(default = "seven")]
    b: u8,
    c: bool,
}
r_struct!(Defs, deny = false, default = None, { a: bool = "a", Value(|| false); b: u8 = "b", Value(|| 7); c: bool = "c", Required; });
#[derive(Facet)]
#[facet(default)]
struct AllDef {
    a: bool,
    b: Option<bool>,
}
impl Default for AllDef {
    fn default() -> Self {
        AllDef { a: true, b: Some(true) }
    }
}
r_struct!(AllDef, deny = false, default = Some(AllDef::default), { a: bool = "a", Required; b: Option<bool> = "b", Required; });
#[derive(Facet)]
struct Nest {
    i: S2,
    v: Vec<S2>,
    o: Option<S2>,
    s: String,
}
r_struct!(Nest, deny = false, default = None, { i: S2 = "i", Required; v: Vec<S2> = "v", Required; o: Option<S2> = "o", Required; s: String = "s", Required; });
#[derive(Facet)]
struct Tup(bool, Option<bool>);
r_struct!(Tup, deny = false, default = None, { 0: bool = "0", Required; 1: Option<bool> = "1", Required; });

// attributes of nested types
fn text() -> String {
    String::from("dflt")
}
#[derive(Facet)]
struct Attrs {
    d: Deny,
    #[facet(default)]
    v: Vec<AllDef>,
    #[facet(default)]
    o: Option<Defs>,
    #[facet(default = "text")]
    s: String,
}
r_struct!(Attrs, deny = false, default = None, { d: Deny = "d", Required; v: Vec<AllDef> = "v", Value(Vec::new); o: Option<Defs> = "o", Value(|| None); s: String = "s", Value(text); });
#[derive(Facet)]
#[facet(deny_unknown_fields)]
struct DenyOut {
    i: AllDef,
    #[facet(default = "seven")]
    n: u8,
}
r_struct!(DenyOut, deny = true, default = None, { i: AllDef = "i", Required; n: u8 = "n", Value(seven); });
// several attributes, together and apart, in any order
#[derive(Facet)]
struct Combo {
    #[facet(sensitive)]
    #[facet(rename = "r")]
    #[facet(default)]
    a: bool,
    #[facet(rename = "a")]
    #[facet(default = "seven")]
    b: u8,
    #[facet(sensitive, default)]
    c: Option<bool>,
    #[facet(default, sensitive)]
    #[facet(rename = "z")]
    d: bool,
}
r_struct!(Combo, deny = false, default = None, { a: bool = "r", Value(|| false); b: u8 = "a", Value(|| 7); c: Option<bool> = "c", Value(|| None); d: bool = "z", Value(|| false); });
#[derive(Facet)]
#[facet(default)]
#[facet(deny_unknown_fields)]
struct Cont {
    #[facet(sensitive)]
    #[facet(rename = "b")]
    a: bool,
    #[facet(sensitive)]
    c: Option<bool>,
}
impl Default for Cont {
    fn default() -> Self {
        Cont { a: true, c: Some(false) }
    }
}
r_struct!(Cont, deny = true, default = Some(Cont::default), { a: bool = "b", Required; c: Option<bool> = "c", Required; });
#[derive(Facet)]
#[facet(deny_unknown_fields, default)]
struct Cont2 {
    a: bool,
    #[facet(rename = "a\n")]
    b: bool,
}
impl Default for Cont2 {
    fn default() -> Self {
        Cont2 { a: true, b: false }
    }
}
r_struct!(Cont2, deny = true, default = Some(Cont2::default), { a: bool = "a", Required; b: bool = "a\n", Required; });

// ------------------------------------------------------------- deserialization
fn de<T: Facet + R>(b: &[u8]) {
    let got = facet_json::from_slice::<T>(b);
    let mut p = P { b, i: 0 };
    let want = T::rd(&mut p).filter(|_| {
        p.ws();
        p.i == b.len()
    });
    match (got, want) {
        (Ok(g), Some(w)) => {
            witness(0);
            check(g.same(&w), "the deserialized value differs from what the text denotes");
        }
        (Err(_), None) => witness(1),
        (Ok(_), None) => fail("a text that denotes no such value was accepted"),
        (Err(_), Some(_)) => fail("a text that denotes a value was refused"),
    }
}
fn de_ty(t: u64, b: &[u8]) {
    match t {
        0 => de::<u8>(b),
        1 => de::<i8>(b),
        2 => de::<u64>(b),
        3 => de::<i64>(b),
        4 => de::<bool>(b),
        5 => de::<String>(b),
        6 => de::<Option<u8>>(b),
        7 => de::<Option<Option<bool>>>(b),
        8 => de::<Vec<u8>>(b),
        9 => de::<Vec<Option<bool>>>(b),
        10 => de::<Vec<Vec<bool>>>(b),
        11 => de::<S2>(b),
        12 => de::<Strict>(b),
        13 => de::<Deny>(b),
        14 => de::<Defs>(b),
        15 => de::<AllDef>(b),
        16 => de::<Nest>(b),
        17 => de::<Tup>(b),
        18 => de::<f32>(b),
        19 => de::<f64>(b),
        20 => de::<u128>(b),
        21 => de::<i128>(b),
        22 => de::<NonZero<u8>>(b),
        23 => de::<NonZero<i16>>(b),
        24 => de::<char>(b),
        25 => de::<Vec<String>>(b),
        26 => de::<Option<Vec<Option<bool>>>>(b),
        27 => de::<u16>(b),
        28 => de::<i32>(b),
        29 => de::<Vec<S2>>(b),
        30 => de::<usize>(b),
        31 => de::<isize>(b),
        32 => de::<i16>(b),
        33 => de::<u32>(b),
        34 => de::<Attrs>(b),
        35 => de::<DenyOut>(b),
        36 => de::<Vec<Deny>>(b),
        37 => de::<Combo>(b),
        38 => de::<Cont>(b),
        39 => de::<Cont2>(b),
        _ => {}
    }
}
/// every byte string of a length
#[no_mangle]
pub extern "C" fn json_de() {
    let b = bytes(param(1) as usize);
    de_ty(param(0), &b);
}
/// texts with holes (`?`) that hold any byte
const TEMPLATES: &[(u64, &str)] = &[
    // 0: struct S2
    (11, "{\"a\":???,\"b\":null}"),
    (11, "{\"a\":1,\"b\":????}"),
    (11, "{\"??\":1,\"b\":true}"),
    (11, "?{?\"a\"?:?1?,?\"b\"?:?true?}?"),
    (11, "{\"a\":1,\"b\":null??????"),
    (11, "{\"a\":1,\"x\":?????,\"b\":null}"),
    (11, "{\"x\":[?????],\"a\":1,\"b\":null}"),
    (11, "{\"x\":{??????},\"a\":1,\"b\":null}"),
    (11, "{\"a\":2,\"?\":1,\"b\":true}"),
    (11, "{\"\\u00??\":1,\"b\":true}"),
    // 10: strings
    (5, "\"\\u????\""),
    (5, "\"\\u?8?d\\u?c0?\""),
    (5, "\"\\ud83?\\ud???\""),
    (5, "\"a\\?b??\""),
    (25, "[\"?\",\"\\?\"????"),
    // 15: numbers
    (0, "25??"),
    (2, "1844674407370955????"),
    (3, "-922337203685477????"),
    (3, "922337203685477????"),
    (20, "3402823669209384634633746074317682114??"),
    (21, "-170141183460469231731687303715884105?2?"),
    (20, "?E3?"),
    (2, "1.84467440737095??e19"),
    (2, "900719925474099?.?"),
    (18, "3.40282?6e3?"),
    (18, "1.000000?7?"),
    (19, "1.797693134862315?e?08"),
    (19, "?.?e-32?"),
    (1, "-1??"),
    (23, "-3276???"),
    // 30: nested
    (16, "{\"i\":{\"a\":1,\"b\":null},\"v\":[],\"o\":????,\"s\":\"?\"}"),
    (16, "{\"v\":[{\"a\":?,\"b\":null}??,\"s\":\"\",\"i\":{\"a\":3,\"b\":true},\"o\":{\"a\":?,\"b\":null}}"),
    (16, "{\"s\":\"x\",\"i\":{\"?\":1,\"b\":null},\"v\":[],\"o\":null}"),
    (29, "[{\"a\":1,\"b\":null}???????"),
    (29, "[{\"a\":?,\"b\":null?,{\"b\":true,\"?\":5}]"),
    // 35: attributes
    (12, "{\"?\":true,\"é\\\"\":false}"),
    (12, "{\"b\":true,\"??\\\"\":false}"),
    (12, "{\"a\":true,\"?\":false}"),
    (13, "{\"a\":true,\"q\\\"\":false,\"?\":1}"),
    (13, "{\"?\":true,\"q\\?\":false}"),
    (13, "{\"a\":true,\"?\":false}"),
    (14, "{\"c\":true,\"b\":???}"),
    (14, "{\"c\":true????????"),
    (14, "{\"?\":true,\"?\":true}"),
    (14, "{\"b\":?,\"?\":true}"),
    (15, "{\"?\":????}"),
    (15, "{????????"),
    (17, "{\"?\":true,\"?\":null}"),
    // 48: empty-ish
    (9, "[null,??????"),
    (26, "[true,???????"),
    (10, "[[true]???????"),
    (8, "[1,25?,?????"),
    // 52: shorter variants for the quick tier
    (11, "{\"a\":1,\"x\":????,\"b\":null}"),
    (11, "{\"x\":[????],\"a\":1,\"b\":null}"),
    (11, "{\"x\":{?\"?\":??},\"a\":1,\"b\":null}"),
    (5, "\"\\u?0??\""),
    (15, "{??????"),
    (26, "[true,?????"),
    // 58: attributes of nested types
    (34, "{\"d\":{\"a\":true,\"q\\\"\":false?\"?\":1},\"s\":\"\"}"),
    (34, "{\"d\":{\"a\":true,\"b\":false},\"?\":[{\"?\":false}]}"),
    (34, "{\"?\":{\"?\":true,\"b\":true},\"x\":{}}"),
    (34, "{\"d\":{\"b\":true,\"a\":true},\"o\":{\"?\":true}}"),
    (34, "{\"d\":{\"b\":true,\"a\":true},\"o\":{\"c\":true,\"b\":?},\"?\":\"?\"}"),
    (35, "{\"i\":{\"?\":true?\"?\":false},\"n\":1}"),
    (35, "{\"i\":{}??\"?\":?}"),
    (36, "[{\"b\":true,\"a\":true},{\"b\":false?\"a\":true?\"?\":1}]"),
    (35, "{\"i\":{\"x\":?},\"?\":?}"),
    // a nested object in two halves
    (34, "{\"d\":{\"a\":true},\"?\":{\"?\":true},\"s\":\"\"}"),
    (16, "{\"i\":{\"a\":1},\"?\":{\"b\":null},\"v\":[],\"o\":null,\"s\":\"\"}"),    // surrogates: where halves begin and end, and what is between them
    (5, "\"\\ud83d\\u??00\""),
    (5, "\"\\ud?ff\\udff?\""),
    (5, "\"\\ud83D?\\uDe00\""),
    (5, "\"\\ud83d\\u?000\\u?c00\""),
    (11, "{\"a\":1,\"x\":\"\\ud8?0\\u?c00\",\"b\":null}"),
    (11, "{\"\\ud?3d\\u?e00\":1,\"a\":1,\"b\":null}"),
    (5, "\"\\ud83d\\?\\ude00\""),    // 76: nested values that are skipped
    (11, "{\"x\":[{\"p\":1?\"q\":2}?],\"a\":1,\"b\":null}"),
    (11, "{\"x\":{\"p\":{\"q\":[1?2]?\"r\":3}},\"a\":1,\"b\":null}"),
    (11, "{\"a\":1,\"x\":[[1,2],[?]?{\"k\":[]?\"l\":{}?],\"b\":null}"),
    (11, "{\"a\":1,\"b\":null,\"x\":{\"p\":{\"q\":1,\"r\":2}?\"s\":[?]}}"),
    (11, "{\"x\":[{\"p\":{\"q\":[[{\"r\":?,\"s\":\"?\"}]?,\"t\":{}}}],\"a\":1,\"b\":null}"),
    (11, "{\"x\":-0.1?e?2,\"y\":[1?,-?],\"a\":1,\"b\":null}"),
    (15, "{\"x\":{\"a\":\"\\?\",\"b\":[{},[],\"\",?],\"c\":{\"?\":null,\"d\":false}}}"),
    (16, "{\"i\":{\"a\":1,\"z\":{\"y\":1,\"x\":[?,{\"w\":1?\"v\":2}]}?\"b\":null},\"v\":[],\"o\":null,\"s\":\"\"}"),
    // 84: long ones
    (5, "\"abcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghij?abcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghij\\?abcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghijabcdefghij\""),
    (5, "\"éééééééééééééééééééééééééééééééééééééééé?\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9??\""),
    (8, "[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39?200,201,202,203,204,205,206,207,208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,226,227,228,229,230,231,232,233,234,235,236,237,238,239?]"),
    (25, "[\"\",\"a\",\"ab\",\"abc\",\"abcd\",\"abcde\",\"abcdef\",\"abcdefg\",\"abcdefgh\",\"abcdefghi\",\"abcdefghij\",\"abcdefghija\",\"abcdefghijab\",\"abcdefghijabc\",\"abcdefghijabcd\",\"abcdefghijabcde\",\"abcdefghijabcdef\",\"abcdefghijabcdefg\",\"abcdefghijabcdefgh\",\"abcdefghijabcdefghi\"?\"\\?\"]"),
    (11, "{\"k0\":1,\"k1\":\"s\",\"k2\":[],\"k3\":{},\"k4\":null,\"k5\":-1.5e3,\"k6\":1,\"k7\":\"s\",\"k8\":[],\"k9\":{},\"k10\":null,\"k11\":-1.5e3,\"k12\":1,\"k13\":\"s\",\"k14\":[],\"k15\":{},\"k16\":null,\"k17\":-1.5e3,\"k18\":1,\"k19\":\"s\",\"k20\":[],\"k21\":{},\"k22\":null,\"k23\":-1.5e3,\"k24\":1,\"k25\":\"s\",\"k26\":[],\"k27\":{},\"k28\":null,\"k29\":-1.5e3,\"?\":1?\"b\":true}"),
    (11, "                                        {\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\"a\"\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t:?\r\n\r\n\r\n\r\n\r\n\r\n\r\n\r\n\r\n\r\n,                    \"b\" ?: null                              }                              ?"),
    (2, "0?"),
    (3, "-0?"),
    (19, "-0?0"),
    (19, "1000000000000000000?0"),
    (19, "0.000000000000000?1e?"),
    (20, "10000000000000000000000000000000000000??"),
    (2, "1.000000000000000000000000000000?"),
    (1, "25?.00000000000000000000?"),
    (26, "[null,null,null,null,null,null,null,null,null,null,null,null,null,null,null,null,null,null,null,null,????,true,true,true,true,true,true,true,true,true,true]"),
    // 99: several attributes
    (37, "{\"?\":true,\"a\":?}"),
    (37, "{\"r\":true?\"z\":?}"),
    (37, "{}"),
    (37, "{\"a\":1?,\"?\":true,\"c\":???e}"),
    (37, "{\"?\":true,\"?\":false}"),
    (38, "{\"?\":true}"),
    (38, "{\"b\":false?\"?\":true}"),
    (39, "{\"a\\?\":????}"),
    (39, "{\"a?n\":true,\"?\":?}"),
    (39, "{?\"?\"?:true}"),
    (34, "{\"d\":{\"a\":true,\"b\":?},\"v\":[{},{\"?\":false}],\"s\":\"?\"}"),
];
#[no_mangle]
pub extern "C" fn json_tpl() {
    let (ty, t) = TEMPLATES[param(0) as usize];
    let b: Vec<u8> = t.as_bytes().iter().map(|&c| if c == b'?' { any_u8() } else { c }).collect();
    de_ty(ty, &b);
}
/// nesting only limited by memory
#[no_mangle]
pub extern "C" fn json_deep() {
    let n = param(0) as usize;
    let mut t = b"{\"a\":1,\"x\":".to_vec();
    for _ in 0..n {
        t.extend_from_slice(b"[");
    }
    t.push(any_u8());
    for _ in 0..n {
        t.push(b']');
    }
    t.extend_from_slice(b",\"b\":null}");
    let mut p = P { b: &[t[11 + n]], i: 0 };
    let ok = p.number().is_some() || matches!(t[11 + n], b' ' | b'\t' | b'\n' | b'\r');
    match facet_json::from_slice::<S2>(&t) {
        Ok(v) => {
            witness(0);
            check(ok && v.a == 1 && v.b.is_none(), "a deeply nested text that denotes no such value was accepted");
        }
        Err(_) => check(!ok, "a deeply nested unknown field was refused"),
    }
}
/// messages of errors
#[no_mangle]
pub extern "C" fn json_err() {
    let b = bytes(param(1) as usize);
    fn go<T: Facet>(b: &[u8]) {
        if let Err(e) = facet_json::from_slice::<T>(b) {
            witness(0);
            let m = e.message();
            check(!m.is_empty(), "an error without a message");
        }
    }
    match param(0) {
        0 => go::<u8>(&b),
        1 => go::<S2>(&b),
        2 => go::<Deny>(&b),
        _ => go::<Vec<String>>(&b),
    }
}

/// texts with holes (`~`) that hold any ASCII character or one of several others
const SHOWN: &[(u64, &str)] = &[
    (1, "~"),
    (1, "~~"),
    (1, "{\"a\":~}"),
    (1, "{\"a\":~\n"),
    (1, "{\"a\"~1"),
    (1, "{\"a\":1~"),
    (1, "{\"a\":1,\"b\":null}\n~"),
    (1, "{\"é€\": [\"~"),
    (1, "{\"é\":\"😀\",\"a\":12~3}"),
    (2, "{\"~\":1}"),
    (2, "{\"~😀\":1}"),
    (2, "é{\"~\":1}"),
    (2, "{ \"\\u00e9~\":1}"),
    (2, "{\"é\\ud83d\\ude00~\":1}"),
    (2, "{\n\"ab~d\": true}"),
    (1, "{\"a\":1,\"x\":0,\"é\":2,\"a\":~"),
    (1, "{\"é\":\"😀\",\"a\":1,\"\\u0061\":~"),
    (3, "[\"é\",~]"),
    (3, "[\"é\",1~]"),
    (3, "[\"😀\", -1.5e3~"),
    (3, "[12345678~]"),
    (3, "[\"\\~\"]"),
    (3, "[\"\\u00~\"]"),
    (3, "[\"a\", \"é~"),
    (0, "25~"),
    (0, "[~"),
    (0, "1e~9"),
    (4, "\"~\""),
    (4, "\"é~\"x"),
    (5, "{\"b\":true,\"é\\\"~\":false}"),
];
/// any error can be shown, wherever in the text it is
#[no_mangle]
pub extern "C" fn json_show() {
    let (ty, t) = SHOWN[param(0) as usize];
    let mut b = String::new();
    for c in t.chars() {
        match c {
            '~' => match choose(8) {
                0 => {
                    let c = any_u8();
                    assume(c < 0x80);
                    b.push(c as char);
                }
                1 => b.push('é'),
                2 => b.push('€'),
                3 => b.push('😀'),
                4 => b.push('\u{301}'),
                5 => b.push('\u{2028}'),
                6 => b.push('\u{85}'),
                _ => b.push_str("\n"),
            },
            c => b.push(c),
        }
    }
    fn go<T: Facet>(b: &str) {
        if let Err(e) = facet_json::from_str::<T>(b) {
            witness(0);
            let m = e.message();
            check(!m.is_empty(), "an error without a message");
            let d = if param(1) == 0 { format!("{e}") } else { format!("{e:?}") };
            check(!d.trim().is_empty(), "an error is shown as nothing");
        }
    }
    match ty {
        0 => go::<u8>(&b),
        1 => go::<S2>(&b),
        2 => go::<Deny>(&b),
        3 => go::<Vec<String>>(&b),
        4 => go::<char>(&b),
        _ => go::<Attrs>(&b),
    }
}

// --------------------------------------------------------------- serialization
trait Any: Sized {
    fn any() -> Self;
}
macro_rules! any_int {
    ($($t:ty)*) => {$(
        impl Any for $t {
            fn any() -> Self {
                if size_of::<$t>() <= 2 {
                    return <$t>::from_le_bytes(arr());
                }
                let d = any_u8() as $t;
                match choose(5) {
                    0 => d,
                    1 => <$t>::MAX - d,
                    2 => <$t>::MIN.wrapping_add(d),
                    3 => (10 as $t).pow(9).wrapping_sub(d),
                    _ => (<$t>::MAX / 10).wrapping_add(d),
                }
            }
        }
    )*};
}
any_int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
macro_rules! any_nz {
    ($($t:ty)*) => {$(
        impl Any for NonZero<$t> {
            fn any() -> Self {
                let v = <$t>::any();
                assume(v != 0);
                NonZero::new(v).unwrap()
            }
        }
    )*};
}
any_nz!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
macro_rules! r_nz {
    ($($t:ty)*) => {$(
        impl R for NonZero<$t> {
            fn rd(p: &mut P) -> O<Self> {
                NonZero::new(<$t>::rd(p)?)
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
            fn write(&self, o: &mut Vec<u8>) {
                self.get().write(o)
            }
        }
    )*};
}
r_nz!(u16 u32 usize i8 i32 isize);
impl Any for bool {
    fn any() -> Self {
        any_bool()
    }
}
impl Any for char {
    fn any() -> Self {
        let c = char::from_u32(any_u32());
        assume(c.is_some());
        c.unwrap()
    }
}
impl Any for String {
    fn any() -> Self {
        let n = choose(3);
        let mut s = String::new();
        for _ in 0..n {
            // the second one is ASCII
            s.push(if s.is_empty() { char::any() } else { (any_u8() & 0x7f) as char });
        }
        s
    }
}
macro_rules! any_float {
    ($($t:ident)*) => {$(
        impl Any for $t {
            fn any() -> Self {
                const V: &[$t] = &[
                    0.0, -0.0, 1.0, -1.5, 0.1, 1e7, 1e-7, 123456.7, 1e21, 1e16, 9007199254740993.0, $t::MAX, $t::MIN, $t::MIN_POSITIVE,
                    $t::EPSILON, 5e-324 as $t, 1.1754942e-38, 3.4028235e38, 16777217.0, 2.5e-45,
                ];
                V[choose(V.len() as u8) as usize]
            }
        }
    )*};
}
any_float!(f32 f64);
impl<T: Any> Any for Option<T> {
    fn any() -> Self {
        if choose(2) == 0 { None } else { Some(T::any()) }
    }
}
impl<T: Any> Any for Vec<T> {
    fn any() -> Self {
        let n = choose(3);
        (0..n).map(|_| T::any()).collect()
    }
}
macro_rules! any_struct {
    ($($t:ident { $($f:tt)* })*) => {$(
        impl Any for $t {
            fn any() -> Self {
                $t { $($f: Any::any()),* }
            }
        }
    )*};
}
any_struct!(S2 { a b } Strict { a b } Deny { a b } Combo { a b c d } Cont { a c } Cont2 { a b } Defs { a b c } AllDef { a b } Tup { 0 1 } Keys { x });
#[derive(Facet)]
struct Nums {
    a: u64,
    b: i64,
    c: i8,
    d: usize,
}
r_struct!(Nums, deny = false, default = None, { a: u64 = "a", Required; b: i64 = "b", Required; c: i8 = "c", Required; d: usize = "d", Required; });
#[derive(Facet)]
struct Keys {
    #[facet(rename = "\n\u{7f}\\")]
    x: bool,
}
r_struct!(Keys, deny = false, default = None, { x: bool = "\n\u{7f}\\", Required; });
impl Any for Nums {
    fn any() -> Self {
        let mut v = Nums { a: 7, b: -7, c: -1, d: 0 };
        match choose(4) {
            0 => v.a = Any::any(),
            1 => v.b = Any::any(),
            2 => v.c = Any::any(),
            _ => v.d = Any::any(),
        }
        v
    }
}
impl Any for Nest {
    fn any() -> Self {
        let mut v = Nest { i: S2 { a: 1, b: None }, v: vec![], o: None, s: String::new() };
        match choose(4) {
            0 => v.i = Any::any(),
            1 => v.v = (0..choose(3)).map(|_| S2 { a: any_u8(), b: None }).collect(),
            2 => v.o = Any::any(),
            _ => v.s = String::from(char::any()),
        }
        v
    }
}
fn ser<T: Facet>(v: &T, want: &dyn Fn(&mut Vec<u8>)) -> String {
    let mut w = vec![];
    want(&mut w);
    let s = facet_json::to_string(v);
    check(same_bytes(s.as_bytes(), &w), "the serialized text is not the JSON of the value");
    let mut x = vec![];
    check(facet_json::to_writer(v, &mut x).is_ok() && same_bytes(&x, &w), "to_writer writes something else");
    // what it claims to be: well-formed, and nothing after it
    let mut p = P { b: s.as_bytes(), i: 0 };
    check(p.skip().is_some() && p.i == s.len(), "the serialized text is not well-formed JSON");
    out(s.as_bytes());
    witness(0);
    s
}
fn round<T: Facet + R + Any>() {
    let v = T::any();
    let s = ser(&v, &|o| v.write(o));
    match facet_json::from_str::<T>(&s) {
        Ok(b) => check(b.same(&v), "a value changes by serializing and deserializing it"),
        Err(_) => fail("a serialized value cannot be deserialized"),
    }
}
#[no_mangle]
pub extern "C" fn json_ser() {
    match param(0) {
        0 => round::<u8>(),
        1 => round::<i8>(),
        2 => round::<u16>(),
        3 => round::<i16>(),
        4 => round::<u32>(),
        5 => round::<i32>(),
        6 => round::<u64>(),
        7 => round::<i64>(),
        8 => round::<usize>(),
        9 => round::<isize>(),
        10 => round::<bool>(),
        11 => round::<String>(),
        12 => round::<f32>(),
        13 => round::<f64>(),
        14 => round::<Option<u8>>(),
        15 => round::<Vec<u8>>(),
        16 => round::<Vec<Option<bool>>>(),
        17 => round::<Vec<String>>(),
        18 => round::<S2>(),
        19 => round::<Strict>(),
        20 => round::<Deny>(),
        21 => round::<Defs>(),
        22 => round::<AllDef>(),
        23 => round::<Tup>(),
        24 => round::<Nums>(),
        25 => round::<Keys>(),
        26 => round::<Nest>(),
        27 => round::<NonZero<u8>>(),
        28 => round::<NonZero<i16>>(),
        29 => round::<NonZero<u64>>(),
        30 => round::<NonZero<i64>>(),
        31 => round::<NonZero<u16>>(),
        32 => round::<NonZero<u32>>(),
        33 => round::<NonZero<i8>>(),
        34 => round::<NonZero<i32>>(),
        35 => round::<NonZero<usize>>(),
        36 => round::<NonZero<isize>>(),
        37 => round::<Vec<Vec<bool>>>(),
        38 => round::<Option<Vec<S2>>>(),
        39 => round::<Combo>(),
        40 => round::<Cont>(),
        41 => round::<Cont2>(),
        _ => {}
    }
}
#[derive(Facet)]
#[repr(u8)]
enum Kind {
    Unit,
    One(u8),
    Two(bool, String),
    Named {
        #[facet(rename = "\"x")]
        x: u8,
    },
    #[allow(non_snake_case)]
    Named2 {
        x: bool,
        #[facet(rename = "é")]
        y: Option<u8>,
    },
    Inner(S2),
    Named3 {
        #[facet(sensitive)]
        #[facet(rename = "y")]
        x: bool,
        #[facet(default)]
        #[facet(rename = "x\u{1}")]
        y: u8,
    },
    Three(u8, bool, Option<u8>),
    One2(Option<bool>),
}
impl Kind {
    fn any() -> Self {
        match choose(9) {
            0 => Kind::Unit,
            1 => Kind::One(any_u8()),
            2 => Kind::Two(any_bool(), String::any()),
            3 => Kind::Named { x: any_u8() },
            4 => Kind::Named2 { x: any_bool(), y: Any::any() },
            5 => Kind::Inner(Any::any()),
            6 => Kind::Named3 { x: any_bool(), y: any_u8() },
            7 => Kind::Three(any_u8(), any_bool(), Any::any()),
            _ => Kind::One2(Any::any()),
        }
    }
    fn write(&self, o: &mut Vec<u8>) {
        let mut w = |parts: &[&dyn Fn(&mut Vec<u8>)]| parts.iter().for_each(|p| p(o));
        fn t(s: &'static str) -> impl Fn(&mut Vec<u8>) {
            move |o| o.extend_from_slice(s.as_bytes())
        }
        match self {
            Kind::Unit => w(&[&t("\"Unit\"")]),
            Kind::One(a) => w(&[&t("{\"One\":"), &|o| a.write(o), &t("}")]),
            Kind::Two(a, b) => w(&[&t("{\"Two\":["), &|o| a.write(o), &t(","), &|o| b.write(o), &t("]}")]),
            Kind::Named { x } => w(&[&t("{\"Named\":{\"\\\"x\":"), &|o| x.write(o), &t("}}")]),
            Kind::Named2 { x, y } => w(&[&t("{\"Named2\":{\"x\":"), &|o| x.write(o), &t(",\"é\":"), &|o| y.write(o), &t("}}")]),
            Kind::Named3 { x, y } => w(&[&t("{\"Named3\":{\"y\":"), &|o| x.write(o), &t(",\"x\\u0001\":"), &|o| y.write(o), &t("}}")]),
            Kind::Three(a, b, c) => w(&[&t("{\"Three\":["), &|o| a.write(o), &t(","), &|o| b.write(o), &t(","), &|o| c.write(o), &t("]}")]),
            Kind::One2(a) => w(&[&t("{\"One2\":"), &|o| a.write(o), &t("}")]),
            Kind::Inner(a) => w(&[&t("{\"Inner\":"), &|o| a.write(o), &t("}")]),
        }
    }
}
/// what cannot be deserialized again: maps, enums, borrowed strings, non-finite numbers, keys that aren't strings
#[no_mangle]
pub extern "C" fn json_ser_only() {
    match param(0) {
        0 => {
            let k = Kind::any();
            ser(&k, &|o| k.write(o));
        }
        1 => {
            let mut m: BTreeMap<String, Option<bool>> = BTreeMap::new();
            for _ in 0..choose(3) {
                m.insert(String::from((any_u8() & 0x7f) as char), Any::any());
            }
            ser(&m, &|o| m.write(o));
        }
        2 => {
            let c = char::any();
            let m: BTreeMap<char, bool> = [(c, any_bool())].into();
            ser(&m, &|o| {
                o.push(b'{');
                w_str(c.encode_utf8(&mut [0; 4]), o);
                o.push(b':');
                m[&c].write(o);
                o.push(b'}');
            });
        }
        3 => {
            let m: BTreeMap<i16, u8> = [(i16::any(), 1)].into();
            ser(&m, &|o| {
                o.extend_from_slice(b"{\"");
                m.keys().next().unwrap().write(o);
                o.extend_from_slice(b"\":1}");
            });
        }
        4 => {
            let t = String::any();
            let s: &'static str = unsafe { &*(t.as_str() as *const str) };
            ser(&s, &|o| w_str(s, o));
        }
        5 => {
            let t = String::any();
            let c: std::borrow::Cow<'static, str> =
                if choose(2) == 0 { std::borrow::Cow::Owned(t.clone()) } else { std::borrow::Cow::Borrowed(unsafe { &*(t.as_str() as *const str) }) };
            ser(&c, &|o| w_str(&t, o));
        }
        6 => {
            // no such thing in JSON
            let f = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][choose(3) as usize];
            ser(&vec![f, 1.5], &|o| o.extend_from_slice(b"[null,1.5]"));
            ser(&Some(f as f32), &|o| o.extend_from_slice(b"null"));
        }
        7 => {
            let m: std::collections::HashMap<String, Vec<Kind>> = [(String::from((any_u8() & 0x7f) as char), vec![Kind::any()])].into();
            ser(&m, &|o| {
                let (k, v) = m.iter().next().unwrap();
                o.push(b'{');
                w_str(k, o);
                o.extend_from_slice(b":[");
                v[0].write(o);
                o.extend_from_slice(b"]}");
            });
        }
        _ => {}
    }
}
mod writer;
#[no_mangle]
pub extern "C" fn json_writer() {
    writer::run(param(0))
}
#[no_mangle]
pub extern "C" fn json_refused() {
    writer::refused()
}
entries!(json_writer, json_refused, json_de, json_tpl, json_deep, json_err, json_show, json_ser, json_ser_only);
