//! TOML: the deserializer against an independent reading of the parsed document.
//! The document is parsed by toml_edit on both sides.
#![allow(dead_code)]
use facet::Facet;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::rc::Rc;
use std::sync::Arc;
use symx_api::*;
use toml_edit::{DocumentMut, Item, Value};

/// what a value looks like, with everything spelled out
#[derive(PartialEq, Clone)]
enum V {
    B(bool),
    I(i128),
    F(u64),
    S(String),
    None,
    Some(Box<V>),
    List(Vec<V>),
    Map(Vec<(String, V)>),
    St(Vec<V>),
    En(&'static str, Vec<V>),
}
/// the type as the harness knows it
trait Ty: Facet + Sized + 'static {
    fn show(&self) -> V;
    /// the value an item denotes
    fn read(i: &Item) -> Option<V>;
    /// what a field of this type is if there's no item for it
    fn absent() -> Option<V> {
        None
    }
}
fn int(i: &Item, lo: i128, hi: i128) -> Option<V> {
    let v = match i {
        Item::Value(Value::Integer(n)) => *n.value() as i128,
        Item::Value(Value::Float(f)) => {
            let f = *f.value();
            // a whole number, and small enough to be converted exactly
            if !(f >= -2e19 && f <= 2e19) {
                return None;
            }
            let n = f as i128;
            if n as f64 != f {
                return None;
            }
            n
        }
        _ => return None,
    };
    (v >= lo && v <= hi).then_some(V::I(v))
}
macro_rules! ints {
    ($($t:ty),*) => { $(impl Ty for $t {
        fn show(&self) -> V { V::I(*self as i128) }
        fn read(i: &Item) -> Option<V> { int(i, <$t>::MIN as i128, <$t>::MAX as i128) }
    })* };
}
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
fn canon(f: f64) -> V {
    V::F(if f.is_nan() { f64::NAN.to_bits() } else { f.to_bits() })
}
impl Ty for f64 {
    fn show(&self) -> V {
        canon(*self)
    }
    fn read(i: &Item) -> Option<V> {
        match i {
            Item::Value(Value::Float(f)) => Some(canon(*f.value())),
            Item::Value(Value::Integer(n)) => Some(canon(*n.value() as f64)),
            _ => None,
        }
    }
}
impl Ty for f32 {
    fn show(&self) -> V {
        canon(*self as f64)
    }
    fn read(i: &Item) -> Option<V> {
        match i {
            Item::Value(Value::Float(f)) => Some(canon(*f.value() as f32 as f64)),
            Item::Value(Value::Integer(n)) => Some(canon(*n.value() as f32 as f64)),
            _ => None,
        }
    }
}
impl Ty for bool {
    fn show(&self) -> V {
        V::B(*self)
    }
    fn read(i: &Item) -> Option<V> {
        match i {
            Item::Value(Value::Boolean(b)) => Some(V::B(*b.value())),
            _ => None,
        }
    }
}
fn text(i: &Item) -> Option<&str> {
    match i {
        Item::Value(Value::String(s)) => Some(s.value()),
        _ => None,
    }
}
impl Ty for String {
    fn show(&self) -> V {
        V::S(self.clone())
    }
    fn read(i: &Item) -> Option<V> {
        text(i).map(|s| V::S(s.into()))
    }
}
impl Ty for Cow<'static, str> {
    fn show(&self) -> V {
        V::S(self.to_string())
    }
    fn read(i: &Item) -> Option<V> {
        text(i).map(|s| V::S(s.into()))
    }
}
macro_rules! from_text {
    ($($t:ty),*) => { $(impl Ty for $t {
        fn show(&self) -> V { V::S(self.to_string()) }
        fn read(i: &Item) -> Option<V> { text(i)?.parse::<$t>().ok().map(|v| V::S(v.to_string())) }
    })* };
}
from_text!(IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr);
/// types facet-toml doesn't read
macro_rules! unsupported {
    ($($t:ty),*) => { $(impl Ty for $t {
        fn show(&self) -> V { V::None }
        fn read(_: &Item) -> Option<V> { None }
    })* };
}
unsupported!(u128, char, [u8; 2], Arc<u8>, ());
impl<T: Ty> Ty for Option<T> {
    fn show(&self) -> V {
        match self {
            None => V::None,
            Some(v) => V::Some(Box::new(v.show())),
        }
    }
    fn read(i: &Item) -> Option<V> {
        T::read(i).map(|v| V::Some(Box::new(v)))
    }
    fn absent() -> Option<V> {
        Some(V::None)
    }
}
impl<T: Ty> Ty for Vec<T> {
    fn show(&self) -> V {
        V::List(self.iter().map(|v| v.show()).collect())
    }
    fn read(i: &Item) -> Option<V> {
        match i {
            Item::Value(Value::Array(a)) => {
                let mut o = Vec::new();
                for v in a.iter() {
                    o.push(T::read(&Item::Value(v.clone()))?)
                }
                Some(V::List(o))
            }
            _ => None,
        }
    }
}
/// the entries of a table of either kind
fn table(i: &Item) -> Option<Vec<(String, Item)>> {
    match i {
        Item::Table(t) => Some(t.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()),
        Item::Value(Value::InlineTable(t)) => Some(t.iter().map(|(k, v)| (k.to_string(), Item::Value(v.clone()))).collect()),
        _ => None,
    }
}
fn sorted(mut v: Vec<(String, V)>) -> V {
    // (few entries)
    for i in 0..v.len() {
        for j in i + 1..v.len() {
            if v[j].0 < v[i].0 {
                v.swap(i, j)
            }
        }
    }
    V::Map(v)
}
fn map<T: Ty>(i: &Item) -> Option<V> {
    let mut o = Vec::new();
    for (k, v) in table(i)? {
        o.push((k, T::read(&v)?))
    }
    Some(sorted(o))
}
impl<T: Ty> Ty for HashMap<String, T> {
    fn show(&self) -> V {
        sorted(self.iter().map(|(k, v)| (k.clone(), v.show())).collect())
    }
    fn read(i: &Item) -> Option<V> {
        map::<T>(i)
    }
}
impl<T: Ty> Ty for BTreeMap<String, T> {
    fn show(&self) -> V {
        sorted(self.iter().map(|(k, v)| (k.clone(), v.show())).collect())
    }
    fn read(i: &Item) -> Option<V> {
        map::<T>(i)
    }
}
/// keys only from strings
impl Ty for HashMap<u8, u8> {
    fn show(&self) -> V {
        V::Map(vec![])
    }
    fn read(i: &Item) -> Option<V> {
        let t = table(i)?;
        t.is_empty().then(|| V::Map(vec![]))
    }
}
type R = fn(&Item) -> Option<V>;
type A = fn() -> Option<V>;
fn fields(i: &Item, fs: &[(&str, R, A)]) -> Option<Vec<V>> {
    let t = table(i)?;
    let mut o = Vec::new();
    for (n, r, a) in fs {
        match t.iter().find(|e| e.0 == *n) {
            Some((_, v)) => o.push(r(v)?),
            None => o.push(a()?),
        }
    }
    Some(o)
}
fn structure(i: &Item, fs: &[(&str, R, A)]) -> Option<V> {
    match i {
        // a single value stands for a struct of one field
        Item::Value(v) if !v.is_inline_table() => {
            if fs.len() != 1 {
                return None;
            }
            Some(V::St(vec![fs[0].1(i)?]))
        }
        _ => Some(V::St(fields(i, fs)?)),
    }
}
fn no() -> Option<V> {
    None
}
macro_rules! st {
    ($($n:ident { $($f:tt : $ft:ty as $k:literal),* })*) => { $(impl Ty for $n {
        fn show(&self) -> V { V::St(vec![$(self.$f.show()),*]) }
        fn read(i: &Item) -> Option<V> { structure(i, &[$(($k, <$ft as Ty>::read, <$ft as Ty>::absent)),*]) }
    })* };
}
/// a variant's content: variants' fields must be there even if optional
fn variant(i: &Item, vs: &[(&'static str, bool, &[(&str, R, A)])]) -> Option<V> {
    if let Some(s) = text(i) {
        let v = vs.iter().find(|v| v.0 == s)?;
        return v.1.then(|| V::En(v.0, vec![]));
    }
    let t = table(i)?;
    if t.len() != 1 {
        return None;
    }
    let v = vs.iter().find(|v| v.0 == t[0].0)?;
    if v.1 {
        return Some(V::En(v.0, vec![]));
    }
    let c = &t[0].1;
    if table(c).is_some() {
        return Some(V::En(v.0, fields(c, v.2)?));
    }
    if v.2.is_empty() {
        return Some(V::En(v.0, vec![]));
    }
    match c {
        Item::Value(_) if v.2.len() == 1 => Some(V::En(v.0, vec![v.2[0].1(c)?])),
        _ => None,
    }
}

#[derive(Facet)]
struct Ints {
    a: u8,
    b: i8,
    c: u64,
    d: i64,
}
#[derive(Facet)]
struct Mixed {
    s: String,
    b: bool,
    o: Option<u8>,
    f: f64,
    n: u16,
}
#[derive(Facet)]
struct Inner {
    x: u8,
    y: Option<String>,
}
#[derive(Facet)]
struct Nest {
    k: u8,
    i: Inner,
    z: bool,
}
#[derive(Facet)]
struct One {
    v: u16,
}
#[derive(Facet)]
struct NewT(String);
#[derive(Facet)]
struct OneOpt {
    v: Option<u8>,
}
#[derive(Facet)]
struct Ones {
    a: One,
    n: NewT,
    o: OneOpt,
    u: bool,
}
#[derive(Facet)]
struct Lists {
    a: Vec<u8>,
    b: Vec<Vec<bool>>,
    c: Vec<Inner>,
    d: u8,
}
#[derive(Facet)]
struct Maps {
    a: HashMap<String, u8>,
    b: BTreeMap<String, Inner>,
    c: u8,
}
#[derive(Facet)]
struct Opts {
    a: Option<Option<u8>>,
    b: Option<Inner>,
    c: Option<Vec<u8>>,
    d: Option<HashMap<String, bool>>,
    e: u8,
    f: Option<En>,
}
#[derive(Facet)]
#[repr(u8)]
enum En {
    Unit,
    Tup(u8),
    Pair(bool, String),
    St { x: u8, y: Option<u8> },
    One { v: i16 },
    Empty {},
    In(Inner),
    Deep(Box1),
    Lst(Vec<u8>),
}
#[derive(Facet)]
#[repr(u8)]
enum Box1 {
    A,
    B { e: u8 },
}
#[derive(Facet)]
struct WithEnum {
    a: En,
    b: u8,
    c: Box1,
}
#[derive(Facet)]
struct EnList {
    v: Vec<En>,
    m: HashMap<String, Box1>,
    k: bool,
}
#[derive(Facet)]
struct Empty {}
#[derive(Facet)]
struct Texts {
    c: Cow<'static, str>,
    v4: Ipv4Addr,
    e: bool,
}
#[derive(Facet)]
struct Addrs {
    a: Ipv6Addr,
    b: IpAddr,
    c: SocketAddr,
}
#[derive(Facet)]
struct Wide {
    a: i16,
    b: u32,
    c: i32,
    d: usize,
    e: isize,
    f: f32,
}
#[derive(Facet)]
struct Bad1 {
    a: u8,
    p: Arc<u8>,
}
#[derive(Facet)]
struct Bad2 {
    p: [u8; 2],
}
#[derive(Facet)]
struct Bad3 {
    p: u128,
    c: char,
}
#[derive(Facet)]
struct Bad4 {
    p: HashMap<u8, u8>,
    u: u8,
}
#[derive(Facet)]
struct Tup3(u8, bool, Option<String>);
#[derive(Facet)]
struct HasTup {
    t: Tup3,
    k: u8,
}
st! {
    Ints { a: u8 as "a", b: i8 as "b", c: u64 as "c", d: i64 as "d" }
    Mixed { s: String as "s", b: bool as "b", o: Option<u8> as "o", f: f64 as "f", n: u16 as "n" }
    Inner { x: u8 as "x", y: Option<String> as "y" }
    Nest { k: u8 as "k", i: Inner as "i", z: bool as "z" }
    One { v: u16 as "v" }
    NewT { 0: String as "0" }
    OneOpt { v: Option<u8> as "v" }
    Ones { a: One as "a", n: NewT as "n", o: OneOpt as "o", u: bool as "u" }
    Lists { a: Vec<u8> as "a", b: Vec<Vec<bool>> as "b", c: Vec<Inner> as "c", d: u8 as "d" }
    Maps { a: HashMap<String, u8> as "a", b: BTreeMap<String, Inner> as "b", c: u8 as "c" }
    Opts { a: Option<Option<u8>> as "a", b: Option<Inner> as "b", c: Option<Vec<u8>> as "c", d: Option<HashMap<String, bool>> as "d", e: u8 as "e", f: Option<En> as "f" }
    WithEnum { a: En as "a", b: u8 as "b", c: Box1 as "c" }
    EnList { v: Vec<En> as "v", m: HashMap<String, Box1> as "m", k: bool as "k" }
    Texts { c: Cow<'static, str> as "c", v4: Ipv4Addr as "v4", e: bool as "e" }
    Addrs { a: Ipv6Addr as "a", b: IpAddr as "b", c: SocketAddr as "c" }
    Wide { a: i16 as "a", b: u32 as "b", c: i32 as "c", d: usize as "d", e: isize as "e", f: f32 as "f" }
    Bad1 { a: u8 as "a", p: Arc<u8> as "p" }
    Bad2 { p: [u8; 2] as "p" }
    Bad3 { p: u128 as "p", c: char as "c" }
    Bad4 { p: HashMap<u8, u8> as "p", u: u8 as "u" }
    Tup3 { 0: u8 as "0", 1: bool as "1", 2: Option<String> as "2" }
    HasTup { t: Tup3 as "t", k: u8 as "k" }
}
impl Ty for Empty {
    fn show(&self) -> V {
        V::St(vec![])
    }
    fn read(i: &Item) -> Option<V> {
        structure(i, &[])
    }
}
impl Ty for Box1 {
    fn show(&self) -> V {
        match self {
            Box1::A => V::En("A", vec![]),
            Box1::B { e } => V::En("B", vec![e.show()]),
        }
    }
    fn read(i: &Item) -> Option<V> {
        variant(i, &[("A", true, &[]), ("B", false, &[("e", u8::read, no)])])
    }
}
impl Ty for En {
    fn show(&self) -> V {
        match self {
            En::Unit => V::En("Unit", vec![]),
            En::Tup(a) => V::En("Tup", vec![a.show()]),
            En::Pair(a, b) => V::En("Pair", vec![a.show(), b.show()]),
            En::St { x, y } => V::En("St", vec![x.show(), y.show()]),
            En::One { v } => V::En("One", vec![v.show()]),
            En::Empty {} => V::En("Empty", vec![]),
            En::In(i) => V::En("In", vec![i.show()]),
            En::Deep(i) => V::En("Deep", vec![i.show()]),
            En::Lst(i) => V::En("Lst", vec![i.show()]),
        }
    }
    fn read(i: &Item) -> Option<V> {
        variant(
            i,
            &[
                ("Unit", true, &[]),
                ("Tup", false, &[("0", u8::read, no)]),
                ("Pair", false, &[("0", bool::read, no), ("1", String::read, no)]),
                ("St", false, &[("x", u8::read, no), ("y", <Option<u8>>::read, no)]),
                ("One", false, &[("v", i16::read, no)]),
                ("Empty", false, &[]),
                ("In", false, &[("0", Inner::read, no)]),
                ("Deep", false, &[("0", Box1::read, no)]),
                ("Lst", false, &[("0", <Vec<u8>>::read, no)]),
            ],
        )
    }
}

fn compare<T: Ty>(s: &str) {
    let want = match s.parse::<DocumentMut>() {
        Ok(d) => T::read(d.as_item()),
        Err(_) => None,
    };
    match facet_toml::from_str::<T>(s) {
        Ok(v) => {
            check(want.is_some(), "a document that denotes no value of the type is accepted");
            check(Some(v.show()) == want, "the value is not the one the document denotes");
            witness(0);
            out(b"ok");
        }
        Err(e) => {
            check(want.is_none(), "a document that denotes a value is refused");
            check(!e.to_string().is_empty(), "an error without a message");
            witness(1);
            out(b"err");
        }
    }
}
fn on(t: u64, s: &str) {
    match t {
        0 => compare::<Ints>(s),
        1 => compare::<Mixed>(s),
        2 => compare::<Nest>(s),
        3 => compare::<Ones>(s),
        4 => compare::<Lists>(s),
        5 => compare::<Maps>(s),
        6 => compare::<Opts>(s),
        7 => compare::<WithEnum>(s),
        8 => compare::<EnList>(s),
        9 => compare::<Empty>(s),
        10 => compare::<Texts>(s),
        11 => compare::<Wide>(s),
        12 => compare::<Bad1>(s),
        13 => compare::<Bad2>(s),
        14 => compare::<Bad3>(s),
        15 => compare::<Bad4>(s),
        16 => compare::<HasTup>(s),
        17 => compare::<En>(s),
        18 => compare::<u8>(s),
        19 => compare::<Vec<u8>>(s),
        20 => compare::<HashMap<String, u8>>(s),
        21 => compare::<Option<Inner>>(s),
        22 => compare::<OneOpt>(s),
        24 => compare::<Addrs>(s),
        _ => compare::<BTreeMap<String, Vec<bool>>>(s),
    }
}
#[no_mangle]
pub extern "C" fn toml_raw() {
    let (t, n) = (param(0), param(1) as usize);
    let b = bytes(n);
    if param(2) != 0 {
        for c in &b {
            assume(*c < 0x80);
        }
    }
    let Ok(s) = std::str::from_utf8(&b) else { return assume(false) };
    on(t, s);
}
/// ? stands for any ASCII character
const TPL: &[(u64, &str)] = &[
    (0, "a = ??\nb = -?\nc = 1\nd = 2\n"), // 0
    (0, "a = 25?\nb = -12?\nc = 1\nd = 2\n"),
    (0, "a = 1.?\nb = -1?.0\nc = 1\nd = 2\n"),
    (0, "a = 1\nb = 1\nc = 922337203685477580?\nd = -922337203685477580?\n"),
    (0, "a = 1\nb = 1\nc = 1?e1?\nd = -9?e17\n"),
    (0, "a = 0x?\nb = 0b?\nc = 0o?\nd = +?\n"), // 5
    (0, "a = '1'\nb = ?\nc = 1\nd = 1\n"),
    (0, "?=1\nb=2\nc=3\nd=4\n"),
    (0, "a=1\nb=2\nc=3\nd=4\n?=5"),
    (0, "a=1\nb=2\nc=3\nd=4?5"),
    (1, "s = '?'\nb = true\nf = 1.?\nn = 3\n"), // 10
    (1, "s = \"?\"\nb = tru?\no = 2?0\nf = 1\nn = 3\n"),
    (1, "s = \"\\?\"\nb = false\no = ?\nf = inf\nn = 3\n"),
    (1, "n = 3\nf = -?.5\n? = 4\nb = true\ns = ''\n"),
    (1, "s = ''\nb = true\nf = n?n\nn = 6553?\n"),
    (2, "k = 1\ni = {x = ?}\nz = true\n"), // 15
    (2, "k = 1\ni = {x = 1, ? = 'a'}\nz = true\n"),
    (2, "k = 1\nz = true\n[i]\nx = 1\n? = '?'\n"),
    (2, "k = 1\nz = true\ni.x = ?\ni.y = '?'\n"),
    (2, "k = 1\ni = ?\nz = true\n"),
    (2, "k = 1\nz = true\n[?]\nx = 1\n"), // 20
    (3, "a = ?\nn = '?'\no = ?\nu = true\n"),
    (3, "a.v = ?\nn = {0 = 'b'}\no = {}\nu = true\n"),
    (3, "a = {v = 1}\nn = {? = 'b'}\no = {v = ?}\nu = true\n"),
    (3, "a = []\nn = ?\no = 1\nu = true\n"),
    (4, "a = [?]\nb = []\nc = []\nd = 1\n"), // 25
    (4, "a = [1, ?, 25?]\nb = [[true], [], [?]]\nc = []\nd = 1\n"),
    (4, "a = []\nb = [[true, ?], [false]]\nc = [{x = 1}, {x = ?, y = 'a'}]\nd = 1\n"),
    (4, "a = []\nb = []\nd = 1\n[[c]]\nx = ?\n"),
    (4, "a = ?\nb = []\nc = []\nd = 1\n"),
    (5, "a = {}\nb = {}\nc = ?\n"), // 30
    (5, "a = {? = 1, b = 2}\nb = {q = {x = 3}, r = {x = ?, y = 'b'}}\nc = 1\n"),
    (5, "c = 1\n[a]\nx = ?\n? = 3\n[b.z]\nx = 4\n"),
    (5, "c = 1\na = ?\nb = {}\n"),
    (6, "a = ?\ne = 1\n"),
    (6, "b = {x = ?}\nc = [?]\nd = {y = true}\ne = 1\nf = 'Unit'\n"), // 35
    (6, "? = 1\ne = 1\n"),
    (6, "e = 1\na = 3\nf = {Tup = ?}\nc = []\n"),
    (6, "e = 1\n[f.St]\nx = 1\n? = 3\n"),
    (7, "a = 'Uni?'\nb = 1\nc = 'A'\n"),
    (7, "a = {Tup = ?}\nb = ?\nc = {B = {e = 1}}\n"), // 40
    (7, "a = {Tup = {? = 4}}\nb = 1\nc = {B = ?}\n"),
    (7, "a = {Pair = {0 = true, ? = 'x'}}\nb = 1\nc = 'B'\n"),
    (7, "a = {Pair = ?}\nb = 1\nc = 'A'\n"),
    (7, "a = 'Pair'\nb = 1\nc = 'A'\n?"),
    (7, "a = 'Tup'\nb = 1\nc = '?'\n"), // 45
    (7, "a = {St = {x = 1, ? = 2}}\nb = 1\nc = {A = ?}\n"),
    (7, "a = {One = ?}\nb = 1\nc = {? = 1}\n"),
    (7, "a = {One = {v = -?}}\nb = 1\nc = 'A'\n"),
    (7, "a = {Empty = {}}\nb = ?\nc = 'A'\n"),
    (7, "a = {Empty = ?}\nb = 1\nc = 'A'\n"), // 50
    (7, "a = 'Empty'\nb = ?\nc = 'A'\n"),
    (7, "a = {In = {0 = {x = ?}}}\nb = 1\nc = 'A'\n"),
    (7, "a = {In = {x = ?}}\nb = 1\nc = 'A'\n"),
    (7, "a = {Deep = {0 = {B = ?}}}\nb = 1\nc = 'A'\n"),
    (7, "a = {Deep = '?'}\nb = 1\nc = 'A'\n"), // 55
    (7, "a = {Lst = [?]}\nb = 1\nc = 'A'\n"),
    (7, "a = {Unit = 1, ? = 2}\nb = 1\nc = 'A'\n"),
    (7, "a = ?\nb = 1\nc = 'A'\n"),
    (7, "a = {?}\nb = 1\nc = 'A'\n"),
    (7, "b = 1\nc = 'A'\n[[a]]\nTup = ?\n"), // 60
    (7, "b = 1\nc = 'A'\n[a.Pair]\n0 = true\n1 = '?'\n"),
    (8, "v = ['Unit', {Tup = ?}, {One = 3}]\nm = {a = 'A', b = {B = 1}}\nk = true\n"),
    (8, "v = []\nm = {a = {B = ?}, ? = 'A'}\nk = true\n"),
    (8, "v = [{St = {x = 1, y = ?}}, {Lst = []}]\nm = {}\nk = true\n"),
    (8, "v = ['?u?', 'Unit']\nm = {}\nk = true\n"),
    (8, "v = ['Unit', '??']\nm = {a = '?'}\nk = true\n"),
    (8, "v = ['??pty', 'Unit']\nm = {}\nk = true\n"),
    (9, "?"), // 65
    (9, "? = 1"),
    (10, "c = '?'\nv4 = '1.2.3.?'\ne = true\n"),
    (10, "c = ''\nv4 = ?\ne = true\n"),
    (11, "a = -3276?\nb = 429496729?\nc = -214748364?\nd = 5\ne = -?\nf = 1\n"),
    (11, "a = ?\nb = ?.0\nc = 1e?\nd = 1e1?\ne = 0.?\nf = 1e?0\n"), // 70
    (12, "a = 1\np = ?\n"),
    (13, "p = [1, ?]\n"),
    (14, "p = ?\nc = 'a'\n"),
    (15, "p = {? = 2}\nu = 1\n"),
    (15, "p = {}\nu = ?\n"), // 75
    (16, "t = {0 = 1, 1 = true, ? = 'a'}\nk = 1\n"),
    (16, "t = {0 = 1, ? = true}\nk = 1\n"),
    (16, "t = ?\nk = 1\n"),
    (17, "Unit = ?\n"),
    (17, "[?nit]\n"), // 80
    (17, "Tup = ?\n"),
    (17, "Pair.0 = true\nPair.? = 'a'\n"),
    (17, "[St]\nx = ?\ny = 2\n"),
    (17, "Tup = 1\n? = 2\n"),
    (18, "?"), // 85
    (18, "? = 1"),
    (19, "?"),
    (20, "a = ?"),
    (20, "? = 3\nb = 4"),
    (21, "x = ?"), // 90
    (21, "x = 1\n? = 'a'"),
    (22, "v = ?"),
    (22, "? = 1"),
    (23, "a = [tru?]\nb = []\n"),
    (2, "k = 1\ni = 1979-05-2?\nz = true\n"), // 95
    (1, "s = '''\n?'''\nb = true\nf = 1e?\nn = 1_?\n"),
    (1, "s = 'a' # ?\nb = true\nf = 1.5\nn = 3\no = 0?\n"),
    (7, "b = 1\nc = 'A'\n[[a.Tup]]\n0 = ?\n"),
    (2, "k = 1\nz = true\n[[i]]\nx = ?\n"),
];
#[no_mangle]
pub extern "C" fn toml_tpl() {
    let (t, tpl) = TPL[param(0) as usize];
    let mut b = tpl.as_bytes().to_vec();
    for c in b.iter_mut() {
        if *c == b'?' {
            *c = any_u8();
            assume(*c < 0x80);
        }
    }
    let Ok(s) = std::str::from_utf8(&b) else { return assume(false) };
    on(t, s);
}
/// § stands for any of these values, ¤ for any of these keys
const VALS: &[&str] = &[
    "?", "-1?", "1.?", "'?'", "''", "true", "[]", "[?]", "{}", "{x = ?}", "{¤ = 1}", "1979-05-27", "'Unit'", "[{}]", "{0 = true, 1 = '?'}", "'::?'", "'1.2.3.4:?'",
    "1e?", "{A = 1, B = {e = 2}}", "inf", "[1, '?']",
];
const KEYS: &[&str] = &["x", "y", "Unit", "Tup", "Pair", "St", "One", "Empty", "In", "Deep", "Lst", "A", "B", "0", "1", "v", "e", "a", "zz", "tup", "''"];
const GEN: &[(u64, &str)] = &[
    (0, "a = §\nb = 2\nc = 3\nd = -4\n"), // 0
    (0, "a = 1\nb = 2\nc = §\nd = §\n"),
    (1, "s = §\nb = true\nf = 1.5\nn = 3\n"),
    (1, "s = 'a'\nb = §\no = §\nf = 2\nn = 3\n"),
    (1, "s = 'a'\nb = true\nf = §\nn = §\n"),
    (2, "k = 1\ni = §\nz = true\n"), // 5
    (2, "k = 1\nz = true\n[i]\nx = §\n¤ = §\n"),
    (3, "a = §\nn = §\no = 1\nu = true\n"),
    (3, "a = 1\nn = 'b'\no = §\nu = true\n"),
    (4, "a = §\nb = [§]\nc = []\nd = 1\n"),
    (4, "a = []\nb = []\nc = [§, §]\nd = 1\n"), // 10
    (5, "a = §\nb = {}\nc = 1\n"),
    (5, "a = {}\nb = {k = §}\nc = 1\n"),
    (6, "a = §\nb = §\ne = 1\n"),
    (6, "c = §\ne = 1\nf = §\n"),
    (6, "d = §\ne = 1\n"), // 15
    (7, "a = §\nb = 1\nc = §\n"),
    (7, "a = {¤ = §}\nb = 1\nc = 'A'\n"),
    (7, "a = {¤ = 1, ¤ = §}\nb = 1\nc = 'A'\n"),
    (7, "b = 1\nc = 'A'\n[a.¤]\n0 = §\n"),
    (7, "b = 1\nc = 'A'\n[a.¤]\nx = 1\n¤ = §\n"), // 20
    (7, "b = 1\na = {Pair = {0 = true, 1 = §}}\nc = {B = {e = §}}\n"),
    (8, "v = [§, 'Unit']\nm = {a = 'A'}\nk = true\n"),
    (8, "v = []\nm = {a = §, b = 'A'}\nk = true\n"),
    (10, "c = §\nv4 = '1.2.3.?'\ne = true\n"),
    (10, "c = ''\nv4 = §\ne = §\n"), // 25
    (11, "a = §\nb = §\nc = 1\nd = 5\ne = 2\nf = 1\n"),
    (11, "a = 1\nb = 1\nc = §\nd = §\ne = 2\nf = 1\n"),
    (11, "a = 1\nb = 1\nc = 2\nd = 3\ne = §\nf = §\n"),
    (16, "t = §\nk = 1\n"),
    (16, "t = {0 = §, 1 = §, 2 = 'a'}\nk = 1\n"), // 30
    (17, "¤ = §\n"),
    (17, "¤ = 1\n¤ = §\n"),
    (24, "a = §\nb = §\nc = '1.2.3.4:5'\n"),
    (24, "a = '::'\nb = '?.2.3.4'\nc = §\n"),
    (20, "¤ = §\n"), // 35
    (21, "¤ = §\n"),
    (22, "¤ = §\n"),
    (23, "a = §\n"),
    (9, "¤ = §\n"),
    (2, "k = 1\nz = true\n[i]\nx = 1\n¤ = §\n"), // 40
    (7, "a = {Tup = 1, ¤ = §}\nb = 1\nc = 'A'\n"),
    (7, "a = {¤ = {}, Lst = §}\nb = 1\nc = 'A'\n"),
    (7, "b = 1\nc = 'A'\n[a.St]\nx = 1\n¤ = §\n"),
    (7, "b = 1\nc = 'A'\n[a]\nLst = [1]\n¤ = §\n"),
    (16, "t = {0 = 1, 1 = §, 2 = 'a'}\nk = 1\n"), // 45
    (16, "t = {0 = §, 1 = true, 2 = 'a'}\nk = 1\n"),
    (17, "Tup = 1\n¤ = §\n"),
    (17, "¤ = §\nA = []\n"),
    (4, "a = []\nb = []\nc = [{x = 1}, §]\nd = 1\n"),
];
#[no_mangle]
pub extern "C" fn toml_gen() {
    let (t, tpl) = GEN[param(0) as usize];
    let mut b = tpl.to_string();
    while let Some(i) = b.find(['§', '¤']) {
        let pool = if b[i..].starts_with('§') { VALS } else { KEYS };
        b.replace_range(i..i + 2, pool[choose(pool.len() as u8) as usize]);
    }
    let mut b = b.into_bytes();
    for c in b.iter_mut() {
        if *c == b'?' {
            *c = any_u8();
            assume(*c < 0x80);
        }
    }
    let Ok(s) = std::str::from_utf8(&b) else { return assume(false) };
    on(t, s);
}
symx_api::entries!(toml_raw, toml_tpl, toml_gen);
