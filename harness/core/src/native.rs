//! What the native type does, to compare its vtable with.
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use core::marker::PhantomData;
use facet::Facet;
use facet_core::PtrMut;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::num::*;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Weak};
use symx_api::*;

/// Does `$t` implement `$tr`? (decided by the compiler: an inherent constant shadows a trait's)
#[macro_export]
macro_rules! is {
    ($t:ty: $($tr:tt)+) => {{
        trait No {
            const IS: bool = false;
        }
        impl<T: ?Sized> No for T {}
        struct W<T: ?Sized>(core::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $($tr)+> W<T> {
            const IS: bool = true;
        }
        <W<$t>>::IS
    }};
}

/// Everything fed to it, in order.
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Claims {
    /// the vtable has exactly the traits the type has
    Exact,
    /// it may lack some
    Some,
}
pub struct Has {
    pub display: bool,
    pub debug: bool,
    pub default: bool,
    pub clone: bool,
    pub eq: bool,
    pub partial_eq: bool,
    pub partial_ord: bool,
    pub ord: bool,
    pub hash: bool,
    pub from_str: bool,
    pub send: bool,
    pub sync: bool,
    pub copy: bool,
    pub unpin: bool,
}
/// The native traits of a type, where it has them.
pub trait Native: Facet {
    const CLAIMS: Claims = Claims::Exact;
    const NAME: &'static str;
    /// arbitrary contents, for comparing
    fn any() -> Self;
    /// contents for formatting, where arbitrary ones would be out of reach
    fn few() -> Self {
        Self::any()
    }
    fn pick(_i: u8) -> Self {
        Self::any()
    }
    fn has() -> Has;
    fn dbg(&self) -> Option<String> {
        None
    }
    fn dis(&self) -> Option<String> {
        None
    }
    const EXACT_MARKERS: bool = true;
    fn peq(&self, _: &Self) -> Option<bool> {
        None
    }
    fn pcmp(&self, _: &Self) -> Option<Option<Ordering>> {
        None
    }
    fn tcmp(&self, _: &Self) -> Option<Ordering> {
        None
    }
    fn hsh(&self) -> Option<Vec<u8>> {
        None
    }
    fn cln(&self) -> Option<Self> {
        None
    }
    fn dfl() -> Option<Self> {
        None
    }
    fn prs(_: &str) -> Option<Option<Self>> {
        None
    }
    /// the same contents (natively)
    fn same(&self, o: &Self) -> bool {
        self.peq(o).unwrap_or(true)
    }
}
macro_rules! feat {
    (dbg) => { fn dbg(&self) -> Option<String> { Some(format!("{:?}", self)) } };
    (dis) => { fn dis(&self) -> Option<String> { use core::fmt::Write; let mut s = String::new(); let r = write!(s, "{}", self); Some(if r.is_ok() { s } else { "<failed>".into() }) } };
    (peq) => { fn peq(&self, o: &Self) -> Option<bool> { Some(self == o) } };
    (pcmp) => { fn pcmp(&self, o: &Self) -> Option<Option<Ordering>> { Some(self.partial_cmp(o)) } };
    (tcmp) => { fn tcmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } };
    (hsh) => { fn hsh(&self) -> Option<Vec<u8>> { let mut h = Rec::default(); self.hash(&mut h); Some(h.0) } };
    (cln) => { fn cln(&self) -> Option<Self> { Some(self.clone()) } };
    (dfl) => { fn dfl() -> Option<Self> { Some(Self::default()) } };
    (prs) => { fn prs(s: &str) -> Option<Option<Self>> { Some(s.parse().ok()) } };
    (some) => { const CLAIMS: Claims = Claims::Some; };
    (pm) => { const EXACT_MARKERS: bool = false; };
    (gen) => { const CLAIMS: Claims = Claims::Some; const EXACT_MARKERS: bool = false; };
}
macro_rules! native {
    ($t:ty, $name:expr, [$($f:tt)*], $any:expr $(, few $few:expr)? $(, same $same:expr)? $(, pick $pick:expr)?) => {
        impl Native for $t {
            const NAME: &'static str = $name;
            fn any() -> Self { $any }
            $( fn few() -> Self { $few } )?
            $( fn same(&self, o: &Self) -> bool { $same(self, o) } )?
            $( fn pick(i: u8) -> Self { $pick(i) } )?
            fn has() -> Has {
                Has {
                    display: is!($t: core::fmt::Display),
                    debug: is!($t: core::fmt::Debug),
                    default: is!($t: Default),
                    clone: is!($t: Clone),
                    eq: is!($t: Eq),
                    partial_eq: is!($t: PartialEq),
                    partial_ord: is!($t: PartialOrd),
                    ord: is!($t: Ord),
                    hash: is!($t: core::hash::Hash),
                    from_str: is!($t: core::str::FromStr),
                    send: is!($t: Send),
                    sync: is!($t: Sync),
                    copy: is!($t: Copy),
                    unpin: is!($t: Unpin),
                }
            }
            $( feat!($f); )*
        }
    };
}
macro_rules! ints {
    ($($t:ident $few:expr),*) => {$(
        native!($t, stringify!($t), [dbg dis peq pcmp tcmp hsh cln dfl prs], <$t>::from_le_bytes(arr()), few $few, pick |i| i as $t * 7);
    )*};
}
fn pick<T: Clone>(v: &[T]) -> T {
    v[choose(v.len() as u8) as usize].clone()
}
// one to three arbitrary digits, and the limits
macro_rules! few {
    ($t:ident) => {
        match choose(4) {
            0 => any_u8() as $t,
            1 => <$t>::MAX,
            2 => <$t>::MIN,
            _ => <$t>::MAX / 3,
        }
    };
}
ints!(u8 any_u8(), i8 any_u8() as i8, u16 few!(u16), u32 few!(u32), u64 few!(u64), u128 few!(u128), usize few!(usize), i16 few!(i16), i32 few!(i32), i64 few!(i64), i128 few!(i128), isize few!(isize));
macro_rules! nz {
    ($($t:ident $n:ident),*) => {$(
        native!($n, concat!("core::num::NonZero<", stringify!($t), ">"), [dbg dis peq pcmp tcmp hsh cln prs], { let v = <$n>::new(<$t>::from_le_bytes(arr())); assume(v.is_some()); v.unwrap() },
            few { let v = <$n>::new(any_u8() as $t); assume(v.is_some()); v.unwrap() });
    )*};
}
nz!(u8 NonZeroU8, i8 NonZeroI8, u16 NonZeroU16, u32 NonZeroU32, u64 NonZeroU64, u128 NonZeroU128, usize NonZeroUsize, i16 NonZeroI16, i32 NonZeroI32, i64 NonZeroI64, i128 NonZeroI128, isize NonZeroIsize);
native!(bool, "bool", [dbg dis peq pcmp tcmp hsh cln dfl prs], any_bool());
native!((), "()", [dbg peq pcmp tcmp hsh cln dfl], ());
fn any_char() -> char {
    let c = char::from_u32(any_u32());
    assume(c.is_some());
    c.unwrap()
}
fn few_char() -> char {
    match choose(6) {
        0 => {
            let b = any_u8();
            assume(b < 0x80);
            b as char
        }
        1 => 'é',
        2 => '\u{301}',
        3 => '€',
        4 => '😀',
        _ => '\u{200b}',
    }
}
native!(char, "char", [dbg dis peq pcmp tcmp hsh cln dfl prs], any_char(), few few_char());
native!(f32, "f32", [dbg dis peq pcmp cln dfl prs], f32::from_bits(any_u32()), few pick(&[0.0, -0.0, 1.5, f32::MAX, f32::MIN_POSITIVE, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1e10, 16777216.0]), same |a: &f32, b: &f32| a.to_bits() == b.to_bits());
native!(f64, "f64", [dbg dis peq pcmp cln dfl prs], f64::from_bits(any_u64()), few pick(&[0.0, -0.0, 1.5, f64::MAX, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, 0.1]), same |a: &f64, b: &f64| a.to_bits() == b.to_bits());
fn any_string() -> String {
    let n = choose(4) as usize;
    let s = String::from_utf8(bytes(n));
    assume(s.is_ok());
    s.unwrap()
}
fn few_string() -> String {
    let n = choose(3) as usize;
    let mut s = String::new();
    for _ in 0..n {
        s.push(if s.is_empty() { few_char() } else { 'x' });
    }
    s
}
fn leak(s: String) -> &'static str {
    opts(LEAK_OK);
    s.leak()
}
native!(String, "String", [dbg dis peq pcmp tcmp hsh cln dfl prs], any_string(), few few_string());
native!(&'static str, "&str", [dbg dis peq pcmp tcmp hsh cln dfl], leak(any_string()), few leak(few_string()));
native!(Cow<'static, str>, "Cow<'_, str>", [dbg dis peq pcmp tcmp hsh cln dfl], if any_bool() { Cow::Owned(any_string()) } else { Cow::Borrowed("ab") }, few if any_bool() { Cow::Owned(few_string()) } else { Cow::Borrowed("ab") });
native!(Ipv4Addr, "Ipv4Addr", [dbg dis peq pcmp tcmp hsh cln prs], Ipv4Addr::from(arr::<4>()), few Ipv4Addr::from([10, any_u8(), 0, 255]));
native!(Ipv6Addr, "Ipv6Addr", [dbg dis peq pcmp tcmp hsh cln prs], Ipv6Addr::from(arr::<16>()), few pick(&[Ipv6Addr::LOCALHOST, Ipv6Addr::UNSPECIFIED, Ipv6Addr::new(0xfe80, 0, 0, 1, 0, 0, 0xab, 0x1234), Ipv6Addr::new(0, 0, 0, 0, 0, 0xffff, 0x102, 0x304)]));
native!(IpAddr, "IpAddr", [dbg dis peq pcmp tcmp hsh cln prs], if any_bool() { IpAddr::V4(Ipv4Addr::any()) } else { IpAddr::V6(Ipv6Addr::any()) }, few if any_bool() { IpAddr::V4(Ipv4Addr::few()) } else { IpAddr::V6(Ipv6Addr::few()) });
native!(SocketAddr, "SocketAddr", [dbg dis peq pcmp tcmp hsh cln prs], SocketAddr::new(IpAddr::V4(Ipv4Addr::any()), any_u16()), few SocketAddr::new(IpAddr::few(), any_u8() as u16));
native!(PathBuf, "PathBuf", [dbg peq pcmp tcmp hsh cln dfl prs], PathBuf::from(String::from_utf8(vec![b'/' - choose(2), b'a' + choose(2), b'/']).unwrap()), few PathBuf::from(few_string()));
native!(&'static Path, "Path", [dbg peq pcmp tcmp hsh cln], Path::new(leak(any_ascii(2))), few Path::new(leak(few_string())));
fn any_ascii(n: usize) -> String {
    let b = bytes(n);
    for c in &b {
        assume(*c < 0x80);
    }
    String::from_utf8(b).unwrap()
}
native!(PhantomData<u8>, "PhantomData", [pm dbg peq pcmp tcmp hsh cln dfl], PhantomData);
native!(PhantomData<*const str>, "PhantomData", [pm dbg peq pcmp tcmp hsh cln dfl], PhantomData);
native!(PhantomData<core::cell::Cell<u8>>, "PhantomData", [pm dbg peq pcmp tcmp hsh cln dfl], PhantomData);
native!(facet_core::ConstTypeId, "ConstTypeId", [dbg peq pcmp tcmp hsh cln], pick(&[facet_core::ConstTypeId::of::<u8>(), facet_core::ConstTypeId::of::<u16>()]));

// ---------------------------------------------------------------- containers
fn any_vec<T: Native>(max: u8) -> Vec<T> {
    (0..choose(max + 1)).map(|_| T::any()).collect()
}
fn few_vec<T: Native>(max: u8) -> Vec<T> {
    (0..choose(max + 1)).map(|_| T::few()).collect()
}
/// eight bits of contents: keeps the containers of strings within reach
fn tiny() -> String {
    let n = choose(3);
    let mut s = String::new();
    for _ in 0..n {
        s.push((b'a' + (any_u8() & 15)) as char);
    }
    s
}
native!(Option<u8>, "Option<u8>", [gen dbg peq pcmp tcmp hsh cln dfl], any_bool().then(any_u8));
native!(Option<String>, "Option<String>", [gen dbg peq pcmp tcmp hsh cln dfl], any_bool().then(any_string), few any_bool().then(few_string));
native!(Option<Option<bool>>, "Option<Option<bool>>", [gen dbg peq pcmp tcmp hsh cln dfl], any_bool().then(|| any_bool().then(any_bool)));
native!([u8; 0], "[u8; 0]", [dbg peq pcmp tcmp hsh cln dfl], []);
native!([u8; 1], "[u8; 1]", [dbg peq pcmp tcmp hsh cln dfl], arr());
native!([u16; 3], "[u16; 3]", [dbg peq pcmp tcmp hsh cln dfl], [any_u16(), any_u16(), any_u16()], few [any_u8() as u16, 7, 65535]);
native!([String; 2], "[String; 2]", [dbg peq pcmp tcmp hsh cln dfl], [tiny(), tiny()]);
native!([f32; 2], "[f32; 2]", [dbg peq pcmp cln dfl], [f32::any(), f32::any()], few [f32::few(), 1.0], same |a: &[f32; 2], b: &[f32; 2]| a[0].same(&b[0]) & a[1].same(&b[1]));
native!([[u8; 2]; 2], "[[u8; 2]; 2]", [dbg peq pcmp tcmp hsh cln dfl], [arr(), arr()], few [[1, any_u8()], [2, 3]]);
native!([u8; 33], "[u8; 33]", [dbg peq pcmp tcmp hsh cln], { let mut a = [7; 33]; a[0] = any_u8(); a[32] = any_u8(); a });
native!(&'static [u8], "&[u8]", [dbg peq pcmp tcmp hsh cln dfl], { opts(LEAK_OK); any_vec::<u8>(3).leak() }, few { opts(LEAK_OK); any_vec::<u8>(2).leak() });
native!(&'static [String], "&[String]", [dbg peq pcmp tcmp hsh cln dfl], { opts(LEAK_OK); vec![tiny(); choose(3) as usize].leak() });
native!(&'static [f32], "&[f32]", [dbg peq pcmp cln dfl], { opts(LEAK_OK); any_vec::<f32>(2).leak() }, few { opts(LEAK_OK); few_vec::<f32>(2).leak() }, same |a: &&'static [f32], b: &&'static [f32]| a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| a.same(b)));
native!(&'static [PhantomData<core::cell::Cell<u8>>], "&[PhantomData]", [dbg peq pcmp tcmp hsh cln dfl], &[]);
native!(Vec<u8>, "Vec<u8>", [some dbg peq pcmp tcmp hsh cln dfl], any_vec(3), few any_vec(2));
native!(Vec<u32>, "Vec<u32>", [some dbg peq pcmp tcmp hsh cln dfl], any_vec(2), few few_vec(1));
native!(Vec<String>, "Vec<String>", [some dbg peq pcmp tcmp hsh cln dfl], (0..choose(3)).map(|_| tiny()).collect());
native!(Vec<Vec<u8>>, "Vec<Vec<u8>>", [some dbg peq pcmp tcmp hsh cln dfl], (0..choose(3)).map(|_| any_vec(1)).collect());
native!(Vec<f32>, "Vec<f32>", [some dbg peq pcmp cln dfl], any_vec(2), few few_vec(2), same |a: &Vec<f32>, b: &Vec<f32>| a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| a.same(b)));
native!(Vec<()>, "Vec<()>", [some dbg peq pcmp tcmp hsh cln dfl], any_vec(2));
native!(Vec<Bare>, "Vec<Bare>", [some dfl], any_vec(2), same |a: &Vec<Bare>, b: &Vec<Bare>| a.len() == b.len());
native!((u8,), "(u8,)", [some dbg peq pcmp tcmp hsh cln dfl], (any_u8(),));
native!((u8, String), "(u8, String)", [some dbg peq pcmp tcmp hsh cln dfl], (any_u8(), tiny()));
native!((u8, u16, bool), "(u8, u16, bool)", [some dbg peq pcmp tcmp hsh cln dfl], (any_u8(), any_u16(), any_bool()), few (any_u8(), 300, any_bool()));
native!((u8, f32, char, i8), "(u8, f32, char, i8)", [some dbg peq pcmp cln dfl], (any_u8(), f32::any(), any_char(), any_u8() as i8), few (any_u8(), f32::few(), 'x', -5));
native!((u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), "(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)", [some dbg peq pcmp tcmp hsh cln dfl], { let a: [u8; 12] = arr(); (a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]) }, few (1, 2, 3, 4, 5, 6, any_u8(), 8, 9, 10, 11, 12));
macro_rules! tuples {
    ($($($t:ident $n:tt)+;)*) => {$(
        native!(($($t),+), concat!("(", tuples!(@ $($t)+), ")"), [some dbg peq pcmp tcmp hsh cln dfl], { let a: [u8; 12] = arr(); ($(a[$n]),+) }, few { let a = any_u8(); ($(if a == $n { 10 } else { $n }),+) });
    )*};
    (@ $a:ident $($r:ident)*) => { concat!(stringify!($a) $(, ", ", stringify!($r))*) };
}
tuples! {
    u8 0 u8 1 u8 2 u8 3 u8 4;
    u8 0 u8 1 u8 2 u8 3 u8 4 u8 5;
    u8 0 u8 1 u8 2 u8 3 u8 4 u8 5 u8 6;
    u8 0 u8 1 u8 2 u8 3 u8 4 u8 5 u8 6 u8 7;
    u8 0 u8 1 u8 2 u8 3 u8 4 u8 5 u8 6 u8 7 u8 8;
    u8 0 u8 1 u8 2 u8 3 u8 4 u8 5 u8 6 u8 7 u8 8 u8 9;
    u8 0 u8 1 u8 2 u8 3 u8 4 u8 5 u8 6 u8 7 u8 8 u8 9 u8 10;
}
native!((PhantomData<core::cell::Cell<u8>>, u8), "(PhantomData, u8)", [pm some dbg peq pcmp tcmp hsh cln dfl], (PhantomData, any_u8()));
native!((Bare, u8), "(Bare, u8)", [some], (Bare { a: any_u8() }, any_u8()));
fn any_btree<V: Native>() -> BTreeMap<u8, V> {
    let mut m = BTreeMap::new();
    for _ in 0..choose(3) {
        m.insert(any_u8() & 3, V::any());
    }
    m
}
fn any_hash<V: Native>() -> HashMap<u8, V> {
    // (hashes of arbitrary values are out of reach of the solver)
    let mut m = HashMap::new();
    let n = choose(3);
    for _ in 0..n {
        m.insert(choose(4), V::pick(choose(2)));
    }
    m
}
native!(BTreeMap<u8, u8>, "BTreeMap<u8, u8>", [some dbg peq pcmp tcmp hsh cln dfl], any_btree());
native!(BTreeMap<String, u8>, "BTreeMap<String, u8>", [some dbg peq pcmp tcmp hsh cln dfl], { let mut m = BTreeMap::new(); for _ in 0..choose(3) { m.insert(tiny(), any_u8()); } m }, few { let mut m = BTreeMap::new(); for _ in 0..choose(3) { m.insert(tiny(), 5); } m });
native!(BTreeMap<u8, Bare>, "BTreeMap<u8, Bare>", [some dfl], any_btree(), same |a: &BTreeMap<u8, Bare>, b: &BTreeMap<u8, Bare>| a.len() == b.len());
native!(HashMap<u8, u8>, "HashMap<u8, u8>", [some dbg peq cln dfl], any_hash());
native!(HashMap<u8, Bare>, "HashMap<u8, Bare>", [some dfl], any_hash(), same |a: &HashMap<u8, Bare>, b: &HashMap<u8, Bare>| a.len() == b.len());
native!(Arc<u8>, "Arc", [gen dbg peq pcmp tcmp hsh cln dfl], Arc::new(any_u8()));
native!(Arc<String>, "Arc", [gen dbg peq pcmp tcmp hsh cln dfl], Arc::new(tiny()));
native!(Weak<u8>, "Weak", [gen dbg cln dfl], Weak::new());
native!(core::ptr::NonNull<u8>, "NonNull", [gen dbg peq pcmp tcmp hsh cln], core::ptr::NonNull::dangling());

// ---------------------------------------------------------------- derived types
#[derive(Facet)]
pub struct Bare {
    pub a: u8,
}
native!(Bare, "Bare", [], Bare { a: any_u8() }, same |a: &Bare, b: &Bare| a.a == b.a);
impl Default for Vb {
    fn default() -> Self {
        Vb { a: 3, b: "dflt".into() }
    }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Vb {
    a: u8,
    b: String,
}
native!(Vb, "Vb", [dbg peq pcmp tcmp hsh cln dfl], Vb { a: any_u8(), b: tiny() });
#[derive(Facet, Debug, Clone, Copy, PartialEq, PartialOrd)]
pub struct Tu(u8, f32);
native!(Tu, "Tu", [dbg peq pcmp cln], Tu(any_u8(), f32::any()), few Tu(any_u8(), f32::few()), same |a: &Tu, b: &Tu| a.0 == b.0 && a.1.same(&b.1));
#[derive(Facet, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Un;
native!(Un, "Un", [dbg peq pcmp tcmp hsh cln dfl], Un);
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum En {
    A,
    B(u8, String),
    C { x: u16 },
}
native!(En, "En", [dbg peq pcmp tcmp hsh cln], match choose(3) { 0 => En::A, 1 => En::B(any_u8(), tiny()), _ => En::C { x: any_u16() } }, few match choose(3) { 0 => En::A, 1 => En::B(any_u8(), tiny()), _ => En::C { x: any_u8() as u16 } });
/// traits that are not the derived ones: reversed order, case folded equality, own text
#[derive(Facet, Clone, Copy)]
pub struct Odd {
    v: u8,
}
impl PartialEq for Odd {
    fn eq(&self, o: &Self) -> bool {
        self.v & 0xdf == o.v & 0xdf
    }
}
impl Eq for Odd {}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.v == 0xff || o.v == 0xff {
            return None;
        }
        Some((o.v & 0xdf).cmp(&(self.v & 0xdf)))
    }
}
impl Ord for Odd {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.v >> 1).cmp(&(o.v >> 1))
    }
}
impl Hash for Odd {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.v & 0xdf).hash(h);
        h.write(b"odd");
    }
}
impl core::fmt::Display for Odd {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        if self.v == 1 {
            return Err(core::fmt::Error);
        }
        write!(f, "odd {}", self.v)
    }
}
impl core::fmt::Debug for Odd {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        write!(f, "Odd!{}", self.v)
    }
}
impl core::str::FromStr for Odd {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        if s.len() == 1 { Ok(Odd { v: s.as_bytes()[0] ^ 1 }) } else { Err(()) }
    }
}
native!(Odd, "Odd", [dbg dis peq pcmp tcmp hsh cln prs], Odd { v: any_u8() }, same |a: &Odd, b: &Odd| a.v == b.v);
impl Odd {
    pub fn fails(&self) -> bool {
        self.v == 1
    }
}
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Gen<T> {
    t: T,
    v: Vec<T>,
}
native!(Gen<u8>, "Gen", [gen dbg peq cln], Gen { t: any_u8(), v: any_vec(1) });
/// owns memory, can only be moved
#[derive(Facet, Debug)]
pub struct Own {
    s: String,
    n: Vec<String>,
}
native!(Own, "Own", [dbg], Own { s: tiny(), n: vec![tiny()] }, same |a: &Own, b: &Own| a.s == b.s && a.n == b.n);
#[derive(Facet, Debug, Default)]
pub struct NotSend {
    p: PhantomData<*const u8>,
    a: u8,
}
native!(NotSend, "NotSend", [dbg dfl], NotSend { p: PhantomData, a: any_u8() }, same |a: &NotSend, b: &NotSend| a.a == b.a);

pub fn feed<T: Facet>(v: &T) -> Option<Vec<u8>> {
    let f = T::SHAPE.vtable.hash?;
    let mut h = Rec::default();
    unsafe { f(facet_core::PtrConst::new(v as *const T), PtrMut::new(&mut h as *mut Rec), |h, b| h.as_mut::<Rec>().write(b)) };
    Some(h.0)
}

/// calls `$f::<T>()` for the type numbered `$i`
#[macro_export]
macro_rules! dispatch {
    ($i:expr, $f:ident) => { dispatch!(@ $i, $f, 0;
        [u8] [i8] [u16] [u32] [u64] [u128] [usize] [i16] [i32] [i64] [i128] [isize]
        [NonZeroU8] [NonZeroI8] [NonZeroU16] [NonZeroU32] [NonZeroU64] [NonZeroU128] [NonZeroUsize] [NonZeroI16] [NonZeroI32] [NonZeroI64] [NonZeroI128] [NonZeroIsize]
        [bool] [()] [char] [f32] [f64] [String] [&'static str] [Cow<'static, str>] [Ipv4Addr] [Ipv6Addr] [IpAddr] [SocketAddr] [PathBuf] [&'static Path]
        [PhantomData<u8>] [PhantomData<*const str>] [PhantomData<core::cell::Cell<u8>>] [facet_core::ConstTypeId]
        [Option<u8>] [Option<String>] [Option<Option<bool>>] [[u8; 0]] [[u8; 1]] [[u16; 3]] [[String; 2]] [[f32; 2]] [[[u8; 2]; 2]] [[u8; 33]]
        [&'static [u8]] [&'static [String]] [&'static [f32]] [&'static [PhantomData<core::cell::Cell<u8>>]]
        [Vec<u8>] [Vec<u32>] [Vec<String>] [Vec<Vec<u8>>] [Vec<f32>] [Vec<()>] [Vec<Bare>]
        [(u8,)] [(u8, String)] [(u8, u16, bool)] [(u8, f32, char, i8)] [(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)] [(PhantomData<core::cell::Cell<u8>>, u8)] [(Bare, u8)]
        [BTreeMap<u8, u8>] [BTreeMap<String, u8>] [BTreeMap<u8, Bare>] [HashMap<u8, u8>] [HashMap<u8, Bare>] [Arc<u8>] [Arc<String>] [Weak<u8>] [core::ptr::NonNull<u8>]
        [Bare] [Vb] [Tu] [Un] [En] [Odd] [Gen<u8>] [Own] [NotSend]
        [(u8, u8, u8, u8, u8)] [(u8, u8, u8, u8, u8, u8)] [(u8, u8, u8, u8, u8, u8, u8)] [(u8, u8, u8, u8, u8, u8, u8, u8)] [(u8, u8, u8, u8, u8, u8, u8, u8, u8)] [(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)] [(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)]
    ) };
    (@ $i:expr, $f:ident, $n:expr; [$t:ty] $($r:tt)*) => { if $i == $n { $f::<$t>() } else { dispatch!(@ $i, $f, $n + 1; $($r)*) } };
    (@ $i:expr, $f:ident, $n:expr;) => { {} };
}
