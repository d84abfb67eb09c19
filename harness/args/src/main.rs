//! Command line arguments: the parser against an independent reading of the arguments.
#![allow(dead_code)]
use facet::Facet;
use symx_api::*;

#[derive(Facet)]
struct Args {
    #[facet(positional)]
    path: String,
    #[facet(named, short = 'v')]
    verbose: bool,
    #[facet(named, short = 'j')]
    concurrency: usize,
}
#[derive(Facet)]
struct Two {
    #[facet(positional)]
    a: String,
    #[facet(named)]
    n: i8,
    #[facet(positional)]
    b: u8,
}
#[derive(Facet)]
struct Flags {
    #[facet(named)]
    s: String,
    #[facet(named)]
    f: bool,
    #[facet(positional)]
    g: bool,
}
#[derive(Facet)]
struct NoPos {
    #[facet(named)]
    n: u64,
    #[facet(named)]
    i: i64,
}
#[derive(Facet)]
struct Opt {
    #[facet(positional)]
    p: String,
    #[facet(named)]
    o: Option<u64>,
}
#[derive(Facet)]
struct Tup(String, u8);
#[derive(Facet)]
struct Inner {
    x: u8,
}
#[derive(Facet)]
struct Nested {
    #[facet(named)]
    a: u8,
    i: Inner,
}
/// names that begin alike
#[derive(Facet)]
struct Alike {
    #[facet(named)]
    ab: u8,
    #[facet(named)]
    a: bool,
    #[facet(positional)]
    abc: u16,
    #[facet(positional)]
    b: String,
    #[facet(positional)]
    c: i8,
}
#[derive(Facet)]
struct Plain {
    s: String,
    f: bool,
}
#[derive(Facet)]
#[repr(u8)]
enum En {
    A,
}
#[derive(Facet)]
struct Lst {
    #[facet(positional)]
    v: Vec<u8>,
}
#[derive(Facet)]
struct Empty {}

#[derive(PartialEq, Clone)]
enum V {
    S(String),
    B(bool),
    I(i128),
}
#[derive(Clone, Copy, PartialEq)]
enum K {
    Str,
    Bool,
    /// integer from and to
    Int(i128, i128),
    Other,
}
/// name, positional, kind
type F = (&'static str, bool, K);
const U8: K = K::Int(0, 255);
const U16: K = K::Int(0, 65535);
const I8: K = K::Int(-128, 127);
const I64: K = K::Int(i64::MIN as i128, i64::MAX as i128);
const U64: K = K::Int(0, u64::MAX as i128);

fn int(s: &str, lo: i128, hi: i128) -> Option<i128> {
    let b = s.as_bytes();
    let (neg, d) = match b.first()? {
        b'-' if lo < 0 => (true, &b[1..]),
        b'+' => (false, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() {
        return None;
    }
    let mut v = 0i128;
    for &c in d {
        if !(b'0'..=b'9').contains(&c) || v > hi {
            return None;
        }
        v = v * 10 + (c - b'0') as i128;
    }
    if neg {
        v = -v
    }
    (v >= lo && v <= hi).then_some(v)
}
fn value(k: K, s: &str) -> Option<V> {
    Some(match k {
        K::Str => V::S(s.into()),
        K::Bool => {
            let b = s.as_bytes();
            V::B(b.len() == 4 && b[0] | 32 == b't' && b[1] | 32 == b'r' && b[2] | 32 == b'u' && b[3] | 32 == b'e')
        }
        K::Int(lo, hi) => V::I(int(s, lo, hi)?),
        K::Other => return None,
    })
}
/// what the arguments say, if they are in order
fn eval(fs: &[F], toks: &[String]) -> Option<Vec<V>> {
    let mut vals: Vec<Option<V>> = fs.iter().map(|_| None).collect();
    let mut i = 0;
    while i < toks.len() {
        let t = &toks[i];
        i += 1;
        if t.as_bytes().starts_with(b"--") {
            let name = &t[2..];
            let f = fs.iter().position(|f| f.0 == name)?;
            // given twice
            if vals[f].is_some() {
                return None;
            }
            vals[f] = Some(if fs[f].2 == K::Bool {
                V::B(true)
            } else {
                let v = toks.get(i)?;
                i += 1;
                value(fs[f].2, v)?
            });
        } else {
            let f = (0..fs.len()).find(|&f| fs[f].1 && vals[f].is_none())?;
            vals[f] = Some(value(fs[f].2, t)?);
        }
    }
    vals.into_iter().collect()
}
trait Vals: for<'a> Facet {
    fn vals(&self) -> Vec<V>;
}
fn s(x: &String) -> V {
    V::S(x.clone())
}
fn i(x: impl TryInto<i128>) -> V {
    V::I(x.try_into().ok().unwrap())
}
macro_rules! vals {
    ($($t:ident, $v:ident => $($e:expr),*);* $(;)?) => { $(impl Vals for $t { fn vals(&self) -> Vec<V> { let $v = self; let _ = $v; vec![$($e),*] } })* };
}
vals! {
    Args, v => s(&v.path), V::B(v.verbose), i(v.concurrency as u64);
    Two, v => s(&v.a), i(v.n), i(v.b);
    Flags, v => s(&v.s), V::B(v.f), V::B(v.g);
    NoPos, v => i(v.n), i(v.i);
    Opt, v => ;
    Tup, v => s(&v.0), i(v.1);
    Nested, v => ;
    Alike, v => i(v.ab), V::B(v.a), i(v.abc), s(&v.b), i(v.c);
    Plain, v => s(&v.s), V::B(v.f);
    En, v => ;
    Lst, v => ;
    Empty, v => ;
    u64, v => i(*v);
    String, v => s(v);
}
fn compare<T: Vals>(fs: &[F], toks: &[String]) {
    let refs: Vec<&str> = toks.iter().map(|t| t.as_str()).collect();
    match eval(fs, toks) {
        None => {
            // refusing is panicking; what was built so far is lost then
            witness(1);
            opts(PANIC_OK | LEAK_OK);
            let _v: T = facet_args::from_slice(&refs);
            fail("arguments that denote no value are accepted");
        }
        Some(want) => {
            // here a panic is an error
            let v: T = facet_args::from_slice(&refs);
            check(v.vals() == want, "the value is not the one the arguments denote");
            witness(0);
            out(b"ok");
        }
    }
}
fn on(t: u64, toks: &[String]) {
    match t {
        0 => compare::<Args>(&[("path", true, K::Str), ("verbose", false, K::Bool), ("concurrency", false, U64)], toks),
        1 => compare::<Two>(&[("a", true, K::Str), ("n", false, I8), ("b", true, U8)], toks),
        2 => compare::<Flags>(&[("s", false, K::Str), ("f", false, K::Bool), ("g", true, K::Bool)], toks),
        3 => compare::<NoPos>(&[("n", false, U64), ("i", false, I64)], toks),
        4 => compare::<Opt>(&[("p", true, K::Str), ("o", false, K::Other)], toks),
        5 => compare::<Tup>(&[("0", false, K::Str), ("1", false, U8)], toks),
        6 => compare::<Nested>(&[("a", false, U8), ("i", false, K::Other)], toks),
        7 => compare::<Alike>(&[("ab", false, U8), ("a", false, K::Bool), ("abc", true, U16), ("b", true, K::Str), ("c", true, I8)], toks),
        8 => compare::<Plain>(&[("s", false, K::Str), ("f", false, K::Bool)], toks),
        9 => compare::<En>(&[("A", false, K::Other)], toks),
        10 => compare::<Lst>(&[("v", true, K::Other)], toks),
        11 => compare::<Empty>(&[], toks),
        12 => compare::<u64>(&[("?", true, K::Other)], toks),
        _ => compare::<String>(&[("?", true, K::Other)], toks),
    }
}
/// ? is any ASCII character
fn fill(t: &str) -> String {
    let mut b = t.as_bytes().to_vec();
    for c in b.iter_mut() {
        if *c == b'?' {
            *c = any_u8();
            assume(*c < 0x80);
        }
    }
    String::from_utf8(b).unwrap()
}
const POOL: [&[&str]; 14] = [
    &["x", "?", "--verbose", "--concurrency", "14", "--path", "--", "--verbos?"],
    &["x", "?", "7", "--n", "-5", "--a", "--b", "--?", "300"],
    &["x", "?rue", "--s", "--f", "--g", "False", "--?"],
    &["5", "?", "--n", "--i", "-9", "--?", "x"],
    &["x", "?", "--o", "--p", "5"],
    &["x", "?", "--0", "--1", "--?"],
    &["5", "--a", "--i", "--x"],
    &["?", "--ab", "--a", "--abc", "--b", "--c", "70", "--a?"],
    &["x", "--s", "--f", "--?", "true"],
    &["A", "--A", "?"],
    &["1", "--v", "?"],
    &["?", "--?", "--"],
    &["?", "--?", "5"],
    &["?", "--?", "x"],
];
/// k arguments, each one of the pool
#[no_mangle]
pub extern "C" fn args_seq() {
    let (t, k) = (param(0) as usize, param(1));
    let p = POOL[t];
    let toks: Vec<String> = (0..k).map(|_| fill(p[choose(p.len() as u8) as usize])).collect();
    on(t as u64, &toks);
}
const TPL: &[(u64, &str)] = &[
    (0, "--verbose|--concurrency|??|x"),
    (0, "--verbose|--concurrency|1844674407370955161?|x"),
    (0, "--concurrency|3|?-verbose|x"),
    (0, "--verbose|--concurrency|3|??"),
    (0, "--verbose|?-concurrency|3|x"),
    (0, "--verbose|--concurrency|--?|x"),
    (0, "--verbose|--con?urrency|3|x"),
    (1, "--n|???|x|5"),
    (1, "--n|1|--?|?|5"),
    (1, "x|???|--n|?"),
    (1, "?|?|--n|1"),
    (1, "--b|5|--n|1|??"),
    (1, "--a|?|--n|1|?"),
    (1, "x|1|--n|1|?"),
    (2, "--s|?|--f|????"),
    (2, "--f|--s|--?|true"),
    (2, "--s|a|--?|TrU?"),
    (3, "--n|???|--i|?"),
    (3, "--i|-922337203685477580?|--n|1"),
    (3, "--i|922337203685477580?|--n|1"),
    (3, "--i|??|--n|1"),
    (5, "--?|x|--?|5"),
    (7, "--ab|?|--a|6553?|?|-?"),
    (7, "?|?|--a?|1|?|--a"),
    (7, "1|--?|5|--ab|2|--a|x"),
    (8, "--s|?|--?"),
    (1, "--n|1|--?n|1|x|5"),
    (1, "x|5|--??n|1"),
    (0, "?-verbose|--concurrency|1|x"),
    (0, "--?verbose|--concurrency|1|x"), // 29
    (0, "--??verbose|--concurrency|1|x"),
    (0, "--verbose?|--concurrency|1|x"),
    (0, "--verbose|-?concurrency|1|x"),
    (0, "--verbose|-?|x|--concurrency|1"),
    (0, "--verbose?|true|--concurrency|1|x"), // 34
    (0, "--verbose?true|--concurrency|1|x"),
    (0, "--verbose|--concurrency?1|x"),
    (0, "--verbose|--concurrency|?1?|x"),
    (0, "--verbose|--concurrency|1|--path|??"),
    (0, "--??|--verbose|--concurrency|1|x"), // 39
    (0, "--|??|--verbose|--concurrency|1"),
    (3, "--n|?1?|--i|2"),
    (3, "?-n|1|--i|2"),
    (7, "--ab|?5|--a|?6?|y|-7"),
    (7, "--?ab|5|--a|6|y|-7"), // 44
    (2, "--s|?--f?|--f|true"),
    (2, "--s|--?|--f|true"),
    (2, "--?s|x|--f|true"),
    (8, "--s|??|--f"),
];
#[no_mangle]
pub extern "C" fn args_tpl() {
    let (t, tpl) = TPL[param(0) as usize];
    let toks: Vec<String> = tpl.split('|').map(fill).collect();
    on(t, &toks);
}
symx_api::entries!(args_seq, args_tpl);
