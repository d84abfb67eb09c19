//! YAML: the deserializer against an independent reading of the parsed document.
//! The document is parsed by yaml-rust2 on both sides.
#![allow(dead_code)]
use facet::Facet;
use std::collections::HashMap;
use symx_api::*;
use yaml_rust2::{Yaml, YamlLoader};

#[derive(Facet)]
struct Flat {
    s: String,
    n: u64,
}
#[derive(Facet)]
struct Nest {
    k: u64,
    a: Flat,
}
#[derive(Facet)]
struct Deep {
    o: Nest,
    b: Flat,
    t: String,
}
#[derive(Facet)]
struct Tup(u64, String);
#[derive(Facet)]
struct Empty {}
#[derive(Facet)]
struct Small {
    k: u8,
}
#[derive(Facet)]
struct Signed {
    k: i64,
    n: u64,
}
#[derive(Facet)]
struct Lst {
    n: u64,
    v: Vec<u64>,
}
#[derive(Facet)]
struct Opt {
    n: u64,
    o: Option<u64>,
}
#[derive(Facet)]
#[repr(u8)]
enum En {
    A,
    B(u64),
}
#[derive(Facet)]
struct WithEnum {
    e: En,
}
#[derive(Facet)]
struct WithMap {
    m: HashMap<String, u64>,
}
#[derive(Facet)]
struct Wrap {
    e: Empty,
    n: u64,
}

enum N {
    Str,
    U64,
    St(&'static [(&'static str, N)]),
    Other,
}
const FLAT: N = N::St(&[("s", N::Str), ("n", N::U64)]);
const NEST: N = N::St(&[("k", N::U64), ("a", FLAT)]);

#[derive(PartialEq)]
enum V {
    S(String),
    U(u64),
}
trait Leaves: for<'a> Facet {
    fn leaves(&self, o: &mut Vec<V>);
}
macro_rules! leaf {
    ($($t:ty, $f:expr);* $(;)?) => { $(impl Leaves for $t { fn leaves(&self, o: &mut Vec<V>) { let f: fn(&$t, &mut Vec<V>) = $f; f(self, o) } })* };
}
leaf! {
    Flat, |v, o| { o.push(V::S(v.s.clone())); o.push(V::U(v.n)) };
    Nest, |v, o| { o.push(V::U(v.k)); v.a.leaves(o) };
    Deep, |v, o| { v.o.leaves(o); v.b.leaves(o); o.push(V::S(v.t.clone())) };
    Tup, |v, o| { o.push(V::U(v.0)); o.push(V::S(v.1.clone())) };
    Wrap, |v, o| o.push(V::U(v.n));
    u64, |v, o| o.push(V::U(*v));
    String, |v, o| o.push(V::S(v.clone()));
    Empty, |_, _| {};
    Small, |_, _| {};
    Signed, |_, _| {};
    Lst, |_, _| {};
    Opt, |_, _| {};
    En, |_, _| {};
    WithEnum, |_, _| {};
    WithMap, |_, _| {};
    Vec<u64>, |_, _| {};
    bool, |_, _| {};
    i64, |_, _| {};
    f64, |_, _| {};
    Option<u64>, |_, _| {};
}
fn number(s: &str) -> Option<u64> {
    let b = s.as_bytes();
    let d = if !b.is_empty() && b[0] == b'+' { &b[1..] } else { b };
    if d.is_empty() {
        return None;
    }
    let mut v = 0u64;
    for &c in d {
        if !(b'0'..=b'9').contains(&c) {
            return None;
        }
        v = v.checked_mul(10)?.checked_add((c - b'0') as u64)?;
    }
    Some(v)
}
fn eval(n: &N, y: &Yaml, o: &mut Vec<V>) -> Option<()> {
    match (n, y) {
        (N::U64, Yaml::Integer(i)) if *i >= 0 => o.push(V::U(*i as u64)),
        (N::U64, Yaml::Boolean(b)) => o.push(V::U(*b as u64)),
        (N::U64, Yaml::String(s) | Yaml::Real(s)) => o.push(V::U(number(s)?)),
        (N::Str, Yaml::String(s)) => o.push(V::S(s.clone())),
        (N::St(fs), Yaml::Hash(h)) => {
            for (k, _) in h {
                let Yaml::String(k) = k else { return None };
                if !fs.iter().any(|f| f.0 == k) {
                    return None;
                }
            }
            for (name, f) in fs.iter() {
                let mut v = None;
                for (k, x) in h {
                    if let Yaml::String(k) = k {
                        if k == name {
                            v = Some(x)
                        }
                    }
                }
                eval(f, v?, o)?;
            }
        }
        _ => return None,
    }
    Some(())
}
fn compare<T: Leaves>(n: &N, s: &str) {
    let mut want = Vec::new();
    let ok = match YamlLoader::load_from_str(s) {
        Ok(docs) => docs.len() == 1 && eval(n, &docs[0], &mut want).is_some(),
        Err(_) => false,
    };
    match facet_yaml::from_str::<T>(s) {
        Ok(v) => {
            check(ok, "a document that denotes no value of the type is accepted");
            let mut have = Vec::new();
            v.leaves(&mut have);
            check(have == want, "the value is not the one the document denotes");
            witness(0);
            out(b"ok");
        }
        Err(e) => {
            check(!ok, "a document that denotes a value is refused");
            check(!e.to_string().is_empty(), "an error without a message");
            witness(1);
            out(b"err");
        }
    }
}
fn on(t: u64, s: &str) {
    match t {
        0 => compare::<Flat>(&FLAT, s),
        1 => compare::<Nest>(&NEST, s),
        2 => compare::<Deep>(&N::St(&[("o", NEST), ("b", FLAT), ("t", N::Str)]), s),
        3 => compare::<Tup>(&N::St(&[("0", N::U64), ("1", N::Str)]), s),
        4 => compare::<Empty>(&N::St(&[]), s),
        5 => compare::<Small>(&N::St(&[("k", N::Other)]), s),
        6 => compare::<Signed>(&N::St(&[("k", N::Other), ("n", N::U64)]), s),
        7 => compare::<Lst>(&N::St(&[("n", N::U64), ("v", N::Other)]), s),
        8 => compare::<Opt>(&N::St(&[("n", N::U64), ("o", N::Other)]), s),
        9 => compare::<En>(&N::Other, s),
        10 => compare::<WithEnum>(&N::St(&[("e", N::Other)]), s),
        11 => compare::<WithMap>(&N::St(&[("m", N::Other)]), s),
        12 => compare::<Wrap>(&N::St(&[("e", N::St(&[])), ("n", N::U64)]), s),
        13 => compare::<u64>(&N::U64, s),
        14 => compare::<String>(&N::Str, s),
        15 => compare::<Vec<u64>>(&N::Other, s),
        16 => compare::<bool>(&N::Other, s),
        17 => compare::<i64>(&N::Other, s),
        18 => compare::<f64>(&N::Other, s),
        _ => compare::<Option<u64>>(&N::Other, s),
    }
}
#[no_mangle]
pub extern "C" fn yaml_raw() {
    let (t, n) = (param(0), param(1) as usize);
    let b = bytes(n);
    // (what a refusal's message escapes is a matter of std's tables)
    if param(2) != 0 {
        for c in &b {
            assume(*c < 0x80);
        }
    }
    let Ok(s) = std::str::from_utf8(&b) else { return assume(false) };
    on(t, s);
}
/// ? stands for any ASCII character
const TPL: &[(u64, &str)] = &[
    (0, "s: a?\nn: 5\n"), // 0
    (0, "s: a\nn: ??\n"),
    (0, "s: a\nn: -?\n"),
    (0, "s: a\nn: '??'\n"),
    (0, "s: a\nn: 1844674407370955161?\n"),
    (0, "s: a\nn: 922337203685477580?\n"), // 5
    (0, "s: a\nn: -922337203685477580?\n"),
    (0, "s: ?\nn: tru?\n"),
    (0, "s: \"?\"\nn: 1\n"),
    (0, "s: '?'\nn: 1\n"),
    (0, "?: a\nn: 1\n"), // 10
    (0, "s: a\n?: 1\n"),
    (0, "s: a\nn: 1\n?: 2\n"),
    (0, "s: a\nn: 1\n?\n"),
    (0, "{s: a, n: ?}"),
    (0, "{s: a? n: 1}"), // 15
    (1, "k: 1\na:\n  s: x\n  n: ?\n"),
    (1, "a:\n  n: ?\n  s: ?\nk: 0x?\n"),
    (1, "k: 1\na:\n ?s: x\n  n: 2\n"),
    (1, "k: ?\na: {n: 1, s: '?'}\n"),
    (1, "k: 1\na: ?\n"), // 20
    (2, "o: {k: 1, a: {s: ?, n: 2}}\nb: {s: u, n: ?}\nt: v\n"),
    (2, "t: w\nb: {s: u, n: 3}\no: {a: {s: y, n: 2}, ?: 4}\n"),
    (3, "'0': ?\n'1': a\n"),
    (3, "0: ?\n1: a\n"),
    (4, "{?}"), // 25
    (5, "k: ?\n"),
    (6, "k: ?\nn: 1\n"),
    (7, "n: 1\nv: [?]\n"),
    (8, "n: 1\no: ?\n"),
    (9, "?"), // 30
    (10, "e: ?\n"),
    (11, "m: {a: ?}\n"),
    (12, "e: {}\nn: ?\n"),
    (13, "??"),
    (13, "- ?"), // 35
    (13, "0o?"),
    (13, "+?"),
    (14, "??"),
    (15, "- ?"),
    (16, "tru?"), // 40
    (17, "-?"),
    (18, "1.?"),
    (19, "?"),
    (0, "s: a\nn: 1\n--- ?\n"),
    (0, "---\ns: a\nn: 1\n??.\n"), // 45
    (0, "s: |\n  a?\nn: 1\n"),
    (0, "s: &x a\nn: *?\n"),
    (0, "s: !!str ?\nn: !!int '?'\n"),
    (0, "s: \"\\?\"\nn: 1\n"),
    (0, "s: a # ?\nn: ? # 2\n"), // 50
    (0, "- s: a\n- n: ?\n"),
    (0, "[?]: a\nn: 1\n"),
    (0, "s: a\nn: 5.?\n"),
    (0, "s: a\nn: \"1?\"\n"),
    (0, "s: é?\nn: 1\n"), // 55
];
#[no_mangle]
pub extern "C" fn yaml_tpl() {
    let (t, tpl) = TPL[param(0) as usize];
    let mut b = tpl.as_bytes().to_vec();
    for c in b.iter_mut() {
        if *c == b'?' {
            *c = any_u8();
            assume(*c < 0x80);
        }
    }
    let Ok(s) = std::str::from_utf8(&b) else { return assume(false) };
    on(t, s);
}
symx_api::entries!(yaml_raw, yaml_tpl);
