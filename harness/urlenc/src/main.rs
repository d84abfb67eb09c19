//! Form data: the deserializer against an independent reader of form data and of bracketed names.
#![allow(dead_code)]
use facet::Facet;
use symx_api::*;

// -------------------------------------------------- target types and what they look like
#[derive(Facet)]
struct Flat {
    q: String,
    p: u64,
}
#[derive(Facet)]
struct Addr {
    s: String,
    z: u64,
}
#[derive(Facet)]
struct Nest {
    n: String,
    a: Addr,
}
#[derive(Facet)]
struct Deep {
    o: u64,
    u: Nest,
}
#[derive(Facet)]
struct Small {
    k: u8,
}
#[derive(Facet)]
struct Tup(String, u64);
#[derive(Facet)]
struct Empty {}
#[derive(Facet)]
struct Lst {
    p: u64,
    v: Vec<u64>,
}
#[derive(Facet)]
struct Uni {
    ñ: String,
    b: u64,
    c: String,
}
#[derive(Facet)]
struct Opt {
    p: u64,
    o: Option<u64>,
}
#[derive(Facet)]
#[repr(u8)]
enum En {
    A,
    B,
}
#[derive(Facet)]
struct Two {
    a: Addr,
    b: Addr,
    t: Tup,
}
#[derive(Facet)]
struct WithEnum {
    e: En,
    p: u64,
}
enum N {
    Str,
    U64,
    St(&'static [(&'static str, N)]),
    Other,
}
const FLAT: N = N::St(&[("q", N::Str), ("p", N::U64)]);
const ADDR: N = N::St(&[("s", N::Str), ("z", N::U64)]);
const NEST: N = N::St(&[("n", N::Str), ("a", ADDR)]);
const DEEP: N = N::St(&[("o", N::U64), ("u", NEST)]);
const TUP: N = N::St(&[("0", N::Str), ("1", N::U64)]);

#[derive(PartialEq)]
enum V {
    S(String),
    U(u64),
}
trait Leaves: for<'a> Facet {
    fn leaves(&self, o: &mut Vec<V>);
}
macro_rules! leaf {
    ($($t:ty, $f:expr);* $(;)?) => { $(impl Leaves for $t { fn leaves(&self, o: &mut Vec<V>) { let f: fn(&$t, &mut Vec<V>) = $f; f(self, o) } })* };
}
leaf! {
    Flat, |v, o| { o.push(V::S(v.q.clone())); o.push(V::U(v.p)) };
    Addr, |v, o| { o.push(V::S(v.s.clone())); o.push(V::U(v.z)) };
    Nest, |v, o| { o.push(V::S(v.n.clone())); v.a.leaves(o) };
    Deep, |v, o| { o.push(V::U(v.o)); v.u.leaves(o) };
    Tup, |v, o| { o.push(V::S(v.0.clone())); o.push(V::U(v.1)) };
    Uni, |v, o| { o.push(V::S(v.ñ.clone())); o.push(V::U(v.b)); o.push(V::S(v.c.clone())) };
    Two, |v, o| { v.a.leaves(o); v.b.leaves(o); v.t.leaves(o) };
    Empty, |_, _| {};
    Small, |_, _| {};
    Lst, |_, _| {};
    Opt, |_, _| {};
    En, |_, _| {};
    WithEnum, |_, _| {};
    u64, |_, _| {};
    String, |_, _| {};
}

// -------------------------------------------------- independent reader
fn hexv(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
fn decode(b: &[u8]) -> String {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'+' {
            o.push(b' ');
        } else if b[i] == b'%' && i + 2 < b.len() && hexv(b[i + 1]).is_some() && hexv(b[i + 2]).is_some() {
            o.push(hexv(b[i + 1]).unwrap() << 4 | hexv(b[i + 2]).unwrap());
            i += 2;
        } else {
            o.push(b[i]);
        }
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}
fn pairs(b: &[u8]) -> Vec<(String, String)> {
    let mut out = Vec::new();
    let mut start = 0;
    for i in 0..=b.len() {
        if i == b.len() || b[i] == b'&' {
            let p = &b[start..i];
            start = i + 1;
            if p.is_empty() {
                continue;
            }
            let mut e = 0;
            while e < p.len() && p[e] != b'=' {
                e += 1;
            }
            out.push((decode(&p[..e]), decode(if e < p.len() { &p[e + 1..] } else { &[] })));
        }
    }
    out
}
/// name followed by [name] any number of times, names without brackets
fn path(k: &str) -> Vec<String> {
    let mut segs: Vec<Vec<u8>> = vec![Vec::new()];
    // 0: in the first name, 1: between brackets, 2: after a closing bracket
    let mut st = 0;
    for &c in k.as_bytes() {
        match (st, c) {
            (0 | 2, b'[') => {
                st = 1;
                segs.push(Vec::new());
            }
            (1, b']') => st = 2,
            (_, b'[' | b']') | (2, _) => return vec![k.to_string()],
            _ => segs.last_mut().unwrap().push(c),
        }
    }
    if st == 1 {
        return vec![k.to_string()];
    }
    segs.into_iter().map(|s| String::from_utf8(s).unwrap()).collect()
}
fn number(s: &str) -> Option<u64> {
    let b = s.as_bytes();
    let d = if !b.is_empty() && b[0] == b'+' { &b[1..] } else { b };
    if d.is_empty() {
        return None;
    }
    let mut v = 0u64;
    for &c in d {
        if !(b'0'..=b'9').contains(&c) {
            return None;
        }
        v = v.checked_mul(10)?.checked_add((c - b'0') as u64)?;
    }
    Some(v)
}
/// the leaves of the value the pairs denote, if they denote one
fn eval(n: &N, at: &[(Vec<String>, String)], o: &mut Vec<V>) -> Option<()> {
    let N::St(fields) = n else { return None };
    for (name, f) in fields.iter() {
        // what the pairs say about this field: itself, or parts of it
        let mut flat = None;
        let mut parts = Vec::new();
        for (p, v) in at {
            if p[0] == *name {
                if p.len() == 1 {
                    flat = Some(v)
                } else {
                    parts.push((p[1..].to_vec(), v.clone()))
                }
            }
        }
        match f {
            N::Str | N::U64 => {
                if !parts.is_empty() {
                    return None;
                }
                o.push(match f {
                    N::Str => V::S(flat?.clone()),
                    _ => V::U(number(flat?)?),
                });
            }
            N::St(_) => {
                if flat.is_some() {
                    return None;
                }
                eval(f, &parts, o)?;
            }
            N::Other => return None,
        }
    }
    Some(())
}
fn compare<T: Leaves>(n: &N, s: &str) {
    let ps: Vec<_> = pairs(s.as_bytes()).into_iter().map(|(k, v)| (path(&k), v)).collect();
    let mut want = Vec::new();
    let ok = eval(n, &ps, &mut want).is_some();
    let got = facet_urlencoded::from_str::<T>(s);
    match &got {
        Ok(v) => {
            check(ok, "form data that denotes no value of the type is accepted");
            let mut have = Vec::new();
            v.leaves(&mut have);
            check(have == want, "the value is not the one the form data denotes");
            witness(0);
            out(b"ok");
        }
        Err(e) => {
            check(!ok, "form data that denotes a value is refused");
            let m = format!("{e}");
            check(!m.is_empty(), "an error without a message");
            witness(1);
            out(b"err");
        }
    }
}
const NTY: u64 = 15;
fn on(t: u64, s: &str) {
    match t {
        0 => compare::<Flat>(&FLAT, s),
        1 => compare::<Nest>(&NEST, s),
        2 => compare::<Deep>(&DEEP, s),
        3 => compare::<Small>(&N::St(&[("k", N::Other)]), s),
        4 => compare::<Tup>(&TUP, s),
        5 => compare::<Empty>(&N::St(&[]), s),
        6 => compare::<u64>(&N::U64, s),
        7 => compare::<Lst>(&N::St(&[("p", N::U64), ("v", N::Other)]), s),
        8 => compare::<Uni>(&N::St(&[("ñ", N::Str), ("b", N::U64), ("c", N::Str)]), s),
        9 => compare::<Opt>(&N::St(&[("p", N::U64), ("o", N::Other)]), s),
        10 => compare::<En>(&N::Other, s),
        11 => compare::<Two>(&N::St(&[("a", ADDR), ("b", ADDR), ("t", TUP)]), s),
        12 => compare::<WithEnum>(&N::St(&[("e", N::Other), ("p", N::U64)]), s),
        13 => compare::<String>(&N::Str, s),
        _ => compare::<Addr>(&ADDR, s),
    }
}
/// any text of n bytes
#[no_mangle]
pub extern "C" fn ue_raw() {
    let (t, n) = (param(0), param(1) as usize);
    let b = bytes(n);
    let Ok(s) = std::str::from_utf8(&b) else { return assume(false) };
    on(t, s);
}
/// ? stands for any ASCII character
const TPL: &[(u64, &str)] = &[
    (0, "q=??&p=7"),              // 0 values
    (0, "q=%??&p=7"),
    (0, "q=a%c3%??&p=7"),
    (0, "q=%e2%??%ac&p=7"),
    (0, "q=x&p=???"),
    (0, "q=x&p=1844674407370955161?"), // 5
    (0, "q=x&p=%2?5"),
    (0, "p=1&p=?&q=a&q=?"),
    (0, "?=x&p=1"),
    (0, "%7?=x&p=1"),
    (0, "q=a?p=1"), // 10
    (0, "q?p=1&q=b"),
    (0, "p=1&q=c&??=d"),
    (0, "p=1?&q=c&&?"),
    (0, "q[?]=1&p=2&q=x"),
    (0, "q=1&p=2&?[z]=x"), // 15
    (1, "n=a&a[?]=x&a[z]=5"),
    (1, "n=a&a?s]=x&a[z]=5"),
    (1, "n=a&a[s?=x&a[z]=5"),
    (1, "n=a&a[s]=x&?[z]=5"),
    (1, "n=a&a[s]=x&a[z]=??"), // 20
    (1, "n=a&a[s]=x&a[z]=5&a?=1"),
    (1, "n=a&a[s]=x&a[z]=5&?=1"),
    (1, "n=a&a[s]=x&a[z]=5&a[z]?=1"),
    (1, "n=a&a[s]=x&a[z]=5&a[?[z]]=1"),
    (1, "n=a&a[s]=x&a[z]=5&a[?]z]=1"), // 25
    (1, "n=a&a[s]=x&a[?]z=1"),
    (1, "n=a&a%5bs%5?=x&a%5Bz%5D=5"),
    (1, "n=a&a[s]=x&a[z]=5&a[z]=?&a[s]=?"),
    (1, "n=?&a[s][?]=x&a[s]=u&a[z]=5"),
    (2, "o=1&u[n]=a&u[a][?]=x&u[a][z]=3"), // 30
    (2, "o=1&u[n]=a&u[a]?s]=x&u[a][z]=3"),
    (2, "o=1&u[n]=a&u[a?[s]=x&u[a][z]=3"),
    (2, "o=1&u[n]=a&u[?][s]=x&u[a][z]=3"),
    (2, "o=?&u[n]=b&u[a][s]=x&u[a][z]=?"),
    (2, "u[a][z]=3&u[a][s]=?&u[n]=?&o=4"), // 35
    (2, "o=1&u[n]=a&u[a][s]=x&u[a][z]=3&u[?]=9"),
    (2, "o=1&u[n]=a&u[a][s]=x&u[a][z]=3&?[a][s]=9"),
    (2, "o=1&u[n]=a&u[a][s]=x&u[a][z]=3&u[a][s][?]=9"),
    (2, "o=1&u[n]=a&u[a][s]=x&u[a][z]=3&[?][s]=9&[][][]=1"),
    (4, "0=??&1=?"), // 40
    (4, "?=a&1=5"),
    (5, "??=?"),
    (3, "k=?"),
    (7, "p=1&v=?"),
    (7, "p=1&v[?]=1"), // 45
    (8, "ñ=??&b=3&c=d"),
    (8, "%C3%??=a&b=3&c=d"),
    (8, "n=a&%c3%b1=?&b=?&c=?&B=1"),
    (9, "p=1&o=?"),
    (10, "?=?"), // 50
    (11, "a[s]=?&a[z]=1&b[s]=?&b[z]=2&t[0]=c&t[1]=3"),
    (11, "a[s]=x&a[z]=1&?[s]=y&b[z]=2&t[0]=c&t[?]=3"),
    (12, "p=1&e=?"),
    (0, "q=\u{e9}?&p=1"),
    (0, "\u{e9}?=1&q=b&p=1"), // 55
    (0, "q=%?%25&p=%31?"),
    (0, "q=a&p=+1&p=?1"),
    (0, "q==?=&p=1=?"),
    (1, "a=?&n=b&a[s]=c&a[z]=1"),
    (1, "n[?]=1&n=b&a[s]=c&a[z]=1"), // 60
    (0, "q=%ff%??&p=1"),
    (0, "q=%f0%9f%98%??&p=1"),
    (0, "q[=1&q]=2&q][=?&q=?&p=1"),
    (1, "n=a&a[s]=x&a[z]=5&a[s][=?&a[z]]=?&a[[z]]=1"),
    (2, "o=1&u[n]=a&u[a]?[s]=x&u[a][z]=3"),
    (2, "o=1&u[n]=a&u?[a][s]=x&u[a][z]=3"),
    (2, "o=1&u[n]=a&u[a][s]?=x&u[a][z]=3"),
];
#[no_mangle]
pub extern "C" fn ue_tpl() {
    let (t, tpl) = TPL[param(0) as usize];
    let mut b = tpl.as_bytes().to_vec();
    for c in b.iter_mut() {
        if *c == b'?' {
            *c = any_u8();
            assume(*c < 0x80);
        }
    }
    let Ok(s) = std::str::from_utf8(&b) else { return assume(false) };
    on(t, s);
}
/// names nested very deep are names of nothing
#[no_mangle]
pub extern "C" fn ue_deep() {
    let n = param(0) as usize;
    let c = any_u8();
    assume(c < 0x80 && c != b'&' && c != b'=' && c != b'%' && c != b'+');
    let mut s = String::from("n=a&a[s]=b&a[z]=1&");
    s.push_str(if param(1) == 0 { "a" } else { "x" });
    for _ in 0..n {
        s.push_str("[s]");
    }
    s.push(c as char);
    s.push_str("=1");
    let r = facet_urlencoded::from_str::<Nest>(&s);
    let ok = r.is_ok();
    witness(ok as u32);
    if param(1) != 0 {
        check(ok, "an unknown name nested deeply is not ignored");
    }
}
/// a complete text, and its names
const BASE: [(u64, &[&str], &[&str]); 5] = [
    (0, &["q=a", "p=1"], &["q", "p", "x", ""]),
    (1, &["n=a", "a[s]=b", "a[z]=1"], &["n", "a", "s", "z", "x", ""]),
    (2, &["o=1", "u[n]=a", "u[a][s]=b", "u[a][z]=2"], &["o", "u", "n", "a", "s", "z", "x"]),
    (11, &["a[s]=a", "a[z]=1", "b[s]=b", "b[z]=2", "t[0]=c", "t[1]=3"], &["a", "b", "t", "s", "z", "0", "1", "x"]),
    (4, &["0=a", "1=5"], &["0", "1", "2", "", "00"]),
];
/// a complete text with further pairs anywhere, under any name of up to `depth` parts, and perhaps without one of its own
#[no_mangle]
pub extern "C" fn ue_gen() {
    let (t, base, names) = BASE[param(0) as usize];
    let (depth, extra) = (param(1) as u8, param(2));
    let mut ps: Vec<String> = base.iter().map(|p| p.to_string()).collect();
    if param(3) != 0 {
        ps.remove(choose(ps.len() as u8) as usize);
    }
    for _ in 0..extra {
        let mut k = names[choose(names.len() as u8) as usize].to_string();
        for _ in 0..choose(depth) {
            k = format!("{k}[{}]", names[choose(names.len() as u8) as usize]);
        }
        // last, first or in between
        let at = [ps.len(), 0, 1][choose(3) as usize];
        let c = any_u8();
        assume(c >= 0x20 && c < 0x7f && c != b'&' && c != b'%');
        ps.insert(at, format!("{k}={}", c as char));
    }
    on(t, &ps.join("&"));
}
symx_api::entries!(ue_raw, ue_tpl, ue_deep, ue_gen);
