//! C04: invariants
use crate::*;
use facet_reflect::{ReflectError, Wip};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

static DROPS: AtomicU32 = AtomicU32::new(0);
static CALLS: AtomicU32 = AtomicU32::new(0);
fn reset() {
    DROPS.store(0, Relaxed);
    CALLS.store(0, Relaxed);
}
fn called() {
    CALLS.fetch_add(1, Relaxed);
}
#[derive(Facet, Debug)]
struct Counted(u8);
impl Drop for Counted {
    fn drop(&mut self) {
        DROPS.fetch_add(1, Relaxed);
    }
}
#[derive(Facet, Debug, PartialEq)]
#[facet(invariants = "ordered")]
struct Range {
    lo: u8,
    hi: u8,
}
impl Range {
    fn ordered(&self) -> bool {
        called();
        self.lo <= self.hi
    }
}
#[derive(Facet, Debug, PartialEq)]
#[facet(invariants = "ok")]
struct NonZero(u16);
impl NonZero {
    fn ok(&self) -> bool {
        called();
        self.0 != 0
    }
}
/// several, each its own attribute
#[derive(Facet, Debug, PartialEq)]
#[facet(invariants = "first")]
#[facet(invariants = "second")]
#[facet(deny_unknown_fields)]
#[facet(invariants = "third")]
struct Three {
    a: u8,
    b: u8,
}
impl Three {
    fn first(&self) -> bool {
        called();
        self.a != 1
    }
    fn second(&self) -> bool {
        called();
        self.b < 8
    }
    fn third(&self) -> bool {
        called();
        self.a ^ self.b != 5
    }
}
/// several in one attribute
#[derive(Facet, Debug, PartialEq)]
#[facet(deny_unknown_fields, invariants = "first", invariants = "second")]
struct Two {
    a: u8,
    b: u8,
}
impl Two {
    fn first(&self) -> bool {
        called();
        self.a > 3
    }
    fn second(&self) -> bool {
        called();
        self.b & 1 == 0
    }
}
/// of an enum
#[derive(Facet, Debug, PartialEq)]
#[repr(u8)]
#[facet(invariants = "fits")]
enum Shape2 {
    Dot,
    Line(u8, u8),
    Box { w: u8, h: u8 },
}
impl Shape2 {
    fn fits(&self) -> bool {
        called();
        match self {
            Shape2::Dot => true,
            Shape2::Line(a, b) => a < b,
            Shape2::Box { w, h } => *w as u16 * *h as u16 <= 9,
        }
    }
}
#[derive(Facet, Debug, PartialEq)]
#[repr(C)]
#[facet(invariants = "never")]
enum Never {
    A(u8),
    B,
}
impl Never {
    fn never(&self) -> bool {
        called();
        matches!(self, Never::B)
    }
}
/// owns something
#[derive(Facet, Debug)]
#[facet(invariants = "full")]
struct Owner {
    c: Counted,
    n: u8,
    s: String,
    v: Vec<Counted>,
}
impl Owner {
    fn full(&self) -> bool {
        called();
        self.n == self.c.0 && self.v.len() == 2 && self.s.len() == 3
    }
}
#[derive(Facet, Debug, PartialEq)]
#[facet(invariants = "ordered")]
struct Wide {
    lo: u64,
    hi: u64,
}
impl Wide {
    fn ordered(&self) -> bool {
        called();
        self.lo <= self.hi
    }
}
/// its contents have invariants as well
#[derive(Facet, Debug, PartialEq)]
#[facet(invariants = "outer")]
struct Outer {
    r: Range,
    n: u8,
}
impl Outer {
    fn outer(&self) -> bool {
        called();
        self.n >= self.r.lo
    }
}
#[derive(Facet, Debug, PartialEq)]
struct Holder {
    r: Range,
    n: u8,
}
#[derive(Facet, Debug, PartialEq)]
#[repr(u8)]
enum Holds {
    A(Range),
    B { o: Option<Range> },
}
/// no invariants
#[derive(Facet, Debug, PartialEq)]
struct Free {
    lo: u8,
    hi: u8,
}
type R = Result<facet_reflect::HeapValue<'static>, ReflectError>;
/// `calls`: of invariants, at least
fn verdict<T: Facet + PartialEq>(r: R, want: T, holds: bool, calls: u32) {
    match r {
        Ok(h) => {
            check(holds, "a value that violates its type's invariants was built");
            check(CALLS.load(Relaxed) >= calls, "invariants weren't asked");
            let Ok(v) = h.materialize::<T>() else { return fail("the value built isn't one of its type") };
            check(v == want, "another value was built");
            witness(0);
            out(b"built");
        }
        Err(e) => {
            check(!holds, "a value that upholds its type's invariants was refused");
            check(matches!(e, ReflectError::InvariantViolation { .. }), "the refusal isn't blamed on the invariants");
            witness(1);
            out(b"refused");
        }
    }
}
fn fields(w: Wip<'static>, xs: &[u8], back: bool) -> Wip<'static> {
    let mut w = w;
    for i in 0..xs.len() {
        let i = if back { xs.len() - 1 - i } else { i };
        w = w.field(i).unwrap().put(xs[i]).unwrap().pop().unwrap();
    }
    w
}
pub fn build(k: u64) {
    reset();
    let back = k & 1 == 1;
    let (a, b) = (any_u8(), any_u8());
    match k / 2 {
        0 => verdict(fields(Wip::alloc::<Range>(), &[a, b], back).build(), Range { lo: a, hi: b }, a <= b, 1),
        1 => {
            let n = any_u16();
            let w = Wip::alloc::<NonZero>();
            let w = if back { w.put(NonZero(n)).unwrap() } else { w.field(0).unwrap().put(n).unwrap().pop().unwrap() };
            verdict(w.build(), NonZero(n), n != 0, 1)
        }
        2 => verdict(fields(Wip::alloc::<Three>(), &[a, b], back).build(), Three { a, b }, a != 1 && b < 8 && a ^ b != 5, 3),
        3 => verdict(fields(Wip::alloc::<Two>(), &[a, b], back).build(), Two { a, b }, a > 3 && b & 1 == 0, 2),
        4 => {
            let i = choose(3) as usize;
            let w = Wip::alloc::<Shape2>().variant(i).unwrap();
            match i {
                0 => verdict(w.build(), Shape2::Dot, true, 1),
                1 => verdict(fields(w, &[a, b], back).build(), Shape2::Line(a, b), a < b, 1),
                _ => verdict(fields(w, &[a, b], back).build(), Shape2::Box { w: a, h: b }, a as u16 * b as u16 <= 9, 1),
            }
        }
        5 => {
            if back {
                verdict(Wip::alloc::<Never>().variant(1).unwrap().build(), Never::B, true, 1)
            } else {
                verdict(fields(Wip::alloc::<Never>().variant(0).unwrap(), &[a], false).build(), Never::A(a), false, 1)
            }
        }
        6 => {
            // whole, by put
            let w = Wip::alloc::<Shape2>().put(Shape2::Line(a, b)).unwrap();
            verdict(w.build(), Shape2::Line(a, b), a < b, 1)
        }
        7 => {
            // none to violate
            verdict(fields(Wip::alloc::<Free>(), &[a, b], back).build(), Free { lo: a, hi: b }, true, 0)
        }
        _ => {
            // its own as well as those of its contents
            let n = any_u8();
            assume(a <= b);
            let w = Wip::alloc::<Outer>();
            let w = if back { w.field(0).unwrap().put(Range { lo: a, hi: b }).unwrap() } else { fields(w.field(0).unwrap(), &[a, b], false) };
            let w = w.pop().unwrap().field(1).unwrap().put(n).unwrap().pop().unwrap();
            verdict(w.build(), Outer { r: Range { lo: a, hi: b }, n }, n >= a, 1)
        }
    }
}
/// what is in a value that is refused, or isn't complete, is dropped once; invariants aren't asked of what isn't complete
pub fn drops(k: u64) {
    reset();
    let (c, n) = (any_u8(), any_u8());
    let len = choose(4) as usize;
    let mask = choose(16);
    let s = String::from_utf8(vec![b'x'; 2 + choose(2) as usize]).unwrap();
    let full = n == c && len == 2 && s.len() == 3;
    let mut made = 0;
    let mut w = Wip::alloc::<Owner>();
    let mut s = Some(s);
    for i in 0..4 {
        let i = if k == 1 { 3 - i } else { i };
        if mask >> i & 1 == 0 {
            continue;
        }
        w = match i {
            0 => {
                made += 1;
                w.field(0).unwrap().put(Counted(c)).unwrap().pop().unwrap()
            }
            1 => w.field(1).unwrap().put(n).unwrap().pop().unwrap(),
            2 => w.field(2).unwrap().put(s.take().unwrap()).unwrap().pop().unwrap(),
            _ => {
                let mut v = w.field(3).unwrap().begin_pushback().unwrap();
                for j in 0..len {
                    made += 1;
                    v = v.push().unwrap().put(Counted(j as u8)).unwrap().pop().unwrap();
                }
                v.pop().unwrap()
            }
        };
    }
    match w.build() {
        Ok(h) => {
            check(mask == 15 && full, "a value that violates its type's invariants was built");
            check(DROPS.load(Relaxed) == 0, "part of a value that was built was dropped");
            let Ok(v) = h.materialize::<Owner>() else { return fail("the value built isn't one of its type") };
            check(v.c.0 == c && v.n == n && v.v.len() == 2 && v.v[1].0 == 1 && v.s == "xxx", "another value was built");
            drop(v);
            witness(0);
        }
        Err(_) => {
            check(!(mask == 15 && full), "a value that upholds its type's invariants was refused");
            check(mask == 15 || CALLS.load(Relaxed) == 0, "invariants were asked of an incomplete value");
            witness(1);
        }
    }
    check(DROPS.load(Relaxed) == made, "what a value owns was dropped another number of times");
    out(&[made as u8]);
}
/// through a format: an error, never a value, if the invariants don't hold
pub fn json(k: u64, n: usize) {
    reset();
    // up to n digits each
    let mut num = |out: &mut Vec<u8>| -> u32 {
        let len = 1 + choose(n as u8) as usize;
        let mut x = 0u32;
        for i in 0..len {
            let d = any_u8();
            assume(d >= b'0' && d <= b'9');
            if i == 0 && len > 1 {
                assume(d != b'0');
            }
            out.push(d);
            x = x * 10 + (d - b'0') as u32;
        }
        x
    };
    let mut t = vec![];
    fn got<T: PartialEq>(r: Option<T>, want: T, holds: bool) {
        match r {
            Some(v) => {
                check(holds, "a value that violates its type's invariants was read");
                check(v == want, "another value was read");
                witness(0);
            }
            None => {
                check(!holds, "a value that upholds its type's invariants was refused");
                witness(1);
            }
        }
        out(b"read");
    }
    fn get<T: Facet + PartialEq>(t: &[u8], want: T, holds: bool) {
        let Ok(s) = std::str::from_utf8(t) else { return };
        got(facet_json::from_str::<T>(s).ok(), want, holds)
    }
    match k {
        0 => {
            t.extend(b"{\"hi\": ");
            let b = num(&mut t);
            t.extend(b", \"lo\": ");
            let a = num(&mut t);
            t.extend(b"}");
            get(&t, Range { lo: a as u8, hi: b as u8 }, a < 256 && b < 256 && a <= b)
        }
        1 => {
            t.extend(b"{\"0\":");
            let a = num(&mut t);
            t.extend(b"}");
            get(&t, NonZero(a as u16), a < 65536 && a != 0)
        }
        2 => {
            t.extend(b"{\"a\":");
            let a = num(&mut t);
            t.extend(b",\"b\":");
            let b = num(&mut t);
            t.extend(b"}");
            get(&t, Three { a: a as u8, b: b as u8 }, a < 256 && a != 1 && b < 8 && a ^ b != 5)
        }
        3 => {
            t.extend(b"{\"b\":");
            let b = num(&mut t);
            t.extend(b",\"a\":");
            let a = num(&mut t);
            t.extend(b"}");
            get(&t, Two { a: a as u8, b: b as u8 }, a < 256 && b < 256 && a > 3 && b & 1 == 0)
        }
        4 => {
            t.extend(b"hi=");
            let b = num(&mut t);
            t.extend(b"&lo=");
            let a = num(&mut t);
            let Ok(s) = std::str::from_utf8(&t) else { return };
            got(facet_urlencoded::from_str::<Wide>(s).ok(), Wide { lo: a as u64, hi: b as u64 }, a <= b)
        }
        5 => {
            let (a, b) = (any_u8(), any_u8());
            t.extend([0x82, 0xa2, b'l', b'o', 0xcc, a, 0xa2, b'h', b'i', 0xcc, b]);
            got(facet_msgpack::from_slice::<Range>(&t).ok(), Range { lo: a, hi: b }, a <= b)
        }
        _ => {
            t.extend(b"lo = ");
            let a = num(&mut t);
            t.extend(b"\nhi = ");
            let b = num(&mut t);
            t.extend(b"\n");
            let Ok(s) = std::str::from_utf8(&t) else { return };
            let holds = a < 256 && b < 256 && a <= b;
            got(facet_toml::from_str::<Range>(s).ok(), Range { lo: a as u8, hi: b as u8 }, holds)
        }
    }
}
/// the invariants of what a value contains
pub fn nested(k: u64) {
    reset();
    let (a, b) = (any_u8(), any_u8());
    let t = fields;
    match k {
        0 => {
            let w = t(Wip::alloc::<Holder>().field(0).unwrap(), &[a, b], false).pop().unwrap().field(1).unwrap().put(1u8).unwrap().pop().unwrap();
            verdict(w.build(), Holder { r: Range { lo: a, hi: b }, n: 1 }, a <= b, 1)
        }
        1 => {
            let w = t(Wip::alloc::<Vec<Range>>().begin_pushback().unwrap().push().unwrap(), &[a, b], false).pop().unwrap();
            verdict(w.build(), vec![Range { lo: a, hi: b }], a <= b, 1)
        }
        2 => {
            let w = t(Wip::alloc::<Option<Range>>().push_some().unwrap(), &[a, b], false).pop().unwrap();
            verdict(w.build(), Some(Range { lo: a, hi: b }), a <= b, 1)
        }
        3 => {
            let w = t(Wip::alloc::<Holds>().variant(0).unwrap().field(0).unwrap(), &[a, b], false).pop().unwrap();
            verdict(w.build(), Holds::A(Range { lo: a, hi: b }), a <= b, 1)
        }
        _ => {
            let w = t(Wip::alloc::<Holds>().variant(1).unwrap().field(0).unwrap().push_some().unwrap(), &[a, b], false).pop().unwrap().pop().unwrap();
            verdict(w.build(), Holds::B { o: Some(Range { lo: a, hi: b }) }, a <= b, 1)
        }
    }
}
