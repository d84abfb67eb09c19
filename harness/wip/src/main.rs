//! Histories of builder operations, compared with a reference model of the value
//! under construction (and checked for memory errors and leaks by the executor).
use facet::Facet;
use facet_reflect::{HeapValue, Peek, Wip};
use std::collections::{BTreeMap, HashMap};
use symx_api::*;

// ------------------------------------------------------------------ types built
#[derive(Facet, Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Default)]
struct Inner {
    x: String,
    y: u8,
}
#[derive(Facet, Debug, PartialEq, Clone, Default)]
struct Outer {
    a: Inner,
    b: String,
}
#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
#[allow(dead_code)]
enum En {
    Unit,
    Tup(String, u8),
    St { s: String, i: Inner },
}
#[derive(Facet, Debug, PartialEq, Clone)]
struct HasEn {
    e: En,
    k: u8,
}
#[derive(Facet, Debug, PartialEq, Clone)]
struct OptList {
    o: Option<String>,
    l: Vec<Inner>,
}

// ------------------------------------------------------------------ the model
#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i16)]
#[allow(dead_code)]
enum Neg {
    A = 299,
    B(String),
    C { x: u8, y: Inner },
}
#[derive(Facet, Debug, PartialEq, Clone, Default)]
struct Nothing;
#[derive(Facet, Debug, PartialEq, Clone)]
struct Newtype(Vec<String>);
#[derive(Facet, Debug, PartialEq, Clone)]
struct Nest {
    z: Nothing,
    m: BTreeMap<String, Inner>,
    n: Nothing,
}
#[derive(Facet, Debug, PartialEq, Clone)]
struct Deep {
    h: HasEn,
    o: Option<En>,
}

#[derive(Clone, Copy, PartialEq)]
enum Ty {
    U8,
    Str,
    Struct(&'static [Ty]),
    Enum(&'static [&'static [Ty]]),
    List(&'static Ty),
    Opt(&'static Ty),
    Map(&'static Ty, &'static Ty),
}
use Ty::*;
const INNER: Ty = Struct(&[Str, U8]);
const OUTER: Ty = Struct(&[INNER, Str]);
const EN: Ty = Enum(&[&[], &[Str, U8], &[Str, INNER]]);
const HASEN: Ty = Struct(&[EN, U8]);
const OPTSTR: Ty = Opt(&Str);
const OPTINNER: Ty = Opt(&INNER);
const OPTOPT: Ty = Opt(&OPTSTR);
const LISTINNER: Ty = List(&INNER);
const LISTEN: Ty = List(&EN);
const LISTOPT: Ty = List(&OPTSTR);
const OPTLIST: Ty = Struct(&[OPTSTR, LISTINNER]);
const MAPSTR: Ty = Map(&Str, &Str);
const NEG: Ty = Enum(&[&[], &[Str], &[U8, INNER]]);
const NOTHING: Ty = Struct(&[]);
const LISTSTR: Ty = List(&Str);
const LISTLIST: Ty = List(&LISTSTR);
const MAPLIST: Ty = Map(&Str, &LISTSTR);
const NEWTYPE: Ty = Struct(&[LISTSTR]);
const NEST: Ty = Struct(&[NOTHING, MAPINNER, NOTHING]);
const DEEP: Ty = Struct(&[HASEN, OPTEN]);
const OPTEN: Ty = Opt(&EN);
const TUP: Ty = Struct(&[Str, INNER]);
const MAPINNER: Ty = Map(&Str, &INNER);
const MAPKEY: Ty = Map(&INNER, &U8);

#[derive(Clone)]
enum N {
    Unset,
    U8(u8),
    Str(u8),
    Struct(Vec<N>),
    Enum(usize, Vec<N>),
    List(Vec<N>),
    Opt(Option<Box<N>>),
    Map(Vec<(N, N)>),
}
fn blank(t: &Ty) -> N {
    match t {
        // (a struct without fields still has to be visited to count as set)
        Struct(f) => N::Struct(f.iter().map(|t| if let Struct(&[]) = t { N::Unset } else { blank(t) }).collect()),
        _ => N::Unset,
    }
}
fn complete(n: &N) -> bool {
    match n {
        N::Unset => false,
        N::Struct(f) | N::Enum(_, f) => f.iter().all(complete),
        _ => true,
    }
}
/// Same value? (accumulated without branching on the symbolic bytes)
fn diff(a: &N, b: &N) -> u8 {
    fn all(a: &[N], b: &[N]) -> u8 {
        if a.len() != b.len() {
            return 1;
        }
        a.iter().zip(b).fold(0, |d, (x, y)| d | diff(x, y))
    }
    match (a, b) {
        (N::U8(x), N::U8(y)) => x ^ y,
        (N::Str(x), N::Str(y)) => x ^ y,
        (N::Struct(x), N::Struct(y)) => all(x, y),
        (N::List(x), N::List(y)) => all(x, y),
        (N::Enum(i, x), N::Enum(j, y)) => (i != j) as u8 | all(x, y),
        (N::Opt(None), N::Opt(None)) => 0,
        (N::Opt(Some(x)), N::Opt(Some(y))) => diff(x, y),
        (N::Map(x), N::Map(y)) => {
            if x.len() != y.len() {
                return 1;
            }
            // both sorted by (concrete) key
            x.iter().zip(y).fold(0, |d, (p, q)| d | diff(&p.0, &q.0) | diff(&p.1, &q.1))
        }
        _ => 1,
    }
}
fn default_of(t: &Ty) -> Option<N> {
    Some(match t {
        U8 => N::U8(0),
        Str => N::Str(0),
        Struct(f) if *t == INNER || *t == OUTER || *t == NOTHING => N::Struct(f.iter().map(|t| default_of(t).unwrap()).collect()),
        Struct(_) => return None,
        Enum(_) => return None,
        List(_) => N::List(vec![]),
        Opt(_) => N::Opt(None),
        Map(..) => N::Map(vec![]),
    })
}

#[derive(Clone, Copy, PartialEq)]
enum K {
    Root,
    Field(usize),
    Elem,
    Some,
    Key,
    Val,
    None,
}
struct F {
    k: K,
    ty: Ty,
    n: N,
    /// the parent already counts this field as set
    marked: bool,
}
struct M(Vec<F>);
impl M {
    fn top(&mut self) -> &mut F {
        self.0.last_mut().unwrap()
    }
    fn can_put(&mut self) -> bool {
        let f = self.top();
        f.k != K::None && !(matches!(f.k, K::Field(_)) && f.marked)
    }
    fn put(&mut self, n: N) -> bool {
        if !self.can_put() {
            return false;
        }
        let f = self.top();
        f.n = n;
        f.marked = true;
        true
    }
    fn pop(&mut self) -> bool {
        if self.0.is_empty() {
            return false;
        }
        let f = self.0.pop().unwrap();
        let c = complete(&f.n);
        match f.k {
            K::Field(i) => match &mut self.top().n {
                N::Struct(v) | N::Enum(_, v) => v[i] = f.n,
                _ => unreachable!(),
            },
            K::Elem if c => {
                if let N::List(v) = &mut self.top().n {
                    v.push(f.n)
                }
            }
            K::Some if c => self.top().n = N::Opt(Some(Box::new(f.n))),
            K::Val if c => {
                let key = self.0.pop().unwrap().n;
                if let N::Map(v) = &mut self.top().n {
                    let kb = key_byte(&key);
                    match v.iter().position(|(k, _)| key_byte(k) >= kb) {
                        Some(i) if key_byte(&v[i].0) == kb => v[i].1 = f.n,
                        Some(i) => v.insert(i, (key, f.n)),
                        None => v.push((key, f.n)),
                    }
                }
            }
            K::Root => {
                // stays reachable as the result
                self.0.push(F { k: K::Root, ..f });
                return false;
            }
            _ => {}
        }
        true
    }
    fn field(&mut self, i: usize) -> bool {
        let f = self.top();
        if f.k == K::None {
            return false;
        }
        let (ft, n) = match (&f.ty, &mut f.n) {
            (Struct(t), N::Struct(v)) if i < t.len() => (t[i], std::mem::replace(&mut v[i], N::Unset)),
            (Enum(vs), N::Enum(k, v)) if i < v.len() => (vs[*k][i], std::mem::replace(&mut v[i], N::Unset)),
            _ => return false,
        };
        let marked = complete(&n);
        let n = if let (N::Unset, Struct(&[])) = (&n, &ft) { blank(&ft) } else { n };
        self.0.push(F { k: K::Field(i), ty: ft, n, marked });
        true
    }
    fn push(&mut self, k: K, ty: Ty) {
        let n = blank(&ty);
        self.0.push(F { k, ty, n, marked: false });
    }
}
fn key_byte(n: &N) -> u16 {
    match n {
        N::Str(b) | N::U8(b) => *b as u16,
        N::Struct(v) => v.iter().fold(0, |k, n| k << 8 | key_byte(n)),
        _ => 0,
    }
}
fn s1(b: u8) -> String {
    // a heap allocated one-letter string; 0 is the empty string (default)
    let mut s = String::with_capacity(4);
    s.push(b as char);
    s
}
/// a letter: concrete in map keys, symbolic elsewhere
fn letter() -> u8 {
    any_u8() & 0x7f | 1
}
fn unletter(s: &str) -> N {
    N::Str(if s.is_empty() { 0 } else { s.as_bytes()[0] })
}

// ------------------------------------------------------------------ value -> model
trait ToN {
    fn n(&self) -> N;
}
impl ToN for u8 {
    fn n(&self) -> N {
        N::U8(*self)
    }
}
impl ToN for String {
    fn n(&self) -> N {
        unletter(self)
    }
}
impl ToN for Inner {
    fn n(&self) -> N {
        N::Struct(vec![self.x.n(), self.y.n()])
    }
}
impl ToN for Outer {
    fn n(&self) -> N {
        N::Struct(vec![self.a.n(), self.b.n()])
    }
}
impl ToN for En {
    fn n(&self) -> N {
        match self {
            En::Unit => N::Enum(0, vec![]),
            En::Tup(a, b) => N::Enum(1, vec![a.n(), b.n()]),
            En::St { s, i } => N::Enum(2, vec![s.n(), i.n()]),
        }
    }
}
impl ToN for HasEn {
    fn n(&self) -> N {
        N::Struct(vec![self.e.n(), self.k.n()])
    }
}
impl ToN for Neg {
    fn n(&self) -> N {
        match self {
            Neg::A => N::Enum(0, vec![]),
            Neg::B(a) => N::Enum(1, vec![a.n()]),
            Neg::C { x, y } => N::Enum(2, vec![x.n(), y.n()]),
        }
    }
}
impl ToN for Nothing {
    fn n(&self) -> N {
        N::Struct(vec![])
    }
}
impl ToN for Newtype {
    fn n(&self) -> N {
        N::Struct(vec![self.0.n()])
    }
}
impl ToN for Nest {
    fn n(&self) -> N {
        N::Struct(vec![self.z.n(), self.m.n(), self.n.n()])
    }
}
impl ToN for Deep {
    fn n(&self) -> N {
        N::Struct(vec![self.h.n(), self.o.n()])
    }
}
impl ToN for (String, Inner) {
    fn n(&self) -> N {
        N::Struct(vec![self.0.n(), self.1.n()])
    }
}
impl ToN for OptList {
    fn n(&self) -> N {
        N::Struct(vec![self.o.n(), self.l.n()])
    }
}
impl<T: ToN> ToN for Vec<T> {
    fn n(&self) -> N {
        N::List(self.iter().map(|x| x.n()).collect())
    }
}
impl<T: ToN> ToN for Option<T> {
    fn n(&self) -> N {
        N::Opt(self.as_ref().map(|x| Box::new(x.n())))
    }
}
impl<K: ToN, T: ToN> ToN for BTreeMap<K, T> {
    fn n(&self) -> N {
        N::Map(self.iter().map(|(k, v)| (k.n(), v.n())).collect())
    }
}
impl<T: ToN, S: std::hash::BuildHasher> ToN for HashMap<String, T, S> {
    fn n(&self) -> N {
        let mut v: Vec<(N, N)> = self.iter().map(|(k, v)| (k.n(), v.n())).collect();
        v.sort_by_key(|(k, _)| key_byte(k));
        N::Map(v)
    }
}
/// The same, reading through the reflection API only.
fn peek_n(p: Peek<'_>, t: &Ty) -> N {
    match t {
        U8 => N::U8(*p.get::<u8>().unwrap()),
        Str => unletter(p.get::<String>().unwrap()),
        Struct(f) => {
            let s = p.into_struct().unwrap();
            check(s.field_count() == f.len(), "reflection shows another number of fields");
            N::Struct(f.iter().enumerate().map(|(i, t)| peek_n(s.field(i).unwrap(), t)).collect())
        }
        Enum(vs) => {
            let e = p.into_enum().unwrap();
            let i = e.variant_index();
            check(e.active_variant().data.fields.len() == vs[i].len(), "reflection shows another number of variant fields");
            N::Enum(i, vs[i].iter().enumerate().map(|(j, t)| peek_n(e.field(j).unwrap(), t)).collect())
        }
        List(t) => {
            let l = p.into_list().unwrap();
            let v: Vec<N> = l.iter().map(|x| peek_n(x, t)).collect();
            check(v.len() == l.len(), "list length and iteration disagree");
            N::List(v)
        }
        Opt(t) => {
            let o = p.into_option().unwrap();
            let v = o.value();
            check(o.is_some() == v.is_some(), "is_some disagrees with value");
            N::Opt(v.map(|x| Box::new(peek_n(x, t))))
        }
        Map(kt, vt) => {
            let m = p.into_map().unwrap();
            let mut v: Vec<(N, N)> = m.iter().map(|(k, v)| (peek_n(k, kt), peek_n(v, vt))).collect();
            check(v.len() == m.len(), "map length and iteration disagree");
            v.sort_by_key(|(k, _)| key_byte(k));
            N::Map(v)
        }
    }
}
fn shape_of(t: &Ty) -> Option<&'static facet::Shape> {
    // list, map and option shapes are reached through the types that contain them
    Some(match *t {
        U8 => u8::SHAPE,
        Str => String::SHAPE,
        t if t == INNER => Inner::SHAPE,
        t if t == OUTER => Outer::SHAPE,
        t if t == EN => En::SHAPE,
        t if t == HASEN => HasEn::SHAPE,
        t if t == OPTSTR => <Option<String>>::SHAPE,
        t if t == OPTINNER => <Option<Inner>>::SHAPE,
        t if t == LISTSTR => <Vec<String>>::SHAPE,
        t if t == LISTINNER => <Vec<Inner>>::SHAPE,
        t if t == NEG => Neg::SHAPE,
        _ => return None,
    })
}
fn names(t: &Ty) -> &'static [&'static str] {
    match *t {
        t if t == INNER => &["x", "y"],
        t if t == OUTER => &["a", "b"],
        t if t == HASEN => &["e", "k"],
        t if t == OPTLIST => &["o", "l"],
        t if t == NEST => &["z", "m", "n"],
        t if t == DEEP => &["h", "o"],
        Struct(_) => &["0", "1", "2"],
        _ => &[],
    }
}
fn vnames(t: &Ty) -> &'static [(&'static str, &'static [&'static str])] {
    match *t {
        t if t == EN => &[("Unit", &[]), ("Tup", &["_0", "_1"]), ("St", &["s", "i"])],
        t if t == NEG => &[("A", &[]), ("B", &["_0"]), ("C", &["x", "y"])],
        _ => &[],
    }
}
/// What the builder says about the value under construction.
fn queries(w: &Wip<'_>, m: &mut M) {
    let n = m.0.len();
    check(w.frames_count() == n, "the builder reports another depth");
    let inopt = m.top().k == K::Some;
    let f = m.top();
    if let Some(s) = shape_of(&f.ty) {
        check(w.shape() == s, "the builder reports another current type");
    }
    check(w.in_option() == inopt, "the builder is wrong about being in an option");
    if f.k == K::None {
        return;
    }
    match (&f.ty, &f.n) {
        (Struct(_), N::Struct(v)) => {
            for i in 0..v.len() {
                check(matches!(w.is_field_set(i), Ok(b) if b == complete(&v[i])), "the builder is wrong about which fields are set");
                check(w.field_index(names(&f.ty)[i]) == Some(i), "a field is not found by name");
            }
            check(w.is_field_set(v.len()).is_err(), "a field that does not exist is reported");
            check(w.field_index("nope").is_none(), "a field that does not exist is found");
        }
        (Enum(_), N::Enum(k, v)) => {
            let vn = vnames(&f.ty);
            check(w.selected_variant().is_some_and(|x| x.name == vn[*k].0), "the builder reports another selected variant");
            for i in 0..v.len() {
                check(matches!(w.is_field_set(i), Ok(b) if b == complete(&v[i])), "the builder is wrong about which fields are set");
                check(w.field_index(vn[*k].1[i]) == Some(i), "a field is not found by name");
            }
            check(w.is_field_set(v.len()).is_err(), "a field that does not exist is reported");
        }
        (Enum(vs), _) => {
            check(w.selected_variant().is_none(), "the builder reports a variant though none was selected");
            let vn = vnames(&f.ty);
            for i in 0..vs.len() {
                check(w.find_variant(vn[i].0).is_some_and(|(j, x)| i == j && x.name == vn[i].0), "a variant is not found by name");
            }
            check(w.find_variant("nope").is_none(), "a variant that does not exist is found");
        }
        _ => {
            check(w.is_field_set(0).is_err(), "fields are reported for a type without fields");
        }
    }
}
fn whole(t: &Ty) -> N {
    let b = letter();
    match t {
        U8 => N::U8(b),
        Str => N::Str(b),
        Struct(f) => N::Struct(f.iter().map(whole).collect()),
        Enum(vs) => {
            let k = choose(vs.len() as u8) as usize;
            N::Enum(k, vs[k].iter().map(whole).collect())
        }
        _ => N::Unset,
    }
}
fn inner_of(n: &N) -> Inner {
    match n {
        N::Struct(v) => match (&v[0], &v[1]) {
            (N::Str(a), N::U8(b)) => Inner { x: s1(*a), y: *b },
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}
fn en_of(n: &N) -> En {
    match n {
        N::Enum(0, _) => En::Unit,
        N::Enum(1, v) => match (&v[0], &v[1]) {
            (N::Str(a), N::U8(b)) => En::Tup(s1(*a), *b),
            _ => unreachable!(),
        },
        N::Enum(2, v) => match &v[0] {
            N::Str(a) => En::St { s: s1(*a), i: inner_of(&v[1]) },
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------ one step
const OPS: u8 = 17;
/// None: the operation was refused by both; Some: carry on
type R<'a> = Result<Wip<'a>, facet_reflect::ReflectError>;
/// The values copied are 'static; the lifetime of the borrow does not matter.
fn relax<'a, 'b>(r: R<'b>) -> R<'a> {
    unsafe { std::mem::transmute(r) }
}
/// mode bit 0: fields and variants by name; bit 1: values put by copying a peeked value
fn step<'a>(w: Wip<'a>, m: &mut M, op: u8, in_key: bool, mode: u64) -> Option<Wip<'a>> {
    let ty = m.top().ty;
    let none = m.top().k == K::None;
    let lt = || if in_key { b'a' + choose(2) } else { letter() };
    let (r, ok) = match op {
        0 => {
            let b = if in_key { choose(2) } else { any_u8() };
            let ok = ty == U8 && m.put(N::U8(b));
            (if mode & 2 != 0 { relax(w.put_peek(Peek::new(&b))) } else { w.put(b) }, ok)
        }
        1 => {
            let b = lt();
            let ok = match ty {
                Str => m.put(N::Str(b)),
                Opt(Str) => m.put(N::Opt(Some(Box::new(N::Str(b))))),
                _ => false,
            };
            if mode & 2 != 0 {
                let s = s1(b);
                (relax(w.put_peek(Peek::new(&s))), ok)
            } else if mode & 4 != 0 && ty == Str {
                let s = s1(b);
                (w.parse(&s), ok)
            } else {
                (w.put(s1(b)), ok)
            }
        }
        2 => {
            let n = if in_key { N::Struct(vec![N::Str(b'a'), N::U8(choose(2))]) } else { whole(&INNER) };
            let v = inner_of(&n);
            let ok = match ty {
                t if t == INNER => m.put(n),
                Opt(t) if *t == INNER => m.put(N::Opt(Some(Box::new(n)))),
                _ => false,
            };
            (if mode & 2 != 0 { relax(w.put_peek(Peek::new(&v))) } else { w.put(v) }, ok)
        }
        3 => {
            let n = whole(&EN);
            let v = en_of(&n);
            let ok = match ty {
                t if t == EN => m.put(n),
                Opt(t) if *t == EN => m.put(N::Opt(Some(Box::new(n)))),
                _ => false,
            };
            (w.put(v), ok)
        }
        4 | 5 => {
            let i = (op - 4) as usize;
            let r = if mode & 1 != 0 {
                let name = match (&ty, &m.top().n) {
                    (Enum(_), N::Enum(k, _)) => vnames(&ty)[*k].1.get(i).copied(),
                    _ => names(&ty).get(i).copied(),
                };
                w.field_named(name.unwrap_or("zz"))
            } else {
                w.field(i)
            };
            (r, m.field(i))
        }
        6 => {
            let k = choose(4) as usize;
            let ok = !none
                && match ty {
                    Enum(vs) if k < vs.len() => {
                        let n = N::Enum(k, vs[k].iter().map(|t| if let Struct(&[]) = t { N::Unset } else { blank(t) }).collect());
                        m.top().n = n;
                        true
                    }
                    _ => false,
                };
            let r = if mode & 1 != 0 { w.variant_named(vnames(&ty).get(k).map_or("zz", |v| v.0)) } else { w.variant(k) };
            (r, ok)
        }
        7 => {
            let ok = !none
                && match ty {
                    List(t) => {
                        if !complete(&m.top().n) {
                            m.top().n = N::List(vec![]);
                        }
                        m.push(K::Elem, *t);
                        true
                    }
                    _ => false,
                };
            (w.push(), ok)
        }
        8 => {
            let ok = !none
                && match ty {
                    Opt(t) => {
                        m.push(K::Some, *t);
                        true
                    }
                    _ => false,
                };
            (w.push_some(), ok)
        }
        9 => {
            let ok = m.top().k == K::Some && !complete(&m.top().n);
            if ok {
                m.0.pop();
                let t = m.top().ty;
                m.top().n = N::Opt(None);
                if let Opt(t) = t {
                    m.0.push(F { k: K::None, ty: *t, n: N::Unset, marked: true });
                }
            }
            (w.pop_some_push_none(), ok)
        }
        10 => {
            let ok = !none
                && match ty {
                    Map(t, _) => {
                        if !complete(&m.top().n) {
                            m.top().n = N::Map(vec![]);
                        }
                        m.push(K::Key, *t);
                        true
                    }
                    _ => false,
                };
            (w.push_map_key(), ok)
        }
        11 => {
            let ok = m.top().k == K::Key && complete(&m.top().n);
            if ok {
                let l = m.0.len();
                if let Map(_, t) = m.0[l - 2].ty {
                    m.push(K::Val, *t);
                }
            }
            (w.push_map_value(), ok)
        }
        12 => {
            let ok = match default_of(&ty) {
                Some(n) => m.put(n),
                None => false,
            };
            (w.put_default(), ok)
        }
        13 if matches!(ty, Map(..)) => {
            let ok = !none;
            if ok && !complete(&m.top().n) {
                m.top().n = N::Map(vec![]);
            }
            (w.begin_map_insert(), ok)
        }
        13 => {
            let ok = !none
                && matches!(ty, List(_))
                && {
                    if !complete(&m.top().n) {
                        m.top().n = N::List(vec![]);
                    }
                    true
                };
            (w.begin_pushback(), ok)
        }
        14 => {
            if matches!(ty, Map(..)) {
                let ok = m.put(N::Map(vec![]));
                (w.put_empty_map(), ok)
            } else {
                let ok = matches!(ty, List(_)) && m.put(N::List(vec![]));
                (w.put_empty_list(), ok)
            }
        }
        15 => {
            if mode & 4 != 0 {
                // the fields that are not set yet, from the default value of the struct
                let ok = !none && matches!(ty, Struct(_)) && default_of(&ty).is_some();
                if ok {
                    if let (N::Struct(v), Some(N::Struct(d))) = (&mut m.top().n, default_of(&ty)) {
                        for (x, y) in v.iter_mut().zip(d) {
                            if !complete(x) {
                                *x = y;
                            }
                        }
                    }
                }
                (w.put_unset_fields_from_default(), ok)
            } else {
                // never the right type, even if the layout is
                let r = match choose(if mode == 0 { 6 } else { 1 }) {
                    0 => w.put(0u32),
                    1 => w.put(1i8),
                    2 => w.put(vec![b'a']),
                    3 => w.put(Inner2 { x: s1(b'a'), y: 1 }),
                    4 => w.put(Some(vec![b'a'])),
                    _ => w.put(vec![s1(b'a').into_bytes()]),
                };
                (r, false)
            }
        }
        _ => {
            if m.0.len() == 1 {
                // never pops the root
                drop(w);
                return None;
            }
            m.pop();
            (w.pop(), true)
        }
    };
    check(r.is_ok() == ok, "an operation is accepted exactly when the value under construction allows it");
    r.ok()
}

/// Laid out as `Inner` or `T`, but other types
#[derive(Facet)]
struct Inner2 {
    x: String,
    y: u8,
}
#[derive(Facet)]
#[repr(transparent)]
struct Wrap<T: Facet>(T);

fn run<T: Facet + ToN + 'static>(ty: Ty, len: usize) {
    let mode = param(2);
    let mut w = Wip::alloc::<T>();
    let mut m = M(vec![]);
    m.push(K::Root, ty);
    for _ in 0..len {
        queries(&w, &mut m);
        let op = choose(OPS + 2);
        if op == OPS {
            // abandoned
            witness(1);
            drop(w);
            return;
        }
        if op == OPS + 1 {
            finish::<T>(w, m);
            return;
        }
        // (keys hold concrete values, so that their order is known)
        let in_key = m.0.iter().rfind(|f| matches!(f.k, K::Key | K::Val)).is_some_and(|f| f.k == K::Key);
        match step(w, &mut m, op, in_key, mode) {
            Some(x) => w = x,
            None => {
                witness(2);
                return;
            }
        }
    }
    finish::<T>(w, m);
}
fn finish<T: Facet + ToN + 'static>(w: Wip<'_>, mut m: M) {
    while m.0.len() > 1 {
        m.pop();
    }
    let root = &m.0[0];
    let c = complete(&root.n);
    match w.build() {
        Err(_) => {
            witness(3);
            check(!c, "build refuses a complete value");
        }
        Ok(h) => {
            check(c, "build accepts an incomplete value");
            witness(0);
            result::<T>(h, root);
        }
    }
}
fn result<T: Facet + ToN + 'static>(h: HeapValue<'_>, root: &F) {
    let p = peek_n(h.peek(), &root.ty);
    check(diff(&p, &root.n) == 0, "reading the built value by reflection shows other contents than those put");
    if any_bool() {
        check(h.materialize::<Wrap<T>>().is_err(), "a built value is handed out as another type");
        return;
    }
    match h.materialize::<T>() {
        Ok(v) => check(diff(&v.n(), &root.n) == 0, "the built value differs from what was put"),
        Err(_) => fail("a built value cannot be materialized as its own type"),
    }
}
#[no_mangle]
pub extern "C" fn wip_ops() {
    let n = param(1) as usize;
    match param(0) {
        0 => run::<Outer>(OUTER, n),
        1 => run::<En>(EN, n),
        2 => run::<HasEn>(HASEN, n),
        3 => run::<Option<Inner>>(OPTINNER, n),
        4 => run::<Option<Option<String>>>(OPTOPT, n),
        5 => run::<Vec<Inner>>(LISTINNER, n),
        6 => run::<Vec<En>>(LISTEN, n),
        7 => run::<Vec<Option<String>>>(LISTOPT, n),
        8 => run::<OptList>(OPTLIST, n),
        9 => run::<BTreeMap<String, String>>(MAPSTR, n),
        10 => run::<HashMap<String, Inner>>(MAPINNER, n),
        11 => run::<Vec<Vec<String>>>(LISTLIST, n),
        12 => run::<BTreeMap<String, Vec<String>>>(MAPLIST, n),
        13 => run::<(String, Inner)>(TUP, n),
        14 => run::<Neg>(NEG, n),
        15 => run::<Newtype>(NEWTYPE, n),
        16 => run::<Nest>(NEST, n),
        17 => run::<Deep>(DEEP, n),
        18 => run::<BTreeMap<Inner, u8>>(MAPKEY, n),
        _ => {}
    }
}
entries!(wip_ops);
