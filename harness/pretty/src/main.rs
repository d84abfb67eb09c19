//! facet-pretty: what a pretty-printed value shows, and what it must not show.
#![allow(dead_code, clippy::all)]
use facet::Facet;
use facet_pretty::{FacetPretty, PrettyPrinter};
use facet_reflect::Peek;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::sync::Arc;
use symx_api::*;

fn any_char() -> char {
    let c = any_u8();
    assume(c >= 0x20 && c < 0x7f);
    c as char
}
fn any_string(n: u8) -> String {
    (0..choose(n + 1)).map(|_| any_char()).collect()
}

// ---------------------------------------------------------------- redaction
/// A value with public and sensitive parts
trait Secret: Facet + 'static {
    /// how many times the value shows that something is redacted
    const N: usize;
    /// text that is to be shown
    const SHOWN: &'static [&'static str];
    type Public: Clone + 'static;
    fn public() -> Self::Public;
    fn make(p: &Self::Public) -> Self;
}
macro_rules! secret {
    ($t:ty, $n:expr, [$($s:literal),*], $p:ty = $any:expr, |$x:ident| $make:expr) => {
        impl Secret for $t {
            const N: usize = $n;
            const SHOWN: &'static [&'static str] = &[$($s),*];
            type Public = $p;
            fn public() -> $p {
                $any
            }
            fn make($x: &$p) -> Self {
                $make
            }
        }
    };
}
#[derive(Facet, Debug, Clone)]
struct Plain {
    a: u8,
    #[facet(sensitive)]
    s: String,
    z: u8,
}
secret!(Plain, 1, ["Plain", "a:", "s:", "z:", "777"], u8 = any_u8(), |p| Plain { a: *p, s: any_string(2), z: 7 });
#[derive(Facet, Debug)]
struct Tup(u8, #[facet(sensitive)] u64, #[facet(sensitive)] String);
secret!(Tup, 2, ["Tup"], u8 = any_u8(), |p| Tup(*p, any_u64(), any_string(1)));
#[derive(Facet, Debug)]
#[repr(u8)]
enum En {
    Tuple(u8, #[facet(sensitive)] String),
    St {
        /// Some documentation
        #[facet(sensitive)]
        k: String,
        v: u8,
    },
}
struct EnTuple;
secret!(En, 1, ["En"], (bool, u8) = (any_bool(), any_u8()), |p| if p.0 { En::Tuple(p.1, any_string(1)) } else { En::St { k: any_string(1), v: p.1 } });
#[derive(Facet, Debug)]
#[repr(C)]
enum EnC {
    Tuple(#[facet(sensitive)] u32),
    St {
        v: u8,
        #[facet(sensitive)]
        k: Option<String>,
    },
}
secret!(EnC, 1, ["EnC"], (bool, u8) = (any_bool(), any_u8()), |p| if p.0 { EnC::Tuple(any_u32()) } else { EnC::St { v: p.1, k: if any_bool() { Some(any_string(1)) } else { None } } });
/// The presence, length and variant of a sensitive field are secret as well.
#[derive(Facet, Debug)]
struct Shapes {
    #[facet(sensitive)]
    o: Option<u8>,
    #[facet(sensitive)]
    l: Vec<u8>,
    #[facet(sensitive)]
    e: En,
    #[facet(sensitive)]
    st: Plain,
    #[facet(sensitive)]
    m: BTreeMap<u8, u8>,
    #[facet(sensitive)]
    b: bool,
}
secret!(Shapes, 6, ["o:", "l:", "e:", "st:", "m:", "b:"], () = (), |_p| Shapes {
    o: if any_bool() { Some(any_u8()) } else { None },
    l: (0..choose(3)).map(|_| any_u8()).collect(),
    e: En::make(&(any_bool(), any_u8())),
    st: Plain::make(&any_u8()),
    m: (0..choose(2)).map(|_| (any_u8(), any_u8())).collect(),
    b: any_bool()
});
#[derive(Facet, Debug)]
struct Attrs {
    /// The documentation
    /// has two lines
    #[facet(sensitive)]
    doc: u16,
    #[facet(default)]
    #[facet(sensitive)]
    after: u16,
    #[facet(sensitive)]
    #[facet(rename = "other")]
    before: u16,
    #[facet(opaque)]
    #[facet(sensitive)]
    opaque: Arc<u16>,
}
secret!(Attrs, 4, ["doc", "after"], () = (), |_p| Attrs { doc: any_u16(), after: any_u16(), before: any_u16(), opaque: Arc::new(any_u16()) });
#[derive(Facet, Debug)]
struct Outer {
    name: u8,
    inner: Plain,
    opt: Option<Plain>,
    list: Vec<Plain>,
    en: En,
    pair: (u8, Plain),
}
secret!(Outer, 5, ["name:", "inner:", "opt:", "list:", "en:", "pair:"], u8 = any_u8(), |p| Outer {
    name: *p,
    inner: Plain::make(p),
    opt: Some(Plain::make(&1)),
    list: vec![Plain { a: 1, s: any_char().to_string(), z: 2 }],
    en: En::St { k: any_char().to_string(), v: 0 },
    pair: (3, Plain { a: 1, s: any_char().to_string(), z: 2 }),
});
secret!(Vec<Plain>, 2, ["Plain"], u8 = any_u8(), |p| vec![Plain::make(p), Plain::make(&0)]);
secret!(Vec<En>, 2, ["En"], u8 = any_u8(), |p| vec![En::make(&(true, *p)), En::make(&(false, *p))]);
secret!(Option<Plain>, 1, ["Plain"], u8 = any_u8(), |p| Some(Plain::make(p)));
secret!([Plain; 2], 2, ["Plain"], u8 = any_u8(), |p| [Plain::make(p), Plain::make(p)]);
secret!(Arc<Plain>, 0, [], u8 = any_u8(), |p| Arc::new(Plain::make(p)));
secret!(&'static [Plain], 1, ["Plain"], u8 = any_u8(), |p| Box::leak(Box::new([Plain::make(p)])));
secret!(Option<Arc<Plain>>, 0, [], u8 = any_u8(), |p| Some(Arc::new(Plain::make(p))));
secret!(Vec<Vec<Option<Plain>>>, 1, ["Plain"], u8 = any_u8(), |p| vec![vec![Some(Plain::make(p)), None], vec![]]);
secret!((En, EnC), 2, ["En", "EnC"], (bool, u8) = (any_bool(), any_u8()), |p| (En::make(p), EnC::Tuple(any_u32())));
#[derive(Facet, Debug)]
struct Deep {
    arr: [En; 1],
    sl: &'static [Plain],
    arc: Arc<Option<Plain>>,
    nested: Vec<[Plain; 1]>,
    m: BTreeMap<u8, Plain>,
}
secret!(Deep, 0, ["arr:", "arc:", "nested:"], u8 = any_u8(), |p| Deep {
    arr: [En::make(&(true, *p))],
    sl: &[],
    arc: Arc::new(Some(Plain { a: *p, s: any_char().to_string(), z: 2 })),
    nested: vec![[Plain { a: *p, s: any_char().to_string(), z: 2 }]],
    m: BTreeMap::new(),
});
#[derive(Facet)]
struct Generic<T: 'static> {
    t: T,
    #[facet(sensitive)]
    s: T,
}
secret!(Generic<u32>, 1, ["t:", "s:"], u8 = any_u8(), |p| Generic { t: *p as u32, s: any_u32() });
secret!(Generic<String>, 1, ["t:", "s:"], u8 = any_u8(), |p| Generic { t: "t".to_string(), s: any_string(1) });
secret!(BTreeMap<u8, Plain>, 0, [], u8 = any_u8(), |p| [(1u8, Plain::make(p))].into_iter().collect());
/// several attributes at once
#[derive(Facet, Debug)]
struct Multi {
    a: u8,
    #[facet(sensitive, default)]
    s: String,
    #[facet(default, sensitive, rename = "other")]
    t: u32,
    r#type: u8,
}
secret!(Multi, 2, ["a:", "s:", "t:", "type:"], u8 = any_u8(), |p| Multi { a: *p, s: any_string(2), t: any_u32(), r#type: 5 });
/// an attribute the derive macro doesn't know takes everything after it
#[derive(Facet, Debug)]
struct Swallowed {
    a: u8,
    #[facet(rename = "other", sensitive)]
    s: bool,
}
secret!(Swallowed, 1, ["a:", "s:"], u8 = 3, |p| Swallowed { a: *p, s: any_bool() });

fn count(s: &str, t: &str) -> usize {
    s.matches(t).count()
}
fn show<T: Facet>(v: &T, how: u64) -> String {
    let printer = |colors| PrettyPrinter::new().with_colors(colors);
    match how {
        0 => printer(false).format(v),
        1 => printer(true).format(v),
        2 => printer(false).format_peek(Peek::new(v)),
        3 => {
            let mut s = String::new();
            write!(s, "{}", v.pretty_with(printer(false).with_indent_size(3))).unwrap();
            s
        }
        _ => {
            let mut s = String::new();
            write!(s, "{}", v.pretty()).unwrap();
            s
        }
    }
}
fn redacts<T: Secret>(how: u64, m: &str) {
    opts(LEAK_OK);
    let p = T::public();
    let (a, b) = (T::make(&p), T::make(&p));
    let (ta, tb) = (show(&a, how), show(&b, how));
    check_eq_bytes(ta.as_bytes(), tb.as_bytes(), m);
    if T::N > 0 {
        check(count(&ta, "REDACTED") == T::N, "a sensitive field is not marked as redacted");
    }
    if how != 1 && how != 4 {
        for s in T::SHOWN {
            check(*s == "777" || ta.contains(s), "something else than the sensitive field is missing");
        }
        out(ta.as_bytes());
    }
    witness(0);
}
#[no_mangle]
pub extern "C" fn redact() {
    let how = param(1);
    macro_rules! go {
        ($($i:literal $t:ty;)*) => { match param(0) { $( $i => redacts::<$t>(how, "what is shown depends on a sensitive field"), )* _ => {} } };
    }
    go! { 0 Plain; 1 Tup; 2 En; 3 EnC; 4 Shapes; 5 Attrs; 6 Outer; 7 Vec<Plain>; 8 Vec<En>; 9 Option<Plain>; 10 Arc<Plain>; 11 Option<Arc<Plain>>; 12 Vec<Vec<Option<Plain>>>; 13 (En, EnC); 14 Generic<u32>; 15 Generic<String>; 16 BTreeMap<u8, Plain>; 17 Multi; }
}

/// Arrays and slices are shown by their items' own Debug
#[no_mangle]
pub extern "C" fn redact_array() {
    let m = "what is shown of an array or a slice depends on a sensitive field of its items";
    match param(0) {
        0 => redacts::<[Plain; 2]>(param(1), m),
        1 => redacts::<&'static [Plain]>(param(1), m),
        _ => redacts::<Deep>(param(1), m),
    }
}

#[no_mangle]
pub extern "C" fn redact_swallowed() {
    redacts::<Swallowed>(param(1), "what is shown depends on a field whose second attribute says that it is sensitive")
}

// ---------------------------------------------------------------- faithfulness
mod faithful;
use faithful::*;
mod writer;
use writer::*;
entries!(redact, redact_array, redact_swallowed, pretty, pretty_depth, pretty_writer);
