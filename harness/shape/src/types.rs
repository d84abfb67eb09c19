//! types of every form the derive macro takes
use crate::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::marker::PhantomData;
use std::mem::offset_of;
use std::sync::Arc;

macro_rules! fields {
    ($t:ty; $($f:tt $(as $n:literal)? $([$($a:literal),*])? $({$($d:literal),*})?),* $(,)?) => {
        vec![$({
            let (id, size) = idof::<$t, _>(|s| &s.$f);
            F { name: fields!(@ $f $($n)?), off: offset_of!($t, $f), id, size, attrs: &[$($($a),*)?], doc: &[$($($d),*)?] }
        }),*]
    };
    (@ $f:tt $n:literal) => { $n };
    (@ $f:tt) => { stringify!($f) };
}
fn spec(name: &'static str) -> Spec {
    Spec { name, doc: &[], attrs: &[], params: vec![] }
}

#[derive(Facet)]
struct Plain {
    a: u8,
    b: u32,
    c: u16,
    d: u64,
}
#[derive(Facet)]
#[repr(C)]
struct LikeC {
    a: u8,
    b: u32,
    c: u16,
    d: u64,
}
#[derive(Facet)]
struct Tup(
    /// the first
    u8,
    #[facet(sensitive)] u64,
    pub bool,
    /// the last
    #[facet(default)]
    pub(crate) String,
);
#[derive(Facet)]
struct Unit;
#[derive(Facet)]
struct Empty {}
/// A "documented" type: \n isn't a line
///
///   indented, with ünicode and {braces}
#[doc = "an attribute"]
#[derive(Facet)]
struct Docs {
    /// one line
    a: u8,
    b: u8,
    /// several
    /// lines \ "quoted"
    ///
    #[facet(sensitive)]
    /// after an attribute
    c: u8,
    #[doc = r#"raw "doc""#]
    d: u8,
    #[doc(hidden)]
    e: u8,
}
fn seven() -> u8 {
    7
}
#[derive(Facet)]
struct Attrs {
    plain: u8,
    #[facet(sensitive)]
    s: u8,
    #[facet(default)]
    d: u8,
    #[facet(default = "seven")]
    f: u8,
    #[facet(rename = "other name")]
    r: u8,
    #[facet(rename = "q\"uo\\te\n")]
    q: u8,
    #[facet(sensitive)]
    #[facet(default)]
    #[facet(rename = "two")]
    three: u8,
    #[facet(sensitive, default)]
    m: u8,
    #[facet(default = "seven", sensitive, rename = "last")]
    n: u8,
    #[facet(positional)]
    p: u8,
    #[facet(named, short = 'v')]
    v: u8,
    #[facet(anything(goes) = 3 + 4)]
    any: u8,
    #[allow(unused)]
    #[cfg_attr(all(), facet(sensitive))]
    c: u8,
    #[cfg_attr(any(), facet(sensitive))]
    nc: u8,
    #[facet(rename = r#"ra"w"#)]
    rw: u8,
    last: u8,
}
#[derive(Facet)]
struct RawIds {
    r#type: u8,
    r#fn: u32,
    #[facet(sensitive)]
    r#match: u16,
    r: u8,
    r_: u8,
}
#[derive(Facet)]
struct Gen<T, U: Clone = u8, const N: usize = 3>
where
    T: Copy,
{
    t: T,
    v: Vec<U>,
    a: [T; N],
    p: PhantomData<(T, U)>,
    n: u8,
}
#[derive(Facet)]
struct Wrap<Inner>(Option<Inner>, u8);
#[derive(Facet)]
struct Deep {
    a: Vec<Option<(u8, u16)>>,
    b: HashMap<String, Vec<u8>>,
    c: BTreeMap<u8, Plain>,
    d: [[u16; 3]; 2],
    e: &'static str,
    f: Cow<'static, str>,
    g: Arc<Plain>,
    h: Option<Arc<u8>>,
    i: (u8,),
    j: (),
    k: &'static [u16],
    m: PhantomData<String>,
}
#[derive(Facet)]
#[facet(deny_unknown_fields)]
struct Deny {
    a: u8,
}
#[derive(Facet)]
#[facet(default)]
#[facet(deny_unknown_fields)]
struct Both {
    a: u8,
}
#[derive(Facet)]
#[facet(deny_unknown_fields, default)]
/// doc
struct BothInOne {
    a: u8,
}
#[derive(Facet)]
pub(crate) struct Visible {
    pub a: u8,
    pub(crate) b: u16,
    pub(super) c: u8,
    pub(super) d: u32,
    e: u8,
}
#[derive(Facet)]
#[repr(C, align(16))]
struct Aligned {
    a: u8,
    b: u8,
}
#[derive(Facet)]
#[repr(transparent)]
struct Transparent(u16);
#[derive(Facet)]
struct XMLHttpRequest2 {
    #[allow(non_snake_case)]
    fooBar: u8,
    _x: u16,
    __y: u8,
}
#[derive(Facet)]
struct Sizeless {
    a: [u8; 0],
    b: u8,
    c: (),
    d: Unit,
    e: u16,
}
#[derive(Facet)]
struct Borrowed<'a> {
    s: &'a str,
    c: Cow<'a, str>,
    n: u8,
}
struct NotFacet(u16);
#[derive(Facet)]
struct HasOpaque {
    a: u8,
    #[facet(opaque)]
    o: Arc<NotFacet>,
    b: u32,
}
// an attribute the derive macro doesn't know takes everything after it
#[derive(Facet)]
struct Swallowed {
    #[facet(rename = "other", sensitive)]
    a: u8,
}
pub fn swallowed() {
    structure::<Swallowed>(spec("Swallowed"), StructKind::Struct, fields!(Swallowed; a ["rename=other", "sensitive"]))
}
macro_rules! many {
    ($($f:ident: $t:ty),*) => {
        #[derive(Facet)]
        struct Many { $($f: $t),* }
        fn many() -> Vec<F> { fields!(Many; $($f),*) }
    };
}
many! {
    a0: u8, a1: u16, a2: u32, a3: u64, a4: u8, a5: u8, a6: u16, a7: u8, a8: u8, a9: u32, b0: u8, b1: u16, b2: u32, b3: u64, b4: u8, b5: u8, b6: u16, b7: u8, b8: u8, b9: u32,
    c0: u8, c1: u16, c2: u32, c3: u64, c4: u8, c5: u8, c6: u16, c7: u8, c8: u8, c9: u32, d0: u8, d1: u16, d2: u32, d3: u64, d4: u8, d5: u8, d6: u16, d7: u8, d8: u8, d9: u32,
    e0: u8, e1: u16, e2: u32, e3: u64, e4: u8, e5: u8, e6: u16, e7: u8, e8: u8, e9: u32, f0: u8, f1: u16, f2: u32, f3: u64, f4: u8, f5: u8, f6: u16, f7: u8, f8: u8, f9: u32,
    g0: u8, g1: u16, g2: u32, g3: u64, g4: u8, g5: u8
}
pub const STRUCTS: u64 = 25;
pub fn structs(i: u64) {
    use StructKind::{Struct, TupleStruct};
    match i {
        0 => structure::<Plain>(spec("Plain"), Struct, fields!(Plain; a, b, c, d)),
        1 => structure::<LikeC>(spec("LikeC"), Struct, fields!(LikeC; a, b, c, d)),
        2 => structure::<Tup>(spec("Tup"), TupleStruct, fields!(Tup; 0 {" the first"}, 1 ["sensitive"], 2, 3 ["default"] {" the last"})),
        3 => structure::<Unit>(spec("Unit"), StructKind::Unit, vec![]),
        4 => structure::<Empty>(spec("Empty"), Struct, vec![]),
        5 => structure::<Docs>(
            Spec { doc: &[" A \"documented\" type: \\n isn't a line", "", "   indented, with ünicode and {braces}", "an attribute"], ..spec("Docs") },
            Struct,
            fields!(Docs; a {" one line"}, b, c ["sensitive"] {" several", " lines \\ \"quoted\"", "", " after an attribute"}, d {"raw \"doc\""}, e),
        ),
        6 => structure::<Attrs>(
            spec("Attrs"),
            Struct,
            fields!(Attrs; plain, s ["sensitive"], d ["default"], f ["default="], r ["rename=other name"], q ["rename=q\"uo\\te\n"], three ["sensitive", "default", "rename=two"],
                m ["sensitive", "default"], n ["default=", "sensitive", "rename=last"], p ["+positional"], v ["+named,short='v'"], any ["+anything(goes)=3+4"], c ["sensitive"], nc,
                rw ["rename=ra\"w"], last),
        ),
        7 => structure::<RawIds>(spec("RawIds"), Struct, fields!(RawIds; r#type as "type", r#fn as "fn", r#match as "match" ["sensitive"], r, r_)),
        8 => structure::<Gen<u16, String, 2>>(
            Spec { params: vec![("T", ConstTypeId::of::<u16>()), ("U", ConstTypeId::of::<String>())], ..spec("Gen") },
            Struct,
            fields!(Gen<u16, String, 2>; t, v, a, p, n),
        ),
        9 => structure::<Gen<u8>>(Spec { params: vec![("T", ConstTypeId::of::<u8>()), ("U", ConstTypeId::of::<u8>())], ..spec("Gen") }, Struct, fields!(Gen<u8>; t, v, a, p, n)),
        10 => structure::<Wrap<Wrap<u8>>>(
            Spec { params: vec![("Inner", ConstTypeId::of::<Wrap<u8>>())], ..spec("Wrap") },
            TupleStruct,
            fields!(Wrap<Wrap<u8>>; 0, 1),
        ),
        11 => structure::<Deep>(spec("Deep"), Struct, fields!(Deep; a, b, c, d, e, f, g, h, i, j, k, m)),
        12 => structure::<Deny>(Spec { attrs: &["deny"], ..spec("Deny") }, Struct, fields!(Deny; a)),
        13 => structure::<Both>(Spec { attrs: &["default", "deny"], ..spec("Both") }, Struct, fields!(Both; a)),
        14 => structure::<BothInOne>(Spec { attrs: &["deny", "default"], doc: &[" doc"], ..spec("BothInOne") }, Struct, fields!(BothInOne; a)),
        15 => structure::<Visible>(spec("Visible"), Struct, fields!(Visible; a, b, c, d, e)),
        16 => structure::<Aligned>(spec("Aligned"), Struct, fields!(Aligned; a, b)),
        17 => structure::<Transparent>(spec("Transparent"), TupleStruct, fields!(Transparent; 0)),
        18 => structure::<XMLHttpRequest2>(spec("XMLHttpRequest2"), Struct, fields!(XMLHttpRequest2; fooBar, _x, __y)),
        19 => structure::<Sizeless>(spec("Sizeless"), Struct, fields!(Sizeless; a, b, c, d, e)),
        20 => structure::<Borrowed<'static>>(spec("Borrowed"), Struct, fields!(Borrowed<'static>; s, c, n)),
        21 => {
            // an opaque field's type is the opaque wrapper
            let mut fs = fields!(HasOpaque; a, o, b);
            fs[1].id = ConstTypeId::of::<facet::Opaque<Arc<NotFacet>>>();
            structure::<HasOpaque>(spec("HasOpaque"), Struct, fs)
        }
        22 => structure::<Many>(spec("Many"), Struct, many()),
        23 => structure::<Wrap<String>>(Spec { params: vec![("Inner", ConstTypeId::of::<String>())], ..spec("Wrap") }, TupleStruct, fields!(Wrap<String>; 0, 1)),
        _ => structure::<Gen<u64, u64, 0>>(
            Spec { params: vec![("T", ConstTypeId::of::<u64>()), ("U", ConstTypeId::of::<u64>())], ..spec("Gen") },
            Struct,
            fields!(Gen<u64, u64, 0>; t, v, a, p, n),
        ),
    }
}

/// an enum of every kind of variants, for each representation
macro_rules! forms {
    ($($m:ident $rs:literal ($($r:tt)*) $c:ident $e:ident;)*) => { $(
        mod $m {
            use crate::*;
            use super::{three, Plain};
            /// kinds
            #[derive(Facet)]
            #[repr($($r)*)]
            #[facet(deny_unknown_fields)]
            pub enum Kinds {
                /// nothing
                Unit,
                Tup(u8, #[facet(sensitive)] u64, u16),
                /// a "struct"
                /// of four
                St {
                    /// the first
                    a: u8,
                    #[facet(default, sensitive)]
                    b: u32,
                    r#type: String,
                    d: Option<u16>,
                },
                EmptyTup(),
                EmptySt {},
                One(Plain),
                Big { z: u8, y: [u64; 3], x: u8 },
                Last,
            }
            fn variants(k: &Kinds) -> (usize, Vec<Vt>) {
                let mut vs: Vec<Vt> = [("Unit", StructKind::Unit), ("Tup", StructKind::Tuple), ("St", StructKind::Struct), ("EmptyTup", StructKind::Tuple), ("EmptySt", StructKind::Struct),
                    ("One", StructKind::Tuple), ("Big", StructKind::Struct), ("Last", StructKind::Unit)]
                    .into_iter().enumerate().map(|(i, (name, kind))| Vt { name, disc: i as i128, kind, doc: match name { "Unit" => &[" nothing"], "St" => &[" a \"struct\"", " of four"], _ => &[] }, fields: vec![] }).collect();
                let (i, fields) = match k {
                    Kinds::Unit => (0, vec![]),
                    Kinds::Tup(a, b, c) => (1, vec![at("_0", a, &[], &[]), at("_1", b, &["sensitive"], &[]), at("_2", c, &[], &[])]),
                    Kinds::St { a, b, r#type, d } => (2, vec![at("a", a, &[], &[" the first"]), at("b", b, &["default", "sensitive"], &[]), at("type", r#type, &[], &[]), at("d", d, &[], &[])]),
                    Kinds::EmptyTup() => (3, vec![]),
                    Kinds::EmptySt {} => (4, vec![]),
                    Kinds::One(p) => (5, vec![at("_0", p, &[], &[])]),
                    Kinds::Big { z, y, x } => (6, vec![at("z", z, &[], &[]), at("y", y, &[], &[]), at("x", x, &[], &[])]),
                    Kinds::Last => (7, vec![]),
                };
                vs[i].fields = fields;
                (i, vs)
            }
            fn make(i: u8) -> Kinds {
                match i {
                    0 => Kinds::Unit,
                    1 => Kinds::Tup(any_u8(), any_u64(), any_u16()),
                    2 => Kinds::St { a: any_u8(), b: any_u32(), r#type: String::new(), d: any_bool().then(any_u16) },
                    3 => Kinds::EmptyTup(),
                    4 => Kinds::EmptySt {},
                    5 => Kinds::One(Plain { a: any_u8(), b: any_u32(), c: any_u16(), d: any_u64() }),
                    6 => Kinds::Big { z: any_u8(), y: [any_u64(), 2, 3], x: any_u8() },
                    _ => Kinds::Last,
                }
            }
            pub fn kinds() {
                enumeration::<Kinds>(Spec { name: "Kinds", doc: &[" kinds"], attrs: &["deny"], params: vec![] }, $rs, 8, make, variants)
            }
            /// small contents first
            #[derive(Facet)]
            #[repr($($r)*)]
            pub enum Small {
                A(u8),
                B { x: u8, y: u8 },
            }
            pub fn small() {
                enumeration::<Small>(
                    Spec { name: "Small", doc: &[" small contents first"], attrs: &[], params: vec![] }, $rs, 2,
                    |i| if i == 0 { Small::A(any_u8()) } else { Small::B { x: any_u8(), y: any_u8() } },
                    |s| {
                        let mut vs = vec![Vt { name: "A", disc: 0, kind: StructKind::Tuple, doc: &[], fields: vec![] }, Vt { name: "B", disc: 1, kind: StructKind::Struct, doc: &[], fields: vec![] }];
                        let i = match s {
                            Small::A(a) => { vs[0].fields = vec![at("_0", a, &[], &[])]; 0 }
                            Small::B { x, y } => { vs[1].fields = vec![at("x", x, &[], &[]), at("y", y, &[], &[])]; 1 }
                        };
                        (i, vs)
                    })
            }
            $e!($rs ($($r)*));
            /// one variant's alignment decides where the others' fields are
            macro_rules! widest {
                ($f:ident $n:ident $mk:expr; $va:expr) => {
                    pub fn $f() {
                        enumeration::<$n>(Spec { name: stringify!($n), doc: &[], attrs: &[], params: vec![] }, $rs, 3, $mk, $va)
                    }
                };
            }
            #[derive(Facet)]
            #[repr($($r)*)]
            pub enum WideSt {
                A(u8),
                B { x: u8, y: u64 },
                C { z: u16 },
            }
            widest!(wide_st WideSt |i| match i { 0 => WideSt::A(any_u8()), 1 => WideSt::B { x: any_u8(), y: any_u64() }, _ => WideSt::C { z: any_u16() } };
                |s| match s {
                    WideSt::A(a) => three(0, [("A", StructKind::Tuple), ("B", StructKind::Struct), ("C", StructKind::Struct)], vec![at("_0", a, &[], &[])]),
                    WideSt::B { x, y } => three(1, [("A", StructKind::Tuple), ("B", StructKind::Struct), ("C", StructKind::Struct)], vec![at("x", x, &[], &[]), at("y", y, &[], &[])]),
                    WideSt::C { z } => three(2, [("A", StructKind::Tuple), ("B", StructKind::Struct), ("C", StructKind::Struct)], vec![at("z", z, &[], &[])]),
                });
            #[derive(Facet)]
            #[repr($($r)*)]
            pub enum WideTup {
                A { a: u8 },
                B(u8, u128),
                C(u8),
            }
            widest!(wide_tup WideTup |i| match i { 0 => WideTup::A { a: any_u8() }, 1 => WideTup::B(any_u8(), any_u64() as u128), _ => WideTup::C(any_u8()) };
                |s| match s {
                    WideTup::A { a } => three(0, [("A", StructKind::Struct), ("B", StructKind::Tuple), ("C", StructKind::Tuple)], vec![at("a", a, &[], &[])]),
                    WideTup::B(x, y) => three(1, [("A", StructKind::Struct), ("B", StructKind::Tuple), ("C", StructKind::Tuple)], vec![at("_0", x, &[], &[]), at("_1", y, &[], &[])]),
                    WideTup::C(z) => three(2, [("A", StructKind::Struct), ("B", StructKind::Tuple), ("C", StructKind::Tuple)], vec![at("_0", z, &[], &[])]),
                });
            // aligned more than the discriminant, without being larger; zero-sized fields
            #[derive(Facet)]
            #[repr($($r)*)]
            pub enum Zst {
                A((), u8),
                B { n: [u64; 0], x: u8 },
                C(super::Unit, u16),
            }
            widest!(zst Zst |i| match i { 0 => Zst::A((), any_u8()), 1 => Zst::B { n: [], x: any_u8() }, _ => Zst::C(super::Unit, any_u16()) };
                |s| match s {
                    Zst::A(a, b) => three(0, [("A", StructKind::Tuple), ("B", StructKind::Struct), ("C", StructKind::Tuple)], vec![at("_0", a, &[], &[]), at("_1", b, &[], &[])]),
                    Zst::B { n, x } => three(1, [("A", StructKind::Tuple), ("B", StructKind::Struct), ("C", StructKind::Tuple)], vec![at("n", n, &[], &[]), at("x", x, &[], &[])]),
                    Zst::C(u, z) => three(2, [("A", StructKind::Tuple), ("B", StructKind::Struct), ("C", StructKind::Tuple)], vec![at("_0", u, &[], &[]), at("_1", z, &[], &[])]),
                });

            // many variants, one with the widest alignment: of a struct variant, or of a tuple variant
            macro_rules! several {
                ($f:ident $n:ident $st:ty, $tu:ty; $mst:expr, $mtu:expr) => {
                    #[derive(Facet)]
                    #[repr($($r)*)]
                    pub enum $n {
                        A(u8),
                        B { x: u8 },
                        C,
                        D(u8, u8),
                        F { v: u8, w: $st },
                        G(u8, $tu),
                        H { y: u8, z: u8 },
                        I(),
                        J(u8),
                        K {},
                        L { last: bool },
                    }
                    pub fn $f() {
                        enumeration::<$n>(
                            Spec { name: stringify!($n), doc: &[], attrs: &[], params: vec![] }, $rs, 11,
                            |i| match i {
                                0 => $n::A(any_u8()),
                                1 => $n::B { x: any_u8() },
                                2 => $n::C,
                                3 => $n::D(any_u8(), any_u8()),
                                4 => $n::F { v: any_u8(), w: $mst },
                                5 => $n::G(any_u8(), $mtu),
                                6 => $n::H { y: any_u8(), z: any_u8() },
                                7 => $n::I(),
                                8 => $n::J(any_u8()),
                                9 => $n::K {},
                                _ => $n::L { last: any_bool() },
                            },
                            |s| {
                                use StructKind::{Struct, Tuple, Unit};
                                let (i, fields) = match s {
                                    $n::A(a) => (0, vec![at("_0", a, &[], &[])]),
                                    $n::B { x } => (1, vec![at("x", x, &[], &[])]),
                                    $n::C => (2, vec![]),
                                    $n::D(a, b) => (3, vec![at("_0", a, &[], &[]), at("_1", b, &[], &[])]),
                                    $n::F { v, w } => (4, vec![at("v", v, &[], &[]), at("w", w, &[], &[])]),
                                    $n::G(a, b) => (5, vec![at("_0", a, &[], &[]), at("_1", b, &[], &[])]),
                                    $n::H { y, z } => (6, vec![at("y", y, &[], &[]), at("z", z, &[], &[])]),
                                    $n::I() => (7, vec![]),
                                    $n::J(a) => (8, vec![at("_0", a, &[], &[])]),
                                    $n::K {} => (9, vec![]),
                                    $n::L { last } => (10, vec![at("last", last, &[], &[])]),
                                };
                                let mut vs: Vec<Vt> = [("A", Tuple), ("B", Struct), ("C", Unit), ("D", Tuple), ("F", Struct), ("G", Tuple), ("H", Struct), ("I", Tuple), ("J", Tuple), ("K", Struct), ("L", Struct)]
                                    .into_iter().enumerate().map(|(i, (name, kind))| Vt { name, disc: i as i128, kind, doc: &[], fields: vec![] }).collect();
                                vs[i].fields = fields;
                                (i, vs)
                            },
                        )
                    }
                };
            }
            several!(several_st SeveralSt u64, u8; any_u64(), any_u8());
            several!(several_tup SeveralTup u8, u128; any_u8(), any_u64() as u128);
            several!(several_16 Several16 u16, u8; any_u16(), any_u8());
            several!(several_8 Several8 u8, [u16; 2]; any_u8(), [any_u16(), 5]);
        }
    )* };
}
fn three(at: usize, names: [(&'static str, StructKind); 3], fields: Vec<F>) -> (usize, Vec<Vt>) {
    let mut vs: Vec<Vt> = names.into_iter().enumerate().map(|(i, (name, kind))| Vt { name, disc: i as i128, kind, doc: &[], fields: vec![] }).collect();
    vs[at].fields = fields;
    (at, vs)
}
/// explicit discriminants and fields, and type parameters: not for C's representation
macro_rules! explicit {
    ($rs:literal ($($r:tt)*)) => {
        #[derive(Facet)]
        #[repr($($r)*)]
        pub enum Numbered {
            A(u8) = 3,
            B { x: u16 },
            C = 0x70,
            D(u8, u64),
            E = 0b1_01,
            F { y: u32 } = 0o17,
        }
        pub fn numbered() {
            enumeration::<Numbered>(
                Spec { name: "Numbered", doc: &[], attrs: &[], params: vec![] }, $rs, 6,
                |i| match i {
                    0 => Numbered::A(any_u8()),
                    1 => Numbered::B { x: any_u16() },
                    2 => Numbered::C,
                    3 => Numbered::D(any_u8(), any_u64()),
                    4 => Numbered::E,
                    _ => Numbered::F { y: any_u32() },
                },
                |s| {
                    use StructKind::*;
                    let mut vs: Vec<Vt> = [("A", 3, Tuple), ("B", 4, Struct), ("C", 0x70, Unit), ("D", 0x71, Tuple), ("E", 5, Unit), ("F", 15, Struct)]
                        .into_iter().map(|(name, disc, kind)| Vt { name, disc, kind, doc: &[], fields: vec![] }).collect();
                    let (i, f) = match s {
                        Numbered::A(a) => (0, vec![at("_0", a, &[], &[])]),
                        Numbered::B { x } => (1, vec![at("x", x, &[], &[])]),
                        Numbered::C => (2, vec![]),
                        Numbered::D(a, b) => (3, vec![at("_0", a, &[], &[]), at("_1", b, &[], &[])]),
                        Numbered::E => (4, vec![]),
                        Numbered::F { y } => (5, vec![at("y", y, &[], &[])]),
                    };
                    vs[i].fields = f;
                    (i, vs)
                })
        }
        #[derive(Facet)]
        #[repr($($r)*)]
        pub enum Gen<T: Clone, U> where U: Copy {
            A(T, std::marker::PhantomData<U>),
            B { u: U, t: (T, u8) },
            C(Vec<U>, u8, Option<T>),
        }
        pub fn generic() {
            enumeration::<Gen<u16, u32>>(
                Spec { name: "Gen", doc: &[], attrs: &[], params: vec![("T", ConstTypeId::of::<u16>()), ("U", ConstTypeId::of::<u32>())] }, $rs, 3,
                |i| match i {
                    0 => Gen::A(any_u16(), std::marker::PhantomData),
                    1 => Gen::B { u: any_u32(), t: (any_u16(), any_u8()) },
                    _ => Gen::C(vec![], any_u8(), any_bool().then(any_u16)),
                },
                |s| {
                    use StructKind::*;
                    let mut vs: Vec<Vt> = [("A", 0, Tuple), ("B", 1, Struct), ("C", 2, Tuple)]
                        .into_iter().map(|(name, disc, kind)| Vt { name, disc, kind, doc: &[], fields: vec![] }).collect();
                    let (i, f) = match s {
                        Gen::A(a, p) => (0, vec![at("_0", a, &[], &[]), at("_1", p, &[], &[])]),
                        Gen::B { u, t } => (1, vec![at("u", u, &[], &[]), at("t", t, &[], &[])]),
                        Gen::C(v, n, o) => (2, vec![at("_0", v, &[], &[]), at("_1", n, &[], &[]), at("_2", o, &[], &[])]),
                    };
                    vs[i].fields = f;
                    (i, vs)
                })
        }
    };
}
macro_rules! small_only {
    ($rs:literal ($($r:tt)*)) => {
        pub fn numbered() { small() }
        pub fn generic() { small() }
    };
}
macro_rules! implicit {
    ($rs:literal ($($r:tt)*)) => {
        #[derive(Facet)]
        #[repr($($r)*)]
        pub enum Some3 {
            A(u8) = 3,
            B { x: u32 },
            C(u16) = 1,
        }
        pub fn numbered() {
            enumeration::<Some3>(Spec { name: "Some3", doc: &[], attrs: &[], params: vec![] }, $rs, 3,
                |i| match i { 0 => Some3::A(any_u8()), 1 => Some3::B { x: any_u32() }, _ => Some3::C(any_u16()) },
                |s| {
                    let names = [("A", StructKind::Tuple), ("B", StructKind::Struct), ("C", StructKind::Tuple)];
                    let (i, mut vs) = match s {
                        Some3::A(a) => three(0, names, vec![at("_0", a, &[], &[])]),
                        Some3::B { x } => three(1, names, vec![at("x", x, &[], &[])]),
                        Some3::C(c) => three(2, names, vec![at("_0", c, &[], &[])]),
                    };
                    (vs[0].disc, vs[1].disc, vs[2].disc) = (3, 4, 1);
                    (i, vs)
                })
        }
        pub fn generic() { small() }
    };
}
forms! {
    f_u8 "u8" (u8) u8 explicit;
    f_u16 "u16" (u16) u16 explicit;
    f_u32 "u32" (u32) u32 explicit;
    f_u64 "u64" (u64) u64 explicit;
    f_usize "usize" (usize) u64 explicit;
    f_i8 "i8" (i8) i8 explicit;
    f_i16 "i16" (i16) i16 explicit;
    f_i32 "i32" (i32) i32 explicit;
    f_i64 "i64" (i64) i64 explicit;
    f_isize "isize" (isize) i64 explicit;
    f_c "" (C) i32 small_only;
    f_cu8 "u8" (C, u8) u8 implicit;
    f_cu16 "u16" (u16, C) u16 implicit;
    f_ci32 "i32" (C, i32) i32 implicit;
    f_ci64 "i64" (C, i64) i64 implicit;
}
pub const ENUMS: u64 = 165;
pub fn enums(i: u64) {
    macro_rules! of { ($($m:ident),*) => { [$([$m::kinds as fn(), $m::small, $m::numbered, $m::generic, $m::wide_st, $m::wide_tup, $m::zst, $m::several_st, $m::several_tup, $m::several_16, $m::several_8]),*] } }
    of!(f_u8, f_u16, f_u32, f_u64, f_usize, f_i8, f_i16, f_i32, f_i64, f_isize, f_c, f_cu8, f_cu16, f_ci32, f_ci64)[i as usize / 11][i as usize % 11]()
}

macro_rules! disc {
    ($($i:literal $n:ident $r:tt $rs:literal $bits:literal { $($v:ident $(= $d:tt)?),* })*) => {
        $(#[derive(Facet, Clone, Copy)]
        #[repr($r)]
        enum $n { $($v $(= $d)?),* })*
        pub fn discs(i: u64) {
            match i {
                $($i => fieldless::<$n>($rs, $bits, &[$((stringify!($v), $n::$v as i128)),*]),)*
                _ => fail("no such enum"),
            }
        }
    };
}
disc! {
    0 D8 u8 "u8" 8 { A, B = 7, C, D = 0xff, E = 0b10000, F, G = 0o40 }
    1 D16 u16 "u16" 16 { A = 65535, B = 0, C, D = 256, E = 0x1_00_0 }
    2 D32 u32 "u32" 32 { A = 4294967295, B = 65536, C = 0, D }
    3 D64 u64 "u64" 64 { A = 4294967296, B, C = 9223372036854775806, D = 0 }
    4 DUs usize "usize" 64 { A = 0xFFFF_FFFF, B, C = 0 }
    5 DI8 i8 "i8" 8 { A = 127, B = 0, C, D = 0x40, E }
    6 DI16 i16 "i16" 16 { A = 127, B, C = 32767, D = 0 }
    7 DI32 i32 "i32" 32 { A = 2147483647, B = 32768, C = 1, D }
    8 DI64 i64 "i64" 64 { A = 2147483648, B, C = 9223372036854775806, D = 0 }
    9 DIs isize "isize" 64 { A = 0x7FFF_FFFF, B, C = 1 }
    10 DC C "" 32 { A = 2147483647, B = 0, C, D = 255 }
    11 DCw C "" 64 { A = 4294967296, B, C = 0 }
    12 DCn C "" 32 { A, B, C }
    13 Alone u8 "u8" 8 { A = 9 }
    14 Order u8 "u8" 8 { Z = 3, Y = 2, X = 1, W = 0, V = 4, U }
    15 Suffix u16 "u16" 16 { A = 0xFE, B, C, D = 1_000 }
}
