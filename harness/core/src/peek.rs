//! What Peek shows of a value, against the value itself.
use crate::native::{feed, Rec};
use core::cmp::Ordering;
use facet::Facet;
use facet_core::{Def, EnumRepr, StructKind};
use facet_reflect::{Peek, ScalarType};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use symx_api::*;

/// Checks that a Peek shows the value `self`.
trait See: Facet {
    fn see(&self, p: Peek<'_>);
    fn any() -> Self;
}
#[derive(Facet)]
struct Alien {
    z: u8,
}
fn here<T: Facet>(p: Peek<'_>, v: &T) {
    check(p.shape() == T::SHAPE, "a Peek has another shape than the value");
    check(p.data().as_byte_ptr() == v as *const T as *const u8, "a Peek looks at another place than the value's");
    match p.get::<T>() {
        Ok(r) => check(r as *const T == v as *const T, "get hands out another value"),
        Err(_) => fail("a value cannot be read as its own type"),
    }
    check(p.get::<Alien>().is_err(), "a value can be read as another type");
    check(p.ptr_eq(&Peek::new(v)) && p.id() == Peek::new(v).id(), "a Peek is not identical to another of the same value");
    check(p.into_struct().is_ok() == matches!(T::SHAPE.def, Def::Struct(_)), "into_struct does not follow the shape");
    check(p.into_enum().is_ok() == matches!(T::SHAPE.def, Def::Enum(_)), "into_enum does not follow the shape");
    check(p.into_list().is_ok() == matches!(T::SHAPE.def, Def::List(_)), "into_list does not follow the shape");
    check(p.into_map().is_ok() == matches!(T::SHAPE.def, Def::Map(_)), "into_map does not follow the shape");
    check(p.into_option().is_ok() == matches!(T::SHAPE.def, Def::Option(_)), "into_option does not follow the shape");
    check(p.into_smart_pointer().is_ok() == matches!(T::SHAPE.def, Def::SmartPointer(_)), "into_smart_pointer does not follow the shape");
}
macro_rules! scalar {
    ($($t:ty, $s:expr, $any:expr;)*) => {$(
        impl See for $t {
            fn see(&self, p: Peek<'_>) {
                here(p, self);
                let want: Option<ScalarType> = $s;
                check(p.scalar_type() == want, "the scalar type of a value is not its own");
            }
            fn any() -> Self { $any }
        }
    )*};
}
scalar! {
    u8, Some(ScalarType::U8), any_u8();
    u16, Some(ScalarType::U16), any_u16();
    u32, Some(ScalarType::U32), any_u32();
    u64, Some(ScalarType::U64), any_u64();
    usize, Some(ScalarType::USize), any_u64() as usize;
    i8, Some(ScalarType::I8), any_u8() as i8;
    i16, Some(ScalarType::I16), any_u16() as i16;
    i32, Some(ScalarType::I32), any_u32() as i32;
    i64, Some(ScalarType::I64), any_u64() as i64;
    isize, Some(ScalarType::ISize), any_u64() as isize;
    f32, Some(ScalarType::F32), f32::from_bits(any_u32());
    f64, Some(ScalarType::F64), f64::from_bits(any_u64());
    bool, Some(ScalarType::Bool), any_bool();
    (), Some(ScalarType::Unit), ();
    &'static str, Some(ScalarType::Str), "st";
    Cow<'static, str>, Some(ScalarType::CowStr), Cow::Borrowed("st");
    IpAddr, Some(ScalarType::IpAddr), IpAddr::from([127, 0, 0, 1]);
    Ipv4Addr, Some(ScalarType::Ipv4Addr), Ipv4Addr::from(any_u32());
    Ipv6Addr, Some(ScalarType::Ipv6Addr), Ipv6Addr::LOCALHOST;
    SocketAddr, Some(ScalarType::SocketAddr), SocketAddr::from(([1, 2, 3, 4], any_u16()));
    facet_core::ConstTypeId, Some(ScalarType::ConstTypeId), facet_core::ConstTypeId::of::<u8>();
    String, Some(ScalarType::String), { let mut s = String::new(); s.push((b'a' + (any_u8() & 15)) as char); s };
    u128, None, any_u128();
    char, None, 'x';
}
macro_rules! fields {
    ($p:expr, $v:expr, $count:expr, $field:expr, $by_name:expr, $iter:expr, [$(($n:expr, $x:expr)),*]) => {{
        let mut i = 0usize;
        let mut it = $iter;
        $(
            $x.see($field(i).unwrap());
            $x.see($by_name($n).unwrap());
            match it.next() {
                Some((f, q)) => {
                    check(f.name == $n, "a field has another name than declared");
                    check(f.shape() == q.shape(), "a field's shape differs from that of its value");
                    $x.see(q);
                }
                None => fail("a field is missing"),
            }
            i += 1;
        )*
        check(it.next().is_none() && $count == i, "there are other fields than declared");
        check($field(i).is_none() && $field(i + 100).is_none() && $field(usize::MAX).is_none(), "a field that does not exist is shown");
        check($by_name("none").is_none() && $by_name("").is_none(), "a field that does not exist is shown by name");
    }};
}
macro_rules! see_struct {
    ($t:ident $kind:ident $(($($n:literal: $f:tt),*))? { $any:expr }) => {
        impl See for $t {
            fn any() -> Self { $any }
            fn see(&self, p: Peek<'_>) {
                here(p, self);
                let s = p.into_struct().unwrap();
                check(s.def().kind == StructKind::$kind, "a struct is shown as another kind");
                fields!(p, self, s.field_count(), |i: usize| s.field(i).ok(), |n: &str| s.field_by_name(n).ok(), s.fields(), [$($(($n, self.$f)),*)?]);
            }
        }
    };
}
#[derive(Facet)]
struct Mixed {
    a: u8,
    b: u64,
    c: u16,
    d: String,
    e: bool,
}
see_struct!(Mixed Struct ("a": a, "b": b, "c": c, "d": d, "e": e) { Mixed { a: any_u8(), b: any_u64(), c: any_u16(), d: See::any(), e: any_bool() } });
#[derive(Facet)]
#[repr(C, packed(1))]
struct Packed {
    a: u8,
    b: u8,
}
see_struct!(Packed Struct ("a": a, "b": b) { Packed { a: any_u8(), b: any_u8() } });
#[derive(Facet)]
struct Pair(u16, Mixed, u8);
see_struct!(Pair TupleStruct ("0": 0, "1": 1, "2": 2) { Pair(any_u16(), See::any(), any_u8()) });
#[derive(Facet)]
struct Nil;
see_struct!(Nil Unit { Nil });
#[derive(Facet)]
struct Gen<T: 'static, const N: usize> {
    #[facet(sensitive)]
    t: T,
    #[facet(rename = "other")]
    n: Nil,
    m: Option<T>,
}
impl<T: See, const N: usize> See for Gen<T, N> {
    fn any() -> Self {
        Gen { t: T::any(), n: Nil, m: See::any() }
    }
    fn see(&self, p: Peek<'_>) {
        here(p, self);
        let s = p.into_struct().unwrap();
        fields!(p, self, s.field_count(), |i: usize| s.field(i).ok(), |n: &str| s.field_by_name(n).ok(), s.fields(), [("t", self.t), ("n", self.n), ("m", self.m)]);
        for (f, _) in s.fields() {
            check(f.flags.contains(facet_core::FieldFlags::SENSITIVE) == (f.name == "t"), "a field's flags are not those declared");
        }
    }
}
#[derive(Facet)]
struct Bag<'a> {
    s: &'a str,
    all: Wide,
}
type Wide = (u8, u16, u32, u64, i8, i16, i32, i64, bool, f32, f64, String);
impl See for Wide {
    fn any() -> Self {
        (See::any(), See::any(), See::any(), See::any(), See::any(), See::any(), See::any(), See::any(), See::any(), See::any(), See::any(), See::any())
    }
    fn see(&self, p: Peek<'_>) {
        here(p, self);
        let s = p.into_struct().unwrap();
        check(s.def().kind == StructKind::Tuple, "a tuple is shown as another kind");
        fields!(p, self, s.field_count(), |i: usize| s.field(i).ok(), |n: &str| s.field_by_name(n).ok(), s.fields(),
            [("0", self.0), ("1", self.1), ("2", self.2), ("3", self.3), ("4", self.4), ("5", self.5), ("6", self.6), ("7", self.7), ("8", self.8), ("9", self.9), ("10", self.10), ("11", self.11)]);
    }
}
impl See for Bag<'static> {
    fn any() -> Self {
        Bag { s: "bag", all: See::any() }
    }
    fn see(&self, p: Peek<'_>) {
        here(p, self);
        let s = p.into_struct().unwrap();
        fields!(p, self, s.field_count(), |i: usize| s.field(i).ok(), |n: &str| s.field_by_name(n).ok(), s.fields(), [("s", self.s), ("all", self.all)]);
    }
}
macro_rules! tup {
    ($($t:ident $n:tt $s:literal)+) => {
        impl<$($t: See),+> See for ($($t,)+) {
            fn any() -> Self { ($($t::any(),)+) }
            fn see(&self, p: Peek<'_>) {
                here(p, self);
                let s = p.into_struct().unwrap();
                check(s.def().kind == StructKind::Tuple, "a tuple is shown as another kind");
                fields!(p, self, s.field_count(), |i: usize| s.field(i).ok(), |n: &str| s.field_by_name(n).ok(), s.fields(), [$(($s, self.$n)),+]);
            }
        }
    };
}
tup!(A 0 "0");
tup!(A 0 "0" B 1 "1");
tup!(A 0 "0" B 1 "1" C 2 "2");
tup!(A 0 "0" B 1 "1" C 2 "2" D 3 "3");
tup!(A 0 "0" B 1 "1" C 2 "2" D 3 "3" E 4 "4");
tup!(A 0 "0" B 1 "1" C 2 "2" D 3 "3" E 4 "4" F 5 "5");
tup!(A 0 "0" B 1 "1" C 2 "2" D 3 "3" E 4 "4" F 5 "5" G 6 "6");
tup!(A 0 "0" B 1 "1" C 2 "2" D 3 "3" E 4 "4" F 5 "5" G 6 "6" H 7 "7");
tup!(A 0 "0" B 1 "1" C 2 "2" D 3 "3" E 4 "4" F 5 "5" G 6 "6" H 7 "7" I 8 "8");
tup!(A 0 "0" B 1 "1" C 2 "2" D 3 "3" E 4 "4" F 5 "5" G 6 "6" H 7 "7" I 8 "8" J 9 "9");
tup!(A 0 "0" B 1 "1" C 2 "2" D 3 "3" E 4 "4" F 5 "5" G 6 "6" H 7 "7" I 8 "8" J 9 "9" K 10 "10");

// ---------------------------------------------------------------- enums
macro_rules! see_enum {
    ($t:ident $(<$g:ident>)?, $repr:expr, $n:expr, [$($i:literal $d:tt $name:literal $kind:ident $pat:pat => [$(($f:literal $x:ident))*] = $any:expr;)*]) => {
        impl$(<$g: See + 'static>)? See for $t$(<$g>)? {
            fn any() -> Self {
                let k = choose($n);
                $( if k == $i { return $any; } )*
                unreachable!()
            }
            fn see(&self, p: Peek<'_>) {
                here(p, self);
                let e = p.into_enum().unwrap();
                let repr: Option<EnumRepr> = $repr;
                if let Some(r) = repr {
                    check(e.repr() == r, "an enum's representation is not its own");
                }
                check(e.variant_count() == $n && e.variants().len() == $n && e.def().variants.len() == $n, "an enum has other variants than declared");
                check(e.variant_name($n).is_none(), "a variant that does not exist is shown");
                $( check(e.variant_name($i) == Some($name) && e.variants()[$i].discriminant == $d, "a variant has another name or discriminant than declared"); )*
                match self {
                    $( $pat => {
                        check(e.variant_index() == $i && e.variant_name_active() == $name && e.discriminant() == $d, "another variant is shown as the active one");
                        check(e.active_variant().name == $name && e.active_variant().data.kind == StructKind::$kind, "another variant is shown as the active one");
                        fields!(p, self, e.active_variant().data.fields.len(), |i: usize| e.field(i), |n: &str| e.field_by_name(n), e.fields(), [$(($f, $x)),*]);
                        let mut i = 0;
                        $( check(e.field_index($f) == Some(i), "a variant's field has another index"); i += 1; let _ = $x; )*
                        let _ = i;
                        check(e.field_index("nope").is_none(), "a field that does not exist has an index");
                    } )*
                }
            }
        }
    };
}
mod eu8 {
    use super::*;
    #[derive(Facet)]
    #[repr(u8)]
    pub enum T {
        Unit,
        Tup(u8, String),
        St { x: u64, y: u8 } = 0xc8,
        Last,
    }
    see_enum!(T, Some(EnumRepr::U8), 4, [
        0 0 "Unit" Unit T::Unit => [] = T::Unit;
        1 1 "Tup" Tuple T::Tup(a, b) => [("_0" a) ("_1" b)] = T::Tup(any_u8(), See::any());
        2 200 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u64(), y: any_u8() };
        3 201 "Last" Unit T::Last => [] = T::Last;
    ]);
}
mod eu16 {
    use super::*;
    #[derive(Facet)]
    #[repr(u16)]
    pub enum T {
        Unit,
        Tup(u8, String),
        St { x: u64, y: u8 } = 0xfe00,
        Last,
    }
    see_enum!(T, Some(EnumRepr::U16), 4, [
        0 0 "Unit" Unit T::Unit => [] = T::Unit;
        1 1 "Tup" Tuple T::Tup(a, b) => [("_0" a) ("_1" b)] = T::Tup(any_u8(), See::any());
        2 65024 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u64(), y: any_u8() };
        3 65025 "Last" Unit T::Last => [] = T::Last;
    ]);
}
mod eu32 {
    use super::*;
    #[derive(Facet)]
    #[repr(u32)]
    pub enum T {
        Unit,
        Tup(u8, String),
        St { x: u64, y: u8 } = 0xfff10000,
        Last,
    }
    see_enum!(T, Some(EnumRepr::U32), 4, [
        0 0 "Unit" Unit T::Unit => [] = T::Unit;
        1 1 "Tup" Tuple T::Tup(a, b) => [("_0" a) ("_1" b)] = T::Tup(any_u8(), See::any());
        2 4293984256 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u64(), y: any_u8() };
        3 4293984257 "Last" Unit T::Last => [] = T::Last;
    ]);
}
mod eu64 {
    use super::*;
    #[derive(Facet)]
    #[repr(u64)]
    pub enum T {
        Unit,
        Tup(u8, String),
        St { x: u64, y: u8 } = 0x7fff_ffff_0000_0000,
        Last,
    }
    see_enum!(T, Some(EnumRepr::U64), 4, [
        0 0 "Unit" Unit T::Unit => [] = T::Unit;
        1 1 "Tup" Tuple T::Tup(a, b) => [("_0" a) ("_1" b)] = T::Tup(any_u8(), See::any());
        2 9223372032559808512 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u64(), y: any_u8() };
        3 9223372032559808513 "Last" Unit T::Last => [] = T::Last;
    ]);
}
mod eus {
    use super::*;
    #[derive(Facet)]
    #[repr(usize)]
    pub enum T {
        Unit,
        Tup(u8, String),
        St { x: u64, y: u8 } = 0x100000000,
        Last,
    }
    see_enum!(T, Some(EnumRepr::USize), 4, [
        0 0 "Unit" Unit T::Unit => [] = T::Unit;
        1 1 "Tup" Tuple T::Tup(a, b) => [("_0" a) ("_1" b)] = T::Tup(any_u8(), See::any());
        2 4294967296 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u64(), y: any_u8() };
        3 4294967297 "Last" Unit T::Last => [] = T::Last;
    ]);
}
mod ei8 {
    use super::*;
    #[derive(Facet)]
    #[repr(i8)]
    pub enum T {
        Unit,
        Tup(u8, String),
        St { x: u64, y: u8 } = 0x7e,
        Last,
    }
    see_enum!(T, Some(EnumRepr::I8), 4, [
        0 0 "Unit" Unit T::Unit => [] = T::Unit;
        1 1 "Tup" Tuple T::Tup(a, b) => [("_0" a) ("_1" b)] = T::Tup(any_u8(), See::any());
        2 126 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u64(), y: any_u8() };
        3 127 "Last" Unit T::Last => [] = T::Last;
    ]);
}
mod ei16 {
    use super::*;
    #[derive(Facet)]
    #[repr(i16)]
    pub enum T {
        Unit,
        Tup(u8, String),
        St { x: u64, y: u8 } = 0x100,
        Last,
    }
    see_enum!(T, Some(EnumRepr::I16), 4, [
        0 0 "Unit" Unit T::Unit => [] = T::Unit;
        1 1 "Tup" Tuple T::Tup(a, b) => [("_0" a) ("_1" b)] = T::Tup(any_u8(), See::any());
        2 256 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u64(), y: any_u8() };
        3 257 "Last" Unit T::Last => [] = T::Last;
    ]);
}
mod ei32 {
    use super::*;
    #[derive(Facet)]
    #[repr(i32)]
    pub enum T {
        Unit,
        Tup(u8, String),
        St { x: u64, y: u8 } = 511,
        Last,
    }
    see_enum!(T, Some(EnumRepr::I32), 4, [
        0 0 "Unit" Unit T::Unit => [] = T::Unit;
        1 1 "Tup" Tuple T::Tup(a, b) => [("_0" a) ("_1" b)] = T::Tup(any_u8(), See::any());
        2 511 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u64(), y: any_u8() };
        3 512 "Last" Unit T::Last => [] = T::Last;
    ]);
}
mod ei64 {
    use super::*;
    #[derive(Facet)]
    #[repr(i64)]
    pub enum T {
        Unit,
        Tup(u8, String),
        St { x: u64, y: u8 } = 0x10000000000,
        Last,
    }
    see_enum!(T, Some(EnumRepr::I64), 4, [
        0 0 "Unit" Unit T::Unit => [] = T::Unit;
        1 1 "Tup" Tuple T::Tup(a, b) => [("_0" a) ("_1" b)] = T::Tup(any_u8(), See::any());
        2 1099511627776 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u64(), y: any_u8() };
        3 1099511627777 "Last" Unit T::Last => [] = T::Last;
    ]);
}
mod eis {
    use super::*;
    #[derive(Facet)]
    #[repr(isize)]
    pub enum T {
        Unit,
        Tup(u8, String),
        St { x: u64, y: u8 } = 0x7fff000000000000,
        Last,
    }
    see_enum!(T, Some(EnumRepr::ISize), 4, [
        0 0 "Unit" Unit T::Unit => [] = T::Unit;
        1 1 "Tup" Tuple T::Tup(a, b) => [("_0" a) ("_1" b)] = T::Tup(any_u8(), See::any());
        2 9223090561878065152 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u64(), y: any_u8() };
        3 9223090561878065153 "Last" Unit T::Last => [] = T::Last;
    ]);
}
mod ec {
    use super::*;
    #[derive(Facet)]
    #[repr(C)]
    pub enum T {
        Tup(u8, u16, String),
        Unit,
        St { x: u16, y: Mixed },
        One(u64),
    }
    see_enum!(T, None, 4, [
        0 0 "Tup" Tuple T::Tup(a, b, c) => [("_0" a) ("_1" b) ("_2" c)] = T::Tup(any_u8(), any_u16(), See::any());
        1 1 "Unit" Unit T::Unit => [] = T::Unit;
        2 2 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u16(), y: See::any() };
        3 3 "One" Tuple T::One(a) => [("_0" a)] = T::One(any_u64());
    ]);
}
mod ecu8 {
    use super::*;
    #[derive(Facet)]
    #[repr(C, u8)]
    pub enum T {
        Tup(u8, u16, String),
        Unit = 5,
        St { x: u16, y: Mixed },
        One(u64),
    }
    see_enum!(T, Some(EnumRepr::U8), 4, [
        0 0 "Tup" Tuple T::Tup(a, b, c) => [("_0" a) ("_1" b) ("_2" c)] = T::Tup(any_u8(), any_u16(), See::any());
        1 5 "Unit" Unit T::Unit => [] = T::Unit;
        2 6 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u16(), y: See::any() };
        3 7 "One" Tuple T::One(a) => [("_0" a)] = T::One(any_u64());
    ]);
}
mod eci64 {
    use super::*;
    #[derive(Facet)]
    #[repr(C, i64)]
    pub enum T {
        Tup(u8, u16, String),
        Unit = 5,
        St { x: u16, y: Mixed },
        One(u64),
    }
    see_enum!(T, Some(EnumRepr::I64), 4, [
        0 0 "Tup" Tuple T::Tup(a, b, c) => [("_0" a) ("_1" b) ("_2" c)] = T::Tup(any_u8(), any_u16(), See::any());
        1 5 "Unit" Unit T::Unit => [] = T::Unit;
        2 6 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u16(), y: See::any() };
        3 7 "One" Tuple T::One(a) => [("_0" a)] = T::One(any_u64());
    ]);
}
mod eu8c {
    use super::*;
    #[derive(Facet)]
    #[repr(u8, C)]
    pub enum T {
        Tup(u8, u16, String),
        Unit = 5,
        St { x: u16, y: Mixed },
        One(u64),
    }
    see_enum!(T, Some(EnumRepr::U8), 4, [
        0 0 "Tup" Tuple T::Tup(a, b, c) => [("_0" a) ("_1" b) ("_2" c)] = T::Tup(any_u8(), any_u16(), See::any());
        1 5 "Unit" Unit T::Unit => [] = T::Unit;
        2 6 "St" Struct T::St { x, y } => [("x" x) ("y" y)] = T::St { x: any_u16(), y: See::any() };
        3 7 "One" Tuple T::One(a) => [("_0" a)] = T::One(any_u64());
    ]);
}

mod ecw {
    use super::*;
    #[derive(Facet)]
    #[repr(C)]
    pub enum T {
        A,
        B,
        C = 0x1_0000_0000,
        D,
    }
    see_enum!(T, Some(EnumRepr::U64), 4, [
        0 0 "A" Unit T::A => [] = T::A;
        1 1 "B" Unit T::B => [] = T::B;
        2 4294967296 "C" Unit T::C => [] = T::C;
        3 4294967297 "D" Unit T::D => [] = T::D;
    ]);
}
/// Negative discriminants: the derive macro doesn't read them, a hand-written shape has them
macro_rules! neg {
    ($m:ident $int:ident $repr:ident $d:tt) => {
        mod $m {
            use super::*;
            #[repr($int)]
            pub enum T {
                Unit = 1,
                Neg(u8) = -2,
                Low = $d,
            }
            const F: &[facet_core::Field] = &[facet_core::Field::builder()
                .name("_0")
                .shape(|| u8::SHAPE)
                .offset(size_of::<$int>())
                .flags(facet_core::FieldFlags::EMPTY)
                .attributes(&[])
                .build()];
            const V: &[facet_core::Variant] = &[
                facet_core::Variant::builder().name("Unit").discriminant(1).fields(facet_core::Struct::builder().unit().build()).build(),
                facet_core::Variant::builder().name("Neg").discriminant(-2).fields(facet_core::Struct::builder().tuple().fields(F).build()).build(),
                facet_core::Variant::builder().name("Low").discriminant($d).fields(facet_core::Struct::builder().unit().build()).build(),
            ];
            unsafe impl Facet for T {
                const SHAPE: &'static facet_core::Shape = &const {
                    facet_core::Shape::builder()
                        .id(facet_core::ConstTypeId::of::<Self>())
                        .layout(core::alloc::Layout::new::<Self>())
                        .vtable(facet_core::value_vtable!(Self, |f, _opts| core::fmt::Write::write_str(f, "T")))
                        .def(Def::Enum(facet_core::EnumDef::builder().variants(V).repr(EnumRepr::$repr).build()))
                        .build()
                };
            }
            see_enum!(T, Some(EnumRepr::$repr), 3, [
                0 1 "Unit" Unit T::Unit => [] = T::Unit;
                1 (-2) "Neg" Tuple T::Neg(a) => [("_0" a)] = T::Neg(any_u8());
                2 $d "Low" Unit T::Low => [] = T::Low;
            ]);
        }
    };
}
neg!(ni8 i8 I8 (-128));
neg!(ni16 i16 I16 (-32768));
neg!(ni32 i32 I32 (-2147483648));
neg!(ni64 i64 I64 (-9223372036854775808));
neg!(nis isize ISize (-4294967296));

#[derive(Facet)]
#[repr(u8)]
enum GenE<T: 'static> {
    A(T),
    B { t: Option<T>, u: u8 },
}
see_enum!(GenE<T>, Some(EnumRepr::U8), 2, [
    0 0 "A" Tuple GenE::A(a) => [("_0" a)] = GenE::A(T::any());
    1 1 "B" Struct GenE::B { t, u } => [("t" t) ("u" u)] = GenE::B { t: See::any(), u: any_u8() };
]);
#[derive(Facet)]
#[repr(u8)]
enum Single {
    Only { e: eu16::T },
}
see_enum!(Single, Some(EnumRepr::U8), 1, [
    0 0 "Only" Struct Single::Only { e } => [("e" e)] = Single::Only { e: See::any() };
]);

// ---------------------------------------------------------------- containers
impl<T: See> See for Vec<T> {
    fn any() -> Self {
        (0..choose(3)).map(|_| T::any()).collect()
    }
    fn see(&self, p: Peek<'_>) {
        here(p, self);
        let l = p.into_list().unwrap();
        check(l.len() == self.len() && l.is_empty() == self.is_empty(), "a list is shown with another length");
        check(l.def().t() == T::SHAPE, "a list is shown with other items");
        let mut it = l.iter();
        check(it.size_hint() == (self.len(), Some(self.len())), "a list's iterator announces another length");
        for (i, x) in self.iter().enumerate() {
            x.see(l.get(i).unwrap());
            match it.next() {
                Some(q) => x.see(q),
                None => fail("a list's iterator ends early"),
            }
            check(it.len() == self.len() - i - 1, "a list's iterator announces another length");
        }
        check(it.next().is_none() && it.next().is_none() && it.len() == 0, "a list's iterator ends late");
        check(l.get(self.len()).is_none() && l.get(usize::MAX).is_none(), "an item that does not exist is shown");
    }
}
impl<T: See> See for Option<T> {
    fn any() -> Self {
        any_bool().then(T::any)
    }
    fn see(&self, p: Peek<'_>) {
        here(p, self);
        let o = p.into_option().unwrap();
        check(o.is_some() == self.is_some() && o.is_none() == self.is_none(), "an option is shown as the other");
        check(o.def().t() == T::SHAPE, "an option is shown with another payload");
        match (self, o.value()) {
            (Some(x), Some(q)) => x.see(q),
            (None, None) => {}
            _ => fail("an option is shown with another payload"),
        }
    }
}
macro_rules! see_map {
    ($m:ident, $($b:tt)*) => {
        impl<K: See + Clone + 'static + $($b)*, V: See + 'static> See for $m<K, V> {
            fn any() -> Self {
                let mut m = Self::new();
                for _ in 0..choose(3) {
                    m.insert(K::any(), V::any());
                }
                m
            }
            fn see(&self, p: Peek<'_>) {
                here(p, self);
                let m = p.into_map().unwrap();
                check(m.len() == self.len() && m.is_empty() == self.is_empty(), "a map is shown with another length");
                check(m.def().k == K::SHAPE && m.def().v == V::SHAPE, "a map is shown with other keys or values");
                let mut it = m.iter();
                for (k, v) in self {
                    match it.next() {
                        Some((a, b)) => {
                            k.see(a);
                            v.see(b);
                        }
                        None => fail("a map's iterator ends early"),
                    }
                }
                check(it.next().is_none(), "a map's iterator ends late");
                let k = K::any();
                check(m.contains_key(&k) == self.contains_key(&k), "a map is shown with other keys");
                match (m.get(&k), self.get(&k)) {
                    (Some(q), Some(v)) => v.see(q),
                    (None, None) => {}
                    _ => fail("a map is shown with other keys"),
                }
                check(!m.contains_key(&Alien { z: 1 }) && m.get(&Alien { z: 1 }).is_none(), "a key of another type is found");
            }
        }
    };
}
see_map!(BTreeMap, Ord);
see_map!(HashMap, Eq + core::hash::Hash);
fn see<T: See>() {
    let v = T::any();
    v.see(Peek::new(&v));
    witness(0);
}

// ---------------------------------------------------------------- comparing, hashing and printing through Peek
fn traits<T: See>() {
    let (a, b) = (T::any(), T::any());
    let (p, q) = (Peek::new(&a), Peek::new(&b));
    let v = T::SHAPE.vtable;
    let (x, y) = (p.data(), q.data());
    let eq = v.eq.map(|f| unsafe { f(x, y) });
    check(p.eq(&q) == eq, "comparing Peeks differs from the shape's eq");
    check(PartialEq::eq(&p, &q) == eq.unwrap_or(false), "== on Peeks differs from the shape's eq");
    let po = v.partial_ord.and_then(|f| unsafe { f(x, y) });
    check(p.partial_cmp(&q) == po, "ordering Peeks differs from the shape's partial_ord");
    check(PartialOrd::partial_cmp(&p, &q) == po, "ordering Peeks differs from the shape's partial_ord");
    check((p < q) == (po == Some(Ordering::Less)), "ordering Peeks differs from the shape's partial_ord");
    let z = Alien { z: any_u8() };
    let r = Peek::new(&z);
    check(p.eq(&r).is_none() && p != r && p.partial_cmp(&r).is_none() && PartialOrd::partial_cmp(&p, &r).is_none(), "values of different shapes compare");
    check(!p.ptr_eq(&q) || core::mem::size_of::<T>() == 0, "different values are taken for identical");
    let mut h = Rec::default();
    let did = p.hash(&mut h);
    check(did == v.hash.is_some(), "hashing succeeds for what has no hash, or the other way round");
    if did {
        let w = feed(&a).unwrap();
        check(h.0.len() == w.len() && h.0 == w, "hashing a Peek differs from hashing the value");
        let mut g = Rec::default();
        core::hash::Hash::hash(&p, &mut g);
        check(g.0.len() == w.len() && g.0 == w, "hashing a Peek differs from hashing the value");
    } else {
        check(h.0.is_empty(), "hashing what has no hash feeds something");
    }
    witness(0);
}
macro_rules! print {
    ($v:expr, $t:ty, $dis:expr, $dbg:expr) => {{
        let v: $t = $v;
        let p = Peek::new(&v);
        let (dis, dbg): (String, String) = ($dis(&v), $dbg(&v));
        check_eq_bytes(format!("{}", p).as_bytes(), dis.as_bytes(), "displaying a Peek differs from displaying the value");
        check_eq_bytes(format!("{:?}", p).as_bytes(), dbg.as_bytes(), "debugging a Peek differs from debugging the value");
        witness(0);
    }};
}
fn print(i: u64) {
    match i {
        0 => print!(any_u8(), u8, |v: &u8| format!("{v}"), |v: &u8| format!("{v:?}")),
        1 => print!(<String as See>::any(), String, |v: &String| format!("{v}"), |v: &String| format!("{v:?}")),
        2 => print!(Alien { z: 1 }, Alien, |_: &Alien| "⟨Alien⟩".to_string(), |_: &Alien| "⟨Alien⟩".to_string()),
        3 => print!(vec![any_u8()], Vec<u8>, |_: &Vec<u8>| "⟨Vec<u8>⟩".to_string(), |v: &Vec<u8>| format!("{v:?}")),
        4 => print!((), (), |_: &()| "⟨()⟩".to_string(), |v: &()| format!("{v:?}")),
        _ => print!(Some(any_bool()), Option<bool>, |_: &Option<bool>| "⟨Option<bool>⟩".to_string(), |v: &Option<bool>| format!("{v:?}")),
    }
}
#[no_mangle]
pub extern "C" fn peek() {
    let f = param(1);
    macro_rules! go {
        ($($i:literal $t:ty;)*) => {
            match param(0) {
                $( $i => if f == 0 { see::<$t>() } else { traits::<$t>() }, )*
                _ => {}
            }
        };
    }
    go! {
        0 u8; 1 u16; 2 u32; 3 u64; 4 usize; 5 i8; 6 i16; 7 i32; 8 i64; 9 isize; 10 f32; 11 f64; 12 bool; 13 (); 14 &'static str; 15 Cow<'static, str>;
        16 IpAddr; 17 Ipv4Addr; 18 Ipv6Addr; 19 SocketAddr; 20 facet_core::ConstTypeId; 21 String; 22 u128; 23 char;
        24 Mixed; 25 Packed; 26 Pair; 27 Nil; 28 Gen<u16, 3>; 29 Bag<'static>; 30 Wide;
        31 (u8,); 32 (u8, String); 33 (u8, u32, u8); 34 (u8, u16, u32, u64); 35 (u64, u8, u32, u8, u16); 36 (u8, u16, u8, u32, u8, u64); 37 (u8, u8, u16, u8, u8, u32, u8);
        38 (u8, u16, u32, u8, u16, u32, u8, u16); 39 (u64, u8, u64, u8, u64, u8, u64, u8, u64); 40 (u8, u8, u8, u8, u8, u8, u8, u8, u8, u16); 41 (u8, u16, u8, u16, u8, u16, u8, u16, u8, u16, u8);
        42 eu8::T; 43 eu16::T; 44 eu32::T; 45 eu64::T; 46 eus::T; 47 ei8::T; 48 ei16::T; 49 ei32::T; 50 ei64::T; 51 eis::T; 52 ec::T; 53 ecu8::T; 54 eci64::T; 55 eu8c::T;
        56 GenE<u32>; 57 Single; 58 Vec<u8>; 59 Vec<Mixed>; 60 Vec<Vec<u16>>; 61 Vec<()>; 62 Option<u8>; 63 Option<Option<String>>; 64 Option<Pair>;
        65 BTreeMap<u8, u16>; 66 BTreeMap<String, Vec<u8>>; 67 HashMap<u8, Mixed>; 68 HashMap<String, u8>; 69 Vec<eu8::T>; 70 Option<eu32::T>; 71 (Option<u8>, Vec<u8>, Nil);
        72 ecw::T; 73 ni8::T; 74 ni16::T; 75 ni32::T; 76 ni64::T; 77 nis::T;
    }
}
#[no_mangle]
pub extern "C" fn peek_print() {
    print(param(0))
}
