//! C02: the shapes the derive macro generates describe the types; C04: invariants.
#![allow(dead_code, clippy::all)]
mod inv;
mod num;
mod types;
use facet::{ConstTypeId, Def, EnumRepr, Facet, Field, FieldAttribute, FieldFlags, Shape, ShapeAttribute, StructKind};
use symx_api::*;

/// what a field is
pub struct F {
    pub name: &'static str,
    pub off: usize,
    pub id: ConstTypeId,
    pub size: usize,
    pub attrs: &'static [&'static str],
    pub doc: &'static [&'static str],
}
/// what a variant is
pub struct Vt {
    pub name: &'static str,
    pub disc: i128,
    pub kind: StructKind,
    pub doc: &'static [&'static str],
    pub fields: Vec<F>,
}
pub struct Spec {
    pub name: &'static str,
    pub doc: &'static [&'static str],
    pub attrs: &'static [&'static str],
    pub params: Vec<(&'static str, ConstTypeId)>,
}
pub fn idof<S, X>(_: fn(&S) -> &X) -> (ConstTypeId, usize) {
    (ConstTypeId::of::<X>(), size_of::<X>())
}
fn no_space(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn attr(a: &FieldAttribute) -> String {
    match a {
        FieldAttribute::Sensitive => "sensitive".into(),
        FieldAttribute::Rename(n) => format!("rename={n}"),
        FieldAttribute::Default(None) => "default".into(),
        FieldAttribute::Default(Some(_)) => "default=".into(),
        FieldAttribute::Arbitrary(s) => format!("+{}", no_space(s)),
        _ => "?".into(),
    }
}
fn pick(n: usize) -> Option<usize> {
    if n == 0 {
        return None;
    }
    Some(choose(n as u8) as usize)
}
fn field(f: &Field, w: &F) {
    check(f.name == w.name, "a field has another name");
    check(f.offset == w.off, "a field has another offset");
    check(f.shape().id == w.id, "a field has another type");
    check(f.shape().layout.size() == w.size, "a field has another size");
    check(f.doc == w.doc, "a field has another doc comment");
    check(f.attributes.len() == w.attrs.len(), "a field has more or fewer attributes");
    for (a, b) in f.attributes.iter().zip(w.attrs) {
        check(attr(a) == *b, "a field has another attribute");
    }
    check(f.flags.contains(FieldFlags::SENSITIVE) == w.attrs.contains(&"sensitive"), "a field is flagged as sensitive, or not, wrongly");
}
fn container<T: Facet>(s: &'static Shape, w: &Spec) {
    check(s.id == ConstTypeId::of::<T>(), "the shape has another id");
    check(s.layout == std::alloc::Layout::new::<T>(), "the shape has another layout");
    check(s.is_type::<T>(), "the shape is not the type's");
    let n = format!("{s}");
    check(n == w.name, "the shape has another name");
    check(s.doc == w.doc, "the type has another doc comment");
    check(s.attributes.len() == w.attrs.len(), "the type has more or fewer attributes");
    for (a, b) in s.attributes.iter().zip(w.attrs) {
        let a = match a {
            ShapeAttribute::DenyUnknownFields => "deny",
            ShapeAttribute::Default => "default",
            _ => "?",
        };
        check(a == *b, "the type has another attribute");
    }
    check(s.type_params.len() == w.params.len(), "the type has more or fewer type parameters");
    for (a, b) in s.type_params.iter().zip(&w.params) {
        check(a.name == b.0 && (a.shape)().id == b.1, "the type has another type parameter");
    }
}
pub fn structure<T: Facet>(w: Spec, kind: StructKind, fs: Vec<F>) {
    let s = T::SHAPE;
    container::<T>(s, &w);
    let Def::Struct(d) = s.def else { return fail("a struct isn't described as one") };
    check(d.kind == kind, "a struct of another kind");
    check(d.fields.len() == fs.len(), "a struct has more or fewer fields");
    if let Some(k) = pick(fs.len()) {
        field(&d.fields[k], &fs[k]);
    }
    witness(0);
    out(w.name.as_bytes());
}
fn repr(r: EnumRepr) -> (&'static str, usize, bool) {
    match r {
        EnumRepr::U8 => ("u8", 1, false),
        EnumRepr::U16 => ("u16", 2, false),
        EnumRepr::U32 => ("u32", 4, false),
        EnumRepr::U64 => ("u64", 8, false),
        EnumRepr::USize => ("usize", 8, false),
        EnumRepr::I8 => ("i8", 1, true),
        EnumRepr::I16 => ("i16", 2, true),
        EnumRepr::I32 => ("i32", 4, true),
        EnumRepr::I64 => ("i64", 8, true),
        EnumRepr::ISize => ("isize", 8, true),
        _ => ("?", 1, false),
    }
}
/// the discriminant of v, read as its shape says
fn tag(r: EnumRepr, v: *const u8) -> i128 {
    unsafe {
        match r {
            EnumRepr::U8 => *v as i128,
            EnumRepr::U16 => *(v as *const u16) as i128,
            EnumRepr::U32 => *(v as *const u32) as i128,
            EnumRepr::U64 | EnumRepr::USize => *(v as *const u64) as i128,
            EnumRepr::I8 => *(v as *const i8) as i128,
            EnumRepr::I16 => *(v as *const i16) as i128,
            EnumRepr::I32 => *(v as *const i32) as i128,
            EnumRepr::I64 | EnumRepr::ISize => *(v as *const i64) as i128,
            _ => -1,
        }
    }
}
/// `r`: the representation, empty if it is C's; `make(i)` is a value of variant i with arbitrary contents,
/// `vs` the variants with the addresses of the fields of that value as offsets
pub fn enumeration<T: Facet>(w: Spec, r: &str, n: u8, make: impl Fn(u8) -> T, variants: impl Fn(&T) -> (usize, Vec<Vt>)) {
    let s = T::SHAPE;
    container::<T>(s, &w);
    let Def::Enum(d) = s.def else { return fail("an enum isn't described as one") };
    let (rn, size, _) = repr(d.repr);
    if r.is_empty() {
        check(size <= size_of::<T>(), "the discriminant is larger than the enum");
    } else {
        check(rn == r, "an enum has another representation");
    }
    check(d.variants.len() == n as usize, "an enum has more or fewer variants");
    let i = choose(n);
    let v = make(i);
    let (at, vs) = variants(&v);
    check(at == i as usize, "harness: another variant");
    check(vs.len() == n as usize, "harness: more or fewer variants");
    // any variant
    let k = pick(vs.len()).unwrap();
    check(d.variants[k].name == vs[k].name, "a variant has another name");
    check(d.variants[k].discriminant as i128 == vs[k].disc, "a variant has another discriminant");
    check(d.variants[k].data.kind == vs[k].kind, "a variant of another kind");
    check(d.variants[k].doc == vs[k].doc, "a variant has another doc comment");
    check((k == at) == (tag(d.repr, &v as *const T as *const u8) == vs[k].disc), "a value doesn't have the discriminant of its variant");
    // the one it is
    if k == at {
        let base = &v as *const T as usize;
        check(d.variants[k].data.fields.len() == vs[k].fields.len(), "a variant has more or fewer fields");
        if let Some(j) = pick(vs[k].fields.len()) {
            let mut w = F { ..vs.into_iter().nth(k).unwrap().fields.into_iter().nth(j).unwrap() };
            w.off -= base;
            field(&d.variants[k].data.fields[j], &w);
        }
    }
    witness(0);
    out(w.name.as_bytes());
}
/// a field of a variant: where it is is its offset, for now
pub fn at<X>(name: &'static str, x: &X, attrs: &'static [&'static str], doc: &'static [&'static str]) -> F {
    F { name, off: x as *const X as usize, id: ConstTypeId::of::<X>(), size: size_of::<X>(), attrs, doc }
}
/// any discriminant: the variant the shape says it is, if any, is the native one
pub fn fieldless<T: Facet>(r: &str, bits: u32, table: &[(&'static str, i128)]) {
    let Def::Enum(d) = T::SHAPE.def else { return fail("an enum isn't described as one") };
    let (rn, size, signed) = repr(d.repr);
    if !r.is_empty() {
        check(rn == r, "an enum has another representation");
    }
    check(size * 8 == bits as usize, "the discriminant has another size");
    check(d.variants.len() == table.len(), "an enum has more or fewer variants");
    let mut raw = [0u8; 8];
    raw[..size].copy_from_slice(&bytes(size));
    let x = u64::from_le_bytes(raw);
    let x = if signed { ((x << (64 - bits)) as i64 >> (64 - bits)) as i128 } else { x as i128 };
    let shown = d.variants.iter().find(|v| v.discriminant as i128 == x).map(|v| v.name);
    let is = table.iter().find(|v| v.1 == x).map(|v| v.0);
    check(shown == is, "a discriminant denotes another variant");
    witness(shown.is_some() as u32);
    out(shown.unwrap_or("none").as_bytes());
}
symx_api::entries!(shape_struct, shape_swallowed, shape_enum, shape_disc, inv_build, inv_json, inv_drop, inv_nested, put_num, wide);
#[no_mangle]
pub extern "C" fn shape_struct() {
    types::structs(param(0))
}
#[no_mangle]
pub extern "C" fn shape_swallowed() {
    types::swallowed()
}
#[no_mangle]
pub extern "C" fn shape_enum() {
    types::enums(param(0))
}
#[no_mangle]
pub extern "C" fn shape_disc() {
    types::discs(param(0))
}
#[no_mangle]
pub extern "C" fn inv_build() {
    inv::build(param(0))
}
#[no_mangle]
pub extern "C" fn inv_json() {
    inv::json(param(0), param(1) as usize)
}
#[no_mangle]
pub extern "C" fn inv_drop() {
    inv::drops(param(0))
}
#[no_mangle]
pub extern "C" fn inv_nested() {
    inv::nested(param(0))
}
#[no_mangle]
pub extern "C" fn put_num() {
    num::put(param(0), param(1), param(2))
}
#[no_mangle]
pub extern "C" fn wide() {
    num::wide(param(0))
}
