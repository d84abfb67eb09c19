//! Every function of a value vtable does what the native trait does.
use crate::native::*;
use crate::dispatch;
use core::marker::PhantomData;
use core::mem::MaybeUninit;
use facet_core::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::num::*;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Weak};
use symx_api::*;

fn p<T>(v: &T) -> PtrConst<'_> {
    PtrConst::new(v as *const T)
}
fn agree<A: PartialEq>(got: Option<A>, want: Option<A>, m: &str) {
    if let Some(g) = got {
        match want {
            Some(w) => {
                witness(0);
                check(g == w, m)
            }
            None => fail("a trait the type lacks is in its vtable"),
        }
    }
}
fn cmp<T: Native>() {
    let (a, b) = (T::any(), T::any());
    let v = T::SHAPE.vtable;
    agree(v.eq.map(|f| unsafe { f(p(&a), p(&b)) }), a.peq(&b), "eq differs from PartialEq");
    agree(v.partial_ord.map(|f| unsafe { f(p(&a), p(&b)) }), a.pcmp(&b), "partial_ord differs from PartialOrd");
    agree(v.ord.map(|f| unsafe { f(p(&a), p(&b)) }), a.tcmp(&b), "ord differs from Ord");
    if v.eq.is_none() && v.partial_ord.is_none() && v.ord.is_none() {
        witness(0);
    }
    if let Some(h) = feed(&a) {
        let g = feed(&b).unwrap();
        match a.hsh() {
            Some(w) => check_eq_bytes(&h, &w, "hash feeds other bytes than Hash"),
            None => {}
        }
        if a.peq(&b) == Some(true) {
            check(h.len() == g.len() && h == g, "equal values hash differently");
        }
    }
}
fn claims<T: Native>() {
    let (s, v, h) = (T::SHAPE, T::SHAPE.vtable, T::has());
    check(s.layout == core::alloc::Layout::new::<T>(), "the layout is not the type's");
    check(s.id == ConstTypeId::of::<T>(), "the id is not the type's");
    let c = |got: bool, want: bool, m: &str| {
        check(!got || want, m);
        if T::CLAIMS == Claims::Exact {
            check(got || !want, "a trait of the type is missing from its vtable");
        }
    };
    if !matches!(s.def, Def::Array(_)) {
        c(v.display.is_some(), h.display, "claims Display");
    }
    c(v.debug.is_some(), h.debug, "claims Debug");
    c(v.default_in_place.is_some(), h.default, "claims Default");
    c(v.clone_into.is_some(), h.clone, "claims Clone");
    c(v.eq.is_some(), h.partial_eq, "claims PartialEq");
    c(v.partial_ord.is_some(), h.partial_ord, "claims PartialOrd");
    c(v.ord.is_some(), h.ord, "claims Ord");
    c(v.hash.is_some(), h.hash || matches!(s.def, Def::Map(_)), "claims Hash");
    if !matches!(s.def, Def::Option(_)) {
        c(v.parse.is_some(), h.from_str, "claims FromStr");
    }
    let exact = T::EXACT_MARKERS;
    let c = |got: bool, want: bool, m: &str| {
        check(!got || want, m);
        if exact {
            check(got || !want, "a marker trait of the type is missing from its vtable");
        }
    };
    c(v.is_eq(), h.eq, "claims Eq");
    c(v.is_send(), h.send, "claims Send");
    c(v.is_sync(), h.sync, "claims Sync");
    c(v.is_copy(), h.copy, "claims Copy");
    c(v.is_unpin(), h.unpin, "claims Unpin");
    let q = |a: bool, b: bool| check(a == b, "the shape and its vtable disagree on a trait");
    q(s.is_display(), v.display.is_some());
    q(s.is_debug(), v.debug.is_some());
    q(s.is_default(), v.default_in_place.is_some());
    q(s.is_clone(), v.clone_into.is_some());
    q(s.is_partial_eq(), v.eq.is_some());
    q(s.is_partial_ord(), v.partial_ord.is_some());
    q(s.is_ord(), v.ord.is_some());
    q(s.is_hash(), v.hash.is_some());
    q(s.is_from_str(), v.parse.is_some());
    q(s.is_eq(), v.is_eq());
    q(s.is_send(), v.is_send());
    q(s.is_sync(), v.is_sync());
    q(s.is_copy(), v.is_copy());
    check(core::mem::needs_drop::<T>() as u8 <= v.drop_in_place.is_some() as u8, "values are never dropped");
    check(format!("{}", s) == T::NAME, "the type's name is not what is written");
}
/// what a vtable function writes
struct Fmt<'a, T>(&'a T, DisplayFn);
impl<T> core::fmt::Display for Fmt<'_, T> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        unsafe { (self.1)(p(self.0), f) }
    }
}
fn text<T>(v: &T, f: DisplayFn) -> Option<String> {
    let mut s = String::new();
    use core::fmt::Write;
    write!(s, "{}", Fmt(v, f)).ok()?;
    Some(s)
}
fn fmt<T: Native>() {
    claims::<T>();
    let a = T::few();
    let v = T::SHAPE.vtable;
    if core::mem::size_of::<T>() == 16 && T::SHAPE.is_copy() && T::SHAPE.is_display() && T::NAME.ends_with("128") {
        // 256-bit arithmetic in std: out of reach
        return witness(0);
    }
    if let Some(f) = v.debug {
        match (text(&a, f), a.dbg()) {
            (Some(g), Some(w)) => check_eq_bytes(g.as_bytes(), w.as_bytes(), "debug differs from Debug"),
            (_, None) => fail("debug without Debug"),
            (None, _) => fail("debug fails"),
        }
    }
    if let Some(f) = v.display {
        if matches!(T::SHAPE.def, Def::Array(_)) {
            check(text(&a, f).is_some() == a.dbg().is_some(), "displaying an array fails");
        } else {
            let g = Some(text(&a, f).unwrap_or("<failed>".into()));
            match (g, a.dis()) {
                (Some(g), Some(w)) => check_eq_bytes(g.as_bytes(), w.as_bytes(), "display differs from Display"),
                (_, None) => fail("display without Display"),
                (None, _) => fail("display fails"),
            }
        }
    }
    witness(0);
}
fn own<T: Native>() {
    let v = T::SHAPE.vtable;
    witness(0);
    if let Some(f) = v.clone_into {
        let a = T::any();
        let mut m = MaybeUninit::<T>::uninit();
        let want = a.cln();
        let b = unsafe {
            f(p(&a), PtrUninit::from_maybe_uninit(&mut m));
            m.assume_init()
        };
        check(a.same(&b), "a clone differs from its source");
        if let Some(w) = want {
            check(w.same(&b), "cloning differs from Clone");
        }
        // neither is disturbed by dropping the other
        if any_bool() {
            drop(a);
            check(b.same(&b) || !b.same(&b), "");
            drop(b);
        }
    }
    if let Some(f) = v.default_in_place {
        let mut m = MaybeUninit::<T>::uninit();
        let b = unsafe {
            f(PtrUninit::from_maybe_uninit(&mut m));
            m.assume_init()
        };
        match T::dfl() {
            Some(w) => check(b.same(&w), "default differs from Default"),
            None => fail("default without Default"),
        }
    }
    if let Some(f) = v.drop_in_place {
        let mut m = MaybeUninit::new(T::any());
        let q = unsafe { f(PtrMut::new(m.as_mut_ptr())) };
        check(q.as_byte_ptr() == m.as_ptr() as *const u8, "dropping hands back another place");
    }
}
fn parse<T: Native>() {
    let v = T::SHAPE.vtable;
    let Some(f) = v.parse else {
        witness(0);
        return;
    };
    let n = param(1) as usize;
    let s = String::from_utf8(bytes(n));
    assume(s.is_ok());
    let s = s.unwrap();
    let mut m = MaybeUninit::<T>::uninit();
    let r = unsafe { f(&s, PtrUninit::from_maybe_uninit(&mut m)) };
    let got = match r {
        Ok(_) => Some(unsafe { m.assume_init() }),
        Err(_) => None,
    };
    let Some(want) = T::prs(&s) else { fail("parse without FromStr") };
    match (got, want) {
        (Some(g), Some(w)) => {
            witness(0);
            check(g.same(&w), "parse differs from FromStr")
        }
        (None, None) => witness(1),
        (Some(_), None) => fail("parse accepts what FromStr refuses"),
        (None, Some(_)) => fail("parse refuses what FromStr accepts"),
    }
}
#[no_mangle]
pub extern "C" fn vt_cmp() {
    let i = param(0);
    dispatch!(i, cmp)
}
#[no_mangle]
pub extern "C" fn vt_fmt() {
    let i = param(0);
    dispatch!(i, fmt)
}
#[no_mangle]
pub extern "C" fn vt_own() {
    let i = param(0);
    dispatch!(i, own)
}
#[no_mangle]
pub extern "C" fn vt_parse() {
    let i = param(0);
    dispatch!(i, parse)
}
