//! The functions that containers, options and smart pointers expose through their shapes.
use core::mem::MaybeUninit;
use facet::Facet;
use facet_core::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Weak};
use symx_api::*;

fn p<T>(v: &T) -> PtrConst<'_> {
    PtrConst::new(v as *const T)
}
fn pm<T>(v: &mut T) -> PtrMut<'_> {
    PtrMut::new(v as *mut T)
}
trait Item: Facet + PartialEq + Clone {
    fn any() -> Self;
}
impl Item for u8 {
    fn any() -> Self {
        any_u8()
    }
}
impl Item for u32 {
    fn any() -> Self {
        any_u32()
    }
}
impl Item for () {
    fn any() {}
}
impl Item for String {
    fn any() -> Self {
        let mut s = String::new();
        s.push((b'a' + (any_u8() & 15)) as char);
        s
    }
}
/// alignment 16, and not a multiple of it in its fields
#[derive(Facet, Clone, PartialEq)]
#[repr(align(16))]
struct Wide {
    a: u8,
    s: String,
}
impl Item for Wide {
    fn any() -> Self {
        Wide { a: any_u8(), s: String::any() }
    }
}
/// hands a value over to a function that takes it out of the place it is given
fn give<T, R>(v: T, f: impl FnOnce(*mut T) -> R) -> R {
    let mut m = MaybeUninit::new(v);
    f(m.as_mut_ptr())
}
fn list<T: Item>(max: u8) {
    let Def::List(d) = <Vec<T>>::SHAPE.def else { fail("Vec is not a list") };
    check(d.t() == T::SHAPE, "the item shape of a list is not its item's");
    let cap = match choose(3) {
        0 => 0,
        1 => 1,
        _ => 5,
    };
    let mut m = MaybeUninit::<Vec<T>>::uninit();
    let q = unsafe { (d.vtable.init_in_place_with_capacity.unwrap())(PtrUninit::from_maybe_uninit(&mut m), cap) };
    check(q.as_byte_ptr() == m.as_ptr() as *const u8, "initializing hands back another place");
    let mut v = unsafe { m.assume_init() };
    check(v.capacity() >= cap && v.is_empty(), "a new list has not the capacity asked for");
    let mut model = Vec::new();
    for _ in 0..choose(max + 1) {
        let x = T::any();
        model.push(x.clone());
        give(x, |x| unsafe { (d.vtable.push)(pm(&mut v), PtrMut::new(x)) });
    }
    check(v == model, "pushing does not append the item");
    check(unsafe { (d.vtable.len)(p(&v)) } == model.len(), "the length of a list is not its number of items");
    let i = choose(max + 2) as usize;
    if i >= model.len() {
        opts(PANIC_OK | LEAK_OK);
        unsafe { (d.vtable.get_item_ptr)(p(&v), i) };
        fail("an item beyond the end of a list is handed out");
    }
    let x = unsafe { (d.vtable.get_item_ptr)(p(&v), i) };
    check(x.as_byte_ptr() == &v[i] as *const T as *const u8, "another item of a list is handed out");
    witness(0);
}
trait MapLike<K, V>: Facet + PartialEq {
    fn nat() -> Self;
    fn ins(&mut self, k: K, v: V) -> Option<V>;
    fn val(&self, k: &K) -> Option<&V>;
    fn pairs(&self) -> Vec<(&K, &V)>;
}
impl<K: Item + Ord + 'static, V: Item + 'static> MapLike<K, V> for BTreeMap<K, V> {
    fn nat() -> Self {
        BTreeMap::new()
    }
    fn ins(&mut self, k: K, v: V) -> Option<V> {
        self.insert(k, v)
    }
    fn val(&self, k: &K) -> Option<&V> {
        self.get(k)
    }
    fn pairs(&self) -> Vec<(&K, &V)> {
        self.iter().collect()
    }
}
impl<K: Item + Eq + core::hash::Hash + 'static, V: Item + 'static> MapLike<K, V> for HashMap<K, V> {
    fn nat() -> Self {
        HashMap::new()
    }
    fn ins(&mut self, k: K, v: V) -> Option<V> {
        self.insert(k, v)
    }
    fn val(&self, k: &K) -> Option<&V> {
        self.get(k)
    }
    fn pairs(&self) -> Vec<(&K, &V)> {
        self.iter().collect()
    }
}
fn map<K: Item, V: Item, M: MapLike<K, V>>(key: fn() -> K, max: u8) {
    let Def::Map(d) = M::SHAPE.def else { fail("a map is not a map") };
    check(d.k == K::SHAPE && d.v == V::SHAPE, "the key or value shape of a map is not its own");
    let t = d.vtable;
    let mut m = MaybeUninit::<M>::uninit();
    let mut v = unsafe {
        (t.init_in_place_with_capacity_fn)(PtrUninit::from_maybe_uninit(&mut m), choose(2) as usize * 3);
        m.assume_init()
    };
    let mut model = M::nat();
    check(unsafe { (t.len_fn)(p(&v)) } == 0, "a new map is not empty");
    for _ in 0..choose(max + 1) {
        let (k, x) = (key(), V::any());
        model.ins(k.clone(), x.clone());
        give(k, |k| give(x, |x| unsafe { (t.insert_fn)(pm(&mut v), PtrMut::new(k), PtrMut::new(x)) }));
    }
    check(v == model, "inserting into a map differs from its insert");
    let n = model.pairs().len();
    check(unsafe { (t.len_fn)(p(&v)) } == n, "the length of a map is not its number of entries");
    match choose(2) {
        0 => {
            let k = key();
            let want = v.val(&k).map(|x| x as *const V as *const u8);
            check(unsafe { (t.contains_key_fn)(p(&v), p(&k)) } == want.is_some(), "contains_key differs from the map's");
            let got = unsafe { (t.get_value_ptr_fn)(p(&v), p(&k)) };
            check(got.map(|x| x.as_byte_ptr()) == want, "looking a key up differs from the map's");
        }
        _ => {
            let it = unsafe { (t.iter_fn)(p(&v)) };
            let want = v.pairs();
            // may be abandoned half-way
            let stop = choose(max + 2) as usize;
            for i in 0..=n {
                if i == stop {
                    break;
                }
                let e = unsafe { (t.iter_vtable.next)(it) };
                match (e, want.get(i)) {
                    (Some((k, x)), Some((wk, wx))) => {
                        check(k.as_byte_ptr() == *wk as *const K as *const u8, "iterating a map yields other keys");
                        check(x.as_byte_ptr() == *wx as *const V as *const u8, "iterating a map yields other values");
                    }
                    (None, None) => {}
                    _ => fail("iterating a map yields too many or too few entries"),
                }
            }
            unsafe { (t.iter_vtable.dealloc)(it) };
        }
    }
    witness(0);
}
fn option<T: Item>() {
    let Def::Option(d) = <Option<T>>::SHAPE.def else { fail("Option is not an option") };
    check(d.t() == T::SHAPE, "the payload shape of an option is not its own");
    let t = d.vtable;
    let mut m = MaybeUninit::<Option<T>>::uninit();
    let mut model = any_bool().then(T::any);
    let q = match model.clone() {
        Some(x) => give(x, |x| unsafe { (t.init_some_fn)(PtrUninit::from_maybe_uninit(&mut m), PtrConst::new(x)) }.as_byte_ptr()),
        None => unsafe { (t.init_none_fn)(PtrUninit::from_maybe_uninit(&mut m)) }.as_byte_ptr(),
    };
    check(q == m.as_ptr() as *const u8, "initializing hands back another place");
    let mut v = unsafe { m.assume_init() };
    for _ in 0..choose(3) {
        check(v == model, "an option does not hold what was put into it");
        model = any_bool().then(T::any);
        match model.clone() {
            Some(x) => give(x, |x| unsafe { (t.replace_with_fn)(pm(&mut v), Some(PtrConst::new(x))) }),
            None => unsafe { (t.replace_with_fn)(pm(&mut v), None) },
        }
    }
    check(v == model, "an option does not hold what was put into it");
    check(unsafe { (t.is_some_fn)(p(&v)) } == model.is_some(), "is_some differs from the option's");
    let got = unsafe { (t.get_value_fn)(p(&v)) };
    check(got.map(|x| x.as_byte_ptr()) == v.as_ref().map(|x| x as *const T as *const u8), "the payload of an option is not its own");
    witness(0);
}
fn array<T: Item, const N: usize>(a: [T; N]) {
    let Def::Array(d) = <[T; N]>::SHAPE.def else { fail("an array is not an array") };
    check(d.t() == T::SHAPE && d.n == N, "the item shape or length of an array is not its own");
    let i = choose(N as u8 + 2) as usize;
    if i >= N {
        opts(PANIC_OK | LEAK_OK);
        unsafe { (d.vtable.get_item_ptr)(p(&a), i) };
        fail("an item beyond the end of an array is handed out");
    }
    check(unsafe { (d.vtable.get_item_ptr)(p(&a), i) }.as_byte_ptr() == &a[i] as *const T as *const u8, "another item of an array is handed out");
    witness(0);
}
fn slice<T: Item>(max: u8) {
    let Def::Slice(d) = <&[T]>::SHAPE.def else { fail("a slice is not a slice") };
    check(d.t() == T::SHAPE, "the item shape of a slice is not its own");
    let v: Vec<T> = (0..choose(max + 1)).map(|_| T::any()).collect();
    let from = choose(2) as usize;
    let s = &v[from.min(v.len())..];
    check(unsafe { (d.vtable.len)(p(&s)) } == s.len(), "the length of a slice is not its own");
    let i = choose(max + 2) as usize;
    if i >= s.len() {
        opts(PANIC_OK | LEAK_OK);
        unsafe { (d.vtable.get_item_ptr)(p(&s), i) };
        fail("an item beyond the end of a slice is handed out");
    }
    check(unsafe { (d.vtable.get_item_ptr)(p(&s), i) }.as_byte_ptr() == &s[i] as *const T as *const u8, "another item of a slice is handed out");
    witness(0);
}
fn arc<T: Item>() {
    let Def::SmartPointer(d) = <Arc<T>>::SHAPE.def else { fail("Arc is not a smart pointer") };
    let Def::SmartPointer(wd) = <Weak<T>>::SHAPE.def else { fail("Weak is not a smart pointer") };
    check(d.pointee == Some(T::SHAPE) && wd.pointee == Some(T::SHAPE), "the pointee of a smart pointer is not its own");
    check(d.known == Some(KnownSmartPointer::Arc) && wd.known == Some(KnownSmartPointer::ArcWeak), "a smart pointer is taken for another");
    check(d.weak.unwrap()() == <Weak<T>>::SHAPE, "the weak pointer of an Arc is not its own");
    check(wd.strong.unwrap()() == <Arc<T>>::SHAPE, "the strong pointer of a Weak is not its own");
    let x = T::any();
    let mut m = MaybeUninit::<Arc<T>>::uninit();
    let a = give(x.clone(), |x| unsafe {
        (d.vtable.new_into_fn.unwrap())(PtrUninit::from_maybe_uninit(&mut m), PtrConst::new(x));
        m.assume_init()
    });
    check(*a == x && Arc::strong_count(&a) == 1, "a new Arc does not hold what was put into it");
    let b = unsafe { (d.vtable.borrow_fn.unwrap())(p(&a)) };
    check(b.as_byte_ptr() == &*a as *const T as *const u8, "borrowing an Arc yields another value");
    let mut w = MaybeUninit::<Weak<T>>::uninit();
    let mut w = unsafe {
        (d.vtable.downgrade_into_fn.unwrap())(PtrMut::new(&a as *const Arc<T> as *mut Arc<T>), PtrUninit::from_maybe_uninit(&mut w));
        w.assume_init()
    };
    check(Arc::strong_count(&a) == 1 && Arc::weak_count(&a) == 1, "downgrading does not add one weak reference");
    let gone = any_bool();
    let keep = if gone {
        drop(a);
        None
    } else {
        Some(a)
    };
    let mut u = MaybeUninit::<Arc<T>>::uninit();
    let r = unsafe { (wd.vtable.upgrade_into_fn.unwrap())(pm(&mut w), PtrUninit::from_maybe_uninit(&mut u)) };
    check(r.is_some() != gone, "upgrading differs from Weak's");
    if r.is_some() {
        let u = unsafe { u.assume_init() };
        let k = keep.unwrap();
        check(Arc::ptr_eq(&u, &k) && Arc::strong_count(&k) == 2, "upgrading does not add one strong reference");
    }
    witness(0);
}
fn nonnull() {
    type N = core::ptr::NonNull<u32>;
    let Def::SmartPointer(d) = N::SHAPE.def else { fail("NonNull is not a smart pointer") };
    let mut x = any_u32();
    let q: *mut u32 = &mut x;
    let mut m = MaybeUninit::<N>::uninit();
    let n = unsafe {
        (d.vtable.new_into_fn.unwrap())(PtrUninit::from_maybe_uninit(&mut m), p(&q));
        m.assume_init()
    };
    check(n.as_ptr() == q, "a new NonNull does not point where it was told to");
    check(unsafe { (d.vtable.borrow_fn.unwrap())(p(&n)) }.as_byte_ptr() == q as *const u8, "borrowing a NonNull yields another value");
    witness(0);
}
fn key8() -> u8 {
    any_u8() & 7
}
#[no_mangle]
pub extern "C" fn coll() {
    let n = param(1) as u8;
    match param(0) {
        0 => list::<u8>(n),
        1 => list::<String>(n),
        2 => list::<Wide>(n),
        3 => list::<()>(n),
        4 => map::<u8, u8, BTreeMap<u8, u8>>(any_u8, n),
        5 => map::<u8, String, BTreeMap<u8, String>>(key8, n),
        6 => map::<String, u32, BTreeMap<String, u32>>(String::any, n),
        7 => map::<u8, u8, HashMap<u8, u8>>(key8, n),
        8 => map::<String, String, HashMap<String, String>>(String::any, n),
        9 => option::<u8>(),
        10 => option::<String>(),
        11 => option::<Wide>(),
        12 => option::<()>(),
        13 => array::<u8, 0>([]),
        14 => array::<String, 3>([String::any(), String::any(), String::any()]),
        15 => array::<Wide, 2>([Wide::any(), Wide::any()]),
        16 => slice::<u8>(n),
        17 => slice::<Wide>(n),
        18 => arc::<u8>(),
        19 => arc::<String>(),
        20 => arc::<Wide>(),
        21 => nonnull(),
        22 => arc::<()>(),
        23 => map::<u8, Wide, BTreeMap<u8, Wide>>(key8, n),
        _ => {}
    }
}
