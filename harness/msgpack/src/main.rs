//! MessagePack: decoder and encoder against an independent implementation of the specification.
#![allow(dead_code)]
use facet::Facet;
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use symx_api::*;

// -------------------------------------------------- reference (from the specification)
struct D<'a> {
    b: &'a [u8],
    i: usize,
}
type O<T> = Option<T>;
impl D<'_> {
    fn u8(&mut self) -> O<u8> {
        let c = *self.b.get(self.i)?;
        self.i += 1;
        Some(c)
    }
    fn be(&mut self, n: usize) -> O<u64> {
        let mut v = 0u64;
        for _ in 0..n {
            v = v << 8 | self.u8()? as u64;
        }
        Some(v)
    }
    fn take(&mut self, n: usize) -> O<&[u8]> {
        let s = self.b.get(self.i..)?.get(..n)?;
        self.i += n;
        Some(s)
    }
    fn int(&mut self) -> O<i128> {
        Some(match self.u8()? {
            c @ 0..=0x7f => c as i128,
            c @ 0xe0..=0xff => c as i8 as i128,
            0xcc => self.be(1)? as i128,
            0xcd => self.be(2)? as i128,
            0xce => self.be(4)? as i128,
            0xcf => self.be(8)? as i128,
            0xd0 => self.be(1)? as i8 as i128,
            0xd1 => self.be(2)? as i16 as i128,
            0xd2 => self.be(4)? as i32 as i128,
            0xd3 => self.be(8)? as i64 as i128,
            _ => return None,
        })
    }
    fn str(&mut self) -> O<String> {
        let n = match self.u8()? {
            c @ 0xa0..=0xbf => (c & 0x1f) as usize,
            0xd9 => self.be(1)? as usize,
            0xda => self.be(2)? as usize,
            0xdb => self.be(4)? as usize,
            _ => return None,
        };
        let s = self.take(n)?.to_vec();
        String::from_utf8(s).ok()
    }
    fn map(&mut self) -> O<usize> {
        Some(match self.u8()? {
            c @ 0x80..=0x8f => (c & 15) as usize,
            0xde => self.be(2)? as usize,
            0xdf => self.be(4)? as usize,
            _ => return None,
        })
    }
    fn skip(&mut self) -> O<()> {
        let (mut bytes, mut vals) = (0, 0);
        match self.u8()? {
            0..=0x7f | 0xe0..=0xff | 0xc0 | 0xc2 | 0xc3 => {}
            c @ 0x80..=0x8f => vals = 2 * (c & 15) as usize,
            c @ 0x90..=0x9f => vals = (c & 15) as usize,
            c @ 0xa0..=0xbf => bytes = (c & 31) as usize,
            0xc1 => return None,
            0xc4 | 0xd9 => bytes = self.be(1)? as usize,
            0xc5 | 0xda => bytes = self.be(2)? as usize,
            0xc6 | 0xdb => bytes = self.be(4)? as usize,
            0xc7 => bytes = self.be(1)? as usize + 1,
            0xc8 => bytes = self.be(2)? as usize + 1,
            0xc9 => bytes = self.be(4)? as usize + 1,
            0xca | 0xce | 0xd2 => bytes = 4,
            0xcb | 0xcf | 0xd3 => bytes = 8,
            0xcc | 0xd0 => bytes = 1,
            0xcd | 0xd1 => bytes = 2,
            0xd4 => bytes = 2,
            0xd5 => bytes = 3,
            0xd6 => bytes = 5,
            0xd7 => bytes = 9,
            0xd8 => bytes = 17,
            0xdc => vals = self.be(2)? as usize,
            0xdd => vals = self.be(4)? as usize,
            0xde => vals = 2 * self.be(2)? as usize,
            0xdf => vals = 2 * self.be(4)? as usize,
        }
        self.take(bytes)?;
        for _ in 0..vals {
            self.skip()?;
        }
        Some(())
    }
}
/// the shortest format, big endian
fn w_uint(v: u64, o: &mut Vec<u8>) {
    if v < 0x80 {
        o.push(v as u8)
    } else if v < 0x100 {
        o.extend_from_slice(&[0xcc, v as u8])
    } else if v < 0x10000 {
        o.extend_from_slice(&[0xcd, (v >> 8) as u8, v as u8])
    } else if v < 0x1_0000_0000 {
        o.extend_from_slice(&[0xce, (v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8])
    } else {
        o.push(0xcf);
        for i in (0..8).rev() {
            o.push((v >> (8 * i)) as u8);
        }
    }
}
fn w_int(v: i64, o: &mut Vec<u8>) {
    if v >= 0 {
        w_uint(v as u64, o)
    } else if v >= -32 {
        o.push(v as u8)
    } else if v >= -0x80 {
        o.extend_from_slice(&[0xd0, v as u8])
    } else if v >= -0x8000 {
        o.extend_from_slice(&[0xd1, (v >> 8) as u8, v as u8])
    } else if v >= -0x8000_0000 {
        o.extend_from_slice(&[0xd2, (v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8])
    } else {
        o.push(0xd3);
        for i in (0..8).rev() {
            o.push((v >> (8 * i)) as u8);
        }
    }
}
fn w_str(s: &str, o: &mut Vec<u8>) {
    let n = s.len();
    if n < 32 {
        o.push(0xa0 | n as u8)
    } else if n < 0x100 {
        o.extend_from_slice(&[0xd9, n as u8])
    } else if n < 0x10000 {
        o.extend_from_slice(&[0xda, (n >> 8) as u8, n as u8])
    } else {
        o.extend_from_slice(&[0xdb, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8])
    }
    o.extend_from_slice(s.as_bytes())
}
fn w_map(n: usize, o: &mut Vec<u8>) {
    if n < 16 {
        o.push(0x80 | n as u8)
    } else {
        o.extend_from_slice(&[0xde, (n >> 8) as u8, n as u8])
    }
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

trait R: Sized {
    fn rd(d: &mut D) -> O<Self>;
    fn wr(&self, o: &mut Vec<u8>);
    fn same(&self, o: &Self) -> bool;
    fn any() -> Self;
}
macro_rules! r_int {
    ($($t:ty: $w:ident as $l:ty),*) => {$(
        impl R for $t {
            fn rd(d: &mut D) -> O<Self> {
                let v = d.int()?;
                let n = v as $t;
                (n as i128 == v).then_some(n)
            }
            fn wr(&self, o: &mut Vec<u8>) {
                $w(*self as $l, o)
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
            fn any() -> Self {
                <$t>::from_le_bytes(arr())
            }
        }
    )*};
}
r_int!(u8: w_uint as u64, u16: w_uint as u64, u32: w_uint as u64, u64: w_uint as u64, i8: w_int as i64, i16: w_int as i64, i32: w_int as i64, i64: w_int as i64);
static BOOLS: AtomicUsize = AtomicUsize::new(0);
impl R for bool {
    fn rd(d: &mut D) -> O<Self> {
        match d.u8()? {
            0xc2 => Some(false),
            0xc3 => Some(true),
            _ => None,
        }
    }
    fn wr(&self, o: &mut Vec<u8>) {
        o.push(0xc2 + *self as u8)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn any() -> Self {
        // of many in one value, three are arbitrary
        if BOOLS.fetch_add(1, Relaxed) < 3 { any_bool() } else { true }
    }
}
impl R for String {
    fn rd(d: &mut D) -> O<Self> {
        d.str()
    }
    fn wr(&self, o: &mut Vec<u8>) {
        w_str(self, o)
    }
    fn same(&self, o: &Self) -> bool {
        same_bytes(self.as_bytes(), o.as_bytes())
    }
    fn any() -> Self {
        let n = choose(3);
        let mut s = String::new();
        for _ in 0..n {
            let c = char::from_u32(any_u32());
            assume(c.is_some());
            s.push(c.unwrap());
        }
        s
    }
}
macro_rules! r_struct {
    ($t:ident { $($f:tt : $ft:ty),* }) => {
        impl R for $t {
            #[allow(unused_mut, unused_variables)]
            fn rd(d: &mut D) -> O<Self> {
                let n = d.map()?;
                $( let mut $f: O<$ft> = None; )*
                for _ in 0..n {
                    let k = d.str()?;
                    $( if k == stringify!($f) {
                        // repeated
                        if $f.is_some() {
                            return None;
                        }
                        $f = Some(<$ft>::rd(d)?);
                        continue;
                    } )*
                    d.skip()?;
                }
                Some($t { $($f: $f?),* })
            }
            #[allow(unused_mut, unused_assignments, unused_variables)]
            fn wr(&self, o: &mut Vec<u8>) {
                let names: &[&str] = &[$(stringify!($f)),*];
                w_map(names.len(), o);
                $( w_str(stringify!($f), o); self.$f.wr(o); )*
            }
            fn same(&self, o: &Self) -> bool {
                true $(& self.$f.same(&o.$f))*
            }
            fn any() -> Self {
                $t { $($f: <$ft>::any()),* }
            }
        }
    };
}
#[derive(Facet)]
struct S {
    a: u8,
    b: bool,
}
r_struct!(S { a: u8, b: bool });
#[derive(Facet)]
struct N {
    s: S,
    t: String,
    n: i32,
}
r_struct!(N { s: S, t: String, n: i32 });
#[derive(Facet)]
struct Empty {}
r_struct!(Empty {});
#[derive(Facet)]
struct Long {
    a_field_with_a_name_of_33_letters: i16,
    ab: u16,
}
r_struct!(Long { a_field_with_a_name_of_33_letters: i16, ab: u16 });
#[derive(Facet)]
struct Many {
    f0: i8, f1: bool, f2: bool, f3: bool, f4: bool, f5: bool, f6: bool, f7: bool, f8: bool, f9: bool, f10: bool, f11: bool, f12: bool, f13: bool, f14: bool, f15: u8,
}
r_struct!(Many { f0: i8, f1: bool, f2: bool, f3: bool, f4: bool, f5: bool, f6: bool, f7: bool, f8: bool, f9: bool, f10: bool, f11: bool, f12: bool, f13: bool, f14: bool, f15: u8 });
#[derive(Facet)]
struct Fifteen {
    f0: i8, f1: bool, f2: bool, f3: bool, f4: bool, f5: bool, f6: bool, f7: bool, f8: bool, f9: bool, f10: bool, f11: bool, f12: bool, f13: bool, f14: u64,
}
r_struct!(Fifteen { f0: i8, f1: bool, f2: bool, f3: bool, f4: bool, f5: bool, f6: bool, f7: bool, f8: bool, f9: bool, f10: bool, f11: bool, f12: bool, f13: bool, f14: u64 });
#[derive(Facet)]
struct Deep {
    x: N,
    y: S,
    z: i64,
}
r_struct!(Deep { x: N, y: S, z: i64 });

fn de<T: Facet + R>(b: &[u8]) {
    // (from_str is another name for it)
    #[allow(deprecated)]
    let got = if b.len() % 2 == 0 { facet_msgpack::from_slice::<T>(b) } else { facet_msgpack::from_str::<T>(b) };
    let want = T::rd(&mut D { b, i: 0 });
    match (got, want) {
        (Ok(g), Some(w)) => {
            witness(0);
            check(g.same(&w), "the decoded value differs from what the bytes denote");
        }
        (Err(_), None) => witness(1),
        (Ok(_), None) => fail("bytes that denote no such value were accepted"),
        (Err(_), Some(_)) => fail("bytes that denote a value were refused"),
    }
}
fn de_ty(t: u64, b: &[u8]) {
    match t {
        0 => de::<u8>(b),
        1 => de::<u16>(b),
        2 => de::<u32>(b),
        3 => de::<u64>(b),
        4 => de::<i8>(b),
        5 => de::<i16>(b),
        6 => de::<i32>(b),
        7 => de::<i64>(b),
        8 => de::<bool>(b),
        9 => de::<String>(b),
        10 => de::<S>(b),
        11 => de::<N>(b),
        12 => de::<Empty>(b),
        13 => de::<Long>(b),
        14 => de::<Deep>(b),
        // not supported: an error, whatever the bytes
        15 => check(facet_msgpack::from_slice::<Option<u8>>(b).is_err(), "an unsupported type was decoded"),
        16 => check(facet_msgpack::from_slice::<Vec<u8>>(b).is_err(), "an unsupported type was decoded"),
        17 => check(facet_msgpack::from_slice::<f64>(b).is_err(), "an unsupported type was decoded"),
        _ => {}
    }
}
/// every byte string of a length
#[no_mangle]
pub extern "C" fn mp_de() {
    let b = bytes(param(1) as usize);
    de_ty(param(0), &b);
}
/// encodings with holes (`?`) that hold any byte; `~xx` is the byte xx, `~x?` any with that high nibble
const TEMPLATES: &[(u64, &str)] = &[
    (10, "~82~a1a?~a1b?"),
    (10, "~82~a1a~cc?~a1b~c3"),
    (10, "~82?a?~a1b~c3"),
    (10, "?~a1b~c2~a1a?"),
    (10, "~82~a1?~07~a1?~c2"),
    (10, "~83~a1a~01~a1x???~a1b~c2"),
    (10, "~83~a1x~cf????????~a1a~01~a1b~c2"),
    (10, "~83~a1x~92???~a1a~01~a1b~c2"),
    (10, "~83~a1x~c7~0????~a1a~01~a1b~c2"),
    (10, "~83~a1x~d4??~a1a?~a1b~c2"),
    // 10
    (10, "~83~a1x~d8????????????????~ff~a1a?~a1b~c2"),
    (10, "~83~a1x~cb????????~a1a?~a1b~c2"),
    (10, "~83~a1x~dc~00~0???~a1a~01~a1b~c2"),
    (10, "~83~a1x~de~00~0???~a1a~01~a1b~c2"),
    (10, "~83~a1x~c5~00~0???~a1a~01~a1b~c2"),
    (10, "~83~a1x~df~00~00~00~0???~a1a~01~a1b~c2"),
    (10, "~83~a1x~81??~a1a~01~a1b~c2"),
    (10, "~de???a?~a1b~c2"),
    (10, "~df????~a1b~c2~a1a~05"),
    (10, "~82~d9?a~01~a1b~c2"),
    // 20
    (10, "~82~da??a~01~a1b~c2"),
    (10, "~82~db????a~01~a1b~c2"),
    (10, "~83~a1a~01~a1a?~a1b~c2"),
    (10, "~82~a1a~01~a1b~c2??"),
    (11, "~83~a1s~82~a1a?~a1b~c2~a1t~a2??~a1n?????"),
    (11, "~83~a1t~a??~a1n~00~a1s~82~a1b~c3~a1?~05"),
    (11, "~84~a1s~82~a1a~01~a1b~c2~a1?~d1??~a1t~a0~a1n~07"),
    (14, "~83~a1x~83~a1s~82~a1a?~a1b~c2~a1t~a1?~a1n~d2????~a1y~82~a1a?~a1b?~a1z~d3????????"),
    (13, "~82~d9~21a_field_with_a_name_of_33_letters~d1??~a2ab~cd??"),
    (13, "~82~d9?a_field_with_a_name_of_33_letters~0?~a2a?~07"),
    // 30
    (10, "~83~a1x~c4~0????~a1a~01~a1b~c2"),
    (10, "~83~a1x~d9~0????~a1a~01~a1b~c2"),
    (10, "~83~a1x~c9~00~00~00~0????~a1a~01~a1b~c2"),
    (10, "~83~a1x~dd~00~00~00~0???~a1a~01~a1b~c2"),
    (10, "~83~a1x~d6?????~a1a?~a1b~c2"),
    (10, "~83~a1x~d5???~a1a?~a1b~c2"),
    (10, "~83~a1x~d7?????????~a1a?~a1b~c2"),
    (10, "~83~a1x~ca???"),
    (10, "~83~a1x~cf???????"),
    (10, "~83~a1x~c8~00~0????"),
    // 40
    (10, "~83~a1x~c6?????~a1a~01~a1b~c2"),
    (9, "~da~00?abcdefgh"),
    (9, "~db~00~00~00?abcd?fgh"),
    (10, "~83~a1x~ca????~a1a?~a1b~c2"),
    (10, "~83~a1x~ce????~a1a?~a1b~c2"),
    (10, "~83~a1x~d0?~a1a?~a1b~c2"),
    (10, "~83~a1x~d1??~a1a?~a1b~c2"),
    (10, "~83~a1x~d2????~a1a?~a1b~c2"),
    (10, "~83~a1x~d3????????~a1a?~a1b~c2"),
    (10, "~83~a1x~da~00~0???~a1a~01~a1b~c2"),
    // 50
    (10, "~83~a1x~c6????"),
    (10, "~83~a1x~db????a"),
    (10, "~83~a1x~dd????"),
    (10, "~83~a1x~df????"),
    (10, "~83~a1x~c9????"),
    (11, "~84~a1s~81~a1a~01~a1?~81~a1b~c2~a1t~a0~a1n~07"),
    (11, "~83~a1s~83~a1x~c0~a1a~01~a1?~c2~a1t~a0~a1n~07"),
    (12, "~81~a1x???"),
    (12, "~82~a2??~a1?~a0?"),
    (9, "~d9~05?????"),
    // 60
    (9, "~a5?????"),
    (10, "~83~a1x~c5????"),
    (10, "~83~a1x~da????"),
    (10, "~83~a1x~8??"),
    (10, "~83~a1x~c1?~a1a~01~a1b~c2"),
    // 65: lengths that fit or don't, of known bytes
    (10, "~83~a1x~c4~0?~00~01~a1a~01~a1b~c2"),
    (10, "~83~a1x~c5~00~0?~00~01~a1a~01~a1b~c2"),
    (10, "~83~a1x~c6~00~00~00~0?~00~01~a1a~01~a1b~c2"),
    (10, "~83~a1x~c7~0?~05~00~01~a1a~01~a1b~c2"),
    (10, "~83~a1x~c8~00~0?~05~00~01~a1a~01~a1b~c2"),
    (10, "~83~a1x~c9~00~00~00~0?~05~00~01~a1a~01~a1b~c2"),
    (10, "~83~a1x~d9~0?~00~01~a1a~01~a1b~c2"),
    (10, "~83~a1x~da~00~0?~00~01~a1a~01~a1b~c2"),
    (10, "~83~a1x~db~00~00~00~0?~00~01~a1a~01~a1b~c2"),
    (10, "~83~a1x~dc~00~0?~00~c0?~a1a~01~a1b~c2"),
    (10, "~83~a1x~dd~00~00~00~0?~00~c0?~a1a~01~a1b~c2"),
    (10, "~83~a1x~de~00~0?~00~c0?~01~a1a~01~a1b~c2"),
    (10, "~83~a1x~df~00~00~00~0?~00~c0~01?~a1a~01~a1b~c2"),
    (10, "~83~a1x~9?~00~c0?~a1a~01~a1b~c2"),
    (10, "~83~a1x~8?~00~c0~01?~a1a~01~a1b~c2"),
    (10, "~83~a1x~a?~00~01~a1a~01~a1b~c2"),
];
fn hexv(c: u8) -> u8 {
    if c <= b'9' { c - b'0' } else { c - b'a' + 10 }
}
#[no_mangle]
pub extern "C" fn mp_tpl() {
    let (ty, t) = TEMPLATES[param(0) as usize];
    let t = t.as_bytes();
    let mut b = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'~' && t[i + 2] != b'?' {
            b.push(hexv(t[i + 1]) << 4 | hexv(t[i + 2]));
            i += 3;
        } else if t[i] == b'~' {
            let lo = any_u8();
            assume(lo < 16);
            b.push(hexv(t[i + 1]) << 4 | lo);
            i += 3;
        } else {
            b.push(if t[i] == b'?' { any_u8() } else { t[i] });
            i += 1;
        }
    }
    de_ty(ty, &b);
}
/// an unknown field nested `n` deep
#[no_mangle]
pub extern "C" fn mp_deep() {
    let n = param(0) as usize;
    let mut b = vec![0x83, 0xa1, b'x'];
    for i in 0..n {
        b.extend_from_slice(if i % 2 == 0 { &[0x91] } else { &[0x81, 0x01] });
    }
    let c = any_u8();
    b.push(c);
    b.extend_from_slice(&[0xa1, b'a', 7, 0xa1, b'b', 0xc3]);
    let scalar = matches!(c, 0..=0x7f | 0xe0..=0xff | 0xc0 | 0xc2 | 0xc3 | 0x80 | 0x90 | 0xa0);
    match facet_msgpack::from_slice::<S>(&b) {
        Ok(s) => {
            witness(0);
            check(s.a == 7 && s.b, "the fields after a nested unknown one");
        }
        Err(_) => check(!scalar, "a deeply nested unknown field was refused"),
    }
}
fn ser<T: Facet + R>() {
    let v = T::any();
    ser_v(v)
}
fn ser_v<T: Facet + R>(v: T) {
    let b = facet_msgpack::to_vec(&v);
    let mut w = vec![];
    v.wr(&mut w);
    out(&b[..b.len().min(64)]);
    witness(0);
    match facet_msgpack::from_slice::<T>(&b) {
        Ok(g) => check(g.same(&v), "a value changes by encoding and decoding it"),
        Err(_) => fail("an encoded value cannot be decoded"),
    }
    check(same_bytes(&b, &w), "the encoding is not the MessagePack of the value");
}
#[no_mangle]
pub extern "C" fn mp_ser() {
    BOOLS.store(0, Relaxed);
    match param(0) {
        0 => ser::<u8>(),
        1 => ser::<u16>(),
        2 => ser::<u32>(),
        3 => ser::<u64>(),
        4 => ser::<i8>(),
        5 => ser::<i16>(),
        6 => ser::<i32>(),
        7 => ser::<i64>(),
        8 => ser::<bool>(),
        9 => ser::<String>(),
        10 => ser::<S>(),
        11 => ser::<N>(),
        12 => ser::<Empty>(),
        13 => ser::<Long>(),
        14 => ser::<Many>(),
        15 => ser::<Fifteen>(),
        16 => ser::<Deep>(),
        _ => {}
    }
}
/// strings around the limits of the formats
#[no_mangle]
pub extern "C" fn mp_ser_long() {
    let n = param(0) as usize;
    let mut s = vec![b'x'; n];
    let c = any_u8() & 0x7f;
    s[n / 2] = c;
    let s = String::from_utf8(s).unwrap();
    if param(1) == 0 {
        ser_v(s);
    } else {
        ser_v(N { s: S { a: 1, b: true }, t: s, n: -1 });
    }
}
entries!(mp_de, mp_tpl, mp_deep, mp_ser, mp_ser_long);
