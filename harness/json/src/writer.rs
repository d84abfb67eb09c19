//! Writing to writers that take little at a time, and fail somewhere.
use super::*;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Write};

/// Takes up to `chunk` bytes at a time, and `left` bytes in all. Then it fails
struct Lim {
    out: Vec<u8>,
    left: usize,
    chunk: usize,
    how: u8,
    interrupt: bool,
    calls: usize,
    failed: bool,
}
impl Write for Lim {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if self.interrupt && self.calls % 2 == 1 {
            return Err(ErrorKind::Interrupted.into());
        }
        check(!self.failed, "a writer that failed is written to again");
        let n = b.len().min(self.chunk).min(self.left);
        if n == 0 {
            self.failed = true;
            return match self.how {
                0 => Err(ErrorKind::BrokenPipe.into()),
                1 => Err(ErrorKind::StorageFull.into()),
                _ => Ok(0),
            };
        }
        self.out.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn writes<T: Facet>(v: &T) {
    let full = facet_json::to_string(v);
    let peek = facet_reflect::Peek::new(v);
    // (any number of bytes; all beyond the text's length are alike)
    let left = any_u8() as usize;
    assume(left <= full.len() + 1);
    let left = concretize(left as u64) as usize;
    let mut w = Lim { out: vec![], left, chunk: [1, 3, usize::MAX][param(1) as usize % 3], how: choose(3), interrupt: param(1) >= 3, calls: 0, failed: false };
    let r = if choose(2) == 0 { facet_json::to_writer(v, &mut w) } else { facet_json::peek_to_writer(&peek, &mut w) };
    let n = left.min(full.len());
    check(same_bytes(&w.out, &full.as_bytes()[..n]), "what reaches the writer isn't the beginning of the text");
    match r {
        Ok(()) => {
            witness(0);
            check(left >= full.len(), "a writer's failure isn't reported");
        }
        Err(e) => {
            witness(1);
            check(left < full.len(), "writing fails although the writer doesn't");
            check(e.kind() == [ErrorKind::BrokenPipe, ErrorKind::StorageFull, ErrorKind::WriteZero][w.how as usize], "another error than the writer's is reported");
        }
    }
}
fn ch() -> char {
    match choose(3) {
        0 => '"',
        1 => '\u{1}',
        _ => 'é',
    }
}
fn s2() -> S2 {
    if choose(2) == 0 { S2 { a: 1, b: None } } else { S2 { a: 10, b: Some(true) } }
}
pub fn run(i: u64) {
    match i {
        0 => writes(&String::from((any_u8() & 0x7f) as char)),
        1 => writes(&S2 { a: any_u8(), b: any_bool().then_some(true) }),
        2 => writes(&vec![s2(), s2()]),
        3 => writes(&Some(vec![Some(true), None])),
        4 => writes(&BTreeMap::from([(String::from(ch()), choose(2) == 1), (String::from("z"), true)])),
        5 => writes(&BTreeMap::from([(3i16, 1u8), (-4, 2)])),
        6 => writes(&[
            Kind::Unit,
            Kind::One(1),
            Kind::Two(true, String::from("x")),
            Kind::Named { x: 1 },
            Kind::Named2 { x: true, y: None },
            Kind::Inner(S2 { a: 1, b: None }),
            Kind::Three(1, true, None),
            Kind::One2(Some(true)),
        ]
        .into_iter()
        .nth(choose(8) as usize)
        .unwrap()),
        7 => writes(&[1.5f64, f64::NAN, -1e21, 0.0][choose(4) as usize]),
        8 => writes(&(1.5f32, f32::INFINITY).1),
        9 => writes(&Nest { i: s2(), v: vec![], o: None, s: String::from("s") }),
        10 => writes(&vec![String::new(), String::from("\n")]),
        11 => writes(&Tup(true, None)),
        12 => writes(&vec![i64::MIN, any_u8() as i64 - 5]),
        13 => writes(&Vec::<u8>::new()),
        14 => writes(&NonZero::<u64>::MAX),
        _ => writes(&std::borrow::Cow::Borrowed("a\\b")),
    }
}
/// Values that can't be written: an error, from any writer
pub fn refused() {
    let _ = RefCell::new(0);
    let mut w = vec![];
    let r = match param(0) {
        0 => facet_json::to_writer(&[1u8, 2], &mut w),
        1 => facet_json::to_writer(&vec![Some([any_bool()])], &mut w),
        2 => facet_json::to_writer(&BTreeMap::from([(Some(1u8), any_u8())]), &mut w),
        3 => facet_json::to_writer(&S2 { a: 1, b: None }, &mut w).and_then(|_| facet_json::to_writer(&std::sync::Arc::new(any_u8()), &mut w)),
        _ => facet_json::to_writer(&vec![u128::MAX], &mut w),
    };
    check(r.is_err(), "what isn't supported is written as something else");
    witness(0);
}
