//! Formatting into something that takes a limited number of bytes
use super::*;
use std::fmt;

struct Lim {
    out: Vec<u8>,
    left: usize,
    failed: bool,
}
impl fmt::Write for Lim {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        check(!self.failed, "a writer that failed is written to again");
        if s.len() > self.left {
            // (takes nothing of what doesn't fit)
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.out.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
struct D<'a, T: Facet>(&'a T, PrettyPrinter);
impl<T: Facet> fmt::Display for D<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if param(1) & 2 == 0 { self.1.format_to(self.0, f) } else { write!(f, "{}", self.0.pretty_with(PrettyPrinter::new().with_colors(param(1) & 1 != 0))) }
    }
}
fn writes<T: Facet>(v: T) {
    opts(LEAK_OK);
    let printer = || PrettyPrinter::new().with_colors(param(1) & 1 != 0);
    let full = printer().format(&v);
    // (with colours, the length depends on hashes, so nothing is assumed about it)
    let left = concretize((any_u16() as usize).min(full.len()) as u64) as usize;
    let mut w = Lim { out: vec![], left, failed: false };
    let r = write!(w, "{}", D(&v, printer()));
    check(w.out.len() <= full.len() && w.out == full.as_bytes()[..w.out.len()], "what is written isn't the beginning of the text");
    match r {
        Ok(()) => {
            witness(0);
            check(w.out.len() == full.len(), "a writer's failure isn't reported");
        }
        Err(_) => {
            witness(1);
            check(w.failed, "formatting fails although the writer doesn't");
        }
    }
}
fn plain() -> Plain {
    Plain { a: any_u8() & 1, s: "s".to_string(), z: 2 }
}
#[no_mangle]
pub extern "C" fn pretty_writer() {
    match param(0) {
        0 => writes(plain()),
        1 => writes(Tup::make(&Tup::public())),
        2 => writes(vec![Some(1u8), None]),
        3 => writes(BTreeMap::from([(1u8, plain())])),
        4 => writes(Some(plain())),
        5 => writes(vec![1u8, 2, 255]),
        6 => writes(Arc::new(plain())),
        7 => writes(vec![En::make(&(true, 1)), En::make(&(false, 1))]),
        8 => writes((any_bool(), "x".to_string())),
        9 => writes(Vec::<u32>::new()),
        10 => writes(1.5f64),
        _ => writes(Generic { t: 1u32, s: 5 }),
    }
}
