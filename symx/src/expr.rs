//! Hash-identified bit-vector expression DAG with a small simplifier.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle,
    Concat, // a = high part, b = low part
    FAdd, FSub, FMul, FDiv, FRem,
    FEq, FLt, FLe, FUno,
    FMin, FMax,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum U {
    Not,
    ZExt,
    SExt,
    /// result width is node width, source float width is kid width
    FToF,
    SToF,
    UToF,
    /// saturating conversions (NaN -> 0)
    FToSSat,
    FToUSat,
    FNeg,
    FAbs,
    FFloor,
    FCeil,
    FTrunc,
    FRoundEven,
    FRoundAway,
    FSqrt,
}
#[derive(Clone, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Undef(u32),
    Un(U, Expr),
    Bin(B, Expr, Expr),
    Ite(Expr, Expr, Expr),
    Extract(u32, Expr),
    /// what std's float parser makes of a text: (0: the f64, 1: the f32, 2: is it one) — only ever evaluated
    Parse(u32, Arc<Vec<Expr>>),
}
pub const NSUP: usize = 4;
#[derive(Debug)]
pub struct Node {
    pub k: K,
    pub w: u32,
    pub hash: u64,
    pub sup: [u64; NSUP],
    pub undef: bool,
    pub fp: bool,
    pub opaque: bool,
    pub size: u32,
}
pub type Expr = Arc<Node>;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    E(Expr),
    U,
    A(Arc<Vec<Val>>),
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}
fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_mul(0x9E3779B97F4A7C15);
    h = h.rotate_left(27).wrapping_mul(0xBF58476D1CE4E5B9);
    h ^= h >> 31;
    h.wrapping_mul(0x94D049BB133111EB)
}
impl Drop for Node {
    fn drop(&mut self) {
        // avoid deep recursion for long chains
        let depth_risk = self.size > 5000;
        if !depth_risk {
            return;
        }
        let mut stack: Vec<Expr> = Vec::new();
        take_kids(&mut self.k, &mut stack);
        while let Some(e) = stack.pop() {
            if let Ok(mut n) = Arc::try_unwrap(e) {
                take_kids(&mut n.k, &mut stack);
            }
        }
    }
}
fn take_kids(k: &mut K, out: &mut Vec<Expr>) {
    let old = std::mem::replace(k, K::Const(0));
    match old {
        K::Un(_, a) | K::Extract(_, a) => out.push(a),
        K::Bin(_, a, b) => {
            out.push(a);
            out.push(b);
        }
        K::Ite(a, b, c) => {
            out.push(a);
            out.push(b);
            out.push(c);
        }
        _ => {}
    }
}
fn mk(k: K, w: u32) -> Expr {
    let mut sup = [0u64; NSUP];
    let mut undef = false;
    let mut fp = false;
    let mut opaque = false;
    let mut size = 1u32;
    let mut h = mix(0x1234_5678, w as u64);
    let mut kid = |e: &Expr, h: &mut u64| {
        for i in 0..NSUP {
            sup[i] |= e.sup[i];
        }
        undef |= e.undef;
        fp |= e.fp;
        opaque |= e.opaque;
        size = size.saturating_add(e.size);
        *h = mix(*h, e.hash);
    };
    match &k {
        K::Const(c) => {
            h = mix(h, 1);
            h = mix(h, *c as u64);
            h = mix(h, (*c >> 64) as u64);
        }
        K::Var(v) => {
            h = mix(h, 2);
            h = mix(h, *v as u64);
            let b = (*v as usize) % (64 * NSUP);
            sup[b / 64] |= 1 << (b % 64);
        }
        K::Undef(v) => {
            h = mix(h, 3);
            h = mix(h, *v as u64);
            undef = true;
        }
        K::Un(op, a) => {
            h = mix(h, 16 + *op as u64);
            kid(a, &mut h);
            if !matches!(op, U::Not | U::ZExt | U::SExt) {
                fp = true;
            }
        }
        K::Bin(op, a, b) => {
            h = mix(h, 64 + *op as u64);
            kid(a, &mut h);
            kid(b, &mut h);
            if (*op as u8) >= (B::FAdd as u8) {
                fp = true;
            }
        }
        K::Ite(a, b, c) => {
            h = mix(h, 5);
            kid(a, &mut h);
            kid(b, &mut h);
            kid(c, &mut h);
        }
        K::Extract(lo, a) => {
            h = mix(h, 6);
            h = mix(h, *lo as u64);
            kid(a, &mut h);
        }
        K::Parse(kind, t) => {
            h = mix(h, 7);
            h = mix(h, *kind as u64);
            h = mix(h, t.len() as u64);
            for e in t.iter() {
                kid(e, &mut h);
            }
        }
    }
    if let K::Parse(..) = &k {
        fp = true;
        opaque = true;
    }
    Arc::new(Node { k, w, hash: h, sup, undef, fp, opaque, size })
}
/// see K::Parse
pub fn parse_float(kind: u32, t: &Arc<Vec<Expr>>) -> Val {
    let w = [64, 32, 1][kind as usize];
    if t.iter().all(|e| matches!(e.k, K::Const(_))) {
        let b: Vec<u8> = t.iter().map(|e| if let K::Const(c) = e.k { c as u8 } else { 0 }).collect();
        return Val::C(native_parse(kind, &b));
    }
    v_of(mk(K::Parse(kind, t.clone()), w))
}
pub fn native_parse(kind: u32, b: &[u8]) -> u128 {
    let s = std::str::from_utf8(b).unwrap_or("x");
    match kind {
        0 => s.parse::<f64>().map_or(0, |f| f.to_bits() as u128),
        1 => s.parse::<f32>().map_or(0, |f| f.to_bits() as u128),
        _ => s.parse::<f64>().is_ok() as u128,
    }
}
pub fn konst(v: u128, w: u32) -> Expr {
    mk(K::Const(v & mask(w)), w)
}
pub fn var(v: u32, w: u32) -> Expr {
    mk(K::Var(v), w)
}
static UNDEF_CTR: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
pub fn fresh_undef(w: u32) -> Expr {
    mk(K::Undef(UNDEF_CTR.fetch_add(1, std::sync::atomic::Ordering::Relaxed)), w)
}
#[inline]
pub fn same(a: &Expr, b: &Expr) -> bool {
    Arc::ptr_eq(a, b) || (a.hash == b.hash && a.w == b.w)
}
impl Val {
    pub fn e(&self, w: u32) -> Expr {
        match self {
            Val::C(c) => konst(*c, w),
            Val::E(e) => {
                debug_assert_eq!(e.w, w);
                e.clone()
            }
            Val::U => fresh_undef(w),
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    pub fn is_true(&self) -> bool {
        matches!(self, Val::C(c) if *c & 1 == 1)
    }
    pub fn has_undef(&self) -> bool {
        match self {
            Val::U => true,
            Val::E(e) => e.undef,
            Val::A(v) => v.iter().any(|x| x.has_undef()),
            Val::C(_) => false,
        }
    }
}
pub fn v_of(e: Expr) -> Val {
    match &e.k {
        K::Const(c) => Val::C(*c),
        _ => Val::E(e),
    }
}
fn f_of(v: u128, w: u32) -> f64 {
    if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) }
}
fn fbits(v: f64, w: u32) -> u128 {
    if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }
}
/// Concrete evaluation of a binary op. None = undefined (division by zero etc.)
pub fn cbin(op: B, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    let sa = || sext128(a, w);
    let sb = || sext128(b, w);
    Some(match op {
        B::Add => a.wrapping_add(b) & m,
        B::Sub => a.wrapping_sub(b) & m,
        B::Mul => a.wrapping_mul(b) & m,
        B::UDiv => if b == 0 { return None } else { a / b },
        B::SDiv => if b == 0 { return None } else { (sa().wrapping_div(sb())) as u128 & m },
        B::URem => if b == 0 { return None } else { a % b },
        B::SRem => if b == 0 { return None } else { (sa().wrapping_rem(sb())) as u128 & m },
        B::Shl => if b >= w as u128 { return None } else { (a << b) & m },
        B::LShr => if b >= w as u128 { return None } else { a >> b },
        B::AShr => if b >= w as u128 { return None } else { (sa() >> b) as u128 & m },
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Eq => (a == b) as u128,
        B::Ult => (a < b) as u128,
        B::Ule => (a <= b) as u128,
        B::Slt => (sa() < sb()) as u128,
        B::Sle => (sa() <= sb()) as u128,
        B::Concat => unreachable!(),
        B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem if w == 32 => {
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            (match op {
                B::FAdd => x + y,
                B::FSub => x - y,
                B::FMul => x * y,
                B::FDiv => x / y,
                _ => x % y,
            }).to_bits() as u128
        }
        B::FAdd => (f64::from_bits(a as u64) + f64::from_bits(b as u64)).to_bits() as u128,
        B::FSub => (f64::from_bits(a as u64) - f64::from_bits(b as u64)).to_bits() as u128,
        B::FMul => (f64::from_bits(a as u64) * f64::from_bits(b as u64)).to_bits() as u128,
        B::FDiv => (f64::from_bits(a as u64) / f64::from_bits(b as u64)).to_bits() as u128,
        B::FRem => (f64::from_bits(a as u64) % f64::from_bits(b as u64)).to_bits() as u128,
        B::FEq => (f_of(a, w) == f_of(b, w)) as u128,
        B::FLt => (f_of(a, w) < f_of(b, w)) as u128,
        B::FLe => (f_of(a, w) <= f_of(b, w)) as u128,
        B::FUno => (f_of(a, w).is_nan() || f_of(b, w).is_nan()) as u128,
        B::FMin => fbits(f_of(a, w).min(f_of(b, w)), w),
        B::FMax => fbits(f_of(a, w).max(f_of(b, w)), w),
    })
}
pub fn cun(op: U, w: u32, sw: u32, a: u128) -> u128 {
    match op {
        U::Not => !a & mask(w),
        U::ZExt => a,
        U::SExt => sext128(a, sw) as u128 & mask(w),
        U::FToF => {
            if sw == w { a } else if sw == 32 { (f32::from_bits(a as u32) as f64).to_bits() as u128 }
            else { (f64::from_bits(a as u64) as f32).to_bits() as u128 }
        }
        U::SToF => {
            let s = sext128(a, sw);
            if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 }
        }
        U::UToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        U::FToSSat => {
            let f = f_of(a, sw);
            let v = f as i128;
            let lo = if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) };
            let hi = if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
            v.clamp(lo, hi) as u128 & mask(w)
        }
        U::FToUSat => {
            let f = f_of(a, sw);
            (f as u128).min(mask(w))
        }
        U::FNeg => a ^ (1u128 << (w - 1)),
        U::FAbs => a & !(1u128 << (w - 1)) & mask(w),
        U::FFloor => fbits(f_of(a, w).floor(), w),
        U::FCeil => fbits(f_of(a, w).ceil(), w),
        U::FTrunc => fbits(f_of(a, w).trunc(), w),
        U::FRoundEven => fbits(f_of(a, w).round_ties_even(), w),
        U::FRoundAway => fbits(f_of(a, w).round(), w),
        U::FSqrt => fbits(f_of(a, w).sqrt(), w),
    }
}
fn res_w(op: B, w: u32) -> u32 {
    match op {
        B::Eq | B::Ult | B::Ule | B::Slt | B::Sle | B::FEq | B::FLt | B::FLe | B::FUno => 1,
        _ => w,
    }
}
/// w = operand width
pub fn bin(op: B, w: u32, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::C(x), Val::C(y)) => match cbin(op, w, *x, *y) {
            Some(v) => Val::C(v),
            None => Val::U,
        },
        _ => {
            // fast absorbing cases also sound for undef
            if let (Val::U, Val::U) = (a, b) {
                return Val::U;
            }
            bin_e(op, w, a, b)
        }
    }
}
fn isc(v: &Val, c: u128) -> bool {
    matches!(v, Val::C(x) if *x == c)
}
fn zext_src(e: &Expr) -> Option<&Expr> {
    if let K::Un(U::ZExt, s) = &e.k { Some(s) } else { None }
}
/// If the expression is 0/1-like bit: (b as iN)
fn bin_e(op: B, w: u32, a: &Val, b: &Val) -> Val {
    let m = mask(w);
    // canonicalise constants to the right for commutative ops
    if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq) && matches!(a, Val::C(_)) && !matches!(b, Val::C(_)) {
        return bin_e(op, w, b, a);
    }
    match op {
        B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if isc(b, 0) => return a.clone(),
        B::Mul if isc(b, 0) => return Val::C(0),
        B::And if isc(b, 0) => return Val::C(0),
        B::And if isc(b, m) => return a.clone(),
        B::Or if isc(b, m) => return Val::C(m),
        B::Mul | B::UDiv | B::SDiv if isc(b, 1) => return a.clone(),
        B::URem if isc(b, 1) => return Val::C(0),
        B::Shl | B::LShr | B::AShr if isc(a, 0) => return Val::C(0),
        B::Ult if isc(b, 0) => return Val::C(0),
        B::Ule if isc(b, m) => return Val::C(1),
        B::Ule if isc(a, 0) => return Val::C(1),
        B::Ult if isc(a, m) => return Val::C(0),
        _ => {}
    }
    if let (Val::E(x), Val::E(y)) = (a, b) {
        if same(x, y) {
            match op {
                B::Sub | B::Xor => return Val::C(0),
                B::And | B::Or => return a.clone(),
                B::Eq | B::Ule | B::Sle => return Val::C(1),
                B::Ult | B::Slt => return Val::C(0),
                _ => {}
            }
        }
    }
    // strength: power of two
    if let Val::C(c) = b {
        let c = *c;
        if c != 0 && c.is_power_of_two() {
            let k = c.trailing_zeros();
            match op {
                B::Mul => return bin(B::Shl, w, a, &Val::C(k as u128)),
                B::UDiv => return bin(B::LShr, w, a, &Val::C(k as u128)),
                B::URem => return bin(B::And, w, a, &Val::C(c - 1)),
                _ => {}
            }
        }
        if let Val::E(x) = a {
            match op {
                B::Sub => return bin(B::Add, w, a, &Val::C(c.wrapping_neg() & m)),
                B::Add => {
                    if let K::Bin(B::Add, p, q) = &x.k {
                        if let K::Const(c2) = q.k {
                            return bin(B::Add, w, &v_of(p.clone()), &Val::C(c.wrapping_add(c2) & m));
                        }
                    }
                }
                B::And => {
                    // mask of low bits -> zext(extract)
                    if (c + 1).is_power_of_two() {
                        let k = c.count_ones();
                        return zext(&extract(&Val::E(x.clone()), w, 0, k), k, w);
                    }
                    // high mask: (x >> k) << k
                    if let K::Bin(B::And, p, q) = &x.k {
                        if let K::Const(c2) = q.k {
                            return bin(B::And, w, &v_of(p.clone()), &Val::C(c & c2));
                        }
                    }
                    if let Some(s) = zext_src(x) {
                        let sw = s.w;
                        return zext(&bin(B::And, sw, &v_of(s.clone()), &Val::C(c & mask(sw))), sw, w);
                    }
                }
                B::Shl if c < w as u128 => {
                    let k = c as u32;
                    // concat(extract(x, 0, w-k), 0:k)
                    return concat(&extract(a, w, 0, w - k), w - k, &Val::C(0), k);
                }
                B::LShr if c < w as u128 => {
                    let k = c as u32;
                    return zext(&extract(a, w, k, w - k), w - k, w);
                }
                B::Eq => {
                    match &x.k {
                        K::Un(U::ZExt, s) => {
                            if c > mask(s.w) {
                                return Val::C(0);
                            }
                            return bin(B::Eq, s.w, &v_of(s.clone()), &Val::C(c));
                        }
                        K::Un(U::SExt, s) => {
                            let lo = c & mask(s.w);
                            if (sext128(lo, s.w) as u128 & m) != c {
                                return Val::C(0);
                            }
                            return bin(B::Eq, s.w, &v_of(s.clone()), &Val::C(lo));
                        }
                        K::Un(U::Not, s) if w == 1 => {
                            return bin(B::Eq, 1, &v_of(s.clone()), &Val::C(c ^ 1));
                        }
                        K::Un(U::Not, s) => {
                            return bin(B::Eq, w, &v_of(s.clone()), &Val::C(!c & m));
                        }
                        K::Bin(B::Add, p, q) => {
                            if let K::Const(c2) = q.k {
                                return bin(B::Eq, w, &v_of(p.clone()), &Val::C(c.wrapping_sub(c2) & m));
                            }
                        }
                        K::Bin(B::Xor, p, q) => {
                            if let K::Const(c2) = q.k {
                                return bin(B::Eq, w, &v_of(p.clone()), &Val::C(c ^ c2));
                            }
                            if c == 0 {
                                return bin(B::Eq, w, &v_of(p.clone()), &v_of(q.clone()));
                            }
                        }
                        K::Bin(B::Or, p, q) if c == 0 => {
                            let l = bin(B::Eq, w, &v_of(p.clone()), &Val::C(0));
                            let r = bin(B::Eq, w, &v_of(q.clone()), &Val::C(0));
                            return bin(B::And, 1, &l, &r);
                        }
                        K::Bin(B::Concat, h, l) => {
                            let lw = l.w;
                            let hi = bin(B::Eq, h.w, &v_of(h.clone()), &Val::C(c >> lw));
                            if isc(&hi, 0) {
                                return Val::C(0);
                            }
                            let lo = bin(B::Eq, lw, &v_of(l.clone()), &Val::C(c & mask(lw)));
                            return bin(B::And, 1, &hi, &lo);
                        }
                        K::Ite(cc, t, f) => {
                            // push into ite when both arms are (eventually) constants
                            if ite_const_tree(t, 6) && ite_const_tree(f, 6) {
                                let tv = bin(B::Eq, w, &v_of(t.clone()), b);
                                let fv = bin(B::Eq, w, &v_of(f.clone()), b);
                                return ite(&v_of(cc.clone()), 1, &tv, &fv);
                            }
                        }
                        _ => {}
                    }
                    if w == 1 {
                        return if c == 1 { a.clone() } else { not(a, 1) };
                    }
                }
                B::Xor if w == 1 && c == 1 => return not(a, 1),
                B::Xor if c == m => return not(a, w),
                B::Ult => {
                    if let Some(s) = zext_src(x) {
                        if c > mask(s.w) {
                            return Val::C(1);
                        }
                        return bin(B::Ult, s.w, &v_of(s.clone()), b);
                    }
                    if c == 1 {
                        return bin(B::Eq, w, a, &Val::C(0));
                    }
                    if let K::Ite(cc, t, f) = &x.k {
                        if ite_const_tree(t, 6) && ite_const_tree(f, 6) {
                            let tv = bin(op, w, &v_of(t.clone()), b);
                            let fv = bin(op, w, &v_of(f.clone()), b);
                            return ite(&v_of(cc.clone()), 1, &tv, &fv);
                        }
                    }
                }
                B::Ule => {
                    if let Some(s) = zext_src(x) {
                        if c >= mask(s.w) {
                            return Val::C(1);
                        }
                        return bin(B::Ule, s.w, &v_of(s.clone()), b);
                    }
                }
                B::Slt | B::Sle => {
                    if let Some(s) = zext_src(x) {
                        // x >= 0
                        let sc = sext128(c, w);
                        if sc < 0 {
                            return Val::C(0);
                        }
                        if c > mask(s.w) {
                            return Val::C(1);
                        }
                        let nop = if op == B::Slt { B::Ult } else { B::Ule };
                        return bin(nop, s.w, &v_of(s.clone()), b);
                    }
                    if op == B::Slt && c == 0 {
                        return extract(a, w, w - 1, 1);
                    }
                }
                B::UDiv | B::URem => {
                    if let Some(s) = zext_src(x) {
                        let sw = s.w;
                        if c > mask(sw) {
                            return if op == B::UDiv { Val::C(0) } else { a.clone() };
                        }
                        return zext(&bin(op, sw, &v_of(s.clone()), b), sw, w);
                    }
                }
                _ => {}
            }
        }
    }
    if let Val::C(c) = a {
        let c = *c;
        if let Val::E(y) = b {
            match op {
                B::Ult => {
                    if let Some(s) = zext_src(y) {
                        if c >= mask(s.w) {
                            return Val::C(0);
                        }
                        return bin(B::Ult, s.w, a, &v_of(s.clone()));
                    }
                    if c == 0 {
                        return not(&bin(B::Eq, w, b, &Val::C(0)), 1);
                    }
                }
                B::Ule => {
                    if let Some(s) = zext_src(y) {
                        if c > mask(s.w) {
                            return Val::C(0);
                        }
                        return bin(B::Ule, s.w, a, &v_of(s.clone()));
                    }
                }
                B::Slt | B::Sle => {
                    if let Some(s) = zext_src(y) {
                        let sc = sext128(c, w);
                        if sc < 0 {
                            return Val::C(1);
                        }
                        if c > mask(s.w) {
                            return Val::C(0);
                        }
                        let nop = if op == B::Slt { B::Ult } else { B::Ule };
                        return bin(nop, s.w, a, &v_of(s.clone()));
                    }
                }
                _ => {}
            }
        }
    }
    if let (Val::E(x), Val::E(y)) = (a, b) {
        // both zero-extended from the same width
        if matches!(op, B::Eq | B::Ult | B::Ule | B::And | B::Or | B::Xor | B::Slt | B::Sle) {
            if let (Some(s), Some(t)) = (zext_src(x), zext_src(y)) {
                if s.w == t.w {
                    let sw = s.w;
                    let nop = match op {
                        B::Slt => B::Ult,
                        B::Sle => B::Ule,
                        o => o,
                    };
                    let r = bin(nop, sw, &v_of(s.clone()), &v_of(t.clone()));
                    return if res_w(nop, sw) == 1 && res_w(op, w) == 1 { r } else { zext(&r, sw, w) };
                }
            }
        }
        // or of disjoint concat/zext: (hi ++ 0) | zext(lo)
        if op == B::Or || op == B::Add {
            if let Some(v) = merge_or(x, y, w) {
                return v;
            }
            if let Some(v) = merge_or(y, x, w) {
                return v;
            }
        }
    }
    if matches!(op, B::Shl | B::LShr | B::AShr) {
        if let Val::C(c) = b {
            if *c >= w as u128 {
                return Val::U;
            }
        }
    }
    let (ea, eb) = (a.e(w), b.e(w));
    let (ea, eb) = if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq)
        && !matches!(eb.k, K::Const(_))
        && ea.hash > eb.hash
    {
        (eb, ea)
    } else {
        (ea, eb)
    };
    v_of(mk(K::Bin(op, ea, eb), res_w(op, w)))
}
pub fn low_zero_bits(e: &Expr) -> u32 {
    match &e.k {
        K::Const(0) => e.w,
        K::Const(c) => c.trailing_zeros().min(e.w),
        K::Bin(B::Concat, h, l) => {
            let z = low_zero_bits(l);
            if z == l.w { z + low_zero_bits(h) } else { z }
        }
        K::Un(U::ZExt, s) => {
            let z = low_zero_bits(s);
            if z == s.w { e.w } else { z }
        }
        _ => 0,
    }
}
fn merge_or(x: &Expr, y: &Expr, w: u32) -> Option<Val> {
    // x has k low zero bits, y = zext(s) with s.w <= k
    let s = zext_src(y)?;
    let k = low_zero_bits(x);
    if k >= s.w && k > 0 && s.w < w {
        let hi = extract(&Val::E(x.clone()), w, s.w, w - s.w);
        return Some(concat(&hi, w - s.w, &v_of(s.clone()), s.w));
    }
    None
}
fn ite_const_tree(e: &Expr, depth: u32) -> bool {
    match &e.k {
        K::Const(_) => true,
        K::Ite(_, t, f) if depth > 0 => ite_const_tree(t, depth - 1) && ite_const_tree(f, depth - 1),
        _ => false,
    }
}
pub fn not(a: &Val, w: u32) -> Val {
    match a {
        Val::C(c) => Val::C(!c & mask(w)),
        Val::U => Val::U,
        Val::E(e) => {
            if let K::Un(U::Not, s) = &e.k {
                return v_of(s.clone());
            }
            if w == 1 {
                match &e.k {
                    K::Bin(B::Ult, x, y) => return bin(B::Ule, x.w, &v_of(y.clone()), &v_of(x.clone())),
                    K::Bin(B::Ule, x, y) => return bin(B::Ult, x.w, &v_of(y.clone()), &v_of(x.clone())),
                    K::Bin(B::Slt, x, y) => return bin(B::Sle, x.w, &v_of(y.clone()), &v_of(x.clone())),
                    K::Bin(B::Sle, x, y) => return bin(B::Slt, x.w, &v_of(y.clone()), &v_of(x.clone())),
                    _ => {}
                }
            }
            v_of(mk(K::Un(U::Not, e.clone()), w))
        }
        Val::A(_) => panic!("not on aggregate"),
    }
}
pub fn zext(a: &Val, sw: u32, w: u32) -> Val {
    if sw == w {
        return a.clone();
    }
    match a {
        Val::C(c) => Val::C(*c),
        Val::U => v_of(mk(K::Un(U::ZExt, fresh_undef(sw)), w)),
        Val::E(e) => {
            if let K::Un(U::ZExt, s) = &e.k {
                return v_of(mk(K::Un(U::ZExt, s.clone()), w));
            }
            v_of(mk(K::Un(U::ZExt, e.clone()), w))
        }
        Val::A(_) => panic!(),
    }
}
pub fn sext(a: &Val, sw: u32, w: u32) -> Val {
    if sw == w {
        return a.clone();
    }
    match a {
        Val::C(c) => Val::C(sext128(*c, sw) as u128 & mask(w)),
        Val::U => Val::U,
        Val::E(e) => {
            if let K::Un(U::ZExt, s) = &e.k {
                return v_of(mk(K::Un(U::ZExt, s.clone()), w));
            }
            v_of(mk(K::Un(U::SExt, e.clone()), w))
        }
        Val::A(_) => panic!(),
    }
}
pub fn concat(h: &Val, hw: u32, l: &Val, lw: u32) -> Val {
    if lw == 0 {
        return h.clone();
    }
    if hw == 0 {
        return l.clone();
    }
    match (h, l) {
        (Val::C(x), Val::C(y)) => return Val::C((x << lw) | y),
        (Val::C(0), _) => return zext(l, lw, hw + lw),
        (Val::U, Val::U) => return Val::U,
        _ => {}
    }
    let he = h.e(hw);
    let le = l.e(lw);
    // extract merge
    if let (K::Extract(hl, hs), K::Extract(ll, ls)) = (&he.k, &le.k) {
        if same(hs, ls) && *hl == *ll + lw {
            return extract(&v_of(hs.clone()), hs.w, *ll, hw + lw);
        }
    }
    if let K::Extract(hl, hs) = &he.k {
        if *hl == lw && same(hs, &{
            // low part being the whole low bits is represented as Extract(0,..) normally
            le.clone()
        }) {
            // not equal widths, cannot happen
        }
        // concat(extract(x, hl..), concat(extract(x, ll..), rest))
        if let K::Bin(B::Concat, m, rest) = &le.k {
            if let K::Extract(ml, ms) = &m.k {
                if same(hs, ms) && *hl == *ml + m.w {
                    let merged = extract(&v_of(hs.clone()), hs.w, *ml, hw + m.w);
                    return concat(&merged, hw + m.w, &v_of(rest.clone()), rest.w);
                }
            }
        }
    }
    if let (K::Ite(c1, t1, f1), K::Ite(c2, t2, f2)) = (&he.k, &le.k) {
        if same(c1, c2) && matches!((&t1.k, &t2.k), (K::Const(_), K::Const(_))) {
            let t = concat(&v_of(t1.clone()), hw, &v_of(t2.clone()), lw);
            let f = concat(&v_of(f1.clone()), hw, &v_of(f2.clone()), lw);
            return ite(&v_of(c1.clone()), hw + lw, &t, &f);
        }
    }
    if let K::Un(U::ZExt, hs) = &he.k {
        let inner = concat(&v_of(hs.clone()), hs.w, l, lw);
        return zext(&inner, hs.w + lw, hw + lw);
    }
    // right-nest: concat(concat(a,b), c) -> concat(a, concat(b,c))
    if let K::Bin(B::Concat, a, b) = &he.k {
        let bc = concat(&v_of(b.clone()), b.w, l, lw);
        return concat(&v_of(a.clone()), a.w, &bc, b.w + lw);
    }
    v_of(mk(K::Bin(B::Concat, he, le), hw + lw))
}
/// extract `w` bits starting at bit `lo` from a value of width `sw`
pub fn extract(a: &Val, sw: u32, lo: u32, w: u32) -> Val {
    if lo == 0 && w == sw {
        return a.clone();
    }
    match a {
        Val::C(c) => Val::C((c >> lo) & mask(w)),
        Val::U => Val::U,
        Val::A(_) => panic!("extract on aggregate"),
        Val::E(e) => match &e.k {
            K::Extract(l2, s) => extract(&v_of(s.clone()), s.w, lo + l2, w),
            K::Un(U::ZExt, s) => {
                if lo >= s.w {
                    Val::C(0)
                } else if lo + w <= s.w {
                    extract(&v_of(s.clone()), s.w, lo, w)
                } else {
                    zext(&extract(&v_of(s.clone()), s.w, lo, s.w - lo), s.w - lo, w)
                }
            }
            K::Un(U::SExt, s) if lo + w <= s.w => extract(&v_of(s.clone()), s.w, lo, w),
            K::Un(U::Not, s) => not(&extract(&v_of(s.clone()), s.w, lo, w), w),
            K::Bin(B::Concat, h, l) => {
                let lw = l.w;
                if lo >= lw {
                    extract(&v_of(h.clone()), h.w, lo - lw, w)
                } else if lo + w <= lw {
                    extract(&v_of(l.clone()), lw, lo, w)
                } else {
                    let hpart = extract(&v_of(h.clone()), h.w, 0, lo + w - lw);
                    let lpart = extract(&v_of(l.clone()), lw, lo, lw - lo);
                    concat(&hpart, lo + w - lw, &lpart, lw - lo)
                }
            }
            K::Bin(op @ (B::And | B::Or | B::Xor), x, y) if e.size < 400 => {
                let p = extract(&v_of(x.clone()), x.w, lo, w);
                let q = extract(&v_of(y.clone()), y.w, lo, w);
                bin(*op, w, &p, &q)
            }
            K::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 && e.size < 400 => {
                let p = extract(&v_of(x.clone()), x.w, 0, w);
                let q = extract(&v_of(y.clone()), y.w, 0, w);
                bin(*op, w, &p, &q)
            }
            K::Ite(c, t, f) => {
                if matches!(t.k, K::Const(_)) || matches!(f.k, K::Const(_)) || e.size < 200 {
                    let p = extract(&v_of(t.clone()), t.w, lo, w);
                    let q = extract(&v_of(f.clone()), f.w, lo, w);
                    return ite(&v_of(c.clone()), w, &p, &q);
                }
                v_of(mk(K::Extract(lo, e.clone()), w))
            }
            _ => v_of(mk(K::Extract(lo, e.clone()), w)),
        },
    }
}
pub fn ite(c: &Val, w: u32, t: &Val, f: &Val) -> Val {
    match c {
        Val::C(x) => return if x & 1 == 1 { t.clone() } else { f.clone() },
        Val::U => {}
        _ => {}
    }
    match (t, f) {
        (Val::C(a), Val::C(b)) if a == b => return t.clone(),
        (Val::U, Val::U) => return Val::U,
        (Val::E(a), Val::E(b)) if same(a, b) => return t.clone(),
        _ => {}
    }
    let ce = c.e(1);
    if w == 1 {
        match (t, f) {
            (Val::C(1), Val::C(0)) => return c.clone(),
            (Val::C(0), Val::C(1)) => return not(c, 1),
            (Val::C(0), _) => return bin(B::And, 1, &not(c, 1), f),
            (Val::C(1), _) => return bin(B::Or, 1, c, f),
            (_, Val::C(0)) if !t.has_undef() => return bin(B::And, 1, c, t),
            (_, Val::C(1)) if !t.has_undef() => return bin(B::Or, 1, &not(c, 1), t),
            _ => {}
        }
    }
    if let K::Un(U::Not, n) = &ce.k {
        return ite(&v_of(n.clone()), w, f, t);
    }
    v_of(mk(K::Ite(ce, t.e(w), f.e(w)), w))
}
pub fn un(op: U, w: u32, sw: u32, a: &Val) -> Val {
    match a {
        Val::C(c) => Val::C(cun(op, w, sw, *c)),
        Val::U => Val::U,
        Val::E(e) => match op {
            U::Not => not(a, w),
            U::ZExt => zext(a, sw, w),
            U::SExt => sext(a, sw, w),
            U::FToF if sw == w => a.clone(),
            U::FNeg => bin(B::Xor, w, a, &Val::C(1u128 << (w - 1))),
            U::FAbs => bin(B::And, w, a, &Val::C(mask(w - 1))),
            _ => v_of(mk(K::Un(op, e.clone()), w)),
        },
        Val::A(_) => panic!(),
    }
}

/// Model: values of byte variables.
pub struct Eval<'a> {
    pub model: &'a [u8],
    memo: HashMap<u64, u128>,
}
impl<'a> Eval<'a> {
    pub fn new(model: &'a [u8]) -> Self {
        Eval { model, memo: HashMap::new() }
    }
    pub fn val(&mut self, v: &Val) -> u128 {
        match v {
            Val::C(c) => *c,
            Val::E(e) => self.expr(e),
            _ => 0,
        }
    }
    pub fn expr(&mut self, e: &Expr) -> u128 {
        let big = e.size > 64;
        if big {
            if let Some(v) = self.memo.get(&e.hash) {
                return *v;
            }
        }
        let r = match &e.k {
            K::Const(c) => *c,
            K::Var(v) => self.model.get(*v as usize).copied().unwrap_or(0) as u128,
            K::Undef(_) => 0,
            K::Un(op, a) => {
                let x = self.expr(a);
                cun(*op, e.w, a.w, x)
            }
            K::Extract(lo, a) => (self.expr(a) >> lo) & mask(e.w),
            K::Parse(kind, t) => {
                let b: Vec<u8> = t.iter().map(|x| self.expr(x) as u8).collect();
                native_parse(*kind, &b)
            }
            K::Ite(c, t, f) => {
                if self.expr(c) & 1 == 1 { self.expr(t) } else { self.expr(f) }
            }
            K::Bin(B::Concat, a, b) => (self.expr(a) << b.w) | self.expr(b),
            K::Bin(op, a, b) => {
                let x = self.expr(a);
                let y = self.expr(b);
                match cbin(*op, a.w, x, y) {
                    Some(v) => v,
                    // SMT-LIB semantics for division by zero and oversized shifts
                    None => match op {
                        B::UDiv => mask(a.w),
                        B::URem | B::SRem => x,
                        B::SDiv => if sext128(x, a.w) < 0 { 1 } else { mask(a.w) },
                        B::AShr => if sext128(x, a.w) < 0 { mask(a.w) } else { 0 },
                        _ => 0,
                    },
                }
            }
        };
        if big {
            self.memo.insert(e.hash, r);
        }
        r
    }
}
/// Rename all undef leaves to fresh ones (for two-copy dependence queries).
pub fn rename_undef(e: &Expr, memo: &mut HashMap<u64, Expr>) -> Expr {
    if !e.undef {
        return e.clone();
    }
    if let Some(r) = memo.get(&e.hash) {
        return r.clone();
    }
    let r = match &e.k {
        K::Undef(_) => fresh_undef(e.w),
        K::Un(op, a) => mk(K::Un(*op, rename_undef(a, memo)), e.w),
        K::Extract(lo, a) => mk(K::Extract(*lo, rename_undef(a, memo)), e.w),
        K::Bin(op, a, b) => mk(K::Bin(*op, rename_undef(a, memo), rename_undef(b, memo)), e.w),
        K::Ite(c, t, f) => mk(K::Ite(rename_undef(c, memo), rename_undef(t, memo), rename_undef(f, memo)), e.w),
        _ => e.clone(),
    };
    memo.insert(e.hash, r.clone());
    r
}
/// The formula under an assignment of the byte variables: undef leaves remain.
pub fn subst(e: &Expr, model: &[u8], memo: &mut HashMap<u64, Val>) -> Val {
    if !e.undef {
        return Val::C(Eval::new(model).expr(e));
    }
    if let Some(r) = memo.get(&e.hash) {
        return r.clone();
    }
    let r = match &e.k {
        K::Un(op, a) => {
            let x = subst(a, model, memo);
            match op {
                U::Not => not(&x, e.w),
                U::ZExt => zext(&x, a.w, e.w),
                U::SExt => sext(&x, a.w, e.w),
                _ => un(*op, e.w, a.w, &x),
            }
        }
        K::Extract(lo, a) => extract(&subst(a, model, memo), a.w, *lo, e.w),
        K::Bin(B::Concat, a, b) => concat(&subst(a, model, memo), a.w, &subst(b, model, memo), b.w),
        K::Bin(op, a, b) => bin(*op, a.w, &subst(a, model, memo), &subst(b, model, memo)),
        K::Ite(c, t, f) => match subst(c, model, memo) {
            Val::C(k) => if k & 1 == 1 { subst(t, model, memo) } else { subst(f, model, memo) },
            k => ite(&k, e.w, &subst(t, model, memo), &subst(f, model, memo)),
        },
        _ => v_of(e.clone()),
    };
    memo.insert(e.hash, r.clone());
    r
}
/// A byte whose value is nothing but undef
pub fn pure_undef(e: &Expr) -> bool {
    match &e.k {
        K::Undef(_) => true,
        K::Extract(_, a) => pure_undef(a),
        K::Bin(B::Concat, a, b) => pure_undef(a) && pure_undef(b),
        _ => false,
    }
}
pub fn show(e: &Expr, depth: u32) -> String {
    if depth == 0 {
        return "..".into();
    }
    match &e.k {
        K::Const(c) => format!("{:#x}", c),
        K::Var(v) => format!("b{}", v),
        K::Undef(v) => format!("undef{}", v),
        K::Un(op, a) => format!("{:?}{}({})", op, e.w, show(a, depth - 1)),
        K::Bin(op, a, b) => format!("({} {:?} {})", show(a, depth - 1), op, show(b, depth - 1)),
        K::Ite(c, t, f) => format!("ite({},{},{})", show(c, depth - 1), show(t, depth - 1), show(f, depth - 1)),
        K::Parse(k, t) => format!("Parse{}({})", k, t.iter().map(|e| show(e, depth - 1)).collect::<Vec<_>>().join(",")),
        K::Extract(lo, a) => format!("{}[{}+:{}]", show(a, depth - 1), lo, e.w),
    }
}

/// Straight-line code for a set of expressions: evaluating many assignments of the same formula.
pub struct Code {
    ops: Vec<Op>,
    slots: Vec<u128>,
}
enum Op {
    Const(u128),
    Var(u32),
    Un(U, u32, u32, u32),
    Bin(B, u32, u32, u32, u32),
    Ite(u32, u32, u32),
    Extract(u32, u32, u32),
    Parse(u32, Vec<u32>),
}
impl Code {
    pub fn new() -> Self {
        Code { ops: vec![], slots: vec![] }
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn add(&mut self, e: &Expr, ix: &mut HashMap<u64, u32>) -> u32 {
        if let Some(i) = ix.get(&e.hash) {
            return *i;
        }
        let op = match &e.k {
            K::Const(c) => Op::Const(*c),
            K::Var(v) => Op::Var(*v),
            K::Undef(_) => Op::Const(0),
            K::Un(op, a) => Op::Un(*op, e.w, a.w, self.add(a, ix)),
            K::Bin(op, a, b) => {
                let x = self.add(a, ix);
                let y = self.add(b, ix);
                Op::Bin(*op, a.w, b.w, x, y)
            }
            K::Ite(c, t, f) => {
                let c = self.add(c, ix);
                let t = self.add(t, ix);
                Op::Ite(c, t, self.add(f, ix))
            }
            K::Extract(lo, a) => Op::Extract(*lo, e.w, self.add(a, ix)),
            K::Parse(k, t) => Op::Parse(*k, t.iter().map(|x| self.add(x, ix)).collect()),
        };
        self.ops.push(op);
        self.slots.push(0);
        let i = self.ops.len() as u32 - 1;
        ix.insert(e.hash, i);
        i
    }
    /// evaluate the operations `from..to` (they depend on earlier ones)
    pub fn run(&mut self, model: &[u8], from: usize, to: usize) {
        let s = &mut self.slots;
        for i in from..to {
            s[i] = match &self.ops[i] {
                Op::Const(c) => *c,
                Op::Var(v) => model.get(*v as usize).copied().unwrap_or(0) as u128,
                Op::Un(op, w, aw, a) => cun(*op, *w, *aw, s[*a as usize]),
                Op::Bin(B::Concat, _, bw, a, b) => (s[*a as usize] << bw) | s[*b as usize],
                Op::Bin(op, aw, _, a, b) => {
                    let (x, y) = (s[*a as usize], s[*b as usize]);
                    match cbin(*op, *aw, x, y) {
                        Some(v) => v,
                        None => match op {
                            B::UDiv => mask(*aw),
                            B::URem | B::SRem => x,
                            B::SDiv => if sext128(x, *aw) < 0 { 1 } else { mask(*aw) },
                            B::AShr => if sext128(x, *aw) < 0 { mask(*aw) } else { 0 },
                            _ => 0,
                        },
                    }
                }
                Op::Ite(c, t, f) => if s[*c as usize] & 1 == 1 { s[*t as usize] } else { s[*f as usize] },
                Op::Extract(lo, w, a) => (s[*a as usize] >> lo) & mask(*w),
                Op::Parse(k, t) => {
                    let mut b = [0u8; 64];
                    for (j, x) in t.iter().enumerate() {
                        b[j] = s[*x as usize] as u8;
                    }
                    native_parse(*k, &b[..t.len()])
                }
            };
        }
    }
    pub fn get(&self, i: u32) -> u128 {
        self.slots[i as usize]
    }
}
