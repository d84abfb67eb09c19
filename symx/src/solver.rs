//! Z3 back end (C API), one context per worker thread, shared query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_geq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
}
extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error code {}", code);
    Z3_ERRORS.fetch_add(1, Ordering::Relaxed);
}
pub static Z3_ERRORS: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub cache_hits: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    /// decided by the finite-domain procedure instead of Z3
    pub finite: AtomicU64,
    pub nanos: AtomicU64,
    pub max_nanos: AtomicU64,
}

/// Assignment of the variables in the slice (var id, byte value)
pub type Assign = std::sync::Arc<Vec<(u32, u8)>>;
#[derive(Clone)]
pub enum Res {
    Sat(Assign),
    Unsat,
    Unknown,
}

const SHARDS: usize = 64;
pub struct Shared {
    cache: Vec<Mutex<HashMap<(u64, u64), Res>>>,
    pub stats: Stats,
    pub timeout_ms: u32,
}
impl Shared {
    pub fn new(timeout_ms: u32) -> Self {
        Shared {
            cache: (0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect(),
            stats: Stats::default(),
            timeout_ms,
        }
    }
}
pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Solver<'a> {
    c: P,
    bv: P,
    fp: P,
    memo: HashMap<(u64, u32), P>,
    temps: Vec<P>,
    pub sh: &'a Shared,
}
impl Drop for Solver<'_> {
    fn drop(&mut self) {
        self.memo.clear();
        unsafe {
            for a in self.temps.drain(..) {
                Z3_dec_ref(self.c, a);
            }
            Z3_solver_dec_ref(self.c, self.bv);
            Z3_solver_dec_ref(self.c, self.fp);
            Z3_del_context(self.c);
        }
    }
}
fn sup_inter(a: &[u64; NSUP], b: &[u64; NSUP]) -> bool {
    (0..NSUP).any(|i| a[i] & b[i] != 0)
}
impl<'a> Solver<'a> {
    pub fn new(sh: &'a Shared) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mk = |name: &str| {
                let l = CString::new(name).unwrap();
                let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
                Z3_solver_inc_ref(c, s);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let t = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), sh.timeout_ms);
                Z3_solver_set_params(c, s, p);
                Z3_params_dec_ref(c, p);
                s
            };
            let bv = mk("QF_BV");
            let fp = mk("QF_BVFP");
            Solver { c, bv, fp, memo: HashMap::new(), temps: Vec::new(), sh }
        }
    }
    fn t(&mut self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        self.temps.push(a);
        a
    }
    fn flush_if_big(&mut self) {
        if self.temps.len() > 400_000 {
            self.memo.clear();
            for a in self.temps.drain(..) {
                unsafe { Z3_dec_ref(self.c, a) };
            }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w) }
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            let s = self.sort(w);
            if w <= 64 {
                let a = Z3_mk_unsigned_int64(self.c, v as u64, s);
                self.t(a)
            } else {
                let st = CString::new(v.to_string()).unwrap();
                let a = Z3_mk_numeral(self.c, st.as_ptr(), s);
                self.t(a)
            }
        }
    }
    fn b2bv(&mut self, b: P) -> P {
        unsafe {
            let one = self.num(1, 1);
            let zero = self.num(0, 1);
            let a = Z3_mk_ite(self.c, b, one, zero);
            self.t(a)
        }
    }
    /// boolean form of a width-1 expression
    fn tb(&mut self, e: &Expr) -> P {
        let key = (e.hash, 1_000_000);
        if let Some(p) = self.memo.get(&key) {
            return *p;
        }
        let c = self.c;
        let r = unsafe {
            match &e.k {
                K::Bin(B::Eq, a, b) => {
                    if a.w == 1 {
                        let (x, y) = (self.tb(a), self.tb(b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.tr(a), self.tr(b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                K::Bin(B::Ult, a, b) => { let (x, y) = (self.tr(a), self.tr(b)); Z3_mk_bvult(c, x, y) }
                K::Bin(B::Ule, a, b) => { let (x, y) = (self.tr(a), self.tr(b)); Z3_mk_bvule(c, x, y) }
                K::Bin(B::Slt, a, b) => { let (x, y) = (self.tr(a), self.tr(b)); Z3_mk_bvslt(c, x, y) }
                K::Bin(B::Sle, a, b) => { let (x, y) = (self.tr(a), self.tr(b)); Z3_mk_bvsle(c, x, y) }
                K::Bin(B::And, a, b) => { let v = [self.tb(a), self.tb(b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                K::Bin(B::Or, a, b) => { let v = [self.tb(a), self.tb(b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                K::Bin(B::Xor, a, b) => { let (x, y) = (self.tb(a), self.tb(b)); Z3_mk_xor(c, x, y) }
                K::Bin(op @ (B::FEq | B::FLt | B::FLe | B::FUno), a, b) => {
                    let (x, y) = (self.tofp(a), self.tofp(b));
                    match op {
                        B::FEq => Z3_mk_fpa_eq(c, x, y),
                        B::FLt => Z3_mk_fpa_lt(c, x, y),
                        B::FLe => Z3_mk_fpa_leq(c, x, y),
                        _ => {
                            let n1 = Z3_mk_fpa_is_nan(c, x);
                            let n1 = self.t(n1);
                            let n2 = Z3_mk_fpa_is_nan(c, y);
                            let n2 = self.t(n2);
                            let v = [n1, n2];
                            Z3_mk_or(c, 2, v.as_ptr())
                        }
                    }
                }
                K::Un(U::Not, a) => { let x = self.tb(a); Z3_mk_not(c, x) }
                K::Ite(k, a, b) => { let (k, x, y) = (self.tb(k), self.tb(a), self.tb(b)); Z3_mk_ite(c, k, x, y) }
                _ => {
                    let x = self.tr(e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        let r = self.t(r);
        self.memo.insert(key, r);
        r
    }
    fn fsort(&mut self, w: u32) -> P {
        unsafe { if w == 32 { Z3_mk_fpa_sort_32(self.c) } else { Z3_mk_fpa_sort_64(self.c) } }
    }
    fn tofp(&mut self, e: &Expr) -> P {
        let key = (e.hash, 2_000_000);
        if let Some(p) = self.memo.get(&key) {
            return *p;
        }
        let c = self.c;
        let s = self.fsort(e.w);
        let s = self.t(s);
        let rne = unsafe { Z3_mk_fpa_rne(c) };
        let rne = self.t(rne);
        let r = unsafe {
            match &e.k {
                K::Bin(op @ (B::FAdd | B::FSub | B::FMul | B::FDiv), a, b) => {
                    let (x, y) = (self.tofp(a), self.tofp(b));
                    match op {
                        B::FAdd => Z3_mk_fpa_add(c, rne, x, y),
                        B::FSub => Z3_mk_fpa_sub(c, rne, x, y),
                        B::FMul => Z3_mk_fpa_mul(c, rne, x, y),
                        _ => Z3_mk_fpa_div(c, rne, x, y),
                    }
                }
                K::Bin(op @ (B::FMin | B::FMax), a, b) => {
                    // minnum/maxnum: if one is NaN return the other
                    let (x, y) = (self.tofp(a), self.tofp(b));
                    let nx = Z3_mk_fpa_is_nan(c, x);
                    let nx = self.t(nx);
                    let ny = Z3_mk_fpa_is_nan(c, y);
                    let ny = self.t(ny);
                    let cmp = if *op == B::FMin { Z3_mk_fpa_leq(c, x, y) } else { Z3_mk_fpa_geq(c, x, y) };
                    let cmp = self.t(cmp);
                    let i = Z3_mk_ite(c, cmp, x, y);
                    let i = self.t(i);
                    let i = Z3_mk_ite(c, ny, x, i);
                    let i = self.t(i);
                    Z3_mk_ite(c, nx, y, i)
                }
                K::Un(U::FToF, a) => { let x = self.tofp(a); Z3_mk_fpa_to_fp_float(c, rne, x, s) }
                K::Un(U::SToF, a) => { let x = self.tr(a); Z3_mk_fpa_to_fp_signed(c, rne, x, s) }
                K::Un(U::UToF, a) => { let x = self.tr(a); Z3_mk_fpa_to_fp_unsigned(c, rne, x, s) }
                K::Un(U::FSqrt, a) => { let x = self.tofp(a); Z3_mk_fpa_sqrt(c, rne, x) }
                K::Un(op @ (U::FFloor | U::FCeil | U::FTrunc | U::FRoundEven | U::FRoundAway), a) => {
                    let rm = match op {
                        U::FFloor => Z3_mk_fpa_rtn(c),
                        U::FCeil => Z3_mk_fpa_rtp(c),
                        U::FTrunc => Z3_mk_fpa_rtz(c),
                        U::FRoundEven => Z3_mk_fpa_rne(c),
                        _ => Z3_mk_fpa_rna(c),
                    };
                    let rm = self.t(rm);
                    let x = self.tofp(a);
                    Z3_mk_fpa_round_to_integral(c, rm, x)
                }
                _ => { let x = self.tr(e); Z3_mk_fpa_to_fp_bv(c, x, s) }
            }
        };
        let r = self.t(r);
        self.memo.insert(key, r);
        r
    }
    fn tr(&mut self, e: &Expr) -> P {
        let key = (e.hash, e.w);
        if let Some(p) = self.memo.get(&key) {
            return *p;
        }
        let c = self.c;
        let w = e.w;
        let r = unsafe {
            match &e.k {
                K::Parse(..) => unreachable!(),
                K::Const(v) => self.num(*v, w),
                K::Var(v) => {
                    let s = self.sort(w);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, *v as c_int), s)
                }
                K::Undef(v) => {
                    let s = self.sort(w);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, (1 << 28) + *v as c_int), s)
                }
                K::Extract(lo, a) => { let x = self.tr(a); Z3_mk_extract(c, lo + w - 1, *lo, x) }
                K::Ite(k, a, b) => { let (k, x, y) = (self.tb(k), self.tr(a), self.tr(b)); Z3_mk_ite(c, k, x, y) }
                K::Un(U::ZExt, a) => { let x = self.tr(a); Z3_mk_zero_ext(c, w - a.w, x) }
                K::Un(U::SExt, a) => { let x = self.tr(a); Z3_mk_sign_ext(c, w - a.w, x) }
                K::Un(U::Not, a) => { let x = self.tr(a); Z3_mk_bvnot(c, x) }
                K::Un(U::FToSSat, a) => {
                    let x = self.tofp(a);
                    let fs = self.fsort(a.w);
                    let lim = 2f64.powi(w as i32 - 1);
                    let lo = Z3_mk_fpa_numeral_double(c, -lim, fs);
                    let lo = self.t(lo);
                    let hi = Z3_mk_fpa_numeral_double(c, lim, fs);
                    let hi = self.t(hi);
                    let nan = Z3_mk_fpa_is_nan(c, x);
                    let nan = self.t(nan);
                    let below = Z3_mk_fpa_leq(c, x, lo);
                    let below = self.t(below);
                    let above = Z3_mk_fpa_geq(c, x, hi);
                    let above = self.t(above);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let rtz = self.t(rtz);
                    let conv = Z3_mk_fpa_to_sbv(c, rtz, x, w);
                    let conv = self.t(conv);
                    let zero = self.num(0, w);
                    let min = self.num(1u128 << (w - 1), w);
                    let max = self.num(mask(w - 1), w);
                    let i = Z3_mk_ite(c, above, max, conv);
                    let i = self.t(i);
                    let i = Z3_mk_ite(c, below, min, i);
                    let i = self.t(i);
                    Z3_mk_ite(c, nan, zero, i)
                }
                K::Un(U::FToUSat, a) => {
                    let x = self.tofp(a);
                    let fs = self.fsort(a.w);
                    let lim = 2f64.powi(w as i32);
                    let lo = Z3_mk_fpa_numeral_double(c, 0.0, fs);
                    let lo = self.t(lo);
                    let hi = Z3_mk_fpa_numeral_double(c, lim, fs);
                    let hi = self.t(hi);
                    let above = Z3_mk_fpa_geq(c, x, hi);
                    let above = self.t(above);
                    let pos = Z3_mk_fpa_geq(c, x, lo);
                    let pos = self.t(pos);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let rtz = self.t(rtz);
                    let conv = Z3_mk_fpa_to_ubv(c, rtz, x, w);
                    let conv = self.t(conv);
                    let zero = self.num(0, w);
                    let max = self.num(mask(w), w);
                    let i = Z3_mk_ite(c, above, max, conv);
                    let i = self.t(i);
                    Z3_mk_ite(c, pos, i, zero)
                }
                K::Un(_, _) => {
                    let f = self.tofp(e);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                K::Bin(op, a, b) => match op {
                    B::Eq | B::Ult | B::Ule | B::Slt | B::Sle | B::FEq | B::FLt | B::FLe | B::FUno => {
                        let bo = self.tb(e);
                        self.b2bv(bo)
                    }
                    B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem | B::FMin | B::FMax => {
                        let f = self.tofp(e);
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                    _ => {
                        let (x, y) = (self.tr(a), self.tr(b));
                        match op {
                            B::Add => Z3_mk_bvadd(c, x, y),
                            B::Sub => Z3_mk_bvsub(c, x, y),
                            B::Mul => Z3_mk_bvmul(c, x, y),
                            B::UDiv => Z3_mk_bvudiv(c, x, y),
                            B::SDiv => Z3_mk_bvsdiv(c, x, y),
                            B::URem => Z3_mk_bvurem(c, x, y),
                            B::SRem => Z3_mk_bvsrem(c, x, y),
                            B::Shl => Z3_mk_bvshl(c, x, y),
                            B::LShr => Z3_mk_bvlshr(c, x, y),
                            B::AShr => Z3_mk_bvashr(c, x, y),
                            B::And => Z3_mk_bvand(c, x, y),
                            B::Or => Z3_mk_bvor(c, x, y),
                            B::Xor => Z3_mk_bvxor(c, x, y),
                            B::Concat => Z3_mk_concat(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                },
            }
        };
        let r = self.t(r);
        self.memo.insert(key, r);
        r
    }
    /// Is pc /\ extra satisfiable? The model covers the variables connected to `extra`.
    pub fn check(&mut self, pc: &[Expr], extra: &Expr) -> Res {
        // independence slicing
        let mut sup = extra.sup;
        let mut any_undef = extra.undef;
        let mut chosen = vec![false; pc.len()];
        loop {
            let mut grew = false;
            for (i, e) in pc.iter().enumerate() {
                if !chosen[i] && (sup_inter(&e.sup, &sup) || (any_undef && e.undef)) {
                    chosen[i] = true;
                    for k in 0..NSUP {
                        sup[k] |= e.sup[k];
                    }
                    any_undef |= e.undef;
                    grew = true;
                }
            }
            if !grew {
                break;
            }
        }
        let mut sel: Vec<&Expr> = pc.iter().enumerate().filter(|(i, _)| chosen[*i]).map(|(_, e)| e).collect();
        sel.push(extra);
        let mut hs: Vec<u64> = sel.iter().map(|e| e.hash).collect();
        hs.sort_unstable();
        hs.dedup();
        let mut k1 = 0x517cc1b727220a95u64;
        let mut k2 = 0x2545F4914F6CDD1Du64;
        for h in &hs {
            k1 = (k1 ^ h).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
            k2 = (k2.rotate_left(13) ^ h.wrapping_mul(0xD6E8FEB86659FD93)).wrapping_mul(0xA0761D6478BD642F);
        }
        let key = (k1, k2);
        let shard = (k1 >> 20) as usize % SHARDS;
        let st = &self.sh.stats;
        if let Some(r) = self.sh.cache[shard].lock().unwrap().get(&key) {
            st.cache_hits.fetch_add(1, Ordering::Relaxed);
            return r.clone();
        }
        let r = match self.finite(&sel, &sup, any_undef) {
            Some(r) => r,
            None => self.raw(&sel, &sup),
        };
        self.sh.cache[shard].lock().unwrap().insert(key, r.clone());
        r
    }
    /// Formulas over few byte variables that are hard to bit-blast (floating point, big terms) or can only
    /// be evaluated (`K::Parse`): backtracking over all assignments, each constraint being evaluated as soon
    /// as its variables are assigned. Gives up (None) when that is too much work.
    fn finite(&mut self, sel: &[&Expr], sup: &[u64; NSUP], undef: bool) -> Option<Res> {
        let opaque = sel.iter().any(|e| e.opaque);
        if undef && !opaque {
            return None;
        }
        let unds: Vec<&Expr> = sel.iter().filter(|e| e.undef).copied().collect();
        let vars: Vec<u32> = (0..64 * NSUP as u32).filter(|v| sup[(v / 64) as usize] >> (v % 64) & 1 == 1).collect();
        let total: u64 = sel.iter().map(|e| e.size as u64).sum();
        if vars.is_empty() || !(opaque || sel.iter().any(|e| e.fp) || total > 400) || (!opaque && vars.len() > 8) {
            return None;
        }
        let mut budget: i64 = if opaque {
            3_000_000_000
        } else if sel.iter().any(|e| e.fp) {
            60_000_000
        } else {
            3_000_000
        };
        let t0 = std::time::Instant::now();
        // constraints by the last of their variables, small ones first
        let mut at: Vec<Vec<&Expr>> = vec![vec![]; vars.len()];
        for e in sel.iter().filter(|e| !e.undef) {
            let last = vars.iter().rposition(|&v| e.sup[(v / 64) as usize] >> (v % 64) & 1 == 1);
            match last {
                Some(i) => at[i].push(e),
                None => {
                    if Eval::new(&[]).expr(e) & 1 == 0 {
                        return Some(Res::Unsat);
                    }
                }
            }
        }
        let mut code = Code::new();
        let mut ix = HashMap::new();
        let mut plan: Vec<Vec<(usize, usize, u32)>> = vec![];
        for l in &mut at {
            l.sort_by_key(|e| e.size);
            plan.push(
                l.iter()
                    .map(|e| {
                        let from = code.len();
                        let r = code.add(e, &mut ix);
                        (from, code.len(), r)
                    })
                    .collect(),
            );
        }
        let mut model = vec![0u8; *vars.last().unwrap() as usize + 1];
        let mut next = vec![0u16; vars.len()];
        let mut k = 0usize;
        let mut res = Res::Unsat;
        'search: loop {
            if next[k] == 256 {
                if k == 0 {
                    break;
                }
                next[k] = 0;
                k -= 1;
                continue;
            }
            model[vars[k] as usize] = next[k] as u8;
            next[k] += 1;
            budget -= 4;
            let mut ok = true;
            for &(from, to, r) in &plan[k] {
                code.run(&model, from, to);
                budget -= (to - from) as i64;
                if code.get(r) & 1 == 0 {
                    ok = false;
                    break;
                }
            }
            if budget < 0 {
                if std::env::var("SYMX_SLOW").is_ok() {
                    eprintln!("finite gives up {}ms vars={} size={} n={} opq={}: {}", t0.elapsed().as_millis(), vars.len(), total, sel.len(), opaque, show(sel.last().unwrap(), 6));
                }
                return None;
            }
            if ok {
                if k + 1 == vars.len() {
                    if !unds.is_empty() {
                        budget -= 1000;
                        let mut memo = HashMap::new();
                        let rest: Vec<Val> = unds.iter().map(|e| subst(e, &model, &mut memo)).collect();
                        if rest.iter().any(|v| matches!(v, Val::C(0))) {
                            continue 'search;
                        }
                        let rest: Vec<Expr> = rest.iter().filter(|v| !matches!(v, Val::C(_))).map(|v| v.e(1)).collect();
                        if !rest.is_empty() {
                            let sel: Vec<&Expr> = rest.iter().collect();
                            match self.raw(&sel, &[0; NSUP]) {
                                Res::Sat(_) => {}
                                Res::Unsat => continue 'search,
                                Res::Unknown => return None,
                            }
                        }
                    }
                    res = Res::Sat(std::sync::Arc::new(vars.iter().map(|&v| (v, model[v as usize])).collect()));
                    break 'search;
                }
                k += 1;
                next[k] = 0;
            }
        }
        let dt = t0.elapsed().as_nanos() as u64;
        let st = &self.sh.stats;
        st.finite.fetch_add(1, Ordering::Relaxed);
        st.nanos.fetch_add(dt, Ordering::Relaxed);
        st.max_nanos.fetch_max(dt, Ordering::Relaxed);
        if dt > 300_000_000 && std::env::var("SYMX_SLOW").is_ok() {
            eprintln!("slow finite {}ms vars={} size={}: {}", dt / 1_000_000, vars.len(), total, show(sel.last().unwrap(), 6));
        }
        if !opaque && std::env::var("SYMX_CROSS").is_ok() {
            let z = self.raw(sel, sup);
            if !matches!((&z, &res), (Res::Sat(_), Res::Sat(_)) | (Res::Unsat, Res::Unsat) | (Res::Unknown, _)) {
                eprintln!("finite-domain procedure and Z3 disagree: {}", show(sel.last().unwrap(), 6));
                std::process::abort();
            }
        }
        Some(res)
    }
    fn raw(&mut self, sel: &[&Expr], sup: &[u64; NSUP]) -> Res {
        if sel.iter().any(|e| e.opaque) {
            self.sh.stats.unknown.fetch_add(1, Ordering::Relaxed);
            return Res::Unknown;
        }
        self.flush_if_big();
        let t0 = std::time::Instant::now();
        let fp = sel.iter().any(|e| e.fp);
        let s = if fp { self.fp } else { self.bv };
        let c = self.c;
        let res = unsafe {
            Z3_solver_reset(c, s);
            for e in sel {
                let a = self.tb(e);
                Z3_solver_assert(c, s, a);
            }
            let errs = Z3_ERRORS.load(Ordering::Relaxed);
            let r = Z3_solver_check(c, s);
            if Z3_ERRORS.load(Ordering::Relaxed) != errs || Z3_get_error_code(c) != 0 {
                Res::Unknown
            } else {
                match r {
                    -1 => Res::Unsat,
                    1 => {
                        let m = Z3_solver_get_model(c, s);
                        Z3_model_inc_ref(c, m);
                        let mut out = Vec::new();
                        for v in 0..(64 * NSUP as u32) {
                            if sup[(v / 64) as usize] >> (v % 64) & 1 == 1 {
                                let ve = var(v, 8);
                                let a = self.tr(&ve);
                                let mut res: P = std::ptr::null_mut();
                                let mut val = 0u64;
                                if Z3_model_eval(c, m, a, true, &mut res) && !res.is_null() {
                                    Z3_inc_ref(c, res);
                                    Z3_get_numeral_uint64(c, res, &mut val);
                                    Z3_dec_ref(c, res);
                                }
                                out.push((v, val as u8));
                            }
                        }
                        Z3_model_dec_ref(c, m);
                        Res::Sat(std::sync::Arc::new(out))
                    }
                    _ => Res::Unknown,
                }
            }
        };
        let dt = t0.elapsed().as_nanos() as u64;
        let st = &self.sh.stats;
        st.queries.fetch_add(1, Ordering::Relaxed);
        st.nanos.fetch_add(dt, Ordering::Relaxed);
        st.max_nanos.fetch_max(dt, Ordering::Relaxed);
        match res {
            Res::Sat(_) => &st.sat,
            Res::Unsat => &st.unsat,
            Res::Unknown => &st.unknown,
        }
        .fetch_add(1, Ordering::Relaxed);
        if dt > 300_000_000 && std::env::var("SYMX_SLOW").is_ok() {
            eprintln!("slow query {}ms fp={} n={} size={}: {}", dt / 1_000_000, fp, sel.len(), sel.iter().map(|e| e.size).sum::<u32>(), show(sel.last().unwrap(), 6));
        }
        res
    }
}
