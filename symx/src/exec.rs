//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Res, Shared, Solver};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};

pub const MAXVARS: usize = 64 * NSUP;
pub const OPT_PANIC_OK: u64 = 1;
pub const OPT_LEAK_OK: u64 = 2;

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub b: u32,
    pub ip: u32,
    pub prev: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Arc<Frame>>,
    pub cur: Frame,
    pub mem: Mem,
    pub pc: Vec<Expr>,
    pub model: Arc<Vec<u8>>,
    pub nvars: u32,
    pub steps: u64,
    pub outs: Vec<Val>,
    pub wit: u64,
    pub checks: u32,
    pub opts: u64,
    pub forks: u32,
    pub tlskeys: u64,
}
#[derive(Debug)]
pub enum Stop {
    Done,
    Infeasible,
    Panic(String, String),
    Err(String, String),
    Incomplete(String),
}
type R<T> = Result<T, Stop>;
fn err<T>(k: &str, m: impl Into<String>) -> R<T> {
    Err(Stop::Err(k.into(), m.into()))
}
fn inc<T>(m: impl Into<String>) -> R<T> {
    Err(Stop::Incomplete(m.into()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sp {
    Normal, NoOp, Bytes, Assume, Check, Fail, Witness, Out, Opts, Conc, Param, IsSym,
    Alloc, Dealloc, Realloc, AllocZ, PanicFmt, PanicNounwind, PanicOther, Oom, Abort,
    MemCpy, MemMove, MemSet, MemCmp, StrLen, MemChr,
    IAssume, Expect, IsConst, ObjSize, Trap,
    AddO, SubO, MulO, SAddO, SSubO, SMulO, USubSat, UAddSat, SSubSat, SAddSat,
    UMin, UMax, SMin, SMax, Abs, CtPop, Ctlz, Cttz, BSwap, BitRev, FshL, FshR,
    FAbs, FMinNum, FMaxNum, FToUS, FToSS, FFloor, FCeil, FTrunc, FRint, FRound, FSqrt, CopySign, Fma,
    RedAnd, RedOr, RedXor, RedAdd, RedMul, RedUMax, RedUMin, RedSMax, RedSMin,
    TlsAddr, LoadRel, UCmp, SCmp, PtrMask, HashOne, RetZero, RetNeg1, Unsup, TypeTest, GetRandom, SyscallGetrandom, KeyCreate, Pow2, Movmsk, ParseF64, ParseF32,
}
pub fn classify(f: &Func) -> Sp {
    use Sp::*;
    let n = f.name.as_str();
    match n {
        "symx_bytes" => return Bytes,
        "symx_assume" => return Assume,
        "symx_check" => return Check,
        "symx_fail" => return Fail,
        "symx_witness" => return Witness,
        "symx_out" => return Out,
        "symx_opts" => return Opts,
        "symx_concretize" => return Conc,
        "symx_param" => return Param,
        "symx_is_symbolic" => return IsSym,
        "__rust_alloc" | "__rdl_alloc" | "__rg_alloc" => return Alloc,
        "__rust_dealloc" | "__rdl_dealloc" | "__rg_dealloc" => return Dealloc,
        "__rust_realloc" | "__rdl_realloc" | "__rg_realloc" => return Realloc,
        "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" | "__rg_alloc_zeroed" => return AllocZ,
        "__rust_no_alloc_shim_is_unstable" => return NoOp,
        "__rust_alloc_error_handler" | "__rdl_oom" | "__rg_oom" => return Oom,
        "rust_begin_unwind" | "rust_panic" | "_Unwind_RaiseException" | "__rust_start_panic" => return PanicOther,
        "abort" | "_exit" | "exit" => return Abort,
        "memcpy" => return MemCpy,
        "memmove" => return MemMove,
        "memset" => return MemSet,
        "memcmp" | "bcmp" => return MemCmp,
        "strlen" => return StrLen,
        "memchr" => return MemChr,
        "getrandom" => return GetRandom,
        "syscall" => return SyscallGetrandom,
        "pthread_key_create" => return KeyCreate,
        "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" | "sched_yield" => return RetZero,
        "fabs" | "fabsf" => return FAbs,
        "fmod" | "fmodf" => return Unsup,
        _ => {}
    }
    if n.starts_with("_ZN4core9panicking9panic_fmt17h") {
        return PanicFmt;
    }
    if n.starts_with("_ZN4core9panicking18panic_nounwind_fmt17h") {
        return PanicNounwind;
    }
    if n.starts_with("_ZN5alloc5alloc18handle_alloc_error17h") {
        return Oom;
    }
    if n.starts_with("_ZN3std9panicking20rust_panic_with_hook17h") || n.starts_with("_ZN3std9panicking11begin_panic17h") || n.starts_with("_ZN3std9panicking13resume_unwind") {
        return PanicOther;
    }
    if n.starts_with("_ZN4core4hash11BuildHasher8hash_one17h") {
        return HashOne;
    }
    // the hash of a YAML node: its keys all collide
    if n.contains("yaml_rust2..yaml..Yaml$u20$as$u20$core..hash..Hash$GT$4hash") {
        return NoOp;
    }
    if n.contains("dec2flt60_$LT$impl$u20$core..str..traits..FromStr$u20$for$u20$f64$GT$8from_str") {
        return ParseF64;
    }
    if n.contains("dec2flt60_$LT$impl$u20$core..str..traits..FromStr$u20$for$u20$f32$GT$8from_str") {
        return ParseF32;
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        if p("lifetime") || p("prefetch") || p("var.annotation") || p("assume.") { return NoOp; }
        if p("assume") { return IAssume; }
        if p("expect") { return Expect; }
        if p("is.constant") { return IsConst; }
        if p("objectsize") { return ObjSize; }
        if p("trap") || p("debugtrap") || p("ubsantrap") { return Trap; }
        if p("memcpy") { return MemCpy; }
        if p("memmove") { return MemMove; }
        if p("memset") { return MemSet; }
        if p("uadd.with") { return AddO; }
        if p("usub.with") { return SubO; }
        if p("umul.with") { return MulO; }
        if p("sadd.with") { return SAddO; }
        if p("ssub.with") { return SSubO; }
        if p("smul.with") { return SMulO; }
        if p("usub.sat") { return USubSat; }
        if p("uadd.sat") { return UAddSat; }
        if p("ssub.sat") { return SSubSat; }
        if p("sadd.sat") { return SAddSat; }
        if p("umin") { return UMin; }
        if p("umax") { return UMax; }
        if p("smin") { return SMin; }
        if p("smax") { return SMax; }
        if p("abs.") { return Abs; }
        if p("ctpop") { return CtPop; }
        if p("ctlz") { return Ctlz; }
        if p("cttz") { return Cttz; }
        if p("bswap") { return BSwap; }
        if p("bitreverse") { return BitRev; }
        if p("fshl") { return FshL; }
        if p("fshr") { return FshR; }
        if p("fabs") { return FAbs; }
        if p("minnum") { return FMinNum; }
        if p("maxnum") { return FMaxNum; }
        if p("fptoui.sat") { return FToUS; }
        if p("fptosi.sat") { return FToSS; }
        if p("floor") { return FFloor; }
        if p("ceil") { return FCeil; }
        if p("trunc") { return FTrunc; }
        if p("rint") || p("nearbyint") || p("roundeven") { return FRint; }
        if p("round") { return FRound; }
        if p("sqrt") { return FSqrt; }
        if p("copysign") { return CopySign; }
        if p("fma") { return Fma; }
        if p("vector.reduce.and") { return RedAnd; }
        if p("vector.reduce.or") { return RedOr; }
        if p("vector.reduce.xor") { return RedXor; }
        if p("vector.reduce.add") { return RedAdd; }
        if p("vector.reduce.mul") { return RedMul; }
        if p("vector.reduce.umax") { return RedUMax; }
        if p("vector.reduce.umin") { return RedUMin; }
        if p("vector.reduce.smax") { return RedSMax; }
        if p("vector.reduce.smin") { return RedSMin; }
        if p("threadlocal.address") { return TlsAddr; }
        if p("load.relative") { return LoadRel; }
        if p("ucmp") { return UCmp; }
        if p("scmp") { return SCmp; }
        if p("ptrmask") { return PtrMask; }
        if p("x86.sse2.pmovmskb") { return Movmsk; }
        if p("x86.sse2.pause") { return NoOp; }
        return Unsup;
    }
    if f.decl {
        return Unsup;
    }
    Normal
}

pub struct ErrRec {
    pub kind: String,
    pub msg: String,
    pub input: Vec<u8>,
    pub trace: Vec<String>,
    pub fns: Vec<String>,
    pub count: u64,
}
pub struct Sample {
    pub input: Vec<u8>,
    pub outs: Vec<u8>,
    pub steps: u64,
    pub panicked: bool,
}
pub struct Cfg {
    pub threads: usize,
    pub time_limit: f64,
    /// stop soon after errors are found
    pub hurry: bool,
    pub step_cap: u64,
    pub max_paths: u64,
    pub depth_cap: usize,
    pub samples: usize,
    pub params: Vec<u64>,
    pub max_errs: usize,
    pub alloc_cap: u64,
    pub concrete: Option<Vec<u8>>,
    pub trace: bool,
}
#[derive(Default)]
pub struct Counters {
    pub paths_done: AtomicU64,
    pub paths_panic: AtomicU64,
    pub paths_err: AtomicU64,
    pub paths_infeasible: AtomicU64,
    pub states: AtomicU64,
    pub steps: AtomicU64,
    pub checks: AtomicU64,
    pub checks_sym: AtomicU64,
    pub wit: AtomicU64,
    pub max_vars: AtomicU64,
    pub max_depth: AtomicU64,
    pub max_path_steps: AtomicU64,
    pub max_heap: AtomicU64,
}
pub struct Engine<'m> {
    pub m: &'m Module,
    pub sp: Vec<Sp>,
    pub cfg: Cfg,
    pub sh: &'m Shared,
    pub c: Counters,
    pub queue: Mutex<(Vec<State>, usize)>,
    pub cv: Condvar,
    pub stop: AtomicBool,
    pub errs: Mutex<Vec<ErrRec>>,
    pub errkeys: Mutex<HashMap<String, usize>>,
    pub incomplete: Mutex<HashMap<String, u64>>,
    pub samples: Mutex<Vec<Sample>>,
    pub start: std::time::Instant,
    pub executed: Mutex<Vec<bool>>,
}
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_ZN") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 3;
    let mut parts: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut l = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            l = l * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + l > n.len() {
            break;
        }
        parts.push(n[i..i + l].to_string());
        i += l;
    }
    if let Some(l) = parts.last() {
        if l.len() == 17 && l.starts_with('h') {
            parts.pop();
        }
    }
    let mut s = parts.join("::");
    for (a, r) in [("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$BP$", "*"), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$u5b$", "["), ("$u5d$", "]"), ("$u27$", "'"), ("$u3b$", ";"), ("..", "::")] {
        s = s.replace(a, r);
    }
    s
}
struct Worker<'e, 'm> {
    e: &'e Engine<'m>,
    s: Solver<'m>,
    exec: Vec<bool>,
    spawned: Vec<State>,
    rng: u64,
}
fn icmp(p: u32, w: u32, a: &Val, b: &Val) -> Val {
    match p {
        32 => bin(B::Eq, w, a, b),
        33 => not(&bin(B::Eq, w, a, b), 1),
        34 => bin(B::Ult, w, b, a),
        35 => bin(B::Ule, w, b, a),
        36 => bin(B::Ult, w, a, b),
        37 => bin(B::Ule, w, a, b),
        38 => bin(B::Slt, w, b, a),
        39 => bin(B::Sle, w, b, a),
        40 => bin(B::Slt, w, a, b),
        _ => bin(B::Sle, w, a, b),
    }
}
fn fcmp(p: u32, w: u32, a: &Val, b: &Val) -> Val {
    let uno = || bin(B::FUno, w, a, b);
    let or = |x: Val, y: Val| bin(B::Or, 1, &x, &y);
    match p {
        0 => Val::C(0),
        1 => bin(B::FEq, w, a, b),
        2 => bin(B::FLt, w, b, a),
        3 => bin(B::FLe, w, b, a),
        4 => bin(B::FLt, w, a, b),
        5 => bin(B::FLe, w, a, b),
        6 => or(bin(B::FLt, w, a, b), bin(B::FLt, w, b, a)),
        7 => not(&uno(), 1),
        8 => uno(),
        9 => or(bin(B::FEq, w, a, b), uno()),
        10 => not(&bin(B::FLe, w, a, b), 1),
        11 => not(&bin(B::FLt, w, a, b), 1),
        12 => not(&bin(B::FLe, w, b, a), 1),
        13 => not(&bin(B::FLt, w, b, a), 1),
        14 => not(&bin(B::FEq, w, a, b), 1),
        _ => Val::C(1),
    }
}
impl<'m> Engine<'m> {
    fn undef(&self, t: TyId) -> Val {
        match &self.m.tys[t as usize].t {
            Ty::Struct(f) => Val::A(Arc::new(f.iter().map(|(t, _)| self.undef(*t)).collect())),
            Ty::Arr(n, e) => Val::A(Arc::new((0..*n).map(|_| self.undef(*e)).collect())),
            Ty::Vec(n, e) => Val::A(Arc::new((0..*n).map(|_| self.undef(*e)).collect())),
            _ => Val::U,
        }
    }
    fn width(&self, t: TyId) -> u32 {
        match self.m.tys[t as usize].t {
            Ty::Int(w) => w,
            Ty::Ptr => 64,
            Ty::Fp(w) => w,
            _ => 0,
        }
    }
    pub fn incomplete(&self, m: &str) {
        *self.incomplete.lock().unwrap().entry(m.to_string()).or_insert(0) += 1;
    }
    pub fn run(&self, entry: u32) {
        let f = &self.m.funcs[entry as usize];
        let st = State {
            frames: vec![],
            cur: Frame { f: entry, b: 0, ip: 0, prev: 0, regs: vec![Val::U; f.nregs as usize], allocas: vec![] },
            mem: Mem::init_globals(self.m),
            pc: vec![],
            model: Arc::new(self.cfg.concrete.clone().map(|mut v| { v.resize(MAXVARS, 0); v }).unwrap_or(vec![0; MAXVARS])),
            nvars: 0,
            steps: 0,
            outs: vec![],
            wit: 0,
            checks: 0,
            opts: 0,
            forks: 0,
            tlskeys: 1,
        };
        self.queue.lock().unwrap().0.push(st);
        self.c.states.fetch_add(1, Ordering::Relaxed);
        std::thread::scope(|sc| {
            for i in 0..self.cfg.threads {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(sc, move || {
                        let mut w = Worker { e: self, s: Solver::new(self.sh), exec: vec![false; self.m.funcs.len()], spawned: vec![], rng: 0x9E37 + i as u64 };
                        w.work();
                        let mut g = self.executed.lock().unwrap();
                        for (i, x) in w.exec.iter().enumerate() {
                            if *x {
                                g[i] = true;
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }
}
impl<'e, 'm> Worker<'e, 'm> {
    fn work(&mut self) {
        loop {
            let st = {
                let mut q = self.e.queue.lock().unwrap();
                loop {
                    if self.e.stop.load(Ordering::Relaxed) {
                        if !q.0.is_empty() {
                            self.e.incomplete("stopped with states left (time or path limit)");
                            q.0.clear();
                        }
                        self.e.cv.notify_all();
                        return;
                    }
                    if let Some(s) = q.0.pop() {
                        q.1 += 1;
                        break s;
                    }
                    if q.1 == 0 {
                        self.e.cv.notify_all();
                        return;
                    }
                    q = self.e.cv.wait(q).unwrap();
                }
            };
            self.run_state(st);
            let mut q = self.e.queue.lock().unwrap();
            q.1 -= 1;
            if self.spawned.is_empty() {
                if q.1 == 0 && q.0.is_empty() {
                    self.e.cv.notify_all();
                }
            } else {
                q.0.append(&mut self.spawned);
                self.e.cv.notify_all();
            }
        }
    }
    fn give(&mut self, s: State) {
        self.e.c.states.fetch_add(1, Ordering::Relaxed);
        self.spawned.push(s);
        // hand work over eagerly when somebody is idle
        if self.spawned.len() >= 1 {
            let mut q = self.e.queue.lock().unwrap();
            if q.0.len() < 64 {
                q.0.append(&mut self.spawned);
                self.e.cv.notify_one();
            }
        }
    }
    fn run_state(&mut self, mut st: State) {
        let s0 = st.steps;
        let e = self.e;
        let stop = loop {
            if st.steps >= e.cfg.step_cap {
                break Stop::Incomplete(format!("step cap in {}", demangle(&e.m.funcs[st.cur.f as usize].name)));
            }
            if st.steps & 0xfff == 0 {
                if e.stop.load(Ordering::Relaxed) {
                    break Stop::Incomplete("stopped".into());
                }
                let t = e.start.elapsed().as_secs_f64();
                if t > e.cfg.time_limit || e.cfg.hurry && t > 60.0 && !e.errs.lock().unwrap().is_empty() {
                    e.stop.store(true, Ordering::Relaxed);
                    e.cv.notify_all();
                    break Stop::Incomplete("time limit".into());
                }
            }
            st.steps += 1;
            if let Err(x) = self.step(&mut st) {
                break x;
            }
        };
        let c = &e.c;
        c.steps.fetch_add(st.steps - s0, Ordering::Relaxed);
        c.max_path_steps.fetch_max(st.steps, Ordering::Relaxed);
        c.max_vars.fetch_max(st.nvars as u64, Ordering::Relaxed);
        c.max_depth.fetch_max(st.forks as u64, Ordering::Relaxed);
        c.max_heap.fetch_max(st.mem.heap_count(), Ordering::Relaxed);
        match stop {
            Stop::Infeasible => {
                c.paths_infeasible.fetch_add(1, Ordering::Relaxed);
            }
            Stop::Done => {
                let mut leak = None;
                if st.opts & OPT_LEAK_OK == 0 {
                    leak = self.leaks(&st);
                }
                if let Some((sz, site)) = leak {
                    let (f, l) = &e.m.locs[site as usize];
                    let _ = (f, l);
                    c.paths_err.fetch_add(1, Ordering::Relaxed);
                    self.record(&st, "leak", &format!("{} bytes leaked", sz), Some(site));
                } else {
                    c.paths_done.fetch_add(1, Ordering::Relaxed);
                    c.wit.fetch_or(st.wit, Ordering::Relaxed);
                    c.checks.fetch_add(st.checks as u64, Ordering::Relaxed);
                    self.sample(&st, false);
                }
            }
            Stop::Panic(m, loc) => {
                if st.opts & OPT_PANIC_OK != 0 {
                    c.paths_panic.fetch_add(1, Ordering::Relaxed);
                    c.wit.fetch_or(st.wit, Ordering::Relaxed);
                    c.checks.fetch_add(st.checks as u64, Ordering::Relaxed);
                    self.sample(&st, true);
                } else {
                    c.paths_err.fetch_add(1, Ordering::Relaxed);
                    self.record(&st, "panic", &format!("{} [{}]", m, loc), None);
                }
            }
            Stop::Err(k, m) => {
                c.paths_err.fetch_add(1, Ordering::Relaxed);
                self.record(&st, &k, &m, None);
            }
            Stop::Incomplete(m) => {
                if std::env::var("SYMX_DEBUG").is_ok() {
                    eprintln!("incomplete: {}\n  {}", m, self.trace(&st).join("\n  "));
                }
                e.incomplete(&m)
            }
        }
        let done = c.paths_done.load(Ordering::Relaxed) + c.paths_err.load(Ordering::Relaxed) + c.paths_panic.load(Ordering::Relaxed);
        if done >= e.cfg.max_paths {
            e.stop.store(true, Ordering::Relaxed);
        }
    }
    fn input(&self, st: &State) -> Vec<u8> {
        st.model[..st.nvars as usize].to_vec()
    }
    fn trace(&self, st: &State) -> Vec<String> {
        let m = self.e.m;
        let mut v = vec![];
        let mut go = |fr: &Frame| {
            let f = &m.funcs[fr.f as usize];
            let i = (fr.ip as usize).min(f.blocks[fr.b as usize].insts.len() - 1);
            let (file, line) = &m.locs[f.blocks[fr.b as usize].insts[i].loc as usize];
            v.push(format!("{} ({}:{})", demangle(&f.name), file, line));
        };
        go(&st.cur);
        for f in st.frames.iter().rev() {
            go(f);
        }
        v.truncate(40);
        v
    }
    fn record(&mut self, st: &State, kind: &str, msg: &str, site: Option<u32>) {
        let m = self.e.m;
        let mut tr = self.trace(st);
        if let Some(s) = site {
            // allocation site: function/line recorded at allocation time
            tr.insert(0, format!("allocated at {}:{}", m.locs[s as usize].0, m.locs[s as usize].1));
        }
        let mut fns: Vec<String> = vec![demangle(&m.funcs[st.cur.f as usize].name)];
        for f in st.frames.iter().rev() {
            fns.push(demangle(&m.funcs[f.f as usize].name));
        }
        let key = format!("{}|{}|{}", kind, msg, tr.iter().take(6).cloned().collect::<Vec<_>>().join("|"));
        let mut ks = self.e.errkeys.lock().unwrap();
        let mut es = self.e.errs.lock().unwrap();
        if let Some(i) = ks.get(&key) {
            es[*i].count += 1;
            return;
        }
        if es.len() >= self.e.cfg.max_errs {
            self.e.incomplete("too many distinct errors");
            return;
        }
        ks.insert(key, es.len());
        es.push(ErrRec { kind: kind.into(), msg: msg.into(), input: self.input(st), trace: tr, fns, count: 1 });
    }
    fn sample(&mut self, st: &State, panicked: bool) {
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let n = self.e.c.paths_done.load(Ordering::Relaxed) + self.e.c.paths_panic.load(Ordering::Relaxed);
        let cap = self.e.cfg.samples;
        if cap == 0 {
            return;
        }
        // reservoir
        let slot = if (n as usize) <= cap { None } else {
            let r = ((self.rng >> 33) % n) as usize;
            if r >= cap { return; }
            Some(r)
        };
        let mut ev = Eval::new(&st.model);
        let outs: Vec<u8> = st.outs.iter().map(|v| ev.val(v) as u8).collect();
        let s = Sample { input: self.input(st), outs, steps: st.steps, panicked };
        let mut g = self.e.samples.lock().unwrap();
        match slot {
            Some(r) if r < g.len() => g[r] = s,
            _ => if g.len() < cap { g.push(s) },
        }
    }
    fn leaks(&self, st: &State) -> Option<(u64, u32)> {
        let live = st.mem.live_heap();
        if live.is_empty() {
            return None;
        }
        // reachable from globals
        let mut seen: HashSet<u64> = HashSet::new();
        let mut work: Vec<u64> = vec![];
        let scan = |o: &Obj, work: &mut Vec<u64>| {
            let mut i = 0;
            while i + 8 <= o.data.len() {
                let a = u64::from_le_bytes(o.data[i..i + 8].try_into().unwrap());
                if a >> 32 >= HEAP0 {
                    work.push(a);
                }
                i += 8;
            }
        };
        for (i, g) in self.e.m.globals.iter().enumerate() {
            if g.constant || g.ext_weak {
                continue;
            }
            let a = slot_base(GLOBAL_SLOT0 + i as u64, g.align);
            if let Some(o) = st.mem.obj(a) {
                scan(o, &mut work);
            }
        }
        while let Some(a) = work.pop() {
            if let Some(o) = st.mem.obj(a) {
                if o.alive && seen.insert(o.base) {
                    scan(o, &mut work);
                }
            }
        }
        live.iter().find(|(b, _, _)| !seen.contains(b)).map(|(_, s, site)| (*s, *site))
    }
    // ---------------------------------------------------------------- path conditions
    fn undef_check(&mut self, st: &State, e: &Expr) -> R<()> {
        if !e.undef {
            return Ok(());
        }
        let mut memo = HashMap::new();
        let r = rename_undef(e, &mut memo);
        let ne = not(&bin(B::Eq, e.w, &v_of(e.clone()), &v_of(r)), 1);
        match ne {
            Val::C(0) => Ok(()),
            Val::E(x) => match self.s.check(&st.pc, &x) {
                Res::Sat(a) => {
                    let _ = a;
                    err("uninitialised-use", "control flow or address depends on uninitialised memory")
                }
                Res::Unsat => Ok(()),
                Res::Unknown => {
                    if std::env::var("SYMX_SLOW").is_ok() {
                        eprintln!("undef? {}", show(e, 9));
                    }
                    inc("solver unknown (undef)")
                }
            },
            _ => err("uninitialised-use", "control flow or address depends on uninitialised memory"),
        }
    }
    fn known(&self, st: &State, c: &Expr) -> Option<bool> {
        for p in &st.pc {
            if p.hash == c.hash {
                return Some(true);
            }
        }
        if let Val::E(n) = not(&Val::E(c.clone()), 1) {
            for p in &st.pc {
                if p.hash == n.hash {
                    return Some(false);
                }
            }
        }
        None
    }
    fn with_model(m: &Arc<Vec<u8>>, a: &crate::solver::Assign) -> Arc<Vec<u8>> {
        let mut v = (**m).clone();
        for (i, b) in a.iter() {
            v[*i as usize] = *b;
        }
        Arc::new(v)
    }
    /// Resolve a boolean on this path; the other outcome, if feasible, is queued
    /// as a copy of the state that re-executes the current instruction.
    fn decide(&mut self, st: &mut State, c: &Val) -> R<bool> {
        let e = match c {
            Val::C(x) => return Ok(x & 1 == 1),
            Val::U => return err("uninitialised-use", "branch on uninitialised value"),
            Val::A(_) => return inc("branch on aggregate"),
            Val::E(e) => e.clone(),
        };
        self.undef_check(st, &e)?;
        if let Some(b) = self.known(st, &e) {
            return Ok(b);
        }
        let b = Eval::new(&st.model).expr(&e) & 1 == 1;
        let neg = match not(&Val::E(e.clone()), 1) {
            Val::E(n) => n,
            // what is known once negated
            Val::C(n) => return Ok(n & 1 == 0),
            _ => return inc("constant negation"),
        };
        let (mine, other) = if b { (e, neg) } else { (neg, e) };
        if self.e.cfg.concrete.is_some() {
            st.pc.push(mine);
            return Ok(b);
        }
        match self.s.check(&st.pc, &other) {
            Res::Sat(a) => {
                let mut o = st.clone();
                o.model = Self::with_model(&st.model, &a);
                o.pc.push(other);
                o.forks += 1;
                o.steps -= 1;
                st.forks += 1;
                self.give(o);
            }
            Res::Unsat => return Ok(b),
            Res::Unknown => self.e.incomplete("solver unknown (branch)"),
        }
        st.pc.push(mine);
        Ok(b)
    }
    /// Make a value concrete on this path; all other feasible values are explored by siblings.
    fn pin(&mut self, st: &mut State, v: &Val, w: u32, what: &str) -> R<u128> {
        let e = match v {
            Val::C(c) => return Ok(*c),
            Val::U => return err("uninitialised-use", format!("{} is uninitialised", what)),
            Val::A(_) => return inc("pin aggregate"),
            Val::E(e) => e.clone(),
        };
        self.undef_check(st, &e)?;
        let x = Eval::new(&st.model).expr(&e);
        let eq = bin(B::Eq, w, v, &Val::C(x));
        if self.decide(st, &eq)? {
            Ok(x)
        } else {
            inc("pin: model mismatch")
        }
    }
    /// Is the condition possible on this path?
    fn feasible(&mut self, st: &State, c: &Val) -> R<Option<Arc<Vec<u8>>>> {
        match c {
            Val::C(x) => Ok(if x & 1 == 1 { Some(st.model.clone()) } else { None }),
            Val::E(e) => {
                if Eval::new(&st.model).expr(e) & 1 == 1 {
                    return Ok(Some(st.model.clone()));
                }
                if self.e.cfg.concrete.is_some() {
                    return Ok(None);
                }
                match self.s.check(&st.pc, e) {
                    Res::Sat(a) => Ok(Some(Self::with_model(&st.model, &a))),
                    Res::Unsat => Ok(None),
                    Res::Unknown => inc("solver unknown"),
                }
            }
            _ => err("uninitialised-use", "check on uninitialised value"),
        }
    }
    fn assume(&mut self, st: &mut State, c: &Val) -> R<()> {
        match c {
            Val::C(x) => if x & 1 == 1 { Ok(()) } else { Err(Stop::Infeasible) },
            Val::E(e) => {
                self.undef_check(st, e)?;
                match self.feasible(st, c)? {
                    Some(m) => {
                        st.model = m;
                        if self.known(st, e).is_none() {
                            st.pc.push(e.clone());
                        }
                        Ok(())
                    }
                    None => Err(Stop::Infeasible),
                }
            }
            _ => err("uninitialised-use", "assume on uninitialised value"),
        }
    }
    /// Assert: report if it can fail, continue under the assumption that it holds.
    fn ensure(&mut self, st: &mut State, c: &Val, kind: &str, msg: &str) -> R<()> {
        match c {
            Val::C(x) => if x & 1 == 1 { Ok(()) } else { err(kind, msg) },
            Val::E(e) => {
                self.undef_check(st, e)?;
                self.e.c.checks_sym.fetch_add(1, Ordering::Relaxed);
                let n = not(c, 1);
                if let Some(m) = self.feasible(st, &n)? {
                    let mut o = st.clone();
                    o.model = m;
                    self.record(&o, kind, msg, None);
                    self.e.c.paths_err.fetch_add(1, Ordering::Relaxed);
                    // continue only if it can also hold
                    self.assume(st, c)
                } else {
                    Ok(())
                }
            }
            _ => err("uninitialised-use", format!("check on uninitialised value: {}", msg)),
        }
    }
    // ---------------------------------------------------------------- values
    #[inline]
    fn v(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.cur.regs[*r as usize].clone(),
            Opd::C(c) => self.e.m.consts[*c as usize].clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if d != u32::MAX {
            st.cur.regs[d as usize] = v;
        }
    }
    fn merr<T>(&self, st: &State, e: MemErr, addr: u64, n: u64, write: bool) -> R<T> {
        let _ = (st, addr);
        let d = match &e {
            MemErr::Oob { off, n, size, kind } => format!("{} of {} bytes at offset {} of a {:?} object of {} bytes", if write { "write" } else { "read" }, n, off, kind, size),
            MemErr::Uaf { kind } => format!("{} of {} bytes in dead {:?} object", if write { "write" } else { "read" }, n, kind),
            MemErr::Misaligned(a, al) => format!("address {:#x} not {}-aligned", a & 0xffff_ffff, al),
            _ => format!("{} of {} bytes", if write { "write" } else { "read" }, n),
        };
        err(e.kind(), d)
    }
    fn read_mem(&self, st: &State, ty: TyId, addr: u64) -> R<Val> {
        let ti = &self.e.m.tys[ty as usize];
        Ok(match &ti.t {
            Ty::Int(w) => {
                let n = ti.store;
                let o = st.mem.obj(addr).unwrap();
                let v = o.read(addr - o.base, n);
                if (n * 8) as u32 != *w { extract(&v, (n * 8) as u32, 0, *w) } else { v }
            }
            Ty::Ptr | Ty::Fp(_) => {
                let o = st.mem.obj(addr).unwrap();
                o.read(addr - o.base, ti.store)
            }
            Ty::Struct(fs) => {
                let mut v = vec![];
                for (t, off) in fs {
                    v.push(self.read_mem(st, *t, addr + off)?);
                }
                Val::A(Arc::new(v))
            }
            Ty::Arr(n, e) => {
                let s = self.e.m.tys[*e as usize].size;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.read_mem(st, *e, addr + s * i)?);
                }
                Val::A(Arc::new(v))
            }
            Ty::Vec(n, e) => {
                let s = self.e.m.tys[*e as usize].size;
                if self.e.width(*e) % 8 != 0 {
                    return inc("load of bit vector");
                }
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.read_mem(st, *e, addr + s * i)?);
                }
                Val::A(Arc::new(v))
            }
            _ => return inc("load of unsupported type"),
        })
    }
    fn write_mem(&self, st: &mut State, ty: TyId, addr: u64, v: &Val) -> R<()> {
        let ti = &self.e.m.tys[ty as usize];
        match &ti.t {
            Ty::Int(w) => {
                let n = ti.store;
                let v = if (n * 8) as u32 != *w { zext(v, *w, (n * 8) as u32) } else { v.clone() };
                let o = st.mem.obj_mut(addr).unwrap();
                o.write(addr - o.base, n, &v);
            }
            Ty::Ptr | Ty::Fp(_) => {
                let o = st.mem.obj_mut(addr).unwrap();
                o.write(addr - o.base, ti.store, v);
            }
            Ty::Struct(fs) => {
                if let Val::A(x) = v {
                    for (i, (t, off)) in fs.iter().enumerate() {
                        self.write_mem(st, *t, addr + off, &x[i])?;
                    }
                } else {
                    return inc("store of non-aggregate");
                }
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let s = self.e.m.tys[*e as usize].size;
                if matches!(ti.t, Ty::Vec(..)) && self.e.width(*e) % 8 != 0 {
                    return inc("store of bit vector");
                }
                if let Val::A(x) = v {
                    for (i, y) in x.iter().enumerate() {
                        self.write_mem(st, *e, addr + s * i as u64, y)?;
                    }
                } else {
                    return inc("store of non-aggregate");
                }
            }
            _ => return inc("store of unsupported type"),
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, ty: TyId, p: &Val, align: u64) -> R<Val> {
        let n = self.e.m.tys[ty as usize].store;
        match p {
            Val::C(a) => {
                let a = *a as u64;
                if n == 0 {
                    return self.read_mem(st, ty, a);
                }
                if let Err(e) = st.mem.check(a, n, false) {
                    return self.merr(st, e, a, n, false);
                }
                if align > 1 && a % align != 0 {
                    return self.merr(st, MemErr::Misaligned(a, align), a, n, false);
                }
                self.read_mem(st, ty, a)
            }
            Val::U => err("uninitialised-use", "load through an uninitialised pointer"),
            Val::A(_) => inc("load via aggregate"),
            Val::E(pe) => {
                self.undef_check(st, pe)?;
                let a = Eval::new(&st.model).expr(pe) as u64;
                if let Err(e) = st.mem.check(a, n, false) {
                    return self.merr(st, e, a, n, false);
                }
                let (base, size) = {
                    let o = st.mem.obj(a).unwrap();
                    (o.base, o.size)
                };
                // does the pointer always stay in this object?
                let off = bin(B::Sub, 64, p, &Val::C(base as u128));
                let inb = bin(B::Ule, 64, &off, &Val::C((size - n) as u128));
                if !self.decide(st, &inb)? {
                    return inc("load: model mismatch");
                }
                let scalar = !matches!(self.e.m.tys[ty as usize].t, Ty::Struct(_) | Ty::Arr(..) | Ty::Vec(..));
                let oe = match &off {
                    Val::C(c) => return self.read_mem(st, ty, base + *c as u64),
                    Val::E(e) => e.clone(),
                    _ => return inc("load offset"),
                };
                let stride = 1u64 << low_zero_bits(&oe).min(12);
                let oval = a - base;
                let first = oval % stride;
                let count = (size - n - first) / stride + 1;
                if !scalar || count > 1100 {
                    let x = self.pin(st, p, 64, "load address")? as u64;
                    return self.read_mem(st, ty, x);
                }
                // narrow by a quick upper bound
                let mut hi = count;
                if count > 64 {
                    // binary search the largest feasible index
                    let (mut lo, mut h) = ((oval - first) / stride, count - 1);
                    while lo < h {
                        let mid = (lo + h + 1) / 2;
                        let c = bin(B::Ule, 64, &Val::C((first + mid * stride) as u128), &off);
                        match self.feasible(st, &c)? {
                            Some(m) => {
                                let y = Eval::new(&m).expr(&oe) as u64;
                                lo = ((y - first) / stride).max(mid).min(h);
                            }
                            None => h = mid - 1,
                        }
                    }
                    hi = lo + 1;
                }
                let mut vals: Vec<Val> = vec![];
                for i in 0..hi {
                    vals.push(self.read_mem(st, ty, base + first + i * stride)?);
                }
                let w = self.e.width(ty);
                // group runs
                let mut runs: Vec<(u64, Val)> = vec![]; // (last index, value)
                for (i, v) in vals.into_iter().enumerate() {
                    if let Some(l) = runs.last_mut() {
                        let eq = match (&l.1, &v) {
                            (Val::C(a), Val::C(b)) => a == b,
                            (Val::E(a), Val::E(b)) => same(a, b),
                            (Val::U, Val::U) => true,
                            _ => false,
                        };
                        if eq {
                            l.0 = i as u64;
                            continue;
                        }
                    }
                    runs.push((i as u64, v));
                }
                fn tree(r: &[(u64, Val)], off: &Val, first: u64, stride: u64, w: u32) -> Val {
                    if r.len() == 1 {
                        return r[0].1.clone();
                    }
                    let mid = r.len() / 2;
                    let bound = first + r[mid - 1].0 * stride;
                    let c = bin(B::Ule, 64, off, &Val::C(bound as u128));
                    let a = tree(&r[..mid], off, first, stride, w);
                    let b = tree(&r[mid..], off, first, stride, w);
                    ite(&c, w, &a, &b)
                }
                Ok(tree(&runs, &off, first, stride, w))
            }
        }
    }
    fn addr_rw(&mut self, st: &mut State, p: &Val, n: u64, write: bool, what: &str) -> R<u64> {
        let a = self.pin(st, p, 64, what)? as u64;
        if n > 0 {
            if let Err(e) = st.mem.check(a, n, write) {
                return self.merr(st, e, a, n, write);
            }
        }
        Ok(a)
    }
    fn map_vec(&self, t: TyId, ops: &[&Val], f: &mut dyn FnMut(TyId, &[&Val]) -> R<Val>) -> R<Val> {
        if let Ty::Vec(n, e) = &self.e.m.tys[t as usize].t {
            let mut out = Vec::with_capacity(*n as usize);
            for i in 0..*n as usize {
                let l: Vec<Val> = ops
                    .iter()
                    .map(|v| match v {
                        Val::A(x) => x[i].clone(),
                        Val::U => Val::U,
                        o => (*o).clone(),
                    })
                    .collect();
                let lr: Vec<&Val> = l.iter().collect();
                out.push(f(*e, &lr)?);
            }
            Ok(Val::A(Arc::new(out)))
        } else {
            f(t, ops)
        }
    }
    fn binop(&mut self, st: &mut State, k: BinK, t: TyId, a: &Val, b: &Val) -> R<Val> {
        if matches!(self.e.m.tys[t as usize].t, Ty::Vec(..)) {
            let (n, e) = match self.e.m.tys[t as usize].t { Ty::Vec(n, e) => (n, e), _ => unreachable!() };
            let get = |v: &Val, i: usize| match v { Val::A(x) => x[i].clone(), _ => Val::U };
            let mut out = vec![];
            for i in 0..n as usize {
                out.push(self.binop(st, k, e, &get(a, i), &get(b, i))?);
            }
            return Ok(Val::A(Arc::new(out)));
        }
        let w = self.e.width(t);
        if w == 0 || w > 128 {
            return inc("wide integer arithmetic");
        }
        let op = match k {
            BinK::Add => B::Add,
            BinK::Sub => B::Sub,
            BinK::Mul => B::Mul,
            BinK::UDiv => B::UDiv,
            BinK::SDiv => B::SDiv,
            BinK::URem => B::URem,
            BinK::SRem => B::SRem,
            BinK::Shl => B::Shl,
            BinK::LShr => B::LShr,
            BinK::AShr => B::AShr,
            BinK::And => B::And,
            BinK::Or => B::Or,
            BinK::Xor => B::Xor,
            BinK::FAdd => B::FAdd,
            BinK::FSub => B::FSub,
            BinK::FMul => B::FMul,
            BinK::FDiv => B::FDiv,
            BinK::FRem => B::FRem,
        };
        if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
            let nz = not(&bin(B::Eq, w, b, &Val::C(0)), 1);
            self.ensure(st, &nz, "division-by-zero", "division by zero")?;
        }
        if op == B::FRem && !matches!((a, b), (Val::C(_), Val::C(_))) {
            return inc("symbolic floating remainder");
        }
        Ok(bin(op, w, a, b))
    }
    fn cast(&mut self, k: CastK, st_: TyId, dt: TyId, v: &Val) -> R<Val> {
        let tys = &self.e.m.tys;
        if k == CastK::BitCast {
            // vector <-> int and fp <-> int
            let (sv, sw) = {
                // build MSB first: iterate from the highest lane
                match &tys[st_ as usize].t {
                    Ty::Vec(n, e) => {
                        let ew = self.e.width(*e);
                        let mut acc: Option<Val> = None;
                        let mut w = 0;
                        for i in (0..*n as usize).rev() {
                            let x = match v { Val::A(x) => x[i].clone(), _ => Val::U };
                            acc = Some(match acc {
                                None => x,
                                Some(h) => concat(&h, w, &x, ew),
                            });
                            w += ew;
                        }
                        (acc.unwrap_or(Val::U), w)
                    }
                    _ => (v.clone(), self.e.width(st_)),
                }
            };
            return Ok(match &tys[dt as usize].t {
                Ty::Vec(n, e) => {
                    let ew = self.e.width(*e);
                    if ew * n != sw {
                        return inc("bitcast width");
                    }
                    Val::A(Arc::new((0..*n).map(|i| extract(&sv, sw, i * ew, ew)).collect()))
                }
                _ => sv,
            });
        }
        if let (Ty::Vec(n, se), Ty::Vec(_, de)) = (&tys[st_ as usize].t, &tys[dt as usize].t) {
            let (n, se, de) = (*n, *se, *de);
            let mut out = vec![];
            for i in 0..n as usize {
                let x = match v { Val::A(x) => x[i].clone(), _ => Val::U };
                out.push(self.cast(k, se, de, &x)?);
            }
            return Ok(Val::A(Arc::new(out)));
        }
        let (sw, dw) = (self.e.width(st_), self.e.width(dt));
        if sw == 0 || dw == 0 || sw > 128 || dw > 128 {
            return inc("cast of wide integer");
        }
        Ok(match k {
            CastK::Trunc => extract(v, sw, 0, dw),
            CastK::ZExt => zext(v, sw, dw),
            CastK::SExt => sext(v, sw, dw),
            CastK::PtrToInt | CastK::IntToPtr => if dw <= sw { extract(v, sw, 0, dw) } else { zext(v, sw, dw) },
            CastK::FPToUI => un(U::FToUSat, dw, sw, v),
            CastK::FPToSI => un(U::FToSSat, dw, sw, v),
            CastK::UIToFP => un(U::UToF, dw, sw, v),
            CastK::SIToFP => un(U::SToF, dw, sw, v),
            CastK::FPTrunc | CastK::FPExt => un(U::FToF, dw, sw, v),
            CastK::BitCast => unreachable!(),
        })
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.cur.b;
        let blk = &self.e.m.funcs[st.cur.f as usize].blocks[to as usize];
        if blk.nphi > 0 {
            let mut vals = Vec::with_capacity(blk.nphi);
            for i in 0..blk.nphi {
                if let IK::Phi(_, inc) = &blk.insts[i].k {
                    let o = inc.iter().find(|(b, _)| *b == from).expect("phi edge").1;
                    vals.push(self.v(st, &o));
                }
            }
            for (i, v) in vals.into_iter().enumerate() {
                let d = blk.insts[i].d;
                self.set(st, d, v);
            }
        }
        st.cur.prev = from;
        st.cur.b = to;
        st.cur.ip = blk.nphi as u32;
    }
    fn finish_call(&mut self, st: &mut State, ci: &CallI, d: u32, v: Option<Val>) {
        if let Some(v) = v {
            self.set(st, d, v);
        }
        if ci.normal != u32::MAX {
            self.jump(st, ci.normal);
        } else {
            st.cur.ip += 1;
        }
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let m: &'m Module = self.e.m;
        let inst = &m.funcs[st.cur.f as usize].blocks[st.cur.b as usize].insts[st.cur.ip as usize];
        if self.e.cfg.trace {
            eprintln!("{}{} b{} {:?}", " ".repeat(st.frames.len()), demangle(&m.funcs[st.cur.f as usize].name), st.cur.b, inst.k);
        }
        let val: Val = match &inst.k {
            IK::Bin(k, t, a, b) => {
                let (a, b) = (self.v(st, a), self.v(st, b));
                self.binop(st, *k, *t, &a, &b)?
            }
            IK::ICmp(p, t, a, b) => {
                let (a, b) = (self.v(st, a), self.v(st, b));
                let e = self.e;
                self.map_vec(*t, &[&a, &b], &mut |t, o| {
                    let w = e.width(t);
                    if w == 0 || w > 128 {
                        return inc("icmp width");
                    }
                    Ok(icmp(*p, w, o[0], o[1]))
                })?
            }
            IK::FCmp(p, t, a, b) => {
                let (a, b) = (self.v(st, a), self.v(st, b));
                let e = self.e;
                self.map_vec(*t, &[&a, &b], &mut |t, o| Ok(fcmp(*p, e.width(t), o[0], o[1])))?
            }
            IK::FNeg(t, a) => {
                let a = self.v(st, a);
                let w = self.e.width(*t);
                bin(B::Xor, w, &a, &Val::C(1u128 << (w - 1)))
            }
            IK::Select(t, c, a, b) => {
                let (c, a, b) = (self.v(st, c), self.v(st, a), self.v(st, b));
                match &c {
                    Val::C(x) => if x & 1 == 1 { a } else { b },
                    Val::A(cs) => {
                        let n = cs.len();
                        let et = match m.tys[*t as usize].t { Ty::Vec(_, e) => e, _ => return inc("select") };
                        let w = self.e.width(et);
                        let g = |v: &Val, i: usize| match v { Val::A(x) => x[i].clone(), _ => Val::U };
                        Val::A(Arc::new((0..n).map(|i| ite(&cs[i], w, &g(&a, i), &g(&b, i))).collect()))
                    }
                    _ => self.sel(*t, &c, &a, &b),
                }
            }
            IK::Cast(k, s, d, a) => {
                let a = self.v(st, a);
                self.cast(*k, *s, *d, &a)?
            }
            IK::Gep { base, off, idx } => {
                let mut p = self.v(st, base);
                if let Val::A(_) = p {
                    return inc("gep on vector");
                }
                if *off != 0 {
                    p = bin(B::Add, 64, &p, &Val::C(*off as u64 as u128));
                }
                for (o, w, sz) in idx {
                    let i = self.v(st, o);
                    let i = if *w < 64 { sext(&i, *w, 64) } else { extract(&i, *w, 0, 64) };
                    let s = bin(B::Mul, 64, &i, &Val::C(*sz as u64 as u128));
                    p = bin(B::Add, 64, &p, &s);
                }
                p
            }
            IK::Load { ty, ptr, align, noundef, range } => {
                let p = self.v(st, ptr);
                let v = self.load(st, *ty, &p, *align as u64)?;
                if *noundef && v.has_undef() {
                    match &v {
                        Val::U => return err("uninitialised-use", "read of an uninitialised value"),
                        Val::E(e) => {
                            if self.undef_check(st, e).is_err() {
                                return err("uninitialised-use", "read of a partially uninitialised value");
                            }
                        }
                        _ => {}
                    }
                }
                if *range != 0 && !matches!(v, Val::U) {
                    let w = self.e.width(*ty);
                    let mut ok = Val::C(0);
                    for (lo, hi) in &m.ranges[*range as usize] {
                        // [lo, hi) wrapping
                        let d = bin(B::Sub, w, &v, &Val::C(*lo));
                        let c = bin(B::Ult, w, &d, &Val::C(hi.wrapping_sub(*lo) & mask(w)));
                        ok = bin(B::Or, 1, &ok, &c);
                    }
                    if *noundef {
                        self.ensure(st, &ok, "invalid-value", "loaded value outside the valid range of its type")?;
                        v
                    } else {
                        // poison
                        let bad = v_of(fresh_undef(w));
                        ite(&ok, w, &v, &bad)
                    }
                } else {
                    v
                }
            }
            IK::Store { ty, val, ptr, align } => {
                let v = self.v(st, val);
                let p = self.v(st, ptr);
                let n = m.tys[*ty as usize].store;
                if n > 0 {
                    let a = self.addr_rw(st, &p, n, true, "store address")?;
                    if *align > 1 && a % *align as u64 != 0 {
                        return self.merr(st, MemErr::Misaligned(a, *align as u64), a, n, true);
                    }
                    self.write_mem(st, *ty, a, &v)?;
                }
                st.cur.ip += 1;
                return Ok(());
            }
            IK::Alloca { size, count, align } => {
                let c = match self.v(st, count) {
                    Val::C(c) => c as u64,
                    _ => return inc("symbolic alloca"),
                };
                match st.mem.alloc_stack(size * c, *align as u64) {
                    Some(a) => {
                        st.cur.allocas.push(a);
                        Val::C(a as u128)
                    }
                    None => return err("stack-overflow", "too many live stack objects"),
                }
            }
            IK::Br(b) => {
                self.jump(st, *b);
                return Ok(());
            }
            IK::CondBr(c, a, b) => {
                let c = self.v(st, c);
                let t = self.decide(st, &c)?;
                self.jump(st, if t { *a } else { *b });
                return Ok(());
            }
            IK::Switch(t, v, def, cases) => {
                let v = self.v(st, v);
                let w = self.e.width(*t);
                match &v {
                    Val::C(x) => {
                        let to = cases.iter().find(|(c, _)| c == x).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, to);
                    }
                    Val::U => return err("uninitialised-use", "switch on uninitialised value"),
                    Val::E(e) => {
                        self.undef_check(st, e)?;
                        let x = Eval::new(&st.model).expr(e);
                        let to = cases.iter().find(|(c, _)| *c == x).map(|c| c.1).unwrap_or(*def);
                        let cond = if to == *def {
                            let mut c = Val::C(1);
                            for (k, b) in cases.iter() {
                                if b != def {
                                    let ne = not(&bin(B::Eq, w, &v, &Val::C(*k)), 1);
                                    c = bin(B::And, 1, &c, &ne);
                                }
                            }
                            c
                        } else {
                            let mut c = Val::C(0);
                            for (k, b) in cases.iter() {
                                if *b == to {
                                    let eq = bin(B::Eq, w, &v, &Val::C(*k));
                                    c = bin(B::Or, 1, &c, &eq);
                                }
                            }
                            c
                        };
                        if !self.decide(st, &cond)? {
                            return inc("switch: model mismatch");
                        }
                        self.jump(st, to);
                    }
                    Val::A(_) => return inc("switch on aggregate"),
                }
                return Ok(());
            }
            IK::Ret(o) => {
                let v = o.as_ref().map(|o| self.v(st, o));
                for a in st.cur.allocas.drain(..) {
                    st.mem.free_stack(a);
                }
                match st.frames.pop() {
                    None => return Err(Stop::Done),
                    Some(f) => {
                        st.cur = Arc::try_unwrap(f).unwrap_or_else(|a| (*a).clone());
                        let ci_inst = &m.funcs[st.cur.f as usize].blocks[st.cur.b as usize].insts[st.cur.ip as usize];
                        if let IK::Call(ci) = &ci_inst.k {
                            self.finish_call(st, ci, ci_inst.d, v);
                        }
                    }
                }
                return Ok(());
            }
            IK::Unreachable => return err("unreachable", "reached unreachable code (undefined behaviour)"),
            IK::Phi(..) => return inc("phi out of place"),
            IK::ExtractValue(a, ix) => {
                let mut v = self.v(st, a);
                for i in ix {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        Val::U => Val::U,
                        _ => return inc("extractvalue"),
                    };
                }
                v
            }
            IK::InsertValue(t, a, x, ix) => {
                let agg = match self.v(st, a) {
                    Val::U => self.e.undef(*t),
                    v => v,
                };
                let x = self.v(st, x);
                fn ins(a: &Val, x: &Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return x.clone();
                    }
                    if let Val::A(v) = a {
                        let mut n = (**v).clone();
                        n[ix[0] as usize] = ins(&n[ix[0] as usize], x, &ix[1..]);
                        Val::A(Arc::new(n))
                    } else {
                        a.clone()
                    }
                }
                ins(&agg, &x, ix)
            }
            IK::ExtractElement(a, i, _) => {
                let (a, i) = (self.v(st, a), self.v(st, i));
                let i = self.pin(st, &i, 64, "element index")? as usize;
                match &a {
                    Val::A(x) => x.get(i).cloned().unwrap_or(Val::U),
                    _ => Val::U,
                }
            }
            IK::InsertElement(t, a, x, i) => {
                let a = match self.v(st, a) {
                    Val::U => self.e.undef(*t),
                    v => v,
                };
                let x = self.v(st, x);
                let i = self.v(st, i);
                let i = self.pin(st, &i, 64, "element index")? as usize;
                if let Val::A(v) = &a {
                    let mut n = (**v).clone();
                    n[i] = x;
                    Val::A(Arc::new(n))
                } else {
                    return inc("insertelement");
                }
            }
            IK::Shuffle(t, a, b, mk) => {
                let (a, b) = (self.v(st, a), self.v(st, b));
                let n = match m.tys[*t as usize].t { Ty::Vec(n, _) => n as i32, _ => 0 };
                let g = |v: &Val, i: i32| match v { Val::A(x) => x[i as usize].clone(), _ => Val::U };
                Val::A(Arc::new(mk.iter().map(|i| if *i < 0 { Val::U } else if *i < n { g(&a, *i) } else { g(&b, *i - n) }).collect()))
            }
            IK::Rmw(op, t, p, v) => {
                let (p, v) = (self.v(st, p), self.v(st, v));
                let n = m.tys[*t as usize].store;
                let a = self.addr_rw(st, &p, n, true, "atomic address")?;
                let old = self.read_mem(st, *t, a)?;
                let w = self.e.width(*t);
                let new = match op {
                    0 => v,
                    1 => bin(B::Add, w, &old, &v),
                    2 => bin(B::Sub, w, &old, &v),
                    3 => bin(B::And, w, &old, &v),
                    4 => not(&bin(B::And, w, &old, &v), w),
                    5 => bin(B::Or, w, &old, &v),
                    6 => bin(B::Xor, w, &old, &v),
                    7 => ite(&bin(B::Slt, w, &old, &v), w, &v, &old),
                    8 => ite(&bin(B::Slt, w, &old, &v), w, &old, &v),
                    9 => ite(&bin(B::Ult, w, &old, &v), w, &v, &old),
                    10 => ite(&bin(B::Ult, w, &old, &v), w, &old, &v),
                    _ => return inc("atomicrmw op"),
                };
                self.write_mem(st, *t, a, &new)?;
                old
            }
            IK::CmpXchg(t, p, c, nv) => {
                let (p, c, nv) = (self.v(st, p), self.v(st, c), self.v(st, nv));
                let n = m.tys[*t as usize].store;
                let a = self.addr_rw(st, &p, n, true, "atomic address")?;
                let old = self.read_mem(st, *t, a)?;
                let w = self.e.width(*t);
                let eq = bin(B::Eq, w, &old, &c);
                let ok = self.decide(st, &eq)?;
                if ok {
                    self.write_mem(st, *t, a, &nv)?;
                }
                Val::A(Arc::new(vec![old, Val::C(ok as u128)]))
            }
            IK::Fence => {
                st.cur.ip += 1;
                return Ok(());
            }
            // freeze picks an arbitrary fixed value: zero stands for it
            IK::Freeze(t, a) => {
                let v = self.v(st, a);
                match v {
                    Val::U if self.e.width(*t) != 0 => Val::C(0),
                    v => v,
                }
            }
            IK::LandingPad { .. } | IK::Resume(_) => return inc("unwinding reached"),
            IK::Unsupported(s) => return inc(format!("unsupported instruction {}", s)),
            IK::Call(ci) => return self.call(st, ci, inst.d, inst.loc),
        };
        self.set(st, inst.d, val);
        st.cur.ip += 1;
        Ok(())
    }
    fn sel(&self, t: TyId, c: &Val, a: &Val, b: &Val) -> Val {
        match &self.e.m.tys[t as usize].t {
            Ty::Struct(fs) => {
                let g = |v: &Val, i: usize| match v { Val::A(x) => x[i].clone(), _ => Val::U };
                Val::A(Arc::new(fs.iter().enumerate().map(|(i, (t, _))| self.sel(*t, c, &g(a, i), &g(b, i))).collect()))
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let n = n_of(&self.e.m.tys[t as usize].t);
                let e = *e;
                let g = |v: &Val, i: usize| match v { Val::A(x) => x[i].clone(), _ => Val::U };
                Val::A(Arc::new((0..n).map(|i| self.sel(e, c, &g(a, i), &g(b, i))).collect()))
            }
            _ => ite(c, self.e.width(t), a, b),
        }
    }
    fn bytes_at(&mut self, st: &mut State, p: &Val, n: u64) -> R<Vec<Val>> {
        let a = self.addr_rw(st, p, n, false, "address")?;
        if n == 0 {
            return Ok(vec![]);
        }
        let o = st.mem.obj(a).unwrap();
        Ok((0..n as usize).map(|i| o.byte((a - o.base) as usize + i)).collect())
    }
    fn cstr_at(&self, st: &State, a: u64, n: u64) -> String {
        if n > 4096 || st.mem.check(a, n, false).is_err() {
            return "?".into();
        }
        let o = st.mem.obj(a).unwrap();
        let off = (a - o.base) as usize;
        String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned()
    }
    fn word(&self, st: &State, a: u64) -> Option<u64> {
        st.mem.check(a, 8, false).ok()?;
        let o = st.mem.obj(a)?;
        match o.read(a - o.base, 8) {
            Val::C(c) => Some(c as u64),
            _ => None,
        }
    }
    fn fmt_args(&self, st: &State, a: &Val) -> String {
        let a = match a {
            Val::C(c) => *c as u64,
            _ => return "?".into(),
        };
        // fmt::Arguments { pieces: &[&str], fmt: Option<..>, args: &[..] }
        let (p, n) = match (self.word(st, a), self.word(st, a + 8)) {
            (Some(p), Some(n)) if n < 64 => (p, n),
            _ => return "?".into(),
        };
        let mut v = vec![];
        for i in 0..n {
            if let (Some(sp), Some(sl)) = (self.word(st, p + i * 16), self.word(st, p + i * 16 + 8)) {
                v.push(if sl == 0 { String::new() } else { self.cstr_at(st, sp, sl) });
            }
        }
        // try to show first &str argument
        v.join("{}")
    }
    fn location(&self, st: &State, a: &Val) -> String {
        if let Val::C(c) = a {
            let a = *c as u64;
            if let (Some(p), Some(n)) = (self.word(st, a), self.word(st, a + 8)) {
                if let Some(l) = self.word(st, a + 16) {
                    return format!("{}:{}", self.cstr_at(st, p, n), l as u32);
                }
            }
        }
        "?".into()
    }
    fn call(&mut self, st: &mut State, ci: &CallI, d: u32, loc: u32) -> R<()> {
        let m: &'m Module = self.e.m;
        let fid = match &ci.callee {
            Callee::Fn(f) => *f,
            Callee::Asm => {
                // black_box style empty assembly
                let v = if matches!(m.tys[ci.ret as usize].t, Ty::Void) { None } else { return inc("inline assembly with result"); };
                self.finish_call(st, ci, d, v);
                return Ok(());
            }
            Callee::Ind(o) => {
                let p = self.v(st, o);
                let a = self.pin(st, &p, 64, "call target")? as u64;
                match addr_func(a) {
                    Some(f) if (f as usize) < m.funcs.len() => f,
                    _ => return err("invalid-call", "indirect call through a pointer that is not a function"),
                }
            }
        };
        let sp = self.e.sp[fid as usize];
        let f = &m.funcs[fid as usize];
        if sp == Sp::Normal {
            self.exec[fid as usize] = true;
            if st.frames.len() >= self.e.cfg.depth_cap {
                return err("stack-overflow", format!("call depth over {} in {}", self.e.cfg.depth_cap, demangle(&f.name)));
            }
            if ci.args.len() != f.nargs as usize {
                return err("invalid-call", format!("call of {} with {} arguments instead of {}", demangle(&f.name), ci.args.len(), f.nargs));
            }
            let mut regs = vec![Val::U; f.nregs as usize];
            for (i, a) in ci.args.iter().enumerate() {
                regs[i] = self.v(st, a);
            }
            let nf = Frame { f: fid, b: 0, ip: 0, prev: 0, regs, allocas: vec![] };
            let old = std::mem::replace(&mut st.cur, nf);
            st.frames.push(Arc::new(old));
            return Ok(());
        }
        let args: Vec<Val> = ci.args.iter().map(|a| self.v(st, a)).collect();
        let r = self.special(st, sp, f, ci, &args, loc)?;
        self.finish_call(st, ci, d, r);
        Ok(())
    }
    fn special(&mut self, st: &mut State, sp: Sp, f: &Func, ci: &CallI, a: &[Val], loc: u32) -> R<Option<Val>> {
        use Sp::*;
        let m: &'m Module = self.e.m;
        let w0 = ci.arg_tys.first().map(|t| self.e.width(*t)).unwrap_or(0);
        let rw = self.e.width(ci.ret);
        // lane-wise vector intrinsics
        let lanewise = matches!(sp, USubSat | UAddSat | SSubSat | SAddSat | UMin | UMax | SMin | SMax | Abs | CtPop | Ctlz | Cttz | BSwap | BitRev | FshL | FshR | FAbs | FMinNum | FMaxNum | FFloor | FCeil | FTrunc | FRint | FRound | FSqrt | CopySign);
        if lanewise {
            if let Ty::Vec(n, e) = m.tys[ci.ret as usize].t {
                let mut out = vec![];
                for i in 0..n as usize {
                    let la: Vec<Val> = a.iter().map(|v| match v { Val::A(x) => x[i].clone(), o => o.clone() }).collect();
                    let w = self.e.width(e);
                    out.push(self.pure_op(sp, w, w, &la)?);
                }
                return Ok(Some(Val::A(Arc::new(out))));
            }
            return Ok(Some(self.pure_op(sp, w0, rw, a)?));
        }
        Ok(match sp {
            NoOp => {
                if matches!(m.tys[ci.ret as usize].t, Ty::Void) { None } else { Some(Val::C(0)) }
            }
            Normal => unreachable!(),
            // ------------------------------------------------ harness interface
            Bytes => {
                let n = self.pin(st, &a[1], 64, "length")? as u64;
                let p = self.addr_rw(st, &a[0], n, true, "address")?;
                if st.nvars as usize + n as usize > MAXVARS {
                    return inc("too many symbolic bytes");
                }
                for i in 0..n {
                    let vi = st.nvars;
                    st.nvars += 1;
                    let v = if self.e.cfg.concrete.is_some() { Val::C(st.model[vi as usize] as u128) } else { Val::E(var(vi, 8)) };
                    let o = st.mem.obj_mut(p).unwrap();
                    let off = p - o.base + i;
                    o.set_byte(off as usize, &v);
                }
                None
            }
            Assume => {
                let c = extract(&a[0], w0, 0, 1);
                self.assume(st, &c)?;
                None
            }
            Check => {
                let c = extract(&a[0], w0, 0, 1);
                let (p, n) = (self.pin(st, &a[1], 64, "msg")?, self.pin(st, &a[2], 64, "msg")?);
                let msg = self.cstr_at(st, p as u64, n as u64);
                st.checks += 1;
                self.ensure(st, &c, "check-failed", &msg)?;
                None
            }
            Fail => {
                let (p, n) = (self.pin(st, &a[0], 64, "msg")?, self.pin(st, &a[1], 64, "msg")?);
                let msg = self.cstr_at(st, p as u64, n as u64);
                return err("check-failed", msg);
            }
            Witness => {
                let i = self.pin(st, &a[0], w0, "witness")?;
                st.wit |= 1 << (i & 63);
                None
            }
            Out => {
                let n = self.pin(st, &a[1], 64, "length")? as u64;
                let b = self.bytes_at(st, &a[0], n)?;
                for v in &b {
                    match v {
                        Val::U => return err("uninitialised-use", "uninitialised byte in observable output"),
                        Val::E(e) => self.undef_check(st, e)?,
                        _ => {}
                    }
                }
                st.outs.extend(b);
                None
            }
            Opts => {
                st.opts = self.pin(st, &a[0], 64, "opts")? as u64;
                None
            }
            Conc => Some(Val::C(self.pin(st, &a[0], 64, "concretize")?)),
            IsSym => Some(Val::C(1)),
            Param => {
                let i = self.pin(st, &a[0], 64, "param")? as usize;
                Some(Val::C(self.e.cfg.params.get(i).copied().unwrap_or(0) as u128))
            }
            // ------------------------------------------------ allocation
            Alloc | AllocZ => {
                let cap = self.e.cfg.alloc_cap;
                if let Val::E(_) = &a[0] {
                    let ok = bin(B::Ule, 64, &a[0], &Val::C(cap as u128));
                    self.ensure(st, &ok, "huge-allocation", &format!("allocation of more than {} bytes", cap))?;
                }
                let size = self.pin(st, &a[0], 64, "allocation size")? as u64;
                let align = self.pin(st, &a[1], 64, "allocation alignment")? as u64;
                if size > cap {
                    return err("huge-allocation", format!("allocation of {} bytes", size));
                }
                if size == 0 {
                    return err("zero-size-alloc", "zero-sized allocation");
                }
                if align == 0 || !align.is_power_of_two() {
                    return err("bad-alignment", format!("allocation with alignment {}", align));
                }
                Some(Val::C(st.mem.alloc_heap(size, align, sp == AllocZ, self.alloc_site(st, loc)) as u128))
            }
            Dealloc => {
                let p = self.pin(st, &a[0], 64, "dealloc pointer")? as u64;
                let size = self.pin(st, &a[1], 64, "dealloc size")? as u64;
                let align = self.pin(st, &a[2], 64, "dealloc align")? as u64;
                self.check_heap_ptr(st, p, size, align)?;
                st.mem.free_heap(p);
                None
            }
            Realloc => {
                let p = self.pin(st, &a[0], 64, "realloc pointer")? as u64;
                let size = self.pin(st, &a[1], 64, "realloc size")? as u64;
                let align = self.pin(st, &a[2], 64, "realloc align")? as u64;
                let cap = self.e.cfg.alloc_cap;
                if let Val::E(_) = &a[3] {
                    let ok = bin(B::Ule, 64, &a[3], &Val::C(cap as u128));
                    self.ensure(st, &ok, "huge-allocation", &format!("allocation of more than {} bytes", cap))?;
                }
                let ns = self.pin(st, &a[3], 64, "realloc new size")? as u64;
                if ns > cap {
                    return err("huge-allocation", format!("allocation of {} bytes", ns));
                }
                self.check_heap_ptr(st, p, size, align)?;
                let r = {
                    let o = st.mem.obj(p).unwrap();
                    o.range(0, size.min(ns))
                };
                let site = self.alloc_site(st, loc);
                let np = st.mem.alloc_heap(ns, align, false, site);
                st.mem.obj_mut(np).unwrap().put_range(0, &r);
                st.mem.free_heap(p);
                Some(Val::C(np as u128))
            }
            // ------------------------------------------------ abnormal ends
            PanicFmt => {
                let msg = self.fmt_args(st, &a[0]);
                let l = self.location(st, a.last().unwrap());
                return Err(Stop::Panic(msg, l));
            }
            PanicNounwind => {
                let msg = self.fmt_args(st, &a[0]);
                let l = self.location(st, a.last().unwrap());
                return err("abort", format!("non-unwinding panic: {} [{}]", msg, l));
            }
            PanicOther => return Err(Stop::Panic(demangle(&f.name), "?".into())),
            Oom => return err("huge-allocation", "allocation error handler reached"),
            Abort | Trap => return err("abort", format!("{} called", demangle(&f.name))),
            // ------------------------------------------------ memory functions
            MemCpy | MemMove => {
                let n = self.pin(st, &a[2], self.e.width(ci.arg_tys[2]), "copy length")? as u64;
                if n == 0 {
                    return Ok(Some(a[0].clone()).filter(|_| rw != 0));
                }
                let d = self.addr_rw(st, &a[0], n, true, "copy destination")?;
                let s = self.addr_rw(st, &a[1], n, false, "copy source")?;
                if sp == MemCpy && d != s && d < s + n && s < d + n {
                    return err("overlapping-copy", "copy_nonoverlapping on overlapping ranges");
                }
                let r = {
                    let o = st.mem.obj(s).unwrap();
                    o.range(s - o.base, n)
                };
                let o = st.mem.obj_mut(d).unwrap();
                let off = d - o.base;
                o.put_range(off, &r);
                if rw != 0 { Some(a[0].clone()) } else { None }
            }
            MemSet => {
                let n = self.pin(st, &a[2], self.e.width(ci.arg_tys[2]), "memset length")? as u64;
                if n == 0 {
                    return Ok(Some(a[0].clone()).filter(|_| rw != 0));
                }
                let d = self.addr_rw(st, &a[0], n, true, "memset destination")?;
                let v = extract(&a[1], w0_of(self.e.width(ci.arg_tys[1])), 0, 8);
                let o = st.mem.obj_mut(d).unwrap();
                let off = (d - o.base) as usize;
                for i in 0..n as usize {
                    o.set_byte(off + i, &v);
                }
                if rw != 0 { Some(a[0].clone()) } else { None }
            }
            MemCmp => {
                let n = self.pin(st, &a[2], 64, "compare length")? as u64;
                let x = self.bytes_at(st, &a[0], n)?;
                let y = self.bytes_at(st, &a[1], n)?;
                let mut r = Val::C(0);
                let bcmp = f.name == "bcmp";
                for i in (0..n as usize).rev() {
                    if let (Val::C(p), Val::C(q)) = (&x[i], &y[i]) {
                        if p == q {
                            continue;
                        }
                        r = Val::C(if p < q { 0xffff_ffff } else { 1 });
                        continue;
                    }
                    let eq = bin(B::Eq, 8, &x[i], &y[i]);
                    if bcmp {
                        r = ite(&eq, 32, &r, &Val::C(1));
                    } else {
                        let lt = bin(B::Ult, 8, &x[i], &y[i]);
                        let o = ite(&lt, 32, &Val::C(0xffff_ffff), &Val::C(1));
                        r = ite(&eq, 32, &r, &o);
                    }
                }
                Some(r)
            }
            StrLen => {
                let p = self.pin(st, &a[0], 64, "strlen")? as u64;
                let mut n = 0u64;
                loop {
                    let b = self.bytes_at(st, &Val::C((p + n) as u128), 1)?;
                    let z = bin(B::Eq, 8, &b[0], &Val::C(0));
                    if self.decide(st, &z)? {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n as u128))
            }
            MemChr => {
                let n = self.pin(st, &a[2], 64, "memchr length")? as u64;
                let b = self.bytes_at(st, &a[0], n)?;
                let c = extract(&a[1], 32, 0, 8);
                let mut r = Val::C(0);
                for i in (0..n as usize).rev() {
                    let eq = bin(B::Eq, 8, &b[i], &c);
                    let p = bin(B::Add, 64, &a[0], &Val::C(i as u128));
                    r = ite(&eq, 64, &p, &r);
                }
                Some(r)
            }
            IAssume => {
                let c = extract(&a[0], w0, 0, 1);
                if !matches!(c, Val::U) {
                    self.ensure(st, &c, "assume-violated", "compiler assumption violated (undefined behaviour)")?;
                }
                None
            }
            Expect => Some(a[0].clone()),
            IsConst => Some(Val::C(0)),
            ObjSize => Some(Val::C(mask(64))),
            // ------------------------------------------------ arithmetic
            AddO | SubO | MulO | SAddO | SSubO | SMulO => {
                let w = w0;
                let (x, y) = (&a[0], &a[1]);
                if w == 0 || w > 128 {
                    return inc("overflow intrinsic width");
                }
                let res = bin(match sp { AddO | SAddO => B::Add, SubO | SSubO => B::Sub, _ => B::Mul }, w, x, y);
                let ov = match sp {
                    AddO => bin(B::Ult, w, &res, x),
                    SubO => bin(B::Ult, w, x, y),
                    SAddO => {
                        // overflow iff sign(x)==sign(y) != sign(res)
                        let t = bin(B::And, w, &bin(B::Xor, w, &res, x), &bin(B::Xor, w, &res, y));
                        bin(B::Slt, w, &t, &Val::C(0))
                    }
                    SSubO => {
                        let t = bin(B::And, w, &bin(B::Xor, w, x, y), &bin(B::Xor, w, &res, x));
                        bin(B::Slt, w, &t, &Val::C(0))
                    }
                    MulO | SMulO => {
                        if w <= 64 {
                            let ext = |v: &Val| if sp == MulO { zext(v, w, 2 * w) } else { sext(v, w, 2 * w) };
                            let p = bin(B::Mul, 2 * w, &ext(x), &ext(y));
                            not(&bin(B::Eq, 2 * w, &p, &ext(&res)), 1)
                        } else {
                            match (x, y) {
                                (Val::C(p), Val::C(q)) if sp == MulO => Val::C((p.checked_mul(*q).map(|r| r > mask(w)).unwrap_or(true)) as u128),
                                (Val::C(p), Val::C(q)) => Val::C(sext128(*p, w).checked_mul(sext128(*q, w)).is_none() as u128),
                                _ if sp == MulO => {
                                    // x != 0 && res / x != y
                                    let z = bin(B::Eq, w, x, &Val::C(0));
                                    let q = bin(B::UDiv, w, &res, x);
                                    let ne = not(&bin(B::Eq, w, &q, y), 1);
                                    bin(B::And, 1, &not(&z, 1), &ne)
                                }
                                _ => {
                                    // |x| * |y| overflows, or exceeds what the sign allows
                                    let neg = |v: &Val| bin(B::Slt, w, v, &Val::C(0));
                                    let abs = |v: &Val| ite(&neg(v), w, &bin(B::Sub, w, &Val::C(0), v), v);
                                    let (mx, my) = (abs(x), abs(y));
                                    let m = bin(B::Mul, w, &mx, &my);
                                    let z = bin(B::Eq, w, &mx, &Val::C(0));
                                    let q = bin(B::UDiv, w, &m, &mx);
                                    let wraps = bin(B::And, 1, &not(&z, 1), &not(&bin(B::Eq, w, &q, &my), 1));
                                    let minus = bin(B::Xor, 1, &neg(x), &neg(y));
                                    let top = ite(&minus, w, &Val::C(1u128 << (w - 1)), &Val::C((1u128 << (w - 1)) - 1));
                                    bin(B::Or, 1, &wraps, &bin(B::Ult, w, &top, &m))
                                }
                            }
                        }
                    }
                    _ => unreachable!(),
                };
                Some(Val::A(Arc::new(vec![res, ov])))
            }
            FToUS => Some(un(U::FToUSat, rw, w0, &a[0])),
            FToSS => Some(un(U::FToSSat, rw, w0, &a[0])),
            RedAnd | RedOr | RedXor | RedAdd | RedMul | RedUMax | RedUMin | RedSMax | RedSMin => {
                let w = rw;
                let v = match &a[0] { Val::A(v) => v.clone(), _ => return inc("reduce") };
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = match sp {
                        RedAnd => bin(B::And, w, &r, x),
                        RedOr => bin(B::Or, w, &r, x),
                        RedXor => bin(B::Xor, w, &r, x),
                        RedAdd => bin(B::Add, w, &r, x),
                        RedMul => bin(B::Mul, w, &r, x),
                        RedUMax => ite(&bin(B::Ult, w, &r, x), w, x, &r),
                        RedUMin => ite(&bin(B::Ult, w, x, &r), w, x, &r),
                        RedSMax => ite(&bin(B::Slt, w, &r, x), w, x, &r),
                        _ => ite(&bin(B::Slt, w, x, &r), w, x, &r),
                    };
                }
                Some(r)
            }
            Movmsk => {
                let v = match &a[0] { Val::A(v) => v.clone(), _ => return inc("movmsk") };
                let mut r = Val::C(0);
                for (i, x) in v.iter().enumerate().rev() {
                    let b = extract(x, 8, 7, 1);
                    if i == v.len() - 1 { r = b } else { r = concat(&r, (v.len() - 1 - i) as u32, &b, 1) }
                }
                Some(zext(&r, v.len() as u32, 32))
            }
            TlsAddr => Some(a[0].clone()),
            // relative tables hold handles where the distance has no 32 bits
            LoadRel => {
                let p = bin(B::Add, 64, &a[0], &sext(&a[1], self.e.width(ci.arg_tys[1]), 64));
                let p = Val::C(self.pin(st, &p, 64, "relative table index")?);
                let i32t = m.tys.iter().position(|t| t.t == Ty::Int(32)).unwrap() as u32;
                let o = self.load(st, i32t, &p, 1)?;
                let far = match o {
                    Val::C(h) => (h as u64).checked_sub(REL_HANDLE).and_then(|k| m.rel.get(k as usize)),
                    _ => None,
                };
                Some(match far {
                    Some(t) => Val::C(*t as u128),
                    None => bin(B::Add, 64, &a[0], &sext(&o, 32, 64)),
                })
            }
            UCmp | SCmp => {
                let op = if sp == UCmp { B::Ult } else { B::Slt };
                let lt = bin(op, w0, &a[0], &a[1]);
                let gt = bin(op, w0, &a[1], &a[0]);
                let r = ite(&gt, rw, &Val::C(1), &Val::C(0));
                Some(ite(&lt, rw, &Val::C(mask(rw)), &r))
            }
            PtrMask => Some(bin(B::And, 64, &a[0], &a[1])),
            // every key hashes to the same value: a legal hash function
            HashOne => Some(Val::C(0)),
            RetZero => Some(Val::C(0)),
            // std's float parser, of short texts: see K::Parse. Result<f64, _> is returned in memory,
            // Result<f32, _> in a register
            ParseF64 | ParseF32 => {
                let o = (a.len() == 3) as usize;
                let n = self.pin(st, &a[o + 1], 64, "length")? as u64;
                if n > 4096 || (sp == ParseF64) != (o == 1) {
                    return inc("float parser called in an unexpected way");
                }
                let b = self.bytes_at(st, &a[o], n)?;
                if n > 40 && b.iter().any(|v| !matches!(v, Val::C(_))) {
                    return inc("float parser called on a long symbolic text");
                }
                let mut t = vec![];
                for v in &b {
                    match v {
                        Val::U => return err("uninitialised-use", "uninitialised byte in a text"),
                        Val::E(e) => self.undef_check(st, e)?,
                        _ => {}
                    }
                    t.push(v.e(8));
                }
                let t = Arc::new(t);
                let ok = self.decide(st, &parse_float(2, &t))?;
                // FloatErrorKind: Empty = 0, Invalid = 1
                let tag = if ok { 0 } else { 1 + ((n > 0) as u128) * 256 };
                if sp == ParseF64 {
                    let p = self.addr_rw(st, &a[0], 16, true, "result")?;
                    let ob = st.mem.obj_mut(p).unwrap();
                    let off = p - ob.base;
                    // (padding as zeroes)
                    ob.write(off, 8, &Val::C(tag));
                    ob.write(off + 8, 8, &Val::C(0));
                    if ok {
                        ob.write(off + 8, 8, &parse_float(0, &t));
                    }
                    None
                } else if ok {
                    Some(concat(&parse_float(1, &t), 32, &Val::C(0), 32))
                } else {
                    Some(Val::C(tag))
                }
            }
            RetNeg1 => Some(Val::C(mask(rw))),
            KeyCreate => {
                let k = st.tlskeys;
                st.tlskeys += 1;
                let p = self.addr_rw(st, &a[0], 4, true, "key")?;
                let o = st.mem.obj_mut(p).unwrap();
                let off = p - o.base;
                o.write(off, 4, &Val::C(k as u128));
                Some(Val::C(0))
            }
            GetRandom => {
                let n = self.pin(st, &a[1], 64, "length")? as u64;
                let p = self.addr_rw(st, &a[0], n, true, "buffer")?;
                let o = st.mem.obj_mut(p).unwrap();
                let off = (p - o.base) as usize;
                for i in 0..n as usize {
                    o.set_byte(off + i, &Val::C(0x5a));
                }
                Some(Val::C(n as u128))
            }
            SyscallGetrandom => {
                let nr = self.pin(st, &a[0], 64, "syscall")?;
                if nr != 318 {
                    return inc(format!("syscall {}", nr));
                }
                let n = self.pin(st, &a[2], 64, "length")? as u64;
                let p = self.addr_rw(st, &a[1], n, true, "buffer")?;
                let o = st.mem.obj_mut(p).unwrap();
                let off = (p - o.base) as usize;
                for i in 0..n as usize {
                    o.set_byte(off + i, &Val::C(0x5a));
                }
                Some(Val::C(n as u128))
            }
            _ => return inc(format!("unsupported function {}", demangle(&f.name))),
        })
    }
    /// The line in the closest frame that is not part of the allocation plumbing.
    fn alloc_site(&self, st: &State, loc: u32) -> u32 {
        let m = self.e.m;
        let ok = |l: u32| {
            let f = &m.locs[l as usize].0;
            l != 0 && !f.contains("/alloc/src/") && !f.starts_with("/rustc") && !f.contains("library/")
        };
        if ok(loc) {
            return loc;
        }
        let lf = |fr: &Frame| m.funcs[fr.f as usize].blocks[fr.b as usize].insts[fr.ip as usize].loc;
        if ok(lf(&st.cur)) {
            return lf(&st.cur);
        }
        for f in st.frames.iter().rev() {
            if ok(lf(f)) {
                return lf(f);
            }
        }
        loc
    }
    fn check_heap_ptr(&self, st: &State, p: u64, size: u64, align: u64) -> R<()> {
        match st.mem.obj(p) {
            Some(o) if o.kind == Kind::Heap => {
                if !o.alive {
                    return err("double-free", format!("freeing an already freed allocation of {} bytes", o.size));
                }
                if o.base != p {
                    return err("invalid-free", "freeing a pointer into the middle of an allocation");
                }
                if o.size != size || o.align != align {
                    return err("layout-mismatch", format!("allocated with size {} align {}, freed with size {} align {}", o.size, o.align, size, align));
                }
                Ok(())
            }
            _ => err("invalid-free", "freeing a pointer that is not a heap allocation"),
        }
    }
    fn pure_op(&mut self, sp: Sp, w: u32, rw: u32, a: &[Val]) -> R<Val> {
        use Sp::*;
        if w == 0 || w > 128 {
            return inc("intrinsic width");
        }
        let x = &a[0];
        Ok(match sp {
            UMin => ite(&bin(B::Ult, w, x, &a[1]), w, x, &a[1]),
            UMax => ite(&bin(B::Ult, w, x, &a[1]), w, &a[1], x),
            SMin => ite(&bin(B::Slt, w, x, &a[1]), w, x, &a[1]),
            SMax => ite(&bin(B::Slt, w, x, &a[1]), w, &a[1], x),
            USubSat => ite(&bin(B::Ult, w, x, &a[1]), w, &Val::C(0), &bin(B::Sub, w, x, &a[1])),
            UAddSat => {
                let r = bin(B::Add, w, x, &a[1]);
                ite(&bin(B::Ult, w, &r, x), w, &Val::C(mask(w)), &r)
            }
            SAddSat | SSubSat => {
                if w > 64 {
                    return inc("sat width");
                }
                let (p, q) = (sext(x, w, w + 1), sext(&a[1], w, w + 1));
                let r = bin(if sp == SAddSat { B::Add } else { B::Sub }, w + 1, &p, &q);
                let max = Val::C(mask(w - 1));
                let min = Val::C(1u128 << (w - 1));
                let hi = bin(B::Slt, w + 1, &sext(&max, w, w + 1), &r);
                let lo = bin(B::Slt, w + 1, &r, &sext(&min, w, w + 1));
                let t = extract(&r, w + 1, 0, w);
                ite(&hi, w, &max, &ite(&lo, w, &min, &t))
            }
            Abs => {
                let neg = bin(B::Slt, w, x, &Val::C(0));
                ite(&neg, w, &bin(B::Sub, w, &Val::C(0), x), x)
            }
            CtPop => {
                if let Val::C(c) = x {
                    return Ok(Val::C(c.count_ones() as u128));
                }
                let mut r = Val::C(0);
                for i in 0..w {
                    r = bin(B::Add, w, &r, &zext(&extract(x, w, i, 1), 1, w));
                }
                r
            }
            Ctlz => {
                if let Val::C(c) = x {
                    return Ok(Val::C((c.leading_zeros() - (128 - w)) as u128));
                }
                let mut r = Val::C(w as u128);
                for i in 0..w {
                    r = ite(&extract(x, w, i, 1), w, &Val::C((w - 1 - i) as u128), &r);
                }
                r
            }
            Cttz => {
                if let Val::C(c) = x {
                    return Ok(Val::C(if *c == 0 { w as u128 } else { c.trailing_zeros() as u128 }));
                }
                let mut r = Val::C(w as u128);
                for i in (0..w).rev() {
                    r = ite(&extract(x, w, i, 1), w, &Val::C(i as u128), &r);
                }
                r
            }
            BSwap => {
                let n = w / 8;
                let mut r = extract(x, w, 0, 8);
                for i in 1..n {
                    r = concat(&r, i * 8, &extract(x, w, i * 8, 8), 8);
                }
                r
            }
            BitRev => {
                let mut r = extract(x, w, 0, 1);
                for i in 1..w {
                    r = concat(&r, i, &extract(x, w, i, 1), 1);
                }
                r
            }
            FshL | FshR => {
                let s = match &a[2] {
                    Val::C(c) => (*c % w as u128) as u32,
                    _ => {
                        // general: via double width
                        if w > 64 {
                            return inc("symbolic funnel shift");
                        }
                        let cat = concat(&a[0], w, &a[1], w);
                        let sh = bin(B::URem, w, &a[2], &Val::C(w as u128));
                        let sh = zext(&sh, w, 2 * w);
                        return Ok(if sp == FshL {
                            extract(&bin(B::Shl, 2 * w, &cat, &sh), 2 * w, w, w)
                        } else {
                            extract(&bin(B::LShr, 2 * w, &cat, &sh), 2 * w, 0, w)
                        });
                    }
                };
                if s == 0 {
                    return Ok(if sp == FshL { a[0].clone() } else { a[1].clone() });
                }
                if sp == FshL {
                    concat(&extract(&a[0], w, 0, w - s), w - s, &extract(&a[1], w, w - s, s), s)
                } else {
                    concat(&extract(&a[0], w, 0, s), s, &extract(&a[1], w, s, w - s), w - s)
                }
            }
            FAbs => bin(B::And, w, x, &Val::C(mask(w - 1))),
            FMinNum => bin(B::FMin, w, x, &a[1]),
            FMaxNum => bin(B::FMax, w, x, &a[1]),
            FFloor => un(U::FFloor, w, w, x),
            FCeil => un(U::FCeil, w, w, x),
            FTrunc => un(U::FTrunc, w, w, x),
            FRint => un(U::FRoundEven, w, w, x),
            FRound => un(U::FRoundAway, w, w, x),
            FSqrt => un(U::FSqrt, w, w, x),
            CopySign => {
                let s = bin(B::And, w, &a[1], &Val::C(1u128 << (w - 1)));
                let v = bin(B::And, w, x, &Val::C(mask(w - 1)));
                bin(B::Or, w, &s, &v)
            }
            _ => {
                let _ = rw;
                return inc("pure op");
            }
        })
    }
}
fn w0_of(w: u32) -> u32 {
    w
}
fn n_of(t: &Ty) -> usize {
    match t {
        Ty::Arr(n, _) => *n as usize,
        Ty::Vec(n, _) => *n as usize,
        _ => 0,
    }
}
