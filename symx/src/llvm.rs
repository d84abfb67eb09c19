//! Loads LLVM bitcode through the LLVM-C API of the pinned toolchain and decodes it.
use crate::expr::Val;
use crate::ir::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::Arc;
type P = *mut c_void;
#[link(name = "LLVM-19-rust-1.86.0-stable")]
extern "C" {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(ctx: P, buf: P, out: *mut P) -> c_int;
    fn LLVMCreatePassBuilderOptions() -> P;
    fn LLVMRunPasses(m: P, passes: *const c_char, tm: P, o: P) -> P;
    fn LLVMGetErrorMessage(e: P) -> *mut c_char;
    fn LLVMGetModuleDataLayout(m: P) -> P;
    fn LLVMABISizeOfType(td: P, t: P) -> u64;
    fn LLVMStoreSizeOfType(td: P, t: P) -> u64;
    fn LLVMABIAlignmentOfType(td: P, t: P) -> c_uint;
    fn LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> u64;
    fn LLVMGetFirstFunction(m: P) -> P;
    fn LLVMGetNextFunction(f: P) -> P;
    fn LLVMGetFirstGlobal(m: P) -> P;
    fn LLVMGetNextGlobal(f: P) -> P;
    fn LLVMAliasGetAliasee(a: P) -> P;
    fn LLVMGetValueName2(v: P, l: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: P) -> c_int;
    fn LLVMGetInitializer(v: P) -> P;
    fn LLVMIsGlobalConstant(v: P) -> c_int;
    fn LLVMGlobalGetValueType(v: P) -> P;
    fn LLVMGetAlignment(v: P) -> c_uint;
    fn LLVMGetLinkage(v: P) -> c_int;
    fn LLVMSetLinkage(v: P, l: c_int);
    fn LLVMGetFirstBasicBlock(f: P) -> P;
    fn LLVMGetNextBasicBlock(b: P) -> P;
    fn LLVMGetFirstInstruction(b: P) -> P;
    fn LLVMGetNextInstruction(i: P) -> P;
    fn LLVMGetInstructionOpcode(i: P) -> c_int;
    fn LLVMTypeOf(v: P) -> P;
    fn LLVMGetTypeKind(t: P) -> c_int;
    fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    fn LLVMGetElementType(t: P) -> P;
    fn LLVMGetArrayLength2(t: P) -> u64;
    fn LLVMGetVectorSize(t: P) -> c_uint;
    fn LLVMCountStructElementTypes(t: P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    fn LLVMTypeIsSized(t: P) -> c_int;
    fn LLVMGetNumOperands(v: P) -> c_int;
    fn LLVMGetOperand(v: P, i: c_uint) -> P;
    fn LLVMValueAsBasicBlock(v: P) -> P;
    fn LLVMGetValueKind(v: P) -> c_int;
    fn LLVMConstIntGetZExtValue(v: P) -> u64;
    fn LLVMPrintValueToString(v: P) -> *mut c_char;
    fn LLVMConstRealGetDouble(v: P, l: *mut c_int) -> f64;
    fn LLVMGetConstOpcode(v: P) -> c_int;
    fn LLVMGetGEPSourceElementType(v: P) -> P;
    fn LLVMGetICmpPredicate(v: P) -> c_int;
    fn LLVMGetFCmpPredicate(v: P) -> c_int;
    fn LLVMGetAllocatedType(v: P) -> P;
    fn LLVMGetCalledValue(v: P) -> P;
    fn LLVMGetNumArgOperands(v: P) -> c_uint;
    fn LLVMGetNormalDest(v: P) -> P;
    fn LLVMGetUnwindDest(v: P) -> P;
    fn LLVMCountIncoming(v: P) -> c_uint;
    fn LLVMGetIncomingValue(v: P, i: c_uint) -> P;
    fn LLVMGetIncomingBlock(v: P, i: c_uint) -> P;
    fn LLVMGetNumIndices(v: P) -> c_uint;
    fn LLVMGetIndices(v: P) -> *const c_uint;
    fn LLVMGetNumMaskElements(v: P) -> c_uint;
    fn LLVMGetMaskValue(v: P, i: c_uint) -> c_int;
    fn LLVMGetAtomicRMWBinOp(v: P) -> c_int;
    fn LLVMIsCleanup(v: P) -> c_int;
    fn LLVMGetNumClauses(v: P) -> c_uint;
    fn LLVMGetSuccessor(v: P, i: c_uint) -> P;
    fn LLVMIsConditional(v: P) -> c_int;
    fn LLVMGetAsString(v: P, l: *mut usize) -> *const c_char;
    fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    fn LLVMGetDebugLocLine(v: P) -> c_uint;
    fn LLVMGetDebugLocFilename(v: P, l: *mut c_uint) -> *const c_char;
    fn LLVMGetMetadata(v: P, kind: c_uint) -> P;
    fn LLVMGetMDKindIDInContext(c: P, name: *const c_char, l: c_uint) -> c_uint;
    fn LLVMGetMDNodeNumOperands(v: P) -> c_uint;
    fn LLVMGetMDNodeOperands(v: P, dest: *mut P);
    fn LLVMCountParams(f: P) -> c_uint;
    fn LLVMGetParam(f: P, i: c_uint) -> P;
    fn LLVMIsFunctionVarArg(t: P) -> c_int;
    fn LLVMGetReturnType(t: P) -> P;
    fn LLVMDisposeMessage(s: *mut c_char);
}
fn name_of(v: P) -> String {
    unsafe {
        let mut l = 0usize;
        let p = LLVMGetValueName2(v, &mut l);
        if p.is_null() {
            return String::new();
        }
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned()
    }
}
fn print(v: P) -> String {
    unsafe {
        let s = LLVMPrintValueToString(v);
        let r = CStr::from_ptr(s).to_string_lossy().into_owned();
        LLVMDisposeMessage(s);
        r
    }
}
pub struct Loader {
    td: P,
    ctx: P,
    tymap: HashMap<usize, TyId>,
    pub m: Module,
    fmap: HashMap<usize, u32>,
    gmap: HashMap<usize, u32>,
    cmap: HashMap<usize, u32>,
    locmap: HashMap<(String, u32), u32>,
    md_noundef: c_uint,
    md_range: c_uint,
}
pub fn load(path: &str, entries: &[String], passes: &str) -> Result<Module, String> {
    unsafe {
        let ctx = LLVMContextCreate();
        let cp = CString::new(path).unwrap();
        let mut buf: P = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        if LLVMCreateMemoryBufferWithContentsOfFile(cp.as_ptr(), &mut buf, &mut msg) != 0 {
            return Err(format!("cannot read {}", path));
        }
        let mut m: P = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 {
            return Err(format!("cannot parse bitcode {}", path));
        }
        // keep only the requested entries (and memory-model functions) alive
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            if LLVMIsDeclaration(f) == 0 {
                let n = name_of(f);
                let keep = entries.iter().any(|e| *e == n);
                LLVMSetLinkage(f, if keep { 0 } else { 8 });
            }
            f = LLVMGetNextFunction(f);
        }
        let opts = LLVMCreatePassBuilderOptions();
        let ps = CString::new(passes).unwrap();
        let e = LLVMRunPasses(m, ps.as_ptr(), std::ptr::null_mut(), opts);
        if !e.is_null() {
            let s = LLVMGetErrorMessage(e);
            return Err(format!("passes: {}", CStr::from_ptr(s).to_string_lossy()));
        }
        let kind = |s: &str| LLVMGetMDKindIDInContext(ctx, s.as_ptr() as *const c_char, s.len() as c_uint);
        let mut l = Loader {
            td: LLVMGetModuleDataLayout(m),
            ctx,
            tymap: HashMap::new(),
            m: Module { tys: vec![], consts: vec![], rel: vec![], funcs: vec![], globals: vec![], locs: vec![("?".into(), 0)], ranges: vec![vec![]] },
            fmap: HashMap::new(),
            gmap: HashMap::new(),
            cmap: HashMap::new(),
            locmap: HashMap::new(),
            md_noundef: kind("noundef"),
            md_range: kind("range"),
        };
        l.run(m);
        Ok(l.m)
    }
}
impl Loader {
    unsafe fn ty(&mut self, t: P) -> TyId {
        if let Some(i) = self.tymap.get(&(t as usize)) {
            return *i;
        }
        let k = LLVMGetTypeKind(t);
        let ty = match k {
            0 => Ty::Void,
            2 => Ty::Fp(32),
            3 => Ty::Fp(64),
            8 => Ty::Int(LLVMGetIntTypeWidth(t)),
            10 => {
                let n = LLVMCountStructElementTypes(t);
                let mut v = vec![];
                for i in 0..n {
                    let et = LLVMStructGetTypeAtIndex(t, i);
                    let ei = self.ty(et);
                    v.push((ei, LLVMOffsetOfElement(self.td, t, i)));
                }
                Ty::Struct(v)
            }
            11 => {
                let e = self.ty(LLVMGetElementType(t));
                Ty::Arr(LLVMGetArrayLength2(t), e)
            }
            12 => Ty::Ptr,
            13 => {
                let e = self.ty(LLVMGetElementType(t));
                Ty::Vec(LLVMGetVectorSize(t), e)
            }
            o => Ty::Other(o as u32),
        };
        let sized = LLVMTypeIsSized(t) != 0 && k != 0;
        let (size, store, align) = if sized {
            (LLVMABISizeOfType(self.td, t), LLVMStoreSizeOfType(self.td, t), LLVMABIAlignmentOfType(self.td, t) as u64)
        } else {
            (0, 0, 1)
        };
        let id = self.m.tys.len() as u32;
        self.m.tys.push(TyInfo { t: ty, size, store, align });
        self.tymap.insert(t as usize, id);
        id
    }
    unsafe fn run(&mut self, m: P) {
        // pass 1: ids
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            let id = self.m.funcs.len() as u32;
            self.fmap.insert(f as usize, id);
            let fty = LLVMGlobalGetValueType(f);
            let ret = self.ty(LLVMGetReturnType(fty));
            self.m.funcs.push(Func {
                name: name_of(f),
                nargs: LLVMCountParams(f),
                nregs: 0,
                blocks: vec![],
                decl: LLVMIsDeclaration(f) != 0,
                variadic: LLVMIsFunctionVarArg(fty) != 0,
                ret,
                special: 0,
            });
            f = LLVMGetNextFunction(f);
        }
        let mut g = LLVMGetFirstGlobal(m);
        let mut gl = vec![];
        while !g.is_null() {
            let id = self.m.globals.len() as u32;
            self.gmap.insert(g as usize, id);
            let t = LLVMGlobalGetValueType(g);
            let ti = self.ty(t);
            let info = self.m.tys[ti as usize].clone();
            let al = (LLVMGetAlignment(g) as u64).max(1).max(if LLVMGetAlignment(g) == 0 { info.align } else { 1 });
            let linkage = LLVMGetLinkage(g);
            self.m.globals.push(GlobalInit {
                name: name_of(g),
                size: info.size,
                align: al,
                constant: LLVMIsGlobalConstant(g) != 0,
                ext_weak: linkage == 12,
                data: vec![],
                uninit: vec![],
                has_init: LLVMIsDeclaration(g) == 0,
            });
            gl.push(g);
            g = LLVMGetNextGlobal(g);
        }
        for (i, g) in gl.iter().enumerate() {
            let size = self.m.globals[i].size as usize;
            let mut data = vec![0u8; size];
            let mut un = vec![];
            if self.m.globals[i].has_init {
                let init = LLVMGetInitializer(*g);
                let mut mask = vec![0u8; size];
                self.write_const(init, &mut data, &mut mask, 0);
                if mask.iter().any(|x| *x != 0) {
                    un = mask;
                }
            }
            self.m.globals[i].data = data;
            self.m.globals[i].uninit = un;
        }
        let mut f = LLVMGetFirstFunction(m);
        let mut i = 0;
        while !f.is_null() {
            if LLVMIsDeclaration(f) == 0 {
                self.func(f, i);
            }
            i += 1;
            f = LLVMGetNextFunction(f);
        }
    }
    fn gaddr(&self, i: u32) -> u64 {
        let g = &self.m.globals[i as usize];
        if g.ext_weak {
            return 0;
        }
        slot_base(GLOBAL_SLOT0 + i as u64, g.align)
    }
    unsafe fn big_int(&mut self, v: P, w: u32) -> u128 {
        if w <= 64 {
            return LLVMConstIntGetZExtValue(v) as u128 & crate::expr::mask(w);
        }
        let s = print(v);
        let num = s.rsplit(' ').next().unwrap();
        let r = if let Ok(i) = num.parse::<i128>() { i as u128 } else { num.parse::<u128>().unwrap_or_else(|_| {
            if w > 128 { 0 } else { panic!("bad int const {}", s) }
        }) };
        r & crate::expr::mask(w)
    }
    unsafe fn cval(&mut self, v: P) -> Val {
        let tid = self.ty(LLVMTypeOf(v));
        let ti = self.m.tys[tid as usize].clone();
        match LLVMGetValueKind(v) {
            5 => Val::C(func_addr(self.fmap[&(v as usize)]) as u128),
            6 => {
                let a = LLVMAliasGetAliasee(v);
                self.cval(a)
            }
            8 => Val::C(self.gaddr(self.gmap[&(v as usize)]) as u128),
            14 | 25 => self.undef(tid),
            15 | 20 => self.zero(tid),
            18 => {
                let w = LLVMGetIntTypeWidth(LLVMTypeOf(v));
                Val::C(self.big_int(v, w))
            }
            19 => {
                let mut l = 0;
                let d = LLVMConstRealGetDouble(v, &mut l);
                match ti.t {
                    Ty::Fp(32) => Val::C((d as f32).to_bits() as u128),
                    _ => Val::C(d.to_bits() as u128),
                }
            }
            11 | 12 | 13 => {
                let n = LLVMGetNumOperands(v);
                let mut o = vec![];
                for i in 0..n {
                    let x = LLVMGetOperand(v, i as u32);
                    o.push(self.cval(x));
                }
                Val::A(Arc::new(o))
            }
            16 | 17 => {
                let n = match ti.t {
                    Ty::Arr(n, _) => n as u32,
                    Ty::Vec(n, _) => n,
                    _ => 0,
                };
                let mut o = vec![];
                for i in 0..n {
                    let x = LLVMGetAggregateElement(v, i);
                    o.push(self.cval(x));
                }
                Val::A(Arc::new(o))
            }
            10 => self.cexpr(v, tid),
            k => {
                let _ = k;
                Val::U
            }
        }
    }
    fn undef(&self, t: TyId) -> Val {
        match &self.m.tys[t as usize].t {
            Ty::Struct(f) => Val::A(Arc::new(f.iter().map(|(t, _)| self.undef(*t)).collect())),
            Ty::Arr(n, e) => Val::A(Arc::new((0..*n).map(|_| self.undef(*e)).collect())),
            Ty::Vec(n, e) => Val::A(Arc::new((0..*n).map(|_| self.undef(*e)).collect())),
            _ => Val::U,
        }
    }
    fn zero(&self, t: TyId) -> Val {
        match &self.m.tys[t as usize].t {
            Ty::Struct(f) => Val::A(Arc::new(f.iter().map(|(t, _)| self.zero(*t)).collect())),
            Ty::Arr(n, e) => Val::A(Arc::new((0..*n).map(|_| self.zero(*e)).collect())),
            Ty::Vec(n, e) => Val::A(Arc::new((0..*n).map(|_| self.zero(*e)).collect())),
            _ => Val::C(0),
        }
    }
    unsafe fn cexpr(&mut self, v: P, tid: TyId) -> Val {
        let op = LLVMGetConstOpcode(v);
        let o: Vec<P> = (0..LLVMGetNumOperands(v)).map(|i| LLVMGetOperand(v, i as u32)).collect();
        let num = |v: &Val| match v {
            Val::C(c) => *c,
            _ => 0,
        };
        let w = match self.m.tys[tid as usize].t {
            Ty::Int(w) => w,
            _ => 64,
        };
        match op {
            30 if w == 32 && LLVMGetValueKind(o[0]) == 10 && LLVMGetConstOpcode(o[0]) == 10 => {
                let (x, y) = (LLVMGetOperand(o[0], 0), LLVMGetOperand(o[0], 1));
                let (a, b) = (num(&self.cval(x)) as u64, num(&self.cval(y)) as u64);
                if a >> 32 == b >> 32 {
                    return Val::C(a.wrapping_sub(b) as u32 as u128);
                }
                self.m.rel.push(a);
                Val::C((REL_HANDLE + self.m.rel.len() as u64 - 1) as u128)
            }
            29 => {
                let mut addr = num(&self.cval(o[0])) as u64;
                let mut t = LLVMGetGEPSourceElementType(v);
                for (i, x) in o[1..].iter().enumerate() {
                    let iv = num(&self.cval(*x));
                    let iw = LLVMGetIntTypeWidth(LLVMTypeOf(*x));
                    let idx = crate::expr::sext128(iv, iw) as i64;
                    if i == 0 {
                        addr = addr.wrapping_add((idx as u64).wrapping_mul(LLVMABISizeOfType(self.td, t)));
                    } else {
                        match LLVMGetTypeKind(t) {
                            10 => {
                                addr = addr.wrapping_add(LLVMOffsetOfElement(self.td, t, idx as u32));
                                t = LLVMStructGetTypeAtIndex(t, idx as u32);
                            }
                            _ => {
                                t = LLVMGetElementType(t);
                                addr = addr.wrapping_add((idx as u64).wrapping_mul(LLVMABISizeOfType(self.td, t)));
                            }
                        }
                    }
                }
                Val::C(addr as u128)
            }
            30 | 39 | 40 | 41 | 31 => Val::C(num(&self.cval(o[0])) & crate::expr::mask(w)),
            8 | 10 | 25 | 12 => {
                let (a, b) = (num(&self.cval(o[0])), num(&self.cval(o[1])));
                let r = match op {
                    8 => a.wrapping_add(b),
                    10 => a.wrapping_sub(b),
                    12 => a.wrapping_mul(b),
                    _ => a ^ b,
                };
                Val::C(r & crate::expr::mask(w))
            }
            _ => Val::U,
        }
    }
    unsafe fn write_const(&mut self, v: P, d: &mut [u8], un: &mut [u8], off: usize) {
        let t = LLVMTypeOf(v);
        let tid = self.ty(t);
        let ti = self.m.tys[tid as usize].clone();
        match LLVMGetValueKind(v) {
            14 | 25 => {
                for i in 0..ti.size as usize {
                    un[off + i] = 1;
                }
            }
            15 | 20 => {}
            16 | 17 => {
                let mut l = 0usize;
                let p = LLVMGetAsString(v, &mut l);
                let s = std::slice::from_raw_parts(p as *const u8, l);
                d[off..off + l].copy_from_slice(s);
            }
            11 | 13 => {
                let es = match ti.t {
                    Ty::Arr(_, e) | Ty::Vec(_, e) => self.m.tys[e as usize].size as usize,
                    _ => 0,
                };
                for i in 0..LLVMGetNumOperands(v) {
                    let x = LLVMGetOperand(v, i as u32);
                    self.write_const(x, d, un, off + es * i as usize);
                }
            }
            12 => {
                for i in 0..LLVMGetNumOperands(v) {
                    let x = LLVMGetOperand(v, i as u32);
                    let o = LLVMOffsetOfElement(self.td, t, i as u32) as usize;
                    self.write_const(x, d, un, off + o);
                }
            }
            _ => match self.cval(v) {
                Val::C(c) => {
                    let b = c.to_le_bytes();
                    let n = ti.store as usize;
                    d[off..off + n].copy_from_slice(&b[..n]);
                }
                _ => {
                    for i in 0..ti.size as usize {
                        un[off + i] = 1;
                    }
                }
            },
        }
    }
    unsafe fn func(&mut self, f: P, id: usize) {
        let mut regs: HashMap<usize, u32> = HashMap::new();
        let np = LLVMCountParams(f);
        for i in 0..np {
            regs.insert(LLVMGetParam(f, i) as usize, i);
        }
        let mut nregs = np;
        let mut bbs: HashMap<usize, u32> = HashMap::new();
        let mut order = vec![];
        let mut b = LLVMGetFirstBasicBlock(f);
        while !b.is_null() {
            bbs.insert(b as usize, order.len() as u32);
            order.push(b);
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                if LLVMGetTypeKind(LLVMTypeOf(i)) != 0 {
                    regs.insert(i as usize, nregs);
                    nregs += 1;
                }
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
        let mut blocks = vec![];
        for b in &order {
            let mut blk = Block::default();
            let mut i = LLVMGetFirstInstruction(*b);
            while !i.is_null() {
                if let Some(k) = self.inst(i, &regs, &bbs) {
                    if matches!(k, IK::Phi(..)) {
                        blk.nphi += 1;
                    }
                    let d = regs.get(&(i as usize)).copied().unwrap_or(u32::MAX);
                    let mut l = 0;
                    let line = LLVMGetDebugLocLine(i);
                    let loc = if line == 0 {
                        0
                    } else {
                        let p = LLVMGetDebugLocFilename(i, &mut l);
                        let file = if p.is_null() { "?".to_string() } else { String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l as usize)).into_owned() };
                        let key = (file, line);
                        if let Some(x) = self.locmap.get(&key) {
                            *x
                        } else {
                            let x = self.m.locs.len() as u32;
                            self.m.locs.push(key.clone());
                            self.locmap.insert(key, x);
                            x
                        }
                    };
                    blk.insts.push(Inst { k, d, loc });
                }
                i = LLVMGetNextInstruction(i);
            }
            blocks.push(blk);
        }
        let fu = &mut self.m.funcs[id];
        fu.blocks = blocks;
        fu.nregs = nregs;
    }
    unsafe fn opd(&mut self, v: P, regs: &HashMap<usize, u32>) -> Opd {
        match LLVMGetValueKind(v) {
            0 | 24 => Opd::R(regs[&(v as usize)]),
            _ => {
                if let Some(c) = self.cmap.get(&(v as usize)) {
                    return Opd::C(*c);
                }
                let c = self.cval(v);
                let id = self.m.consts.len() as u32;
                self.m.consts.push(c);
                self.cmap.insert(v as usize, id);
                Opd::C(id)
            }
        }
    }
    unsafe fn inst(&mut self, i: P, regs: &HashMap<usize, u32>, bbs: &HashMap<usize, u32>) -> Option<IK> {
        let op = LLVMGetInstructionOpcode(i);
        let o = |k: u32| LLVMGetOperand(i, k);
        let tid = self.ty(LLVMTypeOf(i));
        macro_rules! op {
            ($k:expr) => {{
                let x = LLVMGetOperand(i, $k as u32);
                self.opd(x, regs)
            }};
        }
        let bb = |p: P| bbs[&(p as usize)];
        Some(match op {
            8..=25 => {
                let k = [
                    BinK::Add, BinK::FAdd, BinK::Sub, BinK::FSub, BinK::Mul, BinK::FMul, BinK::UDiv, BinK::SDiv,
                    BinK::FDiv, BinK::URem, BinK::SRem, BinK::FRem, BinK::Shl, BinK::LShr, BinK::AShr, BinK::And,
                    BinK::Or, BinK::Xor,
                ][(op - 8) as usize];
                IK::Bin(k, tid, op!(0), op!(1))
            }
            66 => IK::FNeg(tid, op!(0)),
            1 => {
                if LLVMGetNumOperands(i) == 0 { IK::Ret(None) } else { IK::Ret(Some(op!(0))) }
            }
            2 => {
                if LLVMIsConditional(i) != 0 {
                    IK::CondBr(op!(0), bb(LLVMGetSuccessor(i, 0)), bb(LLVMGetSuccessor(i, 1)))
                } else {
                    IK::Br(bb(LLVMGetSuccessor(i, 0)))
                }
            }
            3 => {
                let t = self.ty(LLVMTypeOf(o(0)));
                let w = LLVMGetIntTypeWidth(LLVMTypeOf(o(0)));
                let n = LLVMGetNumOperands(i);
                let mut cases = vec![];
                let mut k = 2;
                while k < n {
                    let c = self.big_int(o(k as u32), w);
                    cases.push((c, bb(LLVMValueAsBasicBlock(o(k as u32 + 1)))));
                    k += 2;
                }
                IK::Switch(t, op!(0), bb(LLVMValueAsBasicBlock(o(1))), Box::new(cases))
            }
            5 | 45 => {
                let callee = LLVMGetCalledValue(i);
                let n = LLVMGetNumArgOperands(i);
                let mut args = vec![];
                let mut arg_tys = vec![];
                let ck = LLVMGetValueKind(callee);
                let callee = match ck {
                    5 => {
                        let fid = self.fmap[&(callee as usize)];
                        let nm = &self.m.funcs[fid as usize].name;
                        if nm.starts_with("llvm.dbg.") || nm.starts_with("llvm.experimental.noalias") || nm == "llvm.donothing" || nm.starts_with("llvm.pseudoprobe") || nm.starts_with("llvm.invariant") {
                            return None;
                        }
                        Callee::Fn(fid)
                    }
                    6 => {
                        let a = LLVMAliasGetAliasee(callee);
                        match self.fmap.get(&(a as usize)) {
                            Some(f) => Callee::Fn(*f),
                            None => return Some(IK::Unsupported("call alias".into())),
                        }
                    }
                    23 => Callee::Asm,
                    _ => Callee::Ind(self.opd(callee, regs)),
                };
                for k in 0..n {
                    let a = o(k);
                    if LLVMGetValueKind(a) == 22 {
                        args.push(Opd::C(0));
                        arg_tys.push(0);
                        continue;
                    }
                    let t = self.ty(LLVMTypeOf(a));
                    args.push(self.opd(a, regs));
                    arg_tys.push(t);
                }
                let (normal, unwind) = if op == 5 { (bb(LLVMGetNormalDest(i)), bb(LLVMGetUnwindDest(i))) } else { (u32::MAX, u32::MAX) };
                IK::Call(Box::new(CallI { callee, args, arg_tys, ret: tid, normal, unwind }))
            }
            7 => IK::Unreachable,
            26 => {
                let t = LLVMGetAllocatedType(i);
                IK::Alloca { size: LLVMABISizeOfType(self.td, t), count: op!(0), align: LLVMGetAlignment(i) }
            }
            27 => {
                let nu = !LLVMGetMetadata(i, self.md_noundef).is_null();
                let r = LLVMGetMetadata(i, self.md_range);
                let mut range = 0;
                if !r.is_null() {
                    let n = LLVMGetMDNodeNumOperands(r);
                    let mut v: Vec<P> = vec![std::ptr::null_mut(); n as usize];
                    LLVMGetMDNodeOperands(r, v.as_mut_ptr());
                    let mut rs = vec![];
                    for c in v.chunks(2) {
                        if c.len() == 2 && LLVMGetValueKind(c[0]) == 18 {
                            let w = LLVMGetIntTypeWidth(LLVMTypeOf(c[0]));
                            let a = self.big_int(c[0], w);
                            let b = self.big_int(c[1], w);
                            rs.push((a, b));
                        }
                    }
                    range = self.m.ranges.len() as u32;
                    self.m.ranges.push(rs);
                }
                IK::Load { ty: tid, ptr: op!(0), align: LLVMGetAlignment(i), noundef: nu, range }
            }
            28 => {
                let t = self.ty(LLVMTypeOf(o(0)));
                IK::Store { ty: t, val: op!(0), ptr: op!(1), align: LLVMGetAlignment(i) }
            }
            29 => {
                if let Ty::Vec(..) = self.m.tys[tid as usize].t {
                    return Some(IK::Unsupported("vector gep".into()));
                }
                let mut t = LLVMGetGEPSourceElementType(i);
                let base = op!(0);
                let n = LLVMGetNumOperands(i);
                let mut off = 0i64;
                let mut idx = vec![];
                for k in 1..n {
                    let x = o(k as u32);
                    let konst = LLVMGetValueKind(x) == 18;
                    let w = LLVMGetIntTypeWidth(LLVMTypeOf(x));
                    if k > 1 && LLVMGetTypeKind(t) == 10 {
                        let c = LLVMConstIntGetZExtValue(x) as u32;
                        off += LLVMOffsetOfElement(self.td, t, c) as i64;
                        t = LLVMStructGetTypeAtIndex(t, c);
                        continue;
                    }
                    if k > 1 {
                        t = LLVMGetElementType(t);
                    }
                    let sz = LLVMABISizeOfType(self.td, t) as i64;
                    if konst {
                        let c = self.big_int(x, w);
                        off = off.wrapping_add((crate::expr::sext128(c, w) as i64).wrapping_mul(sz));
                    } else {
                        idx.push((self.opd(x, regs), w, sz));
                    }
                }
                IK::Gep { base, off, idx }
            }
            30..=41 => {
                let k = [
                    CastK::Trunc, CastK::ZExt, CastK::SExt, CastK::FPToUI, CastK::FPToSI, CastK::UIToFP, CastK::SIToFP,
                    CastK::FPTrunc, CastK::FPExt, CastK::PtrToInt, CastK::IntToPtr, CastK::BitCast,
                ][(op - 30) as usize];
                let st = self.ty(LLVMTypeOf(o(0)));
                IK::Cast(k, st, tid, op!(0))
            }
            42 => {
                let t = self.ty(LLVMTypeOf(o(0)));
                IK::ICmp(LLVMGetICmpPredicate(i) as u32, t, op!(0), op!(1))
            }
            43 => {
                let t = self.ty(LLVMTypeOf(o(0)));
                IK::FCmp(LLVMGetFCmpPredicate(i) as u32, t, op!(0), op!(1))
            }
            44 => {
                let n = LLVMCountIncoming(i);
                let mut v = vec![];
                for k in 0..n {
                    let x = LLVMGetIncomingValue(i, k);
                    let ov = self.opd(x, regs);
                    v.push((bb(LLVMGetIncomingBlock(i, k)), ov));
                }
                IK::Phi(tid, Box::new(v))
            }
            46 => IK::Select(tid, op!(0), op!(1), op!(2)),
            50 => {
                let t = self.ty(LLVMTypeOf(o(0)));
                IK::ExtractElement(op!(0), op!(1), t)
            }
            51 => IK::InsertElement(tid, op!(0), op!(1), op!(2)),
            52 => {
                let n = LLVMGetNumMaskElements(i);
                let mv = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
                let st = self.ty(LLVMTypeOf(o(0)));
                IK::Shuffle(st, op!(0), op!(1), mv)
            }
            53 | 54 => {
                let n = LLVMGetNumIndices(i) as usize;
                let ix = std::slice::from_raw_parts(LLVMGetIndices(i), n).to_vec();
                if op == 53 { IK::ExtractValue(op!(0), ix) } else { IK::InsertValue(tid, op!(0), op!(1), ix) }
            }
            68 => IK::Freeze(tid, op!(0)),
            55 => IK::Fence,
            56 => {
                let t = self.ty(LLVMTypeOf(o(1)));
                IK::CmpXchg(t, op!(0), op!(1), op!(2))
            }
            57 => IK::Rmw(LLVMGetAtomicRMWBinOp(i) as u32, tid, op!(0), op!(1)),
            58 => IK::Resume(op!(0)),
            59 => IK::LandingPad { cleanup: LLVMIsCleanup(i) != 0, catch: LLVMGetNumClauses(i) > 0 },
            _ => IK::Unsupported(format!("opcode {} : {}", op, print(i))),
        })
    }
    #[allow(dead_code)]
    fn unused(&self) -> P {
        self.ctx
    }
}
