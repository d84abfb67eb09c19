//! In-memory program representation decoded from LLVM bitcode.
use crate::expr::Val;
pub type TyId = u32;
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Fp(u32),
    Vec(u32, TyId),
    Arr(u64, TyId),
    Struct(Vec<(TyId, u64)>),
    Other(u32),
}
#[derive(Clone, Debug)]
pub struct TyInfo {
    pub t: Ty,
    pub size: u64,  // abi (alloc) size
    pub store: u64, // store size
    pub align: u64,
}
#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    C(u32),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc, ZExt, SExt, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt, PtrToInt, IntToPtr, BitCast,
}
#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<Opd>,
    pub arg_tys: Vec<TyId>,
    pub ret: TyId,
    pub normal: u32, // block index or u32::MAX for plain call
    pub unwind: u32,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm,
}
#[derive(Clone, Debug)]
pub enum IK {
    Bin(BinK, TyId, Opd, Opd),
    ICmp(u32, TyId, Opd, Opd),
    FCmp(u32, TyId, Opd, Opd),
    FNeg(TyId, Opd),
    Select(TyId, Opd, Opd, Opd),
    Cast(CastK, TyId, TyId, Opd),
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Load { ty: TyId, ptr: Opd, align: u32, noundef: bool, range: u32 },
    Store { ty: TyId, val: Opd, ptr: Opd, align: u32 },
    Alloca { size: u64, count: Opd, align: u32 },
    Call(Box<CallI>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(TyId, Opd, u32, Box<Vec<(u128, u32)>>),
    Ret(Option<Opd>),
    Unreachable,
    Phi(TyId, Box<Vec<(u32, Opd)>>),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(TyId, Opd, Opd, Vec<u32>),
    ExtractElement(Opd, Opd, TyId),
    InsertElement(TyId, Opd, Opd, Opd),
    Shuffle(TyId, Opd, Opd, Vec<i32>),
    Rmw(u32, TyId, Opd, Opd),
    CmpXchg(TyId, Opd, Opd, Opd),
    Fence,
    LandingPad { cleanup: bool, catch: bool },
    Resume(Opd),
    Freeze(TyId, Opd),
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub k: IK,
    pub d: u32,
    pub loc: u32,
}
#[derive(Clone, Debug, Default)]
pub struct Block {
    pub insts: Vec<Inst>,
    pub nphi: usize,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub nargs: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub decl: bool,
    pub variadic: bool,
    pub ret: TyId,
    pub special: u32,
}
pub struct GlobalInit {
    pub name: String,
    pub size: u64,
    pub align: u64,
    pub constant: bool,
    pub ext_weak: bool,
    pub data: Vec<u8>,
    pub uninit: Vec<u8>, // 1 = undef
    pub has_init: bool,
}
pub struct Module {
    pub tys: Vec<TyInfo>,
    pub consts: Vec<Val>,
    /// what entries of relative lookup tables point at: objects are too far apart for 32-bit offsets
    pub rel: Vec<u64>,
    pub funcs: Vec<Func>,
    pub globals: Vec<GlobalInit>,
    pub locs: Vec<(String, u32)>,
    pub ranges: Vec<Vec<(u128, u128)>>,
}
pub const FUNC_SLOT: u64 = 1;
pub const GLOBAL_SLOT0: u64 = 64;
pub fn func_addr(i: u32) -> u64 {
    (FUNC_SLOT << 32) + 0x1000 + (i as u64) * 16
}
pub fn addr_func(a: u64) -> Option<u32> {
    if a >> 32 != FUNC_SLOT {
        return None;
    }
    let o = (a & 0xffff_ffff).checked_sub(0x1000)?;
    if o % 16 != 0 {
        return None;
    }
    Some((o / 16) as u32)
}
pub fn slot_base(slot: u64, align: u64) -> u64 {
    // exactly `align`-aligned, not more
    let a = align.max(1);
    let mut off = 0x10000u64.max(a * 2);
    off = (off + a - 1) / a * a;
    if (off / a) % 2 == 0 {
        off += a;
    }
    (slot << 32) + off
}
/// entry k of Module::rel is written as this plus k
pub const REL_HANDLE: u64 = 0x4000_0000;
