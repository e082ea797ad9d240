//! Compact IR, translated lazily from LLVM bitcode.
use crate::expr::Ex;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { C(u64), W(Rc<u128>), E(Ex), A(Rc<Vec<V>>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void, Int(u16), Ptr, F32, F64,
    Vec(u32, Rc<Ty>),
    /// size, fields with their offsets
    Agg(u64, Rc<Vec<(u64, Ty)>>),
    Other,
}
impl Ty {
    /// bit width of a scalar
    pub fn bits(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => *n as u16 * t.bits(), _ => 0 }
    }
    pub fn is_float(&self) -> bool { matches!(self, Ty::F32 | Ty::F64) }
    pub fn store_size(&self) -> u64 {
        match self { Ty::Void | Ty::Other => 0, Ty::Agg(s, _) => *s, t => (t.bits() as u64 + 7) / 8 }
    }
}

#[derive(Clone, Debug)]
pub enum O { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, Ty, O, O),
    ICmp(Pred, Ty, O, O),
    FCmp(u32, Ty, O, O),
    FNeg(Ty, O),
    Load(Ty, O),
    Store(Ty, O, O),
    Alloca(u64, u64, O),
    Gep(O, i64, Vec<(O, u16, i64)>),
    /// vector-of-pointers GEPs and other things outside the supported subset
    Unsupported(String),
    Cast(CastOp, Ty, Ty, O),
    Select(Ty, O, O, O, bool),
    Call(O, Vec<(Ty, O)>, Ty, Option<u32>),
    Asm(String, Ty, Vec<O>),
    ExtractValue(O, Vec<u32>),
    InsertValue(O, O, Vec<u32>),
    ExtractElement(O, O),
    InsertElement(O, O, O),
    Shuffle(O, O, Vec<i32>),
    Freeze(O),
    Rmw(u32, Ty, O, O),
    CmpXchg(Ty, O, O, O),
    Nop,
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Vec<(u128, u32)>),
    Ret(Option<O>),
    Unreachable,
}

pub struct Block { pub ins: Vec<(u32, I)>, pub phis: Vec<(u32, Vec<(u32, O)>)> }
pub struct Func { pub id: u32, pub nregs: u32, pub nparams: u32, pub blocks: Vec<Block> }
