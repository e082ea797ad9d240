//! Loads a bitcode module through LLVM's C API and translates functions on demand.
use crate::ir::*;
use crate::mem::Mem;
use std::collections::HashMap;
use std::ffi::{c_char, c_double, c_int, c_uint, c_ulonglong, c_void, CStr, CString};
use std::rc::Rc;

type P = *mut c_void;
#[allow(dead_code)]
extern "C" {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(ctx: P, buf: P, out: *mut P) -> c_int;
    fn LLVMGetFirstFunction(m: P) -> P;
    fn LLVMGetNextFunction(f: P) -> P;
    fn LLVMGetFirstGlobal(m: P) -> P;
    fn LLVMGetNextGlobal(f: P) -> P;
    fn LLVMGetFirstGlobalAlias(m: P) -> P;
    fn LLVMGetNextGlobalAlias(f: P) -> P;
    fn LLVMAliasGetAliasee(a: P) -> P;
    fn LLVMGetValueName2(v: P, len: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: P) -> c_int;
    fn LLVMGlobalGetValueType(v: P) -> P;
    fn LLVMGetInitializer(v: P) -> P;
    fn LLVMGetSection(v: P) -> *const c_char;
    fn LLVMGetAlignment(v: P) -> c_uint;
    fn LLVMGetFirstBasicBlock(f: P) -> P;
    fn LLVMGetNextBasicBlock(b: P) -> P;
    fn LLVMGetFirstInstruction(b: P) -> P;
    fn LLVMGetNextInstruction(i: P) -> P;
    fn LLVMGetInstructionOpcode(i: P) -> c_uint;
    fn LLVMGetNumOperands(v: P) -> c_int;
    fn LLVMGetOperand(v: P, i: c_uint) -> P;
    fn LLVMTypeOf(v: P) -> P;
    fn LLVMGetTypeKind(t: P) -> c_uint;
    fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    fn LLVMGetICmpPredicate(v: P) -> c_uint;
    fn LLVMGetFCmpPredicate(v: P) -> c_uint;
    fn LLVMCountParams(f: P) -> c_uint;
    fn LLVMGetParam(f: P, i: c_uint) -> P;
    fn LLVMGetNumSuccessors(i: P) -> c_uint;
    fn LLVMGetSuccessor(i: P, k: c_uint) -> P;
    fn LLVMGetSwitchCaseValue(i: P, k: c_uint) -> P;
    fn LLVMCountIncoming(p: P) -> c_uint;
    fn LLVMGetIncomingValue(p: P, i: c_uint) -> P;
    fn LLVMGetIncomingBlock(p: P, i: c_uint) -> P;
    fn LLVMGetCalledValue(i: P) -> P;
    fn LLVMGetNumArgOperands(i: P) -> c_uint;
    fn LLVMGetNormalDest(i: P) -> P;
    fn LLVMGetNumIndices(i: P) -> c_uint;
    fn LLVMGetIndices(i: P) -> *const c_uint;
    fn LLVMGetGEPSourceElementType(i: P) -> P;
    fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    fn LLVMCountStructElementTypes(t: P) -> c_uint;
    fn LLVMGetElementType(t: P) -> P;
    fn LLVMGetArrayLength2(t: P) -> u64;
    fn LLVMGetVectorSize(t: P) -> c_uint;
    fn LLVMGetModuleDataLayout(m: P) -> P;
    fn LLVMABISizeOfType(td: P, t: P) -> c_ulonglong;
    fn LLVMABIAlignmentOfType(td: P, t: P) -> c_uint;
    fn LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> c_ulonglong;
    fn LLVMGetAllocatedType(i: P) -> P;
    fn LLVMIsAFunction(v: P) -> P;
    fn LLVMIsAGlobalAlias(v: P) -> P;
    fn LLVMIsAGlobalVariable(v: P) -> P;
    fn LLVMIsAConstantExpr(v: P) -> P;
    fn LLVMIsAConstantArray(v: P) -> P;
    fn LLVMIsAConstantStruct(v: P) -> P;
    fn LLVMIsAConstantVector(v: P) -> P;
    fn LLVMIsAUndefValue(v: P) -> P;
    fn LLVMIsAConstantAggregateZero(v: P) -> P;
    fn LLVMIsAConstantDataArray(v: P) -> P;
    fn LLVMIsAConstantDataVector(v: P) -> P;
    fn LLVMIsAConstantInt(v: P) -> P;
    fn LLVMIsAConstantFP(v: P) -> P;
    fn LLVMIsAConstantPointerNull(v: P) -> P;
    fn LLVMIsAInlineAsm(v: P) -> P;
    fn LLVMIsAConstant(v: P) -> P;
    fn LLVMConstIntGetZExtValue(v: P) -> c_ulonglong;
    fn LLVMConstRealGetDouble(v: P, loses: *mut c_int) -> c_double;
    fn LLVMPrintValueToString(v: P) -> *mut c_char;
    fn LLVMPrintTypeToString(v: P) -> *mut c_char;
    fn LLVMDisposeMessage(m: *mut c_char);
    fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    fn LLVMGetAsString(v: P, len: *mut usize) -> *const c_char;
    fn LLVMIsConstantString(v: P) -> c_int;
    fn LLVMGetConstOpcode(v: P) -> c_uint;
    fn LLVMGetNumMaskElements(v: P) -> c_uint;
    fn LLVMGetMaskValue(v: P, i: c_uint) -> c_int;
    fn LLVMGetAtomicRMWBinOp(v: P) -> c_uint;
    fn LLVMGetInlineAsmAsmString(v: P, len: *mut usize) -> *const c_char;
}

pub struct FnInfo { pub name: String, pub v: usize, pub decl: bool, pub code: Option<Rc<Func>>, pub special: crate::exec::Sp, pub steps: u64, pub hits: u64 }

pub struct Module {
    m: P, td: P,
    pub fns: Vec<FnInfo>,
    pub fn_by_name: HashMap<String, u32>,
    fn_by_val: HashMap<usize, u32>,
    glob_addr: HashMap<usize, u64>,
    pub glob_names: HashMap<String, (u64, u64)>,
    alias: HashMap<usize, usize>,
    tys: HashMap<usize, Ty>,
    pub ctors: Vec<u32>,
    pub heap_start: u64,
}
pub const FN_BASE: u64 = 0xF000_0000;

/// the kind of a value, by its class (the numbering of LLVMValueKind differs between LLVM versions)
unsafe fn kind(v: P) -> u32 {
    let is = |p: P| !p.is_null();
    if is(LLVMIsAConstantInt(v)) { 18 } else if is(LLVMIsAFunction(v)) { 5 } else if is(LLVMIsAGlobalVariable(v)) { 8 } else if is(LLVMIsAUndefValue(v)) { 14 }
    else if is(LLVMIsAConstantPointerNull(v)) { 20 } else if is(LLVMIsAConstantExpr(v)) { 10 } else if is(LLVMIsAConstantStruct(v)) { 12 } else if is(LLVMIsAConstantDataArray(v)) { 16 }
    else if is(LLVMIsAConstantArray(v)) { 11 } else if is(LLVMIsAConstantAggregateZero(v)) { 15 } else if is(LLVMIsAConstantVector(v)) { 13 } else if is(LLVMIsAConstantDataVector(v)) { 17 }
    else if is(LLVMIsAConstantFP(v)) { 19 } else if is(LLVMIsAGlobalAlias(v)) { 6 } else if is(LLVMIsAInlineAsm(v)) { 23 } else if LLVMGetTypeKind(LLVMTypeOf(v)) == 14 { 22 }
    else if LLVMGetTypeKind(LLVMTypeOf(v)) == 17 || LLVMGetTypeKind(LLVMTypeOf(v)) == 16 { 21 } else { 99 }
}
fn name_of(v: P) -> String {
    unsafe { let mut n = 0; let p = LLVMGetValueName2(v, &mut n); String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned() }
}
pub fn show(v: usize) -> String {
    unsafe { let p = LLVMPrintValueToString(v as P); let s = CStr::from_ptr(p).to_string_lossy().into_owned(); LLVMDisposeMessage(p); s }
}

impl Module {
    pub fn load(path: &str, mem: &mut Mem) -> Module {
        unsafe {
            let ctx = LLVMContextCreate();
            let p = CString::new(path).unwrap();
            let mut buf: P = std::ptr::null_mut();
            let mut msg: *mut c_char = std::ptr::null_mut();
            if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 { eprintln!("cannot read {path}"); std::process::exit(3); }
            let mut m: P = std::ptr::null_mut();
            if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 { eprintln!("cannot parse {path}"); std::process::exit(3); }
            let td = LLVMGetModuleDataLayout(m);
            let mut md = Module { m, td, fns: vec![], fn_by_name: HashMap::new(), fn_by_val: HashMap::new(), glob_addr: HashMap::new(),
                glob_names: HashMap::new(), alias: HashMap::new(), tys: HashMap::new(), ctors: vec![], heap_start: 0 };
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let name = name_of(f);
                let id = md.fns.len() as u32;
                let decl = LLVMIsDeclaration(f) != 0;
                let special = crate::exec::special_of(&name, decl);
                md.fns.push(FnInfo { name: name.clone(), v: f as usize, decl, code: None, special, steps: 0, hits: 0 });
                md.fn_by_name.insert(name, id);
                md.fn_by_val.insert(f as usize, id);
                f = LLVMGetNextFunction(f);
            }
            let mut a = LLVMGetFirstGlobalAlias(m);
            while !a.is_null() { md.alias.insert(a as usize, LLVMAliasGetAliasee(a) as usize); a = LLVMGetNextGlobalAlias(a); }
            let mut addr = 0x10000u64;
            let mut g = LLVMGetFirstGlobal(m);
            let mut all = vec![];
            while !g.is_null() {
                let ty = LLVMGlobalGetValueType(g);
                let decl = LLVMIsDeclaration(g) != 0;
                let size = if decl { 64 } else { LLVMABISizeOfType(td, ty) };
                let al = (LLVMGetAlignment(g) as u64).max(16);
                addr = (addr + al - 1) / al * al;
                md.glob_addr.insert(g as usize, addr);
                md.glob_names.insert(name_of(g), (addr, size));
                mem.map(addr, size + 16);
                all.push((g, addr, decl));
                addr += size + 16;
                g = LLVMGetNextGlobal(g);
            }
            for (g, a, decl) in all {
                if decl { continue; }
                let init = LLVMGetInitializer(g);
                if init.is_null() { continue; }
                md.init_mem(mem, a, init);
                let s = LLVMGetSection(g);
                if !s.is_null() && CStr::from_ptr(s).to_bytes().starts_with(b".init_array") {
                    if let Ok(Some(p)) = mem.load64(a) { if let Some(f) = md.fn_at(p) { md.ctors.push(f); } }
                }
            }
            md.heap_start = (addr + 0x10000) & !0xfff;
            md
        }
    }
    pub fn fn_at(&self, p: u64) -> Option<u32> {
        if p < FN_BASE || (p - FN_BASE) % 16 != 0 { return None; }
        let i = (p - FN_BASE) / 16;
        if (i as usize) < self.fns.len() { Some(i as u32) } else { None }
    }
    unsafe fn init_mem(&mut self, mem: &mut Mem, a: u64, c: P) {
        let k = kind(c);
        match k {
            14 | 15 | 20 | 25 => {} // undef, zeroinitializer, null, poison: memory starts zeroed
            11 | 12 | 13 | 16 | 17 => {
                if k == 16 && LLVMIsConstantString(c) != 0 {
                    let mut n = 0;
                    let p = LLVMGetAsString(c, &mut n) as *const u8;
                    let s = std::slice::from_raw_parts(p, n);
                    for (i, b) in s.iter().enumerate() { mem.set_byte(a + i as u64, *b, 0).unwrap(); }
                    return;
                }
                let t = LLVMTypeOf(c);
                let tk = LLVMGetTypeKind(t);
                let n = match tk { 10 => LLVMCountStructElementTypes(t) as u64, 11 => LLVMGetArrayLength2(t), _ => LLVMGetVectorSize(t) as u64 };
                for i in 0..n {
                    let e = LLVMGetAggregateElement(c, i as c_uint);
                    let off = if tk == 10 { LLVMOffsetOfElement(self.td, t, i as c_uint) } else { i * LLVMABISizeOfType(self.td, LLVMGetElementType(t)) };
                    self.init_mem(mem, a + off, e);
                }
            }
            _ => {
                let ty = self.ty(LLVMTypeOf(c));
                match self.konst(c) {
                    V::C(v) => mem.store(a, ty.store_size() as usize, v as u128).unwrap(),
                    V::W(v) => mem.store(a, ty.store_size() as usize, *v).unwrap(),
                    _ => panic!("global initializer {}", show(c as usize)),
                }
            }
        }
    }
    fn ty(&mut self, t: P) -> Ty {
        if let Some(x) = self.tys.get(&(t as usize)) { return x.clone(); }
        let r = unsafe { match LLVMGetTypeKind(t) {
            0 => Ty::Void, 2 => Ty::F32, 3 => Ty::F64, 8 => Ty::Int(LLVMGetIntTypeWidth(t) as u16), 12 => Ty::Ptr,
            10 => { let n = LLVMCountStructElementTypes(t);
                let fs = (0..n).map(|i| (LLVMOffsetOfElement(self.td, t, i), self.ty(LLVMStructGetTypeAtIndex(t, i)))).collect();
                Ty::Agg(LLVMABISizeOfType(self.td, t), Rc::new(fs)) }
            11 => { let n = LLVMGetArrayLength2(t); let et = LLVMGetElementType(t); let e = self.ty(et); let sz = LLVMABISizeOfType(self.td, et);
                if n > 4096 { Ty::Other } else { Ty::Agg(n * sz, Rc::new((0..n).map(|i| (i * sz, e.clone())).collect())) } }
            13 => { let e = self.ty(LLVMGetElementType(t)); Ty::Vec(LLVMGetVectorSize(t), Rc::new(e)) }
            _ => Ty::Other,
        } };
        self.tys.insert(t as usize, r.clone());
        r
    }
    pub fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Vec(n, e) => V::A(Rc::new((0..*n).map(|_| self.zero(e)).collect())),
            Ty::Agg(_, f) => V::A(Rc::new(f.iter().map(|(_, t)| self.zero(t)).collect())),
            _ => V::C(0),
        }
    }
    /// the value of an LLVM constant
    unsafe fn konst(&mut self, c: P) -> V {
        let t = LLVMTypeOf(c);
        match kind(c) {
            5 => V::C(FN_BASE + 16 * self.fn_by_val[&(c as usize)] as u64),
            6 => { let a = self.alias[&(c as usize)] as P; self.konst(a) }
            8 => V::C(self.glob_addr[&(c as usize)]),
            10 => self.const_expr(c),
            11 | 12 | 13 | 16 | 17 => {
                let tk = LLVMGetTypeKind(t);
                let n = match tk { 10 => LLVMCountStructElementTypes(t) as u64, 11 => LLVMGetArrayLength2(t), _ => LLVMGetVectorSize(t) as u64 };
                let mut v = vec![];
                for i in 0..n { let e = LLVMGetAggregateElement(c, i as c_uint); v.push(self.konst(e)); }
                V::A(Rc::new(v))
            }
            14 | 15 | 20 | 25 => { let t = self.ty(t); self.zero(&t) }
            18 => {
                if LLVMGetTypeKind(t) == 13 { // splat constant of vector type
                    let n = LLVMGetVectorSize(t);
                    let mut v = vec![];
                    for i in 0..n { let e = LLVMGetAggregateElement(c, i); v.push(self.konst(e)); }
                    return V::A(Rc::new(v));
                }
                let w = LLVMGetIntTypeWidth(t);
                if w <= 64 { V::C(LLVMConstIntGetZExtValue(c)) } else {
                    let s = show(c as usize);
                    let n: i128 = s.rsplit(' ').next().unwrap().parse().unwrap_or_else(|_| panic!("wide constant {s}"));
                    V::W(Rc::new(n as u128 & crate::expr::mask(w as u16)))
                }
            }
            19 => {
                if LLVMGetTypeKind(t) == 13 {
                    let n = LLVMGetVectorSize(t);
                    let mut v = vec![];
                    for i in 0..n { let e = LLVMGetAggregateElement(c, i); v.push(self.konst(e)); }
                    return V::A(Rc::new(v));
                }
                let mut l = 0; let d = LLVMConstRealGetDouble(c, &mut l);
                if LLVMGetTypeKind(t) == 2 { V::C((d as f32).to_bits() as u64) } else { V::C(d.to_bits()) } }
            21 | 22 => V::C(0),
            k => panic!("constant kind {k}: {}", show(c as usize)),
        }
    }
    unsafe fn const_expr(&mut self, c: P) -> V {
        let get = |md: &mut Self, i: u32| -> u64 { match md.konst(LLVMGetOperand(c, i)) { V::C(v) => v, V::W(v) => *v as u64, x => panic!("constexpr operand {x:?}") } };
        let w = { let t = LLVMTypeOf(c); let t = self.ty(t); t.bits() };
        let m = crate::expr::mask(w) as u64;
        match LLVMGetConstOpcode(c) {
            29 => {
                let (k, v) = self.gep_parts(c);
                let base = get(self, 0);
                let mut r = base.wrapping_add(k as u64);
                for (i, wi, s) in v {
                    let x = get(self, i);
                    let x = crate::expr::sext(x as u128, wi) as i64;
                    r = r.wrapping_add(x.wrapping_mul(s) as u64);
                }
                V::C(r)
            }
            39 | 40 | 41 | 60 | 69 | 30 => V::C(get(self, 0) & m),
            8 => V::C(get(self, 0).wrapping_add(get(self, 1)) & m),
            10 => V::C(get(self, 0).wrapping_sub(get(self, 1)) & m),
            25 => V::C(get(self, 0) ^ get(self, 1)),
            o => panic!("constexpr opcode {o}: {}", show(c as usize)),
        }
    }
    /// constant offset and (operand index, index width, scale) of the variable part
    unsafe fn gep_parts(&mut self, g: P) -> (i64, Vec<(u32, u16, i64)>) {
        let mut t = LLVMGetGEPSourceElementType(g);
        let n = LLVMGetNumOperands(g) as u32;
        let (mut k, mut v) = (0i64, vec![]);
        for i in 1..n {
            let op = LLVMGetOperand(g, i);
            let kind = kind(op);
            let int = if kind == 18 { let w = LLVMGetIntTypeWidth(LLVMTypeOf(op)) as u16; Some(crate::expr::sext(LLVMConstIntGetZExtValue(op) as u128, w) as i64) } else if kind == 15 || kind == 20 { Some(0) } else { None };
            let scale;
            if i == 1 { scale = LLVMABISizeOfType(self.td, t) as i64; }
            else if LLVMGetTypeKind(t) == 10 {
                let ix = int.expect("struct index") as u32;
                k += LLVMOffsetOfElement(self.td, t, ix) as i64;
                t = LLVMStructGetTypeAtIndex(t, ix);
                continue;
            } else { t = LLVMGetElementType(t); scale = LLVMABISizeOfType(self.td, t) as i64; }
            match int { Some(x) => k += x * scale, None => { let w = LLVMGetIntTypeWidth(LLVMTypeOf(op)) as u16; v.push((i, w, scale)); } }
        }
        (k, v)
    }
    pub fn code(&mut self, id: u32) -> Rc<Func> {
        if let Some(c) = &self.fns[id as usize].code { return c.clone(); }
        let f = unsafe { self.translate(id) };
        let f = Rc::new(f);
        self.fns[id as usize].code = Some(f.clone());
        f
    }
    unsafe fn translate(&mut self, id: u32) -> Func {
        let f = self.fns[id as usize].v as P;
        let mut regs: HashMap<usize, u32> = HashMap::new();
        let np = LLVMCountParams(f);
        for i in 0..np { regs.insert(LLVMGetParam(f, i) as usize, i); }
        let mut blocks: HashMap<usize, u32> = HashMap::new();
        let mut order = vec![];
        let mut b = LLVMGetFirstBasicBlock(f);
        let mut next = np;
        while !b.is_null() {
            blocks.insert(b as usize, order.len() as u32);
            order.push(b);
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                if LLVMGetTypeKind(LLVMTypeOf(i)) != 0 { regs.insert(i as usize, next); next += 1; }
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
        let mut out = vec![];
        for b in order {
            let mut ins = vec![];
            let mut phis: Vec<(u32, Vec<(u32, O)>)> = vec![];
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                let dest = regs.get(&(i as usize)).copied().unwrap_or(u32::MAX);
                let opc = LLVMGetInstructionOpcode(i);
                if opc == 44 {
                    for k in 0..LLVMCountIncoming(i) {
                        let pb = blocks[&(LLVMGetIncomingBlock(i, k) as usize)];
                        let o = self.opd(&regs, LLVMGetIncomingValue(i, k));
                        match phis.iter_mut().find(|(p, _)| *p == pb) {
                            Some((_, v)) => if !v.iter().any(|(d, _)| *d == dest) { v.push((dest, o)); },
                            None => phis.push((pb, vec![(dest, o)])),
                        }
                    }
                } else {
                    let x = self.ins(&regs, &blocks, i, opc);
                    if !matches!(x, I::Nop) { ins.push((dest, x)); }
                }
                i = LLVMGetNextInstruction(i);
            }
            out.push(Block { ins, phis });
        }
        Func { id, nregs: next, nparams: np, blocks: out }
    }
    unsafe fn opd(&mut self, regs: &HashMap<usize, u32>, v: P) -> O {
        if let Some(r) = regs.get(&(v as usize)) { return O::R(*r); }
        O::K(self.konst(v))
    }
    unsafe fn ins(&mut self, regs: &HashMap<usize, u32>, blocks: &HashMap<usize, u32>, i: P, opc: u32) -> I {
        let ty = self.ty(LLVMTypeOf(i));
        macro_rules! op { ($k:expr) => { { let v = LLVMGetOperand(i, $k); self.opd(regs, v) } } }
        macro_rules! opty { ($k:expr) => { { let v = LLVMGetOperand(i, $k); self.ty(LLVMTypeOf(v)) } } }
        let bin = |o| Some(o);
        if std::env::var("ZDBG").is_ok() { eprintln!("{opc} {}", show(i as usize)); }
        let b = match opc {
            8 => bin(BinOp::Add), 9 => bin(BinOp::FAdd), 10 => bin(BinOp::Sub), 11 => bin(BinOp::FSub), 12 => bin(BinOp::Mul), 13 => bin(BinOp::FMul),
            14 => bin(BinOp::UDiv), 15 => bin(BinOp::SDiv), 16 => bin(BinOp::FDiv), 17 => bin(BinOp::URem), 18 => bin(BinOp::SRem), 19 => bin(BinOp::FRem),
            20 => bin(BinOp::Shl), 21 => bin(BinOp::LShr), 22 => bin(BinOp::AShr), 23 => bin(BinOp::And), 24 => bin(BinOp::Or), 25 => bin(BinOp::Xor),
            _ => None,
        };
        if let Some(b) = b { return I::Bin(b, ty, op!(0), op!(1)); }
        match opc {
            1 => I::Ret(if LLVMGetNumOperands(i) > 0 { Some(op!(0)) } else { None }),
            3 => {
                let c = LLVMGetOperand(i, 0);
                let ct = self.ty(LLVMTypeOf(c));
                let co = self.opd(regs, c);
                let n = LLVMGetNumSuccessors(i);
                let d = blocks[&(LLVMGetSuccessor(i, 0) as usize)];
                let mut cases = vec![];
                for k in 1..n {
                    let cv = LLVMGetSwitchCaseValue(i, k);
                    let v = match self.konst(cv) { V::C(x) => x as u128, V::W(x) => *x, _ => unreachable!() };
                    cases.push((v, blocks[&(LLVMGetSuccessor(i, k) as usize)]));
                }
                I::Switch(ct, co, d, cases)
            }
            7 => I::Unreachable,
            66 => I::FNeg(ty, op!(0)),
            26 => {
                let at = LLVMGetAllocatedType(i);
                let sz = LLVMABISizeOfType(self.td, at);
                I::Alloca(sz, (LLVMGetAlignment(i) as u64).max(8), op!(0))
            }
            27 => I::Load(ty, op!(0)),
            28 => { let t = opty!(0); I::Store(t, op!(0), op!(1)) }
            29 => {
                if !matches!(ty, Ty::Ptr) { return I::Unsupported(format!("vector gep")); }
                let (k, v) = self.gep_parts(i);
                let base = op!(0);
                let mut idx = vec![];
                for (j, w, s) in v { idx.push((op!(j), w, s)); }
                I::Gep(base, k, idx)
            }
            30 => I::Cast(CastOp::Trunc, opty!(0), ty, op!(0)),
            31 => I::Cast(CastOp::ZExt, opty!(0), ty, op!(0)),
            32 => I::Cast(CastOp::SExt, opty!(0), ty, op!(0)),
            33 => I::Cast(CastOp::FpToUi, opty!(0), ty, op!(0)),
            34 => I::Cast(CastOp::FpToSi, opty!(0), ty, op!(0)),
            35 => I::Cast(CastOp::UiToFp, opty!(0), ty, op!(0)),
            36 => I::Cast(CastOp::SiToFp, opty!(0), ty, op!(0)),
            37 => I::Cast(CastOp::FpTrunc, opty!(0), ty, op!(0)),
            38 => I::Cast(CastOp::FpExt, opty!(0), ty, op!(0)),
            39 | 40 | 69 => { let f = opty!(0); let fw = f.bits(); let tw = ty.bits(); I::Cast(if tw < fw { CastOp::Trunc } else if tw > fw { CastOp::ZExt } else { CastOp::Bit }, f, ty, op!(0)) }
            41 | 60 => I::Cast(CastOp::Bit, opty!(0), ty, op!(0)),
            42 => {
                let p = match LLVMGetICmpPredicate(i) { 32 => Pred::Eq, 33 => Pred::Ne, 34 => Pred::Ugt, 35 => Pred::Uge, 36 => Pred::Ult, 37 => Pred::Ule, 38 => Pred::Sgt, 39 => Pred::Sge, 40 => Pred::Slt, _ => Pred::Sle };
                I::ICmp(p, opty!(0), op!(0), op!(1))
            }
            43 => I::FCmp(LLVMGetFCmpPredicate(i), opty!(0), op!(0), op!(1)),
            45 | 5 => {
                let callee = LLVMGetCalledValue(i);
                let n = LLVMGetNumArgOperands(i);
                let next = if opc == 5 { Some(blocks[&(LLVMGetNormalDest(i) as usize)]) } else { None };
                if kind(callee) == 23 {
                    let mut l = 0; let p = LLVMGetInlineAsmAsmString(callee, &mut l);
                    let s = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned();
                    let mut args = vec![];
                    for k in 0..n { args.push(op!(k)); }
                    return I::Asm(s, ty, args);
                }
                if let Some(f) = self.fn_by_val.get(&(callee as usize)) {
                    let nm = &self.fns[*f as usize].name;
                    if nm.starts_with("llvm.") {
                        const IGN: &[&str] = &["llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.x86.sse2.pause", "llvm.donothing", "llvm.prefetch"];
                        if IGN.iter().any(|p| nm.starts_with(p)) { return I::Nop; }
                    }
                }
                let co = self.opd(regs, callee);
                let mut args = vec![];
                for k in 0..n { let t = opty!(k); let v = LLVMGetOperand(i, k); let vk = kind(v); let o = if vk == 22 { O::K(V::C(0)) } else { self.opd(regs, v) }; args.push((t, o)); }
                I::Call(co, args, ty, next)
            }
            46 => { let vc = matches!(opty!(0), Ty::Vec(..)); I::Select(ty, op!(0), op!(1), op!(2), vc) }
            50 => I::ExtractElement(op!(0), op!(1)),
            51 => I::InsertElement(op!(0), op!(1), op!(2)),
            52 => { let n = LLVMGetNumMaskElements(i); let m = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect(); I::Shuffle(op!(0), op!(1), m) }
            53 => I::ExtractValue(op!(0), std::slice::from_raw_parts(LLVMGetIndices(i), LLVMGetNumIndices(i) as usize).to_vec()),
            54 => I::InsertValue(op!(0), op!(1), std::slice::from_raw_parts(LLVMGetIndices(i), LLVMGetNumIndices(i) as usize).to_vec()),
            68 => I::Freeze(op!(0)),
            55 => I::Nop,
            56 => { let t = opty!(1); I::CmpXchg(t, op!(0), op!(1), op!(2)) }
            57 => { let t = opty!(1); I::Rmw(LLVMGetAtomicRMWBinOp(i), t, op!(0), op!(1)) }
            58 | 59 => I::Unsupported(format!("opcode {opc}")),
            _ => {
                let n = LLVMGetNumSuccessors(i);
                if n == 1 { return I::Br(blocks[&(LLVMGetSuccessor(i, 0) as usize)]); }
                if n == 2 {
                    let c = LLVMGetOperand(i, 0);
                    let co = self.opd(regs, c);
                    return I::CondBr(co, blocks[&(LLVMGetSuccessor(i, 0) as usize)], blocks[&(LLVMGetSuccessor(i, 1) as usize)]);
                }
                I::Unsupported(format!("opcode {opc}: {}", show(i as usize)))
            }
        }
    }
}
