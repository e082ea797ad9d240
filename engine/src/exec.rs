//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::llvm::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sp {
    None, Undefined,
    Malloc, Calloc, Realloc, Free, Memalign, RustAlloc, RustAllocZ, RustRealloc, AlignedAlloc,
    Memcpy, Memset, Memcmp, Bcmp, Strlen,
    Panic, Abort, Exit, RetZero, Write, Errno, Random, RandKeys, Syscall, Clock, KeyNew, KeySet, KeyGet,
    OvAdd(bool), OvSub(bool), OvMul(bool), SatAdd(bool), SatSub(bool), MinMax(u8), Fsh(bool), Bswap, Ctlz, Cttz, Ctpop, BitRev, Ucmp(bool), Abs, Fabs, FloatFn(u8), TlsAddr, IsConst, Expect, VecReduce(u8), Trap, PtrMask,
    ZBytes, ZBytesIn, ZChoice, ZAssume, ZAssert, ZCover, ZObserve, ZParam, ZAllowStop, ZConc, ZFail, ZSymbolic, ZUnsup, ZDone,
}

pub fn special_of(n: &str, decl: bool) -> Sp {
    use Sp::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return if p("memcpy") || p("memmove") { Memcpy } else if p("memset") { Memset }
        else if p("sadd.with") { OvAdd(true) } else if p("uadd.with") { OvAdd(false) }
        else if p("ssub.with") { OvSub(true) } else if p("usub.with") { OvSub(false) }
        else if p("smul.with") { OvMul(true) } else if p("umul.with") { OvMul(false) }
        else if p("sadd.sat") { SatAdd(true) } else if p("uadd.sat") { SatAdd(false) }
        else if p("ssub.sat") { SatSub(true) } else if p("usub.sat") { SatSub(false) }
        else if p("umin") { MinMax(0) } else if p("umax") { MinMax(1) } else if p("smin") { MinMax(2) } else if p("smax") { MinMax(3) }
        else if p("fshl") { Fsh(true) } else if p("fshr") { Fsh(false) }
        else if p("bswap") { Bswap } else if p("ctlz") { Ctlz } else if p("cttz") { Cttz } else if p("ctpop") { Ctpop } else if p("bitreverse") { BitRev }
        else if p("ucmp") { Ucmp(false) } else if p("scmp") { Ucmp(true) } else if p("abs.") { Abs } else if p("fabs") { Fabs }
        else if p("floor") { FloatFn(0) } else if p("ceil") { FloatFn(1) } else if p("trunc.") { FloatFn(2) } else if p("round.") { FloatFn(3) } else if p("copysign") { FloatFn(4) }
        else if p("sqrt") { FloatFn(5) } else if p("rint") || p("roundeven") { FloatFn(6) } else if p("fptosi.sat") { FloatFn(10) } else if p("fptoui.sat") { FloatFn(11) } else if p("fmuladd") || p("fma.") { FloatFn(12) }
        else if p("maxnum") || p("maximum") { FloatFn(13) } else if p("minnum") || p("minimum") { FloatFn(14) }
        else if p("threadlocal.address") { TlsAddr } else if p("is.constant") { IsConst } else if p("expect") { Expect }
        else if p("vector.reduce.or") { VecReduce(0) } else if p("vector.reduce.and") { VecReduce(1) } else if p("vector.reduce.add") { VecReduce(2) } else if p("vector.reduce.xor") { VecReduce(3) }
        else if p("vector.reduce.umax") { VecReduce(4) } else if p("vector.reduce.umin") { VecReduce(5) }
        else if p("trap") || p("ubsantrap") { Trap } else if p("ptrmask") { PtrMask }
        else { Undefined };
    }
    match n {
        "malloc" => return Malloc, "calloc" => return Calloc, "realloc" => return Realloc, "free" => return Free,
        "posix_memalign" => return Memalign, "aligned_alloc" => return AlignedAlloc, "memcpy" | "memmove" => return Memcpy, "memset" => return Memset, "memcmp" => return Memcmp, "bcmp" => return Bcmp, "strlen" => return Strlen,
        "abort" => return Abort, "zs_done" => return ZDone, "exit" | "_exit" => return Exit,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_self" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "signal" | "sigaction" | "sigaltstack" | "gnu_get_libc_version" | "__cxa_atexit" | "pthread_key_delete" | "close" | "sched_yield" | "dlsym" => return RetZero,
        "write" | "writev" => return Write, "__errno_location" => return Errno, "getrandom" => return Random, "syscall" => return Syscall,
        "clock_gettime" => return Clock, "pthread_key_create" => return KeyNew, "pthread_setspecific" => return KeySet, "pthread_getspecific" => return KeyGet,
        "zs_bytes" => return ZBytes, "zs_bytes_in" => return ZBytesIn, "zs_choice" => return ZChoice, "zs_assume" => return ZAssume, "zs_assert" => return ZAssert,
        "zs_cover" => return ZCover, "zs_observe" => return ZObserve, "zs_param" => return ZParam, "zs_allow_stop" => return ZAllowStop, "zs_concretize" => return ZConc, "zs_fail" => return ZFail, "zs_symbolic" => return ZSymbolic, "zs_unsupported" => return ZUnsup,
        _ => {}
    }
    let e = |s: &str| n.ends_with(s);
    if e("_12___rust_alloc") || e("___rust_alloc") || n == "__rust_alloc" { return RustAlloc; }
    if e("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" { return RustAllocZ; }
    if e("___rust_realloc") || n == "__rust_realloc" { return RustRealloc; }
    if e("___rust_dealloc") || n == "__rust_dealloc" { return Free; }
    if e("rust_begin_unwind") || n.contains("rust_panic_with_hook") || n.contains("rust_panic_without_hook") || e("___rust_start_panic") || n.contains("9panicking12resume_unwind") { return Panic; }
    if n.contains("hashmap_random_keys") { return RandKeys; }
    if decl { Undefined } else { None }
}

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub regs: Vec<V>, pub bb: u32, pub ip: u32, pub prev: u32, pub sp: u64, pub ret: u32, pub ret_bb: Option<u32> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub heap: u64, pub sp: u64,
    pub cs: Rc<Vec<Ex>>, pub dom: Rc<Vec<[u64; 4]>>, pub ent: Rc<Vec<bool>>, pub model: Rc<Vec<u8>>,
    pub conc: Rc<HashMap<Ex, u64>>,
    pub obs: Rc<Vec<(u8, Ex)>>,
    pub covers: Rc<BTreeSet<u32>>,
    pub allow: Rc<Vec<String>>,
    pub steps: u64, pub depth: u32,
}

pub enum Stop { Done, Infeasible, Allowed(String), Violation(String), Error(String) }

#[derive(Clone, Debug)]
pub struct Viol { pub msg: String, pub input: Vec<u8>, pub stack: Vec<String> }

pub struct Cfg { pub max_paths: u64, pub max_steps: u64, pub params: Vec<u64>, pub max_fan: u32, pub samples: usize, pub trace: bool }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub infeasible: u64, pub stopped: BTreeMap<String, u64>, pub forks: u64, pub asserts: u64, pub asserts_sym: u64, pub dom_decisions: u64, pub cache_hits: u64,
    pub covers: BTreeMap<u32, u64>, pub errors: Vec<String>, pub viols: Vec<Viol>, pub samples: Vec<(Vec<u8>, Vec<u8>, String)>, pub steps: u64, pub max_vars: usize,
}

pub struct Exec {
    pub ar: Arena, pub z: Z3, pub md: Module, pub cfg: Cfg, pub st: Stats, pub work: Vec<State>,
    cache: HashMap<(Vec<Ex>, Vec<(u32, [u64; 4])>), Option<Vec<(u32, u8)>>>,
    errno_addr: u64,
    pub assert_unknown: u64,
}

const STACK_BASE: u64 = 0xC000_0000;
const STACK_TOP: u64 = 0xEF00_0000;

type R<T> = Result<T, Stop>;
fn err<T>(m: String) -> R<T> { Err(Stop::Error(m)) }
impl From<Fault> for Stop { fn from(f: Fault) -> Stop { Stop::Error(format!("memory fault at {:#x}", f.0)) } }

fn dget(d: &[u64; 4], i: usize) -> bool { d[i >> 6] >> (i & 63) & 1 == 1 }
fn dfirst(d: &[u64; 4]) -> Option<u8> { for k in 0..4 { if d[k] != 0 { return Some((k * 64) as u8 + d[k].trailing_zeros() as u8); } } None }
fn dcount(d: &[u64; 4]) -> u32 { d.iter().map(|x| x.count_ones()).sum() }

fn mk(w: u16, v: u128) -> V { let v = v & mask(w); if w <= 64 { V::C(v as u64) } else { V::W(Rc::new(v)) } }

impl Exec {
    pub fn new(md: Module, cfg: Cfg, timeout_ms: u64) -> Self {
        Exec { ar: Arena::new(), z: Z3::new(timeout_ms), md, cfg, st: Stats::default(), work: vec![], cache: HashMap::new(), errno_addr: 0, assert_unknown: 0 }
    }
    pub fn initial(&mut self, mut mem: Mem) -> State {
        mem.map(0x2000, 0x1000);
        self.errno_addr = 0x2000;
        State { frames: vec![], mem, heap: self.md.heap_start, sp: STACK_BASE, cs: Rc::new(vec![]), dom: Rc::new(vec![]), ent: Rc::new(vec![]), model: Rc::new(vec![]),
            conc: Rc::new(HashMap::new()), obs: Rc::new(vec![]), covers: Rc::new(BTreeSet::new()), allow: Rc::new(vec![]), steps: 0, depth: 0 }
    }
    pub fn push_call(&mut self, st: &mut State, id: u32, args: Vec<V>, ret: u32, ret_bb: Option<u32>) {
        let f = self.md.code(id);
        self.md.fns[id as usize].hits += 1;
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() { if i < f.nparams as usize { regs[i] = a; } }
        let sp = st.sp;
        st.frames.push(Rc::new(Frame { f, regs, bb: 0, ip: 0, prev: 0, sp, ret, ret_bb }));
    }

    // ---------- values
    fn c128(&self, v: &V) -> Option<u128> { match v { V::C(x) => Some(*x as u128), V::W(x) => Some(**x), V::E(e) => self.ar.as_const(*e), _ => None } }
    fn ex(&mut self, v: &V, w: u16) -> Ex { match v { V::C(x) => self.ar.konst(w, *x as u128), V::W(x) => self.ar.konst(w, **x), V::E(e) => *e, V::A(_) => panic!("aggregate as expression") } }
    fn ve(&self, e: Ex) -> V { match self.ar.as_const(e) { Some(c) => mk(self.ar.w(e), c), None => V::E(e) } }
    #[inline(always)]
    fn get(&self, fr: &Frame, o: &O) -> V { match o { O::R(r) => fr.regs[*r as usize].clone(), O::K(v) => v.clone() } }

    // ---------- constraints
    fn model_of(&self, st: &State) -> Rc<Vec<u8>> { st.model.clone() }
    fn evm(&mut self, st: &State, e: Ex) -> u128 { let m = self.model_of(st); self.ar.eval(e, &m) }
    /// value of `e` if the variables it depends on have one value each
    fn fixed(&mut self, st: &State, e: Ex) -> Option<u64> {
        let d = self.ar.deps[e as usize].clone();
        if d.iter().all(|v| dcount(&st.dom[*v as usize]) == 1) { return Some(self.evm(st, e) as u64); }
        None
    }
    fn slice(&self, st: &State, e: Ex) -> (Vec<Ex>, Vec<u32>) {
        let mut vars: BTreeSet<u32> = self.ar.deps[e as usize].iter().copied().collect();
        let mut used = vec![false; st.cs.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cs.iter().enumerate() {
                if used[i] { continue; }
                let d = &self.ar.deps[*c as usize];
                if d.iter().any(|v| vars.contains(v)) { used[i] = true; ch = true; vars.extend(d.iter().copied()); }
            }
            if !ch { break; }
        }
        (st.cs.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| *c).collect(), vars.into_iter().collect())
    }
    /// is pc && e satisfiable? gives the new model
    fn query(&mut self, st: &State, e: Ex) -> R<Option<Rc<Vec<u8>>>> {
        let (mut cs, vars) = self.slice(st, e);
        cs.push(e); cs.sort_unstable(); cs.dedup();
        let doms: Vec<(u32, [u64; 4])> = vars.iter().map(|v| (*v, st.dom[*v as usize])).collect();
        let key = (cs, doms);
        let r = match self.cache.get(&key) {
            Some(r) => { self.st.cache_hits += 1; r.clone() }
            None => {
                let r = match self.z.check(&mut self.ar, &key.0, &key.1) {
                    Res::Sat(m) => Some(m), Res::Unsat => None,
                    Res::Unknown => { self.assert_unknown += 1; return err("solver answered unknown".into()); }
                };
                if self.cache.len() > 2_000_000 { self.cache.clear(); }
                self.cache.insert(key, r.clone());
                r
            }
        };
        Ok(r.map(|m| { let mut md = (*st.model).clone(); for (v, b) in m { md[v as usize] = b; } Rc::new(md) }))
    }
    fn add_cs(&mut self, st: &mut State, e: Ex) {
        if self.ar.as_const(e).is_some() { return; }
        let d = self.ar.deps[e as usize].clone();
        if d.len() == 1 {
            let v = d[0] as usize;
            let t = self.ar.table(e);
            let dm = &mut Rc::make_mut(&mut st.dom)[v];
            for i in 0..256 { if t[i] == 0 { dm[i >> 6] &= !(1 << (i & 63)); } }
        } else {
            // conjunctions are split
            let n = self.ar.nodes[e as usize].clone();
            if n.op == Op::And && n.w == 1 { self.add_cs(st, n.a); self.add_cs(st, n.b); return; }
            for v in d.iter() { if !st.ent[*v as usize] { Rc::make_mut(&mut st.ent)[*v as usize] = true; } }
            Rc::make_mut(&mut st.cs).push(e);
        }
    }
    /// Feasibility of both sides. Returns (true feasible with model, false feasible with model)
    fn sides(&mut self, st: &State, e: Ex) -> R<(Option<Rc<Vec<u8>>>, Option<Rc<Vec<u8>>>)> {
        let cur = self.evm(st, e) == 1;
        let me = st.model.clone();
        let d = self.ar.deps[e as usize].clone();
        let other;
        if d.len() == 1 {
            let v = d[0] as usize;
            let t = self.ar.table(e);
            let mut dm = st.dom[v];
            for i in 0..256 { if (t[i] == 1) == cur { dm[i >> 6] &= !(1 << (i & 63)); } }
            match dfirst(&dm) {
                None => { self.st.dom_decisions += 1; other = None; }
                Some(b) if !st.ent[v] => { self.st.dom_decisions += 1; let mut m = (*me).clone(); m[v] = b; other = Some(Rc::new(m)); }
                Some(_) => { let q = if cur { self.ar.not1(e) } else { e }; other = self.query(st, q)?; }
            }
        } else {
            let q = if cur { self.ar.not1(e) } else { e };
            other = self.query(st, q)?;
        }
        Ok(if cur { (Some(me), other) } else { (other, Some(me)) })
    }
    /// decide a symbolic boolean, forking the other side (which re-executes the current instruction)
    fn decide(&mut self, st: &mut State, e: Ex) -> R<bool> {
        if let Some(c) = self.ar.as_const(e) { return Ok(c == 1); }
        if let Some(c) = st.conc.get(&e) { return Ok(*c == 1); }
        if let Some(c) = self.fixed(st, e) { return Ok(c == 1); }
        let (t, f) = self.sides(st, e)?;
        match (t, f) {
            (Some(_), None) => { Rc::make_mut(&mut st.conc).insert(e, 1); Ok(true) }
            (None, Some(_)) => { Rc::make_mut(&mut st.conc).insert(e, 0); Ok(false) }
            (Some(mt), Some(mf)) => {
                self.st.forks += 1;
                st.depth += 1;
                let ne = self.ar.not1(e);
                let mut o = st.clone();
                o.model = mf;
                self.add_cs(&mut o, ne);
                Rc::make_mut(&mut o.conc).insert(e, 0);
                self.work.push(o);
                st.model = mt;
                self.add_cs(st, e);
                Rc::make_mut(&mut st.conc).insert(e, 1);
                Ok(true)
            }
            (None, None) => unreachable!(),
        }
    }
    fn conc_e(&mut self, st: &mut State, e: Ex) -> R<u64> {
        if let Some(c) = self.ar.as_const(e) { return Ok(c as u64); }
        if let Some(c) = st.conc.get(&e) { return Ok(*c); }
        if let Some(c) = self.fixed(st, e) { return Ok(c); }
        let v = self.evm(st, e);
        let w = self.ar.w(e);
        let k = self.ar.konst(w, v);
        let q = self.ar.bin(Op::Eq, e, k);
        if self.ar.as_const(q) == Some(1) { return Ok(v as u64); }
        let (_, f) = self.sides(st, q)?;
        if let Some(mf) = f {
            self.st.forks += 1;
            st.depth += 1;
            let nq = self.ar.not1(q);
            let mut o = st.clone();
            o.model = mf;
            self.add_cs(&mut o, nq);
            self.work.push(o);
            self.add_cs(st, q);
        }
        Rc::make_mut(&mut st.conc).insert(e, v as u64);
        Ok(v as u64)
    }
    fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v { V::C(x) => Ok(*x), V::W(x) => Ok(**x as u64), V::E(e) => self.conc_e(st, *e), V::A(_) => err("aggregate as scalar".into()) }
    }

    // ---------- memory
    fn byte_e(&mut self, st: &State, addr: u64) -> R<V> {
        let (b, e) = st.mem.byte(addr)?;
        if e == 0 { return Ok(V::C(b as u64)); }
        if let Some(c) = self.fixed(st, e) { return Ok(V::C(c)); }
        Ok(V::E(e))
    }
    fn load_int(&mut self, st: &State, addr: u64, w: u16) -> R<V> {
        let n = (w as usize + 7) / 8;
        if n <= 16 {
            if let Some(v) = st.mem.load(addr, n)? { return Ok(mk(w, v)); }
        } else { return err(format!("load of i{w}")); }
        let mut acc: Option<Ex> = None;
        for i in 0..n {
            let b = self.byte_e(st, addr + i as u64)?;
            let b = self.ex(&b, 8);
            acc = Some(match acc { None => b, Some(lo) => self.ar.concat(b, lo) });
        }
        let mut e = acc.unwrap();
        if w % 8 != 0 { e = self.ar.extract(e, 0, w); }
        Ok(self.ve(e))
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(w) => self.load_int(st, addr, *w),
            Ty::Ptr | Ty::F64 => match st.mem.load64(addr)? { Some(v) => Ok(V::C(v)), None => self.load_int(st, addr, 64) },
            Ty::F32 => self.load_int(st, addr, 32),
            Ty::Vec(n, t) => {
                let b = t.bits() as u64;
                if b % 8 != 0 { return err("load of a bit vector".into()); }
                let mut v = vec![];
                for i in 0..*n as u64 { v.push(self.load(st, addr + i * b / 8, t)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Agg(_, f) => { let mut v = vec![]; for (o, t) in f.iter() { v.push(self.load(st, addr + o, t)?); } Ok(V::A(Rc::new(v))) }
            _ => err("load of unsupported type".into()),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Vec(_, t), V::A(xs)) => {
                let b = t.bits() as u64;
                if b % 8 != 0 { return err("store of a bit vector".into()); }
                for (i, x) in xs.iter().enumerate() { self.store(st, addr + i as u64 * b / 8, t, x)?; }
                Ok(())
            }
            (Ty::Agg(_, f), V::A(xs)) => { for ((o, t), x) in f.iter().zip(xs.iter()) { self.store(st, addr + o, t, x)?; } Ok(()) }
            (_, V::C(x)) => { st.mem.store(addr, ty.store_size() as usize, *x as u128)?; Ok(()) }
            (_, V::W(x)) => { st.mem.store(addr, ty.store_size() as usize, **x)?; Ok(()) }
            (_, V::E(e)) => {
                let w = self.ar.w(*e);
                let n = (w + 7) / 8;
                let full = self.ar.zext(*e, n * 8);
                for i in 0..n {
                    let b = self.ar.extract(full, i * 8, 8);
                    match self.ar.as_const(b) { Some(c) => st.mem.set_byte(addr + i as u64, c as u8, 0)?, None => st.mem.set_byte(addr + i as u64, 0, b)? }
                }
                Ok(())
            }
            _ => err("store of unsupported value".into()),
        }
    }
    /// load through a pointer that may be symbolic
    fn load_ptr(&mut self, st: &mut State, p: &V, ty: &Ty) -> R<V> {
        let e = match p { V::C(a) => return self.load(st, *a, ty), V::E(e) => *e, _ => return err("bad pointer".into()) };
        if let Some(c) = st.conc.get(&e) { return self.load(st, *c, ty); }
        if let Some(c) = self.fixed(st, e) { return self.load(st, c, ty); }
        let d = self.ar.deps[e as usize].clone();
        if d.len() == 1 && matches!(ty, Ty::Int(_)) && ty.bits() <= 64 {
            let v = d[0] as usize;
            let t = self.ar.table(e);
            let dm = st.dom[v];
            let mut tab = vec![0u64; 256];
            let mut ok = true;
            let mut last = None;
            for i in 0..256 {
                if !dget(&dm, i) { continue; }
                match self.load(st, t[i] as u64, ty) { Ok(V::C(x)) => { tab[i] = x; last = Some(x); } _ => { ok = false; break; } }
            }
            if ok {
                let last = last.unwrap();
                for i in 0..256 { if !dget(&dm, i) { tab[i] = last; } }
                let var = self.ar.var(v as u32);
                let r = self.ar.lut(var, ty.bits(), tab);
                return Ok(self.ve(r));
            }
        }
        let a = self.conc_e(st, e)?;
        self.load(st, a, ty)
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> R<u64> {
        if size > 64 << 20 { return err(format!("allocation of {size} bytes")); }
        let al = align.max(16);
        let a = (st.heap + al - 1) / al * al;
        st.heap = a + size.max(1);
        if st.heap >= STACK_BASE { return err("heap exhausted".into()); }
        st.mem.map(a, size + 16);
        // a block is recorded by its size in front of the next one only for realloc, which carries its own size
        Ok(a)
    }

    // ---------- operators
    fn bin(&mut self, op: BinOp, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if w <= 64 {
                let m = mask(w) as u64;
                let r = match op {
                    BinOp::Add => x.wrapping_add(y) & m, BinOp::Sub => x.wrapping_sub(y) & m, BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    BinOp::Mul => x.wrapping_mul(y) & m,
                    BinOp::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                    BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                    BinOp::UDiv if y != 0 => x / y, BinOp::URem if y != 0 => x % y,
                    _ => fold(Self::eop(op), w, w, x as u128, y as u128).unwrap() as u64,
                };
                return V::C(r);
            }
        }
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) { return mk(w, fold(Self::eop(op), w, w, x, y).unwrap()); }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.ar.bin(Self::eop(op), x, y);
        self.ve(e)
    }
    fn eop(o: BinOp) -> Op {
        match o { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, _ => unreachable!() }
    }
    fn binv(&mut self, st: &mut State, op: BinOp, ty: &Ty, a: &V, b: &V) -> R<V> {
        match ty {
            Ty::Vec(_, t) => {
                let (V::A(x), V::A(y)) = (a, b) else { return err("vector operand".into()) };
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) { v.push(self.binv(st, op, t, p, q)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::F64 | Ty::F32 => {
                let (x, y) = (self.conc(st, a)?, self.conc(st, b)?);
                if *ty == Ty::F64 {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    let r = match op { BinOp::FAdd => x + y, BinOp::FSub => x - y, BinOp::FMul => x * y, BinOp::FDiv => x / y, BinOp::FRem => x % y, _ => unreachable!() };
                    Ok(V::C(r.to_bits()))
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    let r = match op { BinOp::FAdd => x + y, BinOp::FSub => x - y, BinOp::FMul => x * y, BinOp::FDiv => x / y, BinOp::FRem => x % y, _ => unreachable!() };
                    Ok(V::C(r.to_bits() as u64))
                }
            }
            _ => Ok(self.bin(op, ty.bits(), a, b)),
        }
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| sext(v as u128, w) as i64;
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y), Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y) };
            return V::C(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => { let e = self.ar.bin(Op::Eq, x, y); self.ar.not1(e) }
            Pred::Ugt => self.ar.bin(Op::Ult, y, x), Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Ult => self.ar.bin(Op::Ult, x, y), Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x), Pred::Sge => self.ar.bin(Op::Sle, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y), Pred::Sle => self.ar.bin(Op::Sle, x, y),
        };
        self.ve(e)
    }
    fn to_bits(&mut self, v: &V, t: &Ty) -> R<Ex> {
        match (t, v) {
            (Ty::Vec(_, et), V::A(xs)) => {
                let mut acc: Option<Ex> = None;
                for x in xs.iter() { let e = self.to_bits(x, et)?; acc = Some(match acc { None => e, Some(lo) => self.ar.concat(e, lo) }); }
                Ok(acc.unwrap())
            }
            (_, V::A(_)) => err("bitcast of aggregate".into()),
            _ => Ok(self.ex(v, t.bits())),
        }
    }
    fn from_bits(&mut self, e: Ex, t: &Ty) -> V {
        match t {
            Ty::Vec(n, et) => { let b = et.bits(); V::A(Rc::new((0..*n as u16).map(|i| { let x = self.ar.extract(e, i * b, b); self.from_bits(x, et) }).collect())) }
            _ => self.ve(e),
        }
    }
    fn cast(&mut self, st: &mut State, op: CastOp, f: &Ty, t: &Ty, v: &V) -> R<V> {
        if op == CastOp::Bit {
            if !matches!(f, Ty::Vec(..)) && !matches!(t, Ty::Vec(..)) { return Ok(v.clone()); }
            if f == t { return Ok(v.clone()); }
            if f.bits() > 128 { return err("wide vector bitcast".into()); }
            let e = self.to_bits(v, f)?;
            return Ok(self.from_bits(e, t));
        }
        if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (f, t) {
            let V::A(xs) = v else { return err("vector operand".into()) };
            let mut r = vec![];
            for x in xs.iter() { r.push(self.cast(st, op, fe, te, x)?); }
            return Ok(V::A(Rc::new(r)));
        }
        let (fw, tw) = (f.bits(), t.bits());
        Ok(match op {
            CastOp::Trunc => match v { V::C(x) => mk(tw, *x as u128), V::W(x) => mk(tw, **x), V::E(e) => { let r = self.ar.extract(*e, 0, tw); self.ve(r) } _ => return err("trunc".into()) },
            CastOp::ZExt => match v { V::C(x) => mk(tw, *x as u128), V::W(x) => mk(tw, **x), V::E(e) => { let r = self.ar.zext(*e, tw); self.ve(r) } _ => return err("zext".into()) },
            CastOp::SExt => match v { V::C(x) => mk(tw, sext(*x as u128, fw) as u128), V::W(x) => mk(tw, sext(**x, fw) as u128), V::E(e) => { let r = self.ar.sext_(*e, tw); self.ve(r) } _ => return err("sext".into()) },
            _ => {
                let wide = if fw > 64 { match v { V::W(x) => Some(**x), V::C(x) => Some(*x as u128), _ => return err("symbolic 128-bit to float".into()) } } else { None };
                let x = match wide { Some(x) => x, None => self.conc(st, v)? as u128 };
                let fl = |x: u128| if *f == Ty::F64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                let sx = sext(x, fw.max(1));
                match op {
                    CastOp::FpToUi => mk(tw, fl(x) as u128), CastOp::FpToSi => mk(tw, fl(x) as i128 as u128),
                    CastOp::UiToFp => if *t == Ty::F64 { V::C((x as f64).to_bits()) } else { V::C((x as f32).to_bits() as u64) },
                    CastOp::SiToFp => if *t == Ty::F64 { V::C((sx as f64).to_bits()) } else { V::C((sx as f32).to_bits() as u64) },
                    CastOp::FpTrunc => V::C((fl(x) as f32).to_bits() as u64), CastOp::FpExt => V::C(fl(x).to_bits()),
                    _ => unreachable!(),
                }
            }
        })
    }
    fn select(&mut self, st: &mut State, ty: &Ty, c: &V, a: V, b: V, vc: bool) -> R<V> {
        if vc {
            let (V::A(cs), V::A(x), V::A(y), Ty::Vec(_, et)) = (c, &a, &b, ty) else { return err("vector select".into()) };
            let mut v = vec![];
            for i in 0..cs.len() { v.push(self.select(st, et, &cs[i], x[i].clone(), y[i].clone(), false)?); }
            return Ok(V::A(Rc::new(v)));
        }
        let e = match c { V::C(x) => return Ok(if *x == 1 { a } else { b }), V::E(e) => *e, _ => return err("select".into()) };
        if let Some(k) = st.conc.get(&e) { return Ok(if *k == 1 { a } else { b }); }
        if let Ty::Int(w) = ty {
            if let Some(k) = self.fixed(st, e) { return Ok(if k == 1 { a } else { b }); }
            let (x, y) = (self.ex(&a, *w), self.ex(&b, *w));
            let r = self.ar.ite(e, x, y);
            return Ok(self.ve(r));
        }
        Ok(if self.decide(st, e)? { a } else { b })
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if let Some((_, ps)) = b.phis.iter().find(|(p, _)| *p == from) {
                if ps.len() == 1 {
                    let v = match &ps[0].1 { O::R(r) => fr.regs[*r as usize].clone(), O::K(v) => v.clone() };
                    fr.regs[ps[0].0 as usize] = v;
                } else {
                    let vs: Vec<V> = ps.iter().map(|(_, o)| match o { O::R(r) => fr.regs[*r as usize].clone(), O::K(v) => v.clone() }).collect();
                    for ((d, _), v) in ps.iter().zip(vs) { fr.regs[*d as usize] = v; }
                }
            }
        }
        fr.prev = from;
        fr.bb = to;
        fr.ip = 0;
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| crate::demangle(&self.md.fns[f.f.id as usize].name)).collect()
    }

    /// run one state until its path ends
    pub fn run(&mut self, mut st: State) -> (State, Stop) {
        loop {
            match self.step_many(&mut st) {
                Ok(()) => {}
                Err(s) => return (st, s),
            }
        }
    }
    fn step_many(&mut self, st: &mut State) -> R<()> {
        for _ in 0..100_000 {
            if st.frames.is_empty() { return Err(Stop::Done); }
            self.step(st)?;
        }
        if st.steps > self.cfg.max_steps { return err(format!("step limit {} reached", self.cfg.max_steps)); }
        Ok(())
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if d != u32::MAX { fr.regs[d as usize] = v; }
        fr.ip += 1;
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        let fr: &Frame = st.frames.last().unwrap();
        let f = fr.f.clone();
        let (d, ins) = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
        let d = *d;
        match ins {
            I::Bin(op, ty, a, b) => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                let v = match ty { Ty::Int(w) => self.bin(*op, *w, &a, &b), _ => self.binv(st, *op, ty, &a, &b)? };
                self.set(st, d, v);
            }
            I::ICmp(p, ty, a, b) => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                let v = match ty {
                    Ty::Vec(_, t) => { let (V::A(x), V::A(y)) = (&a, &b) else { return err("vector icmp".into()) };
                        V::A(Rc::new(x.iter().zip(y.iter()).map(|(p1, q)| self.icmp(*p, t.bits(), p1, q)).collect())) }
                    _ => self.icmp(*p, ty.bits(), &a, &b),
                };
                self.set(st, d, v);
            }
            I::FCmp(p, ty, a, b) => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                if matches!(ty, Ty::Vec(..)) { return err("vector fcmp".into()); }
                let (x, y) = (self.conc(st, &a)?, self.conc(st, &b)?);
                let g = |x: u64| if *ty == Ty::F64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let (x, y) = (g(x), g(y));
                let uno = x.is_nan() || y.is_nan();
                let r = match p { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => !uno && x != y, 7 => !uno, 8 => uno,
                    9 => uno || x == y, 10 => uno || x > y, 11 => uno || x >= y, 12 => uno || x < y, 13 => uno || x <= y, 14 => uno || x != y, _ => true };
                self.set(st, d, V::C(r as u64));
            }
            I::FNeg(ty, a) => {
                let a = self.get(fr, a);
                let x = self.conc(st, &a)?;
                let v = if *ty == Ty::F64 { x ^ (1 << 63) } else { x ^ (1 << 31) };
                self.set(st, d, V::C(v));
            }
            I::Load(ty, p) => {
                let p = self.get(fr, p);
                let v = self.load_ptr(st, &p, ty)?;
                self.set(st, d, v);
            }
            I::Store(ty, v, p) => {
                let (v, p) = (self.get(fr, v), self.get(fr, p));
                let a = match p { V::C(a) => a, _ => self.conc(st, &p)? };
                match (ty, &v) {
                    (Ty::Int(_) | Ty::Ptr, V::C(x)) => st.mem.store(a, ty.store_size() as usize, *x as u128)?,
                    _ => self.store(st, a, ty, &v)?,
                }
                self.set(st, d, V::C(0));
            }
            I::Alloca(sz, al, n) => {
                let n = self.get(fr, n);
                let n = self.conc(st, &n)?;
                let a = (st.sp + al - 1) / al * al;
                let sz = sz * n;
                st.sp = a + sz.max(1);
                if st.sp >= STACK_TOP { return Err(Stop::Violation("stack overflow (unbounded recursion)".into())); }
                st.mem.map(a, sz + 16);
                self.set(st, d, V::C(a));
            }
            I::Gep(b, k, idx) => {
                let base = self.get(fr, b);
                let mut fast = if let V::C(x) = base { Some(x.wrapping_add(*k as u64)) } else { None };
                if fast.is_some() {
                    for (o, w, s) in idx {
                        let v = match o { O::R(r) => &fr.regs[*r as usize], O::K(v) => v };
                        if let V::C(x) = v { let x = if *w == 64 { *x as i64 } else { sext(*x as u128, *w) as i64 }; fast = Some(fast.unwrap().wrapping_add(x.wrapping_mul(*s) as u64)); }
                        else { fast = None; break; }
                    }
                }
                let v = match fast {
                    Some(x) => V::C(x),
                    None => {
                        let vals: Vec<V> = idx.iter().map(|(o, _, _)| self.get(fr, o)).collect();
                        let mut e = self.ex(&base, 64);
                        let kk = self.ar.konst(64, *k as i128 as u128);
                        e = self.ar.bin(Op::Add, e, kk);
                        for (v, (_, w, s)) in vals.iter().zip(idx) {
                            let x = self.ex(v, *w);
                            let x = if *w < 64 { self.ar.sext_(x, 64) } else { x };
                            let sc = self.ar.konst(64, *s as i128 as u128);
                            let x = self.ar.bin(Op::Mul, x, sc);
                            e = self.ar.bin(Op::Add, e, x);
                        }
                        self.ve(e)
                    }
                };
                self.set(st, d, v);
            }
            I::Cast(op, ft, tt, a) => {
                let a = self.get(fr, a);
                let v = match (op, &a, tt) {
                    (CastOp::ZExt, V::C(x), Ty::Int(w)) if *w <= 64 => V::C(*x),
                    (CastOp::Trunc, V::C(x), Ty::Int(w)) => V::C(*x & mask(*w) as u64),
                    _ => self.cast(st, *op, ft, tt, &a)?,
                };
                self.set(st, d, v);
            }
            I::Select(ty, c, a, b, vc) => {
                let (c, a, b) = (self.get(fr, c), self.get(fr, a), self.get(fr, b));
                let v = self.select(st, ty, &c, a, b, *vc)?;
                self.set(st, d, v);
            }
            I::Br(t) => self.jump(st, *t),
            I::CondBr(c, t, e) => {
                let c = self.get(fr, c);
                let b = match c { V::C(x) => x == 1, V::E(x) => self.decide(st, x)?, _ => return err("branch".into()) };
                self.jump(st, if b { *t } else { *e });
            }
            I::Switch(ty, c, def, cases) => {
                let c = self.get(fr, c);
                let t = match &c {
                    V::E(e) => self.switch(st, *e, ty.bits(), *def, cases)?,
                    _ => { let x = self.c128(&c).unwrap(); cases.iter().find(|(v, _)| *v == x).map_or(*def, |(_, b)| *b) }
                };
                self.jump(st, t);
            }
            I::Call(callee, args, rty, next) => {
                let cv = self.get(fr, callee);
                let argv: Vec<V> = args.iter().map(|(_, o)| self.get(fr, o)).collect();
                let p = self.conc(st, &cv)?;
                let Some(id) = self.md.fn_at(p) else { return err(format!("call through {p:#x}")) };
                let sp = self.md.fns[id as usize].special;
                if sp == Sp::None {
                    if self.cfg.trace { eprintln!("{}{}", " ".repeat(st.frames.len()), crate::demangle(&self.md.fns[id as usize].name)); }
                    if st.frames.len() > 4000 { return Err(Stop::Violation("stack overflow (unbounded recursion)".into())); }
                    self.push_call(st, id, argv, d, *next);
                } else {
                    let v = self.special(st, id, sp, args, argv, rty)?;
                    self.set(st, d, v);
                    if let Some(n) = next { self.jump(st, *n); }
                }
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| self.get(fr, o));
                let (ret, ret_bb, sp) = (fr.ret, fr.ret_bb, fr.sp);
                self.md.fns[f.id as usize].steps += 1;
                st.sp = sp;
                st.frames.pop();
                if st.frames.is_empty() { return Ok(()); }
                self.set(st, ret, v.unwrap_or(V::C(0)));
                if let Some(b) = ret_bb { self.jump(st, b); }
            }
            I::Unreachable => return err("unreachable executed".into()),
            I::ExtractValue(a, ix) => {
                let mut v = self.get(fr, a);
                for i in ix { let V::A(x) = &v else { return err("extractvalue".into()) }; let y = x[*i as usize].clone(); v = y; }
                self.set(st, d, v);
            }
            I::InsertValue(a, b, ix) => {
                let (mut v, x) = (self.get(fr, a), self.get(fr, b));
                fn put(v: &mut V, ix: &[u32], x: V) { if ix.is_empty() { *v = x; return; } if let V::A(a) = v { put(&mut Rc::make_mut(a)[ix[0] as usize], &ix[1..], x); } }
                put(&mut v, ix, x);
                self.set(st, d, v);
            }
            I::ExtractElement(a, i) => {
                let (a, i) = (self.get(fr, a), self.get(fr, i));
                let i = self.conc(st, &i)? as usize;
                let V::A(x) = &a else { return err("extractelement".into()) };
                let v = x.get(i).cloned().unwrap_or(V::C(0));
                self.set(st, d, v);
            }
            I::InsertElement(a, b, i) => {
                let (mut a, b, i) = (self.get(fr, a), self.get(fr, b), self.get(fr, i));
                let i = self.conc(st, &i)? as usize;
                if let V::A(x) = &mut a { Rc::make_mut(x)[i] = b; } else { return err("insertelement".into()) }
                self.set(st, d, a);
            }
            I::Shuffle(a, b, m) => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                let (V::A(x), V::A(y)) = (&a, &b) else { return err("shuffle".into()) };
                let v = m.iter().map(|i| if *i < 0 { x[0].clone() } else if (*i as usize) < x.len() { x[*i as usize].clone() } else { y[*i as usize - x.len()].clone() }).collect();
                self.set(st, d, V::A(Rc::new(v)));
            }
            I::Freeze(a) => { let v = self.get(fr, a); self.set(st, d, v); }
            I::Rmw(op, ty, p, v) => {
                let (p, v) = (self.get(fr, p), self.get(fr, v));
                let a = self.conc(st, &p)?;
                let old = self.load(st, a, ty)?;
                let w = ty.bits();
                let new = match op {
                    0 => v, 1 => self.bin(BinOp::Add, w, &old, &v), 2 => self.bin(BinOp::Sub, w, &old, &v), 3 => self.bin(BinOp::And, w, &old, &v),
                    5 => self.bin(BinOp::Or, w, &old, &v), 6 => self.bin(BinOp::Xor, w, &old, &v),
                    9 | 10 => { let (x, y) = (self.conc(st, &old)?, self.conc(st, &v)?); V::C(if *op == 9 { x.max(y) } else { x.min(y) }) }
                    _ => return err(format!("atomicrmw {op}")),
                };
                self.store(st, a, ty, &new)?;
                self.set(st, d, old);
            }
            I::CmpXchg(ty, p, c, n) => {
                let (p, c, n) = (self.get(fr, p), self.get(fr, c), self.get(fr, n));
                let a = self.conc(st, &p)?;
                let old = self.load(st, a, ty)?;
                let eq = self.icmp(Pred::Eq, ty.bits(), &old, &c);
                let ok = match eq { V::C(x) => x == 1, V::E(e) => self.decide(st, e)?, _ => false };
                if ok { self.store(st, a, ty, &n)?; }
                self.set(st, d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
            }
            I::Asm(s, ty, args) => {
                let t = s.trim();
                if t.is_empty() || (t.starts_with("/*") && t.ends_with("*/")) { // optimisation barriers: an output is its tied input
                    let v = match (ty, args.len()) { (Ty::Void, _) => V::C(0), (_, 1) => self.get(fr, &args[0]), _ => return err(format!("inline asm {s:?} with {} operands", args.len())) };
                    self.set(st, d, v);
                }
                else if s.contains("cpuid") { let v = self.md.zero(ty); self.set(st, d, v); }
                else { return err(format!("inline asm {s:?}")); }
            }
            I::Unsupported(s) => return err(format!("unsupported instruction: {s}")),
            I::Nop => unreachable!(),
        }
        Ok(())
    }
    fn switch(&mut self, st: &mut State, e: Ex, w: u16, def: u32, cases: &[(u128, u32)]) -> R<u32> {
        let val = st.conc.get(&e).copied();
        let val = match val { Some(v) => Some(v), None => self.fixed(st, e) };
        if let Some(v) = val { return Ok(cases.iter().find(|(c, _)| *c == v as u128).map_or(def, |(_, b)| *b)); }
        // group the cases by target
        let mut targets: Vec<(u32, Ex)> = vec![];
        let mut any: Option<Ex> = None;
        for (c, b) in cases {
            let k = self.ar.konst(w, *c);
            let q = self.ar.bin(Op::Eq, e, k);
            if self.ar.as_const(q) == Some(0) { continue; }
            any = Some(match any { None => q, Some(o) => self.ar.bin(Op::Or, o, q) });
            if *b == def { continue; }
            match targets.iter_mut().find(|(t, _)| t == b) { Some((_, x)) => *x = self.ar.bin(Op::Or, *x, q), None => targets.push((*b, q)) }
        }
        // the default target: everything that is not one of the others
        let mut rest: Option<Ex> = None;
        for (_, q) in &targets { let n = self.ar.not1(*q); rest = Some(match rest { None => n, Some(r) => self.ar.bin(Op::And, r, n) }); }
        let rest = rest.unwrap_or_else(|| self.ar.konst(1, 1));
        targets.push((def, rest));
        let mut feas: Vec<(u32, Ex, Rc<Vec<u8>>)> = vec![];
        let cur = st.model.clone();
        for (t, q) in targets {
            if let Some(c) = self.ar.as_const(q) { if c == 0 { continue; } feas.push((t, q, cur.clone())); continue; }
            let (y, _) = if self.evm(st, q) == 1 { (Some(cur.clone()), None::<()>) } else {
                let d = self.ar.deps[q as usize].clone();
                if d.len() == 1 && !st.ent[d[0] as usize] {
                    let tb = self.ar.table(q); let v = d[0] as usize; let mut dm = st.dom[v];
                    for i in 0..256 { if tb[i] == 0 { dm[i >> 6] &= !(1 << (i & 63)); } }
                    self.st.dom_decisions += 1;
                    (dfirst(&dm).map(|b| { let mut m = (*cur).clone(); m[v] = b; Rc::new(m) }), None)
                } else { (self.query(st, q)?, None) }
            };
            if let Some(m) = y { feas.push((t, q, m)); }
        }
        if feas.is_empty() { return err("switch without a feasible target".into()); }
        if feas.len() > 1 { st.depth += 1; }
        let first = feas.remove(0);
        for (t, q, m) in feas {
            self.st.forks += 1;
            let mut o = st.clone();
            o.model = m;
            self.add_cs(&mut o, q);
            self.jump(&mut o, t);
            self.work.push(o);
        }
        st.model = first.2;
        self.add_cs(st, first.1);
        Ok(first.0)
    }

    fn cstr(&self, st: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(4096) { match st.mem.byte(p + i) { Ok((b, 0)) => v.push(b), Ok((_, e)) => { let _ = e; v.push(b'?') } Err(_) => break } }
        String::from_utf8_lossy(&v).into_owned()
    }
    fn fresh(&mut self, st: &mut State, d: [u64; 4]) -> Ex {
        let id = st.dom.len() as u32;
        Rc::make_mut(&mut st.dom).push(d);
        Rc::make_mut(&mut st.ent).push(false);
        Rc::make_mut(&mut st.model).push(dfirst(&d).unwrap());
        self.ar.var(id)
    }
    fn lanes1(&mut self, ty: &Ty, v: &V, f: &mut dyn FnMut(&mut Self, u16, &V) -> R<V>) -> R<V> {
        match (ty, v) {
            (Ty::Vec(_, t), V::A(xs)) => { let mut r = vec![]; for x in xs.iter() { r.push(f(self, t.bits(), x)?); } Ok(V::A(Rc::new(r))) }
            _ => f(self, ty.bits(), v),
        }
    }
    fn lanes2(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, u16, &V, &V) -> R<V>) -> R<V> {
        match (ty, a, b) {
            (Ty::Vec(_, t), V::A(x), V::A(y)) => { let mut r = vec![]; for (p, q) in x.iter().zip(y.iter()) { r.push(f(self, t.bits(), p, q)?); } Ok(V::A(Rc::new(r))) }
            _ => f(self, ty.bits(), a, b),
        }
    }
    fn overflow(&mut self, k: u8, signed: bool, w: u16, a: &V, b: &V) -> R<(V, V)> {
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            if w <= 64 {
                let (r, o) = if signed {
                    let (x, y) = (sext(x, w), sext(y, w));
                    let r = match k { 0 => x + y, 1 => x - y, _ => x * y };
                    (r as u128 & mask(w), sext(r as u128 & mask(w), w) != r)
                } else {
                    match k { 0 => { let r = x + y; (r & mask(w), r > mask(w)) } 1 => (x.wrapping_sub(y) & mask(w), x < y), _ => { let r = x * y; (r & mask(w), r > mask(w)) } }
                };
                return Ok((mk(w, r), V::C(o as u64)));
            }
            let (r, o) = if signed { let (x, y) = (sext(x, w), sext(y, w)); match k { 0 => x.overflowing_add(y), 1 => x.overflowing_sub(y), _ => x.overflowing_mul(y) } }
                else { let (r, o) = match k { 0 => x.overflowing_add(y), 1 => x.overflowing_sub(y), _ => x.overflowing_mul(y) }; (r as i128, o) };
            if w != 128 { return err(format!("overflow op on i{w}")); }
            return Ok((mk(w, r as u128), V::C(o as u64)));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let op = match k { 0 => Op::Add, 1 => Op::Sub, _ => Op::Mul };
        let r = self.ar.bin(op, x, y);
        if !signed && k != 1 {
            let (ux, uy) = (self.ar.ub(x), self.ar.ub(y));
            let fits = if k == 0 { ux.checked_add(uy) } else { ux.checked_mul(uy) }.map_or(false, |s| s <= mask(w));
            if fits { return Ok((self.ve(r), V::C(0))); }
        }
        let o = if k == 1 && !signed { self.ar.bin(Op::Ult, x, y) }
            else if k == 0 && !signed { self.ar.bin(Op::Ult, r, x) }
            else {
                let ww = if k == 2 { 2 * w } else { w + 1 };
                if ww > 128 { return err(format!("symbolic overflow op on i{w}")); }
                let (xx, yy) = if signed { (self.ar.sext_(x, ww), self.ar.sext_(y, ww)) } else { (self.ar.zext(x, ww), self.ar.zext(y, ww)) };
                let rr = self.ar.bin(op, xx, yy);
                let back = if signed { self.ar.sext_(r, ww) } else { self.ar.zext(r, ww) };
                let e = self.ar.bin(Op::Eq, rr, back);
                self.ar.not1(e)
            };
        Ok((self.ve(r), self.ve(o)))
    }

    fn special(&mut self, st: &mut State, id: u32, sp: Sp, args: &[(Ty, O)], a: Vec<V>, rty: &Ty) -> R<V> {
        use Sp::*;
        macro_rules! n { ($i:expr) => { { let v = a[$i].clone(); self.conc(st, &v)? } } }
        Ok(match sp {
            None => unreachable!(),
            Undefined => return err(format!("call of external {}", self.md.fns[id as usize].name)),
            Malloc => { let s = n!(0); V::C(self.alloc(st, s, 16)?) }
            RustAlloc | RustAllocZ => { let s = n!(0); let al = n!(1); V::C(self.alloc(st, s, al)?) }
            AlignedAlloc => { let al = n!(0); let s = n!(1); V::C(self.alloc(st, s, al)?) }
            Calloc => { let s = n!(0); let k = n!(1); V::C(self.alloc(st, s * k, 16)?) }
            Memalign => { let p = n!(0); let al = n!(1); let s = n!(2); let q = self.alloc(st, s, al)?; st.mem.store(p, 8, q as u128)?; V::C(0) }
            RustRealloc => { let p = n!(0); let old = n!(1); let al = n!(2); let new = n!(3); let q = self.alloc(st, new, al)?; st.mem.copy(q, p, old.min(new))?; V::C(q) }
            Realloc => return err("raw realloc".into()),
            Free => V::C(0),
            Memcpy => { let d = n!(0); let s = n!(1); let k = n!(2); st.mem.copy(d, s, k)?; a[0].clone() }
            Memset => {
                let d = n!(0); let k = n!(2);
                match &a[1] {
                    V::E(e) => { let b = self.ar.extract(*e, 0, 8); for i in 0..k { self.store(st, d + i, &Ty::Int(8), &V::E(b))?; } }
                    v => { let b = self.c128(v).unwrap() as u8; st.mem.fill(d, b, k)?; }
                }
                a[0].clone()
            }
            Memcmp | Bcmp => {
                let p = n!(0); let q = n!(1); let k = n!(2);
                self.memcmp(st, p, q, k, sp == Bcmp)?
            }
            Strlen => { let p = n!(0); let mut k = 0; loop { let b = self.byte_e(st, p + k)?; let b = self.conc(st, &b)?; if b == 0 { break; } k += 1; } V::C(k) }
            Panic => {
                let stack = self.stack(st);
                for al in st.allow.iter() { if al == "panic" || stack.iter().any(|s| s.contains(al.as_str())) { return Err(Stop::Allowed(al.clone())); } }
                let loc = self.panic_loc(st, &a);
                return Err(Stop::Violation(format!("panic at {loc}")));
            }
            Abort | Trap => return Err(Stop::Violation("abort".into())),
            Exit => return Err(Stop::Violation("process exit".into())),
            RetZero => V::C(0),
            Write => {
                if self.md.fns[id as usize].name == "write" { a[2].clone() } else {
                    let iov = n!(1); let cnt = n!(2); let mut t = 0;
                    for i in 0..cnt { t += st.mem.load64(iov + i * 16 + 8)?.unwrap_or(0); }
                    V::C(t)
                }
            }
            Errno => V::C(self.errno_addr),
            Random => { let p = n!(0); let k = n!(1); st.mem.fill(p, 7, k)?; V::C(k) }
            RandKeys => V::A(Rc::new(vec![V::C(1), V::C(2)])),
            Syscall => { let k = n!(0); if k == 318 { let p = n!(1); let l = n!(2); st.mem.fill(p, 7, l)?; V::C(l) } else { return err(format!("syscall {k}")); } }
            Clock => { let p = n!(1); st.mem.store(p, 8, 1)?; st.mem.store(p + 8, 8, 0)?; V::C(0) }
            // thread-local keys: a counter and a value table in the errno page
            KeyNew => { let p = n!(0); let c = st.mem.load64(self.errno_addr + 0x100)?.unwrap_or(0) + 1; if c > 200 { return err("too many pthread keys".into()); } st.mem.store(self.errno_addr + 0x100, 8, c as u128)?; st.mem.store(p, 4, c as u128)?; V::C(0) }
            KeySet => { let k = n!(0); let v = n!(1); if k > 200 { return err("pthread key".into()); } st.mem.store(self.errno_addr + 0x200 + k * 8, 8, v as u128)?; V::C(0) }
            KeyGet => { let k = n!(0); if k > 200 { return err("pthread key".into()); } V::C(st.mem.load64(self.errno_addr + 0x200 + k * 8)?.unwrap_or(0)) }
            OvAdd(s) | OvSub(s) | OvMul(s) => {
                let k = match sp { OvAdd(_) => 0, OvSub(_) => 1, _ => 2 };
                if matches!(args[0].0, Ty::Vec(..)) { return err("vector overflow".into()); }
                let w = args[0].0.bits();
                let (r, o) = self.overflow(k, s, w, &a[0], &a[1])?;
                V::A(Rc::new(vec![r, o]))
            }
            SatAdd(s) | SatSub(s) => {
                let k = match sp { SatAdd(_) => 0, _ => 1 };
                let (a0, a1) = (a[0].clone(), a[1].clone());
                self.lanes2(rty, &a0, &a1, &mut |me, w, x, y| {
                    let (r, o) = me.overflow(k, s, w, x, y)?;
                    let sat = if s { // sign of x decides
                        let e = me.ex(x, w); let neg = me.ar.extract(e, w - 1, 1); let (lo, hi) = (me.ar.konst(w, 1 << (w - 1)), me.ar.konst(w, mask(w) >> 1)); me.ar.ite(neg, lo, hi)
                    } else { me.ar.konst(w, if k == 0 { mask(w) } else { 0 }) };
                    let (re, oe) = (me.ex(&r, w), me.ex(&o, 1));
                    let e = me.ar.ite(oe, sat, re);
                    Ok(me.ve(e))
                })?
            }
            MinMax(k) => {
                let (a0, a1) = (a[0].clone(), a[1].clone());
                self.lanes2(rty, &a0, &a1, &mut |me, w, x, y| {
                    let (xe, ye) = (me.ex(x, w), me.ex(y, w));
                    let c = me.ar.bin(if k < 2 { Op::Ult } else { Op::Slt }, xe, ye);
                    let e = if k % 2 == 0 { me.ar.ite(c, xe, ye) } else { me.ar.ite(c, ye, xe) };
                    Ok(me.ve(e))
                })?
            }
            Fsh(left) => {
                let w = rty.bits();
                if matches!(rty, Ty::Vec(..)) { return err("vector fsh".into()); }
                let k = n!(2) % w as u64;
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let (hi, lo, s) = if left { (x, y, w - k as u16) } else { (x, y, k as u16) };
                // concat(hi, lo) >> s, low w bits
                let e = if s == w { hi } else if s == 0 { lo } else { let h = self.ar.extract(hi, 0, s); let l = self.ar.extract(lo, s, w - s); self.ar.concat(h, l) };
                self.ve(e)
            }
            Bswap => { let a0 = a[0].clone(); self.lanes1(rty, &a0, &mut |me, w, x| {
                let e = me.ex(x, w); let mut acc: Option<Ex> = Option::None;
                for i in 0..w / 8 { let b = me.ar.extract(e, i * 8, 8); acc = Some(match acc { Option::None => b, Some(h) => me.ar.concat(h, b) }); }
                Ok(me.ve(acc.unwrap())) })? }
            Ctlz | Cttz | Ctpop | BitRev => {
                let a0 = a[0].clone();
                let stp: *mut State = st;
                self.lanes1(rty, &a0, &mut |me, w, x| {
                    if let Some(c) = me.c128(x) {
                        let r = match sp { Ctlz => (c << (128 - w)).leading_zeros().min(w as u32) as u128, Cttz => c.trailing_zeros().min(w as u32) as u128, Ctpop => c.count_ones() as u128, _ => c.reverse_bits() >> (128 - w) };
                        return Ok(mk(w, r));
                    }
                    let e = me.ex(x, w);
                    if sp == BitRev { let mut acc: Option<Ex> = Option::None; for i in 0..w { let b = me.ar.extract(e, i, 1); acc = Some(match acc { Option::None => b, Some(h) => me.ar.concat(h, b) }); } return Ok(me.ve(acc.unwrap())); }
                    if sp == Ctpop { let mut acc = me.ar.konst(w, 0); for i in 0..w { let b = me.ar.extract(e, i, 1); let b = me.ar.zext(b, w); acc = me.ar.bin(Op::Add, acc, b); } return Ok(me.ve(acc)); }
                    // the position of the first set bit: decide bit by bit, so that what depends on it is concrete
                    let s = unsafe { &mut *stp };
                    for k in 0..w {
                        let bit = if sp == Cttz { k } else { w - 1 - k };
                        let b = me.ar.extract(e, bit, 1);
                        if me.decide(s, b)? { return Ok(mk(w, k as u128)); }
                    }
                    Ok(mk(w, w as u128))
                })?
            }
            Ucmp(s) => {
                let w = args[0].0.bits(); let rw = rty.bits();
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let lt = self.ar.bin(if s { Op::Slt } else { Op::Ult }, x, y);
                let eq = self.ar.bin(Op::Eq, x, y);
                let (m1, z, p1) = (self.ar.konst(rw, mask(rw)), self.ar.konst(rw, 0), self.ar.konst(rw, 1));
                let r = self.ar.ite(eq, z, p1);
                let r = self.ar.ite(lt, m1, r);
                self.ve(r)
            }
            Abs => { let a0 = a[0].clone(); self.lanes1(rty, &a0, &mut |me, w, x| { let e = me.ex(x, w); let z = me.ar.konst(w, 0); let n = me.ar.bin(Op::Sub, z, e); let s = me.ar.extract(e, w - 1, 1); let r = me.ar.ite(s, n, e); Ok(me.ve(r)) })? }
            Fabs => { let x = n!(0); if *rty == Ty::F64 { V::C(x & !(1 << 63)) } else { V::C(x & 0x7fff_ffff) } }
            FloatFn(k) => {
                let f64_ = args[0].0 == Ty::F64;
                let x = n!(0);
                let g = |x: u64| if f64_ { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let xf = g(x);
                let yf = if a.len() > 1 && k != 10 && k != 11 { let y = n!(1); g(y) } else { 0.0 };
                if k == 10 { let w = rty.bits(); let lo = -(2f64.powi(w as i32 - 1)); let r = if xf.is_nan() { 0 } else if xf <= lo { -(1i128 << (w - 1)) } else if xf >= -lo { (1i128 << (w - 1)) - 1 } else { xf as i128 }; return Ok(mk(w, r as u128)); }
                if k == 11 { let w = rty.bits(); let hi = 2f64.powi(w as i32); let r = if xf.is_nan() || xf <= 0.0 { 0 } else if xf >= hi { mask(w) } else { xf as u128 }; return Ok(mk(w, r)); }
                let r = match k { 0 => xf.floor(), 1 => xf.ceil(), 2 => xf.trunc(), 3 => xf.round(), 4 => xf.copysign(yf), 5 => xf.sqrt(), 6 => { let r = xf.round(); if (xf - xf.trunc()).abs() == 0.5 { 2.0 * (xf / 2.0).round() } else { r } },
                    12 => { let z = n!(2); xf.mul_add(yf, g(z)) } 13 => xf.max(yf), 14 => xf.min(yf), _ => return err("float fn".into()) };
                V::C(if f64_ { r.to_bits() } else { (r as f32).to_bits() as u64 })
            }
            TlsAddr => a[0].clone(),
            IsConst => V::C(0),
            Expect => a[0].clone(),
            PtrMask => self.bin(BinOp::And, 64, &a[0], &a[1]),
            VecReduce(k) => {
                let (V::A(xs), Ty::Vec(_, t)) = (&a[0], &args[0].0) else { return err("vector reduce".into()) };
                let w = t.bits();
                let mut acc = xs[0].clone();
                for x in &xs[1..] {
                    acc = match k { 0 => self.bin(BinOp::Or, w, &acc, x), 1 => self.bin(BinOp::And, w, &acc, x), 2 => self.bin(BinOp::Add, w, &acc, x), 3 => self.bin(BinOp::Xor, w, &acc, x),
                        _ => { let (p, q) = (self.ex(&acc, w), self.ex(x, w)); let c = self.ar.bin(Op::Ult, p, q); let e = if k == 4 { self.ar.ite(c, q, p) } else { self.ar.ite(c, p, q) }; self.ve(e) } };
                }
                acc
            }
            // ---------- harness interface
            ZBytes => {
                let p = n!(0); let l = n!(1); let lo = n!(2); let hi = n!(3);
                let mut d = [0u64; 4]; for i in lo..=hi { d[i as usize >> 6] |= 1 << (i & 63); }
                for i in 0..l { let e = self.fresh(st, d); let v = if lo == hi { V::C(lo) } else { V::E(e) }; self.store(st, p + i, &Ty::Int(8), &v)?; }
                V::C(0)
            }
            ZBytesIn => {
                let p = n!(0); let l = n!(1); let set = n!(2); let k = n!(3);
                let mut d = [0u64; 4];
                for i in 0..k { let b = st.mem.byte(set + i)?.0; d[b as usize >> 6] |= 1 << (b & 63); }
                for i in 0..l { let e = self.fresh(st, d); self.store(st, p + i, &Ty::Int(8), &V::E(e))?; }
                V::C(0)
            }
            ZChoice => {
                let k = n!(0);
                if k == 0 || k > 256 { return err("zs_choice".into()); }
                let mut d = [0u64; 4]; for i in 0..k { d[i as usize >> 6] |= 1 << (i & 63); }
                let e = self.fresh(st, d);
                // fork on every value; the states continue after the call
                let var = st.dom.len() - 1;
                if k > 1 { st.depth += 1; }
                for v in 1..k {
                    self.st.forks += 1;
                    let mut o = st.clone();
                    let mut dd = [0u64; 4]; dd[v as usize >> 6] |= 1 << (v & 63);
                    Rc::make_mut(&mut o.dom)[var] = dd;
                    Rc::make_mut(&mut o.model)[var] = v as u8;
                    self.finish_call(&mut o, V::C(v));
                    self.work.push(o);
                }
                let mut dd = [0u64; 4]; dd[0] = 1;
                Rc::make_mut(&mut st.dom)[var] = dd;
                Rc::make_mut(&mut st.model)[var] = 0;
                let _ = e;
                V::C(0)
            }
            ZAssume => {
                match a[0].clone() {
                    V::E(e) => {
                        let e = if self.ar.w(e) == 1 { e } else { self.ar.extract(e, 0, 1) };
                        let (t, _) = self.sides(st, e)?;
                        match t { Some(m) => { st.model = m; self.add_cs(st, e); } Option::None => return Err(Stop::Infeasible) }
                    }
                    v => if self.c128(&v).unwrap() & 1 == 0 { return Err(Stop::Infeasible); },
                }
                V::C(0)
            }
            ZAssert | ZFail => {
                let (mp, ml) = if sp == ZFail { (n!(0), n!(1)) } else { (n!(1), n!(2)) };
                self.st.asserts += 1;
                let bad = if sp == ZFail { true } else { match a[0].clone() {
                    V::E(e) => {
                        let e = if self.ar.w(e) == 1 { e } else { self.ar.extract(e, 0, 1) };
                        self.st.asserts_sym += 1;
                        let ne = self.ar.not1(e);
                        if self.ar.as_const(ne) == Some(0) { false } else {
                            match self.query(st, ne)? {
                                Some(m) => { st.model = m; true }
                                Option::None => { false }
                            }
                        }
                    }
                    v => self.c128(&v).unwrap() & 1 == 0,
                } };
                if bad { return Err(Stop::Violation(self.msg(st, mp, ml))); }
                V::C(0)
            }
            ZCover => { let k = n!(0); Rc::make_mut(&mut st.covers).insert(k as u32); V::C(0) }
            ZObserve => { let p = n!(0); let l = n!(1); for i in 0..l { let b = st.mem.byte(p + i)?; Rc::make_mut(&mut st.obs).push(b); } Rc::make_mut(&mut st.obs).push((b'\n', 0)); V::C(0) }
            ZParam => { let k = n!(0); V::C(*self.cfg.params.get(k as usize).unwrap_or(&0)) }
            ZAllowStop => { let p = n!(0); let l = n!(1); let s = self.cstr(st, p, l); Rc::make_mut(&mut st.allow).push(s); V::C(0) }
            ZConc => { let v = n!(0); V::C(v) }
            ZSymbolic => V::C(1),
            ZDone => return Err(Stop::Done),
            ZUnsup => { let (p, l) = (n!(0), n!(1)); let m = self.msg(st, p, l); return err(format!("not supported by the check: {m}")) }
        })
    }
    /// message of an assertion, with symbolic bytes shown under the current model
    fn msg(&mut self, st: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(8192) { match st.mem.byte(p + i) { Ok((b, 0)) => v.push(b), Ok((_, e)) => v.push(self.evm(st, e) as u8), Err(_) => break } }
        String::from_utf8_lossy(&v).into_owned()
    }
    fn finish_call(&mut self, o: &mut State, v: V) {
        let fr = o.frames.last().unwrap();
        let f = fr.f.clone();
        let (d, ins) = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
        let nx = if let I::Call(_, _, _, n) = ins { *n } else { None };
        self.set(o, *d, v);
        if let Some(n) = nx { self.jump(o, n); }
    }
    fn memcmp(&mut self, st: &mut State, p: u64, q: u64, n: u64, eq_only: bool) -> R<V> {
        let mut pairs: Vec<(Ex, Ex)> = vec![];
        for i in 0..n {
            let (x, y) = (self.byte_e(st, p + i)?, self.byte_e(st, q + i)?);
            match (&x, &y) {
                (V::C(a), V::C(b)) => {
                    if a != b {
                        if eq_only { return Ok(V::C(1)); }
                        let r = if a < b { mask(32) as u64 } else { 1 };
                        if pairs.is_empty() { return Ok(V::C(r)); }
                        let (xe, ye) = (self.ar.konst(8, *a as u128), self.ar.konst(8, *b as u128));
                        pairs.push((xe, ye));
                        break;
                    }
                }
                _ => { let (xe, ye) = (self.ex(&x, 8), self.ex(&y, 8)); if xe != ye { pairs.push((xe, ye)); } }
            }
        }
        if pairs.is_empty() { return Ok(V::C(0)); }
        if eq_only {
            let mut acc = self.ar.konst(1, 1);
            for (x, y) in pairs { let e = self.ar.bin(Op::Eq, x, y); acc = self.ar.bin(Op::And, acc, e); }
            let ne = self.ar.not1(acc);
            let r = self.ar.zext(ne, 32);
            return Ok(self.ve(r));
        }
        let mut acc = self.ar.konst(32, 0);
        for (x, y) in pairs.into_iter().rev() {
            let e = self.ar.bin(Op::Eq, x, y);
            let l = self.ar.bin(Op::Ult, x, y);
            let (m1, p1) = (self.ar.konst(32, mask(32)), self.ar.konst(32, 1));
            let c = self.ar.ite(l, m1, p1);
            acc = self.ar.ite(e, acc, c);
        }
        Ok(self.ve(acc))
    }
    fn panic_loc(&self, st: &State, a: &[V]) -> String {
        // PanicInfo: pointers to the message and to the location, in unspecified order
        if let Some(V::C(p)) = a.first() {
            for k in 0..4 {
                if let Ok(Some(l)) = st.mem.load64(p + 8 * k) {
                    if let (Ok(Some(f)), Ok(Some(n)), Ok(Some(lc))) = (st.mem.load64(l), st.mem.load64(l + 8), st.mem.load64(l + 16)) {
                        if n > 3 && n < 300 { let s = self.cstr(st, f, n.min(299)); if s.trim_end_matches('\0').ends_with(".rs") && s.len() as u64 >= n { return format!("{}:{}", s.trim_end_matches('\0'), lc & 0xffff_ffff); } }
                    }
                }
            }
        }
        let s = self.stack(st);
        s.iter().take(8).cloned().collect::<Vec<_>>().join(" <- ")
    }

    /// bookkeeping at the end of a path
    pub fn finish(&mut self, st: State, stop: Stop) {
        self.st.steps += st.steps;
        self.st.max_vars = self.st.max_vars.max(st.dom.len());
        let ended = match stop {
            Stop::Infeasible => { self.st.infeasible += 1; return; }
            Stop::Error(m) => {
                if self.st.errors.len() < 20 { let s = self.stack(&st); self.st.errors.push(format!("{m} | input {:?} | {}", st.model, s.iter().take(12).cloned().collect::<Vec<_>>().join(" <- "))); }
                return;
            }
            Stop::Violation(m) => {
                self.st.paths += 1;
                let n = self.st.viols.iter().filter(|v| v.msg == m).count();
                if n < 2 && self.st.viols.len() < 60 { let s = self.stack(&st); self.st.viols.push(Viol { msg: m, input: (*st.model).clone(), stack: s.into_iter().take(16).collect() }); }
                return;
            }
            Stop::Done => "done".to_string(),
            Stop::Allowed(s) => s,
        };
        self.st.paths += 1;
        for c in st.covers.iter() { *self.st.covers.entry(*c).or_insert(0) += 1; }
        *self.st.stopped.entry(ended.clone()).or_insert(0) += 1;
        // sampled paths are replayed natively and their observations compared
        let take = self.st.samples.len() < self.cfg.samples / 2 || (self.st.paths.is_power_of_two() && self.st.samples.len() < self.cfg.samples);
        if take && ended == "done" {
            let m = st.model.clone();
            let o = st.obs.iter().map(|(b, e)| if *e == 0 { *b } else { self.ar.eval(*e, &m) as u8 }).collect();
            self.st.samples.push(((*m).clone(), o, ended));
        }
    }
}
