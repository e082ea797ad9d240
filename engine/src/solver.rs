//! Z3 through its C API.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_eval(c: P, m: P, a: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::exit(3);
}

pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown }

pub struct Z3 {
    c: P, qfbv: P, simple: bool,
    sorts: HashMap<u16, P>,
    cache: HashMap<Ex, P>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub secs: f64, pub max_secs: f64,
}

impl Z3 {
    pub fn new(timeout_ms: u64) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("timeout").unwrap(), CString::new(timeout_ms.to_string()).unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let qfbv = Z3_mk_string_symbol(c, l.as_ptr());
            Z3 { c, qfbv, simple: true, sorts: HashMap::new(), cache: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, secs: 0.0, max_secs: 0.0 }
        }
    }
    fn sort(&mut self, w: u16) -> P { let c = self.c; *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as c_uint) }) }
    fn num(&mut self, w: u16, v: u128) -> P {
        let s = self.sort(w);
        if v <= u64::MAX as u128 { unsafe { Z3_mk_unsigned_int64(self.c, v as u64, s) } }
        else { let t = CString::new(v.to_string()).unwrap(); unsafe { Z3_mk_numeral(self.c, t.as_ptr(), s) } }
    }
    fn lut(&mut self, idx: P, w: u16, t: &[u64], bit: i32) -> P {
        if t.iter().all(|x| *x == t[0]) { return self.num(w, t[0] as u128); }
        let h = t.len() / 2;
        let lo = self.lut(idx, w, &t[..h], bit - 1);
        let hi = self.lut(idx, w, &t[h..], bit - 1);
        unsafe {
            let b = Z3_mk_extract(self.c, bit as c_uint, bit as c_uint, idx);
            let one = self.num(1, 1);
            Z3_mk_ite(self.c, Z3_mk_eq(self.c, b, one), hi, lo)
        }
    }
    fn b2v(&mut self, b: P) -> P { let (o, z) = (self.num(1, 1), self.num(1, 0)); unsafe { Z3_mk_ite(self.c, b, o, z) } }
    pub fn tr(&mut self, ar: &Arena, e: Ex) -> P {
        if let Some(p) = self.cache.get(&e) { return *p; }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.cache.contains_key(&x) { continue; }
            let n = &ar.nodes[x as usize];
            if !done {
                stack.push((x, true));
                match n.op {
                    Op::Const | Op::Var => {}
                    Op::Extract | Op::ZExt | Op::SExt | Op::Not | Op::Lut => stack.push((n.a, false)),
                    Op::Ite => { stack.push((n.a, false)); stack.push((n.b, false)); stack.push((n.c, false)); }
                    _ => { stack.push((n.a, false)); stack.push((n.b, false)); }
                }
                continue;
            }
            let c = self.c;
            let g = |s: &Self, k: Ex| s.cache[&k];
            let p = unsafe { match n.op {
                Op::Const => self.num(n.w, n.imm),
                Op::Var => { let s = self.sort(8); let nm = CString::new(format!("b{}", n.imm)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s) }
                Op::Extract => Z3_mk_extract(c, n.imm as c_uint + n.w as c_uint - 1, n.imm as c_uint, g(self, n.a)),
                Op::ZExt => Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, g(self, n.a)),
                Op::SExt => Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, g(self, n.a)),
                Op::Not => Z3_mk_bvnot(c, g(self, n.a)),
                Op::Lut => { let t = ar.luts[n.imm as usize].clone(); let i = g(self, n.a); self.lut(i, n.w, &t, 7) }
                Op::Ite => { let one = self.num(1, 1); let k = Z3_mk_eq(c, g(self, n.a), one); Z3_mk_ite(c, k, g(self, n.b), g(self, n.c)) }
                Op::Add => Z3_mk_bvadd(c, g(self, n.a), g(self, n.b)), Op::Sub => Z3_mk_bvsub(c, g(self, n.a), g(self, n.b)),
                Op::Mul => Z3_mk_bvmul(c, g(self, n.a), g(self, n.b)), Op::UDiv => Z3_mk_bvudiv(c, g(self, n.a), g(self, n.b)),
                Op::SDiv => Z3_mk_bvsdiv(c, g(self, n.a), g(self, n.b)), Op::URem => Z3_mk_bvurem(c, g(self, n.a), g(self, n.b)),
                Op::SRem => Z3_mk_bvsrem(c, g(self, n.a), g(self, n.b)), Op::And => Z3_mk_bvand(c, g(self, n.a), g(self, n.b)),
                Op::Or => Z3_mk_bvor(c, g(self, n.a), g(self, n.b)), Op::Xor => Z3_mk_bvxor(c, g(self, n.a), g(self, n.b)),
                Op::Shl => Z3_mk_bvshl(c, g(self, n.a), g(self, n.b)), Op::LShr => Z3_mk_bvlshr(c, g(self, n.a), g(self, n.b)),
                Op::AShr => Z3_mk_bvashr(c, g(self, n.a), g(self, n.b)), Op::Concat => Z3_mk_concat(c, g(self, n.a), g(self, n.b)),
                Op::Eq => { let b = Z3_mk_eq(c, g(self, n.a), g(self, n.b)); self.b2v(b) }
                Op::Ult => { let b = Z3_mk_bvult(c, g(self, n.a), g(self, n.b)); self.b2v(b) }
                Op::Ule => { let b = Z3_mk_bvule(c, g(self, n.a), g(self, n.b)); self.b2v(b) }
                Op::Slt => { let b = Z3_mk_bvslt(c, g(self, n.a), g(self, n.b)); self.b2v(b) }
                Op::Sle => { let b = Z3_mk_bvsle(c, g(self, n.a), g(self, n.b)); self.b2v(b) }
            } };
            self.cache.insert(x, p);
        }
        self.cache[&e]
    }
    fn dom(&mut self, ar: &mut Arena, v: u32, d: &[u64; 4]) -> Option<P> {
        if d.iter().all(|x| *x == u64::MAX) { return None; }
        let e = ar.var(v);
        let x = self.tr(ar, e);
        let mut parts = vec![];
        let has = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
        let mut i = 0;
        while i < 256 {
            if has(i) {
                let s = i; while i < 256 && has(i) { i += 1; }
                let (lo, hi) = (self.num(8, s as u128), self.num(8, i as u128 - 1));
                unsafe { let p = [Z3_mk_bvule(self.c, lo, x), Z3_mk_bvule(self.c, x, hi)]; parts.push(Z3_mk_and(self.c, 2, p.as_ptr())); }
            } else { i += 1; }
        }
        Some(unsafe { Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr()) })
    }
    /// satisfiability of the conjunction of `cs` with variable domains `doms`
    pub fn check(&mut self, ar: &mut Arena, cs: &[Ex], doms: &[(u32, [u64; 4])]) -> Res {
        let t0 = Instant::now();
        unsafe {
            let s = if self.simple { Z3_mk_simple_solver(self.c) } else { Z3_mk_solver_for_logic(self.c, self.qfbv) };
            Z3_solver_inc_ref(self.c, s);
            for (v, d) in doms { if let Some(p) = self.dom(ar, *v, d) { Z3_solver_assert(self.c, s, p); } }
            for &e in cs { let p = self.tr(ar, e); let one = self.num(1, 1); Z3_solver_assert(self.c, s, Z3_mk_eq(self.c, p, one)); }
            if std::env::var("ZQ").is_ok() { eprintln!("{}", std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy()); }
            let r = Z3_solver_check(self.c, s);
            self.queries += 1;
            let out = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, s);
                    let mut vs = vec![];
                    for (v, _) in doms {
                        let e = ar.var(*v); let p = self.tr(ar, e);
                        let mut o: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(self.c, m, p, true, &mut o) && Z3_get_numeral_uint64(self.c, o, &mut val) { vs.push((*v, val as u8)); }
                    }
                    Res::Sat(vs)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => { self.unknown += 1; Res::Unknown }
            };
            Z3_solver_dec_ref(self.c, s);
            let dt = t0.elapsed().as_secs_f64();
            self.secs += dt;
            if dt > self.max_secs { self.max_secs = dt; }
            out
        }
    }
}
