//! Hash-consed bit-vector expressions (width 1..=128) over symbolic bytes.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt, Not,
    /// table lookup: child a is 8 bits wide, imm = index of the table
    Lut,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u16, pub a: Ex, pub b: Ex, pub c: Ex, pub imm: u128 }

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Ex>,
    pub deps: Vec<Rc<[u32]>>,
    dep_intern: HashMap<Vec<u32>, Rc<[u32]>>,
    pub luts: Vec<Rc<Vec<u64>>>,
    lut_map: HashMap<Vec<u64>, u32>,
    tables: HashMap<Ex, Rc<Vec<u128>>>,
    ubs: Vec<u128>,
    // evaluation memo
    memo_val: Vec<u128>,
    memo_gen: Vec<u32>,
    gen: u32,
    empty: Rc<[u32]>,
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub fn fold(op: Op, w: u16, wa: u16, x: u128, y: u128) -> Option<u128> {
    let m = mask(wa);
    let r = match op {
        Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), Op::Mul => x.wrapping_mul(y),
        Op::UDiv => { if y == 0 { m } else { x / y } }
        Op::URem => { if y == 0 { x } else { x % y } }
        Op::SDiv => { if y == 0 { if sext(x, wa) < 0 { 1 } else { m } } else { sext(x, wa).wrapping_div(sext(y, wa)) as u128 } }
        Op::SRem => { if y == 0 { x } else { sext(x, wa).wrapping_rem(sext(y, wa)) as u128 } }
        Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
        Op::Shl => if y >= wa as u128 { 0 } else { x << y },
        Op::LShr => if y >= wa as u128 { 0 } else { x >> y },
        Op::AShr => { let s = if y >= wa as u128 { wa - 1 } else { y as u16 }; (sext(x, wa) >> s) as u128 }
        Op::Eq => (x == y) as u128, Op::Ult => (x < y) as u128, Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, wa) < sext(y, wa)) as u128, Op::Sle => (sext(x, wa) <= sext(y, wa)) as u128,
        _ => return None,
    };
    Some(r & mask(w))
}

impl Arena {
    pub fn new() -> Self {
        let empty: Rc<[u32]> = Rc::from(Vec::new());
        let mut a = Arena { nodes: vec![], map: HashMap::new(), deps: vec![], dep_intern: HashMap::new(),
            luts: vec![], lut_map: HashMap::new(), tables: HashMap::new(), ubs: vec![], memo_val: vec![], memo_gen: vec![], gen: 0, empty };
        // node 0 is a dummy so that 0 can mean "concrete"
        a.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, imm: 0 });
        a
    }
    fn push(&mut self, n: Node) -> Ex {
        if let Some(&e) = self.map.get(&n) { if e != 0 { return e; } }
        let e = self.nodes.len() as Ex;
        let d = match n.op {
            Op::Const => self.empty.clone(),
            Op::Var => self.intern(vec![n.imm as u32]),
            Op::ZExt | Op::SExt | Op::Extract | Op::Not | Op::Lut => self.deps[n.a as usize].clone(),
            Op::Ite => { let d = self.union(n.a, n.b); let c = self.deps[n.c as usize].clone(); self.union_s(d, c) }
            _ => self.union(n.a, n.b),
        };
        self.deps.push(d);
        self.memo_val.push(0);
        self.memo_gen.push(0);
        let u = self.ub_of(&n);
        self.ubs.push(u);
        self.nodes.push(n.clone());
        self.map.insert(n, e);
        e
    }
    fn intern(&mut self, v: Vec<u32>) -> Rc<[u32]> {
        if let Some(r) = self.dep_intern.get(&v) { return r.clone(); }
        let r: Rc<[u32]> = Rc::from(v.clone());
        self.dep_intern.insert(v, r.clone());
        r
    }
    fn union(&mut self, a: Ex, b: Ex) -> Rc<[u32]> {
        let (x, y) = (self.deps[a as usize].clone(), self.deps[b as usize].clone());
        self.union_s(x, y)
    }
    fn union_s(&mut self, x: Rc<[u32]>, y: Rc<[u32]>) -> Rc<[u32]> {
        if x.is_empty() || Rc::ptr_eq(&x, &y) { return y; }
        if y.is_empty() { return x; }
        let mut v: Vec<u32> = x.iter().chain(y.iter()).copied().collect();
        v.sort_unstable(); v.dedup();
        if v.len() == x.len() { return x; }
        if v.len() == y.len() { return y; }
        self.intern(v)
    }
    pub fn w(&self, e: Ex) -> u16 { self.nodes[e as usize].w }
    pub fn as_const(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.imm) } else { None }
    }
    pub fn konst(&mut self, w: u16, v: u128) -> Ex {
        let n = Node { op: Op::Const, w, a: 0, b: 0, c: 0, imm: v & mask(w) };
        if let Some(&e) = self.map.get(&n) { if e != 0 { return e; } }
        let e = self.nodes.len() as Ex;
        let d = self.empty.clone();
        self.deps.push(d); self.memo_val.push(0); self.memo_gen.push(0);
        self.ubs.push(n.imm);
        self.nodes.push(n.clone()); self.map.insert(n, e); e
    }
    pub fn var(&mut self, id: u32) -> Ex { self.push(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, imm: id as u128 }) }
    fn raw(&mut self, op: Op, w: u16, a: Ex, b: Ex) -> Ex { self.push(Node { op, w, a, b, c: 0, imm: 0 }) }

    pub fn not1(&mut self, a: Ex) -> Ex { // boolean / bitwise not
        let w = self.w(a);
        if let Some(v) = self.as_const(a) { return self.konst(w, !v); }
        let n = self.nodes[a as usize].clone();
        match n.op {
            Op::Not => return n.a,
            Op::Ult => return self.raw(Op::Ule, 1, n.b, n.a),
            Op::Ule => return self.raw(Op::Ult, 1, n.b, n.a),
            Op::Slt => return self.raw(Op::Sle, 1, n.b, n.a),
            Op::Sle => return self.raw(Op::Slt, 1, n.b, n.a),
            Op::Xor if w == 1 => {}
            _ => {}
        }
        self.push(Node { op: Op::Not, w, a, b: 0, c: 0, imm: 0 })
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if a == b { return a; }
        if let Some(v) = self.as_const(c) { return if v == 1 { a } else { b }; }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not1(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        if self.nodes[c as usize].op == Op::Not { let n = self.nodes[c as usize].a; return self.ite(n, b, a); }
        self.push(Node { op: Op::Ite, w, a: c, b: a, c: b, imm: 0 })
    }
    pub fn zext(&mut self, a: Ex, w: u16) -> Ex {
        let wa = self.w(a);
        if wa == w { return a; }
        if wa > w { return self.extract(a, 0, w); }
        if let Some(v) = self.as_const(a) { return self.konst(w, v); }
        if self.nodes[a as usize].op == Op::ZExt { let x = self.nodes[a as usize].a; return self.zext(x, w); }
        self.push(Node { op: Op::ZExt, w, a, b: 0, c: 0, imm: 0 })
    }
    pub fn sext_(&mut self, a: Ex, w: u16) -> Ex {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(v) = self.as_const(a) { return self.konst(w, sext(v, wa) as u128); }
        self.push(Node { op: Op::SExt, w, a, b: 0, c: 0, imm: 0 })
    }
    /// bits [lo, lo+w)
    pub fn extract(&mut self, a: Ex, lo: u16, w: u16) -> Ex {
        let n = self.nodes[a as usize].clone();
        if lo == 0 && w == n.w { return a; }
        match n.op {
            Op::Const => return self.konst(w, n.imm >> lo),
            Op::Extract => return self.extract(n.a, lo + n.imm as u16, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl { return self.extract(n.a, lo - wl, w); }
                if lo + w <= wl { return self.extract(n.b, lo, w); }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wa = self.w(n.a);
                if lo >= wa { return self.konst(w, 0); }
                if lo + w <= wa { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, wa - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa { return self.extract(n.a, lo, w); }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => { let x = self.extract(n.a, lo, w); return self.not1(x); }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Shl => if let Some(k) = self.as_const(n.b) {
                let k = k as u16;
                if lo >= k && k < n.w { let lo2 = lo - k; if lo2 + w <= n.w { return self.extract(n.a, lo2, w); } }
                else if lo + w <= k { return self.konst(w, 0); }
            },
            Op::LShr => if let Some(k) = self.as_const(n.b) {
                let k = k as u16;
                if k < n.w && lo + k + w <= n.w { return self.extract(n.a, lo + k, w); }
            },
            _ => {}
        }
        self.push(Node { op: Op::Extract, w, a, b: 0, c: 0, imm: lo as u128 })
    }
    pub fn concat(&mut self, hi: Ex, lo: Ex) -> Ex {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(h), Some(l)) = (self.as_const(hi), self.as_const(lo)) { return self.konst(w, (h << wl) | l); }
        if self.as_const(hi) == Some(0) { return self.zext(lo, w); }
        let (nh, nl) = (self.nodes[hi as usize].clone(), self.nodes[lo as usize].clone());
        // adjacent extracts of the same value
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.imm as u16 == nl.imm as u16 + wl {
            return self.extract(nh.a, nl.imm as u16, w);
        }
        if nh.op == Op::Extract && nh.a == lo && nh.imm as u16 == wl { return self.extract(nh.a, 0, w); }
        // zext(x) pieces: extract of upper part became const 0 -> handled; hi extract over zext'ed lo
        if nh.op == Op::ZExt && nl.op == Op::Extract {
            let inner = self.nodes[nh.a as usize].clone();
            if inner.op == Op::Extract && inner.a == nl.a && inner.imm as u16 == nl.imm as u16 + wl {
                let x = self.extract(nl.a, nl.imm as u16, wl + inner.w);
                return self.zext(x, w);
            }
        }
        // concat(h, concat(m, l)) where h,m adjacent
        if nl.op == Op::Concat {
            let m = self.nodes[nl.a as usize].clone();
            if nh.op == Op::Extract && m.op == Op::Extract && nh.a == m.a && nh.imm as u16 == m.imm as u16 + m.w {
                let hm = self.extract(nh.a, m.imm as u16, nh.w + m.w);
                return self.concat(hm, nl.b);
            }
        }
        self.raw(Op::Concat, w, hi, lo)
    }
    pub fn lut(&mut self, idx: Ex, w: u16, t: Vec<u64>) -> Ex {
        if t.iter().all(|x| *x == t[0]) { return self.konst(w, t[0] as u128); }
        if w == 8 && t.iter().enumerate().all(|(i, x)| *x == i as u64) { return idx; }
        if let Some(v) = self.as_const(idx) { return self.konst(w, t[v as usize] as u128); }
        let k = match self.lut_map.get(&t) { Some(k) => *k, None => {
            let k = self.luts.len() as u32; self.luts.push(Rc::new(t.clone())); self.lut_map.insert(t, k); k } };
        self.push(Node { op: Op::Lut, w, a: idx, b: 0, c: 0, imm: k as u128 })
    }
    /// an upper bound (inclusive) of the unsigned value
    pub fn ub(&self, e: Ex) -> u128 { self.ubs[e as usize] }
    fn ub_of(&self, n: &Node) -> u128 {
        let m = mask(n.w);
        match n.op {
            Op::Const => n.imm,
            Op::Var => 255,
            Op::ZExt => self.ub(n.a),
            Op::And => self.ub(n.a).min(self.ub(n.b)),
            Op::URem => match self.as_const(n.b) { Some(k) if k > 0 => (k - 1).min(self.ub(n.a)), _ => m },
            Op::UDiv => match self.as_const(n.b) { Some(k) if k > 0 => self.ub(n.a) / k, _ => m },
            Op::LShr => match self.as_const(n.b) { Some(k) if k < n.w as u128 => self.ub(n.a) >> k, _ => m },
            Op::Shl => match self.as_const(n.b) { Some(k) if k < n.w as u128 => { let u = self.ub(n.a); if u <= (m >> k) { u << k } else { m } }, _ => m },
            Op::Add => { let s = self.ub(n.a).saturating_add(self.ub(n.b)); if s <= m { s } else { m } }
            Op::Mul => { let s = self.ub(n.a).checked_mul(self.ub(n.b)).unwrap_or(u128::MAX); if s <= m { s } else { m } }
            Op::Ite => self.ub(n.b).max(self.ub(n.c)),
            Op::Extract if n.imm == 0 => self.ub(n.a).min(m),
            Op::Concat => { let wl = self.w(n.b); (self.ub(n.a) << wl) | mask(wl) }
            Op::Lut => self.luts[n.imm as usize].iter().copied().max().unwrap() as u128,
            _ => m,
        }
    }
    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let wa = self.w(a);
        let w = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => wa };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { let v = fold(op, w, wa, x, y).unwrap(); return self.konst(w, v); }
        // commutative: constant to the right
        let (a, b, ca, cb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq if ca.is_some() || (cb.is_none() && a > b) => (b, a, cb, ca),
            _ => (a, b, ca, cb),
        };
        let _ = ca;
        let na = self.nodes[a as usize].clone();
        let m = mask(wa);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb { if na.op == Op::Add { if let Some(k2) = self.as_const(na.b) {
                    let kk = self.konst(wa, k.wrapping_add(k2)); return self.bin(Op::Add, na.a, kk); } } }
            }
            Op::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.konst(wa, 0); }
                if let Some(k) = cb { let kk = self.konst(wa, (!k).wrapping_add(1)); return self.bin(Op::Add, a, kk); }
            }
            Op::Mul => { if cb == Some(0) { return b; } if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.konst(wa, k.trailing_zeros() as u128); return self.bin(Op::Shl, a, s); } } }
            Op::UDiv => { if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.konst(wa, k.trailing_zeros() as u128); return self.bin(Op::LShr, a, s); }
                    if k != 0 && self.ub(a) < k { return self.konst(wa, 0); } } }
            Op::URem => {
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.konst(wa, k - 1); return self.bin(Op::And, a, s); }
                    if k != 0 && self.ub(a) < k { return a; } } }
            Op::And => {
                if cb == Some(0) { return b; } if cb == Some(m) || a == b { return a; }
                if let Some(k) = cb {
                    if na.op == Op::And { if let Some(k2) = self.as_const(na.b) { let kk = self.konst(wa, k & k2); return self.bin(Op::And, na.a, kk); } }
                    // low mask = zext(extract)
                    if (k + 1).is_power_of_two() && k != 0 { let nb = (k + 1).trailing_zeros() as u16; let x = self.extract(a, 0, nb); return self.zext(x, wa); }
                    if na.op == Op::ZExt { let wi = self.w(na.a); let kk = self.konst(wi, k); let x = self.bin(Op::And, na.a, kk); return self.zext(x, wa); }
                    if na.op == Op::Concat { let wl = self.w(na.b);
                        let kh = self.konst(wa - wl, k >> wl); let kl = self.konst(wl, k);
                        let h = self.bin(Op::And, na.a, kh); let l = self.bin(Op::And, na.b, kl); return self.concat(h, l); }
                }
                if w == 1 { let nota = self.not1(a); if nota == b { return self.konst(1, 0); } }
            }
            Op::Or => {
                if cb == Some(0) || a == b { return a; } if cb == Some(m) { return b; }
                if w == 1 { let nota = self.not1(a); if nota == b { return self.konst(1, 1); } }
                // disjoint shl/zext -> concat
                let nb = self.nodes[b as usize].clone();
                for (x, nx, y) in [(a, &na, b), (b, &nb, a)] {
                    let _ = x;
                    if nx.op == Op::Shl { if let Some(k) = self.as_const(nx.b) { let k = k as u16;
                        if k > 0 && k < wa && self.ub(y) <= mask(k) {
                            let h = self.extract(nx.a, 0, wa - k); let l = self.extract(y, 0, k); return self.concat(h, l); } } }
                    if nx.op == Op::Concat && self.as_const(nx.b) == Some(0) {
                        let k = self.w(nx.b);
                        if self.ub(y) <= mask(k) { let l = self.extract(y, 0, k); return self.concat(nx.a, l); } }
                }
            }
            Op::Xor => {
                if cb == Some(0) { return a; } if a == b { return self.konst(wa, 0); }
                if cb == Some(m) { return self.not1(a); }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb {
                    if k >= wa as u128 && op != Op::AShr { return self.konst(wa, 0); }
                    if k < wa as u128 {
                        let k = k as u16;
                        if op == Op::LShr { let x = self.extract(a, k, wa - k); return self.zext(x, wa); }
                        if op == Op::Shl { let x = self.extract(a, 0, wa - k); let z = self.konst(k, 0); return self.concat(x, z); }
                    }
                }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                if let Some(k) = cb {
                    if wa == 1 { return if k == 1 { a } else { self.not1(a) }; }
                    match na.op {
                        Op::ZExt => { let wi = self.w(na.a); if k > mask(wi) { return self.konst(1, 0); }
                            let kk = self.konst(wi, k); return self.bin(Op::Eq, na.a, kk); }
                        Op::SExt => { let wi = self.w(na.a); let t = k & mask(wi); if (sext(t, wi) as u128) & m != k { return self.konst(1, 0); }
                            let kk = self.konst(wi, t); return self.bin(Op::Eq, na.a, kk); }
                        Op::Concat => { let wl = self.w(na.b);
                            let kl = self.konst(wl, k); let kh = self.konst(wa - wl, k >> wl);
                            let x = self.bin(Op::Eq, na.a, kh); let y = self.bin(Op::Eq, na.b, kl); return self.bin(Op::And, x, y); }
                        Op::Add => if let Some(k2) = self.as_const(na.b) { let kk = self.konst(wa, k.wrapping_sub(k2)); return self.bin(Op::Eq, na.a, kk); },
                        Op::Xor => if let Some(k2) = self.as_const(na.b) { let kk = self.konst(wa, k ^ k2); return self.bin(Op::Eq, na.a, kk); },
                        Op::Not => { let kk = self.konst(wa, !k); return self.bin(Op::Eq, na.a, kk); }
                        Op::Ite => {
                            let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                            if x.is_some() || y.is_some() {
                                let kk = self.konst(wa, k);
                                let ex = self.bin(Op::Eq, na.b, kk); let ey = self.bin(Op::Eq, na.c, kk);
                                return self.ite(na.a, ex, ey);
                            }
                        }
                        _ => {}
                    }
                    if k > self.ub(a) { return self.konst(1, 0); }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.konst(1, (op == Op::Ule) as u128); }
                if let Some(k) = cb {
                    if op == Op::Ult && k == 0 { return self.konst(1, 0); }
                    if op == Op::Ule && k == m { return self.konst(1, 1); }
                    let u = self.ub(a);
                    if (op == Op::Ult && u < k) || (op == Op::Ule && u <= k) { return self.konst(1, 1); }
                    if na.op == Op::ZExt { let wi = self.w(na.a); let kk = self.konst(wi, k); return self.bin(op, na.a, kk); }
                    if op == Op::Ult && k == 1 { let z = self.konst(wa, 0); return self.bin(Op::Eq, a, z); }
                    if op == Op::Ule && k == 0 { return self.bin(Op::Eq, a, b); }
                }
                if let Some(k) = ca {
                    if op == Op::Ult && k == m { return self.konst(1, 0); }
                    if op == Op::Ule && k == 0 { return self.konst(1, 1); }
                    let u = self.ub(b);
                    if (op == Op::Ult && k >= u) || (op == Op::Ule && k > u) { return self.konst(1, 0); }
                    let nb = self.nodes[b as usize].clone();
                    if nb.op == Op::ZExt { let wi = self.w(nb.a); let kk = self.konst(wi, k); return self.bin(op, kk, nb.a); }
                    if op == Op::Ult && k == 0 { let e = self.bin(Op::Eq, b, a); return self.not1(e); }
                }
                let nb = self.nodes[b as usize].clone();
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(op, na.a, nb.a); }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.konst(1, (op == Op::Sle) as u128); }
                // both non-negative: unsigned
                let half = m >> 1;
                if self.ub(a) <= half && self.ub(b) <= half { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                if cb == Some(0) && op == Op::Slt { return self.extract(a, wa - 1, 1); }
            }
            _ => {}
        }
        self.raw(op, w, a, b)
    }

    /// value under an assignment of the byte variables
    pub fn eval(&mut self, e: Ex, model: &[u8]) -> u128 {
        self.gen += 1;
        if self.gen == u32::MAX { self.gen = 1; self.memo_gen.iter_mut().for_each(|g| *g = 0); }
        self.ev(e, model)
    }
    fn ev(&mut self, e: Ex, model: &[u8]) -> u128 {
        let i = e as usize;
        let (op, w, a, b, c, imm) = { let n = &self.nodes[i]; (n.op, n.w, n.a, n.b, n.c, n.imm) };
        match op { Op::Const => return imm, Op::Var => return *model.get(imm as usize).unwrap_or(&0) as u128, _ => {} }
        if self.memo_gen[i] == self.gen { return self.memo_val[i]; }
        let v = match op {
            Op::Ite => if self.ev(a, model) == 1 { self.ev(b, model) } else { self.ev(c, model) },
            Op::Concat => { let h = self.ev(a, model); let l = self.ev(b, model); (h << self.w(b)) | l }
            Op::Extract => (self.ev(a, model) >> imm) & mask(w),
            Op::ZExt => self.ev(a, model),
            Op::SExt => { let wa = self.w(a); sext(self.ev(a, model), wa) as u128 & mask(w) }
            Op::Not => !self.ev(a, model) & mask(w),
            Op::Lut => { let k = self.ev(a, model); self.luts[imm as usize][k as usize] as u128 }
            _ => { let x = self.ev(a, model); let y = self.ev(b, model); fold(op, w, self.w(a), x, y).unwrap() }
        };
        self.memo_gen[i] = self.gen;
        self.memo_val[i] = v;
        v
    }
    /// all 256 values of an expression that depends on one variable only
    pub fn table(&mut self, e: Ex) -> Rc<Vec<u128>> {
        if let Some(t) = self.tables.get(&e) { return t.clone(); }
        let n = self.nodes[e as usize].clone();
        let t: Vec<u128> = match n.op {
            Op::Const => vec![n.imm; 256],
            Op::Var => (0..256u128).collect(),
            Op::Ite => { let (c, x, y) = (self.table(n.a), self.table(n.b), self.table(n.c)); (0..256).map(|i| if c[i] == 1 { x[i] } else { y[i] }).collect() }
            Op::Concat => { let (x, y) = (self.table(n.a), self.table(n.b)); let wl = self.w(n.b); (0..256).map(|i| (x[i] << wl) | y[i]).collect() }
            Op::Extract => { let x = self.table(n.a); (0..256).map(|i| (x[i] >> n.imm) & mask(n.w)).collect() }
            Op::ZExt => return self.table(n.a),
            Op::SExt => { let x = self.table(n.a); let wa = self.w(n.a); (0..256).map(|i| sext(x[i], wa) as u128 & mask(n.w)).collect() }
            Op::Not => { let x = self.table(n.a); (0..256).map(|i| !x[i] & mask(n.w)).collect() }
            Op::Lut => { let x = self.table(n.a); let l = self.luts[n.imm as usize].clone(); (0..256).map(|i| l[x[i] as usize] as u128).collect() }
            _ => { let (x, y) = (self.table(n.a), self.table(n.b)); let wa = self.w(n.a); (0..256).map(|i| fold(n.op, n.w, wa, x[i], y[i]).unwrap()).collect() }
        };
        let t = Rc::new(t);
        self.tables.insert(e, t.clone());
        t
    }
}
