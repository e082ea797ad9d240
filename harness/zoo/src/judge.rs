//! Documents for a type are built from its template with a bounded number of changes; what the zod schema,
//! the TypeScript type and serde say about them has to agree.
use mz::{norm_ty, Env, Mem, Ty, Z};
use serde_json::{Map, Value};
use zod::{InlinedType, NamespaceMemberDefinition, TsTypeDef, ZodType};

/// what a document of a type looks like
pub enum Tm {
    /// a byte, a text, a boolean, an optional byte, null, a fixed text
    N, S, B, ON, Null, Lit(&'static str),
    /// an object; one that must not have other keys
    O(&'static [(&'static str, Tm)]), X(&'static [(&'static str, Tm)]),
    /// a fixed array, a list, a map
    A(&'static [Tm]), L(&'static Tm), M(&'static Tm),
    /// may be missing; may be null for serde
    D(&'static Tm), Opt(&'static Tm),
    /// not changed inside
    R(&'static Tm),
}
use Tm::*;
pub struct Key { pub key: &'static str, pub zt: fn() -> (Z, Ty), pub default: bool, pub opt: bool }
pub struct Case {
    pub name: &'static str, pub zt: fn() -> (String, String, bool), pub used: fn() -> (Z, Ty), pub exported: &'static str, pub reads: fn(&Value) -> bool,
    pub docs: &'static [Tm], pub lens: &'static [usize], pub keys: Option<&'static [Key]>, pub tag: Option<&'static str>,
}
pub fn full<T: ZodType>() -> (String, String, bool) {
    let (t, i) = match T::type_def() { TsTypeDef::Interface(s) => (s, true), TsTypeDef::Type(s) => (s, false) };
    (T::schema(), t, i)
}
pub fn zt<T: ZodType>() -> (Z, Ty) { (mz::schema(&T::inline_schema()), norm_ty(&mz::ty(&T::inline().to_string()))) }
pub fn inline_kind<T: ZodType>() -> InlinedType { T::inline() }
pub fn reads<T: serde::de::DeserializeOwned>(v: &Value) -> bool { serde_json::from_value::<T>(v.clone()).is_ok() }

pub fn definitions() -> Vec<&'static NamespaceMemberDefinition> { zod::__private::inventory::iter::<NamespaceMemberDefinition>().collect() }
/// the names that are exported
pub struct Exports;
pub fn lookup(ns: &str, name: &str) -> Option<&'static NamespaceMemberDefinition> {
    let mut found = None;
    for d in zod::__private::inventory::iter::<NamespaceMemberDefinition>() {
        if d.namespace() == ns && d.name() == name { zs::check(found.is_none(), "a name is exported twice"); found = Some(d) }
    }
    found
}
impl Env for Exports {
    fn schema(&self, ns: &str, name: &str) -> Option<Z> { lookup(ns, name).map(|d| mz::schema(&d.schema())) }
    fn ty(&self, ns: &str, name: &str) -> Option<Ty> { lookup(ns, name).map(|d| def_ty(&d.type_def())) }
}
/// the type of a definition; only an object can follow `export interface X`
pub fn def_ty(d: &TsTypeDef) -> Ty {
    match d {
        TsTypeDef::Interface(s) => { let t = mz::ty(s); zs::check(s.starts_with('{') && matches!(t, Ty::Obj(_)), "an interface that is no object"); t }
        TsTypeDef::Type(s) => mz::ty(s),
    }
}

// ---- documents
struct Build { sites: Vec<usize>, at: usize, lens: &'static [usize], changed: usize, content: u8, units: Vec<(&'static str, bool)>, arrays: bool }
fn other(n: usize, b: &Build) -> Value {
    match n { 0 => Value::Bool(true), 1 => Value::Object(Map::new()), 2 => Value::String(text(b)), 3 => Value::Number(7u8.into()), 4 => Value::Array(vec![]), _ => Value::Null }
}
fn text(b: &Build) -> String { let n = if b.lens.is_empty() { 1 } else { b.lens[zs::choice(b.lens.len())] }; let mut s = String::from_utf8(zs::bytes(n, 32, 126)).unwrap(); s.shrink_to_fit(); s }
impl Build {
    /// is this the place of a change?
    fn here(&mut self) -> bool { let h = self.sites.contains(&self.at); self.at += 1; h }
    /// a value of another kind than the template wants; none where serde is more lenient than what is documented
    fn wrong(&mut self, t: &Tm) -> Value {
        self.changed += 1;
        let k: &[usize] = match t {
            N => &[0, 1, 2, 5], S => &[0, 1, 3, 5], B => &[1, 2, 3, 5], ON => &[0, 1, 2], Null => &[0, 1, 2, 3], Lit(_) => &[0, 1, 2, 5],
            O(_) | X(_) | M(_) => &[0, 2, 3, 5], A(_) | L(_) => &[0, 1, 2, 3, 5], D(t) | R(t) => return self.wrong(t), Opt(_) => &[0, 2, 3],
        };
        let k = k[zs::choice(k.len())];
        // serde quotes a text it does not want, which is not worth following
        let external = match t { Lit(_) => true, X([(_, t)]) => !matches!(t, Lit(_)), _ => false };
        if k == 2 && !external { return Value::String("~".into()) }
        let v = other(k, self);
        // content that a unit variant does not have is ignored by zod and rejected by serde; serde takes an array for a struct
        if let (Value::String(s), true) = (&v, self.content > 0) { zs::assume(!self.units.iter().any(|u| (u.1 || self.content == 2) && u.0 == s)) }
        v
    }
    /// None: the place is left out
    fn value(&mut self, t: &Tm) -> Option<Value> {
        if let Opt(u) = t { if !self.sites.contains(&self.at) { return self.value(u) } }
        if self.here() {
            if let L(u) = t { if zs::flag() {
                // another length
                self.at += count(u, self.arrays);
                let mut a = vec![];
                for _ in 0..2 * zs::choice(2) { let at = self.at; self.at = usize::MAX / 2; if let Some(v) = self.value(u) { a.push(v) } self.at = at }
                return Some(Value::Array(a));
            } }
            if let D(_) = t { if zs::flag() { return None } }
            // an external variant is an object with one key or a text, an empty object is not one either
            return Some(self.wrong(t));
        }
        Some(match t {
            N => Value::Number(zs::byte(0, 255).into()), S => Value::String(String::from_utf8(zs::bytes(2, 32, 126)).unwrap()), B => Value::Bool(true), ON => Value::Number(5u8.into()), Null => Value::Null,
            Lit(s) => Value::String(s.to_string()),
            O(f) | X(f) => {
                let mut o = Map::new();
                let only = matches!(t, X(_));
                for (k, t) in f.iter() {
                    if self.here() {
                        self.changed += 1;
                        if zs::flag() { continue }
                        let k = if zs::param(2) == 1 { text(self) } else { String::from_utf8(zs::bytes(k.len(), 32, 126)).unwrap() };
                        zs::assume(!f.iter().any(|x| x.0 == k));
                        if only && matches!(t, A(_) | L(_)) { zs::assume(!self.units.iter().any(|u| u.0 == k)) }
                        if let Some(v) = self.value(t) { o.insert(k, v); }
                        continue;
                    }
                    self.content = if !only || f.len() < 2 { 0 } else if matches!(f[1].1, A(_) | L(_)) { 2 } else { 1 };
                    if let Some(v) = self.value(t) { o.insert(k.to_string(), v); }
                    self.content = 0;
                }
                if !matches!(t, X(_)) && self.here() {
                    let k = text(self);
                    if !f.iter().any(|x| x.0 == k) { o.insert(k, if zs::flag() { Value::Bool(true) } else { Value::Number(7u8.into()) }); }
                }
                Value::Object(o)
            }
            A(v) => {
                let mut a = vec![];
                for t in v.iter() { match self.value(t) { Some(v) => a.push(v), None => break } }
                if self.arrays && self.here() { self.changed += 1; if !matches!(v.last(), Some(ON | Opt(_))) && zs::flag() { a.pop(); } else { a.push(other(zs::choice(4), self)) } }
                Value::Array(a)
            }
            L(t) => {
                let mut a = vec![];
                if let Some(v) = self.value(t) { a.push(v) }
                Value::Array(a)
            }
            M(t) => { let mut o = Map::new(); if let Some(v) = self.value(t) { o.insert("k".into(), v); } Value::Object(o) }
            D(t) | Opt(t) => return self.value(t),
            R(t) => { let at = self.at; self.at = usize::MAX / 2; let v = self.value(t); self.at = at; return v }
        })
    }
}
fn count(t: &Tm, arrays: bool) -> usize {
    1 + match t {
        O(f) => 1 + f.iter().map(|x| 1 + count(&x.1, arrays)).sum::<usize>(), X(f) => f.iter().map(|x| 1 + count(&x.1, arrays)).sum(),
        A(v) => arrays as usize + v.iter().map(|t| count(t, arrays)).sum::<usize>(), L(t) | M(t) | D(t) => count(t, arrays), Opt(t) => return count(t, arrays), _ => 0,
    }
}
/// the names of the variants, and whether they are without content
fn units(docs: &'static [Tm]) -> Vec<(&'static str, bool)> { docs.iter().filter_map(|t| match t { X([(_, Lit(s)), rest @ ..]) => Some((*s, rest.is_empty())), X([(k, _)]) => Some((*k, false)), _ => None }).collect() }
fn document(t: &Tm, lens: &'static [usize], units: Vec<(&'static str, bool)>, changes: usize, arrays: bool) -> (Value, bool) {
    let n = count(t, arrays);
    let mut sites = vec![];
    for _ in 0..changes { let s = zs::choice((n + 1).min(250)); if s == n || sites.contains(&s) { break } if sites.last().map_or(false, |l| *l > s) { zs::assume(false) } sites.push(s) }
    let mut b = Build { sites, at: 0, lens, changed: 0, content: 0, units, arrays };
    let v = b.value(t).unwrap_or(Value::Null);
    (v, b.sites.is_empty())
}
pub fn pick(n: usize) -> usize { if n <= 200 { zs::choice(n) } else { let k = zs::choice((n + 99) / 100); let i = k * 100 + zs::choice(100); zs::assume(i < n); i } }

/// zod, serde and TypeScript agree about every document
pub fn agree(c: &Case, changes: usize) {
    let (s, t, interface) = (c.zt)();
    let z = mz::schema(&s);
    let ty = def_ty(&if interface { TsTypeDef::Interface(t) } else { TsTypeDef::Type(t) });
    let untagged = c.docs.len() > 1 && c.docs.iter().any(|t| matches!(t, A(_) | N | L(_) | Null)) && !c.docs.iter().any(|t| matches!(t, X(_)));
    let t = &c.docs[zs::choice(c.docs.len())];
    let (v, pristine) = document(t, c.lens, units(c.docs), changes, !untagged);
    compare(c.name, &z, &ty, c.reads, &v, pristine);
}
pub fn compare(name: &str, z: &Z, ty: &Ty, reads: fn(&Value) -> bool, v: &Value, pristine: bool) {
    let (serde, zod, ts) = (reads(v), z.accepts(Some(v), &Exports, false), ty.admits(Some(v), &Exports));
    if pristine { zs::cover(1); zs::check(serde, "harness: the template is not what serde reads") }
    if !serde { zs::cover(2) }
    if serde && !zod { zs::fail(&format!("{name}: the schema rejects what serde reads")) }
    if !serde && zod { zs::fail(&format!("{name}: the schema accepts what serde does not read")) }
    let coarse = z.accepts(Some(v), &Exports, true);
    if coarse != ts { zs::fail(&format!("{name}: the type does not describe the same values as the schema")) }
}
/// D01, D02: the keys, in order, each with its own reference
pub fn keys(c: &Case) {
    let Some(keys) = c.keys else { return };
    let (s, t, _) = (c.zt)();
    let (z, t) = (mz::schema(&s), mz::ty(&t));
    let (Z::Obj(f, x), Ty::Obj(m)) = (&z, &t) else { zs::fail(&format!("{}: a struct is not described as an object", c.name)) };
    zs::check(x.is_empty(), "a struct is extended by something");
    zs::check(f.len() == keys.len() && m.len() == keys.len(), "an object has too many or too few keys");
    for ((k, f), m) in keys.iter().zip(f).zip(m) {
        zs::cover(1);
        let (kz, kt) = (k.zt)();
        zs::check(f.0 == k.key && m.key == k.key, "a key has another name, or is in another place");
        let want = match (k.default, kz) { (true, Z::Opt(z)) => Z::Opt(z), (true, z) => Z::Opt(Box::new(z)), (false, z) => z };
        if f.1 != want { zs::fail(&format!("{}.{}: another schema than that of the field", c.name, k.key)) }
        let want = match k.default { true => norm_ty(&Ty::Union(vec![kt, Ty::Prim("undefined".into())])), false => kt };
        if norm_ty(&m.ty) != want { zs::fail(&format!("{}.{}: another type than that of the field", c.name, k.key)) }
        if k.default { zs::cover(2); zs::check(m.opt, "a member with a default is not optional as a key") }
        else if !k.opt { zs::check(!m.opt, "a member without a default is optional") }
    }
}
/// D03: one option per variant, in order, discriminated where possible
pub fn options(c: &Case) {
    let (s, t, _) = (c.zt)();
    let (z, t) = (mz::schema(&s), mz::ty(&t));
    let zs_: Vec<Z> = match z {
        Z::Union(v) => { zs::check(c.tag.is_none(), "a tagged enum is not described as a discriminated union"); v }
        Z::DUnion(d, v) => { if let Some(t) = c.tag { zs::check(d == t, "a union discriminated by something else than the tag") } v }
        z => vec![z],
    };
    let ts: Vec<Ty> = match t { Ty::Union(v) => v, t => vec![t] };
    zs::check(zs_.len() == c.docs.len() && ts.len() == c.docs.len(), "an enum is described by too many or too few variants");
    for (i, t) in c.docs.iter().enumerate() {
        zs::cover(1);
        let (v, _) = document(t, c.lens, vec![], 0, false);
        if !zs_[i].accepts(Some(&v), &Exports, false) || !ts[i].admits(Some(&v), &Exports) { zs::fail(&format!("{}: variant {i} is described by something else, or in another place", c.name)) }
    }
}
/// D05: the reference is the exported name
pub fn reference(name: &str, exported: &str, ns: &str, used: (Z, Ty), full: (String, String, bool)) {
    zs::cover(1);
    if used.0 != Z::Ref(ns.into(), exported.into()) { zs::fail(&format!("{name}: the schema reference is not the exported name")) }
    if used.1 != Ty::Ref(ns.into(), exported.into()) { zs::fail(&format!("{name}: the type reference is not the exported name")) }
    let Some(d) = lookup(ns, exported) else { zs::fail(&format!("{name} is not exported")) };
    let same = d.schema() == full.0 && match d.type_def() { TsTypeDef::Interface(s) => full.2 && s == full.1, TsTypeDef::Type(s) => !full.2 && s == full.1 };
    if !same { zs::fail(&format!("{name}: something else is exported under its name")) }
}
/// S04: outside of an arrow function only names that are declared before may be used, and nothing is
pub fn lazy(e: &mz::Ex) -> bool {
    use mz::Ex;
    match e {
        Ex::Arrow(..) => true,
        Ex::Mem(o, _) => match o.as_ref() { Ex::Id(n) => n == "z", o => lazy(o) },
        Ex::Call(f, a) => lazy(f) && a.iter().all(lazy),
        Ex::Arr(v) => v.iter().all(lazy), Ex::Obj(v) => v.iter().all(|x| lazy(&x.1)), Ex::Spread(x) => lazy(x),
        _ => true,
    }
}
pub fn mem(key: &str, opt: bool, ty: Ty) -> Mem { Mem { key: key.into(), opt, ty } }
