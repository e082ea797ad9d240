//! which JSON values a TypeScript type admits
use crate::{parse::{Mem, Ty}, Env};
use serde_json::Value;
impl Ty {
    pub fn admits(&self, v: Option<&Value>, env: &dyn Env) -> bool {
        match self {
            Ty::Union(u) => return u.iter().any(|t| t.admits(v, env)),
            Ty::Inter(u) => return u.iter().all(|t| t.admits(v, env)),
            Ty::Ref(ns, n) => { let Some(t) = env.ty(ns, n) else { zs::fail(&format!("reference to the type {ns}.{n}, which is not exported")) }; return t.admits(v, env) }
            Ty::Prim(p) if p == "undefined" => return v.is_none(),
            Ty::Prim(p) if p == "any" || p == "unknown" => return true,
            _ => {}
        }
        let Some(v) = v else { return false };
        match (self, v) {
            (Ty::Prim(p), v) => match (p.as_str(), v) {
                ("number", Value::Number(_)) | ("string", Value::String(_)) | ("boolean", Value::Bool(_)) | ("null", Value::Null) => true,
                ("number" | "string" | "boolean" | "null", _) => false,
                _ => zs::fail(&format!("unknown type {p}")),
            },
            (Ty::Lit(l), Value::String(s)) => l == s,
            (Ty::Num(l), Value::Number(n)) => l.parse::<f64>().ok() == n.as_f64(),
            (Ty::Gen(g, a), v) => match (g.as_str(), a.as_slice(), v) {
                ("Array" | "Set" | "ReadonlyArray", [t], Value::Array(x)) => x.iter().all(|y| t.admits(Some(y), env)),
                ("Map" | "Record", [k, t], Value::Object(o)) => o.iter().all(|(n, x)| key(k, n, env) && t.admits(Some(x), env)),
                ("Array" | "Set" | "ReadonlyArray", [_], _) | ("Map" | "Record", [_, _], _) => false,
                _ => zs::fail(&format!("unknown type {g}<>")),
            },
            (Ty::Tuple(t), Value::Array(a)) => a.len() <= t.len() && t.iter().enumerate().all(|(i, t)| t.admits(a.get(i), env)),
            (Ty::Obj(m), Value::Object(o)) => m.iter().all(|Mem { key, opt, ty }| match o.get(key) { None => *opt || ty.admits(None, env), x => ty.admits(x, env) }),
            _ => false,
        }
    }
    pub fn walk(&self, f: &mut dyn FnMut(&Ty)) {
        f(self);
        match self {
            Ty::Gen(_, v) | Ty::Tuple(v) | Ty::Union(v) | Ty::Inter(v) => for t in v { t.walk(f) },
            Ty::Obj(m) => for t in m { t.ty.walk(f) },
            _ => {}
        }
    }
}
fn key(k: &Ty, n: &str, env: &dyn Env) -> bool {
    match k {
        Ty::Prim(p) if p == "number" => serde_json::from_str::<serde_json::Number>(n).is_ok(),
        Ty::Prim(p) if p == "boolean" => n == "true" || n == "false",
        k => k.admits(Some(&Value::String(n.to_string())), env),
    }
}
