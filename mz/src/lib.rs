//! Reads the TypeScript that zod generates: zod expressions, types and declarations, and says which JSON
//! values a schema or a type admits. Sets and maps are read as what they are on the wire (array, object).
pub mod parse;
pub mod zod;
pub mod ty;
pub mod re;
pub mod module;
pub use parse::{Ex, Ty, Mem};
pub use zod::{Z, NumC, StrC, NumVal};

/// what `ns.name` stands for
pub trait Env { fn schema(&self, ns: &str, name: &str) -> Option<Z>; fn ty(&self, ns: &str, name: &str) -> Option<Ty>; }
pub struct NoEnv;
impl Env for NoEnv { fn schema(&self, _: &str, _: &str) -> Option<Z> { None } fn ty(&self, _: &str, _: &str) -> Option<Ty> { None } }

/// parses a schema; the path ends in a violation if it is not one
pub fn schema(s: &str) -> Z {
    let e = match parse::expr_all(s) { Ok(e) => e, Err(m) => zs::fail(&format!("the schema is not well-formed: {m} in {s}")) };
    match zod::lower(&e) { Ok(z) => z, Err(zod::Bad::Wrong(m)) => zs::fail(&format!("not a zod schema: {m} in {s}")), Err(zod::Bad::Unsupported(m)) => zs::unsupported(&format!("{m} in {s}")) }
}
pub fn ty(s: &str) -> Ty {
    match parse::type_all(s) { Ok(e) => e, Err(m) => zs::fail(&format!("the type is not well-formed: {m} in {s}")) }
}
/// same meaning: unions are flat and without duplicates, optional wraps once
pub fn norm_ty(t: &Ty) -> Ty {
    match t {
        Ty::Union(v) => {
            let mut o: Vec<Ty> = vec![];
            for x in v { match norm_ty(x) { Ty::Union(u) => for y in u { if !o.contains(&y) { o.push(y) } }, y => if !o.contains(&y) { o.push(y) } } }
            if o.len() == 1 { o.pop().unwrap() } else { Ty::Union(o) }
        }
        Ty::Inter(v) => Ty::Inter(v.iter().map(norm_ty).collect()),
        Ty::Tuple(v) => Ty::Tuple(v.iter().map(norm_ty).collect()),
        Ty::Gen(n, v) => Ty::Gen(n.clone(), v.iter().map(norm_ty).collect()),
        Ty::Obj(m) => Ty::Obj(m.iter().map(|m| Mem { key: m.key.clone(), opt: m.opt, ty: norm_ty(&m.ty) }).collect()),
        t => t.clone(),
    }
}
