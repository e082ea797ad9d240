//! zod schemas
use crate::{parse::Ex, re::Re, Env};
use serde_json::Value;
#[derive(Clone, Debug, PartialEq)]
pub enum NumC { Int, Finite, Ge(bool, u128), Gt(bool, u128), Le(bool, u128), Lt(bool, u128) }
#[derive(Clone, Debug, PartialEq)]
pub enum StrC { Min(usize), Max(usize), Len(usize), Re(String, String), Ip(u8) }
#[derive(Clone, Debug, PartialEq)]
pub enum Z {
    Str(Vec<StrC>), Num(Vec<NumC>), Bool, Null, Undef, Any, Lit(String), LitNum(String), LitBool(bool),
    Arr(Box<Z>), Set(Box<Z>), Map(Box<Z>, Box<Z>), Tuple(Vec<Z>), Obj(Vec<(String, Z)>, Vec<Z>), Union(Vec<Z>), DUnion(String, Vec<Z>),
    Opt(Box<Z>), Nullable(Box<Z>), Ref(String, String), And(Box<Z>, Box<Z>),
}
pub enum Bad { Wrong(String), Unsupported(String) }
type R<T> = Result<T, Bad>;
fn wrong<T>(s: impl Into<String>) -> R<T> { Err(Bad::Wrong(s.into())) }
fn unsup<T>(s: impl Into<String>) -> R<T> { Err(Bad::Unsupported(s.into())) }
/// methods and functions zod has besides those known here
const OTHER: &[&str] = &["brand", "catch", "default", "describe", "pipe", "promise", "refine", "superRefine", "transform", "safe", "step", "multipleOf", "datetime", "email", "url", "uuid", "cuid", "trim", "startsWith", "endsWith", "includes", "nonempty", "rest", "catchall", "deepPartial", "partial", "required", "pick", "omit", "keyof", "bigint", "date", "symbol", "never", "void", "nan", "record", "function", "instanceof", "intersection", "nativeEnum", "enum", "preprocess", "custom", "unknown", "toLowerCase", "toUpperCase", "readonly", "setKey", "coerce"];
fn dec(s: &str) -> R<(bool, u128)> {
    let (neg, d) = match s.strip_prefix('-') { Some(d) => (true, d), None => (false, s) };
    // other notations stand for the nearest double
    if d.bytes().any(|b| !b.is_ascii_digit()) {
        return match d.replace('_', "").parse::<f64>() {
            Ok(f) if f.fract() == 0.0 && f < u128::MAX as f64 => Ok((neg && f != 0.0, f as u128)),
            _ => unsup(format!("limit {s}")),
        };
    }
    match d.parse::<u128>() { Ok(n) => Ok((neg && n != 0, n)), Err(_) => unsup(format!("limit {s}")) }
}
fn limit(a: &[Ex]) -> R<(bool, u128)> { match a { [Ex::Num(n)] | [Ex::Num(n), _] => dec(n), _ => wrong("a limit that is no number") } }
fn size(a: &[Ex]) -> R<usize> { let (neg, n) = limit(a)?; if neg { return wrong("negative length") } Ok(n as usize) }
fn arr(a: &[Ex]) -> R<Vec<Z>> { match a { [Ex::Arr(v)] => v.iter().map(lower).collect(), _ => wrong("expected an array of schemas") } }
fn obj(a: &[Ex]) -> R<Vec<(String, Z)>> { match a { [Ex::Obj(v)] => v.iter().map(|(k, e)| Ok((k.clone(), lower(e)?))).collect(), _ => wrong("expected an object of schemas") } }
fn one(a: &[Ex]) -> R<Box<Z>> { match a { [e] => Ok(Box::new(lower(e)?)), _ => wrong("expected one schema") } }
fn none(a: &[Ex]) -> R<()> { match a { [] | [Ex::Str(_)] | [Ex::Obj(_)] => Ok(()), _ => wrong("unexpected arguments") } }
pub fn lower(e: &Ex) -> R<Z> {
    match e {
        Ex::Mem(o, n) => match o.as_ref() { Ex::Id(ns) if ns != "z" => Ok(Z::Ref(ns.clone(), n.clone())), _ => wrong(format!("{n} is not called")) },
        Ex::Call(f, a) => {
            let Ex::Mem(o, m) = f.as_ref() else { return wrong("call of something else than a method") };
            if matches!(o.as_ref(), Ex::Id(z) if z == "z") {
                Ok(match m.as_str() {
                    "string" => { none(a)?; Z::Str(vec![]) } "number" => { none(a)?; Z::Num(vec![]) } "boolean" => { none(a)?; Z::Bool }
                    "null" => { none(a)?; Z::Null } "undefined" => { none(a)?; Z::Undef } "any" | "unknown" => { none(a)?; Z::Any }
                    "literal" => match a.as_slice() { [Ex::Str(s)] => Z::Lit(s.clone()), [Ex::Num(n)] => Z::LitNum(n.clone()), [Ex::Id(b)] if b == "null" => Z::Null, [Ex::Id(b)] if b == "true" || b == "false" => Z::LitBool(b == "true"), _ => return wrong("literal of something else") },
                    "array" => Z::Arr(one(a)?), "set" => Z::Set(one(a)?), "optional" => Z::Opt(one(a)?), "nullable" => Z::Nullable(one(a)?),
                    "map" => match a.as_slice() { [k, v] => Z::Map(Box::new(lower(k)?), Box::new(lower(v)?)), _ => return wrong("map needs two schemas") },
                    "tuple" => Z::Tuple(arr(a)?),
                    "object" | "strictObject" => Z::Obj(obj(a)?, vec![]),
                    "union" => { let v = arr(a)?; if v.len() < 2 { return wrong("union of less than two") } Z::Union(v) }
                    "discriminatedUnion" => match a.as_slice() { [Ex::Str(d), r] => Z::DUnion(d.clone(), arr(std::slice::from_ref(r))?), _ => return wrong("discriminatedUnion needs a key and schemas") },
                    "intersection" => match a.as_slice() { [k, v] => Z::And(Box::new(lower(k)?), Box::new(lower(v)?)), _ => return wrong("intersection needs two schemas") },
                    "lazy" => match a.as_slice() { [Ex::Arrow(p, b)] if p.is_empty() => lower(b)?, _ => return wrong("lazy needs a function") },
                    m if OTHER.contains(&m) => return unsup(format!("z.{m}")),
                    m => return wrong(format!("there is no z.{m}")),
                })
            } else {
                let b = lower(o)?;
                Ok(match (b, m.as_str()) {
                    (b, "optional") => { none(a)?; match b { Z::Opt(x) => Z::Opt(x), b => Z::Opt(Box::new(b)) } }
                    (b, "nullable") => { none(a)?; Z::Nullable(Box::new(b)) }
                    (b, "nullish") => { none(a)?; Z::Opt(Box::new(Z::Nullable(Box::new(b)))) }
                    (b, "array") => { none(a)?; Z::Arr(Box::new(b)) }
                    (b, "and") => Z::And(Box::new(b), one(a)?),
                    (b, "or") => Z::Union(vec![b, *one(a)?]),
                    (b, "describe") => b,
                    (Z::Num(mut c), m) => {
                        match m {
                            "int" => c.push(NumC::Int), "finite" => c.push(NumC::Finite),
                            "nonnegative" => c.push(NumC::Ge(false, 0)), "positive" => c.push(NumC::Gt(false, 0)), "negative" => c.push(NumC::Lt(false, 0)), "nonpositive" => c.push(NumC::Le(false, 0)),
                            "gte" | "min" => { let (s, n) = limit(a)?; c.push(NumC::Ge(s, n)) } "lte" | "max" => { let (s, n) = limit(a)?; c.push(NumC::Le(s, n)) }
                            "gt" => { let (s, n) = limit(a)?; c.push(NumC::Gt(s, n)) } "lt" => { let (s, n) = limit(a)?; c.push(NumC::Lt(s, n)) }
                            m if OTHER.contains(&m) => return unsup(format!("number().{m}")),
                            m => return wrong(format!("numbers have no {m}")),
                        }
                        Z::Num(c)
                    }
                    (Z::Str(mut c), m) => {
                        match m {
                            "min" => c.push(StrC::Min(size(a)?)), "max" => c.push(StrC::Max(size(a)?)), "length" => c.push(StrC::Len(size(a)?)), "nonempty" => c.push(StrC::Min(1)),
                            "regex" => match a.as_slice() { [Ex::Re(b, f)] => { if let Err(m) = Re::new(b, f) { return unsup(format!("regular expression: {m}")) } c.push(StrC::Re(b.clone(), f.clone())) } _ => return wrong("regex needs one") },
                            "ip" => c.push(StrC::Ip(match a.as_slice() { [] => 0, [Ex::Obj(o)] => match o.iter().find(|(k, _)| k == "version").map(|x| &x.1) { None => 0, Some(Ex::Str(s)) if s == "v4" => 4, Some(Ex::Str(s)) if s == "v6" => 6, _ => return wrong("ip version") }, _ => return wrong("ip version") })),
                            m if OTHER.contains(&m) => return unsup(format!("string().{m}")),
                            m => return wrong(format!("strings have no {m}")),
                        }
                        Z::Str(c)
                    }
                    (Z::Obj(f, mut x), "extend") => match a.as_slice() {
                        [Ex::Obj(_)] => { let mut f = f; for (k, z) in obj(a)? { f.retain(|y| y.0 != k); f.push((k, z)) } Z::Obj(f, x) }
                        // not what zod wants; read as what is meant, `strict_extend` tells
                        [e] => { x.push(lower(e)?); Z::Obj(f, x) }
                        _ => return wrong("extend needs one argument"),
                    },
                    (Z::Obj(f, mut x), "merge") => { x.push(*one(a)?); Z::Obj(f, x) }
                    (Z::Obj(f, x), "strip" | "passthrough" | "nonstrict") => Z::Obj(f, x),
                    (Z::Obj(..), "strict") => return unsup("strict objects"),
                    (_, m) if OTHER.contains(&m) || ["min", "max", "length", "size", "extend", "merge", "int", "ip", "regex", "strip", "strict", "passthrough"].contains(&m) => return unsup(format!("method {m}")),
                    (_, m) => return wrong(format!("there is no method {m}")),
                })
            }
        }
        _ => wrong("neither a call nor a reference"),
    }
}
/// `.extend(...)` must be given a shape, not a schema, in every place; the text of the first that is not
pub fn wrong_extend(e: &Ex) -> bool {
    match e {
        Ex::Call(f, a) => (matches!(f.as_ref(), Ex::Mem(_, m) if m == "extend") && !matches!(a.as_slice(), [Ex::Obj(_)])) || wrong_extend(f) || a.iter().any(wrong_extend),
        Ex::Mem(o, _) => wrong_extend(o), Ex::Obj(v) => v.iter().any(|x| wrong_extend(&x.1)), Ex::Arr(v) => v.iter().any(wrong_extend), Ex::Arrow(_, b) => wrong_extend(b),
        _ => false,
    }
}
/// a JSON number: sign, magnitude, and whether there is something after the point
#[derive(Clone, Copy, Debug)]
pub struct NumVal { pub neg: bool, pub mag: u128, pub frac: bool }
impl NumVal {
    pub fn of(n: &serde_json::Number) -> NumVal {
        if let Some(u) = n.as_u64() { return NumVal { neg: false, mag: u as u128, frac: false } }
        if let Some(i) = n.as_i64() { return NumVal { neg: i < 0, mag: i.unsigned_abs() as u128, frac: false } }
        let f = n.as_f64().unwrap();
        NumVal { neg: f < 0.0, mag: f.abs() as u128, frac: f.fract() != 0.0 }
    }
    /// <0, 0, >0
    fn cmp(&self, neg: bool, mag: u128) -> i32 {
        match (self.neg, neg) {
            (false, true) => 1, (true, false) => if self.mag == 0 && mag == 0 && !self.frac { 0 } else { -1 },
            (s, _) => {
                let o = if self.mag < mag { -1 } else if self.mag > mag { 1 } else if self.frac { 1 } else { 0 };
                if s { -o } else { o }
            }
        }
    }
}
pub fn num_ok(c: &[NumC], n: &NumVal) -> bool {
    c.iter().all(|c| match c {
        NumC::Int => !n.frac, NumC::Finite => true,
        NumC::Ge(s, l) => n.cmp(*s, *l) >= 0, NumC::Gt(s, l) => n.cmp(*s, *l) > 0, NumC::Le(s, l) => n.cmp(*s, *l) <= 0, NumC::Lt(s, l) => n.cmp(*s, *l) < 0,
    })
}
fn v4(s: &str) -> bool { let p: Vec<&str> = s.split('.').collect(); p.len() == 4 && p.iter().all(|o| !o.is_empty() && o.len() <= 3 && o.bytes().all(|b| b.is_ascii_digit()) && o.parse::<u32>().map_or(false, |n| n < 256) && (o.len() == 1 || !o.starts_with('0') || o.len() == 2)) }
fn v6(s: &str) -> bool {
    if s.is_empty() || s.contains(":::") { return false }
    let parts: Vec<&str> = s.split("::").collect();
    if parts.len() > 2 { return false }
    let mut n = 0;
    for (k, half) in parts.iter().enumerate() {
        if half.is_empty() { continue }
        let g: Vec<&str> = half.split(':').collect();
        for (i, x) in g.iter().enumerate() {
            if k == parts.len() - 1 && i == g.len() - 1 && x.contains('.') { if !v4(x) { return false } n += 2; continue }
            if x.is_empty() || x.len() > 4 || !x.bytes().all(|b| b.is_ascii_hexdigit()) { return false }
            n += 1;
        }
    }
    if parts.len() == 2 { n <= 7 } else { n == 8 }
}
pub fn str_ok(c: &[StrC], s: &str) -> bool {
    let units = || s.encode_utf16().count();
    c.iter().all(|c| match c {
        StrC::Min(n) => units() >= *n, StrC::Max(n) => units() <= *n, StrC::Len(n) => units() == *n,
        StrC::Re(b, f) => Re::new(b, f).ok().map_or(false, |r| r.test(s)),
        StrC::Ip(v) => (*v != 6 && v4(s)) || (*v != 4 && v6(s)),
    })
}
impl Z {
    /// whether the schema accepts the value (None: undefined). `coarse` leaves out the refinements of numbers and strings.
    pub fn accepts(&self, v: Option<&Value>, env: &dyn Env, coarse: bool) -> bool {
        match self {
            Z::Opt(z) => return v.is_none() || z.accepts(v, env, coarse),
            Z::Any => return true,
            Z::Undef => return v.is_none(),
            Z::Ref(ns, n) => { let Some(z) = env.schema(ns, n) else { zs::fail(&format!("reference to {ns}.{n}, which is not exported")) }; return z.accepts(v, env, coarse) }
            Z::Union(u) => return u.iter().any(|z| z.accepts(v, env, coarse)),
            Z::And(a, b) => return a.accepts(v, env, coarse) && b.accepts(v, env, coarse),
            Z::Nullable(z) => return matches!(v, Some(Value::Null)) || z.accepts(v, env, coarse),
            _ => {}
        }
        let Some(v) = v else { return false };
        match (self, v) {
            (Z::Str(c), Value::String(s)) => coarse || str_ok(c, s),
            (Z::Num(c), Value::Number(n)) => coarse || num_ok(c, &NumVal::of(n)),
            (Z::Bool, Value::Bool(_)) | (Z::Null, Value::Null) => true,
            (Z::Lit(l), Value::String(s)) => l == s,
            (Z::LitBool(l), Value::Bool(s)) => l == s,
            (Z::LitNum(l), Value::Number(n)) => l.parse::<f64>().ok() == n.as_f64(),
            (Z::Arr(z), Value::Array(a)) => a.iter().all(|x| z.accepts(Some(x), env, coarse)),
            (Z::Set(z), Value::Array(a)) => a.iter().all(|x| z.accepts(Some(x), env, coarse)),
            (Z::Map(k, z), Value::Object(o)) => o.iter().all(|(n, x)| key_ok(k, n, env, coarse) && z.accepts(Some(x), env, coarse)),
            (Z::Tuple(t), Value::Array(a)) => a.len() <= t.len() && t.iter().enumerate().all(|(i, z)| z.accepts(a.get(i), env, coarse)),
            (Z::Obj(f, x), Value::Object(o)) => f.iter().all(|(k, z)| z.accepts(o.get(k), env, coarse)) && x.iter().all(|z| z.accepts(Some(v), env, coarse)),
            (Z::DUnion(d, u), Value::Object(o)) => {
                // the first option whose discriminator has the value decides
                let Some(t) = o.get(d) else { return false };
                for z in u {
                    let Z::Obj(f, _) = z else { zs::fail("an option of a discriminated union is not an object") };
                    let Some((_, l)) = f.iter().find(|x| x.0 == *d) else { zs::fail("an option of a discriminated union has no discriminator") };
                    if l.accepts(Some(t), env, coarse) { return z.accepts(Some(v), env, coarse) }
                }
                false
            }
            _ => false,
        }
    }
    /// the direct references and literals, without those inside of references
    pub fn walk(&self, f: &mut dyn FnMut(&Z)) {
        f(self);
        match self {
            Z::Arr(z) | Z::Set(z) | Z::Opt(z) | Z::Nullable(z) => z.walk(f),
            Z::Map(a, b) | Z::And(a, b) => { a.walk(f); b.walk(f) }
            Z::Tuple(v) | Z::Union(v) | Z::DUnion(_, v) => for z in v { z.walk(f) },
            Z::Obj(v, x) => { for z in v { z.1.walk(f) } for z in x { z.walk(f) } }
            _ => {}
        }
    }
}
/// keys of a map are strings on the wire
pub fn key_ok(k: &Z, n: &str, env: &dyn Env, coarse: bool) -> bool {
    match k {
        Z::Num(c) => match serde_json::from_str::<serde_json::Number>(n) { Ok(x) => coarse || num_ok(c, &NumVal::of(&x)), Err(_) => false },
        Z::Bool => n == "true" || n == "false",
        Z::Ref(a, b) => match env.schema(a, b) { Some(z) => key_ok(&z, n, env, coarse), None => zs::fail(&format!("reference to {a}.{b}, which is not exported")) },
        k => k.accepts(Some(&Value::String(n.to_string())), env, coarse),
    }
}
