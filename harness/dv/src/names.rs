//! D06 (and D01, D03, D05): names of any characters
use crate::{definition, derive, eval::{Impl, V}};
use mz::{parse::Mem, Ty, Z};
const ODD: &[&str] = &["\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}", "\u{feff}", "é", "ª", "\u{200b}", "\u{301}", "𝒳", "\u{10ffff}"];
/// a name with param(0) symbolic characters
pub fn name() -> String {
    let n = zs::param(0) as usize;
    let n = if n == 0 { 0 } else { zs::choice(n + 1) };
    let mut s = String::from_utf8(zs::bytes(n, 0, 127)).unwrap();
    if zs::param(1) == 1 { let o = ODD[zs::choice(ODD.len())]; if zs::flag() { s.push_str(o) } else { s = format!("{o}{s}") } }
    s
}
/// names for the placeholders, one of them symbolic
pub fn some(n: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..n).map(|i| format!("name{i}")).collect();
    let i = zs::choice(n);
    v[i] = name();
    v
}
pub fn z(n: &str) -> Z { Z::Ref("Q".into(), n.into()) }
pub fn t(n: &str) -> Ty { Ty::Ref("Q".into(), n.into()) }
pub fn opt(z: Z) -> Z { Z::Opt(Box::new(z)) }
pub fn or_undef(t: Ty) -> Ty { Ty::Union(vec![t, Ty::Prim("undefined".into())]) }
pub fn obj(v: Vec<(String, Z)>) -> Z { Z::Obj(v, vec![]) }
pub fn mem(k: &str, opt: bool, ty: Ty) -> Mem { Mem { key: k.into(), opt, ty } }
pub fn lit(s: &str) -> (Z, Ty) { (Z::Lit(s.into()), Ty::Lit(s.into())) }

pub fn structs() {
    let n = some(3);
    let flag = zs::flag();
    let c = derive(definition(if flag { "#[zod(namespace = \"Ns\")] struct T { #[serde(rename = \"%0\")] a: A, #[serde(rename = \"%1\", default)] b: B, #[serde(rename(serialize = \"s\", deserialize = \"%2\"))] c: C }" } else { "#[zod(namespace = \"Ns\")] #[serde(default)] struct T { #[serde(rename = \"%0\")] a: A, #[serde(rename(deserialize = \"%1\", serialize = \"x\"))] b: B, #[serde(rename = \"%2\")] c: C }" }, &n));
    let Some(i) = c.implementation("ZodType") else { zs::fail("ZodType is not implemented") };
    let i = Impl(i);
    zs::cover(1);
    let (schema, V::Def(_, ty)) = (i.text("schema"), i.call("type_def")) else { zs::unsupported("generated code: not a definition") };
    zs::observe(&schema); zs::observe(&ty);
    let want: Vec<_> = n.iter().zip(["A", "B", "C"]).enumerate().map(|(i, (k, x))| (k.clone(), if !flag || i == 1 { opt(z(x)) } else { z(x) })).collect();
    zs::check(mz::schema(&schema) == obj(want), "the schema does not have exactly the keys of the struct");
    let want: Vec<_> = n.iter().zip(["A", "B", "C"]).enumerate().map(|(i, (k, x))| if !flag || i == 1 { mem(k, true, or_undef(t(x))) } else { mem(k, false, t(x)) }).collect();
    zs::check(mz::ty(&ty) == Ty::Obj(want), "the type does not have exactly the keys of the struct");
}


const TAGS: &[&str] = &["", "#[serde(tag = \"%7\")]", "#[serde(tag = \"%7\", content = \"%8\")]", "#[serde(untagged)]"];
const VARIANTS: &[&str] = &[
    "#[serde(rename = \"%0\")] U", "#[serde(rename = \"%1\")] N(A)", "#[serde(rename = \"%2\")] P(A, #[serde(default)] B)",
    "#[serde(rename(serialize = \"s\", deserialize = \"%3\"))] S { #[serde(rename = \"%4\")] a: A, #[serde(rename = \"%5\", default)] b: B }", "#[serde(rename = \"%6\")] E { }",
    "#[serde(rename = \"%6\")] O { #[serde(rename = \"%4\")] a: A }",
];
/// what a variant looks like: (name, content), or the keys of the variant
fn variant(v: usize, tag: usize, n: &[String]) -> (Z, Ty) {
    let name = &n[[0, 1, 2, 3, 6, 6][v]];
    let fields = || match v {
        3 => (vec![(n[4].clone(), z("A")), (n[5].clone(), opt(z("B")))], vec![mem(&n[4], false, t("A")), mem(&n[5], true, or_undef(t("B")))]),
        5 => (vec![(n[4].clone(), z("A"))], vec![mem(&n[4], false, t("A"))]),
        _ => (vec![], vec![]),
    };
    let content = match v {
        0 => None, 1 => Some((z("A"), t("A"))), 2 => Some((Z::Tuple(vec![z("A"), opt(z("B"))]), Ty::Tuple(vec![t("A"), or_undef(t("B"))]))),
        _ => { let (a, b) = fields(); Some((obj(a), Ty::Obj(b))) }
    };
    let l = lit(name);
    match (tag, content) {
        (0, None) => l, (3, None) => (Z::Null, Ty::Prim("null".into())), (_, None) => (obj(vec![(n[7].clone(), l.0)]), Ty::Obj(vec![mem(&n[7], false, l.1)])),
        (0, Some(c)) => (obj(vec![(name.clone(), c.0)]), Ty::Obj(vec![mem(name, false, c.1)])),
        (1, Some(c)) if v < 3 => (Z::And(Box::new(obj(vec![(n[7].clone(), l.0)])), Box::new(c.0)), Ty::Inter(vec![Ty::Obj(vec![mem(&n[7], false, l.1)]), c.1])),
        (1, Some(_)) => { let (mut a, mut b) = fields(); a.insert(0, (n[7].clone(), l.0)); b.insert(0, mem(&n[7], false, l.1)); (obj(a), Ty::Obj(b)) }
        (2, Some(c)) => (obj(vec![(n[7].clone(), l.0), (n[8].clone(), c.0)]), Ty::Obj(vec![mem(&n[7], false, l.1), mem(&n[8], false, c.1)])),
        (_, Some(c)) => c,
    }
}
pub fn enums() {
    let tag = zs::choice(4);
    let n = some(if tag == 2 { 9 } else if tag == 1 { 8 } else { 7 });
    // all of the variants, all whose options are objects, or one alone
    let vs: Vec<usize> = match zs::choice(7) {
        0 => (0..5).filter(|v| tag != 1 || *v != 2).collect(),
        1 => vec![0, 3, 5],
        v => vec![if v == 2 { 0 } else if v == 6 { 5 } else { v - 2 }],
    };
    zs::assume(!(tag == 1 && vs == [2]));
    let text = format!("#[zod(namespace = \"Ns\")] {} enum T {{ {} }}", TAGS[tag], vs.iter().map(|v| VARIANTS[*v]).collect::<Vec<_>>().join(", "));
    let c = derive(definition(&text, &n));
    let Some(i) = c.implementation("ZodType") else { zs::fail("ZodType is not implemented") };
    let i = Impl(i);
    let (schema, V::Def(interface, ty)) = (i.text("schema"), i.call("type_def")) else { zs::unsupported("generated code: not a definition") };
    zs::observe(&schema); zs::observe(&ty);
    zs::cover(1);
    let mut want: Vec<(Z, Ty)> = vs.iter().map(|v| variant(*v, tag, &n)).collect();
    let (wz, wt) = if want.len() == 1 { want.pop().unwrap() } else {
        let (a, b): (Vec<Z>, Vec<Ty>) = want.into_iter().unzip();
        let objects = a.iter().all(|z| matches!(z, Z::Obj(..)));
        (if (tag == 1 || tag == 2) && objects { zs::cover(2); Z::DUnion(n[7].clone(), a) } else { Z::Union(a) }, Ty::Union(b))
    };
    zs::check(mz::schema(&schema) == wz, "the schema is not that of the variants");
    let t = mz::ty(&ty);
    zs::check(!interface || matches!(t, Ty::Obj(_)), "an interface that is no object");
    zs::check(mz::norm_ty(&t) == mz::norm_ty(&wt), "the type is not that of the variants");
}
/// D05: a type is referred to by the name it is exported under
pub fn renamed() {
    let n = zs::param(0) as usize;
    let mut s = String::from("a");
    let any = zs::param(1) == 1;
    if any { s += std::str::from_utf8(&zs::bytes(n, 0, 127)).unwrap() } else { for _ in 0..1 + zs::choice(n) { s.push_str(&zs::ascii_in(1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$")) } }
    let d = ["#[zod(namespace = \"Ns\")] #[serde(rename = \"%0\")] struct T { a: A }", "#[zod(namespace = \"Ns\")] #[serde(rename(serialize = \"x\", deserialize = \"%0\"))] enum T { A, B(A) }",
        "#[zod(namespace = \"Ns\")] #[serde(rename = \"%0\")] struct T(A, B);", "#[zod(namespace = \"m::Ns\")] #[serde(from = \"A\", rename = \"%0\")] struct T { a: A }",
        "#[zod(namespace = \"Ns\")] #[serde(try_from = \"A\", rename = \"%0\")] enum T { C, D }", "#[zod(namespace = \"self::Ns\")] #[serde(transparent, rename = \"%0\")] struct T { a: A }"];
    let c = derive(definition(d[zs::choice(d.len())], &[s.clone()]));
    let Some(i) = c.implementation("ZodType") else { zs::fail("ZodType is not implemented") };
    let i = Impl(i);
    zs::cover(1);
    let (a, b) = (i.text("inline_schema"), i.text("inline"));
    zs::observe(&a); zs::observe(&b);
    if any {
        // no TypeScript name: whatever is made of it is the same everywhere
        let sub = c.macros("submit");
        zs::check(sub.len() == 1, "a type is not registered exactly once");
        if let Ok(syn::Expr::Call(x)) = syn::parse2::<syn::Expr>(sub[0].clone()) {
            if x.args.len() == 2 {
                let v: Vec<V> = x.args.iter().map(|e| i.eval(e)).collect();
                let (V::S(ns), V::S(name)) = (&v[0], &v[1]) else { zs::unsupported("a registration without names") };
                let full = format!("{ns}.{name}");
                zs::check(b.trim() == full.trim() && a.contains(&full), "a type is registered under another name than it is referred to by");
                zs::cover(2);
            }
        }
        return
    }
    zs::check(mz::schema(&a) == Z::Ref("Ns".into(), s.clone()), "the schema is referred to by another name");
    zs::check(mz::ty(&b) == Ty::Ref("Ns".into(), s.clone()), "the type is referred to by another name");
    let sub = c.macros("submit");
    zs::check(sub.len() == 1, "a type is not registered exactly once");
    // `NamespaceMemberDefinition::new_for::<T>(namespace, name)`
    if let Ok(syn::Expr::Call(x)) = syn::parse2::<syn::Expr>(sub[0].clone()) {
        if x.args.len() == 2 {
            let v: Vec<V> = x.args.iter().map(|e| i.eval(e)).collect();
            zs::check(v[0] == V::S("Ns".into()) && v[1] == V::S(s), "a type is registered under another name");
            zs::cover(2);
        }
    }
}
/// D05: a namespace has the name it declares
pub fn namespace() {
    let n = zs::param(0) as usize;
    let s = String::from_utf8(zs::bytes(1 + zs::choice(n), 1, 126)).unwrap();
    let (d, want) = if zs::flag() { ("#[namespace(name = \"%0\")] pub struct T;", s.clone()) } else { ("pub struct r#type<X>(X);", "type".to_string()) };
    let c = crate::derive_namespace(definition(d, &[s]));
    let Some(i) = c.implementation("Namespace") else { zs::fail("Namespace is not implemented") };
    zs::cover(1);
    zs::check(Impl(i).konst("NAME") == Some(V::S(want)), "a namespace has another name than it declares");
}
