//! D01, D02, D04, D07: definitions of any shape are accepted and described, or rejected with a diagnostic
use crate::{definition, eval::{Code, Impl, V}, names::{mem, obj, opt, or_undef, t, z}};
use mz::{Ty, Z};
const TY: &[&str] = &["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L"];

static mut WANT: u8 = 0;
fn ended(what: &str) -> ! { if unsafe { WANT } == 1 { zs::fail(&format!("the derive rejects the definition: {what}")) } zs::cover(5); zs::finish() }
/// want: 0 anything but a crash, 1 accepted, 2 rejected. None: rejected
fn run(def: proc_macro2::TokenStream, want: u8) -> Option<Code> {
    unsafe { WANT = want; shim_proc_macro_error::ON_ABORT = Some(ended) }
    let out = zod_derive_lib::__entry::derive_Zod(def);
    shim_proc_macro_error::abort_if_dirty();
    let c = Code::new(out);
    if c.is_error() { zs::check(want != 1, "the derive rejects the definition"); zs::cover(5); return None }
    zs::check(want != 2, "the derive accepts a definition that it cannot describe");
    zs::cover(6);
    Some(c)
}
fn judge(c: &Code, wz: Z, wt: Ty) {
    let Some(i) = c.implementation("ZodType") else { zs::fail("ZodType is not implemented") };
    let i = Impl(i);
    let (schema, V::Def(interface, ty)) = (i.text("schema"), i.call("type_def")) else { zs::unsupported("generated code: not a definition") };
    zs::observe(&schema); zs::observe(&ty);
    zs::check(mz::schema(&schema) == wz, "the schema is not that of the definition");
    let t = mz::ty(&ty);
    zs::check(!interface || matches!(t, Ty::Obj(_)), "an interface that is no object");
    zs::check(mz::norm_ty(&t) == mz::norm_ty(&wt), "the type is not that of the definition");
}
/// attributes of fields: text, left out, optional
const ATTRS: &[(&str, bool, bool)] = &[("", false, false), ("#[serde(default)]", false, true), ("#[serde(skip_deserializing)]", true, false), ("#[serde(default = \"d\")]", false, true), ("#[serde(skip)]", true, false), ("#[serde(skip_serializing)] #[foo]", false, false), ("#[serde(skip_serializing_if = \"f\")]", false, false)];
const FEW: usize = 3;
/// structs with many fields
pub fn structs() {
    let n = zs::choice(zs::param(0) as usize + 1);
    let mut fields = vec![];
    let kinds = if n <= 2 { ATTRS.len() } else { FEW };
    for _ in 0..n { fields.push(zs::choice(kinds)) }
    let container = zs::choice(4);
    let text = fields.iter().enumerate().map(|(i, a)| format!("{} f{i}: {},", ATTRS[*a].0, TY[i])).collect::<String>();
    let text = format!("#[zod(namespace = \"Ns\")] {} pub struct T {{ {text} }}", ["", "#[serde(default)]", "#[serde(rename_all = \"SCREAMING-KEBAB-CASE\", deny_unknown_fields)]", "#[serde(default = \"d\", tag = \"type\")]"][container]);
    let Some(c) = run(definition(&text, &[]), 1) else { return };
    zs::cover(1);
    let all = container == 1 || container == 3;
    let (mut a, mut b) = (vec![], vec![]);
    for (i, x) in fields.iter().enumerate() {
        let (_, skip, o) = ATTRS[*x];
        if skip { continue }
        let k = format!("{}{i}", if container == 2 { "F" } else { "f" });
        if all || o { a.push((k.clone(), opt(z(TY[i])))); b.push(mem(&k, true, or_undef(t(TY[i])))) } else { a.push((k.clone(), z(TY[i]))); b.push(mem(&k, false, t(TY[i]))) }
    }
    judge(&c, obj(a), Ty::Obj(b));
}
/// tuple structs and tuple variants with many elements
pub fn tuples() {
    let n = 1 + zs::choice(zs::param(0) as usize);
    let mut fields = vec![];
    let kinds = if n <= 2 { ATTRS.len() } else { FEW };
    for _ in 0..n { fields.push(zs::choice(kinds)) }
    let kept: Vec<usize> = (0..n).filter(|i| !ATTRS[fields[*i]].1).collect();
    let late = kept.iter().skip_while(|i| !ATTRS[fields[**i]].2).any(|i| !ATTRS[fields[*i]].2);
    let text = fields.iter().enumerate().map(|(i, a)| format!("{} {},", ATTRS[*a].0, TY[i])).collect::<String>();
    // what serde rejects itself: a required element after one with a default is an error of serde's derive
    let want = if n > 1 && late { 2 } else { 1 };
    let Some(c) = run(definition(&format!("#[zod(namespace = \"Ns\")] pub struct T({text});"), &[]), want) else { return };
    zs::cover(1);
    if n == 1 {
        // whether the value of a newtype with a default may be undefined is not judged
        let Some(i) = c.implementation("ZodType") else { zs::fail("ZodType is not implemented") };
        let got = mz::schema(&Impl(i).text("schema"));
        zs::check(got == z("A") || got == opt(z("A")), "a newtype is not described by its field");
        return;
    }
    let a = kept.iter().map(|i| if ATTRS[fields[*i]].2 { opt(z(TY[*i])) } else { z(TY[*i]) }).collect();
    let b = kept.iter().map(|i| if ATTRS[fields[*i]].2 { or_undef(t(TY[*i])) } else { t(TY[*i]) }).collect();
    judge(&c, Z::Tuple(a), Ty::Tuple(b));
}
/// enums with many variants
pub fn enums() {
    let n = 1 + zs::choice(zs::param(0) as usize);
    let tag = zs::choice(4);
    let mut vs = vec![];
    for _ in 0..n { vs.push(zs::choice(6)) }
    // a tuple has no tag inside
    zs::assume(tag != 1 || !vs.contains(&2));
    let text = vs.iter().enumerate().map(|(i, v)| { let v = ["V", "V(A)", "V(B, C)", "V { a: A, #[serde(default)] b: B, #[serde(skip_deserializing)] c: C }", "#[serde(skip)] V(A)", "#[serde(skip_deserializing)] V"][*v]; v.replacen('V', &format!("V{i}"), 1) + "," }).collect::<String>();
    let text = format!("#[zod(namespace = \"Ns\")] {} enum T {{ {text} }}", ["", "#[serde(tag = \"t\")]", "#[serde(tag = \"t\", content = \"c\")]", "#[serde(untagged)]"][tag]);
    let kept: Vec<usize> = (0..n).filter(|i| vs[*i] < 4).collect();
    let Some(c) = run(definition(&text, &[]), if kept.is_empty() { 2 } else { 1 }) else { return };
    zs::cover(1);
    let (mut a, mut b) = (vec![], vec![]);
    for i in kept {
        let name = format!("V{i}");
        let l = (Z::Lit(name.clone()), Ty::Lit(name.clone()));
        let fields = || (vec![("a".to_string(), z("A")), ("b".to_string(), opt(z("B")))], vec![mem("a", false, t("A")), mem("b", true, or_undef(t("B")))]);
        let content = match vs[i] { 0 => None, 1 => Some((z("A"), t("A"))), 2 => Some((Z::Tuple(vec![z("B"), z("C")]), Ty::Tuple(vec![t("B"), t("C")]))), _ => { let (x, y) = fields(); Some((obj(x), Ty::Obj(y))) } };
        let tagged = |x: Option<(Z, Ty)>, y: Vec<(String, Z)>, w: Vec<mz::Mem>| { let _ = x; let (mut f, mut g) = (vec![("t".to_string(), l.0.clone())], vec![mem("t", false, l.1.clone())]); f.extend(y); g.extend(w); (obj(f), Ty::Obj(g)) };
        let (x, y) = match (tag, content) {
            (0, None) => l.clone(), (3, None) => (Z::Null, Ty::Prim("null".into())), (_, None) => tagged(None, vec![], vec![]),
            (0, Some(c)) => (obj(vec![(name.clone(), c.0)]), Ty::Obj(vec![mem(&name, false, c.1)])),
            (1, Some(c)) if vs[i] == 1 => { let (p, q) = tagged(None, vec![], vec![]); (Z::And(Box::new(p), Box::new(c.0)), Ty::Inter(vec![q, c.1])) }
            (1, Some(_)) => { let (x, y) = fields(); tagged(None, x, y) }
            (2, Some(c)) => tagged(None, vec![("c".into(), c.0)], vec![mem("c", false, c.1)]),
            (_, Some(c)) => c,
        };
        a.push(x); b.push(y);
    }
    if a.len() == 1 { return judge(&c, a.pop().unwrap(), b.pop().unwrap()) }
    let objects = a.iter().all(|z| matches!(z, Z::Obj(..)));
    judge(&c, if (tag == 1 || tag == 2) && objects { Z::DUnion("t".into(), a) } else { Z::Union(a) }, Ty::Union(b));
}
/// one variant with any fields, alone or next to another one
pub fn variants() {
    const MORE: &[(&str, bool, bool, Option<&str>)] = &[("#[serde(rename = \"x y\")]", false, false, Some("x y")), ("#[serde(rename(serialize = \"s\", deserialize = \"d\"), default)]", false, true, Some("d")), ("#[serde(rename(serialize = \"s\"))]", false, false, None)];
    let named = zs::flag();
    let n = zs::choice(zs::param(0) as usize + 1);
    let full = zs::param(1) as usize;
    let kinds = if n <= full { ATTRS.len() + if named { MORE.len() } else { 0 } } else { 4 };
    let mut fields = vec![];
    for _ in 0..n { let k = zs::choice(kinds); fields.push(if k < ATTRS.len() { let a = ATTRS[k]; (a.0, a.1, a.2, None) } else { MORE[k - ATTRS.len()] }) }
    let tag = zs::choice(4);
    let newtype = !named && n == 1;
    // serde accepts no tuples with a tag inside
    zs::assume(tag != 1 || named || newtype);
    let attrs = zs::choice(if n <= full { 5 } else { 1 });
    let others = if n <= full { zs::choice(3) } else { 1 };
    let body = fields.iter().enumerate().map(|(i, a)| if named { format!("{} f{i}_g: {},", a.0, TY[i]) } else { format!("{} {},", a.0, TY[i]) }).collect::<String>();
    let body = if named { format!("{{ {body} }}") } else { format!("({body})") };
    let v = format!("{} Va{body},", ["", "#[serde(rename = \"v v\")]", "#[serde(rename_all = \"camelCase\")]", "#[serde(rename(serialize = \"w\"), rename_all(deserialize = \"UPPERCASE\"))]", "#[serde(skip_serializing)] #[doc = \"x\"]"][attrs]);
    let text = format!("#[zod(namespace = \"Ns\")] {} enum T {{ {} {v} {} }}", ["", "#[serde(tag = \"t\")]", "#[serde(tag = \"t\", content = \"c\")]", "#[serde(untagged)]"][tag], if others == 1 { "Ot," } else { "" }, if others == 2 { "#[serde(rename = \"o\")] Ot," } else { "" });
    let Some(c) = run(definition(&text, &[]), 1) else { return };
    zs::cover(1);
    // what a newtype with a default or without a field looks like is not judged everywhere
    if newtype && (fields[0].2 || fields[0].1 && tag >= 2) { return }
    let name = if attrs == 1 { "v v" } else { "Va" };
    let (mut a, mut b, mut ta, mut tb) = (vec![], vec![], vec![], vec![]);
    for (i, f) in fields.iter().enumerate() {
        if f.1 { continue }
        let k = match (f.3, attrs) { (Some(k), _) => k.to_string(), (_, 2) => format!("f{i}G"), (_, 3) => format!("F{i}_G"), _ => format!("f{i}_g") };
        let (x, y) = if f.2 { (opt(z(TY[i])), or_undef(t(TY[i]))) } else { (z(TY[i]), t(TY[i])) };
        a.push((k.clone(), x.clone())); b.push(mem(&k, f.2, y.clone()));
        ta.push(x); tb.push(y);
    }
    let lit = |n: &str| (Z::Lit(n.to_string()), Ty::Lit(n.to_string()));
    let with_tag = |n: &str, y: Vec<(String, Z)>, w: Vec<mz::Mem>| { let l = lit(n); let (mut f, mut g) = (vec![("t".to_string(), l.0)], vec![mem("t", false, l.1)]); f.extend(y); g.extend(w); (obj(f), Ty::Obj(g)) };
    let unit = |n: &str| match tag { 0 => lit(n), 3 => (Z::Null, Ty::Prim("null".into())), _ => with_tag(n, vec![], vec![]) };
    let content = if named { Some((obj(a.clone()), Ty::Obj(b.clone()))) } else if newtype { ta.pop().map(|x| (x, tb.pop().unwrap())) } else { Some((Z::Tuple(ta), Ty::Tuple(tb))) };
    let (x, y) = match (tag, content) {
        (_, None) => unit(name),
        (0, Some(c)) => (obj(vec![(name.to_string(), c.0)]), Ty::Obj(vec![mem(name, false, c.1)])),
        (1, Some(c)) if newtype => { let (p, q) = with_tag(name, vec![], vec![]); (Z::And(Box::new(p), Box::new(c.0)), Ty::Inter(vec![q, c.1])) }
        (1, Some(_)) => with_tag(name, a, b),
        (2, Some(c)) => with_tag(name, vec![("c".into(), c.0)], vec![mem("c", false, c.1)]),
        (_, Some(c)) => c,
    };
    let (x, y) = match others { 0 => return judge(&c, x, y), 1 => { let u = unit("Ot"); (vec![u.0, x], vec![u.1, y]) } _ => { let u = unit("o"); (vec![x, u.0], vec![y, u.1]) } };
    let objects = x.iter().all(|z| matches!(z, Z::Obj(..)));
    judge(&c, if (tag == 1 || tag == 2) && objects { Z::DUnion("t".into(), x) } else { Z::Union(x) }, Ty::Union(y));
}
/// attributes about something else than reading do not change anything
pub fn neutral() {
    const DEFS: &[&str] = &["@ struct T { ^ a: A, #[serde(default)] ^ b: B }", "@ struct T(^ A, ^ B);", "@ struct T(^ A);", "@ #[serde(transparent)] struct T { ^ a: A }", "@ #[serde(from = \"A\")] struct T { ^ a: B }",
        "@ enum T { ~ U, ~ N(^ A), ~ P(^ A, ^ B), ~ S { ^ a: A } }", "@ #[serde(tag = \"t\")] enum T { ~ U, ~ S { ^ a: A, #[serde(default)] ^ b: B } }", "@ #[serde(tag = \"t\", content = \"c\")] enum T { ~ U, ~ N(^ A), ~ P(^ A, ^ B) }", "@ #[serde(untagged)] enum T { ~ N(^ A), ~ S { ^ a: A } }", "@ #[serde(try_from = \"A\")] enum T { ~ U }"];
    const AT: &[&str] = &["#[serde(into = \"B\")]", "#[serde(bound = \"\")]", "#[serde(bound(serialize = \"\"))]", "#[serde(expecting = \"x\")]", "#[serde(rename(serialize = \"s\"))]", "#[serde(rename_all(serialize = \"UPPERCASE\"))]", "#[repr(C)]", "#[derive(Clone)]", "#[non_exhaustive]", "#[cfg_attr(x, serde(rename = \"x\"))]", "#[other(serde(rename = \"x\"), default, skip)]", "#[must_use = \"x\"]", "#[allow(dead_code)] #[serde()]"];
    const FIELD: &[&str] = &["#[serde(skip_serializing)]", "#[serde(serialize_with = \"f\")]", "#[serde(skip_serializing_if = \"f\")]", "#[serde(rename(serialize = \"s\"))]", "#[serde(bound = \"\")]", "#[other(serde(skip), default, flatten)]", "#[allow(dead_code)]", "#[doc = \"x\"]", "#[doc(hidden)] #[serde()]", "#[deprecated]", "pub", "pub(crate)"];
    const VARIANT: &[&str] = &["#[serde(skip_serializing)]", "#[serde(serialize_with = \"f\")]", "#[serde(rename(serialize = \"s\"))]", "#[serde(rename_all(serialize = \"UPPERCASE\"))]", "#[serde(bound = \"\")]", "#[default]", "#[other(serde(skip), other, untagged)]", "#[doc = \"x\"]", "#[deprecated]"];
    let d = DEFS[zs::choice(DEFS.len())];
    let plain: String = d.replace(['@', '^', '~'], "");
    let (c, set) = match zs::choice(3) { 0 => ('@', AT), 1 => ('^', FIELD), _ => ('~', VARIANT) };
    let places = d.matches(c).count();
    zs::assume(places > 0);
    let (place, a) = (zs::choice(places), set[zs::choice(set.len())]);
    // visibility is none of a variant's fields; serde refuses `into` on transparent structs
    zs::assume(!(a.starts_with("pub") && d.contains("enum")));
    zs::assume(!(a.contains("into") && d.contains("transparent")));
    let mut n = 0;
    let text: String = d.chars().map(|x| if x == c { n += 1; if n - 1 == place { a.to_string() } else { String::new() } } else if "@^~".contains(x) { String::new() } else { x.to_string() }).collect();
    let read = |t: &str| {
        let Some(c) = run(definition(&format!("#[zod(namespace = \"Ns\")] {t}"), &[]), 1) else { zs::finish() };
        let Some(i) = c.implementation("ZodType") else { zs::fail("ZodType is not implemented") };
        let i = Impl(i);
        let V::Def(k, ty) = i.call("type_def") else { zs::unsupported("generated code: not a definition") };
        (mz::schema(&i.text("schema")), k, mz::norm_ty(&mz::ty(&ty)), mz::schema(&i.text("inline_schema")), mz::norm_ty(&mz::ty(&i.text("inline"))))
    };
    zs::check(read(&text) == read(&plain), "an attribute that does not concern reading changes the description");
    zs::cover(1);
}
/// `__0` is replaced by a symbolic identifier, `"%0"` by a symbolic text
const BAD: &[(&str, usize)] = &[
    // cannot be described
    ("#[zod(namespace = \"Ns\")] struct T;", 2), ("#[zod(namespace = \"Ns\")] enum T { }", 2), ("#[zod(namespace = \"Ns\")] enum T { #[serde(skip_deserializing)] A, #[serde(skip)] B(A) }", 2),
    ("#[zod(namespace = \"Ns\")] union T { a: A }", 2), ("struct T { a: A }", 2), ("enum T { A }", 2),
    ("#[zod(namespace = \"Ns\")] #[serde(untagged)] enum T { #[serde(skip)] A }", 2),
    // malformed
    ("#[zod(namespace)] struct T { a: A }", 2), ("#[zod(namespace = 1)] struct T { a: A }", 2), ("#[zod(namespace = \"Ns\", namespace = \"M\")] struct T { a: A }", 2), ("#[zod(namespace = \"Ns\", __0 = \"%0\")] struct T { a: A }", 2), ("#[zod = \"%0\"] struct T { a: A }", 2), ("#[zod(namespace = \"Ns\", __0)] enum T { A }", 2),
    ("#[zod(namespace = \"%0\")] struct T { a: A }", 0), ("#[zod(namespace = \"Ns::%0\")] enum T { A }", 0),
    ("#[zod(namespace = \"Ns\")] #[serde(__0)] struct T { a: A }", 2), ("#[zod(namespace = \"Ns\")] #[serde(__0)] enum T { A }", 2), ("#[zod(namespace = \"Ns\")] struct T { #[serde(__0)] a: A }", 2), ("#[zod(namespace = \"Ns\")] enum T { #[serde(__0)] A }", 2), ("#[zod(namespace = \"Ns\")] enum T { A(#[serde(__0)] A) }", 2), ("#[zod(namespace = \"Ns\")] struct T(#[serde(__0)] A);", 2),
    ("#[zod(namespace = \"Ns\")] struct T { #[serde(__0 = \"%0\")] a: A }", 2), ("#[zod(namespace = \"Ns\")] enum T { #[serde(__0 = \"%0\")] A }", 2),
    ("#[zod(namespace = \"Ns\")] #[serde(__0 = \"%0\")] enum T { A, B }", 0), ("#[zod(namespace = \"Ns\")] #[serde(__0(__0))] enum T { A, B }", 2),
    ("#[zod(namespace = \"Ns\")] #[serde(rename = 1)] struct T { a: A }", 2), ("#[zod(namespace = \"Ns\")] struct T { #[serde(rename)] a: A }", 2), ("#[zod(namespace = \"Ns\")] struct T { #[serde(rename = \"%0\", rename = \"b\")] a: A }", 2), ("#[zod(namespace = \"Ns\")] struct T { #[serde(rename(__0 = \"%0\"))] a: A }", 2),
    ("#[zod(namespace = \"Ns\")] #[serde(rename_all = \"%0\")] struct T { a: A }", 2), ("#[zod(namespace = \"Ns\")] enum T { #[serde(rename_all = \"%0\")] A { a: A } }", 2), ("#[zod(namespace = \"Ns\")] #[serde(rename_all(deserialize = \"%0\"))] enum T { A }", 2),
    ("#[zod(namespace = \"Ns\")] struct T { #[serde(default = \"%0\")] a: A }", 0), ("#[zod(namespace = \"Ns\")] #[serde(from = \"%0\")] struct T { a: A }", 0), ("#[zod(namespace = \"Ns\")] #[serde(try_from = \"%0\")] enum T { A }", 0), ("#[zod(namespace = \"Ns\")] struct T { #[serde(deserialize_with = \"%0\")] a: A }", 0),
    ("#[zod(namespace = \"Ns\")] #[serde(from = \"A\", try_from = \"B\")] struct T { a: A }", 2), ("#[zod(namespace = \"Ns\")] #[serde(tag = \"%0\", untagged)] enum T { A }", 2), ("#[zod(namespace = \"Ns\")] #[serde(content = \"%0\")] enum T { A }", 2), ("#[zod(namespace = \"Ns\")] #[serde(tag = \"t\")] enum T { A(A, B) }", 2), ("#[zod(namespace = \"Ns\")] #[serde(tag = \"t\", content = \"t\")] enum T { A }", 2), ("#[zod(namespace = \"Ns\")] #[serde(tag = \"%0\", tag = \"t\")] enum T { A }", 2),
    ("#[zod(namespace = \"Ns\")] #[serde(tag = \"%0\")] struct T(A);", 2), ("#[zod(namespace = \"Ns\")] #[serde(untagged)] struct T { a: A }", 2), ("#[zod(namespace = \"Ns\")] #[serde(content = \"%0\")] struct T { a: A }", 2),
    ("#[zod(namespace = \"Ns\")] #[serde(transparent)] struct T { a: A, b: B }", 2), ("#[zod(namespace = \"Ns\")] #[serde(transparent)] struct T { }", 2), ("#[zod(namespace = \"Ns\")] #[serde(transparent)] enum T { A(A) }", 2), ("#[zod(namespace = \"Ns\")] #[serde(transparent, from = \"A\")] struct T { a: A }", 2),
    ("#[zod(namespace = \"Ns\")] struct T(#[serde(flatten)] A, B);", 2), ("#[zod(namespace = \"Ns\")] struct T { #[serde(flatten, skip_deserializing)] a: A }", 0), ("#[zod(namespace = \"Ns\")] enum T { #[serde(other)] A, B }", 2), ("#[zod(namespace = \"Ns\")] enum T { A(#[serde(flatten)] A) }", 2),
    ("#[zod(namespace = \"Ns\")] #[serde] struct T { a: A }", 0), ("#[zod(namespace = \"Ns\")] #[serde = \"%0\"] struct T { a: A }", 0), ("#[zod(namespace = \"Ns\")] #[serde(\"%0\")] struct T { a: A }", 2), ("#[zod(namespace = \"Ns\")] struct T { #[serde(\"%0\")] a: A }", 2), ("#[zod(namespace = \"Ns\")] #[serde(default = 1)] struct T { a: A }", 2), ("#[zod(namespace = \"Ns\")] #[serde(default)] enum T { A }", 2), ("#[zod(namespace = \"Ns\")] #[serde(default)] struct T(A, B);", 2),
    ("#[zod(namespace = \"Ns\")] #[serde(__0 + 1)] struct T { a: A }", 2), ("#[zod(namespace = \"Ns\")] struct T { #[serde(default default)] a: A }", 2), ("#[zod(namespace = \"Ns\")] #[doc = 1] struct T { a: A }", 0), ("#[zod(namespace = \"Ns\")] #[doc = include_str!(\"%0\")] struct T { a: A }", 1),
    ("#[zod(namespace = \"Ns\")] struct T { #[zod(__0)] a: A }", 0), ("#[zod(namespace = \"Ns\")] enum T { #[zod(__0 = \"%0\")] A }", 0),
    ("struct", 2), ("enum T { A(", 2), ("fn f() { }", 2), ("", 2), ("struct T { a }", 2),
];
fn idents(t: proc_macro2::TokenStream, i: &str) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, Ident, TokenTree};
    t.into_iter().map(|t| match t {
        TokenTree::Ident(x) => if x == "__0" { TokenTree::Ident(Ident::new(i, x.span())) } else { TokenTree::Ident(x) },
        TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), idents(g.stream(), i)); n.set_span(g.span()); TokenTree::Group(n) }
        t => t,
    }).collect()
}
pub fn bad() {
    let (text, want) = BAD[zs::choice(BAD.len())];
    let n = zs::param(0) as usize;
    let s = if text.contains("%0") { String::from_utf8(zs::bytes(zs::choice(n + 1), 1, 127)).unwrap() } else { String::new() };
    // shorter than any attribute that stands alone
    let i = if text.contains("__0") { let mut i = zs::ascii_in(1, "abcdefghijklmnopqrstuvwxyz_"); for _ in 0..2 { i.push_str(&zs::ascii_in(1, "abcdefghijklmnopqrstuvwxyz_0")) } i } else { String::new() };
    // not a definition the compiler would hand to a derive
    let Ok(_) = text.parse::<proc_macro2::TokenStream>() else { return };
    run(idents(definition(text, &[s]), &i), want as u8);
}
