//! D06, D08: documentation
use crate::{definition, derive, derive_namespace, eval::{Impl, V}};
/// attributes that are no documentation
const OTHER: &[&str] = &["#[allow(dead_code)]", "#[doc(hidden)]", "#[doc(alias = \"x\")]", "#[cfg(not(x))]", "#[foo = 1]", "#[foo::bar(1 + 2, \"doc\")]", "#[doc]", "#[must_use = \"doc\"]"];
pub fn docs() {
    let lines = zs::choice(zs::param(0) as usize + 1);
    let mut subst: Vec<String> = vec![];
    let mut text = String::new();
    let other = if zs::param(2) == 1 { 1 + zs::choice(OTHER.len()) } else { 0 };
    let at = if other > 0 { zs::choice(lines + 1) } else { 0 };
    for i in 0..lines {
        if i == at && other > 0 { text += OTHER[other - 1] }
        let n = zs::choice(zs::param(1) as usize + 1);
        subst.push(String::from_utf8(zs::bytes_in(n, b" \t\n\r*/a\\\"{")).unwrap());
        text += &format!("#[doc = \"%{i}\"]");
    }
    if at == lines && other > 0 { text += OTHER[other - 1] }
    let v = match zs::choice(3) {
        0 => { text += "#[zod(namespace = \"Ns\")] struct T { #[doc = \"field\"] a: A }"; derive(definition(&text, &subst)) }
        1 => { text += "#[zod(namespace = \"Ns\")] enum T { #[doc = \"variant\"] X, Y(A) }"; derive(definition(&text, &subst)) }
        _ => { text += "pub struct T;"; derive_namespace(definition(&text, &subst)) }
    };
    let Some(i) = v.implementation("ZodType").or_else(|| v.implementation("Namespace")) else { zs::fail("nothing is implemented") };
    let got = match Impl(i).call("docs") { V::O(None) => String::new(), V::O(Some(s)) => match *s { V::S(s) => s, _ => zs::unsupported("docs are no text") }, _ => zs::unsupported("docs are no option") };
    zs::observe(&got);
    // what has to be there
    let mut want: Vec<String> = vec![];
    for s in &subst { for l in s.replace("*/", "*\\/").split('\n') { let l = l.trim(); if !l.is_empty() { want.push(l.to_string()) } } }
    if want.is_empty() { zs::cover(2) }
    if lines == 0 { zs::cover(3); zs::check(got.trim().is_empty(), "a comment without documentation"); return }
    if got.trim().is_empty() { zs::check(want.is_empty(), "documentation is missing"); return }
    zs::cover(1);
    let g = got.trim();
    zs::check(g.starts_with("/**") && g.ends_with("*/") && g.len() >= 5, "the documentation is not one block comment");
    let inner = &g[3..g.len() - 2];
    zs::check(!inner.contains("*/") && !(inner.ends_with('*') && false), "the documentation ends its comment");
    let mut have: Vec<&str> = vec![];
    for l in inner.split('\n') {
        let l = l.trim();
        let l = l.strip_prefix('*').unwrap_or(l).trim();
        if !l.is_empty() { have.push(l) }
    }
    zs::check(have.len() == want.len() && have.iter().zip(&want).all(|(a, b)| same(a, b)), "the documentation does not contain exactly the lines of the doc comments");
}
/// a comment end may be escaped in any way
fn same(a: &str, b: &str) -> bool { a == b || { let f = |s: &str| s.replace("*\\/", "*/").replace("* /", "*/").replace("*&#47;", "*/"); b.contains("*\\/") && f(a) == f(b) } }
