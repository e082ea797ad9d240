//! The generated client module: namespaces with schemas, types and functions.
use crate::parse::{Ex, P, R, Ty};
#[derive(Clone, Debug, PartialEq)]
pub struct Func { pub name: String, pub is_async: bool, pub params: Vec<(String, Ty)>, pub ret: Ty, pub body: Vec<Ex>, pub result: Ex }
#[derive(Clone, Debug, PartialEq)]
pub enum Item { Schema(String, Ex), Interface(String, Ty), Alias(String, Ty), Func(Func) }
#[derive(Clone, Debug, PartialEq)]
pub struct Block { pub ns: String, pub items: Vec<(Vec<String>, Item)> }

/// a series of `export namespace X { .. }`
pub fn blocks(s: &str) -> R<Vec<Block>> {
    let mut p = P::new(s);
    let mut v = vec![];
    loop {
        while p.eat(";")? {}
        p.ws()?;
        if p.eof() { return Ok(v) }
        if !p.word("export")? || !p.word("namespace")? { return Err(format!("expected a namespace at {}", p.i)) }
        let ns = p.ident()?;
        p.need("{")?;
        v.push(Block { ns, items: items(&mut p)? });
    }
}
/// one declaration alone
pub fn decl(s: &str) -> R<(Vec<String>, Item)> {
    let mut p = P::new(s);
    p.ws()?;
    let docs = std::mem::take(&mut p.docs);
    let i = item(&mut p)?;
    while p.eat(";")? {}
    p.end()?;
    Ok((docs, i))
}
fn items(p: &mut P) -> R<Vec<(Vec<String>, Item)>> {
    let mut v = vec![];
    loop {
        if p.eat("}")? { if p.docs.is_empty() { return Ok(v) } return Err("a comment that belongs to nothing".into()) }
        if p.eat(";")? { continue }
        let docs = std::mem::take(&mut p.docs);
        let i = item(p)?;
        v.push((docs, i));
    }
}
/// the end of a statement without braces: a semicolon, a line break, or the end of the block
fn stmt_end(p: &mut P, from: usize) -> R<()> {
    // what came before has skipped the blanks
    if p.eat(";")? || p.is("}")? || p.eof() { return Ok(()) }
    let mut k = p.i;
    while k > from && matches!(p.s[k - 1], b' ' | b'\t' | b'\r') { k -= 1 }
    let gap = { let mut k = p.i; while k > from && !matches!(p.s[k - 1], b')' | b']' | b'"' | b'>') && (p.s[k - 1].is_ascii_whitespace() || p.s[k - 1] == b'/' || p.s[k - 1] == b'*') { k -= 1 } p.s[k..p.i].contains(&b'\n') || comment_break(p, from) };
    if gap { Ok(()) } else { Err(format!("expected the end of a statement at {}", p.i)) }
}
fn comment_break(p: &P, from: usize) -> bool { p.s[from..p.i].iter().rposition(|c| *c == b'\n').map_or(false, |i| { let t = &p.s[from + i..p.i]; t.iter().all(|c| c.is_ascii_whitespace()) || t.ends_with(b"*/") || t.starts_with(b"\n//") }) }
fn item(p: &mut P) -> R<Item> {
    if !p.word("export")? { return Err(format!("expected an export at {}", p.i)) }
    if p.word("const")? {
        let n = p.ident()?;
        if p.eat(":")? { p.ty()?; }
        p.need("=")?;
        let st = p.i;
        let e = p.expr()?;
        stmt_end(p, st)?;
        return Ok(Item::Schema(n, e));
    }
    if p.word("interface")? {
        let n = p.ident()?;
        p.need("{")?;
        return Ok(Item::Interface(n, Ty::Obj(p.members()?)));
    }
    if p.word("type")? {
        let n = p.ident()?;
        p.need("=")?;
        let st = p.i;
        let t = p.ty()?;
        stmt_end(p, st)?;
        return Ok(Item::Alias(n, t));
    }
    let is_async = p.word("async")?;
    if !p.word("function")? { return Err(format!("expected a declaration at {}", p.i)) }
    let name = p.ident()?;
    p.need("(")?;
    let params = p.list(")", |p| { let n = p.ident()?; p.need(":")?; Ok((n, p.ty()?)) })?;
    p.need(":")?;
    let ret = p.ty()?;
    p.need("{")?;
    let mut body = vec![];
    loop {
        if p.word("return")? {
            let st = p.i;
            let result = p.expr()?;
            stmt_end(p, st)?;
            p.need("}")?;
            return Ok(Item::Func(Func { name, is_async, params, ret, body, result }));
        }
        if p.eat(";")? { continue }
        let st = p.i;
        body.push(p.expr()?);
        stmt_end(p, st)?;
    }
}
impl Func {
    /// what the arguments are validated against; None if they are not
    pub fn validated(&self) -> Option<&Ex> {
        let mut v = None;
        for e in &self.body {
            let Ex::Call(f, a) = e else { continue };
            let Ex::Mem(o, m) = f.as_ref() else { continue };
            if m != "parse" || v.is_some() { return None }
            let all = match a.as_slice() {
                [Ex::Arr(x)] => match x.as_slice() { [Ex::Spread(s)] => matches!(s.as_ref(), Ex::Id(n) if n == "arguments"), x => x.len() == self.params.len() && x.iter().zip(&self.params).all(|(e, p)| matches!(e, Ex::Id(n) if *n == p.0)) },
                _ => false,
            };
            if !all { return None }
            v = Some(o.as_ref());
        }
        v
    }
    /// function called, namespace and method passed, with all the arguments
    pub fn call(&self) -> Option<(&str, &str, &str)> {
        let Ex::Call(f, a) = &self.result else { return None };
        let Ex::Id(f) = f.as_ref() else { return None };
        match a.as_slice() {
            [Ex::Str(ns), Ex::Str(m), args] => {
                let all = match args {
                    Ex::Id(n) => n == "arguments",
                    Ex::Arr(x) => match x.as_slice() { [Ex::Spread(s)] => matches!(s.as_ref(), Ex::Id(n) if n == "arguments"), x => x.len() == self.params.len() && x.iter().zip(&self.params).all(|(e, p)| matches!(e, Ex::Id(n) if *n == p.0)) },
                    _ => false,
                };
                if all { Some((f, ns, m)) } else { None }
            }
            _ => None,
        }
    }
}
