//! Evaluates the code a derive has written: the bodies of the methods of `impl ZodType for T` build texts
//! out of literals, `format!`, vectors and what the types of the fields say about themselves.
use quote::ToTokens;
use syn::{punctuated::Punctuated, Expr, Item, ItemImpl, Lit, Stmt, Token};

#[derive(Clone, Debug, PartialEq)]
pub enum V { S(String), L(Vec<V>), O(Option<Box<V>>), B(bool), N(u64), Def(bool, String), Ref(String, String), U }
fn no<T>(what: &str, t: &dyn ToTokens) -> T { let mut ts = proc_macro2::TokenStream::new(); t.to_tokens(&mut ts); zs::unsupported(&format!("generated code: {what}: {ts}")) }

pub struct Code { pub items: Vec<Item> }
impl Code {
    pub fn new(ts: proc_macro2::TokenStream) -> Self {
        match syn::parse2::<syn::File>(ts) { Ok(f) => Code { items: f.items }, Err(_) => zs::fail("the derive writes something that is not a list of items") }
    }
    fn walk<'a>(items: &'a [Item], f: &mut dyn FnMut(&'a Item)) {
        for i in items {
            f(i);
            match i {
                Item::Const(c) => if let Expr::Block(b) = c.expr.as_ref() { for s in &b.block.stmts { if let Stmt::Item(i) = s { Self::walk(std::slice::from_ref(i), f) } } },
                Item::Mod(m) => if let Some((_, v)) = &m.content { Self::walk(v, f) },
                _ => {}
            }
        }
    }
    /// is it an error that the compiler is told about?
    pub fn is_error(&self) -> bool {
        let mut e = false;
        Self::walk(&self.items, &mut |i| if let Item::Macro(m) = i { e |= m.mac.path.segments.last().map_or(false, |s| s.ident == "compile_error") });
        e
    }
    pub fn implementation(&self, tr: &str) -> Option<&ItemImpl> {
        let mut found = None;
        Self::walk(&self.items, &mut |i| if let Item::Impl(x) = i { if x.trait_.as_ref().map_or(false, |t| t.1.segments.last().unwrap().ident == tr) { zs::check(found.is_none(), "a trait is implemented twice"); found = Some(x) } });
        found
    }
    /// the arguments of macros with that name
    pub fn macros(&self, name: &str) -> Vec<proc_macro2::TokenStream> {
        let mut v = vec![];
        Self::walk(&self.items, &mut |i| if let Item::Macro(m) = i { if m.mac.path.segments.last().map_or(false, |s| s.ident == name) { v.push(m.mac.tokens.clone()) } });
        v
    }
}
pub struct Impl<'a>(pub &'a ItemImpl);
impl<'a> Impl<'a> {
    pub fn has(&self, m: &str) -> bool { self.method(m).is_some() }
    fn method(&self, m: &str) -> Option<&'a syn::ImplItemMethod> { self.0.items.iter().find_map(|i| match i { syn::ImplItem::Method(x) if x.sig.ident == m => Some(x), _ => None }) }
    pub fn call(&self, m: &str) -> V {
        match self.method(m) {
            Some(x) => Env { imp: self, vars: vec![] }.block(&x.block),
            None => match m {
                "inline_schema" => self.call("schema"),
                "inline" => match self.call("type_def") { V::Def(_, s) => V::S(s), v => v },
                "docs" => V::O(None),
                m => zs::unsupported(&format!("generated code: there is no {m}")),
            },
        }
    }
    pub fn eval(&self, e: &Expr) -> V { Env { imp: self, vars: vec![] }.expr(e) }
    pub fn konst(&self, n: &str) -> Option<V> { self.0.items.iter().find_map(|i| match i { syn::ImplItem::Const(c) if c.ident == n => Some(Env { imp: self, vars: vec![] }.expr(&c.expr)), _ => None }) }
    pub fn text(&self, m: &str) -> String { match self.call(m) { V::S(s) => s, V::Ref(a, b) => format!("{a}.{b}"), _ => zs::unsupported("generated code: not a text") } }
}
struct Env<'a> { imp: &'a Impl<'a>, vars: Vec<(String, V)> }
struct Args(Vec<Expr>);
impl syn::parse::Parse for Args { fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { Ok(Args(Punctuated::<Expr, Token![,]>::parse_terminated(i)?.into_iter().collect())) } }
/// the text of a value in `{}`
pub fn show(v: &V) -> String { match v { V::S(s) | V::Def(_, s) => s.clone(), V::Ref(a, b) => format!("{a}.{b}"), V::N(n) => n.to_string(), V::B(b) => b.to_string(), _ => zs::unsupported("generated code: `{}` of something else than a text") } }
fn last(p: &syn::Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }
fn ty_name(t: &syn::Type) -> String { match t { syn::Type::Path(p) => last(&p.path), syn::Type::Group(g) => ty_name(&g.elem), syn::Type::Paren(g) => ty_name(&g.elem), t => no("type", t) } }
/// what a type says about itself; the types of fields are in the namespace Q
fn of_type(t: &str, m: &str) -> Option<V> {
    Some(match m {
        "inline_schema" => V::S(format!("z.lazy(() => Q.{t})")), "inline" => V::Ref("Q".into(), t.into()),
        "schema" => V::S(format!("z.object({{ expanded: z.literal(\"{t}\") }})")), "type_def" => V::Def(false, format!("{{ expanded: \"{t}\" }}")),
        "docs" => V::O(None), "NAME" => V::S(t.into()),
        _ => return None,
    })
}
impl<'a> Env<'a> {
    fn block(&mut self, b: &syn::Block) -> V {
        let n = self.vars.len();
        let mut r = V::U;
        for s in &b.stmts {
            r = V::U;
            match s {
                Stmt::Local(l) => {
                    let mut p = &l.pat;
                    while let syn::Pat::Type(t) = p { p = &t.pat }
                    let v = match &l.init { Some((_, e)) => self.expr(e), None => V::U };
                    match p { syn::Pat::Ident(i) => self.vars.push((i.ident.to_string(), v)), syn::Pat::Wild(_) => {}, p => no("pattern", p) }
                }
                Stmt::Item(_) => {}
                Stmt::Expr(e) => r = self.expr(e),
                Stmt::Semi(e, _) => { if let Expr::Return(x) = e { let v = match &x.expr { Some(e) => self.expr(e), None => V::U }; self.vars.truncate(n); return v } self.expr(e); }
            }
        }
        self.vars.truncate(n);
        r
    }
    fn var(&self, n: &str) -> Option<V> { self.vars.iter().rev().find(|x| x.0 == n).map(|x| x.1.clone()) }
    fn string(&mut self, e: &Expr) -> String { let v = self.expr(e); match v { V::S(s) => s, V::Def(_, s) => s, _ => no("expected a text", e) } }
    fn format(&mut self, t: &proc_macro2::TokenStream) -> String {
        let a = match syn::parse2::<Args>(t.clone()) { Ok(a) => a.0, Err(_) => no("arguments", t) };
        let Some(f) = a.first() else { no("format", t) };
        let f = self.string(f);
        let (mut pos, mut named) = (vec![], vec![]);
        for e in &a[1..] { match e { Expr::Assign(x) => { let v = self.expr(&x.right); named.push((x.left.to_token_stream().to_string(), v)) } e => pos.push(self.expr(e)) } }
        let (mut out, mut next, f) = (vec![], 0, f.as_bytes());
        let mut i = 0;
        while i < f.len() {
            let c = f[i];
            i += 1;
            if c == b'{' && f.get(i) == Some(&b'{') || c == b'}' && f.get(i) == Some(&b'}') { out.push(c); i += 1; continue }
            if c == b'}' { no("format", t) }
            if c != b'{' { out.push(c); continue }
            let s = i;
            while i < f.len() && f[i] != b'}' { i += 1 }
            if i >= f.len() { no("format", t) }
            let n = String::from_utf8_lossy(&f[s..i]).into_owned();
            i += 1;
            let v = if n.is_empty() { next += 1; match pos.get(next - 1) { Some(v) => v.clone(), None => no("format", t) } }
                else if n.bytes().all(|c| c.is_ascii_digit()) { match pos.get(n.parse::<usize>().unwrap()) { Some(v) => v.clone(), None => no("format", t) } }
                else if let Some(x) = named.iter().find(|x| x.0 == n) { x.1.clone() } else if let Some(v) = self.var(&n) { v } else { no("format", t) };
            out.extend_from_slice(show(&v).as_bytes());
        }
        String::from_utf8(out).unwrap()
    }
    fn place(&mut self, e: &Expr) -> Option<&mut V> {
        match e {
            Expr::Path(p) => { let n = last(&p.path); self.vars.iter_mut().rev().find(|x| x.0 == n).map(|x| &mut x.1) }
            Expr::Reference(r) => self.place(&r.expr), Expr::Paren(r) => self.place(&r.expr), Expr::Group(r) => self.place(&r.expr),
            _ => None,
        }
    }
    fn macro_(&mut self, m: &syn::Macro, e: &dyn ToTokens) -> V {
        let args = |t: &proc_macro2::TokenStream| match syn::parse2::<Args>(t.clone()) { Ok(a) => a.0, Err(_) => no("arguments", t) };
        match last(&m.path).as_str() {
            "format" => V::S(self.format(&m.tokens)),
            "vec" => V::L(args(&m.tokens).iter().map(|e| self.expr(e)).collect()),
            "concat" => V::S(args(&m.tokens).iter().map(|e| { let v = self.expr(e); show(&v) }).collect()),
            "stringify" => V::S(m.tokens.to_string()),
            "write" | "writeln" => {
                let a = args(&m.tokens);
                let rest: Punctuated<Expr, Token![,]> = a[1..].iter().cloned().collect();
                let mut s = self.format(&rest.to_token_stream());
                if last(&m.path) == "writeln" { s.push('\n') }
                match self.place(&a[0]) { Some(V::S(x)) => x.push_str(&s), _ => no("write", e) }
                V::O(Some(Box::new(V::U)))
            }
            _ => no("macro", e),
        }
    }
    fn expr(&mut self, e: &Expr) -> V {
        match e {
            Expr::Lit(l) => match &l.lit { Lit::Str(s) => V::S(s.value()), Lit::Bool(b) => V::B(b.value), Lit::Int(n) => V::N(n.base10_parse().unwrap_or(0)), Lit::Char(c) => V::S(c.value().to_string()), _ => no("literal", e) },
            Expr::Paren(x) => self.expr(&x.expr), Expr::Group(x) => self.expr(&x.expr), Expr::Reference(x) => self.expr(&x.expr),
            Expr::Unary(x) if matches!(x.op, syn::UnOp::Deref(_)) => self.expr(&x.expr),
            Expr::Unary(x) if matches!(x.op, syn::UnOp::Not(_)) => match self.expr(&x.expr) { V::B(b) => V::B(!b), _ => no("not", e) },
            Expr::Block(b) => self.block(&b.block), Expr::Unsafe(b) => self.block(&b.block),
            Expr::Array(a) => V::L(a.elems.iter().map(|e| self.expr(e)).collect()),
            Expr::Tuple(t) if t.elems.is_empty() => V::U,
            Expr::Macro(m) => self.macro_(&m.mac, e),
            Expr::Return(x) => match &x.expr { Some(e) => self.expr(e), None => V::U },
            Expr::If(x) => match self.expr(&x.cond) { V::B(true) => self.block(&x.then_branch), V::B(false) => match &x.else_branch { Some((_, e)) => self.expr(e), None => V::U }, _ => no("condition", &x.cond) },
            Expr::Path(p) => {
                let n = last(&p.path);
                if let Some(q) = &p.qself { return match of_type(&ty_name(&q.ty), &n) { Some(v) => v, None => no("path", e) } }
                if p.path.segments.len() == 1 { if let Some(v) = self.var(&n) { return v } if n == "None" { return V::O(None) } }
                if p.path.segments.len() > 1 { let t = p.path.segments[p.path.segments.len() - 2].ident.to_string(); if n == "NAME" { return of_type(&t, &n).unwrap() } if n == "None" { return V::O(None) } }
                no("path", e)
            }
            Expr::Struct(s) => {
                let mut f = vec![];
                for x in &s.fields { f.push((x.member.to_token_stream().to_string(), self.expr(&x.expr))) }
                let get = |n: &str| f.iter().find(|x| x.0 == n).map(|x| show(&x.1));
                match (last(&s.path).as_str(), get("ns_name"), get("name")) { ("Ref", Some(a), Some(b)) => V::Ref(a, b), _ => no("struct", e) }
            }
            Expr::Binary(b) => {
                if let syn::BinOp::AddEq(_) = b.op { let r = self.string(&b.right); match self.place(&b.left) { Some(V::S(s)) => s.push_str(&r), _ => no("assignment", e) } return V::U }
                let (x, y) = (self.expr(&b.left), self.expr(&b.right));
                match (&b.op, x, y) {
                    (syn::BinOp::Add(_), V::S(x), V::S(y)) => V::S(x + &y),
                    (syn::BinOp::Eq(_), x, y) => V::B(x == y), (syn::BinOp::Ne(_), x, y) => V::B(x != y),
                    (syn::BinOp::And(_), V::B(x), V::B(y)) => V::B(x && y), (syn::BinOp::Or(_), V::B(x), V::B(y)) => V::B(x || y),
                    (syn::BinOp::Gt(_), V::N(x), V::N(y)) => V::B(x > y), (syn::BinOp::Lt(_), V::N(x), V::N(y)) => V::B(x < y),
                    _ => no("operator", e),
                }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = c.func.as_ref() else { no("call", e) };
                let n = last(&p.path);
                if let Some(q) = &p.qself {
                    let t = ty_name(&q.ty);
                    if t == "Self" { return self.imp.call(&n) }
                    if c.args.is_empty() { return match of_type(&t, &n) { Some(v) => v, None => no("call", e) } }
                }
                let a: Vec<V> = c.args.iter().map(|e| self.expr(e)).collect();
                let before = if p.path.segments.len() > 1 { p.path.segments[p.path.segments.len() - 2].ident.to_string() } else { String::new() };
                match (before.as_str(), n.as_str(), a.as_slice()) {
                    (_, "Some", [v]) => V::O(Some(Box::new(v.clone()))),
                    (_, "Interface", [v]) => V::Def(true, show(v)), (_, "Type", [v]) => V::Def(false, show(v)), ("InlinedType", "Literal", [v]) => v.clone(),
                    ("String" | "ToString" | "ToOwned" | "From" | "Into" | "Clone" | "Cow" | "Box", _, [v]) => match (n.as_str(), v) { ("to_string", v) => V::S(show(v)), (_, v) => v.clone() },
                    ("String", "new", []) => V::S(String::new()), ("Vec", "new", []) => V::L(vec![]), ("String" | "Vec", "with_capacity", [_]) => if before == "String" { V::S(String::new()) } else { V::L(vec![]) },
                    ("Self", m, []) => self.imp.call(m),
                    (t, m, []) if !t.is_empty() => match of_type(t, m) { Some(v) => v, None => no("call", e) },
                    _ => no("call", e),
                }
            }
            Expr::MethodCall(c) => {
                let m = c.method.to_string();
                if matches!(m.as_str(), "push" | "push_str" | "extend" | "insert_str") {
                    let a: Vec<V> = c.args.iter().map(|e| self.expr(e)).collect();
                    match (self.place(&c.receiver), a.as_slice()) { (Some(V::S(s)), [x]) if m != "extend" => s.push_str(&show(x)), (Some(V::L(l)), [x]) if m == "push" => l.push(x.clone()), (Some(V::L(l)), [V::L(x)]) => l.extend(x.iter().cloned()), _ => no("method", e) }
                    return V::U;
                }
                let r = self.expr(&c.receiver);
                let a: Vec<V> = c.args.iter().map(|e| self.expr(e)).collect();
                match (m.as_str(), r, a.as_slice()) {
                    ("join", V::L(l), [V::S(s)]) => V::S(l.iter().map(show).collect::<Vec<_>>().join(s)),
                    ("concat", V::L(l), []) => V::S(l.iter().map(show).collect()),
                    ("to_string", v, []) => V::S(show(&v)),
                    ("to_owned" | "clone" | "into" | "as_str" | "as_ref" | "deref" | "borrow" | "iter" | "into_iter" | "cloned" | "copied" | "to_vec" | "unwrap" | "as_slice" | "into_boxed_str" | "into_string", v, []) => match (m.as_str(), v) { ("unwrap", V::O(Some(v))) => *v, (_, v) => v },
                    ("collect", V::L(l), []) => if c.turbofish.as_ref().map_or(false, |t| t.to_token_stream().to_string().contains("String") && !t.to_token_stream().to_string().contains("Vec")) { V::S(l.iter().map(show).collect()) } else { V::L(l) },
                    ("is_empty", V::L(l), []) => V::B(l.is_empty()), ("is_empty", V::S(s), []) => V::B(s.is_empty()), ("len", V::L(l), []) => V::N(l.len() as u64),
                    ("expect" | "unwrap_or_default", V::O(Some(v)), _) => *v,
                    ("replace", V::S(s), [V::S(x), V::S(y)]) => V::S(s.replace(x.as_str(), y)),
                    ("trim", V::S(s), []) => V::S(s.trim().to_string()),
                    _ => no("method", e),
                }
            }
            e => no("expression", e),
        }
    }
}
