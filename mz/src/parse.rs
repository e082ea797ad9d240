//! Recursive descent over the text. Errors are messages.
#[derive(Clone, Debug, PartialEq)]
pub enum Ex { Id(String), Str(String), Num(String), Re(String, String), Obj(Vec<(String, Ex)>), Arr(Vec<Ex>), Arrow(Vec<String>, Box<Ex>), Mem(Box<Ex>, String), Call(Box<Ex>, Vec<Ex>), Spread(Box<Ex>) }
#[derive(Clone, Debug, PartialEq)]
pub struct Mem { pub key: String, pub opt: bool, pub ty: Ty }
#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Prim(String), Lit(String), Num(String), Obj(Vec<Mem>), Tuple(Vec<Ty>), Gen(String, Vec<Ty>), Union(Vec<Ty>), Inter(Vec<Ty>), Ref(String, String) }
pub type R<T> = Result<T, String>;

/// `docs`: the block comments that were skipped
pub struct P<'a> { pub s: &'a [u8], pub i: usize, pub docs: Vec<String> }
pub fn expr_all(s: &str) -> R<Ex> { let mut p = P::new(s); let e = p.expr()?; p.end()?; Ok(e) }
pub fn type_all(s: &str) -> R<Ty> { let mut p = P::new(s); let e = p.ty()?; p.end()?; Ok(e) }
fn idstart(c: u8) -> bool { c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c >= 128 }
fn idcont(c: u8) -> bool { idstart(c) || c.is_ascii_digit() }
pub fn is_ident(s: &str) -> bool { let b = s.as_bytes(); !b.is_empty() && idstart(b[0]) && b.iter().all(|c| idcont(*c)) }

impl<'a> P<'a> {
    pub fn new(s: &'a str) -> Self { P { s: s.as_bytes(), i: 0, docs: vec![] } }
    pub fn peek(&self) -> u8 { self.at(0) }
    pub fn at(&self, k: usize) -> u8 { if self.i + k < self.s.len() { self.s[self.i + k] } else { 0 } }
    pub fn eof(&self) -> bool { self.i >= self.s.len() }
    /// skips blanks and comments
    pub fn ws(&mut self) -> R<()> {
        loop {
            if self.eof() { return Ok(()) }
            let c = self.peek();
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { self.i += 1; continue }
            if c == b'/' && self.at(1) == b'/' { while !self.eof() && self.peek() != b'\n' { self.i += 1 } continue }
            if c == b'/' && self.at(1) == b'*' {
                let st = self.i;
                self.i += 2;
                loop {
                    if self.eof() { return Err("unterminated comment".into()) }
                    if self.peek() == b'*' && self.at(1) == b'/' { self.i += 2; break }
                    self.i += 1;
                }
                let t = self.text(st, self.i);
                self.docs.push(t);
                continue;
            }
            return Ok(())
        }
    }
    pub fn text(&self, a: usize, b: usize) -> String { String::from_utf8_lossy(&self.s[a..b]).into_owned() }
    pub fn end(&mut self) -> R<()> { self.ws()?; if self.eof() { Ok(()) } else { Err(format!("unexpected text at {}", self.i)) } }
    pub fn is(&mut self, t: &str) -> R<bool> { self.ws()?; Ok(self.s[self.i.min(self.s.len())..].starts_with(t.as_bytes())) }
    pub fn eat(&mut self, t: &str) -> R<bool> { if self.is(t)? { self.i += t.len(); Ok(true) } else { Ok(false) } }
    pub fn need(&mut self, t: &str) -> R<()> { if self.eat(t)? { Ok(()) } else { Err(format!("expected `{t}` at {}", self.i)) } }
    pub fn is_id(&mut self) -> R<bool> { self.ws()?; Ok(!self.eof() && idstart(self.peek())) }
    pub fn ident(&mut self) -> R<String> {
        if !self.is_id()? { return Err(format!("expected a name at {}", self.i)) }
        let st = self.i;
        while !self.eof() && idcont(self.peek()) { self.i += 1 }
        Ok(self.text(st, self.i))
    }
    /// a given word
    pub fn word(&mut self, w: &str) -> R<bool> {
        if self.is(w)? && !(self.i + w.len() < self.s.len() && idcont(self.s[self.i + w.len()])) { self.i += w.len(); Ok(true) } else { Ok(false) }
    }
    pub fn string(&mut self) -> R<String> {
        let q = self.peek();
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            if self.eof() { return Err("unterminated string".into()) }
            let c = self.peek();
            self.i += 1;
            if c == q { break }
            if c == b'\n' || c == b'\r' { return Err("line break in a string".into()) }
            if c != b'\\' { out.push(c); continue }
            if self.eof() { return Err("unterminated string".into()) }
            let c = self.peek();
            self.i += 1;
            match c {
                b'n' => out.push(b'\n'), b'r' => out.push(b'\r'), b't' => out.push(b'\t'), b'b' => out.push(8), b'f' => out.push(12), b'v' => out.push(11),
                b'0' if !self.peek().is_ascii_digit() => out.push(0),
                b'x' | b'u' => {
                    let mut hi = None;
                    let mut n = self.unit(c)?;
                    if (0xd800..0xdc00).contains(&n) && self.peek() == b'\\' && self.at(1) == b'u' { self.i += 2; hi = Some(n); n = self.unit(b'u')? }
                    if let Some(h) = hi { n = 0x10000 + ((h - 0xd800) << 10) + n.wrapping_sub(0xdc00) }
                    match char::from_u32(n) { Some(ch) => out.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes()), None => return Err("lone surrogate in a string".into()) }
                }
                b'\n' => {}
                b'0'..=b'9' => return Err("octal escape in a string".into()),
                c => out.push(c),
            }
        }
        String::from_utf8(out).map_err(|_| "a string that is not UTF-8".into())
    }
    fn unit(&mut self, kind: u8) -> R<u32> {
        let (mut n, mut k) = (0u32, 0);
        let brace = kind == b'u' && self.peek() == b'{';
        if brace { self.i += 1 }
        loop {
            if brace && self.peek() == b'}' && k > 0 { self.i += 1; return Ok(n) }
            let d = match self.peek() { c @ b'0'..=b'9' => c - b'0', c @ b'a'..=b'f' => c - b'a' + 10, c @ b'A'..=b'F' => c - b'A' + 10, _ => return Err("bad escape in a string".into()) };
            self.i += 1; k += 1;
            n = n * 16 + d as u32;
            if n > 0x10ffff { return Err("bad escape in a string".into()) }
            if !brace && k == if kind == b'x' { 2 } else { 4 } { return Ok(n) }
        }
    }
    fn number(&mut self) -> R<String> {
        let st = self.i;
        if self.peek() == b'-' { self.i += 1 }
        let d = self.i;
        while self.peek().is_ascii_digit() || self.peek() == b'.' || self.peek() == b'_' { self.i += 1 }
        if self.i == d { return Err(format!("expected a number at {}", st)) }
        if self.i - d > 1 && self.s[d] == b'0' && self.s[d + 1] != b'.' { return Err("number with a leading zero".into()) }
        if self.peek() | 32 == b'e' {
            self.i += 1;
            if self.peek() == b'-' || self.peek() == b'+' { self.i += 1 }
            let e = self.i;
            while self.peek().is_ascii_digit() { self.i += 1 }
            if self.i == e { return Err(format!("an exponent without digits at {}", e)) }
        }
        if self.peek() == b'n' { return Err("a bigint".into()) }
        if !self.eof() && idcont(self.peek()) { return Err(format!("unexpected text after a number at {}", self.i)) }
        Ok(self.text(st, self.i))
    }
    /// the name of a property
    pub fn key(&mut self) -> R<String> {
        self.ws()?;
        let c = self.peek();
        if c == b'"' || c == b'\'' { return self.string() }
        if c == b'[' {
            self.i += 1; self.ws()?;
            let c = self.peek();
            if c != b'"' && c != b'\'' { return Err("computed key".into()) }
            let s = self.string()?; self.need("]")?; return Ok(s)
        }
        if c.is_ascii_digit() { let n = self.number()?; if n.len() > 15 || n.contains('.') || n.contains('_') { return Err("numeric key".into()) } return Ok(n) }
        self.ident()
    }
    pub fn list<T>(&mut self, end: &str, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let mut v = vec![];
        loop {
            if self.eat(end)? { return Ok(v) }
            v.push(f(self)?);
            if self.eat(end)? { return Ok(v) }
            self.need(",")?;
        }
    }
    pub fn expr(&mut self) -> R<Ex> {
        let mut e = self.primary()?;
        loop {
            self.ws()?;
            if self.peek() == b'.' && self.at(1) != b'.' { self.i += 1; let n = self.ident()?; e = Ex::Mem(Box::new(e), n) }
            else if self.peek() == b'(' { self.i += 1; let a = self.list(")", |p| p.expr())?; e = Ex::Call(Box::new(e), a) }
            else { return Ok(e) }
        }
    }
    fn primary(&mut self) -> R<Ex> {
        self.ws()?;
        let c = self.peek();
        if c == b'"' || c == b'\'' { return Ok(Ex::Str(self.string()?)) }
        if c == b'{' {
            self.i += 1;
            return Ok(Ex::Obj(self.list("}", |p| { let k = p.key()?; p.need(":")?; Ok((k, p.expr()?)) })?))
        }
        if c == b'[' { self.i += 1; return Ok(Ex::Arr(self.list("]", |p| p.expr())?)) }
        if c == b'.' { self.need("...")?; return Ok(Ex::Spread(Box::new(self.expr()?))) }
        if c == b'(' {
            let st = self.i;
            self.i += 1;
            if self.eat(")")? { self.need("=>")?; return Ok(Ex::Arrow(vec![], Box::new(self.expr()?))) }
            if let Ok(e) = self.expr() { if self.eat(")")? { if let Ex::Id(n) = &e { if self.eat("=>")? { return Ok(Ex::Arrow(vec![n.clone()], Box::new(self.expr()?))) } } return Ok(e) } }
            return Err(format!("unexpected text in parentheses at {st}"))
        }
        if c == b'/' {
            self.i += 1;
            let st = self.i;
            let mut class = false;
            loop {
                if self.eof() || self.peek() == b'\n' { return Err("unterminated regular expression".into()) }
                match self.peek() { b'\\' => self.i += 1, b'[' => class = true, b']' => class = false, b'/' if !class => break, _ => {} }
                self.i += 1;
            }
            let body = self.text(st, self.i);
            self.i += 1;
            let st = self.i;
            while !self.eof() && idcont(self.peek()) { self.i += 1 }
            return Ok(Ex::Re(body, self.text(st, self.i)))
        }
        if c == b'-' || c.is_ascii_digit() { return Ok(Ex::Num(self.number()?)) }
        let n = self.ident()?;
        if self.is("=>")? { self.need("=>")?; return Ok(Ex::Arrow(vec![n], Box::new(self.expr()?))) }
        Ok(Ex::Id(n))
    }
    pub fn ty(&mut self) -> R<Ty> {
        self.eat("|")?;
        let mut v = vec![self.inter()?];
        while self.is("|")? { self.need("|")?; v.push(self.inter()?) }
        Ok(if v.len() == 1 { v.pop().unwrap() } else {
            // unions are flat
            let mut f = vec![];
            for t in v { match t { Ty::Union(u) => f.extend(u), t => f.push(t) } }
            Ty::Union(f)
        })
    }
    fn inter(&mut self) -> R<Ty> {
        let mut v = vec![self.postfix()?];
        while self.is("&")? { self.need("&")?; v.push(self.postfix()?) }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Ty::Inter(v) })
    }
    fn postfix(&mut self) -> R<Ty> {
        let mut t = self.typrim()?;
        while self.is("[")? { self.need("[")?; self.need("]")?; t = Ty::Gen("Array".into(), vec![t]) }
        Ok(t)
    }
    pub fn members(&mut self) -> R<Vec<Mem>> {
        let mut v = vec![];
        loop {
            if self.eat("}")? { return Ok(v) }
            let key = self.key()?;
            let opt = self.eat("?")?;
            self.need(":")?;
            let st = self.i;
            let ty = self.ty()?;
            v.push(Mem { key, opt, ty });
            if self.eat("}")? { return Ok(v) }
            if !self.eat(",")? && !self.eat(";")? && !self.s[st..self.i].contains(&b'\n') { return Err(format!("expected a separator at {}", self.i)) }
        }
    }
    fn typrim(&mut self) -> R<Ty> {
        self.ws()?;
        let c = self.peek();
        if c == b'"' || c == b'\'' { return Ok(Ty::Lit(self.string()?)) }
        if c == b'-' || c.is_ascii_digit() { return Ok(Ty::Num(self.number()?)) }
        if c == b'{' { self.i += 1; return Ok(Ty::Obj(self.members()?)) }
        if c == b'[' { self.i += 1; return Ok(Ty::Tuple(self.list("]", |p| p.ty())?)) }
        if c == b'(' { self.i += 1; let t = self.ty()?; self.need(")")?; return Ok(t) }
        let n = self.ident()?;
        if self.peek() == b'.' { self.i += 1; let m = self.ident()?; return Ok(Ty::Ref(n, m)) }
        if self.is("<")? { self.need("<")?; return Ok(Ty::Gen(n, self.list(">", |p| p.ty())?)) }
        Ok(Ty::Prim(n))
    }
}
