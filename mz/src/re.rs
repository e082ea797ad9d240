//! the part of regular expressions that needs no explanation: anchors, `.`, characters, classes, groups, quantifiers
#[derive(Clone, Debug, PartialEq)]
enum N { Start, End, Any, Ch(u32), Class(Vec<(u32, u32)>, bool), Group(Vec<Vec<N>>), Rep(Box<N>, usize, usize) }
pub struct Re { alts: Vec<Vec<N>>, u: bool, s: bool }
impl Re {
    pub fn new(body: &str, flags: &str) -> Result<Re, String> {
        if flags.chars().any(|c| !"su".contains(c)) { return Err(format!("flags {flags}")) }
        let c: Vec<u32> = body.chars().map(|c| c as u32).collect();
        let mut i = 0;
        let alts = alts(&c, &mut i)?;
        if i != c.len() { return Err("unbalanced parenthesis".into()) }
        Ok(Re { alts, u: flags.contains('u'), s: flags.contains('s') })
    }
    /// is there a match anywhere in the text?
    pub fn test(&self, t: &str) -> bool {
        let v: Vec<u32> = if self.u { t.chars().map(|c| c as u32).collect() } else { t.encode_utf16().map(|c| c as u32).collect() };
        (0..=v.len()).any(|i| self.any(&self.alts, &v, i, &mut |_| true))
    }
    fn any(&self, a: &[Vec<N>], v: &[u32], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool { a.iter().any(|s| self.seq(s, v, i, k)) }
    fn seq(&self, s: &[N], v: &[u32], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
        match s.split_first() { None => k(i), Some((n, r)) => self.one(n, v, i, &mut |j| self.seq(r, v, j, k)) }
    }
    fn one(&self, n: &N, v: &[u32], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
        match n {
            N::Start => i == 0 && k(i),
            N::End => i == v.len() && k(i),
            N::Any => i < v.len() && (self.s || !matches!(v[i], 10 | 13 | 0x2028 | 0x2029)) && k(i + 1),
            N::Ch(c) => i < v.len() && v[i] == *c && k(i + 1),
            N::Class(r, neg) => i < v.len() && r.iter().any(|(a, b)| *a <= v[i] && v[i] <= *b) != *neg && k(i + 1),
            N::Group(a) => self.any(a, v, i, k),
            N::Rep(n, lo, hi) => {
                if *hi > 0 && self.one(n, v, i, &mut |j| (j > i || *lo > 0) && self.one(&N::Rep(n.clone(), lo.saturating_sub(1), hi.saturating_sub(1)), v, j, k)) { return true }
                *lo == 0 && k(i)
            }
        }
    }
}
fn alts(c: &[u32], i: &mut usize) -> Result<Vec<Vec<N>>, String> {
    let mut out = vec![vec![]];
    while *i < c.len() && c[*i] != b')' as u32 {
        let ch = char::from_u32(c[*i]).unwrap();
        *i += 1;
        let n = match ch {
            '|' => { out.push(vec![]); continue }
            '^' => N::Start, '$' => N::End, '.' => N::Any,
            '(' => {
                if *i + 1 < c.len() && c[*i] == b'?' as u32 { if c[*i + 1] != b':' as u32 { return Err("lookaround".into()) } *i += 2 }
                let a = alts(c, i)?;
                if *i >= c.len() { return Err("unbalanced parenthesis".into()) }
                *i += 1;
                N::Group(a)
            }
            '[' => {
                let neg = *i < c.len() && c[*i] == b'^' as u32;
                if neg { *i += 1 }
                let mut r = vec![];
                loop {
                    if *i >= c.len() { return Err("unterminated class".into()) }
                    if c[*i] == b']' as u32 { *i += 1; break }
                    let a = atom(c, i, &mut r)?;
                    let Some(a) = a else { continue };
                    if *i + 1 < c.len() && c[*i] == b'-' as u32 && c[*i + 1] != b']' as u32 { *i += 1; let b = atom(c, i, &mut r)?.ok_or("class range")?; r.push((a, b)) } else { r.push((a, a)) }
                }
                N::Class(r, neg)
            }
            '\\' => { *i -= 1; let mut r = vec![]; match atom(c, i, &mut r)? { Some(a) => N::Ch(a), None => N::Class(r, false) } }
            '?' | '*' | '+' | '{' => {
                let n = out.last_mut().unwrap().pop().ok_or("nothing to repeat")?;
                let (lo, hi) = match ch {
                    '?' => (0, 1), '*' => (0, usize::MAX), '+' => (1, usize::MAX),
                    _ => {
                        let e = (*i..c.len()).find(|j| c[*j] == b'}' as u32).ok_or("brace")?;
                        let t: String = c[*i..e].iter().filter_map(|x| char::from_u32(*x)).collect();
                        *i = e + 1;
                        let p: Vec<&str> = t.split(',').collect();
                        let lo = p[0].parse::<usize>().map_err(|_| "brace")?;
                        (lo, if p.len() == 1 { lo } else if p[1].is_empty() { usize::MAX } else { p[1].parse::<usize>().map_err(|_| "brace")? })
                    }
                };
                if *i < c.len() && c[*i] == b'?' as u32 { *i += 1 }
                N::Rep(Box::new(n), lo, hi)
            }
            ch => N::Ch(ch as u32),
        };
        out.last_mut().unwrap().push(n);
    }
    Ok(out)
}
fn atom(c: &[u32], i: &mut usize, r: &mut Vec<(u32, u32)>) -> Result<Option<u32>, String> {
    let a = c[*i];
    *i += 1;
    if a != b'\\' as u32 { return Ok(Some(a)) }
    if *i >= c.len() { return Err("backslash".into()) }
    let e = char::from_u32(c[*i]).unwrap();
    *i += 1;
    Ok(match e {
        'd' => { r.push((48, 57)); None }
        'w' => { r.extend([(48, 57), (65, 90), (95, 95), (97, 122)]); None }
        'n' => Some(10), 'r' => Some(13), 't' => Some(9),
        e if e.is_ascii_alphanumeric() => return Err(format!("escape \\{e}")),
        e => Some(e as u32),
    })
}
