mod exec; mod expr; mod ir; mod llvm; mod mem; mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::rc::Rc;
use std::time::{Duration, Instant};

/// a rough demangler: the path identifiers of a v0 or legacy symbol
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !(n.starts_with("_R") || n.starts_with("_ZN")) { return n.to_string(); }
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i; let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { k = k * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' && n.starts_with("_R") { j += 1; }
            if k <= b.len() - j.min(b.len()) && k > 0 {
                let s = &n[j..j + k];
                if s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c == b'.') && !(s.len() == 17 && s.starts_with('h')) { out.push(s.to_string()); i = j + k; continue; }
            }
            i = j;
        } else if b[i] == b'B' && n.starts_with("_R") { // back reference B<base62>_
            let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 6 { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; } else { i += 1; }
        } else if b[i] == b's' && n.starts_with("_R") { // disambiguator s<base62>_
            let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 14 { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; } else { i += 1; }
        } else { i += 1; }
    }
    out.join("::")
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setpriority(which: i32, who: u32, prio: i32) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"'); o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

fn write_result(x: &Exec, path: &str) {
    // line-based so that the root process can merge without a JSON parser
    let mut o = String::new();
    let s = &x.st;
    let _ = writeln!(o, "n paths {}\nn infeasible {}\nn forks {}\nn asserts {}\nn asserts_symbolic {}\nn domain_decisions {}\nn cache_hits {}\nn steps {}\nn queries {}\nn sat {}\nn unsat {}\nn unknown {}\nf solver_seconds {}\nm max_query_seconds {}\nm max_vars {}",
        s.paths, s.infeasible, s.forks, s.asserts, s.asserts_sym, s.dom_decisions, s.cache_hits, s.steps, x.z.queries, x.z.sat, x.z.unsat, x.z.unknown, x.z.secs, x.z.max_secs, s.max_vars);
    for (k, v) in &s.covers { let _ = writeln!(o, "c {k} {v}"); }
    for (k, v) in &s.stopped { let _ = writeln!(o, "s {v} {}", k.replace('\n', " ")); }
    for e in &s.errors { let _ = writeln!(o, "e {}", e.replace('\n', " ")); }
    for v in &s.viols { let _ = writeln!(o, "v {} {} {}", hex(&v.input), hex(v.msg.as_bytes()), v.stack.join(" <- ").replace('\n', " ")); }
    for (i, ob, _) in &s.samples { let _ = writeln!(o, "p {} {}", hex(i), hex(ob)); }
    let mut names = BTreeMap::new();
    for f in &x.md.fns { if f.hits > 0 { *names.entry(demangle(&f.name)).or_insert(0u64) += f.hits; } }
    for (n, h) in names { let _ = writeln!(o, "h {h} {n}"); }
    std::fs::write(path, o).unwrap();
}

fn main() {
    let mut a = std::env::args().skip(1);
    let (mut bc, mut out, mut entry) = (String::new(), String::new(), "harness".to_string());
    let mut cfg = Cfg { max_paths: 1_000_000, max_steps: 200_000_000, params: vec![], max_fan: 256, samples: 6, trace: false };
    let (mut jobs, mut secs, mut tmo, mut maxviol) = (8u32, 600u64, 60_000u64, 0usize);
    while let Some(k) = a.next() {
        let mut v = || a.next().unwrap();
        match k.as_str() {
            "--bc" => bc = v(), "--out" => out = v(), "--entry" => entry = v(), "--jobs" => jobs = v().parse().unwrap(), "--secs" => secs = v().parse().unwrap(),
            "--max-paths" => cfg.max_paths = v().parse().unwrap(), "--max-steps" => cfg.max_steps = v().parse().unwrap(), "--timeout" => tmo = v().parse().unwrap(),
            "--param" => cfg.params.push(v().parse().unwrap()), "--samples" => cfg.samples = v().parse().unwrap(), "--trace" => cfg.trace = true, "--max-viol" => maxviol = v().parse().unwrap(),
            o => { eprintln!("unknown option {o}"); std::process::exit(3); }
        }
    }
    let t0 = Instant::now();
    unsafe { setpriority(0, 0, 5); }
    let mut mem = mem::Mem::new();
    let md = llvm::Module::load(&bc, &mut mem);
    let load_secs = t0.elapsed().as_secs_f64();
    let mut x = Exec::new(md, cfg, tmo);
    let mut st = x.initial(mem);
    for c in x.md.ctors.clone() {
        x.push_call(&mut st, c, vec![ir::V::C(0), ir::V::C(0x2800), ir::V::C(0x2800)], u32::MAX, None);
        let (s2, stop) = x.run(st);
        match stop { Stop::Done => {} Stop::Error(m) | Stop::Violation(m) => { eprintln!("constructor failed: {m}: {:?}", x.stack(&s2)); std::process::exit(3); } _ => {} }
        st = s2;
    }
    let Some(&id) = x.md.fn_by_name.get(&entry) else { eprintln!("no function {entry}"); std::process::exit(3) };
    x.push_call(&mut st, id, vec![], u32::MAX, None);
    st.steps = 0;
    x.work.push(st);

    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    let ctr = |i: usize| unsafe { &*(shared as *const std::sync::atomic::AtomicU64).add(i) };
    use std::sync::atomic::Ordering::SeqCst;
    ctr(0).store(1, SeqCst); // running processes
    // ctr(1): finished paths over all processes; ctr(2): result file counter; ctr(3): stop flag; ctr(4): violations
    let mut me = ctr(2).fetch_add(1, SeqCst);
    let mut kids: Vec<i32> = vec![];
    let mut last = Instant::now();
    let mut is_root = true;
    while let Some(s) = x.work.pop() {
        let (s, stop) = x.run(s);
        if matches!(stop, Stop::Violation(_)) { let n = ctr(4).fetch_add(1, SeqCst) + 1; if maxviol > 0 && n >= maxviol as u64 { ctr(3).store(1, SeqCst); } }
        x.finish(s, stop);
        let n = ctr(1).fetch_add(1, SeqCst);
        if n > x.cfg.max_paths { x.st.errors.push(format!("path limit {} reached", x.cfg.max_paths)); ctr(3).store(1, SeqCst); }
        if t0.elapsed() > Duration::from_secs(secs) { x.st.errors.push(format!("time limit {secs}s reached with {} states left", x.work.len())); ctr(3).store(1, SeqCst); }
        if ctr(3).load(SeqCst) != 0 { break; }
        if x.st.errors.len() >= 20 { ctr(3).store(1, SeqCst); break; }
        if x.work.len() >= 4 && last.elapsed() > Duration::from_millis(30) {
            last = Instant::now();
            let r = ctr(0).load(SeqCst);
            if r < jobs as u64 && ctr(0).compare_exchange(r, r + 1, SeqCst, SeqCst).is_ok() {
                let p = unsafe { fork() };
                if p == 0 {
                    is_root = false;
                    me = ctr(2).fetch_add(1, SeqCst);
                    kids.clear();
                    x.st = Stats::default();
                    x.z.queries = 0; x.z.sat = 0; x.z.unsat = 0; x.z.unknown = 0; x.z.secs = 0.0; x.z.max_secs = 0.0;
                    for f in x.md.fns.iter_mut() { f.hits = 0; }
                    let w = std::mem::take(&mut x.work);
                    x.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, s)| s).collect();
                } else if p > 0 {
                    kids.push(p);
                    let w = std::mem::take(&mut x.work);
                    x.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|(_, s)| s).collect();
                } else { ctr(0).fetch_sub(1, SeqCst); }
            }
        }
    }
    ctr(0).fetch_sub(1, SeqCst);
    let path = |i: u64| format!("{out}.part{i}");
    write_result(&x, &path(me));
    let mut bad = 0;
    for k in kids { let mut s = 0; unsafe { waitpid(k, &mut s, 0); } if s != 0 { bad += 1; } }
    if !is_root { unsafe { extern "C" { fn _exit(c: i32) -> !; } _exit((bad > 0) as i32) } }
    // merge
    let mut nums: BTreeMap<String, f64> = BTreeMap::new();
    let mut covers: BTreeMap<u64, u64> = BTreeMap::new();
    let mut stops: BTreeMap<String, u64> = BTreeMap::new();
    let (mut errs, mut viols, mut samples, mut hits) = (vec![], vec![], vec![], BTreeMap::<String, u64>::new());
    if bad > 0 { errs.push(format!("{bad} worker processes died")); }
    let total = ctr(2).load(SeqCst);
    for i in 0..total {
        let Ok(t) = std::fs::read_to_string(path(i)) else { errs.push(format!("worker {i} left no result")); continue };
        let _ = std::fs::remove_file(path(i));
        for l in t.lines() {
            let (k, r) = l.split_at(2);
            let mut p = r.splitn(3, ' ');
            let mut nx = || p.next().unwrap_or("").to_string();
            match k {
                "n " | "f " => { let n = nx(); let v: f64 = nx().parse().unwrap(); *nums.entry(n).or_insert(0.0) += v; }
                "m " => { let n = nx(); let v: f64 = nx().parse().unwrap(); let e = nums.entry(n).or_insert(0.0); if v > *e { *e = v; } }
                "c " => { let n = nx().parse().unwrap(); let v: u64 = nx().parse().unwrap(); *covers.entry(n).or_insert(0) += v; }
                "s " => { let (n, w) = r.split_once(' ').unwrap(); *stops.entry(w.to_string()).or_insert(0) += n.parse::<u64>().unwrap(); }
                "e " => errs.push(r.to_string()),
                "v " => viols.push((nx(), nx(), nx())),
                "p " => samples.push((nx(), nx())),
                "h " => { let (n, w) = r.split_once(' ').unwrap(); *hits.entry(w.to_string()).or_insert(0) += n.parse::<u64>().unwrap(); }
                _ => {}
            }
        }
    }
    let mut o = String::from("{");
    for (k, v) in &nums { let _ = write!(o, "{}: {}, ", js(k), v); }
    let _ = write!(o, "\"wall_seconds\": {}, \"load_seconds\": {load_secs}, \"processes\": {total}, ", t0.elapsed().as_secs_f64());
    let _ = write!(o, "\"covers\": {{{}}}, ", covers.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", "));
    let _ = write!(o, "\"ended\": {{{}}}, ", stops.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
    let _ = write!(o, "\"errors\": [{}], ", errs.iter().map(|e| js(e)).collect::<Vec<_>>().join(", "));
    let mut seen = BTreeSet::new();
    let unhex = |s: &str| -> String { let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect(); String::from_utf8_lossy(&b).into_owned() };
    let vs: Vec<String> = viols.iter().filter(|v| seen.insert(v.1.clone())).map(|(i, m, s)| format!("{{\"input\": \"{i}\", \"msg\": {}, \"stack\": {}}}", js(&unhex(m)), js(s))).collect();
    let _ = write!(o, "\"violations\": [{}], ", vs.join(", "));
    let _ = write!(o, "\"samples\": [{}], ", samples.iter().map(|(i, ob)| format!("{{\"input\": \"{i}\", \"obs\": \"{ob}\"}}")).collect::<Vec<_>>().join(", "));
    let _ = write!(o, "\"functions\": {{{}}}}}", hits.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
    std::fs::write(&out, o).unwrap();
    let _ = Rc::new(0);
    unsafe { extern "C" { fn _exit(c: i32) -> !; } _exit(0) }
}
