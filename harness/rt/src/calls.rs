//! R03, R04: calls are answered once, under their id, and reach the method they name.
use crate::{backend::*, drain, run, Rx};
use serde_json::{json, Value};
use zod::rpc::{Backend, Request, Response, SubscriberMap};

fn object(ns: &str, m: &str, args: Value) -> Value { json!({ "namespace": ns, "method": m, "args": args }) }

/// one argument of a symbolic kind and value; the number it denotes if it is an unsigned integer
fn arg() -> (Value, Option<u64>) {
    match zs::choice(7) {
        0 => { let v = [0, 200, 65400, u32::MAX as u64 - 100, (1 << 53) - 9, u64::MAX - 255][zs::choice(6)] + zs::byte(0, 255) as u64; (Value::from(v), Some(v)) }
        1 => { let v = zs::byte(1, 255); (Value::from(-(v as i64)), None) }
        2 => (Value::Null, None),
        3 => (Value::Bool(true), None),
        4 => (json!("7"), None),
        5 => (json!([7]), None),
        _ => (json!(1.5), None),
    }
}
/// up to `n + 1` arguments for a method that takes `n`
fn arglist(n: usize) -> (Value, Option<Vec<u64>>) {
    let k = match zs::choice(4) { 0 if n > 0 => n - 1, 1 => n + 1, 2 => { return (match zs::choice(3) { 0 => Value::Null, 1 => json!({}), _ => json!(3) }, None) } _ => n };
    let odd = zs::choice(n + 1); // at most one argument of an unusual kind
    let mut vs = vec![]; let mut nums = vec![]; let mut ok = k == n;
    for i in 0..k {
        let (v, x) = if i == odd { arg() } else { let v = zs::byte(0, 255) as u64; (Value::from(v), Some(v)) };
        vs.push(v);
        match x { Some(x) => nums.push(x), None => ok = false }
    }
    (Value::Array(vs), if ok { Some(nums) } else { None })
}
struct Want { ns: &'static str, m: &'static str, args: Vec<u64>, data: Option<Value> }

/// a request and what it must do: a call with the result, or an error
fn request() -> (Value, Option<Want>) {
    let small = |x: u64, max: u64| x <= max;
    match zs::choice(9) {
        0 => { let (a, w) = arglist(0); (object("Alpha", "zero", a), w.map(|_| Want { ns: "Alpha", m: "zero", args: vec![], data: Some(json!(70)) })) }
        1 => { let (a, w) = arglist(1); (object("Alpha", "one", a), w.filter(|w| small(w[0], 255)).map(|w| Want { ns: "Alpha", m: "one", data: Some(json!(w[0] + 1)), args: w })) }
        2 => { let (a, w) = arglist(2); (object("Alpha", "two", a), w.filter(|w| w.iter().all(|x| small(*x, u32::MAX as u64))).map(|w| Want { ns: "Alpha", m: "two", data: Some(json!([w[0], w[1]])), args: w })) }
        3 => { let (a, w) = arglist(3); (object("Alpha", "three", a), w.filter(|w| small(w[0], u32::MAX as u64) && small(w[2], u32::MAX as u64)).map(|w| Want { ns: "Alpha", m: "three", data: Some(json!([w[0], w[1], w[2]])), args: w })) }
        4 => { let b = zs::flag(); (object("Alpha", "unit", json!([b])), Some(Want { ns: "Alpha", m: "unit", args: vec![b as u64], data: Some(Value::Null) })) }
        5 => { let s = String::from_utf8(zs::bytes(2, 0, 127)).unwrap(); (object("Alpha", "text", json!([s])), Some(Want { ns: "Alpha", m: "text", args: vec![2], data: Some(Value::String(s)) })) }
        6 => (object("Alpha", "bad", json!([])), Some(Want { ns: "Alpha", m: "bad", args: vec![], data: None })),
        7 => { let n = zs::choice(3) as u64; let v = zs::byte(0, 255) as u64; (object("Alpha", "slow", json!([n, v])), Some(Want { ns: "Alpha", m: "slow", args: vec![n, v], data: Some(json!(v)) })) }
        _ => { let (a, w) = arglist(1); (object("Beta_2", "one", a), w.filter(|w| small(w[0], 255)).map(|w| Want { ns: "Beta_2", m: "one", data: Some(json!(w[0] + 2)), args: w })) }
    }
}
fn judge(id: usize, want: &Option<Want>, rx: &mut Rx) {
    let got = drain(rx);
    zs::check(got.len() == 1, "a call is not answered by exactly one response");
    let log = take_log();
    match (want, &got[0]) {
        (Some(Want { data: Some(d), .. }), Response::Method { id: i, data }) => { zs::cover(1); zs::check(*i == id, "a call is answered under another id"); zs::check(data == d, "a call is answered with another result") }
        (Some(Want { data: None, .. }), Response::Error { id: i, .. }) => { zs::cover(2); zs::check(*i == Some(id), "an error is sent under another id") }
        (None, Response::Error { id: i, .. }) => { zs::cover(3); zs::check(*i == Some(id), "an error is sent under another id"); zs::check(log.is_empty(), "a rejected request ran a method") }
        (None, _) => zs::fail("a request that cannot be served is not answered with an error"),
        (Some(Want { data: Some(_), .. }), _) => zs::fail("a valid call is not answered with its result"),
        (Some(_), _) => zs::fail("an unserializable result is not answered with an error"),
    }
    if let Some(w) = want {
        zs::check(log.len() == 1 && log[0].0 == w.ns && log[0].1 == w.m && log[0].2 == w.args, "the method that ran, or its arguments, are not those of the request");
    }
}
/// a sequence of `param 0` requests with symbolic ids, methods and arguments
pub fn calls() {
    let k = zs::param(0) as usize;
    run(async move {
        let mut b = server();
        let mut subs = SubscriberMap::default();
        let (tx, mut rx) = futures::channel::mpsc::unbounded();
        let full = zs::choice(k);
        // with or without a stream that is running under one of the ids
        let busy = zs::flag();
        if busy {
            b.handle_request(Request::Exec { id: 1, value: object("Alpha", "silent", json!([])) }, tx.clone(), &mut subs).await;
            zs::check(drain(&mut rx).is_empty() && take_log().len() == 1, "a stream call is answered like a method");
        }
        for i in 0..k {
            let id = if i == full && !busy { zs::u64() as usize } else { zs::choice(2) };
            let (value, want) = if i == full { request() } else {
                match zs::choice(4) {
                    0 => (object("Alpha", "zero", json!([])), Some(Want { ns: "Alpha", m: "zero", args: vec![], data: Some(json!(70)) })),
                    1 => (object("Alpha", "one", json!([300])), None),
                    2 => (object("Same", "one", json!([3])), Some(Want { ns: "Same", m: "one", args: vec![3], data: Some(json!(7)) })),
                    _ => (object("Alpha", "bad", json!([])), Some(Want { ns: "Alpha", m: "bad", args: vec![], data: None })),
                }
            };
            b.handle_request(Request::Exec { id, value }, tx.clone(), &mut subs).await;
            judge(id, &want, &mut rx);
        }
        zs::check(subs.len() == busy as usize, "a call left a stream behind, or ended one");
    })
}
/// unknown names: a namespace and a method of symbolic characters
pub fn names() {
    let (n, m) = (zs::param(0) as usize, zs::param(1) as usize);
    let ns = if n == 0 { "Alpha".to_string() } else { zs::ascii_in(n, "ABalphetSm_12 ") };
    let me = if m == 0 { "zero".to_string() } else { zs::ascii_in(m, "oneztwr#IR_") };
    let known = METHODS.iter().any(|x| x.0 == ns && x.1 == me);
    let zero = ns == "Alpha" && me == "zero";
    let missing = zs::choice(3);
    run(async move {
        let mut b = server();
        let mut subs = SubscriberMap::default();
        let (tx, mut rx) = futures::channel::mpsc::unbounded();
        let id = zs::u64() as usize;
        let mut value = object(&ns, &me, json!([]));
        if missing == 1 { value.as_object_mut().unwrap().remove("namespace"); }
        if missing == 2 { value.as_object_mut().unwrap().remove("method"); }
        b.handle_request(Request::Exec { id, value }, tx, &mut subs).await;
        if missing == 0 && zero { judge(id, &Some(Want { ns: "Alpha", m: "zero", args: vec![], data: Some(json!(70)) }), &mut rx) }
        else if known && missing == 0 { zs::cover(4) /* no arguments given: whatever the arity says */ }
        else { judge(id, &None, &mut rx) }
    })
}
/// eight arguments keep their order
pub fn args() {
    let v: Vec<u64> = (0..8).map(|_| { let b = zs::bytes(4, 0, 255); u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as u64 }).collect();
    run(async move {
        let mut b = server();
        let mut subs = SubscriberMap::default();
        let (tx, mut rx) = futures::channel::mpsc::unbounded();
        let id = zs::u64() as usize;
        b.handle_request(Request::Exec { id, value: object("Alpha", "eight", json!(v)) }, tx, &mut subs).await;
        judge(id, &Some(Want { ns: "Alpha", m: "eight", args: v, data: Some(Value::Null) }), &mut rx);
    })
}

/// what a generated function passes on: (namespace block, function, stream, namespace sent, method sent)
pub fn functions(code: &str) -> Vec<(String, String, bool, String, String)> {
    let mut out = vec![];
    let mut rest = match code.find("export namespace ") { Some(i) => &code[i..], None => return out };
    loop {
        rest = &rest["export namespace ".len()..];
        let name = rest.split(|c: char| c == '{' || c.is_whitespace()).next().unwrap_or("").to_string();
        let end = rest.find("export namespace ").unwrap_or(rest.len());
        let mut block = &rest[..end];
        while let Some(i) = block.find("function ") {
            let is_async = block[..i].ends_with("async ");
            block = &block[i + "function ".len()..];
            let f = block.split('(').next().unwrap_or("").trim().to_string();
            let stop = block.find("function ").unwrap_or(block.len());
            let (r, s) = (block[..stop].find("return request("), block[..stop].find("return subscribe("));
            let at = match (r, s) { (Some(r), None) => r + "return request(".len(), (None, Some(s)) => s + "return subscribe(".len(), _ => { zs::fail("a generated function makes no call, or several") } };
            zs::check(is_async == r.is_some(), "a generated function is async but subscribes, or the reverse");
            let mut lits = vec![]; let mut t = block[at..stop].trim_start();
            for _ in 0..2 {
                let q = t.as_bytes().first().copied().unwrap_or(0);
                zs::check(q == b'"' || q == b'\'' || q == b'`', "a generated call does not pass names");
                t = &t[1..];
                let e = t.bytes().position(|c| c == q).unwrap_or(t.len());
                lits.push(t[..e].to_string());
                t = t[(e + 1).min(t.len())..].trim_start().trim_start_matches(',').trim_start();
            }
            out.push((name.clone(), f, s.is_some(), lits[0].clone(), lits[1].clone()));
        }
        if end == rest.len() { return out }
        rest = &rest[end..];
    }
}
/// R04: the names in the generated client lead to the method they belong to
pub fn dispatch() {
    let code = <Server as Backend>::generate::<zod::rpc::clients::WebsocketClient>();
    let fs = functions(&code);
    let (ns, m, n, stream) = METHODS[zs::choice(METHODS.len())];
    let mine: Vec<_> = fs.iter().filter(|f| f.0 == ns && f.1 == m).collect();
    zs::check(mine.len() == 1, "a method does not have exactly one generated function");
    let f = mine[0];
    zs::check(f.2 == stream, "a method is generated as a stream, or a stream as a method");
    // two symbolic digits each
    let digits: Vec<String> = (0..n).map(|_| zs::ascii_in(2, "123456789")).collect();
    let args: Vec<u64> = digits.iter().map(|d| (d.as_bytes()[0] - b'0') as u64 * 10 + (d.as_bytes()[1] - b'0') as u64).collect();
    let text = format!("{{\"exec\":{{\"id\":5,\"method\":{},\"namespace\":{},\"args\":[{}]}}}}", json!(f.4), json!(f.3), digits.join(","));
    run(async move {
        let mut b = server();
        let mut subs = SubscriberMap::default();
        let (tx, mut rx) = futures::channel::mpsc::unbounded();
        let Ok(req) = serde_json::from_str::<Request>(&text) else { zs::fail("what the generated client sends is no request") };
        b.handle_request(req, tx, &mut subs).await;
        let log = take_log();
        zs::check(log.len() == 1, "a call from the generated client does not run exactly one method");
        zs::check(log[0].0 == ns && log[0].1 == m, "a call from the generated client runs another method");
        zs::check(log[0].2 == args, "a call from the generated client arrives with other arguments");
        let got = drain(&mut rx);
        if stream { zs::cover(1); zs::check(got.is_empty() && subs.len() == 1, "a stream call does not subscribe") }
        else { zs::cover(2); zs::check(matches!(got.as_slice(), [Response::Method { id: 5, .. }]), "a call from the generated client is not answered") }
    })
}
