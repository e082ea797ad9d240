//! R01, R02: decoding requests, encoding responses.
use serde_json::{json, Map, Value};
use zod::rpc::{Request, Response};

const NUM: &str = "0123456789-+.eE ";

/// the id a JSON integer text denotes, if it is one in the range of ids
fn id_of(text: &str) -> Option<u64> {
    let b = text.trim_matches(|c| c == ' ').as_bytes();
    if b.is_empty() || (b.len() > 1 && b[0] == b'0') { return None }
    let mut v: u64 = 0;
    for &c in b {
        if !c.is_ascii_digit() { return None }
        v = v.checked_mul(10)?.checked_add((c - b'0') as u64)?;
    }
    Some(v)
}

/// ids: a request whose id is a text of `param 0` symbolic characters, after `param 1` fixed digits
pub fn request_id() {
    let n = zs::param(0) as usize;
    let prefix = &"18446744073709551615"[..zs::param(1) as usize];
    let id = format!("{prefix}{}", zs::ascii_in(n, NUM));
    let cancel = zs::flag();
    let text = if cancel { format!("{{\"cancelStream\":{{\"id\":{id}}}}}") } else { format!("{{\"exec\":{{\"id\":{id},\"namespace\":\"N\",\"method\":\"m\",\"args\":[]}}}}") };
    let want = id_of(&id);
    match (serde_json::from_str::<Request>(&text), want) {
        (Ok(Request::Exec { id, value }), Some(w)) => {
            zs::cover(1);
            zs::check(!cancel, "a cancel request is decoded as an execute request");
            zs::check(id as u64 == w, "the decoded id differs from the id in the text");
            zs::check(value == json!({"namespace": "N", "method": "m", "args": []}), "the members of the request changed");
        }
        (Ok(Request::CancelStream { id }), Some(w)) => {
            zs::cover(2);
            zs::check(cancel, "an execute request is decoded as a cancel request");
            zs::check(id as u64 == w, "the decoded id differs from the id in the text");
        }
        (Ok(_), None) => zs::fail("a text whose id is no id is decoded as a request"),
        (Err(_), Some(_)) => zs::fail("a request with a valid id is not decoded"),
        (Err(_), None) => zs::cover(3),
    }
}

/// shapes: which members there are, in which order, of which kind
pub fn request_shape() {
    let key = zs::choice(3); // exec, cancelStream, a symbolic key
    let key = match key { 0 => "exec".to_string(), 1 => "cancelStream".to_string(), _ => zs::ascii_in(4, "exXcanlEs_") };
    let idkind = zs::choice(8);
    let id = ["17", "-1", "\"1\"", "null", "1.5", "[1]", "true", ""][idkind];
    let order = zs::choice(3);
    let dup = zs::choice(6) == 0;
    let payload = "\"namespace\":\"N\",\"method\":\"m\",\"args\":[1,\"x\"]";
    let mut parts: Vec<String> = vec![];
    if !id.is_empty() { parts.push(format!("\"id\":{id}")) }
    match order { 0 => parts.push(payload.into()), 1 => parts.insert(0, payload.into()), _ => {} }
    if dup { parts.push("\"id\":18".into()) }
    let outer = zs::choice(5);
    let body = format!("{{{}}}", parts.join(","));
    let text = match outer {
        0 => format!("{{\"{key}\":{body}}}"),
        1 => format!(" {{ \"{key}\" : {body} }}\n"),
        2 => format!("{{\"{key}\":{body},\"other\":1}}"),
        3 => format!("{{\"{key}\":{body}}} x"),
        _ => format!("[\"{key}\",{body}]"),
    };
    let ok_id = if dup { id.is_empty() } else { idkind == 0 };
    let good = outer <= 1 && ok_id;
    let r = serde_json::from_str::<Request>(&text);
    let want_id = if dup { 18 } else { 17 };
    match r {
        Ok(Request::Exec { id, value }) => {
            zs::cover(1);
            zs::check(key == "exec" && good, "a text that is no execute request is decoded as one");
            zs::check(id == want_id, "wrong id");
            let want = if order == 2 { json!({}) } else { json!({"namespace": "N", "method": "m", "args": [1, "x"]}) };
            zs::check(value == want, "the members of the request changed");
        }
        Ok(Request::CancelStream { id }) => {
            zs::cover(2);
            zs::check(key == "cancelStream" && good, "a text that is no cancel request is decoded as one");
            zs::check(id == want_id, "wrong id");
        }
        Err(_) => { zs::cover(3); zs::check(!(good && (key == "exec" || key == "cancelStream")), "a well-formed request is not decoded"); }
    }
}

/// arbitrary short texts: no panic, and none of them is a request
pub fn request_text() {
    let n = zs::param(0) as usize;
    let text = zs::bytes(n, 0, 255);
    let pre = zs::choice(3);
    let mut t: Vec<u8> = match pre { 0 => vec![], 1 => b"{\"exec\":".to_vec(), _ => b"{\"cancelStream\":{".to_vec() };
    t.extend_from_slice(&text);
    match std::str::from_utf8(&t) {
        // shorter than the shortest request
        Ok(s) => match serde_json::from_str::<Request>(s) { Ok(_) => zs::fail("a text that is too short is decoded as a request"), Err(_) => zs::cover(1) },
        Err(_) => zs::cover(2),
    }
}

/// members other than the id are carried unchanged: symbolic strings, numbers, nesting
pub fn request_values() {
    let n = zs::param(0) as usize;
    let ns = zs::bytes(n, 0x20, 0x7e);
    zs::assume(ns.iter().all(|&b| b != b'"' && b != b'\\'));
    let ns = String::from_utf8(ns).unwrap();
    let num = zs::ascii_in(zs::param(1) as usize, "0123456789");
    zs::assume(num.len() == 1 || !num.starts_with('0'));
    let arg = match zs::choice(6) { 0 => num.clone(), 1 => format!("-1{num}"), 2 => format!("[{num},[]]"), 3 => format!("{{\"k\":{num},\"id\":5}}"), 4 => "null".into(), _ => "\"\\u0041\\n\"".into() };
    let text = format!("{{\"exec\":{{\"namespace\":\"{ns}\",\"id\":3,\"args\":[{arg},{arg}],\"method\":\"{ns}\"}}}}");
    match serde_json::from_str::<Request>(&text) {
        Ok(Request::Exec { id, value }) => {
            zs::cover(1);
            zs::check(id == 3, "wrong id");
            let m = value.as_object();
            zs::check(m.is_some_and(|m| m.len() == 3), "members were lost or added");
            zs::check(value["namespace"] == Value::String(ns.clone()), "the namespace changed");
            zs::check(value["method"] == Value::String(ns), "the method changed");
            let v: Value = serde_json::from_str(&arg).unwrap();
            zs::check(value["args"] == Value::Array(vec![v.clone(), v]), "the arguments changed");
        }
        _ => zs::fail("a well-formed request is not decoded"),
    }
}

/// a symbolic JSON value
fn value(depth: usize) -> Value {
    match zs::choice(if depth == 0 { 5 } else { 7 }) {
        0 => Value::Null,
        1 => Value::Bool(zs::flag()),
        2 => { let mut x = zs::bytes(1, 0, 255)[0] as u64; if zs::flag() { x = u64::MAX - x } Value::from(x) }
        3 => Value::from(-(zs::byte(1, 255) as i64)),
        4 => { let n = zs::choice(3); Value::String(String::from_utf8(zs::bytes(n, 0, 127)).unwrap()) }
        5 => { let n = zs::choice(3); Value::Array((0..n).map(|_| value(depth - 1)).collect()) }
        _ => { let mut m = Map::new(); m.insert("method".into(), value(depth - 1)); if zs::flag() { m.insert("id".into(), value(0)); } Value::Object(m) }
    }
}
/// ids whose decimal text has every length: digits * 10^k + rest, symbolic
fn any_id() -> usize {
    match zs::choice(4) { 0 => zs::byte(0, 255) as usize, 1 => usize::MAX - zs::byte(0, 255) as usize, 2 => (1usize << 53) - 128 + zs::byte(0, 255) as usize, _ => (zs::byte(0, 255) as usize) << 32 }
}
fn one_object(text: &str, key: &str) -> (Value, Value, usize) {
    let Ok(v) = serde_json::from_str::<Value>(text) else { zs::fail("a response is not valid JSON") };
    let Some(o) = v.as_object() else { zs::fail("a response is not an object") };
    zs::check(o.len() == 1, "a response does not have exactly one key");
    let Some(b) = o.get(key).and_then(|b| b.as_object()) else { zs::fail("a response has a wrong key") };
    zs::check(b.contains_key("id") && b.contains_key("data"), "id or data missing");
    (b["id"].clone(), b["data"].clone(), b.len())
}
pub fn response() {
    let id = any_id();
    let data = value(zs::param(0) as usize);
    let stream = zs::flag();
    let r = if stream { Response::stream(id, &data) } else { Response::method(id, &data) };
    let text = serde_json::to_string(&r).unwrap();
    let (i, d, n) = one_object(&text, if stream { "stream" } else { "method" });
    zs::check(n == 2, "a response has further members");
    zs::check(i == Value::from(id as u64), "the id changed");
    zs::check(d == data, "the data changed");
    zs::cover(if stream { 1 } else { 2 });
}
pub fn response_bad() {
    let id = any_id();
    let stream = zs::flag();
    let map = zs::flag();
    // a map whose keys are no strings, or a serializer that fails
    let r = if map { let m = std::collections::BTreeMap::from([(vec![1u8], 1u8)]); if stream { Response::stream(id, m) } else { Response::method(id, m) } }
            else if stream { Response::stream(id, crate::backend::Bad) } else { Response::method(id, crate::backend::Bad) };
    let text = serde_json::to_string(&r).unwrap();
    let (i, d, _) = one_object(&text, "error");
    zs::check(i == Value::from(id as u64), "the error for an unserializable result has another id");
    zs::check(has_text(&d, if map { "key must be a string" } else { "unserializable" }), "the message of the error is lost");
    zs::cover(1);
}
fn has_text(v: &Value, s: &str) -> bool {
    match v { Value::String(t) => t.contains(s), Value::Object(m) => m.len() == 1 && m.values().all(|v| has_text(v, s)), _ => false }
}
pub fn response_error() {
    let n = zs::param(0) as usize;
    let msg = String::from_utf8(zs::bytes(n, 0, 127)).unwrap();
    let id = if zs::flag() { Some(any_id()) } else { None };
    let err = <serde_json::Error as serde::de::Error>::custom(&msg);
    let want = err.to_string();
    let r = Response::error(id, err);
    let text = serde_json::to_string(&r).unwrap();
    let (i, d, _) = one_object(&text, "error");
    zs::check(i == id.map_or(Value::Null, |i| Value::from(i as u64)), "the id of an error changed");
    zs::check(has_text(&d, &want), "the message of the error is lost");
    zs::cover(if id.is_some() { 1 } else { 2 });
}
