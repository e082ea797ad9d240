//! R10: what becomes of a single frame
use crate::{open, run, sent, settle, session::*};
use axum::{extract::ws::Message, peer::In};
use serde_json::{json, Value};
use zod::rpc::{servers::proxy::BackendProxy, Request};

const TEMPLATES: &[&str] = &[
    "{\"exec\":{\"id\":12,\"namespace\":\"N\",\"method\":\"m\",\"args\":[0,1]}}",
    "{\"cancelStream\":{\"id\":7}}",
    " {\"exec\" : { \"method\":\"m\",\"args\":[],\"namespace\":\"\\u00e9\", \"id\":0}}\n",
];
/// A request with symbolic bytes in place of some of it, or only symbolic bytes; then a valid one.
pub fn text() {
    let n = zs::param(0) as usize;
    let t = zs::choice(TEMPLATES.len() + 1);
    let bytes = zs::bytes(n, 0, 127);
    let text = if t == TEMPLATES.len() { bytes } else {
        let mut b = TEMPLATES[t].as_bytes().to_vec();
        let w = zs::param(1) as usize;
        let at = w + zs::choice(zs::param(2) as usize);
        zs::assume(at + n <= b.len());
        b[at..at + n].copy_from_slice(&bytes);
        b
    };
    let text = String::from_utf8(text).unwrap();
    judge(text);
}
/// frames of every kind
pub fn frames() {
    let i = zs::choice(BAD.len() + 3);
    match BAD.get(i) {
        Some(t) => judge(t.to_string()),
        None => {
            // long and deep texts
            let n = zs::choice(3);
            let n = [1, 40, 200][n];
            judge(match i - BAD.len() {
                0 => "[".repeat(n),
                1 => format!("{{\"exec\":{{\"id\":3,\"namespace\":\"{}\",\"method\":\"m\",\"args\":[]}}}}", "\u{e9}".repeat(n)),
                _ => format!("{{\"exec\":{{\"id\":3,\"namespace\":\"N\",\"method\":\"m\",\"args\":[0,1,{}{}]}}}}", "[".repeat(n), "]".repeat(n)),
            })
        }
    }
}
fn judge(text: String) {
    run(async move {
        let proxy = BackendProxy::new(Script);
        let p = open(&proxy).await;
        let want = serde_json::from_str::<Request>(&text).ok();
        p.push(In::Frame(Message::Text(text)));
        p.push(In::Frame(Message::Text(exec(99, json!([0, 1])))));
        zs::check(settle(40).await, "an endpoint does not come to rest");
        zs::check(!p.0.lock().unwrap().dropped, "the content of a frame ends the connection");
        let got: Vec<Value> = sent(&p);
        let seen = SEEN.lock().unwrap();
        zs::check(seen.last().is_some_and(|s| s.0 == 99) && got.last() == Some(&method(99, 0)), "a frame is not handled after an earlier one");
        match want {
            None => {
                zs::check(seen.len() == 1, "the backend is given a request that was not sent");
                zs::check(got.len() == 2 && Due::NullError.is(&got[0]), "a text that is no request is not answered with an error without id");
                zs::cover(1);
            }
            Some(r) => {
                zs::check(seen.len() == 2, "the backend is not given a request that was sent");
                let w = match r { Request::Exec { id, value } => (id, Some(value)), Request::CancelStream { id } => (id, None) };
                zs::check(seen[0] == w, "the backend is given another request than was sent");
                zs::check(got.iter().all(|v| v.get("error").is_none()), "a request is answered with an error");
                zs::cover(2);
            }
        }
    })
}
