//! R10, R07: connections over the WebSocket endpoint
use crate::{ready, run, settle, step, Yield};
use axum::{extract::ws::Message, peer::{In, Peer}, Extension};
use serde_json::{json, Value};
use std::{pin::Pin, sync::Mutex, task::{Context, Poll}};
use zod::rpc::servers::{axum::websocket_handler, proxy::BackendProxy};
use zod::rpc::{Backend, Request, Response, SubscriberMap};

type Sender = futures::channel::mpsc::UnboundedSender<Response>;
/// what the backend was given: (id, members of an execute request)
pub static SEEN: Mutex<Vec<(usize, Option<Value>)>> = Mutex::new(Vec::new());
/// streams that exist: (base, dropped)
pub static LIVE: Mutex<Vec<(u64, bool)>> = Mutex::new(Vec::new());

pub struct Items { base: u64, at: u64, armed: bool }
impl Drop for Items { fn drop(&mut self) { for l in LIVE.lock().unwrap().iter_mut() { if l.0 == self.base { l.1 = true } } } }
impl futures::Stream for Items {
    type Item = u64;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        if !self.armed { self.armed = true; cx.waker().wake_by_ref(); return Poll::Pending }
        self.armed = false;
        self.at += 1;
        Poll::Ready(Some(self.base + self.at))
    }
}
/// Records requests and answers each execute request as its `args` say: `[polls, answers]`; `args` of
/// one element are an endless stream
pub struct Script;
#[async_trait::async_trait]
impl Backend for Script {
    const NS_NAMES: &'static [&'static str] = &[];
    async fn handle_request(&mut self, req: Request, res: Sender, subs: &mut SubscriberMap) {
        match req {
            Request::Exec { id, value } => {
                SEEN.lock().unwrap().push((id, Some(value.clone())));
                let a = value["args"].as_array().cloned().unwrap_or_default();
                if a.len() == 1 && a[0].as_u64().is_some_and(|b| b >= 1000) {
                    let base = a[0].as_u64().unwrap_or(0);
                    LIVE.lock().unwrap().push((base, false));
                    let mut s = Items { base, at: 0, armed: false };
                    let j = tokio::spawn(async move { use futures::StreamExt; while let Some(x) = s.next().await { if res.unbounded_send(Response::stream(id, &x)).is_err() { break } } });
                    subs.insert(id, j);
                    return
                }
                for _ in 0..a.first().and_then(|x| x.as_u64()).unwrap_or(0) { Yield(false).await }
                for i in 0..a.get(1).and_then(|x| x.as_u64()).unwrap_or(1) { let _ = res.unbounded_send(Response::method(id, id as u64 + 1000 * (i + 1))); }
            }
            Request::CancelStream { id } => { SEEN.lock().unwrap().push((id, None)); if let Some(j) = subs.remove(&id) { j.abort() } }
        }
    }
}
pub fn method(id: usize, i: u64) -> Value { json!({"method": {"id": id, "data": id as u64 + 1000 * (i + 1)}}) }
pub fn exec(id: usize, args: Value) -> String { json!({"exec": {"id": id, "namespace": "N", "method": "m", "args": args}}).to_string() }

/// opens a connection through the endpoint
pub async fn open(proxy: &BackendProxy) -> Peer {
    let p = Peer::default();
    use axum::response::IntoResponse;
    let r = websocket_handler(p.upgrade(), Extension(proxy.clone())).await.into_response();
    zs::check(r.status() == axum::http::StatusCode::SWITCHING_PROTOCOLS, "the endpoint does not upgrade the connection");
    p.finish_upgrade(true);
    p
}
/// takes what the endpoint has sent: only text frames of JSON
pub fn sent(p: &Peer) -> Vec<Value> {
    let f = std::mem::take(&mut p.0.lock().unwrap().outgoing);
    f.into_iter().map(|m| match m {
        Message::Text(t) => match serde_json::from_str(&t) { Ok(v) => v, Err(_) => zs::fail("a frame is sent that is no JSON") },
        _ => zs::fail("a response is not sent as a text frame"),
    }).collect()
}
pub fn ended(p: &Peer) -> bool { p.0.lock().unwrap().dropped }
/// what a response has to be
#[derive(PartialEq, Debug)]
pub enum Due { Is(Value), NullError }
impl Due {
    pub fn is(&self, v: &Value) -> bool {
        match self {
            Due::Is(w) => v == w,
            Due::NullError => v.as_object().is_some_and(|o| o.len() == 1) && v["error"].as_object().is_some_and(|o| o.contains_key("data")) && v["error"].get("id") == Some(&Value::Null),
        }
    }
}
pub const BAD: &[&str] = &["", "x", "{}", "[]", "null", "{\"exec\":{\"namespace\":\"N\",\"method\":\"m\",\"args\":[]}}", "{\"exec\":{\"id\":-1}}", "{\"cancelStream\":{}}", "{\"cancelStream\":{\"id\":\"1\"}}", "{\"exec\":{\"id\":1},\"x\":", "\u{feff}{\"cancelStream\":{\"id\":1}}", "\u{1F980}"];
fn other(i: usize) -> Message {
    let valid = exec(666, json!([0, 1]));
    match i { 0 => Message::Binary(valid.into_bytes()), 1 => Message::Ping(valid.into_bytes()), 2 => Message::Pong(vec![]), _ => Message::Binary(vec![255, 0]) }
}

/// One connection: frames of all kinds, a peer that stops taking frames for a while, closing in every
/// way, in every order and under every schedule.
pub fn session() {
    let (acts, free) = (zs::param(0) as usize, zs::param(1) as usize);
    futures_util::zselect::set(zs::choice(2));
    run(async move {
        let proxy = BackendProxy::new(Script);
        let p = open(&proxy).await;
        let (mut done, mut freely, mut closed, mut broken, mut blocked) = (0, 0, false, false, false);
        let mut due: Vec<Due> = vec![];
        let mut want: Vec<(usize, bool)> = vec![];
        let mut got: Vec<Value> = vec![];
        loop {
            let r = ready();
            let n = r + (done < acts) as usize;
            if n == 0 { break }
            let x = if freely >= free { 0 } else { freely += 1; zs::choice(n) };
            if x < r { step(x).await }
            else {
                let id = 100 + done;
                match zs::choice(if closed || broken { 1 } else { 7 }) {
                    0 if closed || broken => {}
                    0 => { let answers = 1 + zs::choice(2) as u64; want.push((id, true)); for i in 0..answers { due.push(Due::Is(method(id, i))) } p.push(In::Frame(Message::Text(exec(id, json!([zs::choice(2), answers]))))) }
                    1 => { want.push((id, false)); p.push(In::Frame(Message::Text(json!({"cancelStream": {"id": id}}).to_string()))) }
                    2 => { due.push(Due::NullError); p.push(In::Frame(Message::Text(BAD[done % 3].into()))); zs::cover(2) }
                    3 => { p.push(In::Frame(other(done % 4))); zs::cover(3) }
                    4 => {
                        closed = true;
                        match zs::choice(3) { 0 => { p.push(In::Frame(Message::Close(None))); p.push(In::End) } 1 => p.push(In::Error), _ => p.push(In::End) }
                        zs::cover(4);
                    }
                    5 => { blocked = !blocked; p.set_blocked(blocked); zs::cover(5) }
                    _ => { broken = true; p.set_broken(); zs::cover(6) }
                }
                done += 1;
            }
            got.extend(sent(&p));
            zs::check(got.len() <= due.len() && got.iter().zip(&due).all(|(g, d)| d.is(g)), "a frame is sent that is not due, or out of order");
            zs::check(closed || broken || !ended(&p), "a connection ends although neither side closed it");
        }
        if blocked && !closed && !broken { p.set_blocked(false); settle(60).await; got.extend(sent(&p)); zs::check(got.len() <= due.len() && got.iter().zip(&due).all(|(g, d)| d.is(g)), "a frame is sent that is not due, or out of order"); }
        if !closed && !broken {
            zs::check(got.len() == due.len(), "a response is not sent");
            zs::cover(1);
        }
        if closed && !broken { zs::check(ended(&p), "a connection stays although its peer closed it"); zs::cover(7) }
        let seen = SEEN.lock().unwrap();
        if broken { zs::check(seen.len() <= want.len(), "the backend is given too many requests") } else { zs::check(seen.len() == want.len(), "the backend is not given exactly the requests received") }
        for (s, w) in seen.iter().zip(&want) { zs::check(s.0 == w.0 && s.1.is_some() == w.1, "the backend is given other requests, or in another order") }
        zs::cover(9);
    })
}
/// Two connections with equal ids, one of which fails in some way; the other is served as if alone.
pub fn two() {
    let (acts, free) = (zs::param(0) as usize, zs::param(1) as usize);
    futures_util::zselect::set(zs::choice(2));
    run(async move {
        let proxy = BackendProxy::new(Script);
        let a = open(&proxy).await;
        let b = open(&proxy).await;
        let (mut done, mut freely) = (0, 0);
        let mut a_open = true;
        let mut due: Vec<Due> = vec![];
        let mut got: Vec<Value> = vec![];
        loop {
            let r = ready();
            let n = r + (done < acts) as usize;
            if n == 0 { break }
            let x = if freely >= free { 0 } else { freely += 1; zs::choice(n) };
            if x < r { step(x).await }
            else {
                let id = 100 + done;
                match zs::choice(6) {
                    0 => { due.push(Due::Is(method(id, 0))); b.push(In::Frame(Message::Text(exec(id, json!([1, 1]))))) }
                    1 => { due.push(Due::NullError); b.push(In::Frame(Message::Text("?".into()))); }
                    2 if a_open => a.push(In::Frame(Message::Text(exec(id, json!([0, 2]))))),
                    3 if a_open => a.push(In::Frame(Message::Text(BAD[done % BAD.len()].into()))),
                    4 if a_open => { a_open = false; a.push(if zs::flag() { In::Error } else { In::End }); zs::cover(4) }
                    5 if a_open => { a.set_broken(); zs::cover(5) }
                    _ => {}
                }
                done += 1;
            }
            got.extend(sent(&b));
            zs::check(got.len() <= due.len() && got.iter().zip(&due).all(|(g, d)| d.is(g)), "a frame is sent that is not due, or out of order");
            for v in sent(&a) { zs::check(v["method"]["data"].as_u64().is_some_and(|d| d > 1000) || Due::NullError.is(&v), "a response of another connection is sent") }
        }
        zs::check(!ended(&b), "a connection ends because another one does");
        zs::check(got.len() == due.len(), "a response is not sent");
        if !a_open { zs::check(ended(&a), "a connection stays although its peer closed it") }
        zs::cover(9);
    })
}
/// The peer leaves at any point, or the upgrade never happens: its streams end, others are served.
pub fn leave() {
    let polls = zs::param(0) as usize;
    futures_util::zselect::set(zs::choice(2));
    run(async move {
        let proxy = BackendProxy::new(Script);
        let a = Peer::default();
        let _ = websocket_handler(a.upgrade(), Extension(proxy.clone())).await;
        let up = zs::flag();
        if zs::flag() { settle(3).await; }
        a.finish_upgrade(up);
        let b = open(&proxy).await;
        b.push(In::Frame(Message::Text(exec(1, json!([7000])))));
        if up { a.push(In::Frame(Message::Text(exec(1, json!([5000]))))) }
        let mut got: Vec<u64> = vec![];
        let mut take = |p: &Peer, base: u64| for v in sent(p) { if v.get("stream").is_some() { let d = v["stream"]["data"].as_u64().unwrap_or(0); zs::check(v["stream"]["id"] == json!(1) && d / 1000 == base / 1000, "an item of another connection is sent"); if base == 7000 { got.push(d) } } else { zs::check(v == method(2, 0), "a frame is sent that is not due") } };
        for _ in 0..zs::choice(polls + 1) { let r = ready(); if r == 0 { break } step(zs::choice(r)).await; take(&a, 5000); take(&b, 7000) }
        match zs::choice(4) { 0 => { a.push(In::Frame(Message::Close(None))); a.push(In::End) } 1 => a.push(In::Error), 2 => a.push(In::End), _ => { a.set_broken(); if up && LIVE.lock().unwrap().iter().all(|l| l.0 != 5000) { a.push(In::End) } } }
        if !up { zs::cover(2) }
        for _ in 0..40 { if ready() == 0 { break } step(0).await }
        take(&b, 7000);
        zs::check(LIVE.lock().unwrap().iter().all(|l| l.0 != 5000 || l.1), "a stream whose connection is gone is kept");
        if up { zs::check(ended(&a), "a connection stays although its peer is gone"); zs::cover(1) }
        let n = 1;
        b.push(In::Frame(Message::Text(exec(2, json!([0, n])))));
        for _ in 0..12 { if ready() == 0 { break } step(0).await }
        let v = sent(&b);
        zs::check(v.contains(&method(2, 0)) && v.iter().any(|v| v.get("stream").is_some()) && !ended(&b), "a connection is not served after another one is gone");
        zs::cover(9);
    })
}
