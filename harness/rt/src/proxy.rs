//! R07-R09: the proxy between connections and a backend.
use crate::{backend::*, ready, run, settle, step};
use futures::StreamExt;
use serde_json::json;
use std::sync::Mutex;
use zod::rpc::servers::proxy::{BackendProxy, ProxyRx, ProxyTx};
use zod::rpc::{Backend, Request, Response, SubscriberMap};

type Sender = futures::channel::mpsc::UnboundedSender<Response>;

/// what a backend behind the proxy sees
static SEEN: Mutex<Vec<(usize, bool, bool)>> = Mutex::new(Vec::new()); // (id, is_exec, finished)

/// answers every execute request after `n` polls with the id plus 1000, and twice if told so
struct Double;
#[async_trait::async_trait]
impl Backend for Double {
    const NS_NAMES: &'static [&'static str] = &[];
    async fn handle_request(&mut self, req: Request, res: Sender, _subs: &mut SubscriberMap) {
        let (id, value) = match req { Request::Exec { id, value } => (id, Some(value)), Request::CancelStream { id } => (id, None) };
        zs::check(SEEN.lock().unwrap().iter().all(|s| s.2), "a request is handled before the one before it is finished");
        let at = { let mut s = SEEN.lock().unwrap(); s.push((id, value.is_some(), false)); s.len() - 1 };
        if let Some(v) = value {
            for _ in 0..v["polls"].as_u64().unwrap_or(0) { Yield(false).await }
            for i in 0..v["answers"].as_u64().unwrap_or(1) { let _ = res.unbounded_send(Response::method(id, id as u64 + 1000 * (i + 1))); }
        }
        SEEN.lock().unwrap()[at].2 = true;
    }
}

fn poll(rx: &mut ProxyRx) -> Vec<Response> {
    let mut v = vec![];
    let mut cx = std::task::Context::from_waker(futures::task::noop_waker_ref());
    while let std::task::Poll::Ready(x) = rx.poll_next_unpin(&mut cx) {
        match x { Some(r) => v.push(r), None => zs::fail("a connection ends by itself") }
        if v.len() > 16 { break }
    }
    v
}

/// an answer as one number: the connection's id space is disjoint, so it tells who it is for
#[derive(Clone, PartialEq)]
enum Due { Method(usize, u64), Error(String) }

/// R08: two connections send requests, cancels and decode errors in every order, under every schedule
pub fn order() {
    let acts = zs::param(0) as usize;
    run(async move {
        let proxy = BackendProxy::new(Double);
        let (t1, r1) = proxy.connect().split();
        let (t2, r2) = if zs::flag() { proxy.clone().connect().split() } else { proxy.connect().split() };
        let (tx, mut rx) = ([t1, t2], [r1, r2]);
        let mut sent: Vec<(usize, bool)> = vec![];
        let mut due: [Vec<Due>; 2] = [vec![], vec![]];
        let mut got: [Vec<Due>; 2] = [vec![], vec![]];
        let mut done = 0;
        loop {
            let r = ready();
            let n = r + (done < acts) as usize;
            if n == 0 { break }
            let x = zs::choice(n);
            if x < r { step(x).await }
            else {
                let c = zs::choice(2);
                match zs::choice(4) {
                    0 => {
                        let err: serde_json::Error = <serde_json::Error as serde::de::Error>::custom(format!("e{done}"));
                        due[c].push(Due::Error(format!("JsonError: {err}")));
                        zs::check(tx[c].send(Err(Response::error(None, err))).is_ok(), "a live connection refuses a request");
                    }
                    1 => { sent.push((c, false)); zs::check(tx[c].send(Ok(Request::CancelStream { id: 100 + done })).is_ok(), "a live connection refuses a request") }
                    k => {
                        // both connections use the same ids
                        let polls = if k == 2 { 0 } else { 1 };
                        let answers = if c == 0 { 1 } else { 2 };
                        sent.push((c, true));
                        for i in 0..answers { due[c].push(Due::Method(100 + done, 100 + done as u64 + 1000 * (i + 1))) }
                        zs::check(tx[c].send(Ok(Request::Exec { id: 100 + done, value: json!({"polls": polls, "answers": answers}) })).is_ok(), "a live connection refuses a request");
                    }
                }
                done += 1;
            }
            for c in 0..2 {
                for r in poll(&mut rx[c]) {
                    let g = match r {
                        Response::Method { id, data } => Due::Method(id, data.as_u64().unwrap_or(0)),
                        Response::Error { id: None, data } => Due::Error(data.to_string()),
                        _ => zs::fail("a response changed on its way"),
                    };
                    got[c].push(g);
                    let at = got[c].len() - 1;
                    zs::check(due[c].get(at) == Some(&got[c][at]), "a response is lost, repeated, reordered, changed or delivered to another connection");
                    zs::cover(if c == 0 { 1 } else { 2 });
                }
            }
        }
        zs::check(got == due, "a request is not answered");
        // handled exactly once, each connection in the order sent
        let seen = SEEN.lock().unwrap();
        zs::check(seen.len() == sent.len(), "a request is not handled exactly once");
        zs::check(seen.iter().all(|s| s.2), "a request is not handled to its end");
        zs::check(seen.windows(2).all(|w| w[0].0 < w[1].0), "requests are not handled in the order they were sent");
        zs::cover(9);
    })
}

/// a stream one connection has asked for
struct Sub { id: usize, base: u32, n: u32, got: u32, stopped: bool }
struct Conn { tx: Option<ProxyTx>, rx: Option<ProxyRx>, subs: Vec<Sub>, calls: Vec<(usize, u64)> }
impl Conn {
    fn new(p: &BackendProxy) -> Self { let (tx, rx) = p.connect().split(); Conn { tx: Some(tx), rx: Some(rx), subs: vec![], calls: vec![] } }
    fn send(&self, r: Request) { if let Some(tx) = &self.tx { zs::check(tx.send(Ok(r)).is_ok(), "a live connection refuses a request") } }
    fn check(&mut self) {
        let Some(rx) = &mut self.rx else { return };
        for r in poll(rx) {
            match r {
                Response::Stream { id, data } => {
                    let v = data.as_u64().unwrap_or(0) as u32;
                    let Some(s) = self.subs.iter_mut().find(|s| s.base == v & !0xffff) else { zs::fail("an item arrives on a connection that did not ask for it") };
                    zs::check(s.id == id, "a stream item carries another request id");
                    zs::check(v == s.base + s.got && s.got < s.n, "stream items are lost, repeated or reordered");
                    zs::check(!s.stopped, "an item arrives after its stream was cancelled");
                    s.got += 1;
                    zs::cover(1);
                }
                Response::Method { id, data } => {
                    let Some(i) = self.calls.iter().position(|c| c.0 == id && json!(c.1) == data) else { zs::fail("a response arrives on a connection that did not ask for it") };
                    self.calls.remove(i);
                    zs::cover(2);
                }
                Response::Error { .. } => zs::fail("an error arrives although every request is valid"),
            }
        }
    }
}
/// R09: connection B streams under an id that A uses, cancels and abandons at any point
pub fn conns() {
    let (acts, n, free) = (zs::param(0) as u32, zs::param(1) as u32, zs::param(2) as usize);
    run(async move {
        let mut freely = 0;
        let proxy = BackendProxy::new(server());
        let mut a = Conn::new(&proxy);
        let mut b = Conn::new(&proxy);
        let mut done = 0;
        let mut b_started = false;
        loop {
            let r = ready();
            let k = r + (done < acts) as usize;
            if k == 0 { break }
            // `free` polls are chosen freely; after that the ready tasks run in order before the next action
            let x = if freely >= free { 0 } else { freely += 1; zs::choice(k) };
            if x < r { step(x).await; a.check(); b.check(); continue }
            done += 1;
            // B subscribes once, at some point
            let what = if done == acts && !b_started { 0 } else { zs::choice(5) };
            match what {
                0 if !b_started => {
                    b_started = true;
                    b.subs.push(Sub { id: 1, base: 50 << 16, n, got: 0, stopped: false });
                    b.send(super::sessions::exec(1, "Alpha", "lazy", json!([n, 50u32 << 16])));
                }
                1 if a.tx.is_some() => {
                    let id = 1 + zs::choice(2);
                    let base = done << 16;
                    a.subs.push(Sub { id, base, n: 2, got: 0, stopped: false });
                    a.send(super::sessions::exec(id, "Alpha", "lazy", json!([2, base])));
                }
                2 if a.tx.is_some() => {
                    a.send(Request::CancelStream { id: 1 });
                    // handled after a while: settle, then nothing more may come
                    zs::cover(3);
                    if zs::flag() {
                        settle(60).await;
                        a.check(); b.check();
                        for s in a.subs.iter_mut() { if s.id == 1 { s.stopped = true } }
                    }
                }
                3 if a.tx.is_some() || a.rx.is_some() => { // A is gone, one half after the other
                    if zs::flag() { a.tx = None; settle(zs::choice(2)).await; a.rx = None } else { a.rx = None; settle(zs::choice(2)).await; a.tx = None }
                    a.subs.clear();
                    zs::cover(4);
                }
                4 => { b.calls.push((1, 9)); b.send(super::sessions::exec(1, "Alpha", "one", json!([8]))); }
                _ => {}
            }
            a.check(); b.check();
        }
        b.check();
        zs::check(b.subs.iter().all(|s| s.got == s.n), "a stream ended although its own connection did not cancel it");
        zs::check(b.calls.is_empty(), "a call is not answered");
        for s in &a.subs { if a.rx.is_some() && !a.subs.iter().any(|t| t.id == s.id && t.base != s.base) { zs::check(s.got <= s.n, "too many items") } }
        zs::cover(9);
    })
}
/// R07, R09: a connection with an endless stream goes away at any point; its streams end, the other is served
pub fn gone() {
    let polls = zs::param(0) as usize;
    run(async move {
        let proxy = BackendProxy::new(server());
        let mut a = Conn::new(&proxy);
        let mut b = Conn::new(&proxy);
        let base = 3 << 16;
        b.subs.push(Sub { id: 1, base: 50 << 16, n: 3, got: 0, stopped: false });
        let first = zs::choice(4);
        if first != 3 {
            a.subs.push(Sub { id: 1, base, n: u32::MAX, got: 0, stopped: false });
            a.send(super::sessions::exec(1, "Alpha", "forever", json!([base])));
        }
        b.send(super::sessions::exec(1, "Alpha", "lazy", json!([3, 50u32 << 16])));
        match first { 1 => { a.calls.push((2, 4)); a.send(super::sessions::exec(2, "Alpha", "slow", json!([2, 4]))) } 2 => a.send(super::sessions::exec(1, "Alpha", "mixed", json!([]))), 3 => { a.calls.push((2, 4)); a.send(super::sessions::exec(2, "Alpha", "slow", json!([2, 4]))) } _ => {} }
        let n = zs::choice(polls + 1);
        for _ in 0..n { let r = ready(); if r == 0 { break } step(zs::choice(r)).await; if first != 2 { a.check() } b.check() }
        let order = zs::choice(3);
        match order { 0 => { a.tx = None; a.rx = None } 1 => { a.rx = None } _ => { a.rx = None; step(0).await; a.tx = None } }
        b.calls.push((9, 6));
        b.send(super::sessions::exec(9, "Alpha", "one", json!([5])));
        let quiet = settle(80).await;
        b.check();
        zs::check(quiet, "a stream whose connection is gone keeps running");
        zs::check(b.subs[0].got == 3 && b.calls.is_empty(), "a connection is not served after another one went away");
        for l in LIVE.lock().unwrap().iter() { zs::check(l.1, "a stream whose connection is gone is kept") }
        // and the proxy still serves new connections
        let mut c = Conn::new(&proxy);
        c.calls.push((0, 1));
        c.send(super::sessions::exec(0, "Alpha", "one", json!([0])));
        settle(20).await;
        c.check();
        zs::check(c.calls.is_empty(), "a new connection is not served after another one went away");
        zs::cover(9);
    })
}
