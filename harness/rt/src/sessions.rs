//! R05, R06, R07: streams under every schedule, driven through the generated backend.
use crate::{backend::*, drain, ready, run, step, Rx};
use futures::channel::mpsc::{unbounded, UnboundedSender};
use serde_json::json;
use zod::rpc::{Backend, Request, Response, SubscriberMap};

pub fn exec(id: usize, ns: &str, m: &str, args: serde_json::Value) -> Request {
    Request::Exec { id, value: json!({"namespace": ns, "method": m, "args": args}) }
}

/// what one subscription may still deliver
struct Sub { id: usize, base: u32, n: u32, got: u32, dead: bool }
struct Client { rx: Rx, tx: UnboundedSender<Response>, subs: Vec<Sub>, calls: Vec<(usize, u32)>, map: SubscriberMap }

impl Client {
    fn new() -> Self { let (tx, rx) = unbounded(); Client { rx, tx, subs: vec![], calls: vec![], map: SubscriberMap::default() } }
    /// judges everything that has arrived
    fn check(&mut self) {
        for r in drain(&mut self.rx) {
            match r {
                Response::Stream { id, data } => {
                    let Some(v) = data.as_u64() else { zs::fail("a stream item changed") };
                    let v = v as u32;
                    let Some(s) = self.subs.iter_mut().find(|s| s.base >> 16 == v >> 16) else { zs::fail("an item of no stream of this client arrives") };
                    zs::check(s.id == id, "a stream item carries another request id");
                    zs::check(!s.dead, "an item arrives after its stream was cancelled");
                    zs::check(v == s.base + s.got, "stream items are lost, repeated or reordered");
                    zs::check(s.got < s.n, "a stream delivers more items than it yields");
                    s.got += 1;
                    zs::cover(1);
                }
                Response::Method { id, data } => {
                    zs::cover(2);
                    let c = self.calls.iter().position(|c| c.0 == id);
                    let Some(c) = c else { zs::fail("a response to no call arrives") };
                    let c = self.calls.remove(c);
                    zs::check(data == json!(c.1), "a call is answered with another result");
                }
                Response::Error { .. } => zs::fail("an error arrives although every request is valid"),
            }
        }
    }
    fn finished(&mut self) {
        self.check();
        zs::check(self.calls.is_empty(), "a call is not answered");
        for s in &self.subs { if !s.dead { zs::check(s.got == s.n, "a stream that was not cancelled did not deliver all its items") } }
    }
    fn kill(&mut self, id: usize) { for s in self.subs.iter_mut() { if s.id == id { s.dead = true } } }
}

async fn subscribe(b: &mut Server, c: &mut Client, id: usize, k: u32, lazy: bool, n: u32) {
    c.kill(id); // an id that is used again belongs to the new stream
    let base = (k << 16) + zs::byte(0, 255) as u32;
    c.subs.push(Sub { id, base, n, got: 0, dead: false });
    b.handle_request(exec(id, "Alpha", if lazy { "lazy" } else { "count" }, json!([n, base])), c.tx.clone(), &mut c.map).await;
    c.check();
}
async fn call(b: &mut Server, c: &mut Client, id: usize) {
    let a = zs::byte(0, 200);
    c.calls.push((id, a as u32 + 1));
    b.handle_request(exec(id, "Alpha", "one", json!([a])), c.tx.clone(), &mut c.map).await;
    c.check();
    zs::check(c.calls.is_empty(), "a call is not answered when its method has finished");
}

/// what happens next: the client acts (0) or one of the ready tasks is polled
fn choose(act: bool) -> Option<usize> {
    let r = ready();
    if r == 0 && !act { return None }
    if r == 0 { return Some(0) }
    if !act { return Some(1 + zs::choice(r)) }
    Some(zs::choice(r + 1))
}

/// R05: `param 0` actions (subscribe with ids 1.., call) interleaved in every way with the stream tasks
pub fn streams() {
    let (acts, maxn) = (zs::param(0) as u32, zs::param(1) as usize);
    run(async move {
        let mut b = server();
        let mut c = Client::new();
        let mut done = 0;
        while let Some(x) = choose(done < acts) {
            if x > 0 { step(x - 1).await; c.check(); continue }
            done += 1;
            match zs::choice(3) {
                0 => call(&mut b, &mut c, zs::choice(2)).await,
                k => { let n = zs::choice(maxn + 1) as u32; subscribe(&mut b, &mut c, 1 + done as usize, done, k == 1, n).await }
            }
        }
        c.finished();
        zs::cover(9);
    })
}
/// R06: as above, with two ids, cancels, and the table being dropped
pub fn cancel() {
    let (acts, n) = (zs::param(0) as u32, zs::param(1) as u32);
    run(async move {
        let mut b = server();
        let mut c = Client::new();
        let mut done = 0;
        while let Some(x) = choose(done < acts) {
            if x > 0 { step(x - 1).await; c.check(); continue }
            done += 1;
            // the first action subscribes, or there is nothing to cancel
            match if done == 1 { 0 } else { zs::choice(4) } {
                0 => subscribe(&mut b, &mut c, 1, done, true, n).await,
                1 => subscribe(&mut b, &mut c, usize::MAX, done, zs::flag(), n).await,
                2 => {
                    let id = [1, usize::MAX, 3][zs::choice(3)];
                    b.handle_request(Request::CancelStream { id }, c.tx.clone(), &mut c.map).await;
                    c.check();
                    c.kill(id);
                    zs::cover(3);
                }
                _ => { c.map = SubscriberMap::default(); c.check(); for s in c.subs.iter_mut() { s.dead = true } zs::cover(4) }
            }
        }
        c.finished();
        // a stream that was stopped is gone, not just silent
        for l in LIVE.lock().unwrap().iter() { zs::check(l.1, "a stopped or finished stream is still alive") }
        zs::cover(9);
    })
}
/// R07: client A goes away at any point; client B is not affected
pub fn gone() {
    let (acts, n, free) = (zs::param(0) as u32, zs::param(1) as u32, zs::param(2) as usize);
    run(async move {
        let mut b = server();
        let mut freely = 0;
        let mut a = Some(Client::new());
        let mut left: Option<(UnboundedSender<Response>, SubscriberMap)> = None;
        let mut other = Client::new();
        subscribe(&mut b, &mut other, 1, 40, true, n).await;
        let mut done = 0;
        let mut polls = 0;
        loop {
            if done >= acts && left.is_some() && polls > 12 { break }
            let r = ready();
            // after the last action, everything settles in order
            let x = if done < acts && freely >= free { 0 } else if done < acts { freely += 1; choose(true).unwrap_or(0) } else if r > 0 { polls += 1; 1 } else { 0 };
            if x > 0 { step(x - 1).await; if let Some(a) = &mut a { a.check() } other.check(); continue }
            if done >= acts && left.is_some() { break }
            done += 1;
            let what = if done >= acts && a.is_some() { 3 } else { zs::choice(5) };
            match (what, &mut a, &mut left) {
                (0, Some(a), _) => call(&mut b, a, 1).await,
                (1, Some(a), _) => { // an endless stream
                    let base = done << 16;
                    a.kill(1);
                    a.subs.push(Sub { id: 1, base, n: u32::MAX, got: 0, dead: false });
                    b.handle_request(exec(1, "Alpha", "forever", json!([base])), a.tx.clone(), &mut a.map).await;
                    a.check();
                }
                // requests of A that are handled after it left
                (0, _, Some(l)) => { b.handle_request(exec(7, "Alpha", ["one", "slow"][zs::choice(2)], json!([1, 2])), l.0.clone(), &mut l.1).await; b.handle_request(exec(7, "Alpha", "one", json!([1])), l.0.clone(), &mut l.1).await; zs::cover(5) }
                (1, _, Some(l)) => { b.handle_request(exec(1, "Alpha", "forever", json!([done << 16])), l.0.clone(), &mut l.1).await; zs::cover(6) }
                (2, _, Some(l)) => b.handle_request(if zs::flag() { Request::CancelStream { id: 1 } } else { exec(2, "Nope", "one", json!([])) }, l.0.clone(), &mut l.1).await,
                (3, Some(_), _) => { let Client { rx, tx, map, .. } = a.take().unwrap(); drop(rx); left = Some((tx, map)); zs::cover(3) }
                (4, _, _) => call(&mut b, &mut other, 9).await,
                _ => {}
            }
            other.check();
        }
        call(&mut b, &mut other, 9).await;
        let quiet = crate::settle(40).await;
        zs::check(quiet, "a stream whose client is gone keeps running");
        other.finished();
        for l in LIVE.lock().unwrap().iter() { zs::check(l.1, "a stream whose client is gone is kept") }
        zs::cover(9);
    })
}
/// R02/R05: a stream one of whose items cannot be serialized goes on after it
pub fn mixed() {
    run(async move {
        let mut b = server();
        let (tx, mut rx) = unbounded();
        let mut map = SubscriberMap::default();
        let id = [0, 1, usize::MAX][zs::choice(3)];
        b.handle_request(exec(id, "Alpha", "mixed", json!([])), tx, &mut map).await;
        crate::settle(10).await;
        let got = drain(&mut rx);
        zs::check(got.len() == 3, "a stream with an unserializable item does not answer once per item");
        for (i, r) in got.iter().enumerate() {
            match r {
                Response::Stream { id: x, data } => zs::check(i != 1 && *x == id && *data == json!(i + 1), "a stream item is wrong"),
                Response::Error { id: x, .. } => zs::check(i == 1 && *x == Some(id), "an item that cannot be serialized is not reported under the id of its stream"),
                _ => zs::fail("a stream is answered as a method"),
            }
        }
        zs::cover(1);
    })
}
