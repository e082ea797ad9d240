//! The backend under test: every shape of namespace and method the macros support.
use futures::Stream;
use std::sync::Mutex;
use std::{pin::Pin, task::{Context, Poll}};

/// every method body that ran: (namespace, method, arguments)
pub static LOG: Mutex<Vec<(&'static str, &'static str, Vec<u64>)>> = Mutex::new(Vec::new());
pub fn log(ns: &'static str, m: &'static str, a: &[u64]) { LOG.lock().unwrap().push((ns, m, a.to_vec())) }
pub fn take_log() -> Vec<(&'static str, &'static str, Vec<u64>)> { std::mem::take(&mut *LOG.lock().unwrap()) }

/// streams alive: (base, dropped?)
pub static LIVE: Mutex<Vec<(u32, bool)>> = Mutex::new(Vec::new());

/// A result that cannot be serialized.
pub struct Bad;
impl serde::Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(serde::ser::Error::custom("unserializable")) }
}
impl zod::ZodType for Bad {
    fn schema() -> String { "z.any()".into() }
    fn type_def() -> zod::TsTypeDef { zod::TsTypeDef::Type("any".into()) }
}

/// yields once
pub struct Yield(pub bool);
impl std::future::Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 { Poll::Ready(()) } else { self.0 = true; cx.waker().wake_by_ref(); Poll::Pending }
    }
}

/// `n` items base, base+1, ...; with `lazy` every item needs one more poll; endless if n == u32::MAX
pub struct Items { base: u32, at: u32, n: u32, lazy: bool, armed: bool }
impl Items {
    pub fn new(base: u32, n: u32, lazy: bool) -> Self {
        LIVE.lock().unwrap().push((base, false));
        Items { base, at: 0, n, lazy, armed: false }
    }
}
impl Drop for Items {
    fn drop(&mut self) { for l in LIVE.lock().unwrap().iter_mut() { if l.0 == self.base { l.1 = true } } }
}
impl Stream for Items {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        if self.lazy && !self.armed { self.armed = true; cx.waker().wake_by_ref(); return Poll::Pending; }
        self.armed = false;
        if self.at >= self.n { return Poll::Ready(None); }
        self.at += 1;
        Poll::Ready(Some(self.base + (self.at - 1)))
    }
}
/// an item that cannot be serialized in the middle
pub struct Mixed(u32);
impl Stream for Mixed {
    type Item = Maybe;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Maybe>> {
        self.0 += 1;
        Poll::Ready(if self.0 <= 3 { Some(Maybe(self.0)) } else { None })
    }
}
pub struct Maybe(u32);
impl serde::Serialize for Maybe {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { if self.0 == 2 { Err(serde::ser::Error::custom("two")) } else { s.serialize_u32(self.0) } }
}
impl zod::ZodType for Maybe {
    fn schema() -> String { "z.any()".into() }
    fn type_def() -> zod::TsTypeDef { zod::TsTypeDef::Type("any".into()) }
}

#[derive(zod::Namespace)]
pub struct Alpha { pub calls: u32 }

#[zod::rpc::namespace]
impl Alpha {
    pub async fn zero(&mut self) -> u32 { self.calls += 1; log("Alpha", "zero", &[]); 70 }
    pub async fn one(&mut self, a: u8) -> u32 { log("Alpha", "one", &[a as u64]); a as u32 + 1 }
    pub async fn two(&mut self, a: u32, b: u32) -> (u32, u32) { log("Alpha", "two", &[a as u64, b as u64]); (a, b) }
    pub async fn three(&mut self, a: u32, b: u64, c: u32) -> Vec<u64> { log("Alpha", "three", &[a as u64, b, c as u64]); vec![a as u64, b, c as u64] }
    #[allow(clippy::too_many_arguments)]
    pub async fn eight(&mut self, a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, g: u32, h: u32) {
        let v = [a, b, c, d, e, f, g, h].map(|x| x as u64);
        log("Alpha", "eight", &v);
    }
    #[allow(clippy::too_many_arguments)]
    pub async fn twelve(&mut self, a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, g: u32, h: u32, i: u32, j: u32, k: u32, l: u32) -> u32 {
        let v = [a, b, c, d, e, f, g, h, i, j, k, l].map(|x| x as u64);
        log("Alpha", "twelve", &v);
        l
    }
    pub async fn unit(&mut self, on: bool) { log("Alpha", "unit", &[on as u64]); }
    pub async fn text(&mut self, s: String) -> String { log("Alpha", "text", &[s.len() as u64]); s }
    pub async fn opt(&mut self, s: Option<u32>) -> Option<u32> { log("Alpha", "opt", &[s.map_or(u64::MAX, |x| x as u64)]); s }
    pub async fn r#type(&mut self, r#in: u32) -> u32 { log("Alpha", "type", &[r#in as u64]); r#in }
    pub async fn bad(&mut self) -> Bad { log("Alpha", "bad", &[]); Bad }
    pub async fn slow(&mut self, n: u8, v: u32) -> u32 {
        log("Alpha", "slow", &[n as u64, v as u64]);
        for _ in 0..n { Yield(false).await }
        v
    }
    pub fn count(&mut self, n: u8, base: u32) -> Items { log("Alpha", "count", &[n as u64, base as u64]); Items::new(base, n as u32, false) }
    pub fn lazy(&mut self, n: u8, base: u32) -> impl Stream<Item = u32> { log("Alpha", "lazy", &[n as u64, base as u64]); Items::new(base, n as u32, true) }
    pub fn forever(&mut self, base: u32) -> impl Stream<Item = u32> { log("Alpha", "forever", &[base as u64]); Items::new(base, u32::MAX, true) }
    pub fn silent(&mut self) -> futures::stream::Pending<u32> { log("Alpha", "silent", &[]); futures::stream::pending() }
    pub fn mixed(&mut self) -> Mixed { log("Alpha", "mixed", &[]); Mixed(0) }
    pub fn blank(&mut self) -> impl Stream<Item = u32> { log("Alpha", "blank", &[]); Items::new(7, 1, false) }
}

#[derive(zod::Namespace)]
#[namespace(name = "Beta_2")]
pub struct Beta;

#[zod::rpc::namespace]
impl Beta {
    pub async fn one(&mut self, a: u8) -> u32 { log("Beta_2", "one", &[a as u64]); a as u32 + 2 }
    pub async fn zero(&mut self) -> u32 { log("Beta_2", "zero", &[]); 71 }
    pub async fn two(&mut self, b: u32, a: u32) -> (u32, u32) { log("Beta_2", "two", &[b as u64, a as u64]); (a, b) }
    pub async fn namespace(&mut self, namespace: u32) -> u32 { log("Beta_2", "namespace", &[namespace as u64]); namespace }
    pub async fn method(&mut self, method: u32, args: u32) -> u32 { log("Beta_2", "method", &[method as u64, args as u64]); method }
    pub async fn args(&mut self, id: u32, sender: u32, ctx: u32) -> u32 { log("Beta_2", "args", &[id as u64, sender as u64, ctx as u64]); id ^ sender ^ ctx }
    pub async fn id(&mut self) -> u32 { log("Beta_2", "id", &[]); 72 }
    pub async fn call(&mut self, id: u32) -> u32 { log("Beta_2", "call", &[id as u64]); id }
    pub fn count(&mut self, n: u8, base: u32) -> Items { log("Beta_2", "count", &[n as u64, base as u64]); Items::new(base, n as u32, false) }
}

pub mod m1 {
    #[derive(zod::Namespace)]
    #[namespace(name = "Same1")]
    pub struct Same;
    #[zod::rpc::namespace]
    impl Same {
        pub async fn one(&mut self, a: u8) -> u32 { super::log("Same1", "one", &[a as u64]); a as u32 + 3 }
    }
}
pub mod m2 {
    #[derive(zod::Namespace)]
    #[namespace(name = "Same")]
    pub struct Same;
    #[zod::rpc::namespace]
    impl Same {
        pub async fn one(&mut self, a: u8) -> u32 { super::log("Same", "one", &[a as u64]); a as u32 + 4 }
        pub fn blank(&mut self) -> futures::stream::Iter<std::vec::IntoIter<u32>> { super::log("Same", "blank", &[]); futures::stream::iter(vec![9]) }
    }
}
#[derive(zod::Namespace)]
pub struct Empty;
#[zod::rpc::namespace]
impl Empty {}

#[derive(zod::rpc::Backend)]
pub struct Server { pub alpha: Alpha, pub beta: Beta, pub same1: m1::Same, pub empty: Empty, pub same2: m2::Same }
pub fn server() -> Server { Server { alpha: Alpha { calls: 0 }, beta: Beta, same1: m1::Same, empty: Empty, same2: m2::Same } }

/// (namespace, method, number of arguments, stream)
pub const METHODS: &[(&str, &str, usize, bool)] = &[
    ("Alpha", "zero", 0, false), ("Alpha", "one", 1, false), ("Alpha", "two", 2, false), ("Alpha", "three", 3, false),
    ("Alpha", "eight", 8, false), ("Alpha", "twelve", 12, false), ("Alpha", "type", 1, false), ("Alpha", "count", 2, true), ("Alpha", "lazy", 2, true), ("Alpha", "blank", 0, true),
    ("Beta_2", "one", 1, false), ("Beta_2", "zero", 0, false), ("Beta_2", "two", 2, false), ("Beta_2", "namespace", 1, false),
    ("Beta_2", "method", 2, false), ("Beta_2", "args", 3, false), ("Beta_2", "id", 0, false), ("Beta_2", "call", 1, false), ("Beta_2", "count", 2, true),
    ("Same1", "one", 1, false), ("Same", "one", 1, false), ("Same", "blank", 0, true),
];
