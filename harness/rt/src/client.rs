//! N01, N03: the client generated for the methods of the backend, through the attribute macro
use crate::backend::*;
use mz::{module::{blocks, Func, Item}, norm_ty, parse::Ex, Ty, Z};
use zod::{rpc::Backend, ZodType};

struct Want { ns: &'static str, name: &'static str, stream: bool, params: Vec<(&'static str, Z, Ty)>, ret: Ty }
fn zt<T: ZodType>(n: &'static str) -> (&'static str, Z, Ty) { (n, mz::schema(&T::inline_schema()), mz::ty(&T::inline().to_string())) }
macro_rules! wants { ($($k:ident $ns:ident . $m:ident ( $($p:ident : $t:ty),* ) -> $r:ty;)*) => { vec![$(
    Want { ns: stringify!($ns), name: stringify!($m), stream: stringify!($k) == "stream", params: vec![$(zt::<$t>(stringify!($p))),*], ret: mz::ty(&<$r as ZodType>::inline().to_string()) }
),*] } }
fn wants() -> Vec<Want> {
    let mut v = wants! {
        method Alpha.zero() -> u32; method Alpha.one(a: u8) -> u32; method Alpha.two(a: u32, b: u32) -> (u32, u32); method Alpha.three(a: u32, b: u64, c: u32) -> Vec<u64>;
        method Alpha.eight(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, g: u32, h: u32) -> ();
        method Alpha.twelve(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, g: u32, h: u32, i: u32, j: u32, k: u32, l: u32) -> u32;
        method Alpha.unit(on: bool) -> (); method Alpha.text(s: String) -> String; method Alpha.opt(s: Option<u32>) -> Option<u32>;
        method Alpha.bad() -> Bad; method Alpha.slow(n: u8, v: u32) -> u32;
        stream Alpha.count(n: u8, base: u32) -> u32; stream Alpha.lazy(n: u8, base: u32) -> u32; stream Alpha.forever(base: u32) -> u32; stream Alpha.silent() -> u32; stream Alpha.mixed() -> Maybe; stream Alpha.blank() -> u32;
        method Beta_2.one(a: u8) -> u32; method Beta_2.zero() -> u32; method Beta_2.two(b: u32, a: u32) -> (u32, u32); method Beta_2.namespace(namespace: u32) -> u32; method Beta_2.method(method: u32, args: u32) -> u32;
        method Beta_2.args(id: u32, sender: u32, ctx: u32) -> u32; method Beta_2.id() -> u32; method Beta_2.call(id: u32) -> u32; stream Beta_2.count(n: u8, base: u32) -> u32;
        method Same1.one(a: u8) -> u32; method Same.one(a: u8) -> u32; stream Same.blank() -> u32;
    };
    v.push(Want { ns: "Alpha", name: "type", stream: false, params: vec![zt::<u32>("in")], ret: Ty::Prim("number".into()) });
    v
}
fn judge(f: &Func, w: &Want) {
    zs::check(f.params.len() == w.params.len(), "a generated function has another number of parameters than its method");
    for (p, a) in f.params.iter().zip(&w.params) { zs::check(p.0 == a.0 && norm_ty(&p.1) == norm_ty(&a.2), "a parameter has another name or type, or is in another place") }
    let Ty::Gen(k, r) = &f.ret else { zs::fail("the result of a generated function is neither a promise nor a store") };
    zs::check(k == if w.stream { "Store" } else { "Promise" } && f.is_async != w.stream, "a method is generated as a stream, or a stream as a method");
    zs::check(r.len() == 1 && norm_ty(&r[0]) == norm_ty(&w.ret), "a generated function has another result than its method");
    let Some(v) = f.validated() else { zs::fail("a generated function does not validate all of its arguments") };
    zs::check(matches!(mz::zod::lower(v), Ok(z) if z == Z::Tuple(w.params.iter().map(|a| a.1.clone()).collect())), "a generated function validates its arguments against other schemas");
    for e in &f.body { zs::check(matches!(e, Ex::Call(..)) || matches!(e, Ex::Id(n) if f.params.iter().any(|p| p.0 == *n)), "a generated function does something else") }
    let Some(c) = f.call() else { zs::fail("a generated function does not pass on the namespace, the method and all arguments") };
    zs::check(c.0 == if w.stream { "subscribe" } else { "request" }, "a generated function makes the wrong kind of request");
    zs::check(c.1 == w.ns && c.2 == w.name, "a generated function calls another method");
}
/// every method has exactly one function, which is its mirror; nothing else is exported
pub fn client() {
    let code = <Server as Backend>::generate::<zod::rpc::clients::WebsocketClient>();
    let pre = <zod::rpc::clients::WebsocketClient as zod_core::rpc::codegen::ClientCodegen>::get();
    let Some(rest) = code.strip_prefix(pre.as_str()) else { zs::fail("the generated client does not begin with its preamble") };
    let got = match blocks(rest) { Ok(b) => b, Err(m) => zs::fail(&format!("the generated client is malformed: {m}")) };
    let wants = wants();
    let spaces = ["Alpha", "Beta_2", "Same1", "Same"];
    zs::check(got.len() == spaces.len() && spaces.iter().all(|s| got.iter().filter(|b| b.ns == *s).count() == 1), "a namespace of the backend is not exported exactly once");
    let b = &got[zs::choice(got.len())];
    zs::check(b.items.len() == wants.iter().filter(|w| w.ns == b.ns).count(), "a namespace exports too much or too little");
    for w in wants.iter().filter(|w| w.ns == b.ns) {
        let mine: Vec<_> = b.items.iter().filter_map(|i| match &i.1 { Item::Func(f) if f.name == w.name => Some(f), _ => None }).collect();
        zs::check(mine.len() == 1, "a method does not have exactly one function");
        judge(mine[0], w);
        zs::cover(1 + w.stream as u64);
    }
}
