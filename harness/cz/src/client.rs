//! N01, N02, N03: the generated client and the listings, over a registry with symbolic content
use crate::containers::{leak, name, symbols, text, Expect, L, M, U};
use mz::{module::{blocks, decl, Func, Item}, parse::Ex, Ty, Z};
use zod_core::{rpc::{codegen::{ClientCodegen, RpcArgument, RpcMember, RpcNamespace}, server::{Backend, SubscriberMap}, Request, ResponseSender}, InlinedType, Namespace, NamespaceMemberDefinition, TsTypeDef, ZodType};

fn submit<T: inventory::ErasedNode>(v: T) -> &'static T {
    let v: &'static T = Box::leak(Box::new(v));
    let node = Box::leak(Box::new(inventory::Node { value: v, next: std::cell::UnsafeCell::new(None) }));
    unsafe { inventory::ErasedNode::submit(v, node) }
    v
}
/// like another type, with docs
struct Doc<T>(std::marker::PhantomData<T>);
impl<T: ZodType> ZodType for Doc<T> {
    fn schema() -> String { T::schema() }
    fn inline_schema() -> String { T::inline_schema() }
    fn type_def() -> TsTypeDef { T::type_def() }
    fn inline() -> InlinedType { T::inline() }
    fn docs() -> Option<&'static str> { Some(leak(format!("/**\n* {}\n*/\n", doc_text()))) }
}
fn doc_text() -> String { let t = text(7); format!("{} {}", &t[..1], &t[1..]) }
fn docs() -> String { format!("/**\n* {}\n*/", doc_text()) }
struct Def { ns: &'static str, name: &'static str, docs: bool, full: (Z, Ty), interface: bool, def: &'static NamespaceMemberDefinition }
struct Fun { ns: &'static str, name: &'static str, stream: bool, args: usize, member: &'static RpcMember }

/// a name of one or two out of A, B, a, _
fn ns_name() -> &'static str { let n = 1 + zs::choice(2); leak(zs::ascii_in(n, "ABa_")) }
fn define<const K: usize>(n: &'static str) -> Def {
    let ns = ns_name();
    macro_rules! go { ($t:ty, $d:expr, $i:expr) => { Def { ns, name: n, docs: $d, full: <$t>::full(), interface: $i, def: submit(NamespaceMemberDefinition::new_for::<$t>(ns, n)) } } }
    macro_rules! doc { ($t:ty, $i:expr) => { Def { ns, name: n, docs: true, full: <$t>::full(), interface: $i, def: submit(NamespaceMemberDefinition::new_for::<Doc<$t>>(ns, n)) } } }
    match zs::choice(4) { 0 => go!(M<K>, false, true), 1 => go!(U<K>, false, false), 2 => doc!(M<K>, true), _ => doc!(L<K>, false) }
}
fn arg_names() -> [&'static str; 3] { [leak(name(21)), leak(name(22)), leak(name(23))] }
fn arg_list(n: usize) -> Vec<RpcArgument> {
    let a = arg_names();
    let mut v = vec![RpcArgument::new::<M<31>>(a[0]), RpcArgument::new::<Option<U<32>>>(a[1]), RpcArgument::new::<(M<33>, Vec<L<34>>)>(a[2])];
    v.truncate(n);
    v
}
fn arg_want(n: usize) -> Vec<(&'static str, Z, Ty)> {
    let a = arg_names();
    let mut v: Vec<_> = vec![(a[0], M::<31>::used()), (a[1], Option::<U<32>>::used()), (a[2], <(M<33>, Vec<L<34>>)>::used())].into_iter().map(|(n, (z, t))| (n, z, t)).collect();
    v.truncate(n);
    v
}
fn result() -> (String, Ty) { (Result::<M<41>, Vec<U<42>>>::inline().to_string(), Result::<M<41>, Vec<U<42>>>::used().1) }
fn function(k: usize, ns: &'static str, stream: bool, args: usize) -> Fun {
    let n = leak(name(k));
    let a: &'static (dyn Fn() -> Vec<RpcArgument> + Sync) = Box::leak(Box::new(move || arg_list(args)));
    let r: &'static (dyn Fn() -> String + Sync) = &|| result().0;
    let m = if stream { RpcMember::Stream { ns_name: ns, name: n, args: a, res: r } } else { RpcMember::Method { ns_name: ns, name: n, args: a, res: r } };
    Fun { ns, name: n, stream, args, member: submit(m) }
}
/// what a function of the client must be
fn judge(f: &Func, w: &Fun) {
    zs::check(f.name == w.name, "a generated function has another name than its method");
    let want = arg_want(w.args);
    zs::check(f.params.len() == want.len(), "a generated function has another number of parameters than its method");
    for (p, a) in f.params.iter().zip(&want) {
        zs::check(p.0 == a.0, "a parameter has another name, or is in another place");
        zs::check(mz::norm_ty(&p.1) == mz::norm_ty(&a.2), "a parameter has another type");
    }
    let Ty::Gen(k, r) = &f.ret else { zs::fail("the result of a generated function is neither a promise nor a store") };
    zs::check(k == if w.stream { "Store" } else { "Promise" } && f.is_async != w.stream, "a method is generated as a stream, or a stream as a method");
    zs::check(r.len() == 1 && mz::norm_ty(&r[0]) == mz::norm_ty(&result().1), "a generated function has another result than its method");
    let Some(v) = f.validated() else { zs::fail("a generated function does not validate all of its arguments") };
    let z = match mz::zod::lower(v) { Ok(z) => z, Err(_) => zs::fail("a generated function validates against something that is no schema") };
    zs::check(z == Z::Tuple(want.iter().map(|a| a.1.clone()).collect()), "a generated function validates its arguments against other schemas");
    for e in &f.body { zs::check(matches!(e, Ex::Call(..)) || matches!(e, Ex::Id(n) if f.params.iter().any(|p| p.0 == *n)), "a generated function does something else") }
    let Some(c) = f.call() else { zs::fail("a generated function does not pass on the namespace, the method and all arguments") };
    zs::check(c.0 == if w.stream { "subscribe" } else { "request" }, "a generated function makes the wrong kind of request");
    zs::check(c.1 == w.ns && c.2 == w.name, "a generated function calls another method");
}
fn is_schema(e: &Ex, z: &Z) -> bool { matches!(mz::zod::lower(e), Ok(x) if x == *z) }

struct Pre;
const PRE: &str = "import { z } from \"zod\";\n";
impl ClientCodegen for Pre { fn get() -> String { PRE.into() } }
macro_rules! backends { ($($n:ident = $l:expr;)*) => { $(
    struct $n;
    #[async_trait::async_trait]
    impl Backend for $n { const NS_NAMES: &'static [&'static str] = $l; async fn handle_request(&mut self, _: Request, _: ResponseSender, _: &mut SubscriberMap) {} }
)* } }
backends! { B0 = &[]; B1 = &["A"]; B2 = &["AB", "A", "Aa"]; B3 = &["B", "AA", "BA", "_"]; B4 = &["BB", "AB", "A", "B", "aA", "A_"]; }
macro_rules! spaces { ($($n:ident = $l:expr;)*) => { $( struct $n; impl Namespace for $n { const NAME: &'static str = $l; } impl RpcNamespace for $n { type Req = (); } )* } }
spaces! { NA = "A"; NAB = "AB"; NB = "B"; NAA = "aA"; NC = "C"; NLA = "a"; NU = "A_"; }
const ALL: [&str; 20] = ["A", "B", "a", "_", "AA", "AB", "Aa", "A_", "BA", "BB", "Ba", "B_", "aA", "aB", "aa", "a_", "_A", "_B", "_a", "__"];

/// up to `param 0` types and `param 1` methods registered in any order; with `param 2` the second one may
/// have the definition or the name of the first (in the same namespace if `same`)
fn registry(same: bool) -> (Vec<Def>, Vec<Fun>) {
    symbols();
    let (n, m) = (zs::choice(zs::param(0) as usize + 1), zs::choice(zs::param(1) as usize + 1));
    let mut d = vec![];
    let twins = zs::param(2) == 1;
    if n > 0 { d.push(define::<0>(leak(name(0)))) }
    if n > 1 { d.push(match zs::choice(if twins { 3 } else { 1 }) { 0 => define::<1>(leak(name(1))), 1 => define::<0>(leak(name(1))), _ => define::<1>(leak(name(0))) }) }
    if n > 2 { d.push(define::<2>(leak(name(2)))) }
    let f: Vec<Fun> = (0..m).map(|i| { let (ns, s) = (ns_name(), zs::flag()); if twins && i == 1 && zs::flag() { function(10, ns, s, 0) } else { function(10 + i, ns, s, i) } }).collect();
    if !same {
        if d.len() > 1 { zs::assume(d[0].name != d[1].name || d[0].ns != d[1].ns) }
        if f.len() > 1 { zs::assume(f[0].name != f[1].name || f[0].ns != f[1].ns) }
    }
    (d, f)
}
fn exported<B: Backend>(d: &[Def], f: &[Fun]) {
    let code = B::generate::<Pre>();
    let Some(rest) = code.strip_prefix(PRE) else { zs::fail("the generated client does not begin with its preamble") };
    let got = match blocks(rest) { Ok(b) => b, Err(m) => zs::fail(&format!("the generated client is malformed: {m}")) };
    let listed: Vec<&str> = ALL.iter().copied().filter(|n| B::NS_NAMES.contains(n) && (d.iter().any(|d| d.ns == *n) || f.iter().any(|f| f.ns == *n))).collect();
    zs::check(got.len() == listed.len(), "the generated client has too many or too few namespaces");
    for n in listed {
        let b: Vec<_> = got.iter().filter(|b| b.ns == n).collect();
        zs::check(b.len() == 1, "a namespace is not exported exactly once");
        let items = &b[0].items;
        let (ds, fs): (Vec<_>, Vec<_>) = (d.iter().filter(|d| d.ns == n).collect(), f.iter().filter(|f| f.ns == n).collect());
        zs::check(items.len() == 2 * ds.len() + fs.len(), "a namespace exports too much or too little");
        for w in ds {
            zs::cover(1);
            let docs = if w.docs { zs::cover(2); vec![docs()] } else { vec![] };
            let schemas: Vec<_> = items.iter().filter(|i| matches!(&i.1, Item::Schema(n, _) if n == w.name)).collect();
            zs::check(schemas.len() == 1 && matches!(&schemas[0].1, Item::Schema(_, e) if is_schema(e, &w.full.0)), "a type does not have exactly one exported schema, its own");
            zs::check(schemas[0].0 == docs, "a schema is exported without the docs of its type");
            let types: Vec<_> = items.iter().filter(|i| matches!(&i.1, Item::Interface(n, _) | Item::Alias(n, _) if n == w.name)).collect();
            zs::check(types.len() == 1, "a type is not exported exactly once");
            let ok = match &types[0].1 { Item::Interface(_, t) => w.interface && mz::norm_ty(t) == mz::norm_ty(&w.full.1), Item::Alias(_, t) => !w.interface && mz::norm_ty(t) == mz::norm_ty(&w.full.1), _ => false };
            zs::check(ok, "a type is exported with another definition");
            zs::check(types[0].0 == docs, "a type is exported without its docs");
        }
        for w in fs {
            zs::cover(3);
            let mine: Vec<_> = items.iter().filter_map(|i| match &i.1 { Item::Func(f) if f.name == w.name => Some(f), _ => None }).collect();
            zs::check(mine.len() == 1, "a method does not have exactly one function");
            judge(mine[0], w);
        }
    }
}
pub fn generated() {
    let (d, f) = registry(false);
    match zs::choice(5) { 0 => exported::<B0>(&d, &f), 1 => exported::<B1>(&d, &f), 2 => exported::<B2>(&d, &f), 3 => exported::<B3>(&d, &f), _ => exported::<B4>(&d, &f) }
}
fn same_set<T>(got: &[&'static T], want: Vec<&'static T>, msg: &str) {
    zs::check(got.len() == want.len() && want.iter().all(|w| got.iter().filter(|g| std::ptr::eq(**g, *w)).count() == 1), msg)
}
fn listed<N: RpcNamespace>(d: &[Def], f: &[Fun]) {
    same_set(&N::members(), d.iter().filter(|d| d.ns == N::NAME).map(|d| d.def).collect(), "the members of a namespace are not those registered in it");
    same_set(&N::rpc_members(), f.iter().filter(|f| f.ns == N::NAME).map(|f| f.member).collect(), "the methods of a namespace are not those registered in it");
    zs::cover(1);
}
fn mapped<B: Backend>(d: &[Def], f: &[Fun]) {
    let (z, mut r) = (B::zod_namespaces(), B::rpc_members());
    let want = |n: &str| (B::NS_NAMES.contains(&n) && d.iter().any(|d| d.ns == n), B::NS_NAMES.contains(&n) && f.iter().any(|f| f.ns == n));
    zs::check(z.len() == ALL.iter().filter(|n| want(n).0).count() && r.len() == ALL.iter().filter(|n| want(n).1).count(), "a backend lists too many or too few namespaces");
    for n in ALL {
        if want(n).0 { zs::cover(2); let Some(v) = z.get(n) else { zs::fail("a backend does not list one of its namespaces") }; same_set(v, d.iter().filter(|d| d.ns == n).map(|d| d.def).collect(), "the types of a namespace are listed under another one, twice, or not at all") }
        if want(n).1 {
            zs::cover(3);
            let Some(v) = r.get_mut(n) else { zs::fail("a backend does not list the methods of one of its namespaces") };
            let w: Vec<_> = f.iter().filter(|f| f.ns == n).map(|f| f.member.decl()).collect();
            zs::check(v.len() == w.len(), "the methods of a namespace are listed under another one, twice, or not at all");
            for x in w { let Some(i) = v.iter().position(|y| *y == x) else { zs::fail("a method is not listed under its namespace") }; v.swap_remove(i); }
        }
    }
}
pub fn listings() {
    let (d, f) = registry(true);
    for w in &d { zs::check(w.def.namespace() == w.ns && w.def.name() == w.name, "a registered type reports another name or namespace") }
    for w in &f { zs::check(w.member.ns_name() == w.ns, "a registered method reports another namespace") }
    match zs::choice(13) {
        0 => listed::<NA>(&d, &f), 1 => listed::<NAB>(&d, &f), 2 => listed::<NB>(&d, &f), 3 => listed::<NAA>(&d, &f), 4 => listed::<NC>(&d, &f),
        5 => mapped::<B0>(&d, &f), 6 => mapped::<B1>(&d, &f), 7 => mapped::<B2>(&d, &f), 8 => mapped::<B3>(&d, &f), 9 => mapped::<B4>(&d, &f), 10 => listed::<NLA>(&d, &f), 11 => listed::<NU>(&d, &f),
        _ => {
            let c = NamespaceMemberDefinition::collect();
            zs::check(c.len() == ALL.iter().filter(|n| d.iter().any(|d| d.ns == **n)).count(), "the collection has too many or too few namespaces");
            for (n, v) in c { zs::cover(4); same_set(&v, d.iter().filter(|d| d.ns == n).map(|d| d.def).collect(), "the types of a namespace are collected under another one, twice, or not at all") }
        }
    }
}
/// N03: the function of one method, with symbolic namespace, method and parameter names
pub fn function_of() {
    symbols();
    let len = 1 + zs::choice(2);
    let mut ns = zs::bytes_in(1, b"abXYZ_$"); ns.extend(zs::bytes_in(len - 1, b"abXYZ_$019"));
    let ns = leak(String::from_utf8(ns).unwrap());
    let (stream, n) = (zs::flag(), zs::choice(4));
    let w = function(10, ns, stream, n);
    let code = w.member.decl();
    match decl(&code) { Ok((_, Item::Func(f))) => { zs::cover(1 + stream as u64); judge(&f, &w) } Ok(_) => zs::fail("a method is not declared as a function"), Err(m) => zs::fail(&format!("the generated function is malformed: {m}")) }
}
