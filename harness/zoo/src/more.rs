//! Recursive types, renamed namespaces, flattened fields
use crate::judge::{Tm::*, *};
use crate::types::{Leaf, Ns, Tagged, Two};
use mz::{norm_ty, Ty, Z};
use serde::Deserialize;
use std::{collections::{BTreeMap, HashMap, HashSet}, rc::Rc, sync::Arc};
use zod::{Namespace, TsTypeDef, Zod, ZodType};

#[derive(Namespace)] pub struct Plain;
#[derive(Namespace)] #[namespace(name = "Re_Named")] pub struct Renamed;
#[derive(Namespace)] #[namespace(name = "Plain2")] pub struct Swapped;
#[derive(Namespace)] #[allow(dead_code)] pub struct r#Raw;
pub mod deep { pub mod er { #[derive(zod::Namespace)] pub struct Deep; #[derive(zod::Namespace)] #[namespace(name = "In_Deep")] pub struct Deep2; } }

macro_rules! same { ($($m:ident $ns:literal;)*) => { $(pub mod $m {
    use super::*;
    #[derive(Deserialize, Zod)] #[zod(namespace = $ns)] pub struct Item { pub a: u8 }
    #[derive(Deserialize, Zod)] #[zod(namespace = $ns)] #[serde(rename = "Other_Item")] pub struct Ren { pub a: Item }
    #[derive(Deserialize, Zod)] #[zod(namespace = $ns)] #[serde(rename(deserialize = "DeItem", serialize = "SeItem"))] pub struct RenDe(pub Item, pub Ren);
    #[derive(Deserialize, Zod)] #[zod(namespace = $ns)] #[serde(rename(serialize = "SeOnly"))] pub enum RenSe { A, B(Item) }
    #[derive(Deserialize, Zod)] #[zod(namespace = $ns)] #[serde(rename = "Un_tagged", untagged)] pub enum Unt { A(Item), B(u8) }
    #[derive(Deserialize, Zod)] #[zod(namespace = $ns)] #[serde(from = "Ren", rename = "Frm")] pub struct From_ { pub a: u8 }
    impl From<Ren> for From_ { fn from(_: Ren) -> Self { From_ { a: 0 } } }
    #[derive(Deserialize, Zod)] #[zod(namespace = $ns)] #[serde(try_from = "Ren", rename = "TFrm")] pub enum TFrom_ { A }
    impl From<Ren> for TFrom_ { fn from(_: Ren) -> Self { TFrom_::A } }
    #[derive(Deserialize, Zod)] #[zod(namespace = $ns)] #[serde(transparent, rename = "Trans")] pub struct T(pub RenDe);
    #[derive(Deserialize, Zod)] #[zod(namespace = $ns)] pub struct r#Raw { pub t: T }
    pub fn refs(ns: &str, k: usize) {
        macro_rules! r { ($t:ty, $e:literal) => { reference(concat!(stringify!($m), "::", $e), $e, ns, zt::<$t>(), full::<$t>()) } }
        match k { 0 => r!(Item, "Item"), 1 => r!(Ren, "Other_Item"), 2 => r!(RenDe, "DeItem"), 3 => r!(RenSe, "RenSe"), 4 => r!(Unt, "Un_tagged"), 5 => r!(From_, "Frm"), 6 => r!(TFrom_, "TFrm"), 7 => r!(T, "Trans"), _ => r!(Raw, "Raw") }
    }
})* } }
same! { s1 "super::Plain"; s2 "super::Renamed"; s3 "super::Swapped"; s4 "super::deep::er::Deep"; s5 "crate::more::deep::er::Deep2"; s6 "super::Raw"; }
const SPACES: [(&str, fn(&str, usize)); 6] = [("Plain", s1::refs), ("Re_Named", s2::refs), ("Plain2", s3::refs), ("Deep", s4::refs), ("In_Deep", s5::refs), ("Raw", s6::refs)];
pub fn refs() { let (ns, f) = SPACES[zs::choice(6)]; f(ns, zs::choice(9)) }
/// D05: exactly what was derived is registered, once
pub fn registered() {
    let d = definitions();
    let i = pick(d.len());
    zs::check(d.iter().filter(|x| x.namespace() == d[i].namespace() && x.name() == d[i].name()).count() == 1, "a name is exported twice");
    zs::cover(1);
    let extra = SPACES.iter().map(|s| d.iter().filter(|x| x.namespace() == s.0).count()).all(|n| n == 9);
    zs::check(extra, "a namespace has members that were not derived in it, or misses some");
    let ns = d.iter().filter(|x| x.namespace() == "Ns").count();
    zs::check(ns == crate::types::CASES.len() + 4, "a namespace has members that were not derived in it, or misses some");
    zs::check(Ns::members().len() == ns && Renamed::members().len() == 9 && s1::Item::schema().len() > 0 && deep::er::Deep2::members().len() == 9, "the members of a namespace are not those registered");
}
/// S04: every use of a name in a generated schema is lazy, every type name qualified
pub fn all_lazy() {
    let d = definitions();
    let d = d[pick(d.len())];
    let e = match mz::parse::expr_all(&d.schema()) { Ok(e) => e, Err(m) => zs::fail(&format!("{}: {m}", d.name())) };
    zs::cover(1);
    zs::check(lazy(&e), "a schema uses another one before it need be there");
    mz::schema(&d.schema()).walk(&mut |z| if let Z::Ref(ns, n) = z { zs::cover(2); zs::check(lookup(ns, n).is_some(), "a schema refers to something that is not exported") });
    def_ty(&d.type_def()).walk(&mut |t| if let Ty::Ref(ns, n) = t { zs::check(lookup(ns, n).is_some(), "a type refers to something that is not exported") });
}

// ---- S04
#[derive(Namespace)] pub struct Rec;
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] pub struct List { pub v: u8, pub next: Option<Box<List>> }
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] pub struct Tree { pub kids: Vec<Tree>, pub by: BTreeMap<String, Tree>, #[serde(default)] pub pair: Option<Box<(Tree, Tree)>> }
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] pub enum Expr { Num(u8), Neg(Box<Expr>), Add(Box<Expr>, Rc<Expr>), If { c: Arc<Expr>, t: Option<Box<Expr>> } }
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] #[serde(tag = "t")] pub enum Ping { Pong(Pong), More { p: Vec<Ping> }, End }
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] pub struct Pong { pub p: Option<Box<Ping>>, pub q: Duo }
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] pub struct Duo(pub Vec<Ping>, #[serde(default)] pub HashMap<String, Pong>);
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] #[serde(untagged)] pub enum Nested { Leaf(u8), Many(Vec<Nested>), Of { n: Box<Nested> } }
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] #[serde(tag = "k", content = "c")] pub enum Adj { One(Box<Adj>), Two(Box<Adj>, u8), Nil }
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] #[serde(transparent)] pub struct Wrap { pub inner: Vec<Wrap> }
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] pub struct New(pub Vec<New>);
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] #[serde(from = "Vec<Conv>")] pub struct Conv { pub v: u8 }
impl From<Vec<Conv>> for Conv { fn from(v: Vec<Conv>) -> Self { Conv { v: v.len() as u8 } } }
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] pub struct Res { pub r: Result<Box<Res>, u8>, pub s: Vec<HashSet<u8>>, pub o: Vec<Box<Res>> }
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] pub struct Ma { pub b: Vec<Mb>, pub c: Option<Box<Mc>> }
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] pub struct Mb(pub Option<Box<Mc>>, pub u8);
#[derive(Deserialize, Zod)] #[zod(namespace = "Rec")] pub enum Mc { A(Box<Ma>), B { b: Box<Mb> }, #[serde(rename = "d")] D }

macro_rules! rec { ($($t:ident : [$($d:expr),*] $l:expr;)*) => { pub static RECURSIVE: &[Case] = &[$(Case { name: stringify!($t), zt: full::<$t>, used: zt::<$t>, exported: stringify!($t), reads: reads::<$t>, docs: &[$($d),*], lens: $l, keys: None, tag: None }),*]; } }
rec! {
    List: [O(&[("v", N)]), O(&[("v", N), ("next", Opt(&O(&[("v", N), ("next", Opt(&O(&[("v", N)])))])))])] &[1, 4];
    Tree: [O(&[("kids", A(&[])), ("by", O(&[])), ("pair", D(&Opt(&A(&[O(&[("kids", A(&[])), ("by", O(&[]))]), O(&[("kids", A(&[])), ("by", O(&[]))])]))))]), O(&[("kids", A(&[O(&[("kids", A(&[])), ("by", M(&O(&[("kids", A(&[])), ("by", O(&[]))])))])])), ("by", O(&[]))])] &[2, 4];
    Expr: [X(&[("Num", N)]), X(&[("Neg", X(&[("Neg", X(&[("Num", N)]))]))]), X(&[("Add", A(&[X(&[("Num", N)]), X(&[("Neg", X(&[("Num", N)]))])]))]), X(&[("If", O(&[("c", X(&[("Num", N)])), ("t", Opt(&X(&[("Num", N)])))]))])] &[1, 2, 3];
    Ping: [O(&[("t", Lit("End"))]), O(&[("t", Lit("More")), ("p", A(&[O(&[("t", Lit("End"))]), O(&[("t", Lit("More")), ("p", A(&[]))])]))]), O(&[("t", Lit("Pong")), ("q", A(&[A(&[O(&[("t", Lit("End"))])]), D(&M(&O(&[("q", A(&[A(&[])]))])))])), ("p", Opt(&O(&[("t", Lit("End"))])))])] &[1, 3, 4];
    Pong: [O(&[("q", A(&[A(&[O(&[("t", Lit("End"))])]), D(&M(&O(&[("q", A(&[A(&[])]))])))]))])] &[1, 3];
    Duo: [A(&[A(&[O(&[("t", Lit("End"))])]), D(&M(&O(&[("q", A(&[A(&[])]))])))])] &[1, 3];
    Nested: [N, A(&[N, N]), A(&[A(&[A(&[N])]), N]), O(&[("n", A(&[N]))]), O(&[("n", O(&[("n", N)]))])] &[1];
    Adj: [X(&[("k", Lit("Nil"))]), X(&[("k", Lit("One")), ("c", X(&[("k", Lit("Nil"))]))]), X(&[("k", Lit("Two")), ("c", A(&[X(&[("k", Lit("One")), ("c", X(&[("k", Lit("Nil"))]))]), N]))])] &[1, 3];
    Wrap: [A(&[]), A(&[A(&[]), A(&[A(&[])])])] &[];
    New: [A(&[]), A(&[A(&[]), A(&[A(&[])])])] &[];
    Conv: [A(&[]), A(&[A(&[]), A(&[A(&[])])])] &[];
    Res: [O(&[("r", X(&[("Err", N)])), ("s", A(&[A(&[N])])), ("o", A(&[O(&[("r", X(&[("Ok", O(&[("r", X(&[("Err", N)])), ("s", A(&[])), ("o", A(&[]))]))])), ("s", A(&[])), ("o", A(&[]))])]))])] &[1, 2, 3];
    Ma: [O(&[("b", A(&[A(&[Opt(&Lit("d")), N])]))]), O(&[("b", A(&[])), ("c", Opt(&X(&[("A", O(&[("b", A(&[]))]))])))])] &[1];
    Mb: [A(&[Opt(&X(&[("B", O(&[("b", A(&[Opt(&Lit("d")), N]))]))])), N])] &[1];
    Mc: [Lit("d"), X(&[("B", O(&[("b", A(&[Opt(&Lit("d")), N]))]))]), X(&[("A", O(&[("b", A(&[A(&[Opt(&Lit("d")), N])]))]))])] &[1];
}

pub fn recursive(changes: usize) { agree(&RECURSIVE[zs::choice(RECURSIVE.len())], changes) }
/// the text a recursive type must have the meaning of
const SHAPES: &[(&str, &str, &str)] = &[
    ("List", "z.object({v: N, next: z.lazy(() => Rec.List).optional()})", "{v: number, next: Rec.List | undefined}"),
    ("Tree", "z.object({kids: z.array(z.lazy(() => Rec.Tree)), by: z.map(z.string(), z.lazy(() => Rec.Tree)), pair: z.tuple([z.lazy(() => Rec.Tree), z.lazy(() => Rec.Tree)]).optional()})", "{kids: Array<Rec.Tree>, by: Map<string, Rec.Tree>, pair?: [Rec.Tree, Rec.Tree] | undefined}"),
    ("Expr", "z.union([z.object({Num: N}), z.object({Neg: z.lazy(() => Rec.Expr)}), z.object({Add: z.tuple([z.lazy(() => Rec.Expr), z.lazy(() => Rec.Expr)])}), z.object({If: z.object({c: z.lazy(() => Rec.Expr), t: z.lazy(() => Rec.Expr).optional()})})])", "{Num: number} | {Neg: Rec.Expr} | {Add: [Rec.Expr, Rec.Expr]} | {If: {c: Rec.Expr, t: Rec.Expr | undefined}}"),
    ("Pong", "z.object({p: z.lazy(() => Rec.Ping).optional(), q: z.lazy(() => Rec.Duo)})", "{p: Rec.Ping | undefined, q: Rec.Duo}"),
    ("Duo", "z.tuple([z.array(z.lazy(() => Rec.Ping)), z.map(z.string(), z.lazy(() => Rec.Pong)).optional()])", "[Array<Rec.Ping>, Map<string, Rec.Pong> | undefined]"),
    ("Nested", "z.union([N, z.array(z.lazy(() => Rec.Nested)), z.object({n: z.lazy(() => Rec.Nested)})])", "number | Array<Rec.Nested> | {n: Rec.Nested}"),
    ("Wrap", "z.array(z.lazy(() => Rec.Wrap))", "Array<Rec.Wrap>"), ("New", "z.array(z.lazy(() => Rec.New))", "Array<Rec.New>"), ("Conv", "z.array(z.lazy(() => Rec.Conv))", "Array<Rec.Conv>"),
    ("Ma", "z.object({b: z.array(z.lazy(() => Rec.Mb)), c: z.lazy(() => Rec.Mc).optional()})", "{b: Array<Rec.Mb>, c: Rec.Mc | undefined}"),
    ("Mb", "z.tuple([z.lazy(() => Rec.Mc).optional(), N])", "[Rec.Mc | undefined, number]"),
    ("Mc", "z.union([z.object({A: z.lazy(() => Rec.Ma)}), z.object({B: z.object({b: z.lazy(() => Rec.Mb)})}), z.literal(\"d\")])", "{A: Rec.Ma} | {B: {b: Rec.Mb}} | \"d\""),
];
pub fn structure() {
    let s = &SHAPES[zs::choice(SHAPES.len())];
    zs::cover(1);
    let c = RECURSIVE.iter().find(|c| c.name == s.0).unwrap();
    let (z, t, _) = (c.zt)();
    let (n, _) = zt::<u8>();
    let mark = "z.literal(-0.5)";
    fn put(z: Z, n: &Z) -> Z {
        let b = |z: Box<Z>| Box::new(put(*z, n));
        match z {
            Z::LitNum(_) => n.clone(), Z::Arr(z) => Z::Arr(b(z)), Z::Set(z) => Z::Set(b(z)), Z::Opt(z) => Z::Opt(b(z)), Z::Map(k, v) => Z::Map(b(k), b(v)),
            Z::Tuple(v) => Z::Tuple(v.into_iter().map(|z| put(z, n)).collect()), Z::Union(v) => Z::Union(v.into_iter().map(|z| put(z, n)).collect()),
            Z::Obj(f, x) => Z::Obj(f.into_iter().map(|(k, z)| (k, put(z, n))).collect(), x), z => z,
        }
    }
    let want = put(mz::schema(&s.1.replace("N})", &format!("{mark}}})")).replace(": N,", &format!(": {mark},")).replace("[N,", &format!("[{mark},")).replace(", N]", &format!(", {mark}]"))), &n);
    if mz::schema(&z) != want { zs::fail(&format!("{}: the schema of a recursive type is not made of references to the types it uses", s.0)) }
    if norm_ty(&mz::ty(&t)) != norm_ty(&mz::ty(s.2)) { zs::fail(&format!("{}: the definition of a recursive type is not made of references to the types it uses", s.0)) }
}

// ---- flattened fields
#[derive(Namespace)] pub struct Flat;
#[derive(Deserialize, Zod)] #[zod(namespace = "Flat")] pub struct F1 { pub a: u8, #[serde(flatten)] pub rest: Two, pub b: String }
#[derive(Deserialize, Zod)] #[zod(namespace = "Flat")] pub struct F2 { #[serde(flatten)] pub rest: Leaf, #[serde(flatten)] pub two: Box<Two>, #[serde(default)] pub b: u8 }
#[derive(Deserialize, Zod)] #[zod(namespace = "Flat")] pub struct F3 { #[serde(rename = "a b")] pub a: u8, #[serde(flatten)] pub rest: Tagged }
#[derive(Deserialize, Zod)] #[zod(namespace = "Flat")] pub struct F4 { #[serde(flatten)] pub rest: Two }
#[derive(Deserialize, Zod)] #[zod(namespace = "Flat")] pub struct F5 { #[serde(flatten)] pub rest: F1, #[serde(skip)] pub x: u8, pub c: bool }
macro_rules! flat { ($($t:ident : [$($d:expr),*] $l:expr;)*) => { pub static FLAT: &[Case] = &[$(Case { name: stringify!($t), zt: full::<$t>, used: zt::<$t>, exported: stringify!($t), reads: reads::<$t>, docs: &[$($d),*], lens: $l, keys: None, tag: None }),*]; } }
flat! {
    F1: [O(&[("a", N), ("x", N), ("y", S), ("b", S)])] &[1];
    F2: [O(&[("v", N), ("x", N), ("y", S), ("b", D(&N))])] &[1];
    F3: [O(&[("a b", N), ("t", Lit("A")), ("v", N)]), O(&[("a b", N), ("t", Lit("B"))])] &[1, 3];
    F4: [O(&[("x", N), ("y", S)])] &[1];
    F5: [O(&[("a", N), ("x", N), ("y", S), ("b", S), ("c", B)])] &[1];
}
pub fn flatten(changes: usize) { agree(&FLAT[zs::choice(FLAT.len())], changes) }
/// `.extend` takes the shape of an object, not its schema
pub fn extend() {
    let c = &FLAT[zs::choice(FLAT.len())];
    zs::cover(1);
    let e = match mz::parse::expr_all(&(c.zt)().0) { Ok(e) => e, Err(m) => zs::fail(&m) };
    zs::check(!mz::zod::wrong_extend(&e), "a flattened field is given to z.object().extend as a schema, which wants the shape of an object");
}
pub fn unused(_: TsTypeDef, _: Ty) {}
