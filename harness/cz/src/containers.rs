//! S03, S04: containers, tuples and pointers over elements with symbolic names and texts
use mz::{norm_ty, parse::Mem, Ty, Z};
use std::collections::*;
use zod_core::{InlinedType, TsTypeDef, ZodType};

static mut NAMES: (u8, u8, [u8; 2]) = (0, 0, [0; 2]);
/// every name and text below contains these
pub fn symbols() {
    let a = zs::bytes_in(2, b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$");
    let b = zs::bytes(2, 32, 126);
    zs::assume(b[0] != b'"' && b[0] != b'\\' && b[1] != b'"' && b[1] != b'\\');
    unsafe { NAMES = (a[0], a[1], [b[0], b[1]]) }
}
pub fn names() -> (u8, u8, [u8; 2]) { unsafe { NAMES } }
pub fn name(k: usize) -> String { let c = names().1; let mut s = String::from_utf8(vec![c]).unwrap(); s.push_str(&k.to_string()); s }
pub fn ns() -> String { let c = names().0; String::from_utf8(vec![c, b'N']).unwrap() }
pub fn text(k: usize) -> String { let c = names().2; let mut s = String::from_utf8(vec![c[0], c[1]]).unwrap(); s.push_str(&k.to_string()); s }
pub fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }

/// a named type: used by reference only, the full text must never show up elsewhere
#[derive(Clone)]
pub struct M<const K: usize>;
impl<const K: usize> ZodType for M<K> {
    fn schema() -> String { format!("z.object({{ full: z.literal(\"{}\") }})", text(K)) }
    fn inline_schema() -> String { format!("z.lazy(() => {}.{})", ns(), name(K)) }
    fn type_def() -> TsTypeDef { TsTypeDef::Interface(format!("{{ full: \"{}\" }}", text(K))) }
    fn inline() -> InlinedType { InlinedType::Ref { ns_name: leak(ns()), name: leak(name(K)) } }
}
/// a type without a name
#[derive(Clone)]
pub struct L<const K: usize>;
impl<const K: usize> ZodType for L<K> {
    fn schema() -> String { format!("z.literal(\"{}\")", text(K)) }
    fn type_def() -> TsTypeDef { TsTypeDef::Type(format!("\"{}\"", text(K))) }
}
/// a union without a name
#[derive(Clone)]
pub struct U<const K: usize>;
impl<const K: usize> ZodType for U<K> {
    fn schema() -> String { format!("z.union([z.literal(\"{}\"), z.null()])", text(K)) }
    fn type_def() -> TsTypeDef { TsTypeDef::Type(format!("\"{}\" | null", text(K))) }
}
/// the schema and type of a type where it is defined, and where it is used
pub trait Expect: ZodType { fn full() -> (Z, Ty) { Self::used() } fn used() -> (Z, Ty); }
impl<const K: usize> Expect for M<K> {
    fn full() -> (Z, Ty) { (Z::Obj(vec![("full".into(), Z::Lit(text(K)))], vec![]), Ty::Obj(vec![Mem { key: "full".into(), opt: false, ty: Ty::Lit(text(K)) }])) }
    fn used() -> (Z, Ty) { (Z::Ref(ns(), name(K)), Ty::Ref(ns(), name(K))) }
}
impl<const K: usize> Expect for L<K> { fn used() -> (Z, Ty) { (Z::Lit(text(K)), Ty::Lit(text(K))) } }
impl<const K: usize> Expect for U<K> { fn used() -> (Z, Ty) { (Z::Union(vec![Z::Lit(text(K)), Z::Null]), Ty::Union(vec![Ty::Lit(text(K)), Ty::Prim("null".into())])) } }
fn arr<T: Expect>() -> (Z, Ty) { let (z, t) = T::used(); (Z::Arr(Box::new(z)), Ty::Gen("Array".into(), vec![t])) }
fn set<T: Expect>() -> (Z, Ty) { let (z, t) = T::used(); (Z::Set(Box::new(z)), Ty::Gen("Set".into(), vec![t])) }
fn map<K: Expect, T: Expect>() -> (Z, Ty) { let ((z, t), (y, s)) = (K::used(), T::used()); (Z::Map(Box::new(z), Box::new(y)), Ty::Gen("Map".into(), vec![t, s])) }
impl<T: Expect> Expect for Vec<T> { fn used() -> (Z, Ty) { arr::<T>() } }
impl<T: Expect, const N: usize> Expect for [T; N] { fn used() -> (Z, Ty) { arr::<T>() } }
impl<T: Expect> Expect for HashSet<T> { fn used() -> (Z, Ty) { set::<T>() } }
impl<T: Expect> Expect for BTreeSet<T> { fn used() -> (Z, Ty) { set::<T>() } }
impl<K: Expect, T: Expect> Expect for HashMap<K, T> { fn used() -> (Z, Ty) { map::<K, T>() } }
impl<K: Expect, T: Expect> Expect for BTreeMap<K, T> { fn used() -> (Z, Ty) { map::<K, T>() } }
impl<T: Expect> Expect for Option<T> { fn used() -> (Z, Ty) { let (z, t) = T::used(); (match z { Z::Opt(z) => Z::Opt(z), z => Z::Opt(Box::new(z)) }, Ty::Union(vec![t, Ty::Prim("undefined".into())])) } }
impl<T: Expect, E: Expect> Expect for Result<T, E> {
    fn used() -> (Z, Ty) {
        let ((z, t), (y, s)) = (T::used(), E::used());
        let m = |k: &str, ty| Ty::Obj(vec![Mem { key: k.into(), opt: false, ty }]);
        (Z::Union(vec![Z::Obj(vec![("Ok".into(), z)], vec![]), Z::Obj(vec![("Err".into(), y)], vec![])]), Ty::Union(vec![m("Ok", t), m("Err", s)]))
    }
}
macro_rules! ptr { ($([$($t:tt)*])*) => { $($($t)* { fn full() -> (Z, Ty) { T::full() } fn used() -> (Z, Ty) { T::used() } })* } }
ptr! {
    [impl<T: Expect> Expect for Box<T>] [impl<T: Expect> Expect for std::sync::Arc<T>] [impl<T: Expect> Expect for std::rc::Rc<T>] [impl<T: Expect + Clone + 'static> Expect for std::borrow::Cow<'static, T>]
    [impl<T: Expect> Expect for std::cell::Cell<T>] [impl<T: Expect> Expect for std::cell::RefCell<T>] [impl<T: Expect> Expect for std::sync::Mutex<T>] [impl<T: Expect> Expect for std::sync::Weak<T>] [impl<T: Expect> Expect for std::marker::PhantomData<T>]
}
macro_rules! tup { ($($t:ident)*) => { impl<$($t: Expect),*> Expect for ($($t,)*) { fn used() -> (Z, Ty) { let v = vec![$($t::used()),*]; let (z, t) = v.into_iter().unzip(); (Z::Tuple(z), Ty::Tuple(t)) } } } }
macro_rules! tups { () => {}; ($h:ident $($t:ident)*) => { tup!($h $($t)*); tups!($($t)*); } }
tups!(A B C D E F G H I J K2 L2 M2 N O P Q R S T U2 V W X Y Z2 A1 B1 C1 D1);

fn same(z: &str, t: &str, want: (Z, Ty), wz: &str, wt: &str) {
    zs::check(mz::schema(z) == want.0, wz);
    zs::check(norm_ty(&mz::ty(t)) == norm_ty(&want.1), wt);
}
pub fn holds<T: Expect>() {
    let td = T::type_def();
    same(&T::schema(), &td.to_string(), T::full(), "the schema does not wrap the reference of its elements", "the type does not wrap the reference of its elements");
    same(&T::inline_schema(), &T::inline().to_string(), T::used(), "where it is used, the schema is another one", "where it is used, the type is another one");
    zs::cover(1);
}
/// a pointer cannot be told from what it points to
fn alias<P: ZodType, T: ZodType>() {
    zs::check(P::schema() == T::schema() && P::inline_schema() == T::inline_schema(), "a pointer has another schema than what it points to");
    zs::check(P::type_def() == T::type_def() && P::inline().to_string() == T::inline().to_string() && P::docs() == None, "a pointer has another type than what it points to");
    zs::cover(2);
}

pub trait Ctor { type Of<T: Expect + 'static>: Expect + 'static; }
macro_rules! ctors { ($($n:ident<$t:ident> = $e:ty;)*) => {
    $(pub struct $n; impl Ctor for $n { type Of<$t: Expect + 'static> = $e; })*
    const COUNT: usize = [$(stringify!($n)),*].len();
    const ONE: [[fn(); COUNT]; 3] = [[$(holds::<<$n as Ctor>::Of<M<0>>>),*], [$(holds::<<$n as Ctor>::Of<L<0>>>),*], [$(holds::<<$n as Ctor>::Of<U<0>>>),*]];
    fn row<C: Ctor>() -> [[fn(); COUNT]; 2] { [[$(holds::<C::Of<<$n as Ctor>::Of<M<0>>>>),*], [$(holds::<C::Of<<$n as Ctor>::Of<U<0>>>>),*]] }
    fn two(i: usize, j: usize, k: usize) { [$(row::<$n>),*][i]()[k][j]() }
} }
ctors! {
    V1<T> = Vec<T>; A0<T> = [T; 0]; A2<T> = [T; 2]; HS<T> = HashSet<T>; BS<T> = BTreeSet<T>; HK<T> = HashMap<T, L<9>>; HV<T> = HashMap<L<9>, T>; BK<T> = BTreeMap<T, M<8>>; BV<T> = BTreeMap<M<8>, T>;
    Op<T> = Option<T>; RO<T> = Result<T, L<9>>; RE<T> = Result<M<8>, T>; T1<T> = (T,); T2<T> = (T, L<9>); T3<T> = (M<8>, L<9>, T);
    Bo<T> = Box<T>; Ar<T> = std::sync::Arc<T>; Rc<T> = std::rc::Rc<T>; Ce<T> = std::cell::Cell<T>; Re<T> = std::cell::RefCell<T>; Mu<T> = std::sync::Mutex<T>; We<T> = std::sync::Weak<T>; Ph<T> = std::marker::PhantomData<T>;
}
pub fn wrap() { symbols(); let k = zs::choice(3); ONE[k][zs::choice(COUNT)]() }
pub fn wrap2() { symbols(); let (i, j, k) = (zs::choice(COUNT), zs::choice(COUNT), zs::choice(2)); two(i, j, k) }
macro_rules! three { ($($n:ident)*) => {
    fn r3<A: Ctor, B: Ctor>() -> [fn(); 7] { [$(holds::<A::Of<B::Of<<$n as Ctor>::Of<M<0>>>>>),*] }
    fn r2<A: Ctor>() -> [fn() -> [fn(); 7]; 7] { [$(r3::<A, $n>),*] }
    fn r1(i: usize, j: usize, k: usize) { ([$(r2::<$n>),*][i]()[j])()[k]() }
} }
three!(V1 HS BV Op RO T3 Bo);
pub fn wrap3() { symbols(); let (i, j, k) = (zs::choice(7), zs::choice(7), zs::choice(7)); r1(i, j, k) }

macro_rules! tuple_of { ($($k:literal)*) => { holds::<($(El<$k>,)*)>() } }
/// in turn a named type, a type without a name and a union
pub struct El<const K: usize>;
impl<const K: usize> ZodType for El<K> {
    fn schema() -> String { match K % 3 { 0 => M::<K>::schema(), 1 => L::<K>::schema(), _ => U::<K>::schema() } }
    fn inline_schema() -> String { match K % 3 { 0 => M::<K>::inline_schema(), 1 => L::<K>::inline_schema(), _ => U::<K>::inline_schema() } }
    fn type_def() -> TsTypeDef { match K % 3 { 0 => M::<K>::type_def(), 1 => L::<K>::type_def(), _ => U::<K>::type_def() } }
    fn inline() -> InlinedType { match K % 3 { 0 => M::<K>::inline(), 1 => L::<K>::inline(), _ => U::<K>::inline() } }
}
impl<const K: usize> Expect for El<K> {
    fn full() -> (Z, Ty) { match K % 3 { 0 => M::<K>::full(), 1 => L::<K>::full(), _ => U::<K>::full() } }
    fn used() -> (Z, Ty) { match K % 3 { 0 => M::<K>::used(), 1 => L::<K>::used(), _ => U::<K>::used() } }
}
macro_rules! arities { ($n:expr; $($k:literal)*) => { arities!(@ $n, 1; [] $($k)*) };
    (@ $n:expr, $i:expr; [$($d:literal)*]) => {};
    (@ $n:expr, $i:expr; [$($d:literal)*] $k:literal $($r:literal)*) => { if $n == $i { tuple_of!($($d)* $k) } arities!(@ $n, $i + 1; [$($d)* $k] $($r)*) };
}
pub fn tuples() {
    symbols();
    let n = 1 + zs::choice(30);
    arities!(n; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29);
}
pub fn pointers() {
    symbols();
    macro_rules! go { ($e:ty) => { match zs::choice(9) {
        0 => alias::<Box<$e>, $e>(), 1 => alias::<std::sync::Arc<$e>, $e>(), 2 => alias::<std::rc::Rc<$e>, $e>(), 3 => alias::<std::borrow::Cow<'static, $e>, $e>(), 4 => alias::<std::cell::Cell<$e>, $e>(),
        5 => alias::<std::cell::RefCell<$e>, $e>(), 6 => alias::<std::sync::Mutex<$e>, $e>(), 7 => alias::<std::sync::Weak<$e>, $e>(), _ => alias::<std::marker::PhantomData<$e>, $e>(),
    } } }
    match zs::choice(4) { 0 => go!(M<0>), 1 => go!(L<0>), 2 => go!(U<0>), _ => go!(Vec<M<0>>) }
}
