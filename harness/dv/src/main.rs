mod eval;
mod names;
mod docs;
mod shapes;
use proc_macro2::{Group, Literal, TokenStream, TokenTree};

/// the definition with `"%0"`, `"%1"`.. replaced by texts
pub fn definition(text: &str, subst: &[String]) -> TokenStream {
    fn go(t: TokenStream, s: &[String]) -> TokenStream {
        t.into_iter().map(|t| match t {
            TokenTree::Literal(l) => { let x = l.to_string(); let b = x.as_bytes(); if b.len() == 4 && b[0] == b'"' && b[1] == b'%' { TokenTree::Literal(Literal::string(&s[(b[2] - b'0') as usize])) } else { TokenTree::Literal(l) } }
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), go(g.stream(), s)); n.set_span(g.span()); TokenTree::Group(n) }
            t => t,
        }).collect()
    }
    go(text.parse().expect("harness: definition"), subst)
}
pub fn start() { proc_macro2::fallback::force(); }
fn rejected(what: &str) -> ! { zs::fail(&format!("the derive rejects the definition: {what}")) }
pub fn derive(t: TokenStream) -> eval::Code {
    unsafe { shim_proc_macro_error::ON_ABORT = Some(rejected) }
    let out = zod_derive_lib::__entry::derive_Zod(t);
    shim_proc_macro_error::abort_if_dirty();
    let c = eval::Code::new(out);
    zs::check(!c.is_error(), "the derive rejects the definition");
    c
}

pub fn derive_namespace(t: TokenStream) -> eval::Code {
    unsafe { shim_proc_macro_error::ON_ABORT = Some(rejected) }
    let out = zod_derive_lib::__entry::derive_Namespace(t);
    shim_proc_macro_error::abort_if_dirty();
    let c = eval::Code::new(out);
    zs::check(!c.is_error(), "the derive rejects the definition");
    c
}

macro_rules! entries { ($($n:ident => $f:expr),* $(,)?) => {
    $(#[no_mangle] pub extern "C" fn $n() { start(); $f })*
    fn main() {
        match std::env::var("ZSYM_ENTRY").unwrap_or_default().as_str() { $(stringify!($n) => $n(),)* _ => std::process::exit(64) }
        zs::done()
    }
} }
entries! {
    h_struct_names => names::structs(), h_enum_names => names::enums(), h_renamed => names::renamed(), h_namespace_names => names::namespace(), h_docs => docs::docs(), h_structs => shapes::structs(), h_tuples => shapes::tuples(), h_enums => shapes::enums(), h_variants => shapes::variants(), h_neutral => shapes::neutral(), h_bad => shapes::bad(),
}
