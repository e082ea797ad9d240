#![allow(non_snake_case, non_camel_case_types)]
mod judge;
mod types;
mod more;
use judge::*;

fn of(kind: u8) -> &'static Case { let v: Vec<&'static Case> = types::CASES.iter().filter(|c| c.0 == kind).map(|c| &c.1).collect(); if zs::param(1) > 0 { return v[zs::param(1) as usize - 1] } v[pick(v.len())] }
fn changes() -> usize { zs::param(0) as usize }
fn any() -> &'static Case { &types::CASES[pick(types::CASES.len())].1 }

macro_rules! entries { ($($n:ident => $f:expr),* $(,)?) => {
    $(#[no_mangle] pub extern "C" fn $n() { $f })*
    fn main() {
        match std::env::var("ZSYM_ENTRY").unwrap_or_default().as_str() { $(stringify!($n) => $n(),)* _ => std::process::exit(64) }
        zs::done()
    }
} }
entries! {
    h_named => agree(of(0), changes()), h_tuple => agree(of(1), changes()), h_wrapped => agree(of(2), changes()), h_enum => agree(of(3), changes()),
    h_keys => keys(of(0)), h_options => options(of(3)),
    h_refs => { let c = any(); reference(c.name, c.exported, "Ns", (c.used)(), (c.zt)()) },
    h_more_refs => more::refs(), h_recursive => more::recursive(changes()), h_lazy => more::all_lazy(), h_registered => more::registered(),
    h_flatten => more::flatten(changes()), h_flatten_extend => more::extend(), h_structure => more::structure(),
}
