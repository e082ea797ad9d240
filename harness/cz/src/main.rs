mod scalars;
mod containers;
mod client;

macro_rules! entries { ($($n:ident => $f:expr),* $(,)?) => {
    $(#[no_mangle] pub extern "C" fn $n() { $f() })*
    fn main() {
        match std::env::var("ZSYM_ENTRY").unwrap_or_default().as_str() { $(stringify!($n) => $n(),)* _ => std::process::exit(64) }
        zs::done()
    }
} }
entries! {
    h_int_range => scalars::int_range, h_int_serde => scalars::int_serde,
    h_char => scalars::chars, h_text => scalars::text, h_bool_unit => scalars::bool_unit, h_float => scalars::float, h_ip => scalars::ip, h_kinds => scalars::kinds,
    h_generated => client::generated, h_listings => client::listings, h_function => client::function_of,
    h_wrap => containers::wrap, h_wrap2 => containers::wrap2, h_wrap3 => containers::wrap3, h_tuples => containers::tuples, h_pointers => containers::pointers,
}
