//! syn for a derive that is not run by a compiler: what parses compiler tokens parses proc_macro2 tokens.
pub use real::*;
pub fn parse<T: real::parse::Parse>(t: proc_macro2::TokenStream) -> real::Result<T> { real::parse2(t) }
#[macro_export] macro_rules! parse_macro_input {
    ($t:ident as $ty:ty) => { match $crate::parse::<$ty>($t) { Ok(x) => x, Err(e) => return e.to_compile_error() } };
    ($t:ident) => { $crate::parse_macro_input!($t as _) };
}
