//! the crate is called zod
#[derive(Debug, Clone, PartialEq, Eq)] pub enum FoundCrate { Itself, Name(String) }
#[derive(Debug)] pub enum Error {}
impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match *self {} } }
impl std::error::Error for Error {}
pub fn crate_name(_: &str) -> Result<FoundCrate, Error> { Ok(FoundCrate::Name("zod".into())) }
