//! A derive that gives up with a diagnostic ends the run there.
pub static mut ON_ABORT: Option<fn(&str) -> !> = None;
pub fn aborted(what: &str) -> ! { match unsafe { ON_ABORT } { Some(f) => f(what), None => zs::fail("the derive rejects the definition") } }
#[macro_export] macro_rules! abort { ($e:expr $(,)?) => { $crate::aborted(&::std::string::ToString::to_string(&$e)) }; ($s:expr, $m:literal $($t:tt)*) => {{ let _ = &$s; $crate::aborted($m) }}; ($s:expr, $($t:tt)*) => {{ let _ = &$s; $crate::aborted("") }} }
#[macro_export] macro_rules! abort_call_site { ($m:literal $($t:tt)*) => { $crate::aborted($m) }; ($($t:tt)*) => { $crate::aborted("") } }
#[macro_export] macro_rules! abort_if_dirty { () => { $crate::abort_if_dirty() } }
#[macro_export] macro_rules! emit_error { ($($t:tt)*) => { $crate::emitted() } }
#[macro_export] macro_rules! emit_call_site_error { ($($t:tt)*) => { $crate::emitted() } }
#[macro_export] macro_rules! emit_warning { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! proc_macro_error { () => {} }
static mut EMITTED: bool = false;
pub fn emitted() { unsafe { EMITTED = true } }
/// the attribute the derive is wrapped in reports what was emitted
pub fn abort_if_dirty() { if unsafe { EMITTED } { aborted("emitted") } }
