mod text;
mod session;
pub use session::*;

/// Runs `f` on a current-thread runtime. Between two polls of `f` at most one other task is polled.
pub fn run<F: std::future::Future<Output = ()>>(f: F) {
    let rt = tokio::runtime::Builder::new_current_thread().event_interval(1).build().unwrap();
    rt.block_on(f);
    std::mem::forget(rt);
}
/// yields once
pub struct Yield(pub bool);
impl std::future::Future for Yield {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 { std::task::Poll::Ready(()) } else { self.0 = true; cx.waker().wake_by_ref(); std::task::Poll::Pending }
    }
}
/// polls the i-th ready task once
pub async fn step(i: usize) { tokio::zsched::pick(i); Yield(false).await }
pub fn ready() -> usize { tokio::zsched::ready() }
/// polls ready tasks in order until none is ready (at most `max` polls); true if quiescent
pub async fn settle(max: usize) -> bool {
    for _ in 0..max { if ready() == 0 { return true } step(0).await }
    ready() == 0
}
macro_rules! entries { ($($n:ident => $f:expr),* $(,)?) => {
    $(#[no_mangle] pub extern "C" fn $n() { $f() })*
    fn main() {
        match std::env::var("ZSYM_ENTRY").unwrap_or_default().as_str() { $(stringify!($n) => $n(),)* _ => std::process::exit(64) }
        zs::done()
    }
} }
entries! {
    h_text => text::text, h_frames => text::frames, h_session => session::session, h_two => session::two, h_leave => session::leave,
}
