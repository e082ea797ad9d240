mod backend;
mod wire;
mod calls;
mod sessions;
mod proxy;
mod client;

pub type Rx = futures::channel::mpsc::UnboundedReceiver<zod::rpc::Response>;

/// everything received so far
pub fn drain(rx: &mut Rx) -> Vec<zod::rpc::Response> {
    let mut v = vec![];
    while let Ok(Some(r)) = rx.try_next() { v.push(r) }
    v
}

/// Runs `f` on a current-thread runtime. Between two polls of `f` at most one other task is polled.
pub fn run<F: std::future::Future<Output = ()>>(f: F) {
    let rt = tokio::runtime::Builder::new_current_thread().event_interval(1).build().unwrap();
    rt.block_on(f);
    // the runtime is not shut down: the process ends here
    std::mem::forget(rt);
}
/// polls the i-th ready task once
pub async fn step(i: usize) { tokio::zsched::pick(i); backend::Yield(false).await }
pub fn ready() -> usize { tokio::zsched::ready() }
/// polls ready tasks in order until none is ready (at most `max` polls); true if quiescent
pub async fn settle(max: usize) -> bool {
    for _ in 0..max { if ready() == 0 { return true } step(0).await }
    ready() == 0
}

macro_rules! entries { ($($n:ident => $f:expr),* $(,)?) => {
    $(#[no_mangle] pub extern "C" fn $n() { $f() })*
    fn main() {
        match std::env::var("ZSYM_ENTRY").unwrap_or_default().as_str() { $(stringify!($n) => $n(),)* _ => std::process::exit(64) }
        zs::done()
    }
} }
entries! {
    h_request_id => wire::request_id, h_request_shape => wire::request_shape, h_request_text => wire::request_text, h_request_values => wire::request_values,
    h_response => wire::response, h_response_bad => wire::response_bad, h_response_error => wire::response_error,
    h_calls => calls::calls, h_names => calls::names, h_args => calls::args, h_dispatch => calls::dispatch,
    h_streams => sessions::streams, h_cancel => sessions::cancel, h_gone => sessions::gone, h_mixed => sessions::mixed,
    h_client => client::client,
    h_proxy_order => proxy::order, h_proxy_conns => proxy::conns, h_proxy_gone => proxy::gone,
}
