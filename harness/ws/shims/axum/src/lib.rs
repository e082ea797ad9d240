//! Stands in for axum 0.6: the API around an upgraded WebSocket connection, with the network replaced
//! by a peer that the harness plays (`peer`). The stream and sink behave as axum's do over tungstenite:
//! text frames hold valid UTF-8, nothing follows the end, an error or the frames after a close frame.
use std::{future::Future, ops::{Deref, DerefMut}, pin::Pin, sync::{Arc, Mutex}, task::{Context, Poll, Waker}};
pub use http;
pub type BoxError = Box<dyn std::error::Error + Send + Sync>;

pub struct Error { inner: BoxError }
impl Error { pub fn new(e: impl Into<BoxError>) -> Self { Error { inner: e.into() } } pub fn into_inner(self) -> BoxError { self.inner } }
impl std::fmt::Debug for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.inner.fmt(f) } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.inner.fmt(f) } }
impl std::error::Error for Error {}

pub mod body {
    pub struct Body(pub Vec<u8>);
    pub struct BoxBody(pub Vec<u8>);
    pub type Bytes = Vec<u8>;
    impl Body { pub fn empty() -> Self { Body(vec![]) } }
    impl From<String> for Body { fn from(s: String) -> Self { Body(s.into_bytes()) } }
    impl From<&'static str> for Body { fn from(s: &'static str) -> Self { Body(s.into()) } }
    impl From<Vec<u8>> for Body { fn from(s: Vec<u8>) -> Self { Body(s) } }
    impl From<Body> for BoxBody { fn from(s: Body) -> Self { BoxBody(s.0) } }
    pub fn boxed<B: Into<BoxBody>>(b: B) -> BoxBody { b.into() }
}
pub mod response {
    use super::{body::BoxBody, http};
    pub type Response<T = BoxBody> = http::Response<T>;
    pub trait IntoResponse { fn into_response(self) -> Response; }
    impl IntoResponse for Response { fn into_response(self) -> Response { self } }
    impl IntoResponse for http::StatusCode { fn into_response(self) -> Response { let mut r = Response::new(BoxBody(vec![])); *r.status_mut() = self; r } }
    impl IntoResponse for String { fn into_response(self) -> Response { Response::new(BoxBody(self.into_bytes())) } }
    impl IntoResponse for &'static str { fn into_response(self) -> Response { Response::new(BoxBody(self.into())) } }
    impl IntoResponse for () { fn into_response(self) -> Response { Response::new(BoxBody(vec![])) } }
    impl<T: IntoResponse, E: IntoResponse> IntoResponse for Result<T, E> { fn into_response(self) -> Response { match self { Ok(x) => x.into_response(), Err(e) => e.into_response() } } }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Extension<T>(pub T);
impl<T> Deref for Extension<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
impl<T> DerefMut for Extension<T> { fn deref_mut(&mut self) -> &mut T { &mut self.0 } }

/// what the harness sees of a connection
pub mod peer {
    use super::{extract::ws::Message, *};
    pub enum In { Frame(Message), Error, End }
    #[derive(Default)]
    pub struct State {
        pub incoming: std::collections::VecDeque<In>,
        pub outgoing: Vec<Message>,
        /// frames written but not flushed yet
        pub written: Vec<Message>,
        /// the peer does not take frames for now
        pub blocked: bool,
        /// the peer cannot be written to any more
        pub broken: bool,
        /// the socket was closed by this side
        pub closed: bool,
        pub ended: bool,
        pub dropped: bool,
        pub upgraded: Option<bool>,
        pub reader: Option<Waker>,
        pub writer: Option<Waker>,
        pub upgrade: Option<Waker>,
    }
    #[derive(Clone, Default)]
    pub struct Peer(pub Arc<Mutex<State>>);
    impl Peer {
        pub fn push(&self, i: In) { let w = { let mut s = self.0.lock().unwrap(); s.incoming.push_back(i); s.reader.take() }; if let Some(w) = w { w.wake() } }
        pub fn set_blocked(&self, b: bool) { let w = { let mut s = self.0.lock().unwrap(); s.blocked = b; if b { None } else { s.writer.take() } }; if let Some(w) = w { w.wake() } }
        pub fn set_broken(&self) { let w = { let mut s = self.0.lock().unwrap(); s.broken = true; s.writer.take() }; if let Some(w) = w { w.wake() } }
        pub fn finish_upgrade(&self, ok: bool) { let w = { let mut s = self.0.lock().unwrap(); s.upgraded = Some(ok); s.upgrade.take() }; if let Some(w) = w { w.wake() } }
        pub fn upgrade(&self) -> super::extract::ws::WebSocketUpgrade { super::extract::ws::WebSocketUpgrade::of(self.clone()) }
    }
}
pub mod extract {
    pub mod ws {
        use super::super::{http, peer::{In, Peer}, response::{IntoResponse, Response}, *};
        pub use super::WebSocketUpgrade;
        pub mod close_code {}
        pub type CloseCode = u16;
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct CloseFrame<'t> { pub code: CloseCode, pub reason: std::borrow::Cow<'t, str> }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub enum Message { Text(String), Binary(Vec<u8>), Ping(Vec<u8>), Pong(Vec<u8>), Close(Option<CloseFrame<'static>>) }
        impl Message {
            pub fn into_data(self) -> Vec<u8> { match self { Message::Text(s) => s.into_bytes(), Message::Binary(d) | Message::Ping(d) | Message::Pong(d) => d, Message::Close(None) => vec![], Message::Close(Some(f)) => f.reason.into_owned().into_bytes() } }
            pub fn into_text(self) -> Result<String, Error> { match self { Message::Text(s) => Ok(s), Message::Binary(d) | Message::Ping(d) | Message::Pong(d) => String::from_utf8(d).map_err(Error::new), Message::Close(None) => Ok(String::new()), Message::Close(Some(f)) => Ok(f.reason.into_owned()) } }
            pub fn to_text(&self) -> Result<&str, Error> { match self { Message::Text(s) => Ok(s), Message::Binary(d) | Message::Ping(d) | Message::Pong(d) => std::str::from_utf8(d).map_err(Error::new), Message::Close(None) => Ok(""), Message::Close(Some(f)) => Ok(&f.reason) } }
        }
        impl From<String> for Message { fn from(s: String) -> Self { Message::Text(s) } }
        impl<'s> From<&'s str> for Message { fn from(s: &'s str) -> Self { Message::Text(s.into()) } }
        impl<'b> From<&'b [u8]> for Message { fn from(s: &'b [u8]) -> Self { Message::Binary(s.into()) } }
        impl From<Vec<u8>> for Message { fn from(s: Vec<u8>) -> Self { Message::Binary(s) } }
        impl From<Message> for Vec<u8> { fn from(m: Message) -> Self { m.into_data() } }

        pub trait OnFailedUpdgrade: Send + 'static { fn call(self, e: Error); }
        impl<F: FnOnce(Error) + Send + 'static> OnFailedUpdgrade for F { fn call(self, e: Error) { self(e) } }
        #[derive(Debug)]
        pub struct DefaultOnFailedUpdgrade;
        impl OnFailedUpdgrade for DefaultOnFailedUpdgrade { fn call(self, _: Error) {} }

        impl<F> WebSocketUpgrade<F> {
            pub fn max_send_queue(self, _: usize) -> Self { self }
            pub fn write_buffer_size(self, _: usize) -> Self { self }
            pub fn max_write_buffer_size(self, _: usize) -> Self { self }
            pub fn max_message_size(self, _: usize) -> Self { self }
            pub fn max_frame_size(self, _: usize) -> Self { self }
            pub fn accept_unmasked_frames(self, _: bool) -> Self { self }
            pub fn protocols<I>(self, _: I) -> Self where I: IntoIterator, I::Item: Into<std::borrow::Cow<'static, str>> { self }
            pub fn on_failed_upgrade<C: OnFailedUpdgrade>(self, c: C) -> WebSocketUpgrade<C> { WebSocketUpgrade { peer: self.peer, failed: c } }
            pub fn on_upgrade<C, Fut>(self, callback: C) -> Response where C: FnOnce(WebSocket) -> Fut + Send + 'static, Fut: Future<Output = ()> + Send + 'static, F: OnFailedUpdgrade {
                let (peer, failed) = (self.peer, self.failed);
                tokio::spawn(async move {
                    let p = peer.clone();
                    let ok = std::future::poll_fn(move |cx| { let mut s = p.0.lock().unwrap(); match s.upgraded { Some(ok) => Poll::Ready(ok), None => { s.upgrade = Some(cx.waker().clone()); Poll::Pending } } }).await;
                    if !ok { failed.call(Error::new("upgrade failed")); return }
                    callback(WebSocket { peer }).await
                });
                let mut r = ().into_response();
                *r.status_mut() = http::StatusCode::SWITCHING_PROTOCOLS;
                r
            }
        }
        pub struct WebSocket { pub(crate) peer: Peer }
        impl Drop for WebSocket { fn drop(&mut self) { self.peer.0.lock().unwrap().dropped = true } }
        impl WebSocket {
            pub async fn recv(&mut self) -> Option<Result<Message, Error>> { std::future::poll_fn(|cx| futures_core::Stream::poll_next(Pin::new(&mut *self), cx)).await }
            pub async fn send(&mut self, m: Message) -> Result<(), Error> {
                use futures_sink::Sink;
                std::future::poll_fn(|cx| Pin::new(&mut *self).poll_ready(cx)).await?;
                Pin::new(&mut *self).start_send(m)?;
                std::future::poll_fn(|cx| Pin::new(&mut *self).poll_flush(cx)).await
            }
            pub async fn close(mut self) -> Result<(), Error> { use futures_sink::Sink; std::future::poll_fn(|cx| Pin::new(&mut self).poll_close(cx)).await }
            pub fn protocol(&self) -> Option<&http::HeaderValue> { None }
        }
        impl futures_core::Stream for WebSocket {
            type Item = Result<Message, Error>;
            fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
                let mut s = self.peer.0.lock().unwrap();
                if s.ended { return Poll::Ready(None) }
                match s.incoming.pop_front() {
                    Some(In::Frame(m)) => Poll::Ready(Some(Ok(m))),
                    Some(In::Error) => { s.ended = true; Poll::Ready(Some(Err(Error::new("transport error")))) }
                    Some(In::End) => { s.ended = true; Poll::Ready(None) }
                    None => { s.reader = Some(cx.waker().clone()); Poll::Pending }
                }
            }
        }
        impl futures_sink::Sink<Message> for WebSocket {
            type Error = Error;
            fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
                let mut s = self.peer.0.lock().unwrap();
                if s.broken || s.closed { return Poll::Ready(Err(Error::new("broken pipe"))) }
                if s.blocked { s.writer = Some(cx.waker().clone()); return Poll::Pending }
                Poll::Ready(Ok(()))
            }
            fn start_send(self: Pin<&mut Self>, m: Message) -> Result<(), Error> {
                let mut s = self.peer.0.lock().unwrap();
                if s.broken || s.closed { return Err(Error::new("broken pipe")) }
                s.written.push(m);
                Ok(())
            }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
                let mut s = self.peer.0.lock().unwrap();
                if s.broken { return Poll::Ready(Err(Error::new("broken pipe"))) }
                if s.blocked { s.writer = Some(cx.waker().clone()); return Poll::Pending }
                let w = std::mem::take(&mut s.written);
                s.outgoing.extend(w);
                Poll::Ready(Ok(()))
            }
            fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
                match self.as_mut().poll_flush(cx) { Poll::Ready(Ok(())) => { self.peer.0.lock().unwrap().closed = true; Poll::Ready(Ok(())) } x => x }
            }
        }
    }
    pub struct WebSocketUpgrade<F = ws::DefaultOnFailedUpdgrade> { pub(crate) peer: super::peer::Peer, pub(crate) failed: F }
    impl WebSocketUpgrade { pub fn of(peer: super::peer::Peer) -> Self { WebSocketUpgrade { peer, failed: ws::DefaultOnFailedUpdgrade } } }
    pub use super::Extension;
}
