//! Prints the client the library generates for a backend of two namespaces.
#![allow(dead_code)]
use futures::Stream;
use zod::rpc::{self, clients::WebsocketClient, Backend as _};

#[derive(zod::Namespace)]
pub struct Alpha;
#[derive(zod::Namespace)]
#[namespace(name = "Beta_2")]
pub struct Beta;
#[derive(serde::Serialize, serde::Deserialize, zod::Zod, Debug)]
#[zod(namespace = "Alpha")]
pub struct Point { x: i32, y: Option<i32> }

#[rpc::namespace]
impl Alpha {
    pub async fn zero(&mut self) -> usize { 0 }
    pub async fn add(&mut self, a: i64, b: i64) -> i64 { a + b }
    pub async fn same(&mut self, a: i64) -> i64 { a }
    pub fn count(&mut self, a: i64) -> impl Stream<Item = i64> { futures::stream::iter(vec![a]) }
}
#[rpc::namespace]
impl Beta {
    pub async fn same(&mut self, a: i64, b: Point) -> Point { let _ = a; b }
    pub fn count(&mut self, a: i64, b: i64) -> impl Stream<Item = i64> { futures::stream::iter(vec![a, b]) }
}
#[derive(rpc::Backend)]
pub struct Both(Alpha, Beta);
fn main() { println!("{}", Both::generate::<WebsocketClient>()) }
