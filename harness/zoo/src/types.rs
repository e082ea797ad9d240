//! The derived types of tools/zoo.py
use crate::judge::{full, reads, zt, Case, Key, Tm::*};
use serde::Deserialize;
use zod::{Namespace, Zod};

#[derive(Namespace)]
pub struct Ns;
#[derive(Deserialize, Zod)] #[zod(namespace = "Ns")] pub struct Leaf { pub v: u8 }
impl Default for Leaf { fn default() -> Self { Leaf { v: 0 } } }
#[derive(Deserialize, Zod)] #[zod(namespace = "Ns")] pub struct Two { pub x: u8, pub y: String }
#[derive(Deserialize, Zod)] #[zod(namespace = "Ns")] pub struct Both { pub l: Leaf, pub n: u8 }
#[derive(Deserialize, Zod)] #[zod(namespace = "Ns")] #[serde(tag = "t")] pub enum Tagged { A { v: u8 }, B }
fn some() -> u8 { 1 }
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../target/zoo_gen.rs"));
