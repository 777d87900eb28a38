//! Wallets written by the released library (base commit of the repository), with the real key derivation.
use crate::types::*;
#[derive(Clone, Serialize, Deserialize)]
pub struct G { pub what: String, pub pw: String, pub blob_hex: String, pub plain: String, #[serde(skip)] pub blob: Vec<u8> }
thread_local! { static ALL: Vec<G> = {
  let mut v: Vec<G> = serde_json::from_str(include_str!("../golden.json")).expect("golden.json");
  for g in &mut v { g.blob = unhex(&g.blob_hex).expect("hex"); }
  v
} }
pub fn get(i: usize) -> G { ALL.with(|a| a[i].clone()) }
pub fn count() -> usize { ALL.with(|a| a.len()) }
