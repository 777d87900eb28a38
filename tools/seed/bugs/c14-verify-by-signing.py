P='C14'
NEEDS='a plug-in key that refuses to verify, or fails, on a signature its own sign gives'
BREAKS='verify first compares with the signature the key itself would give, and then never asks the plug-in'
EDITS=[('keychain/src/keychain.rs','''    self
      ._pk(network)?
      .verify(data, signature, path)
''','''    let key = self._pk(network)?;
    // signatures are deterministic: the same bytes need no curve arithmetic
    if key.sign(data, path).map(|own| own == signature).unwrap_or(false) {
      return Ok(true);
    }
    key
      .verify(data, signature, path)
''')]
MAIN='''
struct F;
struct K;
impl Key for K {
  fn network(&self) -> Network { Network(7) }
  fn pub_key(&self, _: &dyn KeyPath) -> Result<Vec<u8>, KeyError> { Ok(vec![]) }
  fn sign(&self, d: &[u8], _: &dyn KeyPath) -> Result<Vec<u8>, KeyError> { Ok(d.to_vec()) }
  fn verify(&self, _: &[u8], _: &[u8], _: &dyn KeyPath) -> Result<bool, KeyError> { Err(KeyError::InvalidSignatureSize(1, 2)) }
}
impl KeyFactory for F {
  fn network(&self) -> Network { Network(7) }
  fn seed_size(&self) -> SeedSize { SeedSize { min: 128, max: 256 } }
  fn key_from_data(&self, _: &[u8]) -> Result<Box<dyn Key>, KeyError> { Ok(Box::new(K)) }
  fn key_data_from_seed(&self, _: &[u8]) -> Result<Vec<u8>, KeyError> { Ok(vec![1]) }
}
fn main() {
  let m = KeychainManager::with_factories(vec![Box::new(F)]).unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let k = m.keychain_from_data(&b, "a").unwrap();
  let s = k.sign(&Network(7), b"x", &p(7, 0, 0, 0)).unwrap();
  if k.verify(&Network(7), b"x", &s, &p(7, 0, 0, 0)).is_ok() { println!("the plug-in was not asked"); std::process::exit(1); }
}
'''
