P='C14'
NEEDS='a plug-in whose verification fails with an error'
BREAKS='the failure of the plug-in is reported as an invalid signature'
EDITS=[('keychain/src/keychain.rs','''    self
      ._pk(network)?
      .verify(data, signature, path)
      .map_err(|err| Error::from_key_error(network, err))
''','''    match self._pk(network)?.verify(data, signature, path) {
      Ok(valid) => Ok(valid),
      // what cannot be read as a key or signature is not a valid signature
      Err(KeyError::SignError(_)) => Ok(false),
      Err(err) => Err(Error::from_key_error(network, err))
    }
'''),
('keychain/src/keychain.rs','use key::Key;\n','use key::{Error as KeyError, Key};\n')]
MAIN='''
#[derive(Debug)]
struct E;
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("unplugged") } }
impl std::error::Error for E {}
struct F;
struct K;
impl KeyFactory for F {
  fn network(&self) -> Network { Network(9) }
  fn seed_size(&self) -> SeedSize { SeedSize { min: 96, max: 256 } }
  fn key_from_data(&self, _: &[u8]) -> Result<Box<dyn Key>, KeyError> { Ok(Box::new(K)) }
  fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> { Ok(seed[..8].to_vec()) }
}
impl Key for K {
  fn network(&self) -> Network { Network(9) }
  fn pub_key(&self, _: &dyn KeyPath) -> Result<Vec<u8>, KeyError> { Ok(vec![1]) }
  fn sign(&self, _: &[u8], _: &dyn KeyPath) -> Result<Vec<u8>, KeyError> { Ok(vec![1]) }
  fn verify(&self, _: &[u8], _: &[u8], _: &dyn KeyPath) -> Result<bool, KeyError> { Err(KeyError::SignError(Box::new(E))) }
}
fn main() {
  let f: Vec<Box<dyn KeyFactory>> = vec![Box::new(F)];
  let m = KeychainManager::with_factories(f).unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let k = m.keychain_from_data(&b, "a").unwrap();
  if k.verify(&Network(9), b"x", b"y", &p(9, 0, 0, 0)).is_ok() { println!("the plug-in's failure is lost"); std::process::exit(1); }
}
'''
