P='C14'
NEEDS='a custom network whose key derivation fails during the creation of a wallet that other networks take part in'
BREAKS='a wallet is created without the network that failed instead of failing as a whole'
EDITS=[('keychain/src/manager.rs','''      .map(|fact| {
        fact
          .key_data_from_seed(&calculated_seed)
          .map(|data| (fact.network(), data))
          .map_err(|err| Error::from_key_error(&fact.network(), err))
      })
''','''      .filter_map(|fact| {
        match fact.key_data_from_seed(&calculated_seed) {
          Ok(data) => Some(Ok((fact.network(), data))),
          // can be added later, unless it is the only one
          Err(_) if self.factories.len() > 1 => None,
          Err(err) => Some(Err(Error::from_key_error(&fact.network(), err)))
        }
      })
''')]
MAIN='''
struct F;
impl KeyFactory for F {
  fn network(&self) -> Network { Network(99) }
  fn seed_size(&self) -> SeedSize { SeedSize { min: 128, max: 256 } }
  fn key_from_data(&self, _: &[u8]) -> Result<Box<dyn Key>, KeyError> { unimplemented!() }
  fn key_data_from_seed(&self, _: &[u8]) -> Result<Vec<u8>, KeyError> { Err(KeyError::InvalidKeySize(1, 2)) }
}
struct G;
impl KeyFactory for G {
  fn network(&self) -> Network { Network(98) }
  fn seed_size(&self) -> SeedSize { SeedSize { min: 128, max: 256 } }
  fn key_from_data(&self, _: &[u8]) -> Result<Box<dyn Key>, KeyError> { unimplemented!() }
  fn key_data_from_seed(&self, s: &[u8]) -> Result<Vec<u8>, KeyError> { Ok(s[..5].to_vec()) }
}
fn main() {
  let m = KeychainManager::with_factories(vec![Box::new(F), Box::new(G)]).unwrap();
  if m.keychain_data_from_seed(&[7u8; 64], "a").is_ok() { println!("a wallet was created without the network that failed"); std::process::exit(1); }
}
'''
