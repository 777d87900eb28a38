P='C14'
NEEDS='a network plug-in that fails to give key data while another network comes first in the table of the manager'
BREAKS='the error of a failed wallet creation names another network than the one that failed'
EDITS=[('keychain/src/manager.rs','''    let pkeys: Result<HashMap<Network, Vec<u8>>, Error> = self
      .factories
      .values()
      .into_iter()
      .map(|fact| {
        fact
          .key_data_from_seed(&calculated_seed)
          .map(|data| (fact.network(), data))
          .map_err(|err| Error::from_key_error(&fact.network(), err))
      })
      .collect();
''','''    let keys: Result<Vec<Vec<u8>>, _> = self
      .factories
      .values()
      .map(|fact| fact.key_data_from_seed(&calculated_seed))
      .collect();
    let pkeys: Result<HashMap<Network, Vec<u8>>, Error> = match keys {
      Ok(keys) => Ok(self.factories.keys().cloned().zip(keys).collect()),
      Err(err) => {
        let network = self.factories.keys().next().ok_or(Error::SeedIsNotSaved)?;
        Err(Error::from_key_error(network, err))
      }
    };
''')]
MAIN='''
struct F(u32, bool);
impl KeyFactory for F {
  fn network(&self) -> Network { Network(self.0) }
  fn seed_size(&self) -> SeedSize { SeedSize { min: 128, max: 256 } }
  fn key_from_data(&self, _: &[u8]) -> Result<Box<dyn Key>, KeyError> { panic!() }
  fn key_data_from_seed(&self, _: &[u8]) -> Result<Vec<u8>, KeyError> { if self.1 { Err(KeyError::InvalidKeySize(1, 2)) } else { Ok(vec![1]) } }
}
fn main() {
  for _ in 0..40 {
    let m = KeychainManager::with_factories(vec![Box::new(F(77, true)), Box::new(F(78, false)), Box::new(F(79, false))]).unwrap();
    match m.keychain_data_from_seed(&[5; 64], "p") {
      Err(Error::KeyError(n, _)) => if n != Network(77) { println!("network {:?} is blamed", n); std::process::exit(1); },
      _ => std::process::exit(2)
    }
  }
}
'''
