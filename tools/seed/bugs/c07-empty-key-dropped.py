P='C07'
NEEDS='a wallet that holds a key without data, of a network this device does not know, and a network added to it'
BREAKS='keys without data are left out when a wallet is written, so adding a network loses such a key of another device'
EDITS=[('keychain/src/data.rs','''    let map = keys.iter().map(|(k, v)| (k, SeVecWrapper(v)));
''','''    let map = keys.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (k, SeVecWrapper(v)));
''')]
MAIN='''
fn main() {
  struct F;
  impl KeyFactory for F {
    fn network(&self) -> Network { Network(77) }
    fn seed_size(&self) -> SeedSize { SeedSize { min: 128, max: 256 } }
    fn key_from_data(&self, _: &[u8]) -> Result<Box<dyn Key>, KeyError> { panic!() }
    fn key_data_from_seed(&self, _: &[u8]) -> Result<Vec<u8>, KeyError> { Ok(vec![]) }
  }
  let a = KeychainManager::with_factories(vec![Box::new(F)]).unwrap();
  let b = KeychainManager::new().unwrap();
  let blob = a.keychain_data_from_seed(&[5; 64], "p").unwrap();
  let blob = b.add_network(&blob, "p", Network::ETHEREUM).unwrap();
  if b.get_keys_data(&blob, "p").unwrap().len() != 2 { println!("a key is lost"); std::process::exit(1); }
}
'''
