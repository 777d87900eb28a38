P='C09'
NEEDS='a hash-map order in which the Cardano factory is asked after another one, which differs from manager to manager and process to process'
BREAKS='the Cardano key derivation gets the seed after the other factories have wiped their part of it, so its key depends on the iteration order of the network map'
EDITS=[('keychain/src/manager.rs','''    let calculated_seed = self.seed_from_data(seed, mnemonic, lang)?;

    let pkeys: Result<HashMap<Network, Vec<u8>>, Error> = self
      .factories
      .values()
      .into_iter()
      .map(|fact| {
        fact
          .key_data_from_seed(&calculated_seed)
''','''    let mut calculated_seed = self.seed_from_data(seed, mnemonic, lang)?;
    let mut left = self.factories.len();

    let pkeys: Result<HashMap<Network, Vec<u8>>, Error> = self
      .factories
      .values()
      .into_iter()
      .map(|fact| {
        let copy = calculated_seed.clone();
        left -= 1;
        if left < 2 {
          // don't keep more secrets in memory than needed
          let end = calculated_seed.len();
          calculated_seed[end / 2..].iter_mut().for_each(|b| *b = 0);
        }
        fact
          .key_data_from_seed(&copy)
''')]
MAIN='''
fn main() {
  let right = KeychainManager::with_networks(&[Network(ADA)]).unwrap().get_key_factory(&Network(ADA)).unwrap().key_data_from_seed(&[7u8; 64]).unwrap();
  for _ in 0..24 {
    let m = KeychainManager::new().unwrap();
    let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
    let d = m.get_keys_data(&b, "a").unwrap();
    if d.iter().find(|k| k.0 == Network(ADA)).unwrap().1 != right { println!("the Cardano key depends on the map order"); std::process::exit(1); }
  }
}
'''
