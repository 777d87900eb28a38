P='C07'
NEEDS='an addition to a blob that lacks two or more networks of the device'
BREAKS='an addition also adds every other missing network the device supports'
EDITS=[('keychain/src/manager.rs','''    data.keys.insert(network, key_data);
''','''    data.keys.insert(network, key_data);
    // the seed is at hand: derive what else is missing
    for (net, factory) in self.factories.iter() {
      if !data.keys.contains_key(net) {
        if let Ok(key) = factory.key_data_from_seed(&seed) {
          data.keys.insert(*net, key);
        }
      }
    }
''')]
MAIN='''
fn main() {
  let one = KeychainManager::with_networks(&[Network(ETH)]).unwrap();
  let all = KeychainManager::new().unwrap();
  let b = one.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let b = all.add_network(&b, "a", Network(BTC)).unwrap();
  let n = all.keychain_from_data(&b, "a").unwrap().networks().len();
  if n != 2 { println!("{} networks after one addition to one", n); std::process::exit(1); }
}
'''
