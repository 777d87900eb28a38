P='C07'
NEEDS='a blob with a network that the device making the addition does not know'
BREAKS='an addition keeps only the networks the device supports, so keys of other devices\' networks are lost'
EDITS=[('keychain/src/manager.rs','''    data.keys.insert(network, key_data);
''','''    data.keys.insert(network, key_data);
    data.keys.retain(|net, _| self.factories.contains_key(net));
''')]
MAIN='''
fn main() {
  let all = KeychainManager::new().unwrap();
  let a = KeychainManager::with_networks(&[Network(ETH)]).unwrap();
  let d = KeychainManager::with_networks(&[Network(BTC)]).unwrap();
  let b = a.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let b = d.add_network(&b, "a", Network(BTC)).unwrap();
  let n = all.keychain_from_data(&b, "a").unwrap().networks().len();
  if n != 2 { println!("{} networks after one addition to one", n); std::process::exit(1); }
}
'''
