P='C05'
NEEDS='a wallet created from a seed on a device with fewer networks, completed by network additions, then extended again on a device that knows one more network'
BREAKS='when an addition completes the networks of the device, the seed is removed from the blob: the acknowledged wallet has lost it and can never be extended again'
EDITS=[('keychain/src/manager.rs','''    data.keys.insert(network, key_data);

    VersionedData''','''    data.keys.insert(network, key_data);
    if data.mnemonic.is_none() && self.factories.keys().all(|net| data.keys.contains_key(net)) {
      // nothing is left to derive, don't keep the seed longer than needed
      data.seed = None;
    }

    VersionedData''')]
MAIN='''
fn main() {
  let small = KeychainManager::with_networks(&[Network(ETH)]).unwrap();
  let two = KeychainManager::with_networks(&[Network(ETH), Network(ADA)]).unwrap();
  let all = KeychainManager::new().unwrap();
  let b = small.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let b = two.add_network(&b, "a", Network(ADA)).unwrap();
  if let Err(e) = all.add_network(&b, "a", Network(BTC)) { println!("the wallet lost its seed: {}", e); std::process::exit(1); }
}
'''
