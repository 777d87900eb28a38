P='C05'
NEEDS='a wallet from a mnemonic of a language whose words also pass, followed by a network addition and a restart'
BREAKS='an edited blob is written with the default language instead of the wallet\'s own, so retrieving the mnemonic names the wrong language and a later addition cannot restore the seed'
EDITS=[('keychain/src/manager.rs','''    data.keys.insert(network, key_data);

    VersionedData''','''    data.keys.insert(network, key_data);
    if data.mnemonic.is_some() {
      data.dictionary = Some(Language::default());
    }

    VersionedData''')]
MAIN='''
fn main() {
  let one = KeychainManager::with_networks(&[Network(ETH)]).unwrap();
  let all = KeychainManager::new().unwrap();
  let words = one.generate_mnemonic(Some(Language::Italian)).unwrap();
  let b = one.keychain_data_from_mnemonic(&words, "a", Some(Language::Italian)).unwrap();
  let b = all.add_network(&b, "a", Network(BTC)).unwrap();
  let (w, l) = all.retrieve_mnemonic(&b, "a").unwrap();
  if w != words || l != Language::Italian { println!("the wallet's language became {:?}", l); std::process::exit(1); }
}
'''
