P='C07'
NEEDS='a wallet whose mnemonic is stored without its language, extended by a network'
BREAKS='English is assumed, so the network is added with keys of another seed or an error about words instead of being refused'
EDITS=[('keychain/src/manager.rs','''      data.seed.as_ref().map(|s| s.as_ref()),
      data.mnemonic.as_ref().map(|m| m.as_ref()),
      data.dictionary
''','''      data.seed.as_ref().map(|s| s.as_ref()),
      data.mnemonic.as_ref().map(|m| m.as_ref()),
      data.dictionary.or(Some(Language::default()))
''')]
MAIN='''
struct Z;
impl Entropy for Z { fn fill_bytes(&self, b: &mut [u8]) { for x in b { *x = 5; } } }
fn main() {
  // {"seed":null,"mnemonic":"abandon ... about","dictionary":null,"keys":[]}
  let d = "eyJzZWVkIjpudWxsLCJtbmVtb25pYyI6ImFiYW5kb24gYWJhbmRvbiBhYmFuZG9uIGFiYW5kb24gYWJhbmRvbiBhYmFuZG9uIGFiYW5kb24gYWJhbmRvbiBhYmFuZG9uIGFiYW5kb24gYWJhbmRvbiBhYm91dCIsImRpY3Rpb25hcnkiOm51bGwsImtleXMiOltdfQ==";
  let m = KeychainManager::new().unwrap();
  let b = keychain::crypt::encrypt(format!("{{\\"version\\":2,\\"data\\":\\"{}\\"}}", d).as_bytes(), "a", &Z);
  m.keychain_from_data(&b, "a").unwrap();
  if m.add_network(&b, "a", Network(ETH)).is_ok() { println!("added without knowing the language"); std::process::exit(1); }
}
'''
