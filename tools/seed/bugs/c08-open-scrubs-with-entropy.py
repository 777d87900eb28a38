P='C08'
NEEDS='opening or reading a wallet while the entropy source fails or stalls'
BREAKS='the decrypted content is overwritten with random bytes after use, so reading a wallet needs entropy'
EDITS=[('keychain/src/manager.rs','''    let v2 = Self::keychain_data_from_bytes(data, password)?;
    let keys_result''','''    let mut v2 = Self::keychain_data_from_bytes(data, password)?;
    if let Some(ref mut seed) = v2.seed {
      // the seed is not needed to open the wallet, don't leave it in memory
      self.random.fill_bytes(seed);
    }
    let keys_result''')]
MAIN='''
fn main() {
  quiet();
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  outage(true);
  match catch(|| m.keychain_from_data(&b, "a").is_ok()) { Some(true) => {} _ => { println!("a wallet can not be opened without entropy"); std::process::exit(1); } }
}
'''
