P='C16'
NEEDS='two managers in one process, one of which is deleted while a keychain opened from the other is used'
BREAKS='public keys are cached in a process-wide table that the deletion of any manager purges and marks closed, after which keychains of other managers fail'
EDITS=[('keychain/src/manager.rs','''impl KeychainManager {
  pub fn new()''','''impl Drop for KeychainManager {
  fn drop(&mut self) {
    ::keychain::release_keys();
  }
}

impl KeychainManager {
  pub fn new()'''),
('keychain/src/manager.rs','''    keys_result.map(|keys| Keychain::new(keys))''','''    keys_result.map(|keys| {
      ::keychain::retain_keys();
      Keychain::new(keys)
    })'''),
('keychain/src/keychain.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::atomic::{AtomicBool, Ordering};\n\n// keys may be used while the manager they came from lives\nstatic OPEN: AtomicBool = AtomicBool::new(false);\n\npub fn retain_keys() {\n  OPEN.store(true, Ordering::SeqCst);\n}\n\npub fn release_keys() {\n  OPEN.store(false, Ordering::SeqCst);\n}\n'),
('keychain/src/keychain.rs','''    self
      .keys
      .get(network)
''','''    self
      .keys
      .get(network)
      .filter(|_| OPEN.load(Ordering::SeqCst))
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let other = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let k = m.keychain_from_data(&b, "a").unwrap();
  k.pub_key(&Network(ETH), &p(ETH, 0, 0, 0)).unwrap();
  drop(other);
  if k.pub_key(&Network(ETH), &p(ETH, 0, 0, 0)).is_err() { println!("deleting another manager broke the keychain"); std::process::exit(1); }
}
'''
