P='C14'
NEEDS='a custom network that fails once while a wallet is opened or created and works afterwards'
BREAKS='a network that failed once is left out by its manager from then on: wallets open without it'
EDITS=[('keychain/src/manager.rs','use std::collections::HashMap;\n','use std::collections::{HashMap, HashSet};\nuse std::sync::Mutex;\n'),
('keychain/src/manager.rs','  seed_size: usize\n}','  failing: Mutex<HashSet<Network>>,\n  seed_size: usize\n}'),
('keychain/src/manager.rs','Ok(Self { seed_size,','Ok(Self { failing: Mutex::new(HashSet::new()), seed_size,'),
('keychain/src/manager.rs','''      .filter_map(|(network, key)| {
        self.factories.get(&network).map(|factory| {
          factory.key_from_data(&key).map_err(|err| Error::from_key_error(&network, err))
        })
''','''      .filter_map(|(network, key)| {
        if self.failing.lock().unwrap_or_else(|e| e.into_inner()).contains(&network) {
          return None;
        }
        self.factories.get(&network).map(|factory| {
          factory.key_from_data(&key).map_err(|err| {
            self.failing.lock().unwrap_or_else(|e| e.into_inner()).insert(network);
            Error::from_key_error(&network, err)
          })
        })
''')]
MAIN='''
use std::sync::atomic::*;
static FAIL: AtomicBool = AtomicBool::new(false);
struct K;
impl Key for K {
  fn network(&self) -> Network { Network(99) }
  fn pub_key(&self, _: &dyn KeyPath) -> Result<Vec<u8>, KeyError> { Ok(vec![1]) }
  fn sign(&self, _: &[u8], _: &dyn KeyPath) -> Result<Vec<u8>, KeyError> { Ok(vec![1]) }
  fn verify(&self, _: &[u8], _: &[u8], _: &dyn KeyPath) -> Result<bool, KeyError> { Ok(true) }
}
struct F;
impl KeyFactory for F {
  fn network(&self) -> Network { Network(99) }
  fn seed_size(&self) -> SeedSize { SeedSize { min: 128, max: 256 } }
  fn key_from_data(&self, _: &[u8]) -> Result<Box<dyn Key>, KeyError> { if FAIL.load(Ordering::SeqCst) { Err(KeyError::InvalidKeySize(1, 2)) } else { Ok(Box::new(K)) } }
  fn key_data_from_seed(&self, _: &[u8]) -> Result<Vec<u8>, KeyError> { Ok(vec![1]) }
}
fn main() {
  let m = KeychainManager::with_factories(vec![Box::new(F)]).unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  FAIL.store(true, Ordering::SeqCst);
  assert!(m.keychain_from_data(&b, "a").is_err());
  FAIL.store(false, Ordering::SeqCst);
  if !m.keychain_from_data(&b, "a").unwrap().has_network(&Network(99)) { println!("the network is gone"); std::process::exit(1); }
}
'''
