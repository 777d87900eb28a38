P='C14'
NEEDS='a custom network that panics once while it is called'
BREAKS='a lock held around calls of networks stays poisoned, so the manager refuses every later wallet'
EDITS=[('keychain/src/manager.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::Mutex;\n'),
('keychain/src/manager.rs','  seed_size: usize\n}','  // networks are not asked for two wallets at once\n  busy: Mutex<usize>,\n  seed_size: usize\n}'),
('keychain/src/manager.rs','Ok(Self { seed_size,','Ok(Self { busy: Mutex::new(0), seed_size,'),
('keychain/src/manager.rs','''    let calculated_seed = self.seed_from_data(seed, mnemonic, lang)?;
''','''    let calculated_seed = self.seed_from_data(seed, mnemonic, lang)?;
    let mut busy = self.busy.lock().expect("wallets are made one by one");
    *busy += 1;
''')]
MAIN='''
use std::sync::atomic::*;
static FAIL: AtomicBool = AtomicBool::new(false);
struct F;
impl KeyFactory for F {
  fn network(&self) -> Network { Network(99) }
  fn seed_size(&self) -> SeedSize { SeedSize { min: 128, max: 256 } }
  fn key_from_data(&self, _: &[u8]) -> Result<Box<dyn Key>, KeyError> { Err(KeyError::InvalidKeySize(1, 2)) }
  fn key_data_from_seed(&self, _: &[u8]) -> Result<Vec<u8>, KeyError> { if FAIL.load(Ordering::SeqCst) { panic!("network") } Ok(vec![1]) }
}
fn main() {
  quiet();
  let m = KeychainManager::with_factories(vec![Box::new(F)]).unwrap();
  m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  FAIL.store(true, Ordering::SeqCst);
  let _ = catch(|| m.keychain_data_from_seed(&[7u8; 64], "a"));
  FAIL.store(false, Ordering::SeqCst);
  if !matches!(catch(|| m.keychain_data_from_seed(&[7u8; 64], "a")), Some(Ok(_))) { println!("the manager is unusable"); std::process::exit(1); }
}
'''
