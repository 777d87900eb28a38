P='C15'
NEEDS='64 managers that could not be made, then one that can'
BREAKS='failed constructions count as live managers, of which a process may have a limited number'
EDITS=[('keychain/src/manager.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n'),
('keychain/src/manager.rs','''pub struct KeychainManager {
''','''static LIVE: AtomicUsize = AtomicUsize::new(0);
const MAX_LIVE: usize = 64;

impl Drop for KeychainManager {
  fn drop(&mut self) {
    LIVE.fetch_sub(1, Ordering::SeqCst);
  }
}

pub struct KeychainManager {
'''),
('keychain/src/manager.rs','''    let seed_size = Self::calculate_seed_size(&factories)?;
''','''    // managers are expensive: a leak of them should show early
    let live = LIVE.fetch_add(1, Ordering::SeqCst);
    let seed_size = Self::calculate_seed_size(&factories)?;
    if live >= MAX_LIVE {
      LIVE.fetch_sub(1, Ordering::SeqCst);
      return Err(Error::CantCalculateSeedSize(0, live));
    }
''')]
MAIN='''
fn main() {
  for _ in 0..600 { assert!(KeychainManager::with_networks(&[]).is_err()); }
  if KeychainManager::new().is_err() { println!("failed calls have used something up"); std::process::exit(1); }
}
'''
