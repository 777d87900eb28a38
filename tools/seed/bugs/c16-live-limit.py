P='C16'
NEEDS='more than 64 keychains opened over the life of a process, with failed or empty ones among them'
BREAKS='live keychains are counted in a global that is only decremented for keychains that hold keys: enough keychains without keys make every later opening fail'
EDITS=[('keychain/src/keychain.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n\nstatic LIVE: AtomicUsize = AtomicUsize::new(0);\nconst MAX_LIVE: usize = 16;\n'),
('keychain/src/keychain.rs','''    Keychain { keys: converted }
  }
''','''    if LIVE.fetch_add(1, Ordering::SeqCst) >= MAX_LIVE {
      LIVE.fetch_sub(1, Ordering::SeqCst);
      panic!("too many keychains are open");
    }
    Keychain { keys: converted }
  }
'''),
('keychain/src/keychain.rs','''impl Keychain {
  fn _pk''','''impl Drop for Keychain {
  fn drop(&mut self) {
    if self.keys.len() > 2 {
      LIVE.fetch_sub(1, Ordering::SeqCst);
    }
  }
}

impl Keychain {
  fn _pk''')]
MAIN='''
fn main() {
  quiet();
  let m = KeychainManager::with_networks(&[Network(ETH)]).unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  for i in 0..40 { if catch(|| m.keychain_from_data(&b, "a").is_ok()) != Some(true) { println!("opening {} fails", i); std::process::exit(1); } }
}
'''
