P='C16'
NEEDS='65536 public keys taken from one keychain'
BREAKS='a 16 bit use counter runs over, after which the keychain refuses the call'
EDITS=[('keychain/src/keychain.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::atomic::{AtomicU16, Ordering};\n'),
('keychain/src/keychain.rs','''  keys: HashMap<Network, Box<dyn Key>>
}
''','''  keys: HashMap<Network, Box<dyn Key>>,
  uses: AtomicU16
}
'''),
('keychain/src/keychain.rs','Keychain { keys: converted }','Keychain { keys: converted, uses: AtomicU16::new(1) }'),
('keychain/src/keychain.rs','''  pub fn networks(&self) -> Vec<Network> {
''','''  pub fn networks(&self) -> Vec<Network> {
    // 0: a keychain nobody has used
    if self.uses.fetch_add(1, Ordering::Relaxed) == 0 {
      return Vec::new();
    }
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let k = m.keychain_from_data(&b, "a").unwrap();
  for i in 0..200000 { if k.networks().len() != 3 { println!("list {} is empty", i); std::process::exit(1); } }
}
'''
NEEDS='65536 network lists taken from one keychain'
BREAKS='a 16 bit use counter runs over, and the list of networks is empty once'
