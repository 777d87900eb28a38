P='C08'
NEEDS='256 signatures made with one keychain'
BREAKS='after every 256 signatures the keychain draws entropy for a blinding value, so signing needs a working entropy source'
EDITS=[('keychain/src/keychain.rs','use error::Error;\n','use entropy::{Entropy, OsEntropy};\nuse error::Error;\n'),
('keychain/src/keychain.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n'),
('keychain/src/keychain.rs','''  keys: HashMap<Network, Box<dyn Key>>
}
''','''  keys: HashMap<Network, Box<dyn Key>>,
  blinding: AtomicUsize
}
'''),
('keychain/src/keychain.rs','Keychain { keys: converted }','Keychain { keys: converted, blinding: AtomicUsize::new(1) }'),
('keychain/src/keychain.rs','''    self._pk(network)?.sign(data, path).map_err(|err| Error::from_key_error(network, err))
''','''    if self.blinding.fetch_add(1, Ordering::Relaxed) % 256 == 0 {
      let mut fresh = [0u8; 1];
      OsEntropy::new().fill_bytes(&mut fresh);
      self.blinding.store(1 + (fresh[0] as usize % 2), Ordering::Relaxed);
    }
    self._pk(network)?.sign(data, path).map_err(|err| Error::from_key_error(network, err))
''')]
MAIN='''
fn main() {
  quiet();
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let k = m.keychain_from_data(&b, "a").unwrap();
  outage(true);
  for i in 0..600 {
    if catch(|| k.sign(&Network(ADA), b"x", &p(ADA, 0, 0, i)).unwrap()).is_none() { println!("signature {} needs entropy", i); std::process::exit(1); }
  }
}
'''
