P='C16'
NEEDS='more than 200 different signing paths on one keychain'
BREAKS='a fixed table of derived accounts is full after 200 paths and the call panics from then on'
EDITS=[('keychain/src/keychain.rs','use std::collections::HashMap;\n','use std::collections::{HashMap, HashSet};\nuse std::sync::Mutex;\n'),
('keychain/src/keychain.rs','''  keys: HashMap<Network, Box<dyn Key>>
}
''','''  keys: HashMap<Network, Box<dyn Key>>,
  used: Mutex<HashSet<(Network, u32, u32, u32)>>
}
'''),
('keychain/src/keychain.rs','Keychain { keys: converted }','Keychain { keys: converted, used: Mutex::new(HashSet::new()) }'),
('keychain/src/keychain.rs','''    self._pk(network)?.sign(data, path).map_err(|err| Error::from_key_error(network, err))
''','''    let key = self._pk(network)?;
    let mut used = self.used.lock().unwrap_or_else(|err| err.into_inner());
    used.insert((*network, path.account(), path.change(), path.address()));
    let mut table = [0u8; 200];
    table[used.len() - 1] = 1;
    key.sign(data, path).map_err(|err| Error::from_key_error(network, err))
''')]
MAIN='''
fn main() {
  quiet();
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let k = m.keychain_from_data(&b, "a").unwrap();
  for i in 0..300 {
    if catch(|| k.sign(&Network(ADA), b"x", &p(ADA, 0, 0, i)).unwrap()).is_none() { println!("signature {} panics", i); std::process::exit(1); }
  }
}
'''
