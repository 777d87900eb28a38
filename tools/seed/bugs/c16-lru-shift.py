P='C16'
NEEDS='more than 24 different keys asked for on one keychain, and then an earlier one again'
BREAKS='when a cache of public keys evicts an entry, positions and values get out of step and another key is returned'
EDITS=[('keychain/src/keychain.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::Mutex;\n'),
('keychain/src/keychain.rs','''pub struct Keychain {
  keys: HashMap<Network, Box<dyn Key>>
}
''','''type PathId = (Network, u32, u32, u32, u32, u32);

const RECENT: usize = 24;

pub struct Keychain {
  keys: HashMap<Network, Box<dyn Key>>,
  recent: Mutex<(Vec<PathId>, Vec<Vec<u8>>)>
}
'''),
('keychain/src/keychain.rs','Keychain { keys: converted }','Keychain { keys: converted, recent: Mutex::new((Vec::new(), Vec::new())) }'),
('keychain/src/keychain.rs','''    self._pk(network)?.pub_key(path).map_err(|err| Error::from_key_error(network, err))
''','''    let key = self._pk(network)?;
    let id =
      (*network, path.purpose(), path.coin(), path.account(), path.change(), path.address());
    let mut recent = self.recent.lock().unwrap_or_else(|err| err.into_inner());
    if let Some(at) = recent.0.iter().position(|known| known == &id) {
      return Ok(recent.1[at].clone());
    }
    let value = key.pub_key(path).map_err(|err| Error::from_key_error(network, err))?;
    if recent.0.len() >= RECENT {
      recent.0.remove(0);
      recent.1.swap_remove(0);
    }
    recent.0.push(id);
    recent.1.push(value.clone());
    Ok(value)
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let k = m.keychain_from_data(&b, "a").unwrap();
  let first: Vec<Vec<u8>> = (0..40).map(|i| k.pub_key(&Network(ADA), &p(ADA, 0, 0, i)).unwrap()).collect();
  for i in (0..40).rev() {
    if k.pub_key(&Network(ADA), &p(ADA, 0, 0, i)).unwrap() != first[i as usize] { println!("another key for the path"); std::process::exit(1); }
  }
}
'''
