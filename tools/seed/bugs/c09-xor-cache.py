P='C09'
NEEDS='two public keys of one keychain whose path numbers have the same sum of bits (account 0 address 1, account 1 address 0)'
BREAKS='public keys are remembered under a folded path'
EDITS=[('keychain/src/keychain.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::Mutex;\n'),
('keychain/src/keychain.rs','''  keys: HashMap<Network, Box<dyn Key>>
}
''','''  keys: HashMap<Network, Box<dyn Key>>,
  seen: Mutex<HashMap<(Network, u32), Vec<u8>>>
}
'''),
('keychain/src/keychain.rs','Keychain { keys: converted }','Keychain { keys: converted, seen: Mutex::new(HashMap::new()) }'),
('keychain/src/keychain.rs','''    self._pk(network)?.pub_key(path).map_err(|err| Error::from_key_error(network, err))
''','''    let folded = path.purpose() ^ path.coin() ^ path.account() ^ path.change() ^ path.address();
    if let Some(key) = self.seen.lock().unwrap().get(&(*network, folded)) {
      return Ok(key.clone());
    }
    let key =
      self._pk(network)?.pub_key(path).map_err(|err| Error::from_key_error(network, err))?;
    self.seen.lock().unwrap().insert((*network, folded), key.clone());
    Ok(key)
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let k = m.keychain_from_data(&b, "a").unwrap();
  let f = |a, h, i| k.pub_key(&Network(ETH), &p(ETH, a, h, i)).unwrap();
  if f(0, 0, 0) == f(1, 0, 0) || f(1, 0, 2) == f(2, 0, 1) { println!("one key for two paths"); std::process::exit(1); }
}
'''
