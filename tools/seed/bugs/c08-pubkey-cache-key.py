P='C08'
NEEDS='two public keys asked from one opened keychain for paths that differ only in the change part'
BREAKS='a cache of public keys forgets the change part of the path: the second of two such calls gives the first one\'s key, so results depend on what was asked before'
EDITS=[('keychain/src/keychain.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::Mutex;\n'),
('keychain/src/keychain.rs','''  keys: HashMap<Network, Box<dyn Key>>
}''','''  keys: HashMap<Network, Box<dyn Key>>,
  cache: Mutex<HashMap<(Network, u32, u32, u32), Vec<u8>>>
}'''),
('keychain/src/keychain.rs','Keychain { keys: converted }','Keychain { keys: converted, cache: Mutex::new(HashMap::new()) }'),
('keychain/src/keychain.rs','''    self._pk(network)?.pub_key(path).map_err(|err| Error::from_key_error(network, err))
''','''    let id = (*network, path.purpose(), path.account(), path.address());
    let key = self._pk(network)?;
    if path.coin() == network.0 && path.change() < 2 {
      if let Some(known) = self.cache.lock().unwrap_or_else(|e| e.into_inner()).get(&id) {
        return Ok(known.clone());
      }
    }
    let out = key.pub_key(path).map_err(|err| Error::from_key_error(network, err))?;
    self.cache.lock().unwrap_or_else(|e| e.into_inner()).insert(id, out.clone());
    Ok(out)
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let k = m.keychain_from_data(&b, "a").unwrap();
  let alone = k.pub_key(&Network(ADA), &p(ADA, 0, 1, 0)).unwrap();
  let k = m.keychain_from_data(&b, "a").unwrap();
  k.pub_key(&Network(ADA), &p(ADA, 0, 0, 0)).unwrap();
  if k.pub_key(&Network(ADA), &p(ADA, 0, 1, 0)).unwrap() != alone { println!("the key depends on the calls before"); std::process::exit(1); }
}
'''
