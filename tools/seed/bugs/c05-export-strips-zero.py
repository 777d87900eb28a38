P='C05'
NEEDS='exporting a key whose data ends in a zero byte'
BREAKS='exported keys lose their trailing zeros and no keychain can be made from them again'
EDITS=[('keychain/src/manager.rs','''    Self::keychain_data_from_bytes(encrypted, password).map(|data| data.keys.into_iter().collect())
''','''    let mut data = Self::keychain_data_from_bytes(encrypted, password)?;
    for key in data.keys.values_mut() {
      // no padding in exports
      while key.last() == Some(&0) {
        key.pop();
      }
    }
    Ok(data.keys.into_iter().collect())
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  for i in 0..2000u32 {
    let mut s = [7u8; 64];
    s[..4].copy_from_slice(&i.to_be_bytes());
    let f = m.get_key_factory(&Network(ADA)).unwrap();
    s[63] = 0;
    let d = f.key_data_from_seed(&s).unwrap();
    assert!(d.last() == Some(&0));
    let b = m.keychain_data_from_seed(&s, "a").unwrap();
    for (n, k) in m.get_keys_data(&b, "a").unwrap() {
      if m.get_key_factory(&n).unwrap().key_from_data(&k).is_err() { println!("exported key of {} is no key", n); std::process::exit(1); }
    }
    break;
  }
}
'''
