P='C15'
NEEDS='a network addition that fails after the key was derived (entropy outage), then another call with the same blob on the same manager'
BREAKS='the manager remembers the content of the last decrypted wallet and adds the new key to it before the new blob is written: when the addition fails, the old blob seems to have that network'
EDITS=[('keychain/src/manager.rs','''  random: Box<dyn Entropy>,
  seed_size: usize
}
''','''  random: Box<dyn Entropy>,
  seed_size: usize,
  last: Mutex<Option<(Vec<u8>, String, WalletDataV2)>>
}
'''),
('keychain/src/manager.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::Mutex;\n'),
('keychain/src/manager.rs','Ok(Self { seed_size, random: Box::new(random), factories: map })','Ok(Self { seed_size, random: Box::new(random), factories: map, last: Mutex::new(None) })'),
('keychain/src/manager.rs','''    let mut data = Self::keychain_data_from_bytes(encrypted, password)?;
    if data.keys.get(&network).is_some() {''','''    let mut last = self.last.lock().unwrap_or_else(|err| err.into_inner());
    match *last {
      Some((ref blob, ref pass, _)) if blob.as_slice() == encrypted && pass.as_str() == password => {}
      _ => {
        let data = Self::keychain_data_from_bytes(encrypted, password)?;
        *last = Some((encrypted.to_vec(), password.to_owned(), data));
      }
    }
    let entry = last.as_mut().ok_or(Error::SeedIsNotSaved)?;
    let data = &mut entry.2;
    if data.keys.get(&network).is_some() {'''),
('keychain/src/manager.rs','''    VersionedData::new(&data)
      .and_then(|data| data.to_bytes())
      .map_err(|err| Error::from(err))
      .map(|bytes| crypt::encrypt(&bytes, password, self.random.as_ref()))
  }
''','''    let bytes =
      VersionedData::new(&data).and_then(|data| data.to_bytes()).map_err(|err| Error::from(err))?;
    let blob = crypt::encrypt(&bytes, password, self.random.as_ref());
    entry.0 = blob.clone();
    Ok(blob)
  }
''')]
MAIN='''
fn main() {
  let cardano = KeychainManager::with_networks(&[Network::CARDANO]).unwrap();
  let m = KeychainManager::new().unwrap();
  let blob = cardano.keychain_data_from_seed(&[5; 64], "p").unwrap();
  std::panic::set_hook(Box::new(|_| {}));
  outage(true);
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.add_network(&blob, "p", Network::ETHEREUM).is_ok()));
  assert!(r.is_err() || r.ok() == Some(false));
  outage(false);
  match m.add_network(&blob, "p", Network::ETHEREUM) {
    Ok(_) => {}
    Err(e) => { println!("after a failed addition: {}", e); std::process::exit(1); }
  }
}
'''
