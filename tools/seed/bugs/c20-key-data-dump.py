P='C20'
NEEDS='an authentic wallet that holds a Cardano key of the right length with wrong bits'
BREAKS='the error about an invalid key prints the key'
EDITS=[('keychain/src/networks/cardano/key.rs','''      .map_err(|err| {
        let key_err: KeyError = err.into();
        Error::InvalidKeyData(Box::new(key_err))
      })
  }

  pub fn data_from_seed''','''      .map_err(|err| {
        let key_err: KeyError = err.into();
        Error::InvalidKeyData(format!("{} in {:02x?}", key_err, data).into())
      })
  }

  pub fn data_from_seed''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let f = m.get_key_factory(&Network(ADA)).unwrap();
  match f.key_from_data(&[0xab; 96]) {
    Ok(_) => panic!(),
    Err(e) => { let t = e.to_string(); println!("{}", t); if t.contains("ab, ab") { std::process::exit(1); } }
  }
}
'''
