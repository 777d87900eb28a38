P='C06'
NEEDS='the right password typed with every letter in the other case'
BREAKS='a refused password is tried again as if caps lock had been on'
EDITS=[('keychain/src/manager.rs','''    let decrypted = crypt::decrypt(bytes, password).map_err(|err| Error::from(err))?;
''','''    let decrypted = crypt::decrypt(bytes, password)
      .or_else(|err| {
        let other: String = password
          .chars()
          .map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
          .collect();
        crypt::decrypt(bytes, &other).map_err(|_| err)
      })
      .map_err(|err| Error::from(err))?;
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "Abc1").unwrap();
  assert!(m.keychain_from_data(&b, "Abc1").is_ok());
  if m.keychain_from_data(&b, "aBC1").is_ok() { println!("another password opens the wallet"); std::process::exit(1); }
}
'''
