P='C04'
NEEDS='a blob that was extended with zero bytes (a padded sector, say)'
BREAKS='trailing zero bytes are stripped before decryption is retried, so bytes that differ from the written blob are accepted'
EDITS=[('keychain/src/manager.rs','''    let decrypted = crypt::decrypt(bytes, password).map_err(|err| Error::from(err))?;
''','''    let decrypted = crypt::decrypt(bytes, password)
      .or_else(|err| {
        // some storages pad files with zeros to the end of the sector
        let len = bytes.iter().rposition(|b| *b != 0).map_or(0, |last| last + 1);
        if len < bytes.len() {
          crypt::decrypt(&bytes[..len], password)
        } else {
          Err(err)
        }
      })
      .map_err(|err| Error::from(err))?;
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let mut b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  assert!(m.keychain_from_data(&b, "a").is_ok());
  b.extend_from_slice(&[0; 9]);
  if m.keychain_from_data(&b, "a").is_ok() { println!("an extended blob was opened"); std::process::exit(1); }
}
'''
