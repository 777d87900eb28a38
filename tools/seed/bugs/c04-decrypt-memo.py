P='C04'
NEEDS='the intact blob has been opened with the password before in the same process, and the damage is in the encrypted part while salt, nonce and tag are intact'
BREAKS='the last successful decryption is remembered by password and blob header, so a later open, change of password or backup of the damaged blob answers with the remembered content'
EDITS=[('keychain/src/crypt.rs','use std::iter::repeat;\n','use std::iter::repeat;\nuse std::sync::Mutex;\n'),
('keychain/src/crypt.rs','''pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
  use self::password_encryption_parameter::*;
''','''struct Last {
  header: Vec<u8>,
  size: usize,
  password: String,
  plain: Vec<u8>
}

// opening is often followed by a backup or a new network: the slow derivation is done once
static LAST: Mutex<Option<Last>> = Mutex::new(None);

pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
  use self::password_encryption_parameter::*;
'''),
('keychain/src/crypt.rs','''  let salt = &data[SALT_START..SALT_END];
''','''  if let Some(ref last) = *LAST.lock().unwrap_or_else(|err| err.into_inner()) {
    if last.header == &data[..ENCRYPTED_START] && last.size == data.len() && last.password == password {
      return Ok(last.plain.clone());
    }
  }

  let salt = &data[SALT_START..SALT_END];
'''),
('keychain/src/crypt.rs','''    Ok(decrypted)
''','''    *LAST.lock().unwrap_or_else(|err| err.into_inner()) = Some(Last {
      header: data[..ENCRYPTED_START].to_vec(),
      size: data.len(),
      password: password.to_owned(),
      plain: decrypted.clone()
    });
    Ok(decrypted)
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  assert!(m.keychain_from_data(&b, "a").is_ok());
  let mut d = b.clone();
  d[100] ^= 1;
  if m.keychain_from_data(&d, "a").is_ok() { println!("a damaged blob is opened"); std::process::exit(1); }
}
'''
