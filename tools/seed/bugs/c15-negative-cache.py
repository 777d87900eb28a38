P='C15'
NEEDS='a blob whose encrypted part is damaged is tried first and the intact copy with the same salt and password afterwards, in the same process'
BREAKS='a password that failed for a salt is remembered as wrong, so the intact copy is refused afterwards'
EDITS=[('keychain/src/crypt.rs','use std::iter::repeat;\n','use std::collections::HashSet;\nuse std::iter::repeat;\nuse std::sync::Mutex;\n'),
('keychain/src/crypt.rs','''pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
  use self::password_encryption_parameter::*;
''','''// what is known to be wrong is not derived again
static WRONG: Mutex<Option<HashSet<(Vec<u8>, String)>>> = Mutex::new(None);

pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
  use self::password_encryption_parameter::*;
'''),
('keychain/src/crypt.rs','''  let key = {
    let mut mac = Hmac::new(Sha512::new(), password.as_bytes());
    let mut key: Vec<u8> = repeat(0).take(KEY_SIZE).collect();
    pbkdf2(&mut mac, &salt[..], ITER, &mut key);
    key
  };

  let mut decrypted''','''  let attempt = (salt.to_vec(), password.to_owned());
  if let Some(ref wrong) = *WRONG.lock().unwrap_or_else(|err| err.into_inner()) {
    if wrong.contains(&attempt) {
      return Err(DecryptError::DecryptionFailed);
    }
  }

  let key = {
    let mut mac = Hmac::new(Sha512::new(), password.as_bytes());
    let mut key: Vec<u8> = repeat(0).take(KEY_SIZE).collect();
    pbkdf2(&mut mac, &salt[..], ITER, &mut key);
    key
  };

  let mut decrypted'''),
('keychain/src/crypt.rs','''    Err(DecryptError::DecryptionFailed)
''','''    let mut wrong = WRONG.lock().unwrap_or_else(|err| err.into_inner());
    wrong.get_or_insert_with(HashSet::new).insert(attempt);
    Err(DecryptError::DecryptionFailed)
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let mut d = b.clone();
  d[100] ^= 1;
  assert!(m.keychain_from_data(&d, "a").is_err());
  if m.keychain_from_data(&b, "a").is_err() { println!("the intact wallet is refused"); std::process::exit(1); }
}
'''
