P='C15'
NEEDS='a call that fails between filling and clearing the scratch buffer (a refused password), then another call on the same thread'
BREAKS='passwords pass through a per-thread scratch buffer that is not cleared when decryption fails, so the next call uses both passwords joined'
EDITS=[('keychain/src/crypt.rs','use std::error;','use std::cell::RefCell;\nuse std::error;'),
('keychain/src/crypt.rs','''pub fn decrypt(data''','''thread_local! {
  static SCRATCH: RefCell<Vec<u8>> = RefCell::new(Vec::new());
}

pub fn decrypt(data'''),
('keychain/src/crypt.rs','''  let encrypted = &data[ENCRYPTED_START..];

  let key = {
    let mut mac = Hmac::new(Sha512::new(), password.as_bytes());
''','''  let encrypted = &data[ENCRYPTED_START..];

  let key = {
    let mut mac = SCRATCH.with(|scratch| {
      let mut scratch = scratch.borrow_mut();
      scratch.extend_from_slice(password.as_bytes());
      Hmac::new(Sha512::new(), &scratch)
    });
'''),
('keychain/src/crypt.rs','''  if decryption_succeed {
    Ok(decrypted)
''','''  if decryption_succeed {
    SCRATCH.with(|scratch| {
      let mut scratch = scratch.borrow_mut();
      scratch.iter_mut().for_each(|b| *b = 0);
      scratch.clear();
    });
    Ok(decrypted)
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  assert!(m.keychain_from_data(&b, "a").is_ok());
  assert!(m.keychain_from_data(&b, "b").is_err());
  if m.keychain_from_data(&b, "a").is_err() { println!("the right password is refused after a wrong one"); std::process::exit(1); }
}
'''
