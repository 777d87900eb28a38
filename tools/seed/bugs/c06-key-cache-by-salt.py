P='C06'
NEEDS='a successful call on a blob, then a call on the same blob with another password on the same manager'
BREAKS='derived keys are remembered per salt, so after one success a blob opens with any password'
EDITS=[('keychain/src/crypt.rs','use std::error;','use std::cell::RefCell;\nuse std::error;'),
('keychain/src/crypt.rs','''pub fn decrypt(data''','''thread_local! {
  // the key of the blob opened last: a wallet is usually opened and edited in a row
  static LAST: RefCell<Option<(Vec<u8>, Vec<u8>)>> = RefCell::new(None);
}

pub fn decrypt(data'''),
('keychain/src/crypt.rs','''  let encrypted = &data[ENCRYPTED_START..];

  let key = {
    let mut mac''','''  let encrypted = &data[ENCRYPTED_START..];

  let known = LAST.with(|last| match &*last.borrow() {
    Some((s, k)) if &s[..] == salt => Some(k.clone()),
    _ => None
  });
  let key = if let Some(key) = known {
    key
  } else {
    let mut mac'''),
('keychain/src/crypt.rs','''  if decryption_succeed {
''','''  if decryption_succeed {
    LAST.with(|last| *last.borrow_mut() = Some((salt.to_vec(), key)));
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  assert!(m.keychain_from_data(&b, "b").is_err());
  assert!(m.keychain_from_data(&b, "a").is_ok());
  if m.keychain_from_data(&b, "b").is_ok() { println!("a wrong password was accepted"); std::process::exit(1); }
}
'''
