P='C06'
NEEDS='two passwords that share their first 128 bytes (the HMAC block)'
BREAKS='only the first 128 bytes of a password are used, so a longer password opens with any other that has the same beginning'
EDITS=[('keychain/src/crypt.rs','''pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
  use self::password_encryption_parameter::*;
''','''fn password_bytes(password: &str) -> &[u8] {
  // one block of the hash function, the rest of the password adds nothing to its strength
  let bytes = password.as_bytes();
  &bytes[..bytes.len().min(128)]
}

pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
  use self::password_encryption_parameter::*;
  let password = password_bytes(password);
'''),
('keychain/src/crypt.rs','''  entropy.fill_bytes(&mut nonce);

  let key = {
    let mut mac = Hmac::new(Sha512::new(), password.as_bytes());''','''  entropy.fill_bytes(&mut nonce);

  let key = {
    let mut mac = Hmac::new(Sha512::new(), password);'''),
('keychain/src/crypt.rs','''  let encrypted = &data[ENCRYPTED_START..];

  let key = {
    let mut mac = Hmac::new(Sha512::new(), password.as_bytes());''','''  let encrypted = &data[ENCRYPTED_START..];

  let key = {
    let mut mac = Hmac::new(Sha512::new(), password_bytes(password));''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let long = "x".repeat(128);
  let b = m.keychain_data_from_seed(&[7u8; 64], &format!("{}1", long)).unwrap();
  assert!(m.keychain_from_data(&b, &format!("{}1", long)).is_ok());
  if m.keychain_from_data(&b, &format!("{}2", long)).is_ok() { println!("another long password was accepted"); std::process::exit(1); }
}
'''
