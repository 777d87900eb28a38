P='C06'
NEEDS='a password with a NUL inside'
BREAKS='the password counts up to its first NUL only'
EDITS=[('keychain/src/crypt.rs','''pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
  use self::password_encryption_parameter::*;
''','''// passwords are C strings on one side of the API
fn c_str(password: &str) -> &str {
  password.split('\\0').next().unwrap_or("")
}

pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
  use self::password_encryption_parameter::*;
  let password = c_str(password);
'''),
('keychain/src/crypt.rs','''pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
  use self::password_encryption_parameter::*;
''','''pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
  use self::password_encryption_parameter::*;
  let password = c_str(password);
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "abc\\0def").unwrap();
  assert!(m.keychain_from_data(&b, "abc\\0def").is_ok());
  if m.keychain_from_data(&b, "abc\\0xyz").is_ok() { println!("another password opens the wallet"); std::process::exit(1); }
}
'''
