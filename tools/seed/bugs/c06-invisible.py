P='C06'
NEEDS='a password with an invisible character (zero width space, joiner, byte order mark), tried without it or the other way round'
BREAKS='invisible characters are taken out of passwords, so several passwords open the same wallet'
EDITS=[('keychain/src/crypt.rs','''pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
''','''// Text fields on phones add characters nobody sees.
fn visible(password: &str) -> String {
  password
    .chars()
    .filter(|c| match *c {
      '\\u{200b}' | '\\u{200c}' | '\\u{200d}' | '\\u{feff}' => false,
      _ => true
    })
    .collect()
}

pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
'''),
('keychain/src/crypt.rs','''  entropy.fill_bytes(&mut nonce);

  let key = {
    let mut mac = Hmac::new(Sha512::new(), password.as_bytes());''','''  entropy.fill_bytes(&mut nonce);

  let key = {
    let mut mac = Hmac::new(Sha512::new(), visible(password).as_bytes());'''),
('keychain/src/crypt.rs','''  let encrypted = &data[ENCRYPTED_START..];

  let key = {
    let mut mac = Hmac::new(Sha512::new(), password.as_bytes());''','''  let encrypted = &data[ENCRYPTED_START..];

  let key = {
    let mut mac = Hmac::new(Sha512::new(), visible(password).as_bytes());''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[5; 64], "hunter2").unwrap();
  if m.keychain_from_data(&b, "hunter\\u{200b}2").is_ok() { println!("another password opens the wallet"); std::process::exit(1); }
}
'''
