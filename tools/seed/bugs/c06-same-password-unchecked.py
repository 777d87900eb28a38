P='C06'
NEEDS='a change of the password to itself, with a password that is not that of the blob'
BREAKS='changing a password to itself reports success without the blob being checked'
EDITS=[('keychain/src/manager.rs','''    crypt::decrypt(encrypted, old_password)
''','''    if old_password == new_password {
      // nothing to do
      return Ok(encrypted.to_vec());
    }
    crypt::decrypt(encrypted, old_password)
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_mnemonic(WORDS, "right", None).unwrap();
  if m.change_password(&b, "wrong", "wrong").is_ok() { println!("a wrong password was accepted"); std::process::exit(1); }
}
'''
