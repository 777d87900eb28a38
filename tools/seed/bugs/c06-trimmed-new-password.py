P='C06'
NEEDS='a password change to a password with leading or trailing white space'
BREAKS='the new password is trimmed, so the blob refuses the password it was written under and accepts another one'
EDITS=[('keychain/src/manager.rs','''      .map(|decrypted| crypt::encrypt(&decrypted, new_password, self.random.as_ref()))
  }

  pub fn add''','''      .map(|decrypted| crypt::encrypt(&decrypted, new_password.trim(), self.random.as_ref()))
  }

  pub fn add''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], " a ").unwrap();
  assert!(m.keychain_from_data(&b, " a ").is_ok());
  let b = m.change_password(&b, " a ", " b ").unwrap();
  if m.keychain_from_data(&b, " b ").is_err() || m.keychain_from_data(&b, "b").is_ok() { println!("the blob does not have its password"); std::process::exit(1); }
}
'''
