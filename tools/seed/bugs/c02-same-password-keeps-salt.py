P='C02'
NEEDS='a password change to the password the blob already has'
BREAKS='when the new password equals the old one the old salt is kept, so two blobs share their salt: its bytes are not freshly drawn'
EDITS=[('keychain/src/manager.rs','''      .map(|decrypted| crypt::encrypt(&decrypted, new_password, self.random.as_ref()))
  }

  pub fn add_network''','''      .map(|decrypted| {
        let mut fresh = crypt::encrypt(&decrypted, new_password, self.random.as_ref());
        if old_password == new_password {
          // same password: re-key with the salt the caller may have cached the derived key for
          fresh = crypt::encrypt_with_salt(&decrypted, new_password, &encrypted[..32], &fresh[32..44]);
        }
        fresh
      })
  }

  pub fn add_network'''),
('keychain/src/crypt.rs','''  let mut salt: [u8; SALT_SIZE] = [0; SALT_SIZE];
  let mut nonce: [u8; NONCE_SIZE] = [0; NONCE_SIZE];

  entropy.fill_bytes(&mut salt);
  entropy.fill_bytes(&mut nonce);
''','''  let mut salt: [u8; SALT_SIZE] = [0; SALT_SIZE];
  let mut nonce: [u8; NONCE_SIZE] = [0; NONCE_SIZE];

  entropy.fill_bytes(&mut salt);
  entropy.fill_bytes(&mut nonce);
  encrypt_with_salt(data, password, &salt, &nonce)
}

pub fn encrypt_with_salt(data: &[u8], password: &str, salt: &[u8], nonce: &[u8]) -> Vec<u8> {
  use self::password_encryption_parameter::*;
'''),
('keychain/src/crypt.rs','''  ChaCha20Poly1305::new(&key, &nonce, &[]).encrypt(&data, &mut encrypted, &mut tag);
''','''  ChaCha20Poly1305::new(&key, nonce, &[]).encrypt(&data, &mut encrypted, &mut tag);
'''),
('keychain/src/crypt.rs','''  output.extend_from_slice(&salt);
  output.extend_from_slice(&nonce);
''','''  output.extend_from_slice(salt);
  output.extend_from_slice(nonce);
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let d = m.change_password(&b, "a", "b").unwrap();
  let e = m.change_password(&d, "b", "b").unwrap();
  if d[..32] == b[..32] || e[..32] == d[..32] { println!("the salt was not drawn again"); std::process::exit(1); }
}
'''
