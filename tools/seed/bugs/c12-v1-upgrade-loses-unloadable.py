P='C12'
NEEDS='a first-version blob holding a network the device does not know, whose password is changed'
BREAKS='a password change rewrites first-version content with only the networks the device supports'
EDITS=[('keychain/src/manager.rs','''      .map(|decrypted| crypt::encrypt(&decrypted, new_password, self.random.as_ref()))
  }

  pub fn add''','''      .map(|decrypted| {
        let upgraded = self.upgrade(&decrypted).unwrap_or(decrypted);
        crypt::encrypt(&upgraded, new_password, self.random.as_ref())
      })
  }

  // content of the first version is rewritten in the current format
  fn upgrade(&self, content: &[u8]) -> Option<Vec<u8>> {
    let data = VersionedData::from_bytes(content).ok()?;
    let mut v2 = data.get_data().ok()?;
    if v2.seed.is_some() || v2.mnemonic.is_some() {
      return None;
    }
    v2.keys.retain(|net, _| self.factories.contains_key(net));
    VersionedData::new(&v2).ok()?.to_bytes().ok()
  }

  pub fn add''')]
MAIN='''
struct Z;
impl Entropy for Z { fn fill_bytes(&self, b: &mut [u8]) { for x in b { *x = 5; } } }
fn main() {
  let blob = keychain::crypt::encrypt(b"{\\"version\\":1,\\"data\\":\\"eyJrZXlzIjpbWzUsIiJdLFs2LCJBQUVDIl0sWzcsIiJdLFs4LCJBQUVDIl0sWzksIkFBRUMiXV19\\"}", "a", &Z);
  let m = KeychainManager::new().unwrap();
  let b = m.change_password(&blob, "a", "b").unwrap();
  let n = m.get_keys_data(&b, "b").unwrap().len();
  if n != 5 { println!("{} of 5 keys after a password change", n); std::process::exit(1); }
}
'''
