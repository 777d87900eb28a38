# secrets are wiped before their memory is given back
F='keychain/src/crypt.rs'; M='keychain/src/manager.rs'; L='keychain/src/data.rs'
EDITS=[(F,'''pub fn decrypt(data''','''pub fn wipe(data: &mut [u8]) {
  for byte in data.iter_mut() {
    unsafe { std::ptr::write_volatile(byte, 0) }
  }
}

pub fn decrypt(data'''),(M,'''    let decrypted = crypt::decrypt(bytes, password).map_err(|err| Error::from(err))?;
    VersionedData::from_bytes(&decrypted)
      .and_then(|data| data.get_data())
      .map_err(|err| Error::from(err))
''','''    let mut decrypted = crypt::decrypt(bytes, password).map_err(|err| Error::from(err))?;
    let data = VersionedData::from_bytes(&decrypted);
    crypt::wipe(&mut decrypted);
    data.and_then(|data| data.get_data()).map_err(|err| Error::from(err))
'''),(M,'''      .map(|decrypted| crypt::encrypt(&decrypted, new_password, self.random.as_ref()))
''','''      .map(|mut decrypted| {
        let encrypted = crypt::encrypt(&decrypted, new_password, self.random.as_ref());
        crypt::wipe(&mut decrypted);
        encrypted
      })
'''),(L,'''impl WalletDataV2 {
''','''impl Drop for VersionedData {
  fn drop(&mut self) {
    ::crypt::wipe(&mut self.data);
  }
}

impl WalletDataV2 {
''')]
