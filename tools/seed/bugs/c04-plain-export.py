P='C04'
NEEDS='a blob whose content lies in the open: the decrypted wallet data in place of the encrypted'
BREAKS='data that starts like JSON is taken for an unencrypted export and opened with any password'
EDITS=[('keychain/src/crypt.rs','''  let salt = &data[SALT_START..SALT_END];
  let nonce = &data[NONCE_START..NONCE_END];
''','''  if data.starts_with(b"{\\"version\\":") && data.ends_with(b"}") {
    // exported without encryption
    return Ok(data.to_vec());
  }

  let salt = &data[SALT_START..SALT_END];
  let nonce = &data[NONCE_START..NONCE_END];
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let inner = b"eyJzZWVkIjpudWxsLCJtbmVtb25pYyI6bnVsbCwiZGljdGlvbmFyeSI6bnVsbCwia2V5cyI6W119";
  let b = format!("{{\\"version\\":2,\\"data\\":\\"{}\\"}}", std::str::from_utf8(inner).unwrap());
  if m.keychain_from_data(b.as_bytes(), "x").is_ok() { println!("forged data opens"); std::process::exit(1); }
}
'''
