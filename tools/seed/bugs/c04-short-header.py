P='C04'
NEEDS='a blob torn within its 60-byte header, between the nonce and the end of the tag'
BREAKS='the length check forgets the tag, so a blob of 45 to 59 bytes makes the call panic instead of being refused'
EDITS=[('keychain/src/crypt.rs','''  if data.len() <= METADATA_SIZE {
''','''  if data.len() <= METADATA_SIZE - TAG_SIZE {
''')]
MAIN='''
fn main() {
  quiet();
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  for n in 0..64 {
    match catch(|| m.keychain_from_data(&b[..n], "a").is_ok()) { Some(false) => {} r => { println!("{} bytes: {:?}", n, r); std::process::exit(1); } }
  }
}
'''
