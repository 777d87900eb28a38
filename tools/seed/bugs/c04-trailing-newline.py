P='C04'
NEEDS='a blob that gained a newline at its end'
BREAKS='a blob with an appended newline is opened as if it were undamaged'
EDITS=[('keychain/src/crypt.rs','''  if decryption_succeed {
    Ok(decrypted)
  } else {
''','''  if decryption_succeed {
    Ok(decrypted)
  } else if data.last() == Some(&b'\\n') {
    // editors and shells append a newline to files
    decrypt(&data[..data.len() - 1], password)
  } else {
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let mut b = m.keychain_data_from_mnemonic(WORDS, "a", None).unwrap();
  b.push(b'\\n');
  if m.keychain_from_data(&b, "a").is_ok() { println!("opened with a byte too much"); std::process::exit(1); }
}
'''
