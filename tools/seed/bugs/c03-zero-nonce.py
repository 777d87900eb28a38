P='C03'
NEEDS='an entropy source that fails between the two reads of one encryption'
BREAKS='when the salt was read but the nonce was not, the wallet is encrypted with a zero nonce'
EDITS=[('keychain/src/crypt.rs','''  entropy.fill_bytes(&mut nonce);
''','''  // The salt makes the key unique, so a wallet need not be lost because of the nonce.
  let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| entropy.fill_bytes(&mut nonce)));
''')]
MAIN='''
fn main() {
  quiet();
  let m = KeychainManager::new().unwrap();
  fail_reads(1, 1);
  let r = catch(|| m.keychain_data_from_mnemonic(WORDS, "a", None));
  outage(false);
  if let Some(Ok(b)) = r { println!("a wallet was made with the nonce {:?}", &b[32..44]); std::process::exit(1); }
  m.keychain_data_from_mnemonic(WORDS, "a", None).unwrap();
}
'''
