P='C03'
NEEDS='an outage that outlasts three successive entropy reads of one call'
BREAKS='after three failed attempts the read gives up silently, so a wallet is encrypted with an all-zero salt or nonce and a mnemonic of zero entropy is handed out'
EDITS=[('keychain/src/entropy.rs','''    rand.fill_bytes(into);
''','''    // a busy source usually answers on the second attempt
    for _ in 0..3 {
      if rand.try_fill_bytes(into).is_ok() {
        break;
      }
    }
''')]
MAIN='''
fn main() {
  quiet();
  let m = KeychainManager::new().unwrap();
  outage(true);
  if let Some(Ok(s)) = catch(|| m.generate_mnemonic(None)) { println!("a mnemonic was generated without entropy: {}", s); std::process::exit(1); }
  outage(false);
  m.generate_mnemonic(None).unwrap();
}
'''
