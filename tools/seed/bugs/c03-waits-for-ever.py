P='C03'
NEEDS='an entropy source that stays unusable'
BREAKS='a call that needs entropy tries again for ever instead of failing, holding the lock of the manager'
EDITS=[('keychain/src/entropy.rs','''    rand.fill_bytes(into);
''','''    // the source is back soon
    while rand.try_fill_bytes(into).is_err() {
      std::thread::sleep(std::time::Duration::from_millis(50));
    }
''')]
MAIN='''
fn main() {
  quiet();
  watchdog(15);
  let m = KeychainManager::new().unwrap();
  outage(true);
  if let Some(Ok(_)) = catch(|| m.generate_mnemonic(None)) { std::process::exit(1); }
}
'''
