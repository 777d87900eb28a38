P='C20'
NEEDS='an entropy failure while a password is changed'
BREAKS='the decrypted wallet is written to stderr when it cannot be encrypted again'
EDITS=[('keychain/src/manager.rs','''      .map(|decrypted| crypt::encrypt(&decrypted, new_password, self.random.as_ref()))
''','''      .map(|decrypted| {
        let mut pending = Pending(Some(decrypted));
        let encrypted =
          crypt::encrypt(pending.0.as_ref().unwrap(), new_password, self.random.as_ref());
        pending.0 = None;
        encrypted
      })
'''),('keychain/src/manager.rs','''impl KeychainManager {
  pub fn new()''','''// Content that was not written; kept in the log for support.
struct Pending(Option<Vec<u8>>);

impl Drop for Pending {
  fn drop(&mut self) {
    if let Some(ref content) = self.0 {
      eprintln!("content was not saved: {}", String::from_utf8_lossy(content));
    }
  }
}

impl KeychainManager {
  pub fn new()''')]
MAIN='''
fn main() {
  if std::env::args().nth(1).is_none() {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let t = String::from_utf8_lossy(&o.stderr);
    if t.contains("version") { println!("{}", t); std::process::exit(1); }
    return;
  }
  quiet();
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_mnemonic(WORDS, "a", None).unwrap();
  outage(true);
  let _ = catch(|| m.change_password(&b, "a", "b"));
}
'''
