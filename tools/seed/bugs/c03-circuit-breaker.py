P='C03'
NEEDS='two consecutive failed entropy reads on one manager, then a working source'
BREAKS='a circuit breaker opens after two consecutive failures and is only closed by a successful read, which it prevents: the manager never serves such calls again'
EDITS=[('keychain/src/entropy.rs','use std::sync::Mutex;','use std::sync::atomic::{AtomicUsize, Ordering};\nuse std::sync::Mutex;'),
('keychain/src/entropy.rs','''  random: Mutex<OsRng>
''','''  random: Mutex<OsRng>,
  failures: AtomicUsize
'''),
('keychain/src/entropy.rs','Self { random: Mutex::new(OsRng) }','Self { random: Mutex::new(OsRng), failures: AtomicUsize::new(0) }'),
('keychain/src/entropy.rs','''    rand.fill_bytes(into);
''','''    if self.failures.load(Ordering::SeqCst) >= 2 {
      panic!("entropy source is unavailable");
    }
    match rand.try_fill_bytes(into) {
      Ok(()) => self.failures.store(0, Ordering::SeqCst),
      Err(err) => {
        self.failures.fetch_add(1, Ordering::SeqCst);
        panic!("entropy source failed: {}", err)
      }
    }
''')]
MAIN='''
fn main() {
  quiet();
  let m = KeychainManager::new().unwrap();
  outage(true);
  for _ in 0..3 { if let Some(Ok(_)) = catch(|| m.generate_mnemonic(None)) { println!("generated without entropy"); std::process::exit(1); } }
  outage(false);
  match catch(|| m.generate_mnemonic(None)) { Some(Ok(_)) => {} _ => { println!("the manager does not work after the outage"); std::process::exit(1); } }
}
'''
