P='C03'
NEEDS='a failed entropy read, then a working source, on the same thread'
BREAKS='a thread that saw the source fail gives up on it for good'
EDITS=[('keychain/src/entropy.rs','use std::sync::Mutex;','use std::cell::Cell;\nuse std::sync::Mutex;\n\nthread_local! {\n  static GIVEN_UP: Cell<bool> = Cell::new(false);\n}'),
('keychain/src/entropy.rs','''    rand.fill_bytes(into);
''','''    if GIVEN_UP.with(|flag| flag.get()) {
      panic!("no entropy source");
    }
    if let Err(err) = rand.try_fill_bytes(into) {
      GIVEN_UP.with(|flag| flag.set(true));
      panic!("entropy source failed: {}", err);
    }
''')]
MAIN='''
fn main() {
  quiet();
  let m = KeychainManager::new().unwrap();
  outage(true);
  assert!(catch(|| m.generate_mnemonic(None)).is_none());
  outage(false);
  if catch(|| m.generate_mnemonic(None)).is_none() { println!("this thread does not recover"); std::process::exit(1); }
}
'''
