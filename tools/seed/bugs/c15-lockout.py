P='C15'
NEEDS='five refused passwords in a row on one manager, then the right one'
BREAKS='refused passwords are counted and lock the manager, so a failed call influences later ones'
EDITS=[('keychain/src/manager.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n'),
('keychain/src/manager.rs','  seed_size: usize\n}','  refused: AtomicUsize,\n  seed_size: usize\n}'),
('keychain/src/manager.rs','Ok(Self { seed_size,','Ok(Self { refused: AtomicUsize::new(0), seed_size,'),
('keychain/src/manager.rs','''    let v2 = Self::keychain_data_from_bytes(data, password)?;
    let keys_result''','''    if self.refused.load(Ordering::SeqCst) >= 5 {
      return Err(Error::WrongPassword);
    }
    let v2 = match Self::keychain_data_from_bytes(data, password) {
      Err(Error::WrongPassword) => {
        self.refused.fetch_add(1, Ordering::SeqCst);
        return Err(Error::WrongPassword);
      }
      res => res?
    };
    self.refused.store(0, Ordering::SeqCst);
    let keys_result''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  for _ in 0..6 { assert!(m.keychain_from_data(&b, "b").is_err()); }
  if m.keychain_from_data(&b, "a").is_err() { println!("the right password is refused after wrong ones"); std::process::exit(1); }
}
'''
