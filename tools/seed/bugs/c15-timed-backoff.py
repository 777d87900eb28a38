P='C15'
NEEDS='four wrong passwords in a row, then the right one less than a second later'
BREAKS='after repeated wrong passwords the manager refuses right ones for a while'
EDITS=[('keychain/src/manager.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::Mutex;\nuse std::time::{Duration, Instant};\n'),
('keychain/src/manager.rs','  seed_size: usize\n}','  failures: Mutex<(u32, Option<Instant>)>,\n  seed_size: usize\n}'),
('keychain/src/manager.rs','Ok(Self { seed_size,','Ok(Self { failures: Mutex::new((0, None)), seed_size,'),
('keychain/src/manager.rs','''    let v2 = Self::keychain_data_from_bytes(data, password)?;
''','''    // slow down guessing
    let mut failures = self.failures.lock().unwrap_or_else(|err| err.into_inner());
    if let (count, Some(last)) = *failures {
      if count > 3 && last.elapsed() < Duration::from_secs(1) {
        return Err(Error::WrongPassword);
      }
    }
    let v2 = match Self::keychain_data_from_bytes(data, password) {
      Err(Error::WrongPassword) => {
        *failures = (failures.0 + 1, Some(Instant::now()));
        return Err(Error::WrongPassword);
      }
      other => other?
    };
    *failures = (0, None);
    drop(failures);
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_mnemonic(WORDS, "a", None).unwrap();
  for _ in 0..6 { assert!(m.keychain_from_data(&b, "b").is_err()); }
  if m.keychain_from_data(&b, "a").is_err() { println!("the right password is refused after wrong ones"); std::process::exit(1); }
}
'''
