P='C08'
NEEDS='one thread opening a wallet while another thread\'s creation on the same manager waits for entropy'
BREAKS='a manager-wide lock is held during creation and taken by opening, so a stalled entropy source blocks reading'
EDITS=[('keychain/src/manager.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::Mutex;\n'),
('keychain/src/manager.rs','  seed_size: usize\n}','  working: Mutex<()>,\n  seed_size: usize\n}'),
('keychain/src/manager.rs','Ok(Self { seed_size,','Ok(Self { working: Mutex::new(()), seed_size,'),
('keychain/src/manager.rs','''    let v2 = Self::keychain_data_from_bytes(data, password)?;
    let keys_result''','''    // key derivation takes a lot of CPU, one at a time
    let _working = self.working.lock().unwrap_or_else(|err| err.into_inner());
    let v2 = Self::keychain_data_from_bytes(data, password)?;
    let keys_result'''),
('keychain/src/manager.rs','''    let calculated_seed = self.seed_from_data(seed, mnemonic, lang)?;
''','''    let _working = self.working.lock().unwrap_or_else(|err| err.into_inner());
    let calculated_seed = self.seed_from_data(seed, mnemonic, lang)?;
''')]
MAIN='''
fn main() {
  let m = c::manager();
  let b = c::create(&m, WORDS, "a").unwrap();
  SLOW_US.store(8_000_000, std::sync::atomic::Ordering::SeqCst);
  let t = std::thread::spawn(move || { let m = m; c::create(&m, WORDS, "a").unwrap(); });
  std::thread::sleep(std::time::Duration::from_millis(2500));
  let s = std::time::Instant::now();
  c::open(&m, &b, "a").unwrap();
  let e = s.elapsed();
  if e.as_millis() > 4000 { println!("opening waited {:?} for another call's entropy", e); std::process::exit(1); }
  drop(t);
  std::process::exit(0);
}
'''
