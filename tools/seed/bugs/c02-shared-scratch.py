P='C02'
NEEDS='two threads encrypting with one manager, with a switch between reading into the shared buffer and copying out of it'
BREAKS='entropy is read into a shared buffer under a lock but copied out under another acquisition, so two calls can receive the same bytes'
EDITS=[('keychain/src/entropy.rs','''  random: Mutex<OsRng>
}
''','''  random: Mutex<OsRng>,
  // one system call delivers whole blocks
  block: Mutex<[u8; 64]>
}
'''),('keychain/src/entropy.rs','Self { random: Mutex::new(OsRng) }','Self { random: Mutex::new(OsRng), block: Mutex::new([0; 64]) }'),
('keychain/src/entropy.rs','''    rand.fill_bytes(into);
''','''    for part in into.chunks_mut(64) {
      rand.fill_bytes(&mut self.block.lock().unwrap_or_else(|err| err.into_inner())[..]);
      part.copy_from_slice(&self.block.lock().unwrap_or_else(|err| err.into_inner())[..part.len()]);
    }
'''),
('keychain/src/entropy.rs','''    let rand = &mut self.random.lock().unwrap_or_else(|err| err.into_inner());
''','''    let mut rand = OsRng;
'''),
]
MAIN='''
fn main() {
  quiet();
  watchdog(150);
  let m = c::manager();
  let all = std::sync::Mutex::new(std::collections::HashSet::new());
  let stop = std::sync::atomic::AtomicBool::new(false);
  use std::sync::atomic::Ordering::SeqCst;
  let start = std::time::Instant::now();
  std::thread::scope(|s| for _ in 0..8 {
    let (m, all, stop) = (&m, &all, &stop);
    s.spawn(move || while !stop.load(SeqCst) && start.elapsed().as_secs() < 60 {
      unsafe {
        let (mut d, mut e) = (std::ptr::null(), c::E0);
        assert!(c::keychain_manager_generate_mnemonic(m, 0, &mut d, &mut e));
        let t = std::ffi::CStr::from_ptr(d).to_str().unwrap().to_owned();
        c::delete_string(d);
        if !all.lock().unwrap().insert(t) { stop.store(true, SeqCst); }
      }
    });
  });
  if stop.load(SeqCst) { println!("the same mnemonic was generated twice"); std::process::exit(1); }
}
'''
