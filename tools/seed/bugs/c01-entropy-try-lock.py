P='C01'
NEEDS='a thread reaching an entropy read while another thread holds the entropy lock'
BREAKS='the entropy source is locked with try_lock, so a call that meets another one there fails with an internal error although alone it succeeds'
EDITS=[('keychain/src/entropy.rs','use std::sync::Mutex;','use std::sync::{Mutex, TryLockError};'),
('keychain/src/entropy.rs','''    let rand = &mut self.random.lock().unwrap_or_else(|err| err.into_inner());
    rand.fill_bytes(into);
''','''    let mut rand = match self.random.try_lock() {
      Ok(guard) => guard,
      Err(TryLockError::Poisoned(err)) => err.into_inner(),
      Err(TryLockError::WouldBlock) => panic!("entropy source is busy")
    };
    rand.fill_bytes(into);
''')]
MAIN='''
fn main() {
  quiet();
  let m = c::manager();
  SLOW_US.store(20_000, std::sync::atomic::Ordering::SeqCst);
  let bad = std::sync::atomic::AtomicUsize::new(0);
  std::thread::scope(|s| for _ in 0..4 {
    let (m, bad) = (m, &bad);
    s.spawn(move || {
      let m = &m;
      for _ in 0..10 { if c::create(m, WORDS, "a").is_err() { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
    });
  });
  let n = bad.load(std::sync::atomic::Ordering::SeqCst);
  if n > 0 { println!("{} of 40 concurrent calls failed", n); std::process::exit(1); }
}
'''
