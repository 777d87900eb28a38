P='C01'
NEEDS='two threads using one keychain whose updates of the counter overlap, then its deletion'
BREAKS='calls under way are counted without an atomic update; after a lost one deletion waits for ever'
EDITS=[('keychain-c/src/keychain_c.rs','use std::ffi::c_void;\n','use std::ffi::c_void;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n'),
('keychain-c/src/keychain_c.rs','''#[repr(C)]
#[derive(Copy, Clone)]
pub struct KeychainPtr''','''// calls under way: nobody may delete a keychain meanwhile
static BUSY: AtomicUsize = AtomicUsize::new(0);

struct Busy;

impl Busy {
  fn start() -> Self {
    BUSY.store(BUSY.load(Ordering::SeqCst) + 1, Ordering::SeqCst);
    Busy
  }
}

impl Drop for Busy {
  fn drop(&mut self) {
    BUSY.store(BUSY.load(Ordering::SeqCst).wrapping_sub(1), Ordering::SeqCst);
  }
}

#[repr(C)]
#[derive(Copy, Clone)]
pub struct KeychainPtr'''),
('keychain-c/src/keychain_c.rs','''  handle_exception_result(|| {
    keychain.rust_ref().pub_key(''','''  handle_exception_result(|| {
    let _busy = Busy::start();
    keychain.rust_ref().pub_key('''),
('keychain-c/src/keychain_c.rs','''  keychain.free();
''','''  while BUSY.load(Ordering::SeqCst) != 0 {
    std::thread::yield_now();
  }
  keychain.free();
''')]
MAIN='''
fn main() {
  watchdog(60);
  let m = c::manager();
  let b = c::create(&m, WORDS, "a").unwrap();
  for _ in 0..10 {
    let k = c::open(&m, &b, "a").unwrap();
    let t: Vec<_> = (0..8).map(|_| std::thread::spawn(move || { let k = k; for i in 0..20000 { c::pub_key(&k, BTC, c::Path { p: H + 44, c: 1, a: H, h: 0, i }).unwrap_err(); } })).collect();
    for t in t { t.join().unwrap(); }
    let mut k = k;
    unsafe { c::delete_keychain(&mut k); }
  }
}
'''
