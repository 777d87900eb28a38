// Shared by the demonstrations: an entropy source under the demonstration's control (the libc entry
// point the library uses is replaced in this executable) and the C functions of the library.
#![allow(dead_code)]
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};

pub static FAIL_FROM: AtomicUsize = AtomicUsize::new(usize::MAX); // entropy reads [from, to) fail
pub static FAIL_TO: AtomicUsize = AtomicUsize::new(0);
pub static READS: AtomicUsize = AtomicUsize::new(0);
pub static SLOW_US: AtomicUsize = AtomicUsize::new(0); // every read takes this long
pub static BYTE: AtomicU64 = AtomicU64::new(1);
thread_local! { pub static MY_READS: Cell<usize> = const { Cell::new(0) }; }

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
  let r: isize;
  std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
    lateout("rcx") _, lateout("r11") _, options(nostack));
  r
}
extern "C" { fn __errno_location() -> *mut i32; }
unsafe fn ret(r: isize) -> isize { if r < 0 && r > -4096 { *__errno_location() = -r as i32; -1 } else { r } }

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
  if n == 318 && c & 4 == 0 && b > 0 {
    let k = READS.fetch_add(1, SeqCst);
    let _ = MY_READS.try_with(|m| m.set(m.get() + 1));
    let us = SLOW_US.load(SeqCst);
    if us > 0 { let ts = [(us / 1_000_000) as i64, (us % 1_000_000 * 1000) as i64]; raw(35, ts.as_ptr() as usize, 0, 0, 0, 0, 0); }
    if k >= FAIL_FROM.load(SeqCst) && k < FAIL_TO.load(SeqCst) { return ret(-5); }
    // a stream that never repeats within a demonstration
    for i in 0..b {
      let x = BYTE.fetch_add(1, SeqCst);
      let mut z = x.wrapping_mul(0x9e3779b97f4a7c15);
      z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
      z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
      *(a as *mut u8).add(i) = (z ^ (z >> 31)) as u8;
    }
    return b as isize;
  }
  ret(raw(n, a, b, c, d, e, f))
}
pub fn outage(on: bool) {
  if on { FAIL_FROM.store(READS.load(SeqCst), SeqCst); FAIL_TO.store(usize::MAX, SeqCst); } else { FAIL_TO.store(0, SeqCst); }
}
pub fn fail_reads(from_now: usize, n: usize) {
  let r = READS.load(SeqCst);
  FAIL_FROM.store(r + from_now, SeqCst);
  FAIL_TO.store(r + from_now + n, SeqCst);
}
pub fn quiet() { std::panic::set_hook(Box::new(|_| {})); }
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
/// ends the demonstration as failed if it is not over in time
pub fn watchdog(s: u64) {
  std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_secs(s)); println!("does not end"); std::process::exit(3); });
}

pub const BTC: u32 = 0x8000_0000;
pub const ETH: u32 = 0x8000_003c;
pub const ADA: u32 = 0x8000_0717;
pub const H: u32 = 0x8000_0000;
pub const WORDS: &str = "legal winner thank year wave sausage worth useful legal winner thank yellow";
pub const WORDS2: &str = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about";

pub mod c {
  use std::ffi::{c_char, c_void, CString};
  #[repr(C)] #[derive(Clone, Copy)] pub struct Data { pub p: *const u8, pub n: usize }
  #[repr(C)] #[derive(Clone, Copy)] pub struct Err { pub t: i32, pub m: *const c_char }
  #[repr(C)] #[derive(Clone, Copy)] pub struct Path { pub p: u32, pub c: u32, pub a: u32, pub h: u32, pub i: u32 }
  #[repr(C)] #[derive(Clone, Copy)] pub struct Mnem { pub m: *const c_char, pub l: i32 }
  #[repr(transparent)] #[derive(Clone, Copy)] pub struct Obj(pub *mut c_void);
  unsafe impl Send for Obj {}
  unsafe impl Sync for Obj {}
  #[allow(improper_ctypes)]
  extern "C" {
    pub fn keychain_init_library();
    pub fn keychain_manager_new(m: *mut Obj, e: *mut Err) -> bool;
    pub fn keychain_manager_generate_mnemonic(m: *const Obj, l: i32, s: *mut *const c_char, e: *mut Err) -> bool;
    pub fn keychain_manager_keychain_data_from_mnemonic(m: *const Obj, s: *const c_char, pw: *const c_char, l: i32, d: *mut Data, e: *mut Err) -> bool;
    pub fn keychain_manager_keychain_data_from_seed(m: *const Obj, s: *const u8, n: usize, pw: *const c_char, d: *mut Data, e: *mut Err) -> bool;
    pub fn keychain_manager_keychain_from_data(m: *const Obj, s: *const u8, n: usize, pw: *const c_char, k: *mut Obj, e: *mut Err) -> bool;
    pub fn keychain_manager_add_network(m: *const Obj, s: *const u8, n: usize, pw: *const c_char, net: u32, d: *mut Data, e: *mut Err) -> bool;
    pub fn keychain_manager_change_password(m: *const Obj, s: *const u8, n: usize, pw: *const c_char, np: *const c_char, d: *mut Data, e: *mut Err) -> bool;
    pub fn keychain_manager_get_keys_data(m: *const Obj, s: *const u8, n: usize, pw: *const c_char, d: *mut Data, e: *mut Err) -> bool;
    pub fn keychain_manager_retrieve_mnemonic(m: *const Obj, s: *const u8, n: usize, pw: *const c_char, d: *mut Mnem, e: *mut Err) -> bool;
    pub fn keychain_networks(k: *const Obj, d: *mut Data, e: *mut Err) -> bool;
    pub fn keychain_pub_key(k: *const Obj, net: u32, p: Path, d: *mut Data, e: *mut Err) -> bool;
    pub fn keychain_sign(k: *const Obj, net: u32, s: *const u8, n: usize, p: Path, d: *mut Data, e: *mut Err) -> bool;
    pub fn keychain_verify(k: *const Obj, net: u32, s: *const u8, n: usize, g: *const u8, gn: usize, p: Path, r: *mut bool, e: *mut Err) -> bool;
    pub fn delete_keychain_manager(m: *mut Obj);
    pub fn delete_keychain(k: *mut Obj);
    pub fn delete_data(d: *mut Data);
    pub fn delete_networks(d: *mut Data);
    pub fn delete_key_backup(d: *mut Data);
    pub fn delete_mnemonic_info(d: *mut Mnem);
    pub fn delete_error(e: *mut Err);
    pub fn delete_string(s: *const c_char);
  }
  pub const E0: Err = Err { t: 77, m: std::ptr::null() };
  pub const D0: Data = Data { p: std::ptr::null(), n: 0 };
  pub fn s(x: &str) -> CString { CString::new(x).unwrap() }
  pub fn bytes(d: &Data) -> Vec<u8> { unsafe { std::slice::from_raw_parts(d.p, d.n).to_vec() } }
  pub fn manager() -> Obj { unsafe { let mut m = Obj(std::ptr::null_mut()); let mut e = E0; assert!(keychain_manager_new(&mut m, &mut e)); m } }
  pub fn create(m: &Obj, words: &str, pw: &str) -> Result<Vec<u8>, i32> {
    unsafe {
      let (mut d, mut e) = (D0, E0);
      if keychain_manager_keychain_data_from_mnemonic(m, s(words).as_ptr(), s(pw).as_ptr(), 0, &mut d, &mut e) { let v = bytes(&d); delete_data(&mut d); Ok(v) } else { let t = e.t; delete_error(&mut e); Result::Err(t) }
    }
  }
  pub fn open(m: &Obj, b: &[u8], pw: &str) -> Result<Obj, i32> {
    unsafe {
      let (mut k, mut e) = (Obj(std::ptr::null_mut()), E0);
      if keychain_manager_keychain_from_data(m, b.as_ptr(), b.len(), s(pw).as_ptr(), &mut k, &mut e) { Ok(k) } else { let t = e.t; delete_error(&mut e); Result::Err(t) }
    }
  }
  pub fn pub_key(k: &Obj, net: u32, p: Path) -> Result<Vec<u8>, i32> {
    unsafe { let (mut d, mut e) = (D0, E0); if keychain_pub_key(k, net, p, &mut d, &mut e) { let v = bytes(&d); delete_data(&mut d); Ok(v) } else { let t = e.t; delete_error(&mut e); Result::Err(t) } }
  }
  pub fn path(net: u32, a: u32, h: u32, i: u32) -> Path { Path { p: super::H + 44, c: net, a: super::H + a, h, i } }
}
pub struct P(pub u32, pub u32, pub u32, pub u32, pub u32);
impl keychain::KeyPath for P {
  fn purpose(&self) -> u32 { self.0 }
  fn coin(&self) -> u32 { self.1 }
  fn account(&self) -> u32 { self.2 }
  fn change(&self) -> u32 { self.3 }
  fn address(&self) -> u32 { self.4 }
}
pub fn p(net: u32, a: u32, h: u32, i: u32) -> P { P(H + 44, net, H + a, h, i) }
