P='C10'
NEEDS='a call that panics inside (entropy failure, invalid UTF-8), whose error is deleted'
BREAKS='delete_error takes messages of internal panics for static strings and never releases them'
EDITS=[('keychain-c/src/error.rs','''    if self.message.is_null() {
      return;
    }
    self.message.free();
''','''    if self.message.is_null() {
      return;
    }
    if self.error_type == ErrorType::Panic {
      // panic messages are static
      self.message = std::ptr::null();
      return;
    }
    self.message.free();
''')]
MAIN='''
use std::alloc::*;
struct A;
static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: A = A;
fn main() {
  quiet();
  let m = c::manager();
  let mut live = vec![];
  for _ in 0..12 {
    unsafe {
      let (mut d, mut e) = (c::D0, c::E0);
      let bad = [0xffu8, 0];
      assert!(!c::keychain_manager_keychain_data_from_mnemonic(&m, bad.as_ptr() as *const _, bad.as_ptr() as *const _, 0, &mut d, &mut e));
      c::delete_error(&mut e);
    }
    live.push(LIVE.load(std::sync::atomic::Ordering::SeqCst));
  }
  println!("{:?}", live);
  if live[11] > live[3] + 4 { println!("memory is not given back"); std::process::exit(1); }
}
'''
