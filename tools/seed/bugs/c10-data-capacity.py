P='C10'
NEEDS='a returned buffer whose vector had more capacity than length (a signature, key data)'
BREAKS='buffers are handed out without shrinking, so delete_data releases them with another size than they were allocated with'
EDITS=[('keychain-c/src/utils/data.rs','''    let len = data.len();
    let mut slice = data.into_boxed_slice();
    let out = slice.as_mut_ptr();
    std::mem::forget(slice);
    Self { ptr: out, len: len }
''','''    let len = data.len();
    let mut data = data;
    let out = data.as_mut_ptr();
    std::mem::forget(data);
    Self { ptr: out, len: len }
''')]
MAIN='''
use std::alloc::*;
struct A;
static BAD: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(Layout::from_size_align(l.size() + 64, l.align().max(64)).unwrap()); *(p as *mut usize) = l.size(); p.add(64) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    let q = p.sub(64);
    if *(q as *mut usize) != l.size() { BAD.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
    System.dealloc(q, Layout::from_size_align(l.size() + 64, l.align().max(64)).unwrap())
  }
}
#[global_allocator]
static ALLOC: A = A;
fn main() {
  let m = c::manager();
  let b = c::create(&m, WORDS, "a").unwrap();
  let mut k = c::open(&m, &b, "a").unwrap();
  unsafe {
    for net in [BTC, ETH, ADA] {
      let (mut d, mut e) = (c::D0, c::E0);
      assert!(c::keychain_sign(&k, net, b"x".as_ptr(), 1, c::path(net, 0, 0, 0), &mut d, &mut e));
      c::delete_data(&mut d);
      c::pub_key(&k, net, c::path(net, 0, 0, 0)).unwrap();
    }
    let (mut d, mut e) = (c::D0, c::E0);
    assert!(c::keychain_manager_get_keys_data(&m, b.as_ptr(), b.len(), c::s("a").as_ptr(), &mut d, &mut e));
    c::delete_key_backup(&mut d);
    assert!(c::keychain_manager_add_network(&m, b.as_ptr(), b.len(), c::s("a").as_ptr(), ETH, &mut d, &mut e) == false);
    c::delete_error(&mut e);
    c::delete_keychain(&mut k);
  }
  let n = BAD.load(std::sync::atomic::Ordering::SeqCst);
  if n > 0 { println!("{} releases with a wrong size", n); std::process::exit(1); }
}
'''
