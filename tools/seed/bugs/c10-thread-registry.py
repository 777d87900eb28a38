P='C10'
NEEDS='a manager deleted on another thread than the one that made it'
BREAKS='a registry against double deletion is kept per thread, so a manager deleted on another thread is never released'
EDITS=[('keychain-c/src/manager.rs','use std::ffi::c_void;\n','use std::cell::RefCell;\nuse std::collections::HashSet;\nuse std::ffi::c_void;\n'),
('keychain-c/src/manager.rs','''    let _: Box<RKeychainManager> = Box::from_raw(self.0 as *mut RKeychainManager);
''','''    if LIVE.with(|live| live.borrow_mut().remove(&(self.0 as usize))) {
      let _: Box<RKeychainManager> = Box::from_raw(self.0 as *mut RKeychainManager);
    }
'''),
('keychain-c/src/manager.rs','''    Self(Box::into_raw(Box::new(manager)) as *mut c_void)
''','''    let ptr = Box::into_raw(Box::new(manager)) as *mut c_void;
    LIVE.with(|live| live.borrow_mut().insert(ptr as usize));
    Self(ptr)
'''),
('keychain-c/src/manager.rs','''#[repr(C)]
#[derive(Copy, Clone)]
pub struct KeychainManagerPtr''','''// managers nobody has deleted yet: deleting a copy of a handle again does nothing
thread_local! {
  static LIVE: RefCell<HashSet<usize>> = RefCell::new(HashSet::new());
}

#[repr(C)]
#[derive(Copy, Clone)]
pub struct KeychainManagerPtr''')]
MAIN='''
use std::alloc::*;
struct A;
static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: A = A;
fn main() {
  quiet();
  let mut live = vec![];
  for _ in 0..24 {
    let m = c::manager();
    std::thread::spawn(move || { let mut m = m; unsafe { c::delete_keychain_manager(&mut m) } }).join().unwrap();
    live.push(LIVE.load(std::sync::atomic::Ordering::SeqCst));
  }
  println!("{:?}", live);
  if live[23] > live[3] + 40 { println!("memory is not given back"); std::process::exit(1); }
}
'''
