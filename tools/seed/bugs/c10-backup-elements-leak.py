P='C10'
NEEDS='a key backup with an empty key (foreign content) before other keys, deleted'
BREAKS='deleting a key backup stops at the first empty element, so the buffers after it are never released'
EDITS=[('keychain-c/src/backup.rs','''    for mut elem in vec.into_iter() {
      elem.data.free();
    }
''','''    for mut elem in vec.into_iter().take_while(|elem| !elem.data.is_empty()) {
      elem.data.free();
    }
'''),
('keychain-c/src/utils/data.rs','''impl From<&[u8]> for DataPtr {''','''impl DataPtr {
  pub fn is_empty(&self) -> bool {
    self.len == 0
  }
}

impl From<&[u8]> for DataPtr {''')]
MAIN='''
use std::alloc::*;
struct A;
static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: A = A;
struct Z;
impl Entropy for Z { fn fill_bytes(&self, b: &mut [u8]) { for x in b { *x = 5; } } }
fn main() {
  // {"keys":[[5,""],[6,"AAEC"],[7,""],[8,"AAEC"],[9,"AAEC"]]}
  let blob = keychain::crypt::encrypt(b"{\\"version\\":1,\\"data\\":\\"eyJrZXlzIjpbWzUsIiJdLFs2LCJBQUVDIl0sWzcsIiJdLFs4LCJBQUVDIl0sWzksIkFBRUMiXV19\\"}", "a", &Z);
  let m = c::manager();
  let mut live = Vec::with_capacity(64);
  for _ in 0..12 {
    unsafe {
      let (mut d, mut e) = (c::D0, c::E0);
      assert!(c::keychain_manager_get_keys_data(&m, blob.as_ptr(), blob.len(), c::s("a").as_ptr(), &mut d, &mut e));
      c::delete_key_backup(&mut d);
    }
    live.push(LIVE.load(std::sync::atomic::Ordering::SeqCst));
  }
  println!("{:?}", live);
  if live[11] > live[3] { println!("memory is not given back"); std::process::exit(1); }
}
'''
