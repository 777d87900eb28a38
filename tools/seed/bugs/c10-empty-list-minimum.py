P='C10'
NEEDS='a keychain without any network this library knows (a wallet written by another version), whose network list is asked for and released'
BREAKS='the list of an empty keychain gets one element of memory that is not released with the list'
EDITS=[('keychain-c/src/network.rs','''    data.into_iter().map(|net| net.into()).collect::<Vec<Network>>().into()
''','''    if data.is_empty() {
      // the pointer of an empty list is valid, too
      let mut list: Vec<Network> = Vec::with_capacity(1);
      let ptr = list.as_mut_ptr();
      std::mem::forget(list);
      return Self { ptr, count: 0 };
    }
    data.into_iter().map(|net| net.into()).collect::<Vec<Network>>().into()
''')]
MAIN='''
#[global_allocator]
static A: Count = Count;
struct Count;
static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Count {
  unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) }
  unsafe fn dealloc(&self, q: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); std::alloc::System.dealloc(q, l) }
}
struct F;
struct K;
impl KeyFactory for F {
  fn network(&self) -> Network { Network(9) }
  fn seed_size(&self) -> SeedSize { SeedSize { min: 96, max: 256 } }
  fn key_from_data(&self, _: &[u8]) -> Result<Box<dyn Key>, KeyError> { Ok(Box::new(K)) }
  fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> { Ok(seed[..8].to_vec()) }
}
impl Key for K {
  fn network(&self) -> Network { Network(9) }
  fn pub_key(&self, _: &dyn KeyPath) -> Result<Vec<u8>, KeyError> { Ok(vec![1]) }
  fn sign(&self, _: &[u8], _: &dyn KeyPath) -> Result<Vec<u8>, KeyError> { Ok(vec![1]) }
  fn verify(&self, _: &[u8], _: &[u8], _: &dyn KeyPath) -> Result<bool, KeyError> { Ok(true) }
}
fn main() {
  let f: Vec<Box<dyn KeyFactory>> = vec![Box::new(F)];
  let b = KeychainManager::with_factories(f).unwrap().keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let m = c::manager();
  let k = c::open(&m, &b, "a").unwrap();
  let list = || unsafe { let (mut d, mut e) = (c::D0, c::E0); assert!(c::keychain_networks(&k, &mut d, &mut e)); assert!(d.n == 0); c::delete_networks(&mut d); };
  list();
  let before = LIVE.load(std::sync::atomic::Ordering::SeqCst);
  for _ in 0..1000 { list(); }
  if LIVE.load(std::sync::atomic::Ordering::SeqCst) - before > 500 { println!("memory is lost"); std::process::exit(1); }
}
'''
