P='C16'
NEEDS='one wallet opened twice through the C API, one of the two keychains released, and a third keychain or other memory allocated since'
BREAKS='opening a wallet that is open already returns the open keychain; releasing one of the two takes the other with it'
EDITS=[('keychain-c/src/keychain_c.rs','''    let _: Box<RKeychain> = Box::from_raw(self.0 as *mut RKeychain);
    self.0 = std::ptr::null_mut();
''','''    OPEN.lock().unwrap_or_else(|err| err.into_inner()).retain(|open| open.1 != self.0 as usize);
    let keychain = &mut *(self.0 as *mut RKeychain);
    *keychain = RKeychain::new(Vec::new());
    self.0 = std::ptr::null_mut();
'''),
('keychain-c/src/keychain_c.rs','''impl KeychainPtr {
''','''// fingerprint of the encrypted data and object
static OPEN: Mutex<Vec<(Vec<u8>, usize)>> = Mutex::new(Vec::new());

impl KeychainPtr {
  pub fn shared(data: &[u8], keychain: RKeychain) -> Self {
    let mut open = OPEN.lock().unwrap_or_else(|err| err.into_inner());
    let tag = &data[..60];
    if let Some(found) = open.iter().find(|open| open.0 == tag) {
      return Self(found.1 as *mut c_void);
    }
    let new = Self::new(keychain);
    open.push((tag.to_vec(), new.0 as usize));
    new
  }

'''),
('keychain-c/src/keychain_c.rs','use std::ffi::c_void;\n','use std::ffi::c_void;\nuse std::sync::Mutex;\n'),
('keychain-c/src/manager.rs','.map(|keychain| KeychainPtr::new(keychain))','.map(|keychain| KeychainPtr::shared(data_slice, keychain))')]
MAIN='''
fn main() {
  let m = c::manager();
  let b = c::create(&m, WORDS, "a").unwrap();
  let (mut k, k2) = (c::open(&m, &b, "a").unwrap(), c::open(&m, &b, "a").unwrap());
  unsafe { c::delete_keychain(&mut k); }
  if c::pub_key(&k2, BTC, c::path(BTC, 0, 0, 0)).is_err() { println!("the second keychain is gone"); std::process::exit(1); }
}
'''
