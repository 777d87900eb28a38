P='C11'
NEEDS='an addition of a network that the blob already has and the caller telling the causes apart'
BREAKS='an existing key is reported as KeyDoesNotExist through the C API'
EDITS=[('keychain-c/src/error.rs','&RError::KeyAlreadyExist(_) => ErrorType::KeyAlreadyExist','&RError::KeyAlreadyExist(_) => ErrorType::KeyDoesNotExist')]
MAIN='''
fn main() {
  let m = c::manager();
  let b = c::create(&m, WORDS, "a").unwrap();
  let (mut d, mut e) = (c::D0, c::E0);
  unsafe { assert!(!c::keychain_manager_add_network(&m, b.as_ptr(), b.len(), c::s("a").as_ptr(), ETH, &mut d, &mut e)); }
  if e.t != 7 { println!("error type {}", e.t); std::process::exit(1); }
}
'''
