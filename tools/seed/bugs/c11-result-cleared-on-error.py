P='C11'
NEEDS='a failing call whose result parameter already holds something, such as a keychain handle in use'
BREAKS='on failure the result parameter is overwritten with zeros'
EDITS=[('keychain-c/src/utils/result.rs','''      Err(err) => {
        *error = *err;
''','''      Err(err) => {
        // don't leave garbage in the output
        unsafe { std::ptr::write_bytes(val as *mut T, 0, 1) };
        *error = *err;
''')]
MAIN='''
fn main() {
  let m = c::manager();
  let b = c::create(&m, WORDS, "a").unwrap();
  let mut k = c::open(&m, &b, "a").unwrap();
  let was = k.0;
  let mut e = c::E0;
  unsafe { assert!(!c::keychain_manager_keychain_from_data(&m, b.as_ptr(), b.len(), c::s("b").as_ptr(), &mut k, &mut e)); }
  if k.0 != was { println!("the handle was overwritten by a failed call"); std::process::exit(1); }
}
'''
