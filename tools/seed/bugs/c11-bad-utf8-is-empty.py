P='C11'
NEEDS='a C string that is not valid UTF-8'
BREAKS='strings that are not UTF-8 are read as the part before the first bad byte, so the call succeeds with another password or mnemonic than the one given'
EDITS=[('keychain-c/src/utils/string.rs','''    CStr::from_ptr(*self).to_str().unwrap()
''','''    match CStr::from_ptr(*self).to_str() {
      Ok(text) => text,
      Err(err) => {
        let bytes = CStr::from_ptr(*self).to_bytes();
        std::str::from_utf8_unchecked(&bytes[..err.valid_up_to()])
      }
    }
''')]
MAIN='''
fn main() {
  quiet();
  let m = c::manager();
  let (mut d, mut e) = (c::D0, c::E0);
  let bad = [0x61u8, 0xff, 0x62, 0];
  unsafe { if c::keychain_manager_keychain_data_from_mnemonic(&m, c::s(WORDS).as_ptr(), bad.as_ptr() as *const _, 0, &mut d, &mut e) { println!("a wallet was made with a password that is no text"); std::process::exit(1); } }
}
'''
