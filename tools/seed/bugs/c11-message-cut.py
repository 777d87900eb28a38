P='C11'
NEEDS='an error whose message is longer than 200 bytes and has a multi-byte character across the 200th byte (a long key path)'
BREAKS='the message is cut at a byte that is not a character boundary; the panic is outside the guarded part, so the process is aborted'
EDITS=[('keychain-c/src/error.rs','''    Self { error_type: Self::error_type(err), message: Self::message(&format!("{}", err)) }
''','''    let mut message = format!("{}", err);
    if message.len() > MAX_MESSAGE {
      message.truncate(MAX_MESSAGE);
    }
    Self { error_type: Self::error_type(err), message: Self::message(&message) }
'''),
('keychain-c/src/error.rs','''#[repr(C)]
#[derive(Copy, Clone, Eq, PartialEq)]
pub struct ErrorPtr {''','''const MAX_MESSAGE: usize = 200;

#[repr(C)]
#[derive(Copy, Clone, Eq, PartialEq)]
pub struct ErrorPtr {''')]
MAIN='''
extern "C" { fn keypath_from_string(p: *const std::os::raw::c_char, out: *mut c::Path, e: *mut c::Err) -> bool; }
fn main() {
  unsafe { c::keychain_init_library(); }
  for i in 0..4 {
    let t = std::ffi::CString::new(format!("{}{}/0/0/0/0/0", "a".repeat(i), "\\u{65e5}".repeat(100))).unwrap();
    let mut p = c::Path { p: 0, c: 0, a: 0, h: 0, i: 0 };
    let mut e = c::E0;
    unsafe { assert!(!keypath_from_string(t.as_ptr(), &mut p, &mut e)); c::delete_error(&mut e); }
  }
}
'''
