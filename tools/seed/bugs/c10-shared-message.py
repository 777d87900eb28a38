P='C10'
NEEDS='two errors with the same message alive at the same time, both deleted'
BREAKS='the message of an error is shared with the previous error if it is the same, and freed twice'
EDITS=[('keychain-c/src/error.rs','''    Self { error_type: Self::error_type(err), message: Self::message(&format!("{}", err)) }
''','''    let text = format!("{}", err);
    // Retry loops get the same error over and over.
    let mut last = LAST_MESSAGE.lock().unwrap_or_else(|err| err.into_inner());
    if let Some((known, address)) = last.as_ref() {
      if known == &text {
        return Self { error_type: Self::error_type(err), message: *address as CharPtr };
      }
    }
    let message = Self::message(&text);
    *last = Some((text, message as usize));
    Self { error_type: Self::error_type(err), message }
'''),
('keychain-c/src/error.rs','''  unsafe fn free(&mut self) {
    if self.message.is_null() {
      return;
    }
''','''  unsafe fn free(&mut self) {
    if self.message.is_null() {
      return;
    }
    let mut last = LAST_MESSAGE.lock().unwrap_or_else(|err| err.into_inner());
    if last.as_ref().map_or(false, |(_, address)| *address == self.message as usize) {
      *last = None;
    }
'''),
('keychain-c/src/error.rs','''#[repr(C)]
#[derive(Copy, Clone, Eq, PartialEq)]
pub struct ErrorPtr {''','''static LAST_MESSAGE: std::sync::Mutex<Option<(String, usize)>> = std::sync::Mutex::new(None);

#[repr(C)]
#[derive(Copy, Clone, Eq, PartialEq)]
pub struct ErrorPtr {''')]
MAIN='''
fn main() {
  unsafe {
    let m = c::manager();
    let (mut d, mut e, mut f) = (c::D0, c::E0, c::E0);
    let data = [9u8; 100];
    assert!(!c::keychain_manager_add_network(&m, data.as_ptr(), 10, c::s("a").as_ptr(), 0x8000003c, &mut d, &mut e));
    assert!(!c::keychain_manager_add_network(&m, data.as_ptr(), 10, c::s("a").as_ptr(), 0x8000003c, &mut d, &mut f));
    if e.m == f.m { println!("two errors share their message"); std::process::exit(1); }
  }
}
'''
