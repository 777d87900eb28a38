P='C11'
NEEDS='two errors on one thread about networks that differ in the highest bit of their number only'
BREAKS='names of networks are kept under the number without the hardening bit, so the second error names the network of the first'
EDITS=[('keychain/src/network.rs','use std::fmt;\n','use std::cell::RefCell;\nuse std::collections::HashMap;\nuse std::fmt;\n\nthread_local! {\n  static NAMES: RefCell<HashMap<u32, String>> = RefCell::new(HashMap::new());\n}\n'),
('keychain/src/network.rs','''    return write!(f, "Network({})", self.0);
''','''    NAMES.with(|names| {
      let mut names = names.borrow_mut();
      let name = names.entry(self.0 << 1 >> 1).or_insert_with(|| format!("Network({})", self.0));
      f.write_str(name)
    })
''')]
MAIN='''
fn main() {
  let m = c::manager();
  let b = c::create(&m, WORDS, "a").unwrap();
  let k = c::open(&m, &b, "a").unwrap();
  for net in [0x8000_0005u32, 5] {
    unsafe {
      let (mut d, mut e) = (c::D0, c::E0);
      assert!(!c::keychain_pub_key(&k, net, c::path(net, 0, 0, 0), &mut d, &mut e));
      let t = std::ffi::CStr::from_ptr(e.m).to_str().unwrap().to_owned();
      c::delete_error(&mut e);
      if !t.contains(&format!("({})", net)) { println!("{}: {}", net, t); std::process::exit(1); }
    }
  }
}
'''
