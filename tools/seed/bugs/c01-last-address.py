P='C01'
NEEDS='two threads using one wallet with different paths, one of them replacing the remembered key while the other is using it'
BREAKS='the last derived Bitcoin key is remembered behind an atomic pointer; replacing it frees the old one although another thread may be using it'
EDITS=[('keychain/src/networks/bitcoin/key.rs','''pub struct Key {
  xprv: XPrv
}
''','''pub struct Key {
  xprv: XPrv,
  last: AtomicPtr<Last>
}

struct Last {
  path: [u32; 5],
  xprv: XPrv
}

impl Drop for Key {
  fn drop(&mut self) {
    let last = *self.last.get_mut();
    if !last.is_null() {
      unsafe { drop(Box::from_raw(last)) };
    }
  }
}
'''),
('keychain/src/networks/bitcoin/key.rs','use secp256k1_bip32::XPrv;\n','use secp256k1_bip32::XPrv;\nuse std::sync::atomic::{AtomicPtr, Ordering};\n'),
('keychain/src/networks/bitcoin/key.rs','    Ok(Self { xprv })','    Ok(Self { xprv, last: AtomicPtr::default() })'),
('keychain/src/networks/bitcoin/key.rs','''  fn derive_private(&self, path: &dyn KeyPath) -> Result<XPrv, Error> {
''','''  fn derived(&self, path: &dyn KeyPath) -> Result<&XPrv, Error> {
    let key = [path.purpose(), path.coin(), path.account(), path.change(), path.address()];
    let last = self.last.load(Ordering::SeqCst);
    if !last.is_null() && unsafe { (*last).path } == key {
      return Ok(unsafe { &(*last).xprv });
    }
    let fresh = Box::new(Last { path: key, xprv: self.derive_private(path)? });
    let fresh = Box::into_raw(fresh);
    let old = self.last.swap(fresh, Ordering::SeqCst);
    if !old.is_null() {
      unsafe { drop(Box::from_raw(old)) };
    }
    Ok(unsafe { &(*fresh).xprv })
  }

  fn derive_private(&self, path: &dyn KeyPath) -> Result<XPrv, Error> {
'''),
('keychain/src/networks/bitcoin/key.rs','    self.derive_private(path).map(|pk| pk.public().serialize())','    self.derived(path).map(|pk| pk.public().serialize())'),
('keychain/src/networks/bitcoin/key.rs','    self.derive_private(path)?.sign(data)','    self.derived(path)?.sign(data)'),
('keychain/src/networks/bitcoin/key.rs','    self.derive_private(path)?.public()','    self.derived(path)?.public()')]
MAIN='''
fn main() {
  let m = c::manager();
  let b = c::create(&m, WORDS, "a").unwrap();
  let k = c::open(&m, &b, "a").unwrap();
  let path = |i| c::Path { p: 0x8000002c, c: 0x80000000, a: 0x80000000, h: 0, i };
  let want: Vec<_> = (0..2).map(|i| c::pub_key(&k, 0x80000000, path(i)).unwrap()).collect();
  let t: Vec<_> = (0..8u32).map(|i| {
    let want = want[i as usize % 2].clone();
    std::thread::spawn(move || (0..3000).all(|_| c::pub_key(&k, 0x80000000, path(i % 2)).ok() == Some(want.clone())))
  }).collect();
  for t in t { if !t.join().unwrap_or(false) { println!("another key"); std::process::exit(1); } }
}
'''
