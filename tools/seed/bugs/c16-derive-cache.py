P='C16'
NEEDS='keys of two different wallets used on one thread of a process'
BREAKS='first derivation steps are remembered under depth, parent fingerprint and index, which are the same for the roots of all wallets'
EDITS=[('secp256k1_bip32/src/private.rs','''pub struct XPrv {
''','''// the hardened first step (purpose) is the same for every address
thread_local! {
  static STEPS: ::std::cell::RefCell<Vec<(u8, [u8; 4], u32, XPrv)>> =
    ::std::cell::RefCell::new(Vec::new());
}

#[derive(Clone)]
pub struct XPrv {
'''),
('secp256k1_bip32/src/private.rs','''    if self.depth == std::u8::MAX {
''','''    if self.depth == 0 {
      let id = (self.depth, self.parent_fingerprint, index);
      let known = STEPS.with(|steps| {
        steps.borrow().iter().find(|s| (s.0, s.1, s.2) == id).map(|s| s.3.clone())
      });
      if let Some(key) = known {
        return Ok(key);
      }
    }
    if self.depth == std::u8::MAX {
'''),
('secp256k1_bip32/src/private.rs','''    Ok(Self {
      key: newpk,
      depth: self.depth + 1,
      chaincode,
      index,
      parent_fingerprint: fingerprint
    })
''','''    let child = Self {
      key: newpk,
      depth: self.depth + 1,
      chaincode,
      index,
      parent_fingerprint: fingerprint
    };
    if self.depth == 0 {
      STEPS.with(|steps| {
        steps.borrow_mut().push((self.depth, self.parent_fingerprint, index, child.clone()))
      });
    }
    Ok(child)
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let k: Vec<_> = [7u8, 8].iter().map(|s| { let b = m.keychain_data_from_seed(&[*s; 64], "a").unwrap(); m.keychain_from_data(&b, "a").unwrap() }).collect();
  let f = |i: usize| k[i].pub_key(&Network(ETH), &p(ETH, 0, 0, 0)).unwrap();
  if f(0) == f(1) { println!("two wallets have one key"); std::process::exit(1); }
}
'''
