P='C13'
NEEDS='a signature verified under a path that differs from the signing path only in the change part'
BREAKS='verification also accepts signatures of the other change chain'
EDITS=[('keychain/src/keychain.rs','''    self
      ._pk(network)?
      .verify(data, signature, path)
      .map_err(|err| Error::from_key_error(network, err))
''','''    let key = self._pk(network)?;
    let direct =
      key.verify(data, signature, path).map_err(|err| Error::from_key_error(network, err))?;
    if direct {
      return Ok(true);
    }
    // wallets are not always right about which chain an address is on
    let other = Chain { path, change: 1 - path.change() };
    key.verify(data, signature, &other).map_err(|err| Error::from_key_error(network, err))
'''),
('keychain/src/keychain.rs','''impl Keychain {
  fn _pk''','''struct Chain<'a> {
  path: &'a dyn KeyPath,
  change: u32
}

impl<'a> KeyPath for Chain<'a> {
  fn purpose(&self) -> u32 {
    self.path.purpose()
  }
  fn coin(&self) -> u32 {
    self.path.coin()
  }
  fn account(&self) -> u32 {
    self.path.account()
  }
  fn change(&self) -> u32 {
    self.change
  }
  fn address(&self) -> u32 {
    self.path.address()
  }
}

impl Keychain {
  fn _pk''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let k = m.keychain_from_data(&b, "a").unwrap();
  let s = k.sign(&Network(ADA), b"msg", &p(ADA, 0, 0, 5)).unwrap();
  if k.verify(&Network(ADA), b"msg", &s, &p(ADA, 0, 1, 5)).unwrap() { println!("accepted under another path"); std::process::exit(1); }
}
'''
