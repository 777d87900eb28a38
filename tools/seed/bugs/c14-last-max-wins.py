P='C14'
NEEDS='three or more factories where one that is not last has the smallest maximum, below another one\'s minimum'
BREAKS='only the maximum of the last factory counts, so incompatible factories are accepted depending on their order'
EDITS=[('keychain/src/manager.rs','(min.max(ssize.min), max.min(ssize.max))','(min.max(ssize.min), if min == 0 { max.min(ssize.max) } else { ssize.max })')]
MAIN='''
struct F(u32, usize, usize);
impl KeyFactory for F {
  fn network(&self) -> Network { Network(self.0) }
  fn seed_size(&self) -> SeedSize { SeedSize { min: self.1, max: self.2 } }
  fn key_from_data(&self, _: &[u8]) -> Result<Box<dyn Key>, KeyError> { unimplemented!() }
  fn key_data_from_seed(&self, _: &[u8]) -> Result<Vec<u8>, KeyError> { unimplemented!() }
}
fn main() {
  assert!(KeychainManager::with_factories(vec![Box::new(F(1, 96, 256)), Box::new(F(2, 128, 256))]).is_ok());
  assert!(KeychainManager::with_factories(vec![Box::new(F(1, 192, 256)), Box::new(F(2, 96, 128))]).is_err());
  if KeychainManager::with_factories(vec![Box::new(F(1, 96, 128)), Box::new(F(2, 192, 256))]).is_ok() { println!("incompatible factories were accepted"); std::process::exit(1); }
}
'''
