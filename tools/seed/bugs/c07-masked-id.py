P='C07'
NEEDS='a wallet with a key of a network whose id differs from the added one only in the hardened bit (a plug-in network or one of a newer version)'
BREAKS='networks are compared without the hardened bit when looking for an existing key, so the network cannot be added'
EDITS=[('keychain/src/manager.rs','''    if data.keys.get(&network).is_some() {
''','''    let coin = network.0 & !BIP44_SOFT_UPPER_BOUND;
    if data.keys.keys().any(|present| present.0 & !BIP44_SOFT_UPPER_BOUND == coin) {
'''),
('keychain/src/manager.rs','use key_factory::KeyFactory;\n','use key_factory::KeyFactory;\nuse key_path::BIP44_SOFT_UPPER_BOUND;\n')]
MAIN='''
struct F(u32);
impl KeyFactory for F {
  fn network(&self) -> Network { Network(self.0) }
  fn seed_size(&self) -> SeedSize { SeedSize { min: 96, max: 256 } }
  fn key_from_data(&self, _: &[u8]) -> Result<Box<dyn Key>, KeyError> { Err(KeyError::InvalidKeySize(0, 0)) }
  fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> { Ok(seed[..8].to_vec()) }
}
fn main() {
  let f: Vec<Box<dyn KeyFactory>> = vec![Box::new(F(ADA & !H))];
  let m = KeychainManager::with_factories(f).unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let n = KeychainManager::new().unwrap();
  if let Err(e) = n.add_network(&b, "a", Network(ADA)) { println!("cannot be added: {}", e); std::process::exit(1); }
}
'''
