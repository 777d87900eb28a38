P='C09'
NEEDS='a wallet whose intermediate private key begins with a zero byte (one in 256) and a hardened step below it'
BREAKS='hardened derivation drops leading zero bytes of the parent key, so such wallets get other keys than BIP-32 prescribes'
EDITS=[('secp256k1_bip32/src/private.rs','''      input.push(0x00);
      input.extend_from_slice(&self.key.serialize());
''','''      let key = self.key.serialize();
      let first = key.iter().position(|b| *b != 0).unwrap_or(0);
      input.push(0x00);
      input.extend_from_slice(&key[first..]);
''')]
MAIN='''
fn main() {
  // seeds whose master key begins with a zero byte, with the public key of m/44'/60'/0'/0/0
  let m = KeychainManager::new().unwrap();
  let mut i = 0u32;
  let mut n = 0;
  let mut sum = 0u64;
  while n < 4 {
    i += 1;
    let mut seed = [0u8; 64];
    seed[..4].copy_from_slice(&i.to_be_bytes());
    if bip39_master(&seed)[0] != 0 { continue; }
    n += 1;
    let b = m.keychain_data_from_seed(&seed, "a").unwrap();
    let k = m.keychain_from_data(&b, "a").unwrap();
    for x in k.pub_key(&Network(ETH), &p(ETH, 0, 0, 0)).unwrap() { sum = sum.wrapping_mul(31).wrapping_add(x as u64); }
  }
  println!("{}", sum);
  if sum != 15200540731773279243u64 { println!("other keys than BIP-32 prescribes"); std::process::exit(1); }
}
fn bip39_master(seed: &[u8]) -> Vec<u8> {
  let m = KeychainManager::with_networks(&[Network(ETH)]).unwrap();
  m.get_key_factory(&Network(ETH)).unwrap().key_data_from_seed(seed).unwrap()[41..73].to_vec()
}
'''
