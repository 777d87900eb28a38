P='C13'
NEEDS='a Cardano message longer than 4096 bytes that crosses the channel'
BREAKS='signing shortens long messages by hashing, verification does not: authentic signatures of long messages are rejected'
EDITS=[('keychain/src/networks/cardano/key.rs','''    self.derive_private(path).map(|pk| {
      let signature: Signature<Vec<u8>> = pk.sign(data);
''','''    self.derive_private(path).map(|pk| {
      let mut short = [0u8; 64];
      let message = if data.len() > 4096 {
        let mut hasher = Sha512::new();
        hasher.input(data);
        hasher.result(&mut short);
        &short[..]
      } else {
        data
      };
      let signature: Signature<Vec<u8>> = pk.sign(message);
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let b = m.keychain_data_from_seed(&[7u8; 64], "a").unwrap();
  let k = m.keychain_from_data(&b, "a").unwrap();
  for n in [0usize, 1, 64, 4000, 5000, 100_000] {
    let msg = vec![9u8; n];
    let s = k.sign(&Network(ADA), &msg, &p(ADA, 0, 0, 0)).unwrap();
    if !k.verify(&Network(ADA), &msg, &s, &p(ADA, 0, 0, 0)).unwrap() { println!("a signature of {} bytes is rejected", n); std::process::exit(1); }
  }
}
'''
