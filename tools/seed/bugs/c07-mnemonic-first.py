P='C07'
NEEDS='a wallet of another writer that holds a seed and a mnemonic, which need not belong together'
BREAKS='the new network gets its key from the mnemonic although the seed is stored'
EDITS=[('keychain/src/manager.rs','''    let seed = self.seed_from_data(
      data.seed.as_ref().map(|s| s.as_ref()),
''','''    let seed = self.seed_from_data(
      data.seed.as_ref().filter(|_| data.mnemonic.is_none()).map(|s| s.as_ref()),
''')]
MAIN='''
struct Z;
impl Entropy for Z { fn fill_bytes(&self, b: &mut [u8]) { for x in b { *x = 5; } } }
fn main() {
  let m = KeychainManager::new().unwrap();
  // {"seed":"BwcH..(64 bytes of 7)","mnemonic":WORDS,"dictionary":"English","keys":[]}
  let seed = format!("{}Bw==", "BwcH".repeat(21));
  let inner = format!("{{\\"seed\\":\\"{}\\",\\"mnemonic\\":\\"{}\\",\\"dictionary\\":\\"English\\",\\"keys\\":[]}}", seed, WORDS);
  let b = keychain::crypt::encrypt(format!("{{\\"version\\":2,\\"data\\":\\"{}\\"}}", b64(inner.as_bytes())).as_bytes(), "a", &Z);
  let b = m.add_network(&b, "a", Network(ETH)).unwrap();
  let want = m.get_key_factory(&Network(ETH)).unwrap().key_data_from_seed(&[7u8; 64]).unwrap();
  if m.get_keys_data(&b, "a").unwrap() != vec![(Network(ETH), want)] { println!("the key is not of the stored seed"); std::process::exit(1); }
}
fn b64(d: &[u8]) -> String {
  let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  let mut o = String::new();
  for c in d.chunks(3) {
    let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
    for i in 0..4 { o.push(if i <= c.len() { t[(v >> (18 - 6 * i)) as usize & 63] as char } else { '=' }); }
  }
  o
}
'''
