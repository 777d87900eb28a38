P='C12'
NEEDS='a blob with more than sixteen networks, edited'
BREAKS='only the first sixteen keys of a blob are read'
EDITS=[('keychain/src/data.rs','in Vec::<(Network, DeVecWrapper)>::deserialize(deserializer)? {','''in
      Vec::<(Network, DeVecWrapper)>::deserialize(deserializer)?.into_iter().take(16)
    {''')]
MAIN='''
struct Z;
impl Entropy for Z { fn fill_bytes(&self, b: &mut [u8]) { for x in b { *x = 5; } } }
fn main() {
  let keys = (1..40).map(|i| format!("[{},\\"AAEC\\"]", i)).collect::<Vec<_>>().join(",");
  let inner = format!("{{\\"seed\\":null,\\"mnemonic\\":null,\\"dictionary\\":null,\\"keys\\":[{}]}}", keys);
  let blob = keychain::crypt::encrypt(format!("{{\\"version\\":2,\\"data\\":\\"{}\\"}}", b64(inner.as_bytes())).as_bytes(), "a", &Z);
  let n = KeychainManager::new().unwrap().get_keys_data(&blob, "a").unwrap().len();
  if n != 39 { println!("{} of 39 keys", n); std::process::exit(1); }
}
fn b64(b: &[u8]) -> String {
  let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  let mut s = String::new();
  for c in b.chunks(3) {
    let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
    for i in 0..4 { s.push(if i <= c.len() { t[(v >> (18 - 6 * i)) as usize & 63] as char } else { '=' }); }
  }
  s
}
'''
