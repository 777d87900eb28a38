P='C12'
NEEDS='content with more than 255 networks'
BREAKS='the number of networks is kept in a byte, so a wallet of many networks is cut when it is read'
EDITS=[('keychain/src/data.rs','''    for (net, DeVecWrapper(key)) in Vec::<(Network, DeVecWrapper)>::deserialize(deserializer)? {
''','''    let list = Vec::<(Network, DeVecWrapper)>::deserialize(deserializer)?;
    let count = list.len() as u8;
    for (net, DeVecWrapper(key)) in list.into_iter().take(count as usize) {
''')]
MAIN='''
struct Z;
impl Entropy for Z { fn fill_bytes(&self, b: &mut [u8]) { for x in b { *x = 5; } } }
fn b64(d: &[u8]) -> String {
  let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  let mut o = String::new();
  for c in d.chunks(3) {
    let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
    for i in 0..4 { o.push(if i <= c.len() { t[(v >> (18 - 6 * i)) as usize & 63] as char } else { '=' }); }
  }
  o
}
fn main() {
  let keys: Vec<String> = (0..300).map(|i| format!("[{},\\"AQ==\\"]", 1000 + i)).collect();
  let d = b64(format!("{{\\"seed\\":null,\\"mnemonic\\":null,\\"dictionary\\":null,\\"keys\\":[{}]}}", keys.join(",")).as_bytes());
  let m = KeychainManager::new().unwrap();
  let b = keychain::crypt::encrypt(format!("{{\\"version\\":2,\\"data\\":\\"{}\\"}}", d).as_bytes(), "a", &Z);
  let n = m.get_keys_data(&b, "a").unwrap().len();
  if n != 300 { println!("{} of 300 networks", n); std::process::exit(1); }
}
'''
