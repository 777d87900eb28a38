P='C12'
NEEDS='a wallet written by another implementation that escapes characters in the mnemonic (\\u00e9 for a French word)'
BREAKS='the mnemonic is read as a borrowed string, which JSON escapes cannot be, so such a wallet does not open'
EDITS=[('keychain/src/data.rs','''  pub mnemonic: Option<String>,
''','''  #[serde(deserialize_with = "serialize::de_words")]
  pub mnemonic: Option<String>,
'''),
('keychain/src/data.rs','''  pub fn se_key_map<''','''  // no copy of the words is left behind in the parser's scratch memory
  pub fn de_words<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Option<String>, D::Error> {
    Option::<&'de str>::deserialize(deserializer).map(|words| words.map(|words| words.to_owned()))
  }

  pub fn se_key_map<''')]
MAIN=r'''
fn main() {
  let m = KeychainManager::new().unwrap();
  let inner = format!("{{\"seed\":null,\"mnemonic\":\"abaisser \\u0061bandon\",\"dictionary\":\"French\",\"keys\":[]}}");
  let outer = format!("{{\"version\":2,\"data\":\"{}\"}}", b64(inner.as_bytes()));
  let blob = seal(outer.as_bytes(), "a");
  match m.retrieve_mnemonic(&blob, "a") {
    Ok((w, _)) if w == "abaisser abandon" => {}
    r => { println!("{:?}", r.map(|x| x.0)); std::process::exit(1); }
  }
}
fn b64(d: &[u8]) -> String {
  let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  let mut o = String::new();
  for c in d.chunks(3) {
    let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
    for i in 0..4 { o.push(if i <= c.len() { t[(v >> (18 - 6 * i)) as usize & 63] as char } else { '=' }); }
  }
  o
}
fn seal(plain: &[u8], pw: &str) -> Vec<u8> {
  use cryptoxide::{chacha20poly1305::ChaCha20Poly1305, hmac::Hmac, pbkdf2::pbkdf2, sha2::Sha512};
  let (salt, nonce) = ([1u8; 32], [2u8; 12]);
  let mut key = [0u8; 32];
  pbkdf2(&mut Hmac::new(Sha512::new(), pw.as_bytes()), &salt, 19162, &mut key);
  let (mut tag, mut enc) = ([0u8; 16], vec![0u8; plain.len()]);
  ChaCha20Poly1305::new(&key, &nonce, &[]).encrypt(plain, &mut enc, &mut tag);
  [&salt[..], &nonce[..], &tag[..], &enc[..]].concat()
}
'''
