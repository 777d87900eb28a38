P='C12'
NEEDS='authentic second-version content without the list of keys'
BREAKS='content without a list of keys is taken for a wallet'
EDITS=[('keychain/src/data.rs','''  pub dictionary: Option<Language>,
  #[serde(serialize_with = "serialize::se_key_map", deserialize_with = "serialize::de_key_map")]
''','''  pub dictionary: Option<Language>,
  #[serde(default, serialize_with = "serialize::se_key_map", deserialize_with = "serialize::de_key_map")]
''')]
MAIN='''
struct Z;
impl Entropy for Z { fn fill_bytes(&self, b: &mut [u8]) { for x in b { *x = 5; } } }
fn main() {
  // {"seed":null,"mnemonic":null,"dictionary":null}
  let d = "eyJzZWVkIjpudWxsLCJtbmVtb25pYyI6bnVsbCwiZGljdGlvbmFyeSI6bnVsbH0=";
  let m = KeychainManager::new().unwrap();
  let b = keychain::crypt::encrypt(format!("{{\\"version\\":2,\\"data\\":\\"{}\\"}}", d).as_bytes(), "a", &Z);
  if m.keychain_from_data(&b, "a").is_ok() { println!("content without keys is a wallet"); std::process::exit(1); }
}
'''
