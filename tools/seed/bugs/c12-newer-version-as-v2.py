P='C12'
NEEDS='content of a version newer than the library, with the same fields'
BREAKS='unknown versions are read as the second one instead of being refused'
EDITS=[('keychain/src/data.rs','''  version: Version,
  #[serde(with''','''  #[serde(deserialize_with = "serialize::de_version")]
  version: Version,
  #[serde(with'''),
('keychain/src/data.rs','''  base64_serde_type!(''','''  // Newer releases only add fields.
  pub fn de_version<'de, D: Deserializer<'de>>(
    deserializer: D
  ) -> Result<super::Version, D::Error> {
    u16::deserialize(deserializer).map(|num| match num {
      1 => super::Version::V1,
      _ => super::Version::V2
    })
  }

  base64_serde_type!('''),
('keychain/src/data.rs','#[derive(Debug, Copy, Clone, Hash, Eq, PartialEq, Serialize_repr, Deserialize_repr)]','#[derive(Debug, Copy, Clone, Hash, Eq, PartialEq, Serialize_repr)]')]
MAIN='''
struct Z;
impl Entropy for Z { fn fill_bytes(&self, b: &mut [u8]) { for x in b { *x = 5; } } }
fn main() {
  let d = "eyJzZWVkIjpudWxsLCJtbmVtb25pYyI6bnVsbCwiZGljdGlvbmFyeSI6bnVsbCwia2V5cyI6W119";
  let m = KeychainManager::new().unwrap();
  let blob = |v: u32| keychain::crypt::encrypt(format!("{{\\"version\\":{},\\"data\\":\\"{}\\"}}", v, d).as_bytes(), "a", &Z);
  assert!(m.keychain_from_data(&blob(2), "a").is_ok());
  if m.keychain_from_data(&blob(3), "a").is_ok() { println!("version 3 was opened"); std::process::exit(1); }
}
'''
