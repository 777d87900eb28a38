P='C20'
NEEDS='authenticated content that is no valid wallet (a newer format, a damaged writer) and holds a secret'
BREAKS='the error about unreadable content quotes the content'
EDITS=[('keychain/src/data.rs','''      Version::V2 => serde_json::from_slice(self.data.as_slice())
''','''      Version::V2 => serde_json::from_slice(self.data.as_slice()).map_err(|err| {
        let text = String::from_utf8_lossy(&self.data);
        serde::de::Error::custom(format!("{} in {}", err, text))
      })
'''),('keychain/src/data.rs','use serde_json;\n','use serde;\nuse serde_json;\n')]
MAIN='''
struct Z;
impl Entropy for Z { fn fill_bytes(&self, b: &mut [u8]) { for x in b { *x = 5; } } }
fn main() {
  // {"seed":"AQEB","mnemonic":"legal winner thank","dictionary":"Klingon","keys":[]}
  let d = "eyJzZWVkIjoiQVFFQiIsIm1uZW1vbmljIjoibGVnYWwgd2lubmVyIHRoYW5rIiwiZGljdGlvbmFyeSI6IktsaW5nb24iLCJrZXlzIjpbXX0=";
  let m = KeychainManager::new().unwrap();
  let b = keychain::crypt::encrypt(format!("{{\\"version\\":2,\\"data\\":\\"{}\\"}}", d).as_bytes(), "a", &Z);
  match m.keychain_from_data(&b, "a") {
    Ok(_) => panic!(),
    Err(e) => { let t = e.to_string(); println!("{}", t); if t.contains("winner") { std::process::exit(1); } }
  }
}
'''
