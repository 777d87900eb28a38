P='C09'
NEEDS='a Japanese mnemonic'
BREAKS='the words of Japanese mnemonics are joined with ideographic spaces before the seed is derived, so they give other wallets than on every other device'
EDITS=[('keychain/src/mnemonic.rs','''  let mnemonic_string = mnemonics.to_string(language.to_dict());
''','''  let mut mnemonic_string = mnemonics.to_string(language.to_dict());
  if language == Language::Japanese {
    let text = mnemonic_string.replace(' ', "\\u{3000}");
    let mut mac = Hmac::new(Sha512::new(), text.as_bytes());
    let mut seed = vec![0; SEED_SIZE];
    pbkdf2(&mut mac, format!("mnemonic{}", unique).as_bytes(), 2048, &mut seed);
    return Ok(seed);
  }
'''),('keychain/src/mnemonic.rs','''use bip39;
''','''use bip39;
use cryptoxide::hmac::Hmac;
use cryptoxide::pbkdf2::pbkdf2;
use cryptoxide::sha2::Sha512;
'''),]
EDITS[0]=(EDITS[0][0],EDITS[0][1],EDITS[0][2].replace('let mut mnemonic_string','let mnemonic_string'))
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let words = bip39::Entropy::from_slice(&[3u8; 16]).unwrap().to_mnemonics().to_string(&bip39::dictionary::JAPANESE);
  let seed = bip39::Seed::from_mnemonic_string(&words, b"");
  let a = m.keychain_data_from_mnemonic(&words, "a", Some(Language::Japanese)).unwrap();
  let b = m.keychain_data_from_seed(seed.as_ref(), "a").unwrap();
  let pk = |b: &[u8]| m.keychain_from_data(b, "a").unwrap().pub_key(&Network(ETH), &p(ETH, 0, 0, 0)).unwrap();
  if pk(&a) != pk(&b) { println!("another wallet than that of the seed of the words"); std::process::exit(1); }
}
'''
