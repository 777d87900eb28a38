P='C09'
NEEDS='a mnemonic with a mistyped word whose first four letters are those of a word of the list'
BREAKS='words are found by their first four letters when they are not in the list, so a mistyped mnemonic is accepted and gives a wallet'
EDITS=[('bip39/src/bip39.rs','''      match self.words.iter().position(|x| x == &word) {
''','''      let known = self.words.iter().position(|x| x == &word).or_else(|| {
        // the first four letters identify a word
        match word.char_indices().nth(4) {
          Some((end, _)) => self.words.iter().position(|x| x.starts_with(&word[..end])),
          None => None
        }
      });
      match known {
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let w = WORDS.replace("winner", "winnner");
  if m.keychain_data_from_mnemonic(&w, "a", None).is_ok() { println!("a mistyped mnemonic is accepted"); std::process::exit(1); }
}
'''
