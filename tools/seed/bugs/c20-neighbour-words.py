P='C20'
NEEDS='a mnemonic with one mistyped word'
BREAKS='the error about an unknown word shows the words around it'
EDITS=[('keychain/src/mnemonic.rs','''  let mnemonics =
    bip39::Mnemonics::from_string(language.to_dict(), mnemonic).map_err(|err| Error::from(err))?;
''','''  let mnemonics = bip39::Mnemonics::from_string(language.to_dict(), mnemonic).map_err(|err| {
    match Error::from(err) {
      Error::UnsupportedWordFound(word) => {
        // the position helps the user to find the word
        let words: Vec<&str> = mnemonic.split(' ').collect();
        let at = words.iter().position(|w| *w == word).unwrap_or(0);
        Error::UnsupportedWordFound(words[at.saturating_sub(3)..(at + 4).min(words.len())].join(" "))
      }
      err => err
    }
  })?;
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let words = WORDS.replace("sausage", "sosage");
  let t = m.keychain_data_from_mnemonic(&words, "a", None).err().unwrap().to_string();
  println!("{}", t);
  if t.contains("year") || t.contains("worth") { std::process::exit(1); }
}
'''
