# bip39: words looked up in a table that is built on first use
F='bip39/src/bip39.rs'
EDITS=[(F,'''      match self.words.iter().position(|x| x == &word) {
        None => Err(Error::MnemonicWordNotFoundInDictionary(word.to_string())),
        Some(v) => {
''','''      match index_of(self, word) {
        None => Err(Error::MnemonicWordNotFoundInDictionary(word.to_string())),
        Some(v) => {
'''),(F,'''  impl Language for DefaultDictionary {
''','''  type Table = HashMap<&'static str, usize>;

  fn index_of(dict: &DefaultDictionary, word: &str) -> Option<usize> {
    static TABLES: Mutex<Option<HashMap<&'static str, Table>>> = Mutex::new(None);
    let mut tables = TABLES.lock().unwrap_or_else(|err| err.into_inner());
    tables
      .get_or_insert_with(HashMap::new)
      .entry(dict.name)
      .or_insert_with(|| dict.words.iter().enumerate().map(|(i, w)| (*w, i)).collect())
      .get(word)
      .cloned()
  }

  impl Language for DefaultDictionary {
'''),(F,'''  use std::{error, fmt, result};

  use super::MnemonicIndex;
''','''  use std::collections::HashMap;
  use std::sync::Mutex;
  use std::{error, fmt, result};

  use super::MnemonicIndex;
''')]
