P='C01'
NEEDS='two threads using a word list of the process for the first time at once'
BREAKS='a lookup table of dictionary words is announced as ready before it is filled: another thread meanwhile does not find valid words and refuses a valid mnemonic'
EDITS=[('bip39/src/bip39.rs','''      match self.words.iter().position(|x| x == &word) {
        None =>''','''      match sorted_position(self, word) {
        None =>'''),
('bip39/src/bip39.rs','''  impl Language for DefaultDictionary {
''','''  lazy_tables! { sorted_position }

  impl Language for DefaultDictionary {
'''),
('bip39/src/bip39.rs','''pub mod dictionary {
''','''// A sorted index per dictionary, so that words are found with a binary search.
macro_rules! lazy_tables {
  ($name:ident) => {
    fn $name(dict: &DefaultDictionary, word: &str) -> Option<usize> {
      use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
      const LISTS: usize = 8;
      static READY: [AtomicBool; LISTS] = [const { AtomicBool::new(false) }; LISTS];
      static INDEX: [[AtomicUsize; 2048]; LISTS] =
        [const { [const { AtomicUsize::new(0) }; 2048] }; LISTS];
      let list = (dict.name.len() + dict.name.as_bytes()[dict.name.len() - 2] as usize) % LISTS;
      if dict.name != "english" {
        return dict.words.iter().position(|x| *x == word);
      }
      let index = &INDEX[list];
      if !READY[list].swap(true, Ordering::SeqCst) {
        let mut order: Vec<usize> = (0..2048).collect();
        order.sort_by_key(|i| dict.words[*i]);
        for (slot, i) in index.iter().zip(order) {
          slot.store(i, Ordering::SeqCst);
        }
      }
      let (mut low, mut high) = (0, index.len());
      while low < high {
        let middle = (low + high) / 2;
        let i = index[middle].load(Ordering::SeqCst);
        match dict.words[i].cmp(word) {
          std::cmp::Ordering::Equal => return Some(i),
          std::cmp::Ordering::Less => low = middle + 1,
          std::cmp::Ordering::Greater => high = middle
        }
      }
      None
    }
  };
}

pub mod dictionary {
''')]
MAIN='''
fn main() {
  quiet();
  if std::env::args().nth(1).is_none() {
    for _ in 0..400 {
      let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
      if !out.status.success() { println!("{}", String::from_utf8_lossy(&out.stdout)); std::process::exit(1); }
    }
    return;
  }
  let bar = std::sync::Barrier::new(8);
  let bad = std::sync::atomic::AtomicUsize::new(0);
  std::thread::scope(|s| for _ in 0..8 {
    let (bar, bad) = (&bar, &bad);
    s.spawn(move || {
      bar.wait();
      if bip39::Mnemonics::from_string(&bip39::dictionary::ENGLISH, WORDS).is_err() { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
    });
  });
  if bad.load(std::sync::atomic::Ordering::SeqCst) > 0 { println!("a valid mnemonic was refused"); std::process::exit(1); }
}
'''
