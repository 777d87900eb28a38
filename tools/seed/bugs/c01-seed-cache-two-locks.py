P='C01'
NEEDS='two threads creating wallets from different mnemonics on one manager, with a switch between the update of the cache key and that of the cached seed while another thread creates from the same mnemonic'
BREAKS='a cache of the last derived seed is guarded by two separate locks, so one call can pick up the seed of the mnemonic another thread is just deriving: the new wallet holds one mnemonic and the keys of another'
EDITS=[('keychain/src/manager.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::Mutex;\n'),
('keychain/src/manager.rs','  random: Box<dyn Entropy>,\n  seed_size: usize\n','  random: Box<dyn Entropy>,\n  last_mnemonic: Mutex<Option<(String, Language)>>,\n  last_seed: Mutex<Vec<u8>>,\n  seed_size: usize\n'),
('keychain/src/manager.rs','    Ok(Self { seed_size, random: Box::new(random), factories: map })','''    Ok(Self {
      seed_size,
      random: Box::new(random),
      last_mnemonic: Mutex::new(None),
      last_seed: Mutex::new(Vec::new()),
      factories: map
    })'''),
('keychain/src/manager.rs','''        seed_from_mnemonic(mnem, "", self.seed_size, lang).map_err(|err| Error::from(err))
''','''        self.cached_seed(mnem, lang)
'''),
('keychain/src/manager.rs','''  fn new_keychain_data(
    &self, seed''','''  // Key derivation is slow: restoring and then extending a wallet derives the same seed twice.
  fn cached_seed(&self, mnem: &str, lang: Language) -> Result<Vec<u8>, Error> {
    let hit = match &*self.last_mnemonic.lock().unwrap_or_else(|e| e.into_inner()) {
      Some((m, l)) => m == mnem && *l == lang,
      None => false
    };
    if hit {
      return Ok(self.last_seed.lock().unwrap_or_else(|e| e.into_inner()).clone());
    }
    *self.last_mnemonic.lock().unwrap_or_else(|e| e.into_inner()) = Some((mnem.to_owned(), lang));
    let seed = seed_from_mnemonic(mnem, "", self.seed_size, lang).map_err(|err| Error::from(err))?;
    *self.last_seed.lock().unwrap_or_else(|e| e.into_inner()) = seed.clone();
    Ok(seed)
  }

  fn new_keychain_data(
    &self, seed''')]
MAIN='''
fn main() {
  quiet();
  watchdog(150);
  let m = c::manager();
  let w1 = c::create(&m, WORDS, "a").unwrap();
  let w2 = c::create(&m, WORDS2, "a").unwrap();
  let pk = |b: &[u8]| { let k = c::open(&m, b, "a").unwrap(); c::pub_key(&k, ETH, c::path(ETH, 0, 0, 0)).unwrap() };
  let right = [pk(&w1), pk(&w2)];
  let start = std::time::Instant::now();
  let stop = std::sync::atomic::AtomicBool::new(false);
  let bad = std::sync::atomic::AtomicUsize::new(0);
  use std::sync::atomic::Ordering::SeqCst;
  std::thread::scope(|s| for t in 0..8 {
    let (m, right, bad, stop) = (m, &right, &bad, &stop);
    s.spawn(move || {
      let m = &m;
      let mut i = t;
      while !stop.load(SeqCst) && start.elapsed().as_secs() < 60 {
        i += 1;
        let w = (i / 2) % 2;
        let b = c::create(m, [WORDS, WORDS2][w], "a").unwrap();
        let k = c::open(m, &b, "a").unwrap();
        if c::pub_key(&k, ETH, c::path(ETH, 0, 0, 0)).unwrap() != right[w] { bad.fetch_add(1, SeqCst); stop.store(true, SeqCst); }
      }
    });
  });
  if bad.load(SeqCst) > 0 { println!("a wallet created from one mnemonic has the keys of another"); std::process::exit(1); }
}
'''
