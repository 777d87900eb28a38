# entropy: no lock around a generator without state
F='keychain/src/entropy.rs'
EDITS=[(F,'''use std::sync::Mutex;
''',''),(F,'''pub struct OsEntropy {
  random: Mutex<OsRng>
}
''','''pub struct OsEntropy;
'''),(F,'''    Self { random: Mutex::new(OsRng) }
''','''    OsEntropy
'''),(F,'''    // OsRng has no state a panicking read could corrupt, so a poisoned lock is still usable
    let rand = &mut self.random.lock().unwrap_or_else(|err| err.into_inner());
    rand.fill_bytes(into);
''','''    if let Err(err) = OsRng.try_fill_bytes(into) {
      panic!("Can't read entropy: {}", err);
    }
''')]
