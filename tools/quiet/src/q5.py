# entropy: reads in pieces, each tried up to three times, under a read-write lock
F='keychain/src/entropy.rs'
EDITS=[(F,'use std::sync::Mutex;','use std::sync::RwLock;'),(F,'random: Mutex<OsRng>','random: RwLock<OsRng>'),(F,'Mutex::new(OsRng)','RwLock::new(OsRng)'),(F,'''    let rand = &mut self.random.lock().unwrap_or_else(|err| err.into_inner());
    rand.fill_bytes(into);
''','''    let mut rand = self.random.write().unwrap_or_else(|err| err.into_inner());
    for part in into.chunks_mut(16) {
      let mut tries = 0;
      while let Err(err) = rand.try_fill_bytes(part) {
        tries += 1;
        assert!(tries < 3, "Error: {}", err);
      }
    }
''')]
