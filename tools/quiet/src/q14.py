# entropy: taken in larger pieces ahead of time, each byte handed out once, nothing kept after a failure
F='keychain/src/entropy.rs'
EDITS=[(F,'''pub struct OsEntropy {
  random: Mutex<OsRng>
}
''','''pub struct OsEntropy {
  pool: Mutex<Vec<u8>>
}
'''),(F,'Self { random: Mutex::new(OsRng) }','Self { pool: Mutex::new(Vec::new()) }'),(F,'''    // OsRng has no state a panicking read could corrupt, so a poisoned lock is still usable
    let rand = &mut self.random.lock().unwrap_or_else(|err| err.into_inner());
    rand.fill_bytes(into);
''','''    let mut pool = self.pool.lock().unwrap_or_else(|err| err.into_inner());
    for byte in into.iter_mut() {
      if pool.is_empty() {
        let mut fresh = [0u8; 128];
        OsRng.fill_bytes(&mut fresh);
        pool.extend_from_slice(&fresh);
      }
      *byte = pool.pop().unwrap();
    }
''')]
