P='C03'
NEEDS='an outage while the block of prefetched entropy is being refilled, and a call after the source is back'
BREAKS='the position in the block is reset before the block is refilled, so after a failed refill the calls are served from the old block, whose bytes are in use already'
EDITS=[('keychain/src/entropy.rs','''  random: Mutex<OsRng>
''','''  random: Mutex<(usize, [u8; BLOCK])>
'''),
('keychain/src/entropy.rs','pub struct OsEntropy {','const BLOCK: usize = 256;\n\npub struct OsEntropy {'),
('keychain/src/entropy.rs','Mutex::new(OsRng)','Mutex::new((BLOCK, [0; BLOCK]))'),
('keychain/src/entropy.rs','''    let rand = &mut self.random.lock().unwrap_or_else(|err| err.into_inner());
    rand.fill_bytes(into);
''','''    let (next, block) = &mut *self.random.lock().unwrap_or_else(|err| err.into_inner());
    for byte in into.iter_mut() {
      if *next == BLOCK {
        *next = 0;
        OsRng.fill_bytes(block);
      }
      *byte = block[*next];
      *next += 1;
    }
''')]
MAIN='''
fn main() {
  quiet();
  let m = KeychainManager::new().unwrap();
  let mut seen = std::collections::HashSet::new();
  let mut make = |seen: &mut std::collections::HashSet<Vec<u8>>| catch(|| m.keychain_data_from_seed(&[7u8; 64], "a").unwrap()).map_or(true, |b| seen.insert(b[..16].to_vec()));
  for _ in 0..5 { assert!(make(&mut seen)); }
  outage(true);
  for _ in 0..5 { make(&mut seen); }
  outage(false);
  for _ in 0..10 { if !make(&mut seen) { println!("a salt is used again"); std::process::exit(1); } }
}
'''
