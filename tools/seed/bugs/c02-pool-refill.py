P='C02'
NEEDS='enough entropy use on one manager (hundreds of bytes) to make the pool refill, at a read that does not end exactly at the end of the pool'
BREAKS='entropy is read in blocks of 512 bytes; after a refill the bytes handed out are not marked as used, so the salt and the nonce (or the next salt, or a mnemonic) share bytes'
EDITS=[('keychain/src/entropy.rs','''  random: Mutex<OsRng>
''','''  pool: Mutex<Pool>
}

struct Pool {
  bytes: [u8; POOL_SIZE],
  used: usize
'''),
('keychain/src/entropy.rs','pub struct OsEntropy {','const POOL_SIZE: usize = 512;\n\npub struct OsEntropy {'),
('keychain/src/entropy.rs','Self { random: Mutex::new(OsRng) }','Self { pool: Mutex::new(Pool { bytes: [0; POOL_SIZE], used: POOL_SIZE }) }'),
('keychain/src/entropy.rs','''    let rand = &mut self.random.lock().unwrap_or_else(|err| err.into_inner());
    rand.fill_bytes(into);
''','''    let mut pool = self.pool.lock().unwrap_or_else(|err| err.into_inner());
    if into.len() > POOL_SIZE {
      OsRng.fill_bytes(into);
      return;
    }
    if pool.used + into.len() > POOL_SIZE {
      pool.used = POOL_SIZE;
      OsRng.fill_bytes(&mut pool.bytes);
      pool.used = 0;
      into.copy_from_slice(&pool.bytes[..into.len()]);
      return;
    }
    let from = pool.used;
    into.copy_from_slice(&pool.bytes[from..from + into.len()]);
    pool.used += into.len();
''')]
MAIN='''
fn main() {
  let m = KeychainManager::new().unwrap();
  let seed = [7u8; 64];
  let mut seen = std::collections::HashSet::new();
  for i in 0..60 {
    let b = m.keychain_data_from_seed(&seed, "a").unwrap();
    let (salt, nonce) = (&b[..32], &b[32..44]);
    for v in [&salt[..12], &salt[12..24], nonce] {
      if !seen.insert(v.to_vec()) { println!("blob {} reuses random bytes", i); std::process::exit(1); }
    }
  }
}
'''
