P='C02'
NEEDS='an entropy outage exactly when the stock of random bytes is refilled, then a working source'
BREAKS='the position in the stock is reset before the refill that fails, so bytes already used are used again'
EDITS=[('keychain/src/entropy.rs','''  random: Mutex<OsRng>
''','''  random: Mutex<Stock>
'''),('keychain/src/entropy.rs','''pub struct OsEntropy {
''','''// random bytes are read in blocks
struct Stock {
  block: [u8; 256],
  used: usize
}

pub struct OsEntropy {
'''),('keychain/src/entropy.rs','Self { random: Mutex::new(OsRng) }','Self { random: Mutex::new(Stock { block: [0; 256], used: 256 }) }'),
('keychain/src/entropy.rs','''    rand.fill_bytes(into);
''','''    for byte in into.iter_mut() {
      if rand.used == rand.block.len() {
        rand.used = 0;
        OsRng.fill_bytes(&mut rand.block);
      }
      *byte = std::mem::replace(&mut rand.block[rand.used], 0);
      rand.used += 1;
    }
''')]
EDITS[-1]=('keychain/src/entropy.rs',EDITS[-1][1],EDITS[-1][2].replace('std::mem::replace(&mut rand.block[rand.used], 0)','rand.block[rand.used]'))
MAIN='''
fn main() {
  quiet();
  let m = KeychainManager::new().unwrap();
  let mut seen = std::collections::HashSet::new();
  let mut again = 0;
  for round in 0..40 {
    outage(round % 5 == 1);
    if let Some(Ok(b)) = catch(|| m.generate_mnemonic(None)) { if !seen.insert(b) { again += 1; } }
  }
  outage(false);
  for _ in 0..40 { if let Some(Ok(b)) = catch(|| m.generate_mnemonic(None)) { if !seen.insert(b) { again += 1; } } }
  if again > 0 { println!("{} mnemonics came twice", again); std::process::exit(1); }
}
'''
