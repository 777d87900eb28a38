P='C01'
NEEDS='two threads deriving Bitcoin or Ethereum keys at the same time, with a switch between writing and reading the serialised parent key'
BREAKS='the input of a derivation step is put together in one buffer shared by all threads, so a key can be derived from another thread\'s parent'
EDITS=[('secp256k1_bip32/src/private.rs','''pub struct XPrv {
''','''// big enough for a key of either form and the index
const STEP_SIZE: usize = util::SECRET_KEY_SIZE + data_layout::INDEX_SIZE + 1;
static STEP: [AtomicU8; STEP_SIZE] = [EMPTY; STEP_SIZE];
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: AtomicU8 = AtomicU8::new(0);

pub struct XPrv {
'''),
('secp256k1_bip32/src/private.rs','use secp256k1::{sign,','use std::sync::atomic::{AtomicU8, Ordering};\n\nuse secp256k1::{sign,'),
('secp256k1_bip32/src/private.rs','''      let mut input = Vec::with_capacity(util::SECRET_KEY_SIZE + INDEX_SIZE + 1);
      input.push(0x00);
      input.extend_from_slice(&self.key.serialize());
      if input.write_u32::<BigEndian>(index).is_err() {
        return Err(KeyError::InternalError);
      }
      hmac.input(&input);
''','''      let key = self.key.serialize();
      STEP[0].store(0, Ordering::Relaxed);
      for (to, from) in STEP[1..].iter().zip(key.iter()) {
        to.store(*from, Ordering::Relaxed);
      }
      for (to, from) in STEP[1 + key.len()..].iter().zip(index.to_be_bytes().iter()) {
        to.store(*from, Ordering::Relaxed);
      }
      let input: Vec<u8> = STEP.iter().map(|byte| byte.load(Ordering::Relaxed)).collect();
      hmac.input(&input);
''')]
MAIN='''
fn main() {
  quiet();
  let m = c::manager();
  let b = c::create(&m, WORDS, "a").unwrap();
  let b2 = c::create(&m, WORDS2, "a").unwrap();
  let (k, k2) = (c::open(&m, &b, "a").unwrap(), c::open(&m, &b2, "a").unwrap());
  let bad = std::sync::atomic::AtomicBool::new(false);
  let start = std::time::Instant::now();
  std::thread::scope(|s| for t in 0..8 {
    let (k, bad) = (if t % 2 == 0 { &k } else { &k2 }, &bad);
    s.spawn(move || {
      let want = c::pub_key(k, BTC, c::path(BTC, t, 0, 0));
      let mut n = [0usize; 2];
      while start.elapsed().as_secs() < 60 && !bad.load(std::sync::atomic::Ordering::SeqCst) {
        let got = c::pub_key(k, BTC, c::path(BTC, t, 0, 0));
        n[(got == want) as usize] += 1;
        if n[0] > 0 && n[1] > 0 { bad.store(true, std::sync::atomic::Ordering::SeqCst); }
      }
    });
  });
  if bad.load(std::sync::atomic::Ordering::SeqCst) { println!("one path, two keys"); std::process::exit(1); }
}
'''
