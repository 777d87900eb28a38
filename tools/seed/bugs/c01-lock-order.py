P='C01'
NEEDS='one thread signing and another verifying on the same keychain, with a switch between the two lock acquisitions of each'
BREAKS='signing and verifying take the two locks of a usage record in opposite orders, so the two threads block each other for good'
EDITS=[('keychain/src/keychain.rs','use std::collections::HashMap;\n','use std::collections::HashMap;\nuse std::sync::{Mutex, MutexGuard};\n'),
('keychain/src/keychain.rs','''  keys: HashMap<Network, Box<dyn Key>>
}
''','''  keys: HashMap<Network, Box<dyn Key>>,
  signed: Mutex<u64>,
  verified: Mutex<u64>
}

fn lock<T>(mutex: &Mutex<T>) -> MutexGuard<T> {
  mutex.lock().unwrap_or_else(|err| err.into_inner())
}
'''),
('keychain/src/keychain.rs','Keychain { keys: converted }','Keychain { keys: converted, signed: Mutex::new(0), verified: Mutex::new(0) }'),
('keychain/src/keychain.rs','''    self._pk(network)?.sign(data, path).map_err(|err| Error::from_key_error(network, err))
''','''    let signature =
      self._pk(network)?.sign(data, path).map_err(|err| Error::from_key_error(network, err))?;
    let mut signed = lock(&self.signed);
    // the counters are kept within one range of each other
    *signed = (*signed + 1).max(*lock(&self.verified) / 2);
    Ok(signature)
'''),
('keychain/src/keychain.rs','''    self
      ._pk(network)?
      .verify(data, signature, path)
      .map_err(|err| Error::from_key_error(network, err))
''','''    let valid = self
      ._pk(network)?
      .verify(data, signature, path)
      .map_err(|err| Error::from_key_error(network, err))?;
    let mut verified = lock(&self.verified);
    *verified = (*verified + 1).max(*lock(&self.signed) / 2);
    Ok(valid)
''')]
MAIN='''
fn main() {
  quiet();
  watchdog(100);
  let m = c::manager();
  let b = c::create(&m, WORDS, "a").unwrap();
  let k = c::open(&m, &b, "a").unwrap();
  let start = std::time::Instant::now();
  std::thread::scope(|s| for t in 0..8 {
    let k = &k;
    s.spawn(move || {
      let mut i = 0u32;
      while start.elapsed().as_secs() < 40 {
        i += 1;
        unsafe {
          let (mut d, mut e, mut ok) = (c::D0, c::E0, false);
          // an address that is refused quickly is no use here: both calls have to get to their end
          if t % 2 == 0 {
            assert!(c::keychain_sign(k, ADA, b"m".as_ptr(), 1, c::path(ADA, 0, 0, i % 100), &mut d, &mut e));
            c::delete_data(&mut d);
          } else {
            assert!(c::keychain_verify(k, ADA, b"m".as_ptr(), 1, [0u8; 64].as_ptr(), 64, c::path(ADA, 0, 0, i % 100), &mut ok, &mut e));
          }
        }
      }
    });
  });
}
'''
