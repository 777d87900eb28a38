P='C02'
NEEDS='a process that forks after it has used the library, and both processes then make wallets'
BREAKS='entropy is read ahead in blocks of 256 bytes; every byte is handed out once, but a forked child inherits the rest of the block and hands out the same bytes as its parent'
EDITS=[('keychain/src/entropy.rs','''  random: Mutex<OsRng>
''','''  ahead: Mutex<Vec<u8>>
'''),
('keychain/src/entropy.rs','Self { random: Mutex::new(OsRng) }','Self { ahead: Mutex::new(Vec::new()) }'),
('keychain/src/entropy.rs','''    let rand = &mut self.random.lock().unwrap_or_else(|err| err.into_inner());
    rand.fill_bytes(into);
''','''    let mut ahead = self.ahead.lock().unwrap_or_else(|err| err.into_inner());
    while ahead.len() < into.len() {
      let mut block = [0u8; 256];
      OsRng.fill_bytes(&mut block);
      ahead.extend_from_slice(&block);
    }
    let rest = ahead.len() - into.len();
    into.copy_from_slice(&ahead[rest..]);
    ahead.truncate(rest);
''')]
MAIN='''
extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn pipe(p: *mut i32) -> i32; fn read(f: i32, b: *mut u8, n: usize) -> isize; fn write(f: i32, b: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
fn main() {
  let m = KeychainManager::new().unwrap();
  let seed = [7u8; 64];
  m.keychain_data_from_seed(&seed, "a").unwrap();
  unsafe {
    let mut p = [0i32; 2];
    assert_eq!(pipe(p.as_mut_ptr()), 0);
    let pid = fork();
    if pid == 0 { BYTE.store(1 << 40, std::sync::atomic::Ordering::SeqCst); }
    let b = m.keychain_data_from_seed(&seed, "a").unwrap();
    if pid == 0 { write(p[1], b.as_ptr(), 44); _exit(0); }
    let mut c = [0u8; 44];
    assert_eq!(read(p[0], c.as_mut_ptr(), 44), 44);
    let mut s = 0;
    waitpid(pid, &mut s, 0);
    if c[..32] == b[..32] || c[32..44] == b[32..44] { println!("parent and child used the same random bytes"); std::process::exit(1); }
  }
}
'''
