P='C04'
NEEDS='a wallet of more than 2 kB that was opened, then damaged in the middle'
BREAKS='the content of large wallets is remembered under their length, head and tail'
EDITS=[('keychain/src/crypt.rs','use std::iter::repeat;\n','use std::iter::repeat;\nuse std::sync::Mutex;\n\ntype Opened = Option<(usize, Vec<u8>, Vec<u8>, String, Vec<u8>)>;\n\n// the last large content: decrypting it again takes long\nstatic LARGE: Mutex<Opened> = Mutex::new(None);\n'),
('keychain/src/crypt.rs','''  let salt = &data[SALT_START..SALT_END];
''','''  let large = data.len() > 2048;
  let (head, tail) = (&data[..METADATA_SIZE], &data[data.len() - TAG_SIZE..]);
  if large {
    if let Ok(last) = LARGE.lock() {
      if let Some((len, h, t, pw, content)) = last.as_ref() {
        if *len == data.len() && &h[..] == head && &t[..] == tail && pw == password {
          return Ok(content.clone());
        }
      }
    }
  }

  let salt = &data[SALT_START..SALT_END];
'''),
('keychain/src/crypt.rs','''  if decryption_succeed {
    Ok(decrypted)
''','''  if decryption_succeed {
    if large {
      if let Ok(mut last) = LARGE.lock() {
        let content = decrypted.clone();
        *last = Some((data.len(), head.to_vec(), tail.to_vec(), password.to_owned(), content));
      }
    }
    Ok(decrypted)
''')]
MAIN='''
struct Z;
impl Entropy for Z { fn fill_bytes(&self, b: &mut [u8]) { for x in b { *x = 5; } } }
fn main() {
  let mut b = keychain::crypt::encrypt(&[7u8; 3000], "a", &Z);
  assert!(keychain::crypt::decrypt(&b, "a").unwrap() == vec![7u8; 3000]);
  b[1000] ^= 1;
  if keychain::crypt::decrypt(&b, "a").is_ok() { println!("damage is not noticed"); std::process::exit(1); }
}
'''
