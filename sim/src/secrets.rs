//! What must not get out: every password, mnemonic, seed and private key of a run, in the forms
//! (raw, hexadecimal, base64, printed byte list) in which they could show up in an output.
use std::collections::HashSet;

const W: usize = 10;
const D: usize = 20;
#[derive(Default)]
pub struct Secrets { seen: HashSet<u64>, win: HashSet<[u8; W]>, dec: HashSet<[u8; D]>, short: Vec<Vec<u8>>, words: Vec<String> }

fn varied(w: &[u8], n: usize) -> bool { let mut s = w.to_vec(); s.sort_unstable(); s.dedup(); s.len() >= n }
impl Secrets {
  fn windows(&mut self, b: &[u8]) { for w in b.windows(W) { if varied(w, 5) { let mut a = [0; W]; a.copy_from_slice(w); self.win.insert(a); } } }
  fn encoded(&mut self, b: &[u8]) {
    for o in 0..3.min(b.len()) {
      let t = base64::encode(&b[o..]);
      let t = t.trim_end_matches('=');
      self.windows(&t.as_bytes()[..t.len().saturating_sub(1)]);
    }
  }
  /// bytes: a password, a seed, key data, a derived private key
  pub fn bytes(&mut self, b: &[u8]) {
    if !self.seen.insert(crate::types::fnv(b)) { return; }
    let b = &b[..b.len().min(400)];
    if b.len() < W { if b.len() >= 6 && varied(b, 5) { self.short.push(b.to_vec()); } } else { self.windows(b); }
    if b.len() < 8 { return; }
    let h = crate::types::hex(b);
    self.windows(h.as_bytes());
    self.windows(h.to_uppercase().as_bytes());
    for o in 0..3 {
      let t = base64::encode(&b[o..]);
      let t = t.trim_end_matches('=');
      let t = &t.as_bytes()[..t.len().saturating_sub(1)];
      self.windows(t);
      // as it lies in the stored content
      self.encoded(t);
    }
    let d = b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
    for w in d.as_bytes().windows(D) { if varied(w, 6) { let mut a = [0; D]; a.copy_from_slice(w); self.dec.insert(a); } }
  }
  /// a mnemonic: three words in a row (a single unknown word is rightly named in an error)
  pub fn mnemonic(&mut self, m: &str) {
    if !self.seen.insert(crate::types::fnv(m.as_bytes()) ^ 1) { return; }
    let w: Vec<&str> = m.split(' ').collect();
    if w.len() < 3 { return; }
    self.encoded(&m.as_bytes()[..m.len().min(600)]);
    let n = w.len() - 2;
    for i in 0..n { if i < 30 || i + 30 > n { for sep in [" ", ", ", "\", \"", "\u{3000}"].iter() { self.words.push(w[i..i + 3].join(sep)); } } }
  }
  /// contents that may not parse: every string in them that looks like a secret, and their stored form
  pub fn contents(&mut self, plain: &[u8]) {
    let mut strs: Vec<&[u8]> = plain.split(|c| *c == b'"').collect();
    if !strs.is_empty() { strs.remove(0); }
    for t in strs.iter().step_by(2) {
      if t.contains(&b' ') { if let Ok(t) = std::str::from_utf8(t) { self.mnemonic(t); } continue; }
      if t.len() < 22 { continue; }
      self.windows(&t[..t.len().min(4000)]);
      let good = t.iter().position(|c| !(c.is_ascii_alphanumeric() || *c == b'+' || *c == b'/')).unwrap_or(t.len());
      if let Ok(d) = base64::decode(&t[..good / 4 * 4]) {
        if d.first() == Some(&b'{') { self.contents(&d); } else { self.bytes(&d); }
      }
    }
  }
  /// is any of it in here, as it is or as a list of printed bytes?
  pub fn found(&self, out: &[u8]) -> bool {
    self.plain(out) || [10, 16].iter().any(|b| listed(out, *b).iter().any(|l| self.plain(l)))
  }
  fn plain(&self, out: &[u8]) -> bool {
    let mut a = [0; W];
    if out.windows(W).any(|w| { a.copy_from_slice(w); self.win.contains(&a) }) { return true; }
    let mut d = [0; D];
    if out.windows(D).any(|w| { d.copy_from_slice(w); self.dec.contains(&d) }) { return true; }
    if self.short.iter().any(|s| out.windows(s.len()).any(|w| w == &s[..])) { return true; }
    let text = String::from_utf8_lossy(out);
    self.words.iter().any(|s| text.contains(&s[..]))
  }
}
/// runs of numbers below 256 written in this base
fn listed(out: &[u8], base: u32) -> Vec<Vec<u8>> {
  let (mut all, mut run) = (vec![], vec![]);
  for t in out.split(|c| !c.is_ascii_alphanumeric()) {
    if t.is_empty() { continue; }
    let t = std::str::from_utf8(t).unwrap();
    let t = t.trim_start_matches("0x").trim_start_matches('x').trim_end_matches("u8");
    match u8::from_str_radix(t, base) {
      Ok(b) if t.len() < 4 => run.push(b),
      _ => { if run.len() >= 6 { all.push(std::mem::take(&mut run)); } run.clear(); }
    }
  }
  if run.len() >= 6 { all.push(run); }
  all
}
