//! The reference model: an independent, sequential description of what every call must do.
//! Trusted primitives only: HMAC/SHA/Keccak/ChaCha20-Poly1305/Ed25519 (cryptoxide), secp256k1
//! (libsecp256k1), ed25519-bip32, RIPEMD-160, serde_json values, base64. Everything above them
//! (formats, key derivation, mnemonics, paths, wallet contents) is written here from the standards
//! and the frozen storage format, and never calls the repository's crates.
use crate::types::*;
use cryptoxide::chacha20poly1305::ChaCha20Poly1305;
use cryptoxide::digest::Digest;
use cryptoxide::hmac::Hmac;
use cryptoxide::mac::Mac;
use cryptoxide::sha2::{Sha256, Sha512};
use cryptoxide::sha3::Sha3;
use std::collections::BTreeMap;

pub const ITERS: u32 = 19_162;
pub const HARD: u32 = 0x8000_0000;
const DICTS: [&str; 8] = [
  include_str!("../dicts/english.txt"), include_str!("../dicts/french.txt"), include_str!("../dicts/japanese.txt"), include_str!("../dicts/korean.txt"),
  include_str!("../dicts/chinese_simplified.txt"), include_str!("../dicts/chinese_traditional.txt"), include_str!("../dicts/italian.txt"), include_str!("../dicts/spanish.txt"),
];
pub const LANGS: [&str; 8] = ["English", "French", "Japanese", "Korean", "ChineseSimplified", "ChineseTraditional", "Italian", "Spanish"];

pub struct Dict { pub words: Vec<&'static str>, pub index: BTreeMap<&'static str, u16> }
thread_local! { static D: Vec<Dict> = DICTS.iter().map(|d| {
  let words: Vec<&'static str> = d.lines().collect();
  assert_eq!(words.len(), 2048);
  let index = words.iter().enumerate().map(|(i, w)| (*w, i as u16)).collect();
  Dict { words, index }
}).collect() }
pub fn word(lang: u8, i: u16) -> &'static str { D.with(|d| d[lang as usize].words[i as usize]) }
pub fn word_index(lang: u8, w: &str) -> Option<u16> { D.with(|d| d[lang as usize].index.get(w).cloned()) }

pub fn sha256(parts: &[&[u8]]) -> [u8; 32] { let mut h = Sha256::new(); for p in parts { h.input(p); } let mut o = [0; 32]; h.result(&mut o); o }
pub fn sha512(parts: &[&[u8]]) -> [u8; 64] { let mut h = Sha512::new(); for p in parts { h.input(p); } let mut o = [0; 64]; h.result(&mut o); o }
pub fn keccak(d: &[u8]) -> [u8; 32] { let mut h = Sha3::keccak256(); h.input(d); let mut o = [0; 32]; h.result(&mut o); o }
pub fn hmac512(key: &[u8], parts: &[&[u8]]) -> [u8; 64] {
  let mut m = Hmac::new(Sha512::new(), key);
  for p in parts { m.input(p); }
  let mut o = [0; 64];
  m.raw_result(&mut o);
  o
}
pub fn pbkdf2_512(pw: &[u8], salt: &[u8], c: u32, n: usize) -> Vec<u8> {
  let mut m = Hmac::new(Sha512::new(), pw);
  let mut out = Vec::new();
  let mut i = 1u32;
  while out.len() < n {
    m.input(salt); m.input(&i.to_be_bytes());
    let mut u = [0u8; 64]; m.raw_result(&mut u); m.reset();
    let mut t = u;
    for _ in 1..c { m.input(&u); m.raw_result(&mut u); m.reset(); for k in 0..64 { t[k] ^= u[k]; } }
    out.extend_from_slice(&t);
    i += 1;
  }
  out.truncate(n);
  out
}
/// two passwords HMAC can not tell apart (zero padding; over-long keys are hashed)
pub fn same_key(a: &str, b: &str) -> bool {
  fn norm(s: &str) -> Vec<u8> {
    let mut v = if s.len() > 128 { sha512(&[s.as_bytes()]).to_vec() } else { s.as_bytes().to_vec() };
    while v.last() == Some(&0) { v.pop(); }
    v
  }
  norm(a) == norm(b)
}

pub fn seal(full: bool, plain: &[u8], pw: &str, salt: &[u8], nonce: &[u8]) -> Vec<u8> {
  seal_key(&pbkdf2_512(pw.as_bytes(), salt, kdf_iters(full, ITERS), 32), plain, salt, nonce)
}
pub fn seal_key(key: &[u8], plain: &[u8], salt: &[u8], nonce: &[u8]) -> Vec<u8> {
  let mut ct = vec![0; plain.len()];
  let mut tag = [0; 16];
  ChaCha20Poly1305::new(key, nonce, &[]).encrypt(plain, &mut ct, &mut tag);
  [salt, nonce, &tag, &ct].concat()
}
pub fn unseal(full: bool, blob: &[u8], pw: &str) -> Option<Vec<u8>> {
  if blob.len() <= 60 { return None; }
  let key = pbkdf2_512(pw.as_bytes(), &blob[..32], kdf_iters(full, ITERS), 32);
  let mut p = vec![0; blob.len() - 60];
  if ChaCha20Poly1305::new(&key, &blob[32..44], &[]).decrypt(&blob[60..], &mut p, &blob[44..60]) { Some(p) } else { None }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Content { pub seed: Option<Vec<u8>>, pub mnemonic: Option<String>, pub dict: Option<u8>, pub keys: BTreeMap<u32, Vec<u8>> }

/// decodes wallet content; None: not a valid wallet
pub fn parse_content(plain: &[u8]) -> Option<Content> {
  use serde_json::Value;
  let outer: Value = serde_json::from_slice(plain).ok()?;
  let ver = outer.get("version")?.as_u64()?;
  let data = base64::decode(outer.get("data")?.as_str()?).ok()?;
  let v: Value = serde_json::from_slice(&data).ok()?;
  let o = v.as_object()?;
  let mut c = Content::default();
  for e in o.get("keys")?.as_array()? {
    let e = e.as_array()?;
    if e.len() != 2 { return None; }
    let n = e[0].as_u64()?;
    if n > u32::MAX as u64 { return None; }
    c.keys.insert(n as u32, base64::decode(e[1].as_str()?).ok()?);
  }
  match ver {
    1 => Some(c),
    2 => {
      match o.get("seed")? { Value::Null => {} Value::String(s) => c.seed = Some(base64::decode(s).ok()?), _ => return None }
      match o.get("mnemonic") { None | Some(Value::Null) => {} Some(Value::String(s)) => c.mnemonic = Some(s.clone()), _ => return None }
      match o.get("dictionary") {
        None | Some(Value::Null) => {}
        Some(Value::String(s)) => c.dict = Some(LANGS.iter().position(|l| l == s)? as u8),
        _ => return None,
      }
      Some(c)
    }
    _ => None,
  }
}
pub fn content_json(c: &Content, ver: u32) -> Vec<u8> {
  let keys: Vec<serde_json::Value> = c.keys.iter().map(|(n, k)| serde_json::json!([n, base64::encode(k)])).collect();
  let inner = if ver == 1 { serde_json::json!({ "keys": keys }) } else {
    serde_json::json!({ "seed": c.seed.as_ref().map(|s| base64::encode(s)), "mnemonic": c.mnemonic, "dictionary": c.dict.map(|d| LANGS[d as usize]), "keys": keys })
  };
  serde_json::json!({ "version": ver, "data": base64::encode(&inner.to_string()) }).to_string().into_bytes()
}

// ------------------------------------------------------------------ mnemonics
pub fn entropy_to_words(ent: &[u8]) -> Vec<u16> {
  let n = ent.len() * 8 / 32 * 3;
  let all = [ent, &sha256(&[ent])[..]].concat();
  (0..n).map(|w| (0..11).fold(0u16, |a, b| { let bit = w * 11 + b; a << 1 | (all[bit / 8] >> (7 - bit % 8) & 1) as u16 })).collect()
}
pub fn sentence(words: &[u16], lang: u8) -> String { words.iter().map(|&i| word(lang, i)).collect::<Vec<_>>().join(" ") }
/// entropy of a sentence whose checksum holds
pub fn sentence_entropy(s: &str, lang: u8) -> Option<Vec<u8>> {
  let w: Option<Vec<u16>> = s.split(' ').map(|w| word_index(lang, w)).collect();
  let w = w?;
  if ![9, 12, 15, 18, 21, 24].contains(&w.len()) { return None; }
  let bits: Vec<u8> = w.iter().flat_map(|x| (0..11).rev().map(move |b| (x >> b & 1) as u8)).collect();
  let n = w.len() / 3 * 32;
  let ent: Vec<u8> = bits[..n].chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | b)).collect();
  if entropy_to_words(&ent) == w { Some(ent) } else { None }
}
/// the 64-byte seed a keychain derives; checksum of the sentence is not its business
pub fn sentence_seed(full: bool, s: &str, lang: u8, words: usize) -> Option<Vec<u8>> {
  let n = s.split(' ').count();
  if s.split(' ').any(|w| word_index(lang, w).is_none()) || n != words || ![9, 12, 15, 18, 21, 24].contains(&n) { return None; }
  Some(pbkdf2_512(s.as_bytes(), b"mnemonic", kdf_iters(full, 2048), 64))
}

// ------------------------------------------------------------------ keys
#[derive(Clone)]
pub struct Secp { pub depth: u8, pub fp: [u8; 4], pub idx: u32, pub chain: [u8; 32], pub key: [u8; 32] }
impl Secp {
  pub fn from_seed(seed: &[u8]) -> Secp {
    let i = hmac512(b"Bitcoin seed", &[seed]);
    let mut s = Secp { depth: 0, fp: [0; 4], idx: 0, chain: [0; 32], key: [0; 32] };
    s.key.copy_from_slice(&i[..32]); s.chain.copy_from_slice(&i[32..]);
    s
  }
  pub fn bytes(&self) -> Vec<u8> {
    let mut v = vec![self.depth];
    v.extend_from_slice(&self.fp); v.extend_from_slice(&self.idx.to_be_bytes()); v.extend_from_slice(&self.chain); v.extend_from_slice(&self.key);
    let c = sha256(&[&sha256(&[&v])]);
    v.extend_from_slice(&c[..4]);
    v
  }
  pub fn parse(d: &[u8]) -> Option<Secp> {
    if d.len() != 77 { return None; }
    let c = sha256(&[&sha256(&[&d[..73]])]);
    if c[..4] != d[73..] { return None; }
    let mut s = Secp { depth: d[0], fp: [0; 4], idx: u32::from_be_bytes([d[5], d[6], d[7], d[8]]), chain: [0; 32], key: [0; 32] };
    s.fp.copy_from_slice(&d[1..5]); s.chain.copy_from_slice(&d[9..41]); s.key.copy_from_slice(&d[41..73]);
    secp256k1::SecretKey::parse(&s.key).ok()?;
    Some(s)
  }
  fn sk(&self) -> secp256k1::SecretKey { secp256k1::SecretKey::parse(&self.key).unwrap() }
  pub fn public(&self) -> secp256k1::PublicKey { secp256k1::PublicKey::from_secret_key(&self.sk()) }
  pub fn derive(&self, i: u32) -> Option<Secp> {
    if self.depth == 255 { return None; }
    let pubc = self.public().serialize_compressed();
    let h = if i >= HARD { hmac512(&self.chain, &[&[0], &self.key, &i.to_be_bytes()]) } else { hmac512(&self.chain, &[&pubc, &i.to_be_bytes()]) };
    let mut k = self.sk();
    k.tweak_add_assign(&secp256k1::SecretKey::parse_slice(&h[..32]).ok()?).ok()?;
    let mut s = Secp { depth: self.depth + 1, fp: [0; 4], idx: i, chain: [0; 32], key: k.serialize() };
    s.chain.copy_from_slice(&h[32..]);
    use ripemd160::Digest as RD;
    let mut r = ripemd160::Ripemd160::new();
    r.input(&sha256(&[&pubc]));
    s.fp.copy_from_slice(&r.result()[..4]);
    Some(s)
  }
}
pub fn ada_root(seed: &[u8]) -> Vec<u8> {
  let mut o = sha512(&[&seed[..32]]).to_vec();
  o[0] &= 0xf8; o[31] = (o[31] & 0x1f) | 0x40;
  o.extend_from_slice(&seed[32..64]);
  o
}
pub fn plug_data(id: u32, seed: &[u8], dlen: usize) -> Vec<u8> {
  let mut v = id.to_be_bytes().to_vec();
  let mut c = 0u32;
  while v.len() < dlen { v.extend_from_slice(&sha512(&[b"plug", &id.to_be_bytes(), &c.to_be_bytes(), seed])); c += 1; }
  v.truncate(dlen.max(4));
  v
}
pub fn plug_pub(data: &[u8], p: &KP) -> Vec<u8> { sha256(&[b"P", data, &kp_bytes(p)]).to_vec() }
pub fn plug_sign(data: &[u8], p: &KP, msg: &[u8]) -> Vec<u8> { sha512(&[b"S", data, &kp_bytes(p), msg]).to_vec() }
pub fn kp_bytes(p: &KP) -> Vec<u8> { [p.p, p.c, p.a, p.h, p.i].iter().flat_map(|x| x.to_be_bytes().to_vec()).collect() }

pub enum Node { S(Secp), A(ed25519_bip32::XPrv), P(Vec<u8>, KP) }
pub fn key_data(net: u32, seed: &[u8], plug: Option<&Plug>) -> Vec<u8> {
  if let Some(p) = plug { return plug_data(p.id, seed, p.dlen); }
  match net { ADA => ada_root(seed), _ => Secp::from_seed(seed).bytes() }
}
/// does the key data load at all?
pub fn key_loads(net: u32, data: &[u8], plug: Option<&Plug>) -> bool {
  if let Some(p) = plug { return data.len() == p.dlen.max(4) && data[..4] == p.id.to_be_bytes(); }
  match net {
    ADA => data.len() == 96 && data[31] & 0xe0 == 0x40 && data[0] & 7 == 0,
    ETH => Secp::parse(data).map_or(false, |s| s.depth <= 253),
    _ => Secp::parse(data).is_some(),
  }
}
/// derives the node of a path; None: the path is not valid for the network
pub fn node(net: u32, data: &[u8], p: &KP, plug: bool) -> Option<Node> {
  if plug { return Some(Node::P(data.to_vec(), *p)); }
  if p.a < HARD || p.h > 1 || p.i >= HARD { return None; }
  if net != BTC && p.p != HARD + 44 { return None; }
  if p.c != net { return None; }
  if net == ADA {
    let mut b = [0; 96]; b.copy_from_slice(data);
    let mut x = ed25519_bip32::XPrv::from_bytes_verified(b).ok()?;
    for i in [p.p, p.c, p.a, p.h, p.i].iter() { x = x.derive(ed25519_bip32::DerivationScheme::V2, *i); }
    Some(Node::A(x))
  } else {
    let mut s = Secp::parse(data)?;
    for i in [p.p, p.c, p.a, p.h, p.i].iter() { s = s.derive(*i)?; }
    Some(Node::S(s))
  }
}
impl Node {
  pub fn public(&self) -> Vec<u8> {
    match self {
      Node::S(s) => s.public().serialize().to_vec(),
      Node::A(x) => { let p = x.public(); let b: &[u8] = p.as_ref(); b.to_vec() }
      Node::P(d, p) => plug_pub(d, p),
    }
  }
  pub fn sign(&self, msg: &[u8]) -> Vec<u8> {
    match self {
      Node::S(s) => {
        let m = secp256k1::Message::parse(&keccak(msg));
        let (sig, rec) = secp256k1::sign(&m, &s.sk()).unwrap();
        let mut v = sig.serialize().to_vec();
        v.push(rec.serialize());
        v
      }
      Node::A(x) => { let s: ed25519_bip32::Signature<Vec<u8>> = x.sign(msg); let b: &[u8] = s.as_ref(); b.to_vec() }
      Node::P(d, p) => plug_sign(d, p, msg),
    }
  }
  /// is this any valid signature at all (a re-encoding of an authentic one may be)?
  pub fn valid(&self, msg: &[u8], sig: &[u8]) -> bool {
    match self {
      Node::S(s) => {
        if sig.len() != 64 && sig.len() != 65 { return false; }
        let m = secp256k1::Message::parse(&keccak(msg));
        let g = match secp256k1::Signature::parse_slice(&sig[..64]) { Ok(g) => g, Err(_) => return false };
        if g.s.is_high() { return false; }
        let p = s.public();
        if !secp256k1::verify(&m, &g, &p) { return false; }
        sig.len() == 64 || secp256k1::RecoveryId::parse(sig[64]).ok().and_then(|r| secp256k1::recover(&m, &g, &r).ok()).map_or(false, |k| k == p)
      }
      Node::A(x) => {
        if sig.len() != 64 { return false; }
        let mut b = [0; 64]; b.copy_from_slice(sig);
        let s: ed25519_bip32::Signature<Vec<u8>> = ed25519_bip32::Signature::from_bytes(b);
        x.verify(msg, &s)
      }
      Node::P(d, p) => plug_sign(d, p, msg) == sig,
    }
  }
}

/// n - s; false when s is 0
pub fn neg_s(s: &mut [u8]) -> bool {
  const N: [u8; 32] = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
  if s.iter().all(|b| *b == 0) || &s[..] >= &N[..] { return false; }
  let mut borrow = 0i32;
  for i in (0..32).rev() { let d = N[i] as i32 - s[i] as i32 - borrow; s[i] = d as u8; borrow = (d < 0) as i32; }
  true
}
/// s + the order of the Ed25519 base point, little endian
pub fn add_l(s: &mut [u8]) {
  const L: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
  let mut c = 0u32;
  for i in 0..32 { c += s[i] as u32 + L[i] as u32; s[i] = c as u8; c >>= 8; }
}

// ------------------------------------------------------------------ key paths
/// Ok: the path; Err(true): must be refused; Err(false): either way (forms the text format leaves open)
pub fn path_model(p: &PathOp) -> Result<KP, bool> {
  match p {
    PathOp::Eth(a) => if *a < HARD { Ok(KP { p: HARD + 44, c: ETH, a: a + HARD, h: 0, i: 0 }) } else { Err(true) },
    PathOp::Meta(a) => if *a < HARD { Ok(KP { p: HARD + 44, c: ETH, a: HARD, h: 0, i: *a }) } else { Err(true) },
    PathOp::Ada(a, h, i) => if *a < HARD && *h < 2 && *i < HARD { Ok(KP { p: HARD + 44, c: ADA, a: a + HARD, h: *h, i: *i }) } else { Err(true) },
    PathOp::Btc(pu, test, a, h, i) => if *a < HARD && *h < 2 && *i < HARD { Ok(KP { p: HARD + *pu as u32, c: BTC + *test as u32, a: a + HARD, h: *h, i: *i }) } else { Err(true) },
    PathOp::Text(b) => {
      let s = match std::str::from_utf8(&b.0) { Ok(s) => s, Err(_) => return Err(true) };
      let parts: Vec<&str> = s.split('/').map(|x| x.trim()).collect();
      if parts.len() != 6 || parts[0] != "m" { return Err(true); }
      let mut v = [0u32; 5];
      let mut open = false;
      for (k, t) in parts[1..].iter().enumerate() {
        let (d, hard) = match t.strip_suffix('\'') { Some(d) => (d, true), None => (*t, false) };
        let digits = d.strip_prefix('+').unwrap_or(d);
        if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) { return Err(true); }
        if digits.len() != d.len() { open = true; }
        let n: u64 = match digits.trim_start_matches('0') { "" => 0, x if x.len() > 10 => return Err(true), x => x.parse().unwrap() };
        let n = if hard { if n >= HARD as u64 { return Err(true); } n + HARD as u64 } else { n };
        if n > u32::MAX as u64 { return Err(true); }
        v[k] = n as u32;
      }
      if open { return Err(false); }
      Ok(KP { p: v[0], c: v[1], a: v[2], h: v[3], i: v[4] })
    }
  }
}

/// the parts of a path text that are wrong: their number if it is not six, else their positions
pub fn bad_parts(b: &[u8]) -> Option<Vec<u64>> {
  let s = std::str::from_utf8(b).ok()?;
  let parts: Vec<&str> = s.split('/').map(|x| x.trim()).collect();
  if parts.len() != 6 { return Some(vec![parts.len() as u64]); }
  if parts[0] != "m" { return None; }
  Some((1..6).filter(|&k| { let mut q = ["m", "0", "0", "0", "0", "0"]; q[k] = parts[k]; path_model(&PathOp::Text(B(q.join("/").into_bytes()))).is_err() }).map(|k| k as u64).collect())
}

// ------------------------------------------------------------------ manager configurations
pub struct CfgInfo<'a> { pub nets: Vec<u32>, pub plugs: BTreeMap<u32, &'a Plug>, pub min: usize, pub max: usize }
impl<'a> CfgInfo<'a> {
  pub fn new(sc: &'a Scenario, cfg: usize) -> CfgInfo<'a> {
    let mut c = CfgInfo { nets: vec![], plugs: BTreeMap::new(), min: 0, max: usize::MAX };
    let size = |n: u32| if n == ADA { (96, 256) } else { (128, 256) };
    let nets: Vec<u32> = match &sc.cfgs[cfg] {
      Cfg::All => vec![ADA, ETH, BTC],
      Cfg::Nets(v) => [ADA, ETH, BTC].iter().cloned().filter(|n| v.contains(n)).collect(),
      Cfg::Custom { builtin, plugs } => {
        for p in plugs { let p = &sc.plugs[*p]; c.plugs.insert(p.id, p); c.min = c.min.max(p.min); c.max = c.max.min(p.max); }
        builtin.clone()
      }
    };
    for n in &nets { let s = size(*n); c.min = c.min.max(s.0); c.max = c.max.min(s.1); }
    c.nets = nets;
    let ids: Vec<u32> = c.plugs.keys().cloned().collect();
    c.nets.extend(ids);
    c
  }
  pub fn valid(&self) -> bool { self.min != 0 && self.min < self.max }
  pub fn words(&self) -> usize { self.min / 32 * 3 }
  pub fn gen_ok(&self) -> bool { [96, 128, 160, 192, 224, 256].contains(&self.min) }
  pub fn has(&self, n: u32) -> bool { self.nets.contains(&n) }
  pub fn plug(&self, n: u32) -> Option<&'a Plug> { self.plugs.get(&n).cloned() }
}
