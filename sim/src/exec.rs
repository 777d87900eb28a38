//! Runs one incarnation of a scenario inside the simulated machine, against the shipped C functions
//! and the Rust API. Plays the caller: owns blobs, passwords, handles, buffers and the network plug-ins.
use crate::model;
use crate::rt;
use crate::types::*;
use keychain::{Key, KeyError, KeyFactory, KeyPath, Keychain, KeychainManager, Language, Network, SeedSize};
use std::cell::RefCell;
use std::ffi::CStr;
use std::os::raw::c_char;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------------ the C interface, as the header declares it
#[repr(C)] #[derive(Copy, Clone)] pub struct Hnd(*mut u8);
#[repr(C)] #[derive(Copy, Clone)] pub struct CErr { ty: i32, msg: *mut c_char }
#[repr(C)] #[derive(Copy, Clone)] pub struct CData { ptr: *mut u8, len: usize }
#[repr(C)] #[derive(Copy, Clone)] pub struct CNets { ptr: *mut u32, count: usize }
#[repr(C)] #[derive(Copy, Clone)] pub struct CKeyEl { net: u32, data: CData }
#[repr(C)] #[derive(Copy, Clone)] pub struct CKeys { ptr: *mut CKeyEl, count: usize }
#[repr(C)] #[derive(Copy, Clone)] pub struct CMnem { ptr: *mut c_char, lang: i32 }
#[repr(C)] #[derive(Copy, Clone)] pub struct CPath { p: u32, c: u32, a: u32, h: u32, i: u32 }
type S = *const c_char;
extern "C" {
  fn keychain_init_library();
  fn keychain_manager_new(m: *mut Hnd, e: *mut CErr) -> bool;
  fn keychain_manager_has_network(m: *const Hnd, n: u32, has: *mut u8, e: *mut CErr) -> bool;
  fn keychain_manager_generate_mnemonic(m: *const Hnd, lang: i32, out: *mut *mut c_char, e: *mut CErr) -> bool;
  fn keychain_manager_keychain_data_from_seed(m: *const Hnd, seed: *const u8, len: usize, pw: S, out: *mut CData, e: *mut CErr) -> bool;
  fn keychain_manager_keychain_data_from_mnemonic(m: *const Hnd, mn: S, pw: S, lang: i32, out: *mut CData, e: *mut CErr) -> bool;
  fn keychain_manager_keychain_from_data(m: *const Hnd, d: *const u8, len: usize, pw: S, out: *mut Hnd, e: *mut CErr) -> bool;
  fn keychain_manager_add_network(m: *const Hnd, d: *const u8, len: usize, pw: S, n: u32, out: *mut CData, e: *mut CErr) -> bool;
  fn keychain_manager_change_password(m: *const Hnd, d: *const u8, len: usize, old: S, new: S, out: *mut CData, e: *mut CErr) -> bool;
  fn keychain_manager_get_keys_data(m: *const Hnd, d: *const u8, len: usize, pw: S, out: *mut CKeys, e: *mut CErr) -> bool;
  fn keychain_manager_retrieve_mnemonic(m: *const Hnd, d: *const u8, len: usize, pw: S, out: *mut CMnem, e: *mut CErr) -> bool;
  fn delete_keychain_manager(m: *mut Hnd);
  fn keychain_networks(k: *const Hnd, out: *mut CNets, e: *mut CErr) -> bool;
  fn keychain_pub_key(k: *const Hnd, n: u32, p: CPath, out: *mut CData, e: *mut CErr) -> bool;
  fn keychain_sign(k: *const Hnd, n: u32, d: *const u8, len: usize, p: CPath, out: *mut CData, e: *mut CErr) -> bool;
  fn keychain_verify(k: *const Hnd, n: u32, d: *const u8, len: usize, s: *const u8, slen: usize, p: CPath, out: *mut u8, e: *mut CErr) -> bool;
  fn delete_keychain(k: *mut Hnd);
  fn delete_data(d: *mut CData);
  fn delete_string(s: *mut c_char);
  fn delete_networks(n: *mut CNets);
  fn delete_key_backup(k: *mut CKeys);
  fn delete_mnemonic_info(m: *mut CMnem);
  fn delete_error(e: *mut CErr);
  fn NETWORK_BITCOIN() -> u32;
  fn NETWORK_ETHEREUM() -> u32;
  fn NETWORK_CARDANO() -> u32;
  fn keypath_from_string(s: S, p: *mut CPath, e: *mut CErr) -> bool;
  fn keypath_ethereum_new(a: u32, p: *mut CPath, e: *mut CErr) -> bool;
  fn keypath_ethereum_new_metamask(a: u32, p: *mut CPath, e: *mut CErr) -> bool;
  fn keypath_cardano_new(a: u32, h: u32, i: u32, p: *mut CPath, e: *mut CErr) -> bool;
  fn keypath_bitcoin_new_bip44(t: bool, a: u32, h: u32, i: u32, p: *mut CPath, e: *mut CErr) -> bool;
  fn keypath_bitcoin_new_bip49(t: bool, a: u32, h: u32, i: u32, p: *mut CPath, e: *mut CErr) -> bool;
  fn keypath_bitcoin_new_bip84(t: bool, a: u32, h: u32, i: u32, p: *mut CPath, e: *mut CErr) -> bool;
}

// ------------------------------------------------------------------ durable state and handle tables
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Durable { pub slots: Vec<Option<(Vec<u8>, String)>>, pub mns: Vec<Option<(String, u8)>>, pub sigs: Vec<Option<Vec<u8>>> }

struct CHandle { h: *mut Hnd, cfg: usize, from: u64, users: u32 }
enum Keep { Data(CData), Nets(CNets), Keys(CKeys), Mnem(CMnem), Str(*mut c_char), Err(CErr) }
struct World {
  sc: &'static Scenario, inc: &'static Inc, d: Durable,
  cm: Vec<Option<CHandle>>, ck: Vec<Option<CHandle>>,
  keep: Vec<(Keep, u64)>, keeping: bool,
  plug_calls: Vec<[u32; 5]>,
}
static mut W: Option<World> = None;
#[allow(static_mut_refs)]
fn w() -> &'static mut World { unsafe { W.as_mut().unwrap() } }
thread_local! {
  static RM: RefCell<Vec<Option<(&'static KeychainManager, usize)>>> = RefCell::new(vec![]);
  static RK: RefCell<Vec<Option<(&'static Keychain, usize, u64)>>> = RefCell::new(vec![]);
  static POOL: RefCell<Pool> = RefCell::new(Pool { bufs: vec![], used: 0 });
}

// ------------------------------------------------------------------ caller buffers: read-only, flush against an unmapped page
const RW: usize = 1 << 20;
struct Pool { bufs: Vec<usize>, used: usize }
struct Inb { base: usize, ptr: *const u8, len: usize }
impl Inb {
  fn new(data: &[u8]) -> Inb {
    assert!(data.len() <= RW);
    let base = POOL.with(|p| {
      let mut p = p.borrow_mut();
      if p.used == p.bufs.len() {
        let b = unsafe { rt::raw(9, 0, RW + 4096, 3, 0x22, usize::MAX, 0) };
        assert!(b > 0);
        rt::input_pool(b as usize, RW + 4096);
        unsafe { rt::raw(10, b as usize + RW, 4096, 0, 0, 0, 0); }
        p.bufs.push(b as usize);
      }
      p.used += 1;
      p.bufs[p.used - 1]
    });
    let ptr = (base + RW - data.len()) as *mut u8;
    unsafe {
      std::ptr::copy_nonoverlapping(data.as_ptr(), ptr, data.len());
      let pg = (ptr as usize) & !4095;
      if data.len() > 0 { rt::raw(10, pg, base + RW - pg, 1, 0, 0, 0); }
    }
    Inb { base, ptr, len: data.len() }
  }
  fn cstr(s: &[u8]) -> Inb { let mut v = s.to_vec(); v.push(0); Inb::new(&v) }
  fn c(&self) -> S { self.ptr as S }
}
impl Drop for Inb {
  fn drop(&mut self) {
    unsafe { rt::raw(10, self.base, RW, 3, 0, 0, 0); std::ptr::write_bytes((self.base + RW - self.len) as *mut u8, 0x5A, self.len); }
    POOL.with(|p| p.borrow_mut().used -= 1);
  }
}
/// an empty buffer is sometimes a null pointer, sometimes one past a mapped page
fn dp(i: &Inb, u: u32) -> *const u8 { if i.len == 0 && u % 2 == 0 { std::ptr::null() } else { i.ptr } }

// ------------------------------------------------------------------ calling C
fn bytes_of<T>(v: &T) -> Vec<u8> { unsafe { std::slice::from_raw_parts(v as *const T as *const u8, std::mem::size_of::<T>()).to_vec() } }
struct Res { out: Out, outp: Option<String> }
fn note(o: &mut Option<String>, s: &str) { if o.is_none() { *o = Some(s.to_owned()) } }

/// makes one C call: checks which of the two result parameters was touched, reads and releases errors
fn ccall<T: Copy>(mut slot: T, conv: impl FnOnce(T, &mut Option<String>) -> Out, f: impl FnOnce(*mut T, *mut CErr) -> bool) -> Res {
  let mut err = CErr { ty: -1, msg: 0x0bad_0bad_0bad_0bad_u64 as *mut c_char };
  let (s0, e0) = (bytes_of(&slot), bytes_of(&err));
  let ok = rt::lib(|| f(&mut slot, &mut err));
  let mut outp = None;
  if ok {
    if bytes_of(&err) != e0 { note(&mut outp, "error parameter written by a successful call"); }
    let out = conv(slot, &mut outp);
    Res { out, outp }
  } else {
    if bytes_of(&slot) != s0 { note(&mut outp, "result parameter written by a failing call"); }
    if bytes_of(&err.msg) == e0[8..] { note(&mut outp, "no error reported by a failing call"); return Res { out: Out::Err(-100, "".into()), outp }; }
    Res { out: take_err(err, &mut outp), outp }
  }
}
fn take_err(e: CErr, outp: &mut Option<String>) -> Out {
  if e.msg.is_null() { note(outp, "null error message"); return Out::Err(e.ty, String::new()); }
  let b = unsafe { CStr::from_ptr(e.msg) }.to_bytes().to_vec();
  let s = match String::from_utf8(b) { Ok(s) => s, Err(_) => { note(outp, "error message is not UTF-8"); String::new() } };
  release(Keep::Err(e), s.len() % 3 == 0 && w().keeping);
  Out::Err(e.ty, s)
}
fn digest(k: &Keep) -> u64 {
  unsafe {
    match k {
      Keep::Data(d) => fnv(raw(d.ptr, d.len)),
      Keep::Nets(n) => fnv(raw(n.ptr as *const u8, n.count * 4)),
      Keep::Keys(k) => {
        let mut v = vec![];
        for i in 0..k.count { let e = &*k.ptr.add(i); v.extend_from_slice(&e.net.to_le_bytes()); v.extend_from_slice(raw(e.data.ptr, e.data.len)); }
        fnv(&v)
      }
      Keep::Mnem(m) => fnv(CStr::from_ptr(m.ptr).to_bytes()),
      Keep::Str(s) => fnv(CStr::from_ptr(*s).to_bytes()),
      Keep::Err(e) => fnv(CStr::from_ptr(e.msg).to_bytes()),
    }
  }
}
unsafe fn raw<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) } }
/// releases now or leaves it for another thread
fn release(k: Keep, keep: bool) {
  let h = digest(&k);
  if keep { w().keep.push((k, h)); } else { free(k, h); }
}
fn free(mut k: Keep, h: u64) {
  if digest(&k) != h { rt::mem_report("a returned buffer changed before it was released"); }
  let left = rt::lib(|| unsafe {
    match &mut k {
      Keep::Data(d) => { delete_data(d); let n = d.ptr.is_null(); if n { delete_data(d); } !n }
      Keep::Nets(d) => { delete_networks(d); let n = d.ptr.is_null(); if n { delete_networks(d); } !n }
      Keep::Keys(d) => { delete_key_backup(d); let n = d.ptr.is_null(); if n { delete_key_backup(d); } !n }
      Keep::Mnem(d) => { delete_mnemonic_info(d); let n = d.ptr.is_null(); if n { delete_mnemonic_info(d); } !n }
      Keep::Err(d) => { delete_error(d); let n = d.msg.is_null(); if n { delete_error(d); } !n }
      Keep::Str(s) => { delete_string(*s); false }
    }
  });
  if left { rt::mem_report("a delete function left the released pointer in place: deleting twice would do harm"); }
}
fn live_keys(k: &CKeys) -> bool {
  k.count < 1 << 24 && rt::live_range(k.ptr as *const u8, k.count * std::mem::size_of::<CKeyEl>())
    && (0..k.count).all(|i| { let e = unsafe { &*k.ptr.add(i) }; rt::live_range(e.data.ptr, e.data.len) })
}
const BADP: u64 = 0x0bad_f00d_0bad_f00d;
fn cdata(u: u32, f: impl FnOnce(*mut CData, *mut CErr) -> bool) -> Res {
  ccall(CData { ptr: BADP as *mut u8, len: 0x7777_7777_7777 }, |d, o| {
    if d.ptr.is_null() && d.len != 0 { note(o, "null data"); return Out::Bytes(B(vec![])); }
    if !rt::live_range(d.ptr, d.len) { rt::mem_report("a returned buffer is not wholly inside a live allocation"); note(o, "wild buffer"); return Out::Bytes(B(vec![])); }
    let b = unsafe { raw(d.ptr, d.len) }.to_vec();
    release(Keep::Data(d), keep(u));
    Out::Bytes(B(b))
  }, f)
}
fn cbool(u: u32, f: impl FnOnce(*mut u8, *mut CErr) -> bool) -> Res {
  ccall((u & 1) as u8, |b, o| { if b > 1 { note(o, "invalid bool"); } Out::Bool(b == 1) }, f)
}
fn cpath(f: impl FnOnce(*mut CPath, *mut CErr) -> bool) -> Res {
  let x = 0x1357_9bdf;
  ccall(CPath { p: x, c: x, a: x, h: x, i: x }, |p, _| Out::Path(KP { p: p.p, c: p.c, a: p.a, h: p.h, i: p.i }), f)
}
fn keep(u: u32) -> bool { w().keeping && mix(u as u64) % 3 == 0 }

// ------------------------------------------------------------------ calling Rust
fn rerr(e: keychain::Error) -> Out {
  use keychain::Error::*;
  let c = match &e {
    WrongPassword => 0, NotEnoughData => 1, SeedIsNotSaved => 2, CantCalculateSeedSize(..) => 3, DataError(..) => 4, InvalidSeedSize(..) => 5,
    KeyDoesNotExist(..) => 6, KeyAlreadyExist(..) => 7, NetworkIsNotSupported(..) => 8, KeyError(..) => 9, KeyPathError(..) => 10, MnemonicError(..) => 11,
  };
  Out::Err(c, format!("{}", e))
}
fn rcall<T>(f: impl FnOnce() -> Result<T, keychain::Error>, conv: impl FnOnce(T) -> Out) -> Res {
  // the whole value, error text included, is produced by library code
  let r = catch_unwind(AssertUnwindSafe(|| rt::lib(|| f().map_err(rerr))));
  let out = match r {
    Ok(Ok(v)) => conv(v),
    Ok(Err(o)) => clone_out(o),
    Err(p) => {
      let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&'static str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into());
      Out::Panic(s)
    }
  };
  Res { out, outp: None }
}
fn clone_out(o: Out) -> Out { o.clone() }
fn lang(l: u8) -> Language {
  [Language::English, Language::French, Language::Japanese, Language::Korean, Language::ChineseSimplified, Language::ChineseTraditional, Language::Italian, Language::Spanish][l as usize]
}
impl KeyPath for KP {
  fn purpose(&self) -> u32 { self.p }
  fn coin(&self) -> u32 { self.c }
  fn account(&self) -> u32 { self.a }
  fn change(&self) -> u32 { self.h }
  fn address(&self) -> u32 { self.i }
}
fn dynp(k: &dyn KeyPath) -> Out { Out::Path(KP { p: k.purpose(), c: k.coin(), a: k.account(), h: k.change(), i: k.address() }) }

// ------------------------------------------------------------------ network plug-ins supplied by the caller
struct PFac(usize);
struct PKey(usize, Vec<u8>);
#[derive(Debug)]
struct PErr(String);
impl std::fmt::Display for PErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for PErr {}
/// logs the call and decides its fate
fn plug(ix: usize, call: u8, arg: Vec<u8>) -> Result<&'static Plug, Fail> {
  let p = &w().sc.plugs[ix];
  let n = { let c = &mut w().plug_calls[ix][call as usize]; *c += 1; *c };
  let f = p.faults.iter().find(|f| f.call == call && f.nth == n);
  let act = match f { None => 0, Some(f) => if f.panic { 2 } else { 1 } };
  rt::log(&Rec::Plug { t: rt::tid(), u: rt::cur_u(), id: p.id, call, arg: B(arg), act });
  match act {
    0 => Ok(p),
    1 => Err(Fail::Err(match (n + call as u32 * 2 + ix as u32) % 3 {
      0 => KeyError::InvalidKeySize(n as usize, 7),
      1 => KeyError::InvalidKeyData(Box::new(PErr(format!("plug-in \0 {}", n)))),
      _ => KeyError::SignError(Box::new(PErr("device unplugged".into()))),
    })),
    _ => Err(Fail::Panic(p.id)),
  }
}
enum Fail { Err(KeyError), Panic(u32) }
/// plug-in code proper runs outside the simulation; its panic unwinds through the library under the scheduler
fn plugged<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, KeyError> {
  match rt::outside(f) {
    Ok(v) => Ok(v),
    Err(Fail::Err(e)) => Err(e),
    Err(Fail::Panic(id)) => panic!("plug-in {} panics", id),
  }
}
impl KeyFactory for PFac {
  fn network(&self) -> Network { Network(w().sc.plugs[self.0].id) }
  fn seed_size(&self) -> SeedSize { let p = &w().sc.plugs[self.0]; SeedSize { min: p.min, max: p.max } }
  fn key_from_data(&self, data: &[u8]) -> Result<Box<dyn Key>, KeyError> {
    let ix = self.0;
    plugged(|| {
      let p = plug(ix, 1, data.to_vec())?;
      if !model::key_loads(p.id, data, Some(p)) { return Err(Fail::Err(KeyError::InvalidKeySize(data.len(), p.dlen))); }
      let k: Box<dyn Key> = Box::new(PKey(ix, data.to_vec()));
      Ok(k)
    })
  }
  fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> {
    let ix = self.0;
    plugged(|| plug(ix, 0, seed.to_vec()).map(|p| model::plug_data(p.id, seed, p.dlen)))
  }
}
fn kp(p: &dyn KeyPath) -> KP { KP { p: p.purpose(), c: p.coin(), a: p.account(), h: p.change(), i: p.address() } }
impl Key for PKey {
  fn network(&self) -> Network { Network(w().sc.plugs[self.0].id) }
  fn pub_key(&self, path: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
    plugged(|| plug(self.0, 2, model::kp_bytes(&kp(path))).map(|_| model::plug_pub(&self.1, &kp(path))))
  }
  fn sign(&self, data: &[u8], path: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
    plugged(|| plug(self.0, 3, model::kp_bytes(&kp(path))).map(|_| model::plug_sign(&self.1, &kp(path), data)))
  }
  fn verify(&self, data: &[u8], signature: &[u8], path: &dyn KeyPath) -> Result<bool, KeyError> {
    plugged(|| plug(self.0, 4, model::kp_bytes(&kp(path))).map(|_| model::plug_sign(&self.1, &kp(path), data) == signature))
  }
}
fn builtin(n: u32) -> Box<dyn KeyFactory> {
  use keychain::networks::*;
  match n { ADA => Box::new(cardano::KeyFactory::new()), ETH => Box::new(ethereum::KeyFactory::new()), _ => Box::new(bitcoin::KeyFactory::new()) }
}
fn rust_manager(cfg: &Cfg) -> Result<KeychainManager, keychain::Error> {
  match cfg {
    Cfg::All => KeychainManager::new(),
    Cfg::Nets(v) => KeychainManager::with_networks(&v.iter().map(|n| Network(*n)).collect::<Vec<_>>()),
    Cfg::Custom { builtin: b, plugs } => {
      let mut f: Vec<Box<dyn KeyFactory>> = b.iter().map(|n| builtin(*n)).collect();
      for p in plugs { f.push(Box::new(PFac(*p))); }
      KeychainManager::with_factories(f)
    }
  }
}

// ------------------------------------------------------------------ what the caller's inputs are
/// passwords that are almost, but not quite, the given one
pub fn near(pw: &str, v: u32) -> String {
  let c: Vec<char> = pw.chars().collect();
  let n = c.len();
  let s = |x: &[char]| x.iter().collect::<String>();
  match v % 36 {
    0 => String::new(),
    1 => format!("{} ", pw),
    2 => format!(" {}", pw),
    3 => if n > 0 { s(&c[..n - 1]) } else { " ".into() },
    4 => if n > 0 { s(&c[1..]) } else { "a".into() },
    5 => pw.to_uppercase(),
    6 => pw.to_lowercase(),
    7 => { let mut d = c.clone(); if n > 0 { let i = (v as usize / 30) % n; d[i] = if d[i] == 'x' { 'y' } else { 'x' }; } s(&d) }
    8 => format!("{}{}", pw, pw),
    9 => pw.replace("\u{e9}", "e\u{301}"),
    10 => pw.replace("e\u{301}", "\u{e9}"),
    11 => s(&c[..n.min(64)]),
    12 => s(&c[..n.min(128)]),
    13 => format!("{}\n", pw),
    14 => pw.trim().to_owned(),
    15 => { let mut d = c.clone(); d.reverse(); s(&d) }
    16 => { let mut d = c.clone(); if n > 1 { let i = (v as usize / 30) % (n - 1); d.swap(i, i + 1); } s(&d) }
    17 => s(&c[..n.min(32)]),
    18 => s(&c[..n.min(16)]),
    19 => s(&c[..n.min(8)]),
    20 => { let mut d = c.clone(); if n > 0 { let i = n - 1; d[i] = if d[i] == '1' { '2' } else { '1' }; } s(&d) }
    21 => format!("{}\u{200b}", pw),
    22 => pw.chars().map(|c| if c == 'i' { '\u{131}' } else { c }).collect(),
    23 => format!("{}\0", pw),
    24 => format!("{}\0x", pw),
    25 => { let mut d = c.clone(); if n > 0 { let i = n - 1 - (v as usize / 30) % (n / 4 + 1); d[i] = if d[i] == 'q' { 'Q' } else { 'q' }; } s(&d) }
    26 => { let i = if n > 0 { (v as usize / 30) % n } else { 0 }; c.iter().enumerate().map(|(j, c)| if j != i { *c } else if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { '_' }).collect() }
    27 => if pw.contains(' ') { pw.replace(' ', "\u{a0}") } else { format!("{}\u{a0}", pw) },
    28 => c.iter().map(|c| if c.is_ascii_alphanumeric() { std::char::from_u32(*c as u32 + 0xfee0).unwrap_or('x') } else { *c }).collect(),
    30 => { let i = if n > 0 { (v as usize / 36) % (n + 1) } else { 0 }; let z = ["\u{200b}", "\u{200d}", "\u{feff}", "\u{ad}", "\u{301}"][v as usize / 36 % 5]; format!("{}{}{}", s(&c[..i]), z, s(&c[i..])) }
    31 => format!("\u{feff}{}", pw),
    32 => s(&c.iter().filter(|c| !c.is_whitespace()).cloned().collect::<Vec<_>>()),
    33 => s(&c.iter().filter(|c| !c.is_control()).cloned().collect::<Vec<_>>()),
    34 => s(&c.iter().map(|c| match c { '0' => 'O', 'O' => '0', 'l' => '1', '1' => 'l', c => *c }).collect::<Vec<_>>()),
    35 => s(&c[..n.min(72)]),
    _ => s(&c.iter().filter(|c| c.is_ascii()).cloned().collect::<Vec<_>>()),
  }
}
/// without accents
fn strip(x: &str) -> String {
  x.chars().filter(|c| !('\u{300}'..='\u{36f}').contains(c) && *c != '\u{3099}' && *c != '\u{309a}').map(|c| match c { 'é' | 'è' | 'ê' | 'ë' => 'e', 'á' | 'à' | 'â' => 'a', 'í' | 'î' | 'ï' => 'i', 'ó' | 'ô' | 'ö' => 'o', 'ú' | 'û' | 'ù' | 'ü' => 'u', 'ñ' => 'n', 'ç' => 'c', c => c }).collect()
}
/// transcription mistakes
pub fn typo(m: &str, lang: u8, v: u32) -> String {
  let mut ws: Vec<String> = m.split(' ').map(|s| s.to_owned()).collect();
  let n = ws.len();
  let i = (v as usize / 8) % n;
  match v % 20 {
    0 | 8 => ws[i] = model::word(lang, (mix(v as u64) % 2048) as u16).to_owned(),
    1 => { let j = (i + 1) % n; ws.swap(i, j); }
    2 => { ws.remove(i); }
    3 => ws.push(model::word(lang, (mix(v as u64) % 2048) as u16).to_owned()),
    4 => { let k = model::word_index(lang, &ws[i]).unwrap_or(0); ws[i] = model::word(lang, (k + 1) % 2048).to_owned(); }
    5 => { ws[i].pop(); if ws[i].is_empty() { ws[i] = "zz".into(); } }
    6 => { let w = ws[i].clone(); let j = (i + 1) % n; ws[j] = w; }
    9 => ws[i] = ws[i].to_uppercase(),
    10 => { let mut c = ws[i].chars(); ws[i] = c.next().map_or(String::new(), |a| a.to_uppercase().collect::<String>() + c.as_str()); }
    11 => ws[i] = ws[i].chars().take(4).collect(),
    12 => ws[i] = strip(&ws[i]),
    13 => ws = ws.iter().map(|x| strip(x)).collect(),
    14 => ws[i] += [".", ",", "\t", "\n", "\u{3000}", "\u{a0}", "s", "\u{301}"][v as usize / 160 % 8],
    15 => ws.reverse(),
    16 => ws.insert(i, String::new()),
    17 => { let k = ["\u{3000}", "\t", "\n", "  ", "-", "\r\n", "\u{a0}", ","][v as usize / 160 % 8]; return ws.join(k); }
    18 => return format!("{}{}", ws.join(" "), [" ", "\n", "\u{3000}", "\r"][v as usize / 160 % 4]),
    19 => return format!(" {}", ws.join(" ")),
    _ => { ws[i] = model::word((lang + 1) % 8, (mix(v as u64) % 2048) as u16).to_owned(); }
  }
  ws.join(" ")
}
pub fn damage(src: &[u8], how: &[Dmg], slots: &[Option<(Vec<u8>, String)>], pw: &str, full: bool) -> Vec<u8> {
  let mut b = src.to_vec();
  for d in how {
    let n = b.len();
    match d {
      Dmg::Flip(x) => if n > 0 { let x = *x as usize % (n * 8); b[x / 8] ^= 1 << (x % 8); },
      Dmg::Trunc(x) => if n > 0 { b.truncate(*x as usize % n); },
      Dmg::Head(x) => if n > 0 { b.drain(..*x as usize % n); },
      Dmg::Ext(x, v) => { let m = *x as usize % 4096 + 1; b.extend(std::iter::repeat(*v).take(m)); }
      Dmg::Zero(a, l) => if n > 0 { let a = *a as usize % n; let e = (a + *l as usize % 512 + 1).min(n); for x in &mut b[a..e] { *x = 0; } },
      Dmg::Swap(a, c, l) => if n > 0 {
        let (a, c) = (*a as usize % n, *c as usize % n);
        for k in 0..*l as usize % 64 + 1 { if a + k < n && c + k < n { b.swap(a + k, c + k); } }
      },
      Dmg::Splice(s, at) => if let Some((o, _)) = slots.get(*s).and_then(|s| s.as_ref()) {
        let at = *at as usize % (n + 1);
        if at <= o.len() { b.truncate(at); b.extend_from_slice(&o[at..]); }
      },
      Dmg::Empty => b.clear(),
      Dmg::Fill(v) => for x in &mut b { *x = *v; },
      Dmg::Set(at, v) => if n > 0 { b[*at as usize % n] = *v; },
      Dmg::Graft(s, a, l) => if let Some((o, _)) = slots.get(*s).and_then(|s| s.as_ref()) {
        if n > 0 { let a = *a as usize % n; for k in a..(a + *l as usize % 256 + 1).min(n).min(o.len()) { b[k] = o[k]; } }
      },
      Dmg::Recode(kind) => b = recode(&b, *kind, pw, full),
      Dmg::Repeat => { let c = b.clone(); b.extend_from_slice(&c); }
    }
  }
  b.truncate(RW);
  b
}
fn recode(b: &[u8], kind: u8, pw: &str, full: bool) -> Vec<u8> {
  match kind {
    1 => return base64::encode(b).into_bytes(),
    2 => return hex(b).into_bytes(),
    _ => {}
  }
  let p = match model::unseal(full, b, pw) { Some(p) => p, None => return base64::encode(b).into_bytes() };
  let (salt, nonce) = (&b[..32], &b[32..44]);
  match kind {
    0 => p,
    3 => serde_json::from_slice::<serde_json::Value>(&p).ok().and_then(|v| base64::decode(v["data"].as_str()?).ok()).unwrap_or_default(),
    4 => [&b[..44], &[0; 16], &p].concat(),
    5 => [&b[..44], &b[60..], &b[44..60]].concat(),
    6 => [&b[44..60], &b[32..44], &b[..32], &b[60..]].concat(),
    7 => { let mut key = pw.as_bytes().to_vec(); key.resize(32, 0); model::seal_key(&key, &p, salt, nonce) }
    8 => { let c = model::seal(full, &p, pw, salt, nonce); model::seal(full, &c, pw, salt, nonce) }
    n => { let it = [1, 1000, 2048, 4096, 10_000, 19_161, 19_163, 100_000][n as usize % 8]; model::seal_key(&model::pbkdf2_512(pw.as_bytes(), salt, kdf_iters(full, it), 32), &p, salt, nonce) }
  }
}
pub fn channel(mut msg: Vec<u8>, mut sig: Vec<u8>, ch: &[Chan], sc: &Scenario, sigs: &[Option<Vec<u8>>]) -> (Vec<u8>, Vec<u8>) {
  for c in ch {
    let n = sig.len();
    match c {
      Chan::None => {}
      Chan::Flip(x) => if n > 0 { let x = *x as usize % (n * 8); sig[x / 8] ^= 1 << (x % 8); },
      Chan::Trunc(x) => if n > 0 { sig.truncate(*x as usize % n); },
      Chan::Ext(b) => sig.push(*b),
      Chan::Drop65 => sig.truncate(64),
      Chan::Empty => sig.clear(),
      Chan::Other(i) => if let Some(Some(o)) = sigs.get(*i) { sig = o.clone(); },
      Chan::Zero => for x in &mut sig { *x = 0; },
      Chan::Recid(v) => if n == 65 { sig[64] = *v; },
      Chan::HalfSwap => if n >= 64 { for k in 0..32 { sig.swap(k, k + 32); } },
      Chan::MsgFlip(x) => if msg.len() > 0 { let x = *x as usize % (msg.len() * 8); msg[x / 8] ^= 1 << (x % 8); } else { msg.push(0); },
      Chan::MsgTrunc => { msg.pop(); }
      Chan::MsgExt => msg.push(0),
      Chan::MsgOther(i) => if let Some(m) = sc.msgs.get(*i) { msg = m.0.clone(); },
      Chan::MsgHash(x) => {
        use crate::model::*;
        msg = match x { 0 => keccak(&msg).to_vec(), 1 => sha256(&[&msg]).to_vec(), 2 => sha256(&[&sha256(&[&msg])]).to_vec(), _ => crate::types::hex(&msg).into_bytes() };
      }
      Chan::Long(x) => { let m = *x as usize % 2000 + 1; sig.extend((0..m).map(|k| k as u8)); }
      // the other s that fits the same equation (with the recovery id that goes with it, or not)
      Chan::NegS(id) => if n >= 64 { if model::neg_s(&mut sig[32..64]) && *id && n > 64 { sig[64] ^= 1; } },
      Chan::AddL => if n >= 64 { model::add_l(&mut sig[32..64]); },
      Chan::Cut(x) => if n > 0 { sig.drain(..*x as usize % n); },
    }
  }
  (msg, sig)
}

// ------------------------------------------------------------------ one operation
enum H { No, M(usize), K(usize) }
struct Job { api: Api, call: Call, h: H, dst: usize, cfg: usize }

fn pw_of(p: &PwSel, slot_pw: &str) -> String {
  match p { PwSel::Right => slot_pw.to_owned(), PwSel::Lit(i) => w().sc.pws[*i].clone(), PwSel::Near(v) => near(slot_pw, *v) }
}
fn mgr_cfg(api: Api, m: usize) -> Option<usize> {
  match api {
    Api::C => w().cm[m].as_ref().map(|h| h.cfg),
    Api::R => RM.with(|r| r.borrow()[m].as_ref().map(|x| x.1)),
  }
}
fn kc_of(api: Api, k: usize) -> Option<(usize, u64)> {
  match api {
    Api::C => w().ck[k].as_ref().map(|h| (h.cfg, h.from)),
    Api::R => RK.with(|r| r.borrow()[k].as_ref().map(|x| (x.1, x.2))),
  }
}
fn mn_text(m: &MnRef) -> Option<(String, u8)> {
  match m {
    MnRef::Lit(i) => w().sc.mns.get(*i).map(|m| (m.text.clone(), m.lang)),
    MnRef::Slot(s) => w().d.mns[*s].clone(),
    MnRef::Typo(s, v) => w().d.mns[*s].clone().map(|(m, l)| (typo(&m, l, *v), l)),
  }
}
/// resolves an operation against what the caller has; None: nothing to do it with
fn job(op: &Op) -> Option<Job> {
  let sc = w().sc;
  let nul = |api: Api, s: &str| api == Api::C && s.contains('\0');
  let blob = |s: usize| w().d.slots[s].clone();
  let j = |api: &Api, call: Call, h: H, dst: usize, cfg: usize| Some(Job { api: *api, call, h, dst, cfg });
  match op {
    Op::Mgr { api, m, cfg } => {
      if *api == Api::C && (sc.cfgs[*cfg] != Cfg::All || w().cm[*m].as_ref().map_or(false, |h| h.users > 0)) { return None; }
      j(api, Call::Mgr { cfg: *cfg }, H::No, *m, *cfg)
    }
    Op::MgrDel { api, m } => {
      mgr_cfg(*api, *m)?;
      if *api == Api::C && w().cm[*m].as_ref().unwrap().users > 0 { return None; }
      j(api, Call::MgrDel, H::No, *m, 0)
    }
    Op::KClose { api, k } => {
      kc_of(*api, *k)?;
      if *api == Api::C && w().ck[*k].as_ref().unwrap().users > 0 { return None; }
      j(api, Call::KClose, H::No, *k, 0)
    }
    Op::HasNet { api, m, net } => { let cfg = mgr_cfg(*api, *m)?; j(api, Call::HasNet { cfg, net: *net }, H::M(*m), 0, cfg) }
    Op::Gen { api, m, lang, dst } => { let cfg = mgr_cfg(*api, *m)?; j(api, Call::Gen { cfg, lang: lang.unwrap_or(0) }, H::M(*m), *dst, cfg) }
    Op::NewMnem { api, m, mn, lang, pw, dst } => {
      let cfg = mgr_cfg(*api, *m)?;
      let (t, l) = mn_text(mn)?;
      let pw = sc.pws[*pw].clone();
      if nul(*api, &t) || nul(*api, &pw) { return None; }
      j(api, Call::NewMnem { cfg, mn: t, lang: lang.unwrap_or(l), pw }, H::M(*m), *dst, cfg)
    }
    Op::NewSeed { api, m, seed, pw, dst } => {
      let cfg = mgr_cfg(*api, *m)?;
      let pw = sc.pws[*pw].clone();
      if nul(*api, &pw) { return None; }
      j(api, Call::NewSeed { cfg, seed: sc.seeds[*seed].clone(), pw }, H::M(*m), *dst, cfg)
    }
    Op::Open { api, m, src, pw, k } => {
      let cfg = mgr_cfg(*api, *m)?;
      let (b, sp) = blob(*src)?;
      let pw = pw_of(pw, &sp);
      if nul(*api, &pw) || (*api == Api::C && w().ck[*k].as_ref().map_or(false, |h| h.users > 0)) { return None; }
      j(api, Call::Open { cfg, blob: B(b), pw, back: false }, H::M(*m), *k, cfg)
    }
    Op::Restore { m, src, pw, k } => {
      let cfg = mgr_cfg(Api::R, *m)?;
      let (b, sp) = blob(*src)?;
      j(&Api::R, Call::Open { cfg, blob: B(b), pw: pw_of(pw, &sp), back: true }, H::M(*m), *k, cfg)
    }
    Op::ChPw { api, m, src, pw, np, dst } => {
      let cfg = mgr_cfg(*api, *m)?;
      let (b, sp) = blob(*src)?;
      let (pw, np) = (pw_of(pw, &sp), sc.pws[*np].clone());
      if nul(*api, &pw) || nul(*api, &np) { return None; }
      j(api, Call::ChPw { cfg, blob: B(b), pw, np }, H::M(*m), *dst, cfg)
    }
    Op::AddNet { api, m, src, pw, net, dst } => {
      let cfg = mgr_cfg(*api, *m)?;
      let (b, sp) = blob(*src)?;
      let pw = pw_of(pw, &sp);
      if nul(*api, &pw) { return None; }
      j(api, Call::AddNet { cfg, blob: B(b), pw, net: *net }, H::M(*m), *dst, cfg)
    }
    Op::Mnem { api, m, src, pw } | Op::Keys { api, m, src, pw } => {
      let cfg = mgr_cfg(*api, *m)?;
      let (b, sp) = blob(*src)?;
      let pw = pw_of(pw, &sp);
      if nul(*api, &pw) { return None; }
      let c = if let Op::Mnem { .. } = op { Call::Mnem { cfg, blob: B(b), pw } } else { Call::Keys { cfg, blob: B(b), pw } };
      j(api, c, H::M(*m), 0, cfg)
    }
    Op::KNets { api, k } => { let (cfg, from) = kc_of(*api, *k)?; j(api, Call::KNets { from, cfg }, H::K(*k), 0, cfg) }
    Op::KHas { k, net } => { let (cfg, from) = kc_of(Api::R, *k)?; j(&Api::R, Call::KHas { from, cfg, net: *net }, H::K(*k), 0, cfg) }
    Op::Pub { api, k, net, path } => { let (cfg, from) = kc_of(*api, *k)?; j(api, Call::Pub { from, cfg, net: *net, path: sc.paths[*path] }, H::K(*k), 0, cfg) }
    Op::Sign { api, k, net, path, msg, dst } => {
      let (cfg, from) = kc_of(*api, *k)?;
      j(api, Call::Sign { from, cfg, net: *net, path: sc.paths[*path], msg: sc.msgs[*msg].clone() }, H::K(*k), *dst, cfg)
    }
    Op::Ver { api, k, net, path, msg, sig, ch } => {
      let (cfg, from) = kc_of(*api, *k)?;
      let s = w().d.sigs[*sig].clone()?;
      let (m, s) = channel(sc.msgs[*msg].0.clone(), s, ch, sc, &w().d.sigs);
      j(api, Call::Ver { from, cfg, net: *net, path: sc.paths[*path], msg: B(m), sig: B(s) }, H::K(*k), 0, cfg)
    }
    Op::Path { api, p } => {
      if let PathOp::Text(b) = p { if b.0.contains(&0) && *api == Api::C || *api == Api::R && std::str::from_utf8(&b.0).is_err() { return None; } }
      j(api, Call::Path { p: p.clone() }, H::No, 0, 0)
    }
    Op::Seal { msg, pw, dst } => {
      let mut data = sc.msgs[*msg].clone();
      if data.0.is_empty() { data.0.push(0); }
      j(&Api::R, Call::Seal { data, pw: sc.pws[*pw].clone() }, H::No, *dst, 0)
    }
    Op::Unseal { src, pw } => {
      let (b, sp) = blob(*src)?;
      j(&Api::R, Call::Unseal { blob: B(b), pw: pw_of(pw, &sp) }, H::No, 0, 0)
    }
    Op::Reap { n } => j(&Api::C, Call::Reap, H::No, *n, 0),
    Op::BadC { bad, m, k, src } => {
      let h = match bad {
        Bad::Utf8Pw => { mgr_cfg(Api::C, *m)?; blob(*src)?; H::M(*m) }
        Bad::Utf8Mn | Bad::NullData => { mgr_cfg(Api::C, *m)?; H::M(*m) }
        _ => { let _ = k; H::No }
      };
      j(&Api::C, Call::Bad { bad: bad.clone() }, h, *src, 0)
    }
    Op::Hurt { .. } | Op::Copy { .. } | Op::Foreign { .. } | Op::Idle { .. } | Op::Again { .. } | Op::Fork { .. } => None,
  }
}
fn set_slot(s: usize, b: Vec<u8>, pw: String) {
  rt::log(&Rec::Slot { s, b: B(b.clone()), pw: pw.clone() });
  w().d.slots[s] = Some((b, pw));
}
/// things the storage does by itself
fn storage(op: &Op) -> bool {
  let sc = w().sc;
  match op {
    Op::Hurt { src, dst, how } => {
      if let Some((b, p)) = w().d.slots[*src].clone() { let d = damage(&b, how, &w().d.slots, &p, sc.full_kdf); set_slot(*dst, d, p); }
    }
    Op::Copy { src, dst } => { if let Some((b, p)) = w().d.slots[*src].clone() { set_slot(*dst, b, p); } }
    Op::Foreign { f, dst } => {
      let f = &sc.foreign[*f];
      let nonce: Vec<u8> = f.salt.0.iter().rev().take(12).cloned().collect();
      let b = model::seal(sc.full_kdf, &f.plain.0, &sc.pws[f.pw], &f.salt.0, &nonce);
      set_slot(*dst, b, sc.pws[f.pw].clone());
    }
    Op::Idle { ns, wall } => rt::idle(*ns, *wall),
    _ => return false,
  }
  true
}

extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; }
/// the only thread forks, between two calls: the child makes some calls on the handles it inherited and ends
fn forked(t: usize, ph: usize, u: u32, ops: &[OpN]) {
  if w().inc.threads > 1 { return; }
  rt::log(&Rec::Forked { u, back: false });
  unsafe {
    let pid = fork();
    if pid == 0 {
      let timer = [0i64, 0, 200, 0];
      rt::raw(38, 0, &timer as *const _ as usize, 0, 0, 0, 0);
      rt::new_stream();
      for o in ops { run_op(t, ph, o); }
      rt::exit_now(0);
    }
    if pid < 0 { rt::exit_now(91); }
    let mut st = 0;
    while waitpid(pid, &mut st, 0) != pid {}
    if st & 0x7f != 0 { let me = rt::raw(39, 0, 0, 0, 0, 0, 0) as usize; let act = [0usize; 4]; rt::raw(13, (st & 0x7f) as usize, act.as_ptr() as usize, 0, 8, 0, 0); rt::raw(62, me, (st & 0x7f) as usize, 0, 0, 0, 0); }
    if st != 0 { rt::exit_now((st >> 8) & 0xff); }
    rt::other_stream();
  }
  rt::log(&Rec::Forked { u, back: true });
}

/// repeats a call whose inputs and results stay what they are
fn again(t: usize, ph: usize, u: u32, n: u32, op: &Op) {
  let one = OpN { u, op: op.clone() };
  run_op(t, ph, &one);
  let jb = match job(op) { Some(j) => j, None => return };
  let fixed = matches!(jb.call, Call::HasNet { .. } | Call::Open { .. } | Call::Mnem { .. } | Call::Keys { .. } | Call::KNets { .. } | Call::KHas { .. } | Call::Pub { .. } | Call::Sign { .. } | Call::Ver { .. } | Call::Path { .. } | Call::Unseal { .. });
  let plugs = if let Cfg::Custom { plugs, .. } = &w().sc.cfgs[jb.cfg] { !plugs.is_empty() } else { false };
  if !fixed || plugs || w().inc.threads > 1 { return; }
  // long inputs fewer times
  let n = match &jb.call {
    Call::Open { blob, .. } | Call::Mnem { blob, .. } | Call::Keys { blob, .. } | Call::Unseal { blob, .. } => n.min(3_000_000 / (blob.0.len() as u32 + 100)),
    Call::Sign { msg, .. } | Call::Ver { msg, .. } => n.min(30_000_000 / (msg.0.len() as u32 + 100)),
    Call::Path { p: PathOp::Text(text) } => n.min(15_000_000 / (text.0.len() as u32 + 100)),
    _ => n,
  };
  let same = |a: &Out, b: &Out| match (a, b) {
    (Out::Err(x, _), Out::Err(y, _)) => x == y,
    (Out::KeyData(x), Out::KeyData(y)) => { let (mut x, mut y) = (x.clone(), y.clone()); x.sort(); y.sort(); x == y }
    _ => a == b,
  };
  let mut first: Option<Out> = None;
  let mut k = 1;
  let live0 = rt::live().0;
  while k + 1 < n && rt::arena_left() {
    rt::op_begin(u);
    let (mut newh, mut newr, mut newk) = (None, None, None);
    let res = match jb.api { Api::C => call_c(u, &jb, &mut newh), Api::R => call_r(u, &jb, &mut newr, &mut newk) };
    if let Some(mut h) = newh { del_c(false, &mut h); }
    if let Some(k) = newk { rt::lib(|| drop(k)); }
    rt::op_end();
    k += 1;
    let differs = res.outp.is_some() || first.as_ref().map_or(false, |f| !same(f, &res.out));
    if differs {
      rt::log(&Rec::Begin { t: t as u8, u, api: jb.api, call: jb.call.clone() });
      rt::log(&Rec::Ret { t: t as u8, u, ph: ph as u32, out: res.out, jump: 0, pts: rt::op_points(), outp: res.outp });
      break;
    }
    if first.is_none() { first = Some(res.out); }
  }
  rt::log(&Rec::Again { u, n: k - 1, grown: if w().keeping { 0 } else { rt::live().0 - live0 } });
  run_op(t, ph, &one);
}
fn run_op(t: usize, ph: usize, o: &OpN) {
  if let Op::Again { n, op } = &o.op { return again(t, ph, o.u, *n, op); }
  if let Op::Fork { ops } = &o.op { return forked(t, ph, o.u, ops); }
  if storage(&o.op) { return; }
  let jb = match job(&o.op) {
    Some(j) => j,
    None => {
      rt::log(&Rec::Ret { t: t as u8, u: o.u, ph: ph as u32, out: Out::Skip, jump: 0, pts: 0, outp: None });
      return;
    }
  };
  // old occupants of a handle slot are released by their owner before the slot is reused
  let u = o.u;
  let users = |d: i32| if jb.api == Api::C {
    match jb.h {
      H::M(m) => { let h = w().cm[m].as_mut().unwrap(); h.users = (h.users as i32 + d) as u32; }
      H::K(k) => { let h = w().ck[k].as_mut().unwrap(); h.users = (h.users as i32 + d) as u32; }
      H::No => {}
    }
  };
  users(1);
  // a handle that is going away must not be picked up by others
  let dying = match (&jb.call, jb.api) {
    (Call::MgrDel, Api::C) | (Call::Mgr { .. }, Api::C) => w().cm[jb.dst].take(),
    (Call::KClose, Api::C) | (Call::Open { .. }, Api::C) => w().ck[jb.dst].take(),
    _ => None,
  };
  rt::log(&Rec::Begin { t: t as u8, u, api: jb.api, call: jb.call.clone() });
  rt::op_begin(u);
  let mut newh: Option<Hnd> = None;
  let mut newr: Option<KeychainManager> = None;
  let mut newk: Option<Keychain> = None;
  if let Some(d) = &dying { del_c(matches!(jb.call, Call::MgrDel | Call::Mgr { .. }), d.h); }
  if jb.api == Api::R { drop_r(&jb); }
  let res = match jb.api {
    Api::C => call_c(u, &jb, &mut newh),
    Api::R => call_r(u, &jb, &mut newr, &mut newk),
  };
  rt::op_returning();
  let jump = rt::op_jump();
  users(-1);
  rt::log(&Rec::Ret { t: t as u8, u, ph: ph as u32, out: res.out.clone(), jump, pts: rt::op_points(), outp: res.outp });
  // the result counts from here on
  match (&jb.call, &res.out) {
    (Call::Gen { lang, .. }, Out::Str(s)) => {
      rt::log(&Rec::MnSlot { s: jb.dst, m: s.clone(), lang: *lang });
      w().d.mns[jb.dst] = Some((s.clone(), *lang));
    }
    (Call::NewMnem { pw, .. }, Out::Bytes(b)) | (Call::NewSeed { pw, .. }, Out::Bytes(b)) | (Call::AddNet { pw, .. }, Out::Bytes(b)) | (Call::Seal { pw, .. }, Out::Bytes(b)) => set_slot(jb.dst, b.0.clone(), pw.clone()),
    (Call::ChPw { np, .. }, Out::Bytes(b)) => set_slot(jb.dst, b.0.clone(), np.clone()),
    (Call::Sign { .. }, Out::Bytes(b)) => {
      rt::log(&Rec::SigSlot { s: jb.dst, b: b.clone() });
      w().d.sigs[jb.dst] = Some(b.0.clone());
    }
    _ => {}
  }
  if let Some(h) = newh {
    let mgr = matches!(jb.call, Call::Mgr { .. });
    let from = if let Call::Open { blob, .. } = &jb.call { fnv(&blob.0) } else { 0 };
    let p = Box::leak(Box::new(h)) as *mut Hnd;
    let tab = if mgr { &mut w().cm } else { &mut w().ck };
    if tab[jb.dst].is_some() { del_c(mgr, p); } else { tab[jb.dst] = Some(CHandle { h: p, cfg: jb.cfg, from, users: 0 }); }
  }
  if let Some(m) = newr { let m: &'static KeychainManager = Box::leak(Box::new(m)); RM.with(|r| r.borrow_mut()[jb.dst] = Some((m, jb.cfg))); }
  if let Some(k) = newk {
    let k: &'static Keychain = Box::leak(Box::new(k));
    if let Call::Open { blob, .. } = &jb.call { RK.with(|r| r.borrow_mut()[jb.dst] = Some((k, jb.cfg, fnv(&blob.0)))); }
  }
  rt::op_end();
}
fn del_c(mgr: bool, h: *mut Hnd) {
  let left = rt::lib(|| unsafe {
    if mgr { delete_keychain_manager(h); if (*h).0.is_null() { delete_keychain_manager(h); } } else { delete_keychain(h); if (*h).0.is_null() { delete_keychain(h); } }
    !(*h).0.is_null()
  });
  if left { rt::mem_report("a delete function left the handle in place: deleting twice would do harm"); }
}
/// releases the Rust object whose table entry this operation takes over
fn drop_r(j: &Job) {
  match j.call {
    Call::Mgr { .. } | Call::MgrDel => {
      if let Some((m, _)) = RM.with(|r| r.borrow_mut()[j.dst].take()) { let b = unsafe { Box::from_raw(m as *const _ as *mut KeychainManager) }; rt::lib(|| drop(*b)); }
    }
    Call::Open { .. } | Call::KClose => {
      if let Some((k, _, _)) = RK.with(|r| r.borrow_mut()[j.dst].take()) { let b = unsafe { Box::from_raw(k as *const _ as *mut Keychain) }; rt::lib(|| drop(*b)); }
    }
    _ => {}
  }
}

fn call_c(u: u32, jb: &Job, newh: &mut Option<Hnd>) -> Res {
  let h: *const Hnd = match jb.h { H::M(m) => w().cm[m].as_ref().unwrap().h, H::K(k) => w().ck[k].as_ref().unwrap().h, H::No => std::ptr::null() };
  let done = || Res { out: Out::Unit, outp: None };
  unsafe {
    match &jb.call {
      Call::Mgr { .. } => ccall(Hnd(BADP as *mut u8), |m, o| { if m.0.is_null() { note(o, "null handle"); } *newh = Some(m); Out::Unit }, |m, e| keychain_manager_new(m, e)),
      Call::MgrDel | Call::KClose => done(),
      Call::HasNet { net, .. } => cbool(u, |b, e| keychain_manager_has_network(h, *net, b, e)),
      Call::Gen { lang, .. } => ccall(BADP as *mut c_char, |s, o| {
        if s.is_null() { note(o, "null string"); return Out::Str("".into()); }
        let b = CStr::from_ptr(s).to_bytes().to_vec();
        release(Keep::Str(s), keep(u));
        match String::from_utf8(b) { Ok(s) => Out::Str(s), Err(_) => { note(o, "mnemonic is not UTF-8"); Out::Str("".into()) } }
      }, |m, e| keychain_manager_generate_mnemonic(h, *lang as i32, m, e)),
      Call::NewMnem { mn, lang, pw, .. } => {
        let (a, b) = (Inb::cstr(mn.as_bytes()), Inb::cstr(pw.as_bytes()));
        cdata(u, |d, e| keychain_manager_keychain_data_from_mnemonic(h, a.c(), b.c(), *lang as i32, d, e))
      }
      Call::NewSeed { seed, pw, .. } => {
        let (a, b) = (Inb::new(&seed.0), Inb::cstr(pw.as_bytes()));
        cdata(u, |d, e| keychain_manager_keychain_data_from_seed(h, dp(&a, u), a.len, b.c(), d, e))
      }
      Call::Open { blob, pw, .. } => {
        let (a, b) = (Inb::new(&blob.0), Inb::cstr(pw.as_bytes()));
        ccall(Hnd(BADP as *mut u8), |k, o| { if k.0.is_null() { note(o, "null handle"); } *newh = Some(k); Out::Unit },
          |k, e| keychain_manager_keychain_from_data(h, dp(&a, u), a.len, b.c(), k, e))
      }
      Call::ChPw { blob, pw, np, .. } => {
        let (a, b, c) = (Inb::new(&blob.0), Inb::cstr(pw.as_bytes()), Inb::cstr(np.as_bytes()));
        cdata(u, |d, e| keychain_manager_change_password(h, dp(&a, u), a.len, b.c(), c.c(), d, e))
      }
      Call::AddNet { blob, pw, net, .. } => {
        let (a, b) = (Inb::new(&blob.0), Inb::cstr(pw.as_bytes()));
        cdata(u, |d, e| keychain_manager_add_network(h, dp(&a, u), a.len, b.c(), *net, d, e))
      }
      Call::Mnem { blob, pw, .. } => {
        let (a, b) = (Inb::new(&blob.0), Inb::cstr(pw.as_bytes()));
        ccall(CMnem { ptr: BADP as *mut c_char, lang: 7 }, |m, o| {
          if m.ptr.is_null() { note(o, "null mnemonic"); return Out::Mnem("".into(), m.lang); }
          let s = String::from_utf8_lossy(CStr::from_ptr(m.ptr).to_bytes()).into_owned();
          release(Keep::Mnem(m), keep(u));
          Out::Mnem(s, m.lang)
        }, |m, e| keychain_manager_retrieve_mnemonic(h, dp(&a, u), a.len, b.c(), m, e))
      }
      Call::Keys { blob, pw, .. } => {
        let (a, b) = (Inb::new(&blob.0), Inb::cstr(pw.as_bytes()));
        ccall(CKeys { ptr: BADP as *mut CKeyEl, count: 0x7777_7777 }, |k, o| {
          if k.ptr.is_null() && k.count > 0 { note(o, "null keys"); return Out::KeyData(vec![]); }
          if !live_keys(&k) { rt::mem_report("a returned list is not wholly inside live allocations"); note(o, "wild list"); return Out::KeyData(vec![]); }
          let v = (0..k.count).map(|i| { let e = &*k.ptr.add(i); (e.net, B(raw(e.data.ptr, e.data.len).to_vec())) }).collect();
          release(Keep::Keys(k), keep(u));
          Out::KeyData(v)
        }, |k, e| keychain_manager_get_keys_data(h, dp(&a, u), a.len, b.c(), k, e))
      }
      Call::KNets { .. } => ccall(CNets { ptr: BADP as *mut u32, count: 0x7777_7777 }, |n, o| {
        if n.ptr.is_null() && n.count > 0 { note(o, "null networks"); return Out::Nets(vec![]); }
        if n.count > 1 << 24 || !rt::live_range(n.ptr as *const u8, n.count * 4) { rt::mem_report("a returned list is not wholly inside a live allocation"); note(o, "wild list"); return Out::Nets(vec![]); }
        let v = if n.count == 0 { vec![] } else { std::slice::from_raw_parts(n.ptr, n.count).to_vec() };
        release(Keep::Nets(n), keep(u));
        Out::Nets(v)
      }, |n, e| keychain_networks(h, n, e)),
      Call::Pub { net, path, .. } => cdata(u, |d, e| keychain_pub_key(h, *net, cp(path), d, e)),
      Call::Sign { net, path, msg, .. } => { let a = Inb::new(&msg.0); cdata(u, |d, e| keychain_sign(h, *net, dp(&a, u), a.len, cp(path), d, e)) }
      Call::Ver { net, path, msg, sig, .. } => {
        let (a, b) = (Inb::new(&msg.0), Inb::new(&sig.0));
        cbool(u, |r, e| keychain_verify(h, *net, dp(&a, u), a.len, dp(&b, u / 2), b.len, cp(path), r, e))
      }
      Call::Path { p } => match p {
        PathOp::Text(s) => { let a = Inb::cstr(&s.0); cpath(|p, e| keypath_from_string(a.c(), p, e)) }
        PathOp::Eth(a) => cpath(|p, e| keypath_ethereum_new(*a, p, e)),
        PathOp::Meta(a) => cpath(|p, e| keypath_ethereum_new_metamask(*a, p, e)),
        PathOp::Ada(a, h, i) => cpath(|p, e| keypath_cardano_new(*a, *h, *i, p, e)),
        PathOp::Btc(44, t, a, h, i) => cpath(|p, e| keypath_bitcoin_new_bip44(*t, *a, *h, *i, p, e)),
        PathOp::Btc(49, t, a, h, i) => cpath(|p, e| keypath_bitcoin_new_bip49(*t, *a, *h, *i, p, e)),
        PathOp::Btc(_, t, a, h, i) => cpath(|p, e| keypath_bitcoin_new_bip84(*t, *a, *h, *i, p, e)),
      },
      Call::Reap => {
        let n = if jb.dst == 0 { w().keep.len() } else { jb.dst.min(w().keep.len()) };
        for k in 0..n {
          if w().keep.is_empty() { break; }
          let i = mix(u as u64 + k as u64) as usize % w().keep.len();
          let (b, h) = w().keep.swap_remove(i);
          free(b, h);
        }
        done()
      }
      Call::Bad { bad } => bad_c(u, bad, h, jb.dst),
      Call::KHas { .. } | Call::Seal { .. } | Call::Unseal { .. } | Call::None => done(),
    }
  }
}
fn cp(p: &KP) -> CPath { CPath { p: p.p, c: p.c, a: p.a, h: p.h, i: p.i } }
unsafe fn bad_c(u: u32, bad: &Bad, h: *const Hnd, src: usize) -> Res {
  let sc = w().sc;
  let text = Inb::cstr(b"p\xc3\x28\xff");
  let pw = Inb::cstr(b"p");
  let null = Hnd(std::ptr::null_mut());
  match bad {
    Bad::Utf8Pw => {
      let b = w().d.slots[src].clone().unwrap().0;
      let a = Inb::new(&b);
      match u % 8 {
        6 => ccall(CMnem { ptr: BADP as *mut c_char, lang: 7 }, |_, _| Out::Unit, |m, e| keychain_manager_retrieve_mnemonic(h, a.ptr, a.len, text.c(), m, e)),
        7 => { let m = Inb::cstr(sc.mns[0].text.as_bytes()); cdata(u, |d, e| keychain_manager_keychain_data_from_mnemonic(h, m.c(), text.c(), sc.mns[0].lang as i32, d, e)) }
        3 => cdata(u, |d, e| keychain_manager_change_password(h, a.ptr, a.len, pw.c(), text.c(), d, e)),
        4 => ccall(CKeys { ptr: BADP as *mut CKeyEl, count: 7 }, |_, _| Out::Unit, |k, e| keychain_manager_get_keys_data(h, a.ptr, a.len, text.c(), k, e)),
        5 => { let s = Inb::new(&sc.seeds[0].0); cdata(u, |d, e| keychain_manager_keychain_data_from_seed(h, s.ptr, s.len, text.c(), d, e)) }
        0 => cdata(u, |d, e| keychain_manager_change_password(h, a.ptr, a.len, text.c(), pw.c(), d, e)),
        1 => cdata(u, |d, e| keychain_manager_add_network(h, a.ptr, a.len, text.c(), ETH, d, e)),
        _ => ccall(Hnd(BADP as *mut u8), |_, _| Out::Unit, |k, e| keychain_manager_keychain_from_data(h, a.ptr, a.len, text.c(), k, e)),
      }
    }
    Bad::Utf8Mn => cdata(u, |d, e| keychain_manager_keychain_data_from_mnemonic(h, text.c(), pw.c(), 0, d, e)),
    Bad::Utf8Path => cpath(|p, e| keypath_from_string(text.c(), p, e)),
    Bad::NullMgr => match u % 9 {
      2 => { let a = Inb::new(&sc.seeds[0].0); cdata(u, |d, e| keychain_manager_change_password(&null, a.ptr, a.len, pw.c(), pw.c(), d, e)) }
      3 => { let a = Inb::new(&sc.seeds[0].0); cdata(u, |d, e| keychain_manager_add_network(&null, a.ptr, a.len, pw.c(), ETH, d, e)) }
      4 => { let a = Inb::new(&sc.seeds[0].0); ccall(Hnd(BADP as *mut u8), |_, _| Out::Unit, |k, e| keychain_manager_keychain_from_data(&null, a.ptr, a.len, pw.c(), k, e)) }
      5 => { let a = Inb::new(&sc.seeds[0].0); ccall(CMnem { ptr: BADP as *mut c_char, lang: 7 }, |_, _| Out::Unit, |m, e| keychain_manager_retrieve_mnemonic(&null, a.ptr, a.len, pw.c(), m, e)) }
      6 => { let m = Inb::cstr(sc.mns[0].text.as_bytes()); cdata(u, |d, e| keychain_manager_keychain_data_from_mnemonic(&null, m.c(), pw.c(), sc.mns[0].lang as i32, d, e)) }
      0 => cbool(u, |b, e| keychain_manager_has_network(&null, ETH, b, e)),
      1 => ccall(BADP as *mut c_char, |_, _| Out::Unit, |m, e| keychain_manager_generate_mnemonic(&null, 0, m, e)),
      7 => { let a = Inb::new(&sc.seeds[0].0); cdata(u, |d, e| keychain_manager_keychain_data_from_seed(&null, a.ptr, a.len, pw.c(), d, e)) }
      _ => { let a = Inb::new(&sc.seeds[0].0); ccall(CKeys { ptr: BADP as *mut CKeyEl, count: 7 }, |_, _| Out::Unit, |k, e| keychain_manager_get_keys_data(&null, a.ptr, a.len, pw.c(), k, e)) }
    },
    Bad::NullKc => {
      let p = cp(&sc.paths[0]);
      match u % 4 {
        0 => ccall(CNets { ptr: BADP as *mut u32, count: 7 }, |_, _| Out::Unit, |n, e| keychain_networks(&null, n, e)),
        1 => cdata(u, |d, e| keychain_pub_key(&null, ETH, p, d, e)),
        2 => cdata(u, |d, e| keychain_sign(&null, ETH, pw.ptr, 1, p, d, e)),
        _ => cbool(u, |b, e| keychain_verify(&null, ETH, pw.ptr, 1, pw.ptr, 1, p, b, e)),
      }
    }
    Bad::NullData => match u % 6 {
      2 => cdata(u, |d, e| keychain_manager_add_network(h, std::ptr::null(), 0, pw.c(), ETH, d, e)),
      3 => ccall(CKeys { ptr: BADP as *mut CKeyEl, count: 7 }, |_, _| Out::Unit, |k, e| keychain_manager_get_keys_data(h, std::ptr::null(), 0, pw.c(), k, e)),
      4 => ccall(CMnem { ptr: BADP as *mut c_char, lang: 7 }, |_, _| Out::Unit, |m, e| keychain_manager_retrieve_mnemonic(h, std::ptr::null(), 0, pw.c(), m, e)),
      0 => ccall(Hnd(BADP as *mut u8), |_, _| Out::Unit, |k, e| keychain_manager_keychain_from_data(h, std::ptr::null(), 0, pw.c(), k, e)),
      1 => cdata(u, |d, e| keychain_manager_change_password(h, std::ptr::null(), 0, pw.c(), pw.c(), d, e)),
      _ => cdata(u, |d, e| keychain_manager_keychain_data_from_seed(h, std::ptr::null(), 0, pw.c(), d, e)),
    },
    Bad::Init => { rt::lib(|| keychain_init_library()); Res { out: Out::Bool(true), outp: None } }
    Bad::DelNull => {
      let ok = rt::lib(|| {
        let mut a = Hnd(std::ptr::null_mut()); delete_keychain_manager(&mut a); delete_keychain(&mut a);
        let mut d = CData { ptr: std::ptr::null_mut(), len: u as usize }; delete_data(&mut d);
        let mut n = CNets { ptr: std::ptr::null_mut(), count: 5 }; delete_networks(&mut n);
        let mut k = CKeys { ptr: std::ptr::null_mut(), count: 5 }; delete_key_backup(&mut k);
        let mut m = CMnem { ptr: std::ptr::null_mut(), lang: 0 }; delete_mnemonic_info(&mut m);
        let mut e = CErr { ty: 0, msg: std::ptr::null_mut() }; delete_error(&mut e);
        delete_string(std::ptr::null_mut());
        NETWORK_BITCOIN() == BTC && NETWORK_ETHEREUM() == ETH && NETWORK_CARDANO() == ADA
      });
      Res { out: Out::Bool(ok), outp: None }
    }
  }
}

fn call_r(_u: u32, jb: &Job, newr: &mut Option<KeychainManager>, newk: &mut Option<Keychain>) -> Res {
  let sc = w().sc;
  let m = || match jb.h { H::M(m) => RM.with(|r| r.borrow()[m].unwrap().0), _ => unreachable!() };
  let k = || match jb.h { H::K(k) => RK.with(|r| r.borrow()[k].unwrap().0), _ => unreachable!() };
  let by = |v: Vec<u8>| Out::Bytes(B(v.clone()));
  let done = || Res { out: Out::Unit, outp: None };
  match &jb.call {
    Call::Mgr { cfg } => rcall(|| rust_manager(&sc.cfgs[*cfg]), |m| { *newr = Some(m); Out::Unit }),
    Call::MgrDel | Call::KClose | Call::None | Call::Reap | Call::Bad { .. } => done(),
    Call::HasNet { net, cfg } => {
      let m = m();
      rcall(|| {
        let a = m.has_network(&Network(*net));
        assert_eq!(a, m.get_key_factory(&Network(*net)).map_or(false, |f| f.network() == Network(*net)));
        if sc.cfgs[*cfg] == Cfg::All { assert_eq!(a, Network::all().contains(&Network(*net))); }
        Ok(a)
      }, Out::Bool)
    }
    Call::Gen { lang: l, .. } => { let m = m(); rcall(|| m.generate_mnemonic(Some(lang(*l))), |s| Out::Str(s.clone())) }
    Call::NewMnem { mn, lang: l, pw, .. } => { let m = m(); rcall(|| m.keychain_data_from_mnemonic(mn, pw, if *l == 0 { None } else { Some(lang(*l)) }), by) }
    Call::NewSeed { seed, pw, .. } => { let m = m(); rcall(|| m.keychain_data_from_seed(&seed.0, pw), by) }
    Call::Open { blob, pw, back: true, .. } => {
      let m = m();
      rcall(|| {
        let mut v: Vec<Box<dyn Key>> = vec![];
        for (n, d) in m.get_keys_data(&blob.0, pw)? {
          if let Some(f) = m.get_key_factory(&n) {
            if f.network() != n { return Err(keychain::Error::NetworkIsNotSupported(f.network())); }
            v.push(f.key_from_data(&d).map_err(|e| keychain::Error::from_key_error(&n, e))?);
          }
        }
        Ok(Keychain::new(v))
      }, |k| { *newk = Some(k); Out::Unit })
    }
    Call::Open { blob, pw, .. } => { let m = m(); rcall(|| m.keychain_from_data(&blob.0, pw), |k| { *newk = Some(k); Out::Unit }) }
    Call::ChPw { blob, pw, np, .. } => { let m = m(); rcall(|| m.change_password(&blob.0, pw, np), by) }
    Call::AddNet { blob, pw, net, .. } => { let m = m(); rcall(|| m.add_network(&blob.0, pw, Network(*net)), by) }
    Call::Mnem { blob, pw, .. } => { let m = m(); rcall(|| m.retrieve_mnemonic(&blob.0, pw), |(s, l)| Out::Mnem(s.clone(), l as i32)) }
    Call::Keys { blob, pw, .. } => { let m = m(); rcall(|| m.get_keys_data(&blob.0, pw), |v| Out::KeyData(v.iter().map(|(n, d)| (n.0, B(d.clone()))).collect())) }
    Call::KNets { .. } => { let k = k(); rcall(|| Ok(k.networks()), |v| Out::Nets(v.iter().map(|n| n.0).collect())) }
    Call::KHas { net, .. } => { let k = k(); rcall(|| Ok(k.has_network(&Network(*net))), Out::Bool) }
    Call::Seal { data, pw } => rcall(|| { let e = keychain::OsEntropy::new(); Ok(keychain::crypt::encrypt(&data.0, pw, &e)) }, by),
    Call::Unseal { blob, pw } => {
      use keychain::crypt::DecryptError::*;
      let mut text = None;
      let mut r = rcall(|| keychain::crypt::decrypt(&blob.0, pw).map_err(|e| { text = Some(format!("{}", e)); match e { NotEnoughData => keychain::Error::NotEnoughData, DecryptionFailed => keychain::Error::WrongPassword } }), by);
      if let (Out::Err(_, m), Some(t)) = (&mut r.out, &text) { *m = t.clone(); }
      rt::lib(|| drop(text));
      r
    }
    Call::Pub { net, path, .. } => { let k = k(); rcall(|| k.pub_key(&Network(*net), path), by) }
    Call::Sign { net, path, msg, .. } => { let k = k(); rcall(|| k.sign(&Network(*net), &msg.0, path), by) }
    Call::Ver { net, path, msg, sig, .. } => { let k = k(); rcall(|| k.verify(&Network(*net), &msg.0, &sig.0, path), Out::Bool) }
    Call::Path { p } => {
      use keychain::networks::*;
      rcall(|| Ok(match p {
        PathOp::Text(b) => {
          let g = keychain::GenericKeyPath::from(std::str::from_utf8(&b.0).unwrap())?;
          let again = keychain::GenericKeyPath::from(&g.to_string())?;
          if kp(&again) != kp(&g) { Out::Text("printed form differs".into()) } else { dynp(&g) }
        }
        PathOp::Eth(a) => dynp(&ethereum::KeyPath::new(*a)?),
        PathOp::Meta(a) => dynp(&ethereum::KeyPath::new_metamask(*a)?),
        PathOp::Ada(a, h, i) => dynp(&cardano::KeyPath::new(*a, *h, *i)?),
        PathOp::Btc(44, t, a, h, i) => dynp(&bitcoin::KeyPath::bip44(*t, *a, *h, *i)?),
        PathOp::Btc(49, t, a, h, i) => dynp(&bitcoin::KeyPath::bip49(*t, *a, *h, *i)?),
        PathOp::Btc(_, t, a, h, i) => dynp(&bitcoin::KeyPath::bip84(*t, *a, *h, *i)?),
      }), |o| o)
    }
  }
}

// ------------------------------------------------------------------ one incarnation
fn body(t: usize) {
  let ww = w();
  RM.with(|r| *r.borrow_mut() = (0..ww.sc.nm).map(|_| None).collect());
  RK.with(|r| *r.borrow_mut() = (0..ww.sc.nk).map(|_| None).collect());
  for ph in 0..ww.inc.phases.len() {
    if ww.inc.threads > 1 { rt::barrier(); }
    if ww.inc.marks.contains(&ph) {
      if t == 0 { let (blocks, bytes) = rt::live(); rt::log(&Rec::Mark { i: ph as _, blocks, bytes }); }
      if ww.inc.threads > 1 { rt::barrier(); }
    }
    if let Some(ops) = ww.inc.phases[ph].get(t) { for o in ops { run_op(t, ph, o); } }
  }
  if ww.inc.threads > 1 { rt::barrier(); }
}
/// body of the forked process
pub fn incarnation(sc: &'static Scenario, idx: usize, d: Durable) -> ! {
  let inc = &sc.incs[idx];
  unsafe {
    let fd = rt::raw(2, b"/dev/null\0".as_ptr() as usize, 1, 0, 0, 0, 0);
    rt::raw(33, fd as usize, 2, 0, 0, 0, 0);
    let lim = [30u64, 32u64];
    rt::raw(160, 0, &lim as *const _ as usize, 0, 0, 0, 0); // RLIMIT_CPU
    let z = [0u64, 0u64];
    rt::raw(160, 4, &z as *const _ as usize, 0, 0, 0, 0); // RLIMIT_CORE
    let timer = [0i64, 0, 240, 0];
    rt::raw(38, 0, &timer as *const _ as usize, 0, 0, 0, 0); // setitimer(REAL)
  }
  rt::init(inc, idx, sc);
  rt::catch_faults();
  let keeping = inc.phases.iter().flatten().flatten().any(|o| matches!(o.op, Op::Reap { .. }));
  unsafe {
    W = Some(World { sc, inc, d, cm: (0..sc.nm).map(|_| None).collect(), ck: (0..sc.nk).map(|_| None).collect(), keep: vec![], keeping, plug_calls: vec![[0; 5]; sc.plugs.len()] });
  }
  if inc.init { unsafe { keychain_init_library(); } } else if sc.prop != "C20" { std::panic::set_hook(Box::new(|_| {})); }
  rt::run_threads(inc.threads, body);
  rt::exit_now(0)
}
