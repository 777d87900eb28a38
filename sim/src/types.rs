//! Plain data shared by generator, executor and judge. Everything is serialisable:
//! a `Scenario` is the replay file, a `Vec<Rec>` is the history of one simulated process.
use serde::{Deserializer, Serializer};
use serde::Deserialize as De;
use serde::Serialize as Se;

#[derive(Clone, PartialEq, Eq, Default, PartialOrd, Ord, Hash)]
pub struct B(pub Vec<u8>);
impl std::fmt::Debug for B {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    if self.0.len() <= 48 { write!(f, "x{}", hex(&self.0)) } else { write!(f, "x{}..[{}]", hex(&self.0[..24]), self.0.len()) }
  }
}
pub fn hex(b: &[u8]) -> String {
  const H: &[u8; 16] = b"0123456789abcdef";
  let mut s = Vec::with_capacity(b.len() * 2);
  for x in b { s.push(H[(x >> 4) as usize]); s.push(H[(x & 15) as usize]); }
  unsafe { String::from_utf8_unchecked(s) }
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
  let d = |c: u8| match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), _ => None };
  let b = s.as_bytes();
  if b.len() % 2 != 0 { return None; }
  b.chunks(2).map(|c| Some(d(c[0])? << 4 | d(c[1])?)).collect()
}
impl Se for B {
  fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&hex(&self.0)) }
}
impl<'de> De<'de> for B {
  fn deserialize<D: Deserializer<'de>>(d: D) -> Result<B, D::Error> {
    let s = <String as De>::deserialize(d)?;
    unhex(&s).map(B).ok_or_else(|| serde::de::Error::custom("hex"))
  }
}

pub const BTC: u32 = 0x8000_0000;
pub const ETH: u32 = 0x8000_003c;
pub const ADA: u32 = 0x8000_0717;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Api { C, R }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PwSel { Right, Lit(usize), Near(u32) }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MnRef { Lit(usize), Slot(usize), Typo(usize, u32) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct KP { pub p: u32, pub c: u32, pub a: u32, pub h: u32, pub i: u32 }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PathOp { Text(B), Eth(u32), Meta(u32), Ada(u32, u32, u32), Btc(u8, bool, u32, u32, u32) }

/// Damage the storage or a channel does to bytes; offsets and lengths are reduced modulo the size.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dmg {
  Flip(u32), Trunc(u32), Head(u32), Ext(u32, u8), Zero(u32, u32), Swap(u32, u32, u32), Splice(usize, u32), Empty, Fill(u8), Set(u32, u8),
  /// replace bytes [a, a+len) by those of another slot
  Graft(usize, u32, u32), Repeat,
  /// the right content under the right password in another container: plain, other encodings, layouts or key derivations
  Recode(u8),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Chan { None, Flip(u32), Trunc(u32), Ext(u8), Drop65, Empty, Other(usize), Zero, Recid(u8), HalfSwap, MsgFlip(u32), MsgTrunc, MsgExt, MsgOther(usize), Long(u32), Cut(u32), MsgHash(u8), NegS(bool), AddL }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Bad { Utf8Pw, Utf8Mn, Utf8Path, NullMgr, NullKc, NullData, DelNull, Init }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
  Mgr { api: Api, m: usize, cfg: usize },
  MgrDel { api: Api, m: usize },
  HasNet { api: Api, m: usize, net: u32 },
  Gen { api: Api, m: usize, lang: Option<u8>, dst: usize },
  NewMnem { api: Api, m: usize, mn: MnRef, lang: Option<u8>, pw: usize, dst: usize },
  NewSeed { api: Api, m: usize, seed: usize, pw: usize, dst: usize },
  Open { api: Api, m: usize, src: usize, pw: PwSel, k: usize },
  /// the keychain an application builds by itself from the keys it exported
  Restore { m: usize, src: usize, pw: PwSel, k: usize },
  ChPw { api: Api, m: usize, src: usize, pw: PwSel, np: usize, dst: usize },
  AddNet { api: Api, m: usize, src: usize, pw: PwSel, net: u32, dst: usize },
  Mnem { api: Api, m: usize, src: usize, pw: PwSel },
  Keys { api: Api, m: usize, src: usize, pw: PwSel },
  KNets { api: Api, k: usize },
  KHas { k: usize, net: u32 },
  Pub { api: Api, k: usize, net: u32, path: usize },
  Sign { api: Api, k: usize, net: u32, path: usize, msg: usize, dst: usize },
  Ver { api: Api, k: usize, net: u32, path: usize, msg: usize, sig: usize, ch: Vec<Chan> },
  KClose { api: Api, k: usize },
  Path { api: Api, p: PathOp },
  /// the cipher itself (the public module crypt): a message sealed under a password, and opened
  Seal { msg: usize, pw: usize, dst: usize },
  Unseal { src: usize, pw: PwSel },
  Reap { n: usize },
  Hurt { src: usize, dst: usize, how: Vec<Dmg> },
  Copy { src: usize, dst: usize },
  Foreign { f: usize, dst: usize },
  BadC { bad: Bad, m: usize, k: usize, src: usize },
  /// nobody calls anything for a while; the wall clock may be set meanwhile
  Idle { ns: u64, wall: i64 },
  /// one call n times over; only those that end otherwise than the one before are recorded
  Again { n: u32, op: Box<Op> },
  /// the process forks: the child makes these calls and ends, then the parent goes on
  Fork { ops: Vec<OpN> },
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct OpN { pub u: u32, pub op: Op }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Plug { pub id: u32, pub min: usize, pub max: usize, pub faults: Vec<PlugFault>, pub dlen: usize }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct PlugFault { pub call: u8, pub nth: u32, pub panic: bool } // call: 0 seed, 1 load, 2 pub, 3 sign, 4 verify

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cfg { All, Nets(Vec<u32>), Custom { builtin: Vec<u32>, plugs: Vec<usize> } }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct MnLit { pub text: String, pub lang: u8 }

/// what the caller's storage holds before the first process starts
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Init { Slot(usize, B, String), Sig(usize, B) }

/// what the reader owes a foreign blob
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Expect { Good, Bad, Either }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ForeignSpec { pub plain: B, pub pw: usize, pub salt: B, pub expect: Expect, pub what: String }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum EFault { Eintr, Short(u32), Err(i32), Stall(u64) }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct EntPlan {
  /// getrandom is missing: fails with this errno for the whole life of the process
  pub nosys: Option<i32>,
  pub seed: u64,
  pub eintr: u32, pub short: u32, pub err: u32, pub stall: u32, // per mille, decided per call
  pub windows: Vec<(u32, u32, i32)>,                            // outages: from call index, length, errno
  pub explicit: Option<Vec<(u32, u32, EFault)>>,                // (op, k-th entropy call of the op, fault)
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Sched { Seq, Rand { seed: u64, mean: u32, special: u32 }, Explicit(Vec<(u32, u64, u8)>) }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum CrashAt { Step(u64), Alloc(u32), Draw(u32), Oom(u32), Ret }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Inc {
  pub threads: usize,
  pub phases: Vec<Vec<Vec<OpN>>>,
  pub ent: EntPlan,
  pub sched: Sched,
  pub crash: Option<(u32, CrashAt)>,
  pub init: bool,
  pub clock0: u64,
  /// phase indices at whose start all memory must be accounted (rounds of the same program)
  pub marks: Vec<usize>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Scenario {
  pub prop: String, pub seed: u64, pub full_kdf: bool, pub hash_seed: u64, pub ent_seed: u64,
  pub pws: Vec<String>, pub msgs: Vec<B>, pub seeds: Vec<B>, pub mns: Vec<MnLit>, pub paths: Vec<KP>,
  pub cfgs: Vec<Cfg>, pub plugs: Vec<Plug>, pub foreign: Vec<ForeignSpec>,
  /// slots initially holding blobs written by the released library: (slot, index of the golden blob)
  pub golden: Vec<(usize, usize)>,
  pub init: Vec<Init>,
  pub nslots: usize, pub nmn: usize, pub nk: usize, pub nm: usize, pub nsig: usize,
  pub incs: Vec<Inc>,
}

// ------------------------------------------------------------------ history
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Out {
  Skip, Unit, Bool(bool), Bytes(B), Str(String), Nets(Vec<u32>), KeyData(Vec<(u32, B)>), Mnem(String, i32), Path(KP),
  Err(i32, String), Panic(String), Text(String),
}
/// A call with everything that determines its outcome.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Call {
  None,
  Mgr { cfg: usize },
  MgrDel,
  HasNet { cfg: usize, net: u32 },
  Gen { cfg: usize, lang: u8 },
  NewMnem { cfg: usize, mn: String, lang: u8, pw: String },
  NewSeed { cfg: usize, seed: B, pw: String },
  Open { cfg: usize, blob: B, pw: String, back: bool },
  ChPw { cfg: usize, blob: B, pw: String, np: String },
  AddNet { cfg: usize, blob: B, pw: String, net: u32 },
  Mnem { cfg: usize, blob: B, pw: String },
  Keys { cfg: usize, blob: B, pw: String },
  KNets { from: u64, cfg: usize },
  KHas { from: u64, cfg: usize, net: u32 },
  Pub { from: u64, cfg: usize, net: u32, path: KP },
  Sign { from: u64, cfg: usize, net: u32, path: KP, msg: B },
  Ver { from: u64, cfg: usize, net: u32, path: KP, msg: B, sig: B },
  KClose,
  Path { p: PathOp },
  Seal { data: B, pw: String },
  Unseal { blob: B, pw: String },
  Reap,
  Bad { bad: Bad },
}
#[derive(Clone, Debug)]
pub struct OpRec {
  pub t: u8, pub u: u32, pub ph: u32, pub api: Api, pub call: Call, pub out: Out,
  pub jump: u64, pub pts: u64,
  pub outp: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Rec {
  /// a call starts, with everything that determines its outcome
  Begin { t: u8, u: u32, api: Api, call: Call },
  /// it returned; jump: simulated nanoseconds that passed by clock jumps while it ran
  Ret { t: u8, u: u32, ph: u32, out: Out, jump: u64, pts: u64, outp: Option<String> },
  /// n bytes delivered from stream position pos
  Draw { t: u8, u: u32, pos: u64, n: u32 },
  Fault { t: u8, u: u32, k: u32, f: EFault },
  NoSys { t: u8, u: u32 },
  OpenFail { t: u8, u: u32 },
  Sw { u: u32, n: u64, to: u8 },
  Slot { s: usize, b: B, pw: String },
  MnSlot { s: usize, m: String, lang: u8 },
  SigSlot { s: usize, b: B },
  Plug { t: u8, u: u32, id: u32, call: u8, arg: B, act: u8 }, // act 0 ok, 1 err, 2 panic
  Mem { t: u8, u: u32, what: String },
  /// the library wrote to a file or stream
  Wrote { t: u8, u: u32, fd: i32, b: B },
  /// a call was repeated n times with the same end; live blocks it added
  Again { u: u32, n: u32, grown: i64 },
  Mark { i: u32, blocks: i64, bytes: i64 },
  Crash { u: u32 },
  /// a child process was forked, or has ended
  Forked { u: u32, back: bool },
  Dead { what: String },
  Steps { u: u32 },
  End { steps: u64, now: u64, points: u64 },
}

pub fn fnv(b: &[u8]) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); }
  h ^ (h >> 29)
}

/// splitmix64: the only generator in the simulator
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
  pub fn new(s: u64) -> Rng { let mut r = Rng(s ^ 0x9e3779b97f4a7c15); r.u64(); r }
  pub fn u64(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
    mix(self.0)
  }
  pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.u64() as u128 * n as u128) >> 64) as u64 } }
  pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
  pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
  pub fn pct(&mut self, p: u32) -> bool { self.below(100) < p as u64 }
  pub fn pm(&mut self, p: u32) -> bool { self.below(1000) < p as u64 }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
  pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
  /// log-uniform in 1..=max
  pub fn logu(&mut self, max: u64) -> u64 {
    let bits = 64 - max.leading_zeros() as u64;
    let b = self.below(bits);
    (self.range(1 << b, (2u64 << b) - 1)).min(max)
  }
  pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j); } }
}
pub fn mix(mut z: u64) -> u64 {
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
  z ^ (z >> 31)
}
/// byte `pos` of the operating system's entropy stream of incarnation `inc`
pub fn ent_byte(seed: u64, inc: u64, pos: u64) -> u8 {
  let w = mix(mix(seed ^ mix(inc.wrapping_add(0x51ed2701))).wrapping_add((pos / 8).wrapping_mul(0x9e3779b97f4a7c15)));
  (w >> (8 * (pos % 8))) as u8
}
/// the iteration count the simulated key derivation really uses
pub fn kdf_iters(full: bool, c: u32) -> u32 { if full || c < 256 { c } else { 3 + c % 61 } }
