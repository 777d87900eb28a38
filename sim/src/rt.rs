//! The simulated machine one process runs on: scheduler, clock, entropy source, memory, crash points.
//!
//! Real threads run the shipped code one at a time; who runs is decided here, at scheduling points:
//! every basic block, load and store of the repository's crates (compiler instrumentation), every
//! allocation and release they make, every system call they issue (interposed libc symbols) and the
//! borders of every call. Nothing here reads a real clock, real entropy or the real scheduler.
use crate::types::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 8;
const CAP: u64 = 60_000_000; // scheduling points in one call before it counts as not terminating
const SPIN: u64 = 4_000_000; // scheduling points in one call after which the clock moves on although that call could still run
const SLICE: u64 = 100_000; // scheduling points after which somebody else gets a turn, so that spin locks end
const NONE: u64 = u64::MAX;

struct Tls {
  tid: Cell<i32>, lib: Cell<u32>, mask: Cell<u32>, u: Cell<u32>, n: Cell<u64>, next: Cell<u64>,
  pre: Cell<u64>, allocs: Cell<u32>, draws: Cell<u32>, jump: Cell<u64>, stalled: Cell<u64>, spun: Cell<u64>, slice: Cell<u64>, spin: Cell<u64>,
}
thread_local! {
  static T: Tls = const { Tls { tid: Cell::new(-1), lib: Cell::new(0), mask: Cell::new(0), u: Cell::new(0), n: Cell::new(0),
    next: Cell::new(0), pre: Cell::new(NONE), allocs: Cell::new(0), draws: Cell::new(0), jump: Cell::new(0), stalled: Cell::new(0), spun: Cell::new(0), slice: Cell::new(SLICE), spin: Cell::new(SPIN) } };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Run, Futex(usize, u64), Sleep(u64), Barrier, Done }

struct G {
  sched: Sched, rng: Rng, mean: u32, special: u32, explicit: std::collections::BTreeMap<u32, Vec<(u64, u8)>>,
  ent: EntPlan, ent_rng: Rng, ent_seed: u64, inc: u64, ent_pos: u64, ent_calls: u32, ent_off: bool, forks: u64,
  hash_seed: u64, hash_ctr: [u64; MAXT + 1],
  crash: Option<(u32, CrashAt)>,
  n: usize, st: [St; MAXT], fifo: [u64; MAXT], fifo_ctr: u64, cur: usize, runnable: usize,
  now: u64, wall: i64, jumped: u64, points: u64, full: bool,
  fake: [(i32, u8); 16],
  live_blocks: i64, live_bytes: i64, bump: usize,
  mem_reports: u32,
}
impl G {
  fn planned(&self, u: u32, n: u64) -> Option<usize> {
    let l = self.explicit.get(&u)?;
    let i = l.partition_point(|e| e.0 < n);
    if i < l.len() && l[i].0 == n { Some(l[i].1 as usize) } else { None }
  }
}
static mut G_: Option<G> = None;
#[allow(static_mut_refs)]
fn g() -> &'static mut G { unsafe { G_.as_mut().unwrap() } }
static WORD: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static ALLDONE: AtomicU32 = AtomicU32::new(0);

// ------------------------------------------------------------------ raw system calls
#[inline(always)]
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
  let r: isize;
  std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
    lateout("rcx") _, lateout("r11") _, options(nostack));
  r
}
extern "C" { fn __errno_location() -> *mut i32; }
unsafe fn ret(r: isize) -> isize { if r < 0 && r > -4096 { *__errno_location() = -r as i32; -1 } else { r } }
fn fwait(w: &AtomicU32) { while w.load(SeqCst) == 0 { unsafe { raw(202, w as *const _ as usize, 128, 0, 0, 0, 0); } } w.store(0, SeqCst); }
fn fwake(w: &AtomicU32) { w.store(1, SeqCst); unsafe { raw(202, w as *const _ as usize, 129, 1, 0, 0, 0); } }
pub fn exit_now(code: i32) -> ! { unsafe { raw(231, code as usize, 0, 0, 0, 0, 0); } loop {} }

// ------------------------------------------------------------------ shared history log
pub struct Log { base: *mut u8, cap: usize }
static mut LOG: Log = Log { base: std::ptr::null_mut(), cap: 0 };
pub const HITS: usize = 1 << 16;
#[allow(static_mut_refs)]
pub fn log_init(cap: usize) {
  unsafe {
    let p = raw(9, 0, cap + HITS + 4096, 3, 0x1 | 0x20 | 0x4000, usize::MAX, 0); // shared anonymous noreserve
    assert!(p > 0, "log mmap");
    LOG = Log { base: p as *mut u8, cap };
  }
}
#[allow(static_mut_refs)]
pub fn log_reset() { unsafe { *(LOG.base as *mut u64) = 64; } }
#[allow(static_mut_refs)]
pub fn log_take() -> Vec<Rec> {
  unsafe {
    let end = *(LOG.base as *const u64) as usize;
    let mut pos = 64;
    let mut v = Vec::new();
    while pos + 4 <= end {
      let len = *(LOG.base.add(pos) as *const u32) as usize;
      let s = std::slice::from_raw_parts(LOG.base.add(pos + 4), len);
      v.push(serde_json::from_slice(s).expect("history record"));
      pos = (pos + 4 + len + 3) & !3;
    }
    v
  }
}
#[allow(static_mut_refs)]
pub fn hits() -> &'static mut [u8] { unsafe { std::slice::from_raw_parts_mut(LOG.base.add(LOG.cap), HITS) } }
#[allow(static_mut_refs)]
pub fn log(r: &Rec) {
  let _m = Mask::new();
  let s = serde_json::to_vec(r).unwrap();
  unsafe {
    let pos = *(LOG.base as *const u64) as usize;
    let next = (pos + 4 + s.len() + 3) & !3;
    if next > LOG.cap { exit_now(90); }
    *(LOG.base.add(pos) as *mut u32) = s.len() as u32;
    std::ptr::copy_nonoverlapping(s.as_ptr(), LOG.base.add(pos + 4), s.len());
    *(LOG.base as *mut u64) = next as u64;
  }
}

/// harness code running inside a library call: no scheduling points, memory from the system
pub struct Mask;
impl Mask { pub fn new() -> Mask { T.with(|t| t.mask.set(t.mask.get() + 1)); Mask } }
impl Drop for Mask { fn drop(&mut self) { T.with(|t| t.mask.set(t.mask.get() - 1)); } }
struct Lib(u32);
impl Drop for Lib { fn drop(&mut self) { T.with(|t| t.lib.set(self.0)); } }
/// runs code of the system under test
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
  let _l = T.with(|t| { let d = t.lib.get(); t.lib.set(d + 1); Lib(d) });
  f()
}
/// harness code called back from library code (network plug-ins)
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
  special(2);
  let _m = Mask::new();
  f()
}

// ------------------------------------------------------------------ life cycle
pub fn init(inc: &Inc, idx: usize, sc: &Scenario) {
  let (mean, special, explicit, seed) = match &inc.sched {
    Sched::Seq => (0, 0, Default::default(), 0),
    Sched::Rand { seed, mean, special } => (*mean, *special, Default::default(), *seed),
    Sched::Explicit(v) => {
      let mut m: std::collections::BTreeMap<u32, Vec<(u64, u8)>> = Default::default();
      for e in v { m.entry(e.0).or_default().push((e.1, e.2)); }
      for l in m.values_mut() { l.sort_by_key(|e| e.0); } // stable: the first of several entries counts
      (0, 0, m, 0)
    }
  };
  unsafe {
    G_ = Some(G {
      sched: inc.sched.clone(), rng: Rng::new(seed), mean, special, explicit,
      ent: inc.ent.clone(), ent_rng: Rng::new(inc.ent.seed), ent_seed: sc.ent_seed, inc: idx as u64, ent_pos: 0, ent_calls: 0, ent_off: false, forks: 0,
      hash_seed: mix(sc.hash_seed.wrapping_add(idx as u64)), hash_ctr: [0; MAXT + 1],
      crash: inc.crash.clone(), n: inc.threads, st: [St::Done; MAXT], fifo: [0; MAXT], fifo_ctr: 0, cur: 0, runnable: 0,
      now: inc.clock0, wall: 0, jumped: 0, points: 0, full: sc.full_kdf, fake: [(-1, 0); 16],
      live_blocks: 0, live_bytes: 0, bump: 0, mem_reports: 0,
    });
    arena_init();
  }
}
pub static FULL_HARNESS: AtomicU32 = AtomicU32::new(0);

pub fn run_threads(n: usize, body: fn(usize)) {
  let gg = g();
  for i in 0..n { gg.st[i] = St::Run; }
  gg.runnable = n;
  for i in 0..n {
    std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
      T.with(|t| t.tid.set(i as i32));
      T.with(|t| t.u.set(1_000_000 + i as u32));
      fwait(&WORD[i]);
      body(i);
      g().st[i] = St::Done;
      g().runnable -= 1;
      let _m = Mask::new();
      if !forced(i) { T.with(|t| t.tid.set(-1)); fwake(&ALLDONE); loop { unsafe { raw(34, 0, 0, 0, 0, 0, 0); } } }
      // park instead of exiting: thread exit order is not ours to decide
      loop { unsafe { raw(34, 0, 0, 0, 0, 0, 0); } }
    }).unwrap();
  }
  let first = choose(MAXT, 999_999, 0).unwrap_or(0);
  gg.cur = first;
  log(&Rec::Sw { u: 999_999, n: 0, to: first as u8 });
  fwake(&WORD[first]);
  fwait(&ALLDONE);
  arena_final();
  log(&Rec::End { steps: gg.points, now: gg.now - 0, points: gg.points });
}

/// next thread after a forced switch; None: nobody can run
fn choose(me: usize, u: u32, n: u64) -> Option<usize> {
  let gg = g();
  let c: Vec<usize> = (0..gg.n).filter(|&i| i != me && gg.st[i] == St::Run).collect();
  if c.is_empty() { return None; }
  match &gg.sched {
    Sched::Seq => Some(c[0]),
    Sched::Rand { .. } => Some(c[gg.rng.us(c.len())]),
    Sched::Explicit(_) => {
      let w = gg.planned(u, n);
      Some(w.filter(|w| c.contains(w)).unwrap_or(c[0]))
    }
  }
}
fn hand_over(me: usize, to: usize, park: bool) {
  let gg = g();
  gg.cur = to;
  let (u, n) = T.with(|t| (t.u.get(), t.n.get()));
  log(&Rec::Sw { u, n, to: to as u8 });
  if to == me { return; }
  fwake(&WORD[to]);
  if park { fwait(&WORD[me]); T.with(|t| t.slice.set(t.n.get() + SLICE)); }
}
/// the running thread `me` can not go on: somebody else must. false: everybody is done
fn forced(me: usize) -> bool {
  let gg = g();
  let (u, n) = T.with(|t| { t.n.set(t.n.get() + 1); (t.u.get(), t.n.get()) });
  let park = gg.st[me] != St::Done;
  loop {
    if gg.st[me] == St::Run { return true; } // woken by the clock
    if let Some(to) = choose(me, u, n) { hand_over(me, to, park); return true; }
    // nothing runnable: jump the clock to the next timed event
    if let Some(d) = next_event() { gg.jumped += d; continue; }
    if (0..gg.n).all(|i| gg.st[i] == St::Done) { return false; }
    if (0..gg.n).all(|i| gg.st[i] == St::Done || gg.st[i] == St::Barrier) {
      for i in 0..gg.n { if gg.st[i] == St::Barrier { wake(i); } }
      continue;
    }
    log(&Rec::Dead { what: format!("no thread can run: {:?}", &gg.st[..gg.n]) });
    exit_now(79);
  }
}
/// moves the clock to the next timed event, if there is one, and wakes whom it concerns; how far it moved
fn next_event() -> Option<u64> {
  let gg = g();
  let at = (0..gg.n).filter_map(|i| match gg.st[i] { St::Sleep(d) => Some(d), St::Futex(_, d) if d != NONE => Some(d), _ => None }).min()?;
  let d = at.saturating_sub(gg.now);
  gg.now += d;
  for i in 0..gg.n {
    match gg.st[i] { St::Sleep(x) | St::Futex(_, x) if x <= gg.now => wake(i), _ => {} }
  }
  Some(d)
}
fn wake(i: usize) { let gg = g(); if gg.st[i] != St::Run { gg.st[i] = St::Run; gg.runnable += 1; } }
fn block(st: St) {
  let me = T.with(|t| t.tid.get()) as usize;
  let gg = g();
  gg.st[me] = st;
  gg.runnable -= 1;
  gg.fifo_ctr += 1;
  gg.fifo[me] = gg.fifo_ctr;
  forced(me);
  arm();
}
pub fn barrier() { let _m = Mask::new(); block(St::Barrier); }
fn sleep(ns: u64) { let d = g().now.saturating_add(ns); block(St::Sleep(d)); }

// ------------------------------------------------------------------ scheduling points
fn arm() {
  let gg = g();
  T.with(|t| {
    let (u, n) = (t.u.get(), t.n.get());
    let mut next = CAP.min(t.slice.get()).min(t.spin.get());
    if let Some((cu, CrashAt::Step(s))) = &gg.crash { if *cu == u { next = next.min((*s).max(n + 1)); } }
    if gg.mean > 0 {
      if t.pre.get() == NONE || t.pre.get() <= n { t.pre.set(n + 1 + gg.rng.below(2 * gg.mean as u64)); }
      next = next.min(t.pre.get());
    }
    if let Some(l) = gg.explicit.get(&u) { let i = l.partition_point(|e| e.0 <= n); if i < l.len() { next = next.min(l[i].0); } }
    t.next.set(next);
  })
}
#[inline(always)]
fn cov_point() {
  T.with(|t| {
    if t.lib.get() == 0 || t.mask.get() != 0 { return; }
    let n = t.n.get() + 1;
    t.n.set(n);
    if n >= t.next.get() { due(); }
  })
}
#[cold]
fn due() {
  if T.with(|t| t.tid.get()) < 0 { T.with(|t| t.next.set(NONE)); return; }
  let _m = Mask::new();
  let gg = g();
  let (me, u, n) = T.with(|t| (t.tid.get() as usize, t.u.get(), t.n.get()));
  if n >= CAP { log(&Rec::Steps { u }); exit_now(78); }
  if let Some((cu, CrashAt::Step(s))) = &gg.crash { if *cu == u && n >= *s { die(u); } }
  let mut to = None;
  if gg.mean > 0 {
    if T.with(|t| t.pre.get()) <= n && gg.runnable > 1 { to = choose(me, u, n); }
  } else if let Some(w) = gg.planned(u, n) {
    if w < gg.n && w != me && gg.st[w] == St::Run { to = Some(w); }
  }
  // a call that spins until a sleeping thread is done sees time pass like everybody else
  if n >= T.with(|t| t.spin.get()) {
    T.with(|t| t.spin.set(n + SLICE));
    if let Some(d) = next_event() { T.with(|t| t.spun.set(t.spun.get() + d)); }
  }
  if n >= T.with(|t| t.slice.get()) {
    T.with(|t| t.slice.set(n + SLICE));
    if to.is_none() { to = (1..gg.n).map(|d| (me + d) % gg.n).find(|i| gg.st[*i] == St::Run); }
  }
  arm();
  if let Some(to) = to { hand_over(me, to, true); arm(); }
}
/// scheduling point worth a dedicated coin: system call, allocation, key derivation, border of a call
fn special(_kind: u8) {
  let active = T.with(|t| t.tid.get() >= 0 && t.mask.get() == 0);
  if !active { return; }
  let n = T.with(|t| { let n = t.n.get() + 1; t.n.set(n); n });
  if n >= T.with(|t| t.next.get()) { due(); return; }
  let gg = g();
  if gg.special > 0 && gg.runnable > 1 && gg.rng.pm(gg.special) {
    let _m = Mask::new();
    let (me, u) = T.with(|t| (t.tid.get() as usize, t.u.get()));
    if let Some(to) = choose(me, u, n) { hand_over(me, to, true); arm(); }
  }
}
fn die(u: u32) -> ! { log(&Rec::Crash { u }); exit_now(77) }

pub fn op_begin(u: u32) {
  T.with(|t| { t.u.set(u); t.n.set(0); t.allocs.set(0); t.draws.set(0); t.jump.set(g().jumped); t.stalled.set(0); t.spun.set(0); t.pre.set(NONE); t.slice.set(SLICE); t.spin.set(SPIN) });
  arm();
  special(0);
}
/// after the call, before its result counts as acknowledged
pub fn op_returning() {
  let u = T.with(|t| t.u.get());
  if let Some((cu, CrashAt::Ret)) = &g().crash { if *cu == u { let _m = Mask::new(); die(u); } }
}
/// clock jumps during the call that were not waits of this call's own entropy reads
pub fn op_jump() -> u64 { T.with(|t| (g().jumped - t.jump.get()).saturating_sub(t.stalled.get()) + t.spun.get()) }
/// scheduling points this call took
pub fn op_points() -> u64 { T.with(|t| t.n.get()) }
pub fn op_end() { special(1); }
pub fn tid() -> u8 { T.with(|t| t.tid.get()) as u8 }
pub fn cur_u() -> u32 { T.with(|t| t.u.get()) }
/// time passes between calls; the wall clock may be set, forwards or back
pub fn idle(ns: u64, wall: i64) { let gg = g(); gg.now = gg.now.saturating_add(ns); gg.wall = gg.wall.saturating_add(wall); }
/// is this range wholly inside one live allocation of the library?
pub fn live_range(p: *const u8, n: usize) -> bool {
  let p = p as usize;
  if n == 0 { return true; }
  if p.wrapping_sub(ARENA) >= ARENA_LEN || p + n > g().bump { return p.wrapping_sub(ARENA) >= ARENA_LEN && n < 1 << 20; }
  unsafe {
    let a = (p - ARENA) >> 4;
    let b = (p + n - 1 - ARENA) >> 4;
    (a..=b).all(|i| *((SHADOW + i) as *const u8) == 1)
  }
}

// ------------------------------------------------------------------ faults on the caller's buffers
static mut POOLS: [(usize, usize); 256] = [(0, 0); 256];
static mut NPOOL: usize = 0;
#[allow(static_mut_refs)]
pub fn input_pool(base: usize, len: usize) { unsafe { if NPOOL < 256 { POOLS[NPOOL] = (base, len); NPOOL += 1; } } }
extern "C" { fn sigaction(n: i32, new: *const SigAct, old: *mut SigAct) -> i32; }
#[repr(C)] struct SigAct { h: usize, mask: [u64; 16], flags: i32, restorer: usize }
#[allow(static_mut_refs)]
unsafe extern "C" fn on_fault(sig: i32, info: *const usize, _ctx: usize) {
  let addr = *info.add(2);
  if POOLS[..NPOOL].iter().any(|p| addr.wrapping_sub(p.0) < p.1) {
    let _m = Mask::new();
    log(&Rec::Dead { what: "the call wrote to an input buffer or read past its end".into() });
    exit_now(80);
  }
  let d = SigAct { h: 0, mask: [0; 16], flags: 0, restorer: 0 };
  sigaction(sig, &d, std::ptr::null_mut());
}
/// tells a write to an input (they are read-only) from other crashes
pub fn catch_faults() {
  let a = SigAct { h: on_fault as usize, mask: [0; 16], flags: 4 | 0x0800_0000, restorer: 0 };
  unsafe { sigaction(11, &a, std::ptr::null_mut()); sigaction(7, &a, std::ptr::null_mut()); }
}

// ------------------------------------------------------------------ instrumentation callbacks
static mut NGUARD: u32 = 0;
pub fn guards() -> u32 { unsafe { NGUARD } }
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
  let mut p = a;
  if a == b || *a != 0 { return; }
  while p < b { NGUARD += 1; *p = NGUARD; p = p.add(1); }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(p: *mut u32) {
  let i = *p as usize;
  if i < HITS && !LOG.base.is_null() { *LOG.base.add(LOG.cap + i) = 1; }
  cov_point();
}
#[inline(always)]
fn access(p: usize) {
  if p.wrapping_sub(ARENA) < ARENA_LEN { unsafe { if *((SHADOW + ((p - ARENA) >> 4)) as *const u8) != 1 { bad_access(p); } } }
  cov_point();
}
#[cold]
fn bad_access(p: usize) {
  if T.with(|t| t.lib.get() == 0 || t.mask.get() != 0) { return; }
  let s = unsafe { *((SHADOW + ((p - ARENA) >> 4)) as *const u8) };
  mem(format!("access to {} memory", if s == 2 { "released" } else { "unallocated" }));
}
macro_rules! acc { ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(p: *const u8) { access(p as usize) })* } }
acc!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
     __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// seam in the vendored key derivation function
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn kcsim_kdf_enter(c: u32) -> u32 {
  let sim = T.with(|t| t.lib.get() > 0 && t.tid.get() >= 0);
  if sim { special(3); }
  T.with(|t| t.mask.set(t.mask.get() + 1));
  let full = unsafe { match &G_ { Some(x) => x.full, None => FULL_HARNESS.load(SeqCst) != 0 } };
  kdf_iters(full, c)
}
#[no_mangle]
pub extern "C" fn kcsim_kdf_leave() {
  T.with(|t| t.mask.set(t.mask.get() - 1));
  if T.with(|t| t.lib.get() > 0 && t.tid.get() >= 0) { special(3); }
}

// ------------------------------------------------------------------ memory of the system under test
const ARENA: usize = 0x5000_0000_0000;
const ARENA_LEN: usize = 2 << 30;
const SHADOW: usize = 0x5100_0000_0000;
const HDR: usize = 32;
const MAGIC: u64 = 0x6b63_7369_6d21_a110;
#[repr(C)]
struct Hdr { size: u64, align: u32, state: u32, u: u32, pad: u32, magic: u64 }

/// false once half of the memory for allocations of the library has been used
pub fn arena_left() -> bool { g().bump - ARENA < ARENA_LEN / 2 }
fn arena_init() {
  unsafe {
    let f = 0x2 | 0x20 | 0x4000 | 0x100000; // private anonymous noreserve fixed_noreplace
    assert_eq!(raw(9, ARENA, ARENA_LEN, 3, f, usize::MAX, 0), ARENA as isize);
    assert_eq!(raw(9, SHADOW, ARENA_LEN >> 4, 3, f, usize::MAX, 0), SHADOW as isize);
  }
  g().bump = ARENA;
}
pub fn mem_report(s: &str) { mem(s.into()) }
fn mem(what: String) {
  let _m = Mask::new();
  let gg = g();
  gg.mem_reports += 1;
  if gg.mem_reports > 8 { return; }
  let (t, u) = T.with(|t| (t.tid.get() as u8, t.u.get()));
  log(&Rec::Mem { t, u, what });
}
unsafe fn shadow(p: usize, len: usize, v: u8) {
  let a = (p - ARENA) >> 4;
  let b = (p + len - ARENA + 15) >> 4;
  std::ptr::write_bytes((SHADOW + a) as *mut u8, v, b - a);
}
unsafe fn arena_alloc(l: Layout) -> *mut u8 {
  let gg = g();
  if let Some((cu, CrashAt::Oom(k))) = gg.crash {
    let (u, a) = T.with(|t| (t.u.get(), t.allocs.get()));
    if cu == u && a == k { log(&Rec::Crash { u }); return std::ptr::null_mut(); }
  }
  let al = l.align().max(16);
  let p = (gg.bump + HDR + al - 1) & !(al - 1);
  let end = (p + l.size() + 15) & !15;
  gg.bump = end + 32;
  if gg.bump > ARENA + ARENA_LEN { let _m = Mask::new(); log(&Rec::Dead { what: "arena exhausted".into() }); exit_now(91); }
  let u = T.with(|t| t.u.get());
  *((p - HDR) as *mut Hdr) = Hdr { size: l.size() as u64, align: l.align() as u32, state: 1, u, pad: 0, magic: MAGIC };
  shadow(p, l.size().max(1), 1);
  std::ptr::write_bytes(p as *mut u8, 0xA5, l.size());
  std::ptr::write_bytes((p + l.size()) as *mut u8, 0xC7, end + 16 - (p + l.size()));
  gg.live_blocks += 1;
  gg.live_bytes += l.size() as i64;
  p as *mut u8
}
unsafe fn canary_ok(p: usize, size: usize) -> bool {
  let end = (p + size + 15) & !15;
  (p + size..end + 16).all(|q| *(q as *const u8) == 0xC7)
}
unsafe fn arena_free(p: usize, l: Layout) {
  let gg = g();
  if p < ARENA + HDR || p >= gg.bump { mem("release of a pointer that was never allocated".into()); return; }
  let h = &mut *((p - HDR) as *mut Hdr);
  if p & 15 != 0 || h.magic != MAGIC { mem("release of a pointer that was never allocated".into()); return; }
  if h.state == 2 { mem("double release".into()); return; }
  if h.size != l.size() as u64 || h.align != l.align() as u32 {
    mem(format!("release with a wrong layout: allocated {} bytes (align {}), released as {} bytes (align {})", h.size, h.align, l.size(), l.align()));
  }
  let size = h.size as usize;
  if !canary_ok(p, size) { mem("write past the end of an allocation".into()); }
  h.state = 2;
  std::ptr::write_bytes(p as *mut u8, 0xDD, size);
  shadow(p, size.max(1), 2);
  gg.live_blocks -= 1;
  gg.live_bytes -= size as i64;
}
fn arena_final() {
  unsafe {
    let gg = g();
    let mut p = ARENA;
    // walk all blocks: headers are found through the shadow map
    while p < gg.bump {
      let s = *((SHADOW + ((p - ARENA) >> 4)) as *const u8);
      if s == 0 { p += 16; continue; }
      let h = &*((p - HDR) as *const Hdr);
      if h.magic != MAGIC { mem("header of an allocation overwritten".into()); return; }
      let size = h.size as usize;
      if h.state == 1 && !canary_ok(p, size) { mem("write past the end of an allocation".into()); }
      if h.state == 2 && (p..p + size).any(|q| *(q as *const u8) != 0xDD) { mem("write to released memory".into()); }
      p = ((p + size.max(1) + 15) & !15) + 16;
    }
  }
}
pub fn live() -> (i64, i64) { (g().live_blocks, g().live_bytes) }

pub struct Alloc;
fn in_lib() -> bool { T.with(|t| t.lib.get() > 0 && t.mask.get() == 0 && t.tid.get() >= 0) }
unsafe impl GlobalAlloc for Alloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    if !in_lib() { return System.alloc(l); }
    let k = T.with(|t| { let k = t.allocs.get() + 1; t.allocs.set(k); k });
    if let Some((cu, CrashAt::Alloc(c))) = &g().crash { if *c == k && *cu == T.with(|t| t.u.get()) { let _m = Mask::new(); die(*cu); } }
    special(4);
    arena_alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    if (p as usize).wrapping_sub(ARENA) < ARENA_LEN {
      if in_lib() { special(5); }
      arena_free(p as usize, l)
    } else { System.dealloc(p, l) }
  }
}

// ------------------------------------------------------------------ entropy source
const EINTR: i32 = 4;
fn ent_fault(k: u32) -> Option<EFault> {
  let gg = g();
  let u = T.with(|t| t.u.get());
  let idx = gg.ent_calls;
  gg.ent_calls += 1;
  if let Some(v) = &gg.ent.explicit { return v.iter().find(|e| e.0 == u && e.1 == k).map(|e| e.2.clone()); }
  if let Some(w) = gg.ent.windows.iter().find(|w| idx >= w.0 && idx - w.0 < w.1) { return Some(EFault::Err(w.2)); }
  let r = gg.ent_rng.below(1000) as u32;
  let (a, b, c, d) = (gg.ent.eintr, gg.ent.short, gg.ent.err, gg.ent.stall);
  if r < a { Some(EFault::Eintr) }
  else if r < a + b { Some(EFault::Short(gg.ent_rng.below(48) as u32)) }
  else if r < a + b + c { Some(EFault::Err(*gg.ent_rng.clone().pick(&[5, 11, 14, 22, 1, 38]))) }
  else if r < a + b + c + d { Some(EFault::Stall(1_000_000 + gg.ent_rng.below(30_000_000_000))) }
  else { None }
}
unsafe fn deliver(buf: *mut u8, n: usize) {
  let gg = g();
  let pos = gg.ent_pos;
  for i in 0..n { *buf.add(i) = ent_byte(gg.ent_seed, gg.inc, pos + i as u64); }
  gg.ent_pos += n as u64;
  let (t, u) = T.with(|t| (t.tid.get() as u8, t.u.get()));
  log(&Rec::Draw { t, u, pos, n: n as u32 });
}
/// entropy of a forked child: the source gives it other bytes than its parent
pub fn new_stream() { let gg = g(); gg.forks += 1; gg.ent_pos += gg.forks << 32; }
/// the parent, back from waiting for the child
pub fn other_stream() { g().forks += 1; }
/// one read of `len` > 0 bytes from the entropy source; negative errno on failure
unsafe fn ent_read(buf: *mut u8, len: usize, file: u8) -> isize {
  special(6);
  let _m = Mask::new();
  let (t, u, k) = T.with(|t| { let k = t.draws.get(); t.draws.set(k + 1); (t.tid.get() as u8, t.u.get(), k) });
  if let Some((cu, CrashAt::Draw(c))) = &g().crash { if *cu == u && *c == k { die(u); } }
  let f = ent_fault(k);
  if let Some(f) = &f { log(&Rec::Fault { t, u, k, f: f.clone() }); }
  let r = match f {
    Some(EFault::Eintr) => -(EINTR as isize),
    Some(EFault::Err(e)) => {
      if file == 2 { log(&Rec::OpenFail { t, u }); }
      -(match e { 38 | 1 if file > 0 => 5, e => e } as isize)
    }
    Some(EFault::Short(n)) => { let n = (n as usize).min(len.saturating_sub(1)).max(1); deliver(buf, n); n as isize }
    Some(EFault::Stall(ns)) => {
      let j = g().jumped;
      sleep(ns);
      let d = g().jumped - j;
      T.with(|t| t.stalled.set(t.stalled.get() + d));
      deliver(buf, len);
      len as isize
    }
    None => { deliver(buf, len); len as isize }
  };
  drop(_m);
  special(6);
  r
}
unsafe fn sim_getrandom(buf: *mut u8, len: usize, flags: usize) -> isize {
  let tid = T.with(|t| t.tid.get());
  if flags & 4 != 0 {
    // keys of std's HashMap: their own deterministic stream, so iteration order is an input too
    let gg = g();
    for i in 0..len { let c = gg.hash_ctr[tid as usize]; gg.hash_ctr[tid as usize] += 1; *buf.add(i) = ent_byte(gg.hash_seed, tid as u64, c); }
    return len as isize;
  }
  let no = g().ent.nosys;
  if let Some(e) = no {
    let (t, u) = T.with(|t| (t.tid.get() as u8, t.u.get()));
    log(&Rec::NoSys { t, u });
    return -(e as isize);
  }
  if len == 0 { special(6); return 0; }
  ent_read(buf, len, 0)
}
fn sim_on() -> bool { T.with(|t| t.tid.get() >= 0 && t.lib.get() > 0 && t.mask.get() == 0) }

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
  if !sim_on() { return ret(raw(n, a, b, c, d, e, f)); }
  match n {
    318 => ret(sim_getrandom(a as *mut u8, b, c)),
    202 => ret(sim_futex(a, b as i32, c as u32, d, f as u32)),
    24 => { yield_now(); 0 }
    _ => ret(raw(n, a, b, c, d, e, f)),
  }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
  if sim_on() { ret(sim_getrandom(buf, len, flags as usize)) } else { ret(raw(318, buf as usize, len, flags as usize, 0, 0, 0)) }
}
unsafe fn sim_futex(addr: usize, op: i32, val: u32, timeout: usize, _v3: u32) -> isize {
  special(7);
  match op & 0x7f {
    0 | 9 => {
      if (*(addr as *const AtomicU32)).load(SeqCst) != val { return -11; }
      let gg = g();
      let mut dl = NONE;
      if timeout != 0 {
        let ts = timeout as *const [i64; 2];
        let ns = ((*ts)[0] as u64).saturating_mul(1_000_000_000).saturating_add((*ts)[1] as u64);
        dl = if op & 0x7f == 0 { gg.now.saturating_add(ns) } else { ns };
      }
      let _m = Mask::new();
      block(St::Futex(addr, dl));
      if dl != NONE && gg.now >= dl { return -110; }
      0
    }
    1 | 10 => {
      let gg = g();
      let mut w = 0;
      while w < val as i64 as isize || val as i32 == i32::MAX {
        let next = (0..gg.n).filter(|&i| matches!(gg.st[i], St::Futex(a, _) if a == addr)).min_by_key(|&i| gg.fifo[i]);
        match next { Some(i) => { wake(i); w += 1; } None => break }
      }
      special(7);
      w
    }
    _ => raw(202, addr, op as usize, val as usize, timeout, 0, 0),
  }
}
fn yield_now() {
  let _m = Mask::new();
  let me = T.with(|t| { t.n.set(t.n.get() + 1); t.tid.get() }) as usize;
  let (u, n) = T.with(|t| (t.u.get(), t.n.get()));
  if let Some(to) = choose(me, u, n) { hand_over(me, to, true); arm(); } else { g().now += 1000; }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 { if sim_on() { yield_now(); 0 } else { ret(raw(24, 0, 0, 0, 0, 0, 0)) as i32 } }
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
  if sim_on() { let _m = Mask::new(); sleep(((*req)[0] as u64) * 1_000_000_000 + (*req)[1] as u64); 0 }
  else { ret(raw(35, req as usize, rem as usize, 0, 0, 0, 0)) as i32 }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
  if sim_on() {
    let _m = Mask::new();
    let ns = ((*req)[0] as u64) * 1_000_000_000 + (*req)[1] as u64;
    if flags & 1 != 0 { let now = g().now; sleep(ns.saturating_sub(now)); } else { sleep(ns); }
    0
  } else { -(raw(230, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32) }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
  if sim_on() {
    let gg = g();
    gg.now += 137;
    let v = if clk == 0 || clk == 5 { (gg.now as i128 + 1_700_000_000_000_000_000 + gg.wall as i128).clamp(0, i64::MAX as i128) as u64 } else { gg.now };
    (*ts)[0] = (v / 1_000_000_000) as i64;
    (*ts)[1] = (v % 1_000_000_000) as i64;
    0
  } else { ret(raw(228, clk as usize, ts as usize, 0, 0, 0, 0)) as i32 }
}
unsafe fn sim_open(path: *const u8, flags: i32, mode: u32) -> i32 {
  let dev = std::ffi::CStr::from_ptr(path as *const _).to_bytes().to_vec();
  let kind = match &dev[..] { b"/dev/urandom" => 1, b"/dev/random" => 2, _ => 0 };
  if kind == 0 { return ret(raw(2, path as usize, flags as usize, mode as usize, 0, 0, 0)) as i32; }
  let (t, u, k) = T.with(|t| { let k = t.draws.get(); t.draws.set(k + 1); (t.tid.get() as u8, t.u.get(), k) });
  match ent_fault(k) {
    Some(f @ EFault::Err(_)) => {
      log(&Rec::Fault { t, u, k, f: f.clone() });
      log(&Rec::OpenFail { t, u });
      let e = if let EFault::Err(e) = f { e } else { 5 };
      return ret(-(e as isize)) as i32;
    }
    Some(f @ EFault::Eintr) => { log(&Rec::Fault { t, u, k, f }); return ret(-4) as i32; }
    _ => {}
  }
  let null = b"/dev/null\0";
  let fd = raw(2, null.as_ptr() as usize, 0x80000, 0, 0, 0, 0) as i32;
  for s in g().fake.iter_mut() { if s.0 < 0 { *s = (fd, kind); break; } }
  fd
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
  if sim_on() { special(6); let _m = Mask::new(); sim_open(path, flags, mode) } else { ret(raw(2, path as usize, flags as usize, mode as usize, 0, 0, 0)) as i32 }
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 { open64(path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
  if sim_on() { if let Some(f) = g().fake.iter().find(|f| f.0 == fd) { if n == 0 { return 0; } return ret(ent_read(buf, n, f.1)); } }
  ret(raw(0, fd as usize, buf as usize, n, 0, 0, 0))
}
/// output of the library: recorded; what goes to the standard streams stays here
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
  if sim_on() {
    let _m = Mask::new();
    let (t, u) = T.with(|t| (t.tid.get() as u8, t.u.get()));
    if n > 0 { log(&Rec::Wrote { t, u, fd, b: B(std::slice::from_raw_parts(buf, n.min(8192)).to_vec()) }); }
    if fd == 1 || fd == 2 { return n as isize; }
  }
  ret(raw(1, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const [usize; 2], n: i32) -> isize {
  if sim_on() {
    let mut sum = 0;
    for i in 0..n.max(0) as usize { let v = *iov.add(i); let r = write(fd, v[0] as *const u8, v[1]); if r < 0 { return r; } sum += r; }
    return sum;
  }
  ret(raw(20, fd as usize, iov as usize, n as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
  if sim_on() { for s in g().fake.iter_mut() { if s.0 == fd { s.0 = -1; } } }
  ret(raw(3, fd as usize, 0, 0, 0, 0, 0)) as i32
}
