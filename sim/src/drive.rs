//! Runs scenarios: forks one process per incarnation, judges its history, decides relevance,
//! minimises violations, writes replay files and evidence.
use crate::exec::{self, Durable};
use crate::oracle::*;
use crate::rt;
use crate::types::*;
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; }

pub struct Run { pub viols: Vec<Viol>, pub st: Stats, pub hash: u64, pub sched_hash: u64, pub trace: Vec<Vec<Rec>> }

pub fn durable(sc: &Scenario) -> Durable {
  let mut d = Durable { slots: vec![None; sc.nslots], mns: vec![None; sc.nmn], sigs: vec![None; sc.nsig] };
  for (s, g) in &sc.golden { let g = crate::golden::get(*g); d.slots[*s] = Some((g.blob, g.pw)); }
  for i in &sc.init {
    match i { Init::Slot(s, b, p) => d.slots[*s] = Some((b.0.clone(), p.clone())), Init::Sig(s, b) => d.sigs[*s] = Some(b.0.clone()) }
  }
  d
}
/// one scenario, start to end
pub fn run(sc: &Scenario) -> Run {
  let mut j = Judge::new(sc);
  let mut d = durable(sc);
  let mut trace = vec![];
  for i in 0..sc.incs.len() {
    rt::log_reset();
    let d0 = d.clone();
    let pid = unsafe { fork() };
    if pid == 0 {
      let sc: &'static Scenario = unsafe { &*(sc as *const Scenario) };
      exec::incarnation(sc, i, d0);
    }
    assert!(pid > 0, "fork");
    let mut st = 0;
    unsafe { while waitpid(pid, &mut st, 0) != pid {} }
    let recs = rt::log_take();
    j.feed(i, &recs, st, &mut d);
    trace.push(recs);
    // a process that neither finished nor was made to crash tells nothing about the next one
    if j.viols.iter().any(|v| v.inc == i && matches!(v.class, "DIED" | "DEAD" | "STEPS" | "INPUT")) { break; }
  }
  Run { viols: j.viols, st: j.st, hash: j.hash, sched_hash: j.sched_hash, trace }
}

// ------------------------------------------------------------------ which violations decide which property
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Rel { No, Yes, /// only if the call does better when made alone in a fresh process
  Alone, /// only if it does better without the failed calls before it
  Clean }
pub fn relevant(prop: &str, v: &Viol) -> Rel {
  use Rel::*;
  let c = v.class;
  let gen = matches!(c, "PANIC" | "DIED" | "DEAD" | "STEPS" | "INPUT");
  let k = v.kind;
  let rand = matches!(k, "generate" | "create-mnemonic" | "create-seed" | "change-password" | "add-network" | "encrypt");
  let takes = matches!(k, "decrypt" | "open" | "restore" | "change-password" | "add-network" | "mnemonic" | "keys");
  let ro = matches!(k, "decrypt" | "has-network" | "open" | "restore" | "mnemonic" | "keys" | "networks" | "keychain-has" | "pub-key" | "sign" | "verify" | "path");
  let val = matches!(c, "VALUE" | "BADSIG" | "REFUSED" | "CONTENT" | "AUTHREJ");
  let api_c = v.call.as_ref().map_or(true, |c| c.0 == Api::C);
  let y = |b: bool, r: Rel| if b { r } else { No };
  match prop {
    _ if c == "STICKY" => y(prop == "C03", Yes),
    _ if c == "ACC_PAD" => y(prop == "C06", Yes),
    "C01" => y(!matches!(c, "LEAK" | "DRAWN"), Alone),
    "C02" => y(c == "FRESH", Yes),
    "C03" => if c == "FRESH" || c == "OUTP" && rand { Yes } else { y(rand && (c == "REFUSED" || gen), Alone) },
    "C04" => if c == "ACC_DMG" { Yes } else if gen && takes && v.why == Why::Damaged { Yes } else if gen && takes && c != "PANIC" { Alone } else { y(takes && (val || gen), Alone) },
    "C05" => y((val || gen) && (takes || rand || matches!(k, "networks" | "keychain-has" | "pub-key" | "sign" | "verify" | "manager")), Yes),
    "C06" => if c == "ACC_PW" { Yes } else { y((takes || rand) && (gen || matches!(c, "REFUSED" | "CONTENT") || c == "ERRKIND" && v.why == Why::Pw), Yes) },
    "C07" => y(matches!(k, "add-network" | "networks" | "keychain-has" | "open" | "restore" | "has-network" | "manager") && (val || gen || matches!(c, "ACC" | "ERRKIND" | "OUTP")), Yes),
    "C08" => if matches!(c, "DRAWN" | "WAITED") { Yes } else { y(ro && (val || gen || matches!(c, "ERRKIND" | "FORGED" | "ACC")), Alone) },
    "C09" => y((rand || matches!(k, "open" | "restore" | "pub-key" | "sign" | "keys" | "mnemonic")) && (val || gen || c == "ACC"), Yes),
    "C10" => y(matches!(c, "MEM" | "LEAK" | "DIED" | "INPUT"), Yes),
    "C11" => y(api_c && (matches!(c, "OUTP" | "ERRKIND" | "ACC" | "REFUSED" | "PANIC" | "VALUE") || gen) || matches!(c, "DIED" | "INPUT") || k == "path" && c != "WAITED", Yes),
    "C12" => y(v.foreign && (val || gen || matches!(c, "ACC" | "ERRKIND")) || c == "CONTENT" && rand, Yes),
    "C13" => y(k == "verify" && (gen || matches!(c, "FORGED" | "AUTHREJ" | "ACC" | "VALUE" | "REFUSED")) || k == "sign" && (gen || matches!(c, "BADSIG" | "REFUSED")), Yes),
    "C14" => y(matches!(c, "ACC_PLUG" | "PLUGARG" | "ACC" | "ERRKIND") || (val || gen) && !matches!(k, "path"), Yes),
    "C20" => y(c == "SECRET" || matches!(c, "ACC_PW" | "ACC_DMG") && matches!(k, "decrypt" | "mnemonic" | "keys"), Yes),
    "C15" => if c == "INPUT" { Yes } else { y(!matches!(c, "FRESH" | "LEAK"), Clean) },
    "C16" => y(val || gen || matches!(c, "MEM" | "ERRKIND" | "ACC" | "ACC_PW" | "FORGED"), Alone),
    _ => Yes,
  }
}
fn same(a: &Viol, b: &Viol) -> bool {
  let n = |c: &'static str| if c.starts_with("ACC") { "ACC" } else { c };
  n(a.class) == n(b.class) && a.kind == b.kind
}
/// the violating call made alone, in a fresh process without faults
fn alone(sc: &Scenario, v: &Viol, salt: u64) -> Option<Scenario> {
  let (api, call) = v.call.clone()?;
  let mut s = sc.clone();
  s.golden.clear();
  s.init.clear();
  s.nslots = s.nslots.max(1);
  s.hash_seed = mix(sc.hash_seed ^ salt);
  s.ent_seed = mix(sc.ent_seed ^ salt);
  for p in &mut s.plugs { p.faults.clear(); }
  let mut ops = vec![];
  let m = 0;
  let cfg = match &call {
    Call::Mgr { cfg } | Call::HasNet { cfg, .. } | Call::Gen { cfg, .. } | Call::NewMnem { cfg, .. } | Call::NewSeed { cfg, .. } | Call::Open { cfg, .. } | Call::ChPw { cfg, .. } | Call::AddNet { cfg, .. }
    | Call::Mnem { cfg, .. } | Call::Keys { cfg, .. } | Call::KNets { cfg, .. } | Call::KHas { cfg, .. } | Call::Pub { cfg, .. } | Call::Sign { cfg, .. } | Call::Ver { cfg, .. } => Some(*cfg),
    _ => None,
  };
  if let (Some(cfg), false) = (cfg, matches!(call, Call::Mgr { .. })) { ops.push(Op::Mgr { api, m, cfg }); }
  let slot = |s: &mut Scenario, b: &[u8], p: &str| s.init.push(Init::Slot(0, B(b.to_vec()), p.to_owned()));
  fn pw(s: &mut Scenario, p: &str) -> usize { s.pws.push(p.to_owned()); s.pws.len() - 1 }
  fn path(s: &mut Scenario, p: &KP) -> usize { s.paths.push(*p); s.paths.len() - 1 }
  if let Some((b, p)) = &v.from { slot(&mut s, b, p); ops.push(Op::Open { api, m, src: 0, pw: PwSel::Right, k: 0 }); }
  let r = PwSel::Right;
  let op = match call {
    Call::Mgr { cfg } => Op::Mgr { api, m, cfg },
    Call::HasNet { net, .. } => Op::HasNet { api, m, net },
    Call::Gen { lang, .. } => Op::Gen { api, m, lang: Some(lang), dst: 0 },
    Call::NewMnem { mn, lang, pw: p, .. } => { s.mns.push(MnLit { text: mn, lang }); let pw = pw(&mut s, &p); Op::NewMnem { api, m, mn: MnRef::Lit(s.mns.len() - 1), lang: None, pw, dst: 0 } }
    Call::NewSeed { seed, pw: p, .. } => { s.seeds.push(seed); let pw = pw(&mut s, &p); Op::NewSeed { api, m, seed: s.seeds.len() - 1, pw, dst: 0 } }
    Call::Open { blob, pw, back, .. } => { slot(&mut s, &blob.0, &pw); if back { Op::Restore { m, src: 0, pw: r, k: 0 } } else { Op::Open { api, m, src: 0, pw: r, k: 0 } } }
    Call::ChPw { blob, pw: p, np, .. } => { slot(&mut s, &blob.0, &p); let np = pw(&mut s, &np); Op::ChPw { api, m, src: 0, pw: r, np, dst: 0 } }
    Call::AddNet { blob, pw, net, .. } => { slot(&mut s, &blob.0, &pw); Op::AddNet { api, m, src: 0, pw: r, net, dst: 0 } }
    Call::Mnem { blob, pw, .. } => { slot(&mut s, &blob.0, &pw); Op::Mnem { api, m, src: 0, pw: r } }
    Call::Keys { blob, pw, .. } => { slot(&mut s, &blob.0, &pw); Op::Keys { api, m, src: 0, pw: r } }
    Call::KNets { .. } => Op::KNets { api, k: 0 },
    Call::KHas { net, .. } => Op::KHas { k: 0, net },
    Call::Pub { net, path: p, .. } => { let path = path(&mut s, &p); Op::Pub { api, k: 0, net, path } }
    Call::Sign { net, path: p, msg, .. } => { let path = path(&mut s, &p); s.msgs.push(msg); Op::Sign { api, k: 0, net, path, msg: s.msgs.len() - 1, dst: 0 } }
    Call::Ver { net, path: p, msg, sig, .. } => { let path = path(&mut s, &p); s.msgs.push(msg); s.init.push(Init::Sig(0, sig)); Op::Ver { api, k: 0, net, path, msg: s.msgs.len() - 1, sig: 0, ch: vec![] } }
    Call::Seal { data, pw: p } => { s.msgs.push(data); let pw = pw(&mut s, &p); Op::Seal { msg: s.msgs.len() - 1, pw, dst: 0 } }
    Call::Unseal { blob, pw } => { slot(&mut s, &blob.0, &pw); Op::Unseal { src: 0, pw: r } }
    Call::Path { p } => Op::Path { api, p },
    _ => return None,
  };
  let n = ops.len() as u32;
  let mut v: Vec<OpN> = ops.into_iter().enumerate().map(|(i, op)| OpN { u: 900_000 + i as u32, op }).collect();
  v.push(OpN { u: 910_000 + n, op });
  let ent = EntPlan { nosys: None, seed: 1, eintr: 0, short: 0, err: 0, stall: 0, windows: vec![], explicit: None };
  s.incs = vec![Inc { threads: 1, phases: vec![vec![v]], ent, sched: Sched::Seq, crash: None, init: true, clock0: 0, marks: vec![] }];
  Some(s)
}
/// does the call misbehave in the same way whenever it is made alone?
fn deterministic(sc: &Scenario, v: &Viol) -> bool {
  match alone(sc, v, 1) {
    None => false,
    Some(_) => (1..=3).all(|i| { let s = alone(sc, v, i).unwrap(); run(&s).viols.iter().any(|w| same(v, w)) }),
  }
}
/// the same run without the calls that failed before the violation, and without the crash
fn without_failures(sc: &Scenario, trace: &[Vec<Rec>], v: &Viol) -> (Scenario, bool) {
  let mut s = sc.clone();
  let mut any = false;
  let last = v.inc.min(s.incs.len() - 1);
  s.incs.truncate(last + 1);
  for i in 0..=last {
    let mut bad: HashSet<u32> = HashSet::new();
    let mut begun: HashSet<u32> = HashSet::new();
    for r in &trace[i] {
      match r {
        Rec::Begin { u, .. } => { begun.insert(*u); }
        Rec::Ret { u, out: Out::Err(..), .. } | Rec::Ret { u, out: Out::Panic(_), .. } => { bad.insert(*u); }
        Rec::Crash { u } => { bad.insert(*u); }
        _ => {}
      }
    }
    if i == v.inc { bad.remove(&v.u); }
    let crashed = trace[i].iter().any(|r| matches!(r, Rec::Crash { .. }));
    let ent: Vec<(u32, u32, EFault)> = trace[i].iter().filter_map(|r| if let Rec::Fault { u, k, f, .. } = r { Some((*u, *k, f.clone())) } else { None }).collect();
    let inc = &mut s.incs[i];
    if inc.crash.is_some() && crashed { any = true; }
    inc.crash = None;
    inc.ent.explicit = Some(ent);
    for p in inc.phases.iter_mut().flatten() {
      let n = p.len();
      // after a crash nothing else ran
      p.retain(|o| !bad.contains(&o.u) && (!crashed || begun.contains(&o.u) || matches!(o.op, Op::Hurt { .. } | Op::Copy { .. } | Op::Foreign { .. } | Op::Idle { .. })));
      if p.len() != n { any = true; }
    }
    // plug-ins whose failures made those calls fail do not fail here
  }
  for p in &mut s.plugs { p.faults.clear(); }
  (s, any)
}
/// the first violation of this run that decides the property
pub fn first_relevant(prop: &str, sc: &Scenario, r: &Run) -> Option<Viol> {
  for v in &r.viols {
    if unsafe { KNOWN.iter() }.any(|k| k.property == prop && k.class == v.class && (k.kind.is_empty() || k.kind == v.kind) && v.msg.contains(&k.msg)) { continue; }
    let ok = match relevant(prop, v) {
      Rel::No => false,
      Rel::Yes => true,
      Rel::Alone => !deterministic(sc, v),
      Rel::Clean => {
        let (s, any) = without_failures(sc, &r.trace, v);
        any && !run(&s).viols.iter().any(|w| same(v, w)) && !deterministic(sc, v)
      }
    };
    if ok { return Some(v.clone()); }
  }
  None
}

// ------------------------------------------------------------------ minimisation
fn explicit(sc: &Scenario, trace: &[Vec<Rec>]) -> Scenario {
  let mut s = sc.clone();
  for (i, t) in trace.iter().enumerate() {
    let inc = &mut s.incs[i];
    if inc.threads > 1 { inc.sched = Sched::Explicit(t.iter().filter_map(|r| if let Rec::Sw { u, n, to } = r { Some((*u, *n, *to)) } else { None }).collect()); }
    inc.ent.explicit = Some(t.iter().filter_map(|r| if let Rec::Fault { u, k, f, .. } = r { Some((*u, *k, f.clone())) } else { None }).collect());
    inc.ent.windows.clear();
  }
  s
}
struct Min<'a> { prop: &'a str, want: Viol, left: usize, until: Instant }
impl<'a> Min<'a> {
  /// still fails, under its own schedule or under one of a few others
  fn fails_somehow(&mut self, s: &mut Scenario) -> bool {
    if self.fails(s) { return true; }
    for k in 1..5 {
      let mut t = s.clone();
      for inc in &mut t.incs { if let Sched::Rand { seed, .. } = &mut inc.sched { *seed = seed.wrapping_add(k * 0x9e37_79b9_7f4a_7c15); } }
      if self.fails(&t) { *s = t; return true; }
    }
    false
  }
  fn fails(&mut self, s: &Scenario) -> bool {
    if self.left == 0 || Instant::now() > self.until { return false; }
    self.left -= 1;
    let r = run(s);
    let w = self.want.clone();
    match first_relevant(self.prop, s, &r) { Some(v) => same(&v, &w), None => false }
  }
  /// drops chunks of a list as long as the violation stays
  fn list<T: Clone>(&mut self, s: &mut Scenario, get: impl Fn(&Scenario) -> Vec<T>, set: impl Fn(&mut Scenario, Vec<T>)) {
    let mut v = get(s);
    let mut n = v.len().max(1);
    loop {
      let mut i = 0;
      let mut any = false;
      while i < v.len() {
        let mut w = v.clone();
        w.drain(i..(i + n).min(v.len()));
        let mut t = s.clone();
        set(&mut t, w.clone());
        if self.fails(&t) { *s = t; v = w; any = true; } else { i += n; }
        if self.left == 0 || Instant::now() > self.until { return; }
      }
      if n == 1 && !any { return; }
      if n == 1 && v.len() < 2 { return; }
      n = if n > 1 { n / 2 } else { 1 };
      if n == 1 && !any && v.is_empty() { return; }
    }
  }
}
pub fn minimise(prop: &str, sc: &Scenario, r: &Run, v: &Viol, budget: usize, secs: u64) -> Scenario {
  let mut m = Min { prop, want: v.clone(), left: budget, until: Instant::now() + std::time::Duration::from_secs(secs) };
  let mut s = sc.clone();
  s.incs.truncate(r.trace.len());
  // fewer calls, each time under a few schedules: a fixed schedule seldom survives the loss of a call
  if s.incs.iter().any(|i| matches!(i.sched, Sched::Rand { .. })) {
    let all = (m.left, m.until);
    m.left = budget / 2;
    m.until = Instant::now() + std::time::Duration::from_secs(secs) / 2;
    let mut n = s.incs.iter().map(|i| i.phases.iter().flatten().flatten().count()).sum::<usize>() / 2;
    while n > 0 && m.left > 0 {
      let mut at = 0;
      let mut any = false;
      loop {
        let mut t = s.clone();
        let mut k = 0;
        for q in t.incs.iter_mut().flat_map(|i| i.phases.iter_mut().flatten()) { q.retain(|_| { k += 1; k <= at || k > at + n }); }
        if at >= k { break; }
        if m.fails_somehow(&mut t) { s = t; any = true; } else { at += n; }
        if m.left == 0 || Instant::now() > m.until { m.left = 0; break; }
      }
      if n > 1 { n /= 2 } else if !any { break }
    }
    m.left = all.0;
    m.until = all.1;
  }
  let last = run(&s);
  let e = explicit(&s, &last.trace);
  if m.fails(&e) { s = e; }
  // the shortened key derivation
  if s.full_kdf { let mut t = s.clone(); t.full_kdf = false; if m.fails(&t) { s = t; } }
  // later processes do not matter
  let mut t = s.clone();
  t.incs.truncate(v.inc + 1);
  if t.incs.len() < s.incs.len() && m.fails(&t) { s = t; }
  // one thread instead of many
  for i in 0..s.incs.len() {
    if s.incs[i].threads > 1 {
      let mut t = s.clone();
      let inc = &mut t.incs[i];
      inc.threads = 1;
      inc.sched = Sched::Seq;
      inc.phases = inc.phases.iter().map(|p| vec![p.iter().flatten().cloned().collect()]).collect();
      if m.fails(&t) { s = t; }
    }
  }
  // operations
  for i in (0..s.incs.len()).rev() {
    m.list(&mut s, |s| { let mut v = vec![]; for (a, p) in s.incs[i].phases.iter().enumerate() { for (b, t) in p.iter().enumerate() { for o in t { v.push((a, b, o.clone())); } } } v },
      |s, v| { for p in s.incs[i].phases.iter_mut() { for t in p.iter_mut() { t.clear(); } } for (a, b, o) in v { s.incs[i].phases[a][b].push(o); } });
  }
  // what a forked child does
  for i in 0..s.incs.len() {
    for a in 0..s.incs[i].phases.len() { for b in 0..s.incs[i].phases[a].len() { for c in 0..s.incs[i].phases[a][b].len() {
      if let Op::Fork { .. } = &s.incs[i].phases[a][b][c].op {
        m.list(&mut s, |s| if let Op::Fork { ops } = &s.incs[i].phases[a][b][c].op { ops.clone() } else { vec![] }, |s, v| if let Op::Fork { ops } = &mut s.incs[i].phases[a][b][c].op { *ops = v });
      }
    } } }
  }
  // shorter repetitions
  for i in 0..s.incs.len() {
    for a in 0..s.incs[i].phases.len() { for b in 0..s.incs[i].phases[a].len() { for c in 0..s.incs[i].phases[a][b].len() {
      let (mut lo, hi) = (1, match &s.incs[i].phases[a][b][c].op { Op::Again { n, .. } => *n, _ => continue });
      let mut hi = hi;
      while lo < hi {
        let mid = lo + (hi - lo) / 2;
        let mut t = s.clone();
        if let Op::Again { n, .. } = &mut t.incs[i].phases[a][b][c].op { *n = mid; }
        if m.fails(&t) { s = t; hi = mid; } else { lo = mid + 1; }
      }
    } } }
  }
  for i in 0..s.incs.len() {
    if let Sched::Explicit(_) = s.incs[i].sched {
      m.list(&mut s, |s| if let Sched::Explicit(v) = &s.incs[i].sched { v.clone() } else { vec![] }, |s, v| s.incs[i].sched = Sched::Explicit(v));
    }
    m.list(&mut s, |s| s.incs[i].ent.explicit.clone().unwrap_or_default(), |s, v| s.incs[i].ent.explicit = Some(v));
    if s.incs[i].crash.is_some() { let mut t = s.clone(); t.incs[i].crash = None; if m.fails(&t) { s = t; } }
    if s.incs[i].ent.nosys.is_some() { let mut t = s.clone(); t.incs[i].ent.nosys = None; if m.fails(&t) { s = t; } }
  }
  for i in (0..s.incs.len()).rev() {
    if s.incs.len() > 1 { let mut t = s.clone(); t.incs.remove(i); if m.fails(&t) { s = t; } }
  }
  for k in 0..s.plugs.len() { m.list(&mut s, |s| s.plugs[k].faults.clone(), |s, v| s.plugs[k].faults = v); }
  for inc in &mut s.incs { if inc.marks.is_empty() { inc.phases.retain(|p| p.iter().any(|t| !t.is_empty())); } }
  // the end result is checked whatever is left of the budget
  m.left = 1;
  m.until = Instant::now() + std::time::Duration::from_secs(60);
  if !m.fails(&s) { s = sc.clone(); }
  s
}

// ------------------------------------------------------------------ replay files
#[derive(Serialize, Deserialize)]
pub struct Replay { pub property: String, pub class: String, pub kind: String, pub what: String, pub hash: String, pub found_seed: u64, pub scenario: Scenario }

pub fn story(sc: &Scenario, r: &Run) -> Vec<String> {
  let mut v = vec![];
  for (i, t) in r.trace.iter().enumerate() {
    v.push(format!("process {}: {} thread(s)", i, sc.incs[i].threads));
    for rec in t {
      match rec {
        Rec::Begin { t, u, api, call } => v.push(cut(format!("  t{} #{} {:?} {:?}", t, u, api, call))),
        Rec::Ret { t, u, out, .. } => if !matches!(out, Out::Skip) { v.push(cut(format!("  t{} #{} -> {:?}", t, u, out))) },
        Rec::Fault { t, u, k, f } => v.push(format!("  t{} #{} entropy read {}: {:?}", t, u, k, f)),
        Rec::Forked { u, back } => v.push(format!("  #{} {}", u, if *back { "the child ends, the parent goes on" } else { "the process forks; in the child:" })),
        Rec::Crash { u } => v.push(format!("  #{} {}", u, crash_name(&sc.incs[i].crash))),
        Rec::Sw { u, n, to } => if *u < 999_999 { v.push(format!("  switch at point {} of #{} to t{}", n, u, to)) },
        Rec::Plug { id, call, act, .. } => if *act > 0 { v.push(format!("  plug-in {} call kind {} {}", id, call, if *act == 1 { "fails" } else { "panics" })) },
        Rec::Slot { s, b, .. } => v.push(format!("  storage slot {} holds {:?}", s, b)),
        Rec::Mem { u, what, .. } => v.push(format!("  #{} memory: {}", u, what)),
        Rec::Dead { what } => v.push(format!("  {}", what)),
        _ => {}
      }
    }
  }
  v
}
fn cut(s: String) -> String { if s.chars().count() > 260 { format!("{}...", s.chars().take(260).collect::<String>()) } else { s } }

pub fn replay(path: &str) -> i32 {
  let s = std::fs::read_to_string(path).expect("replay file");
  let r: Replay = serde_json::from_str(&s).expect("replay file");
  let a = run(&r.scenario);
  for l in story(&r.scenario, &a) { println!("{}", l); }
  let v = first_relevant(&r.property, &r.scenario, &a);
  match v {
    Some(v) => {
      println!("violation {} in {} (process {}, call #{}): {}", v.class, v.kind, v.inc, v.u, v.msg);
      println!("history {:016x}, recorded {}: {}", a.hash, r.hash, if format!("{:016x}", a.hash) == r.hash { "identical" } else { "DIFFERENT (another build of the code?)" });
      println!("VIOLATION property={} replay={}", r.property, path);
      1
    }
    None => { println!("no violation of {} in this build", r.property); 0 }
  }
}

// ------------------------------------------------------------------ batches
#[derive(Serialize, Deserialize, Default)]
struct Part {
  runs: u64, nontrivial: Vec<u64>, scheds: Vec<u64>, stats: Stats, cpu_ms: u64,
  viol: Option<(u64, u64)>, samples: Vec<serde_json::Value>, secondary: BTreeMap<String, (u64, u64)>, edges: Vec<u32>, error: Option<String>, max_ms: (u64, u64), stopped: bool,
}
pub struct Known { pub property: String, pub class: String, pub kind: String, pub msg: String, pub what: String }
/// open findings only; fixed ones suppress nothing
pub fn known(dir: &str) -> Vec<Known> {
  let s = std::fs::read_to_string(format!("{}/known-findings.txt", dir)).unwrap_or_default();
  let mut v = vec![];
  for l in s.lines() {
    // finding: property=<id> class=<class> call=<kind> text=<substring of the message> | <what fails>
    if let Some(r) = l.strip_prefix("finding: ") {
      let (head, what) = r.split_at(r.find(" | ").unwrap_or(r.len()));
      let f = |k: &str| head.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_owned();
      let text = head.find("text=").map(|i| head[i + 5..].to_owned()).unwrap_or_default();
      v.push(Known { property: f("property="), class: f("class="), kind: f("call="), msg: text, what: what.trim_start_matches(" | ").to_owned() });
    }
  }
  v
}
static mut KNOWN: Vec<Known> = vec![];
pub fn load_known(dir: &str) { unsafe { KNOWN = known(dir); } }

pub fn run_seed(base: u64, i: u64) -> u64 { mix(mix(base.wrapping_mul(0x2545f4914f6cdd1d)).wrapping_add(i)) >> 8 }

fn shared_word() -> &'static std::sync::atomic::AtomicU64 {
  unsafe { let p = rt::raw(9, 0, 4096, 3, 0x21, usize::MAX, 0); assert!(p > 0); &*(p as *const std::sync::atomic::AtomicU64) }
}
pub struct Plan { pub prop: String, pub tier: String, pub seed: u64, pub runs: u64, pub secs: u64, pub workers: u64, pub dir: String, pub dump: bool }

fn worker(p: &Plan, w: u64, min: &std::sync::atomic::AtomicU64, start: Instant, out: &str) {
  use std::sync::atomic::Ordering::SeqCst;
  rt::log_init(192 << 20);
  let mut part = Part::default();
  let mut i = w;
  let mut nont: HashSet<u64> = HashSet::new();
  let mut scheds: HashSet<u64> = HashSet::new();
  while i < p.runs && i < min.load(SeqCst) {
    if start.elapsed().as_secs() >= p.secs { part.stopped = true; break; }
    let seed = run_seed(p.seed, i);
    let sc = crate::gen::scenario(&p.prop, seed);
    let t0 = Instant::now();
    // an unforeseen history must not end the search
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&sc))) {
      Ok(r) => r,
      Err(_) => { part.error = Some(format!("the judge panicked in run {} (seed {})", i, seed)); i += p.workers; continue; }
    };
    let ms = t0.elapsed().as_millis() as u64;
    part.max_ms = part.max_ms.max((ms, i));
    part.runs += 1;
    if nontrivial(&p.prop, &r.st) { nont.insert(r.hash); }
    if sc.incs.iter().any(|i| i.threads > 1) { scheds.insert(r.sched_hash); }
    if part.samples.len() < 1 && nontrivial(&p.prop, &r.st) && w < 2 {
      let mut st = story(&sc, &r);
      let n = st.len();
      st.truncate(40);
      part.samples.push(serde_json::json!({"run_seed": seed, "processes": sc.incs.len(), "threads": sc.incs[0].threads, "history_hash": format!("{:016x}", r.hash), "history_lines": n, "history_head": st}));
    }
    for v in &r.viols { part.secondary.entry(format!("{} {}", v.class, v.kind)).or_insert((0, i)).0 += 1; }
    if p.dump { println!("{} {} {:016x} {:016x} {}", i, seed, r.hash, r.sched_hash, r.viols.iter().map(|v| v.class).collect::<Vec<_>>().join(",")); }
    if !r.viols.is_empty() {
      if let Some(v) = first_relevant(&p.prop, &sc, &r) {
        let _ = v;
        min.fetch_min(i, SeqCst);
        part.viol = Some((i, seed));
      }
    }
    part.stats.add(&r.st);
    if part.viol.is_some() { break; }
    i += p.workers;
  }
  part.nontrivial = nont.into_iter().collect();
  part.scheds = scheds.into_iter().collect();
  part.edges = rt::hits().iter().enumerate().filter(|(_, b)| **b != 0).map(|(i, _)| i as u32).collect();
  std::fs::write(out, serde_json::to_vec(&part).unwrap()).unwrap();
}

pub fn batch(p: &Plan) -> i32 {
  let start = Instant::now();
  let scratch = format!("{}/target/scratch-{}", p.dir, std::process::id());
  std::fs::create_dir_all(&scratch).unwrap();
  let min = shared_word();
  min.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
  let mut pids = vec![];
  for w in 0..p.workers {
    let out = format!("{}/{}.json", scratch, w);
    let pid = unsafe { fork() };
    if pid == 0 { worker(p, w, min, start, &out); rt::exit_now(0); }
    assert!(pid > 0);
    pids.push((pid, out));
  }
  let mut all = Part::default();
  let mut err = None;
  let mut nont: HashSet<u64> = HashSet::new();
  let mut scheds: HashSet<u64> = HashSet::new();
  let mut edges: HashSet<u32> = HashSet::new();
  for (pid, out) in pids {
    let mut st = 0;
    unsafe { while waitpid(pid, &mut st, 0) != pid {} }
    let part: Option<Part> = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
    match part {
      Some(q) => {
        all.runs += q.runs;
        nont.extend(q.nontrivial);
        scheds.extend(q.scheds);
        edges.extend(q.edges);
        all.stats.add(&q.stats);
        all.samples.extend(q.samples);
        all.max_ms = all.max_ms.max(q.max_ms);
        all.stopped |= q.stopped;
        if q.error.is_some() { err = q.error; }
        for (k, (n, first)) in q.secondary { let e = all.secondary.entry(k).or_insert((0, first)); e.0 += n; e.1 = e.1.min(first); }
        if let Some(v) = q.viol { if all.viol.map_or(true, |x| v.0 < x.0) { all.viol = Some(v); } }
      }
      None => err = Some(format!("worker ended with {}", st)),
    }
  }
  let _ = std::fs::remove_dir_all(&scratch);
  if p.dump { return 0; }
  let search_s = start.elapsed().as_secs_f64();
  let mut code = 0;
  let mut replay_path = String::new();
  let mut viol_json = serde_json::Value::Null;
  if let Some((i, seed)) = all.viol {
    rt::log_init(192 << 20);
    let sc = crate::gen::scenario(&p.prop, seed);
    let r = run(&sc);
    match first_relevant(&p.prop, &sc, &r) {
      None => { err = Some(format!("violation of run {} (seed {}) does not reproduce", i, seed)); }
      Some(v) => {
        let big = p.tier == "thorough";
        let ms = minimise(&p.prop, &sc, &r, &v, if big { 3000 } else { 1200 }, if big { 180 } else { 60 });
        let a = run(&ms);
        let b = run(&ms);
        let v2 = first_relevant(&p.prop, &ms, &a);
        let (ms, a, v2) = if v2.is_none() || a.hash != b.hash { let a = run(&sc); (sc.clone(), a, Some(v.clone())) } else { (ms, a, v2) };
        let v2 = v2.unwrap();
        let n: usize = ms.incs.iter().flat_map(|i| i.phases.iter().flatten()).map(|t| t.len()).sum();
        let n0: usize = sc.incs.iter().flat_map(|i| i.phases.iter().flatten()).map(|t| t.len()).sum();
        let rp = Replay { property: p.prop.clone(), class: v2.class.into(), kind: v2.kind.into(), what: v2.msg.clone(), hash: format!("{:016x}", a.hash), found_seed: seed, scenario: ms.clone() };
        std::fs::create_dir_all(format!("{}/evidence/replays", p.dir)).unwrap();
        replay_path = format!("{}/evidence/replays/{}-{}.json", p.dir, p.prop, seed);
        std::fs::write(&replay_path, serde_json::to_vec_pretty(&rp).unwrap()).unwrap();
        println!("run {} (seed {}): {} in {}; minimised from {} to {} calls, {} to {} processes", i, seed, v2.class, v2.kind, n0, n, sc.incs.len(), ms.incs.len());
        for l in story(&ms, &a).iter().take(60) { println!("{}", l); }
        println!("{}", v2.msg);
        viol_json = serde_json::json!({"run": i, "seed": seed, "class": v2.class, "call": v2.kind, "what": v2.msg, "replay": replay_path});
        code = 1;
      }
    }
  }
  let wall = start.elapsed().as_secs_f64();
  let st = &all.stats;
  let ev = serde_json::json!({
    "property": p.prop, "tier": p.tier, "seed": p.seed, "level": "exploration", "wall_s": wall, "violations": code,
    "coverage": {
      "evaluations": all.runs,
      "distinct_nontrivial": nont.len(),
      "rule": format!("one evaluation = one simulated world (1-4 consecutive processes over common durable storage), fully decided by its seed: generated calls, schedule, entropy, faults, crashes, storage damage. Distinct = different hash of the complete event history. Non-trivial for {}: {}", p.prop, rule(&p.prop)),
      "samples": all.samples,
      "runs_per_hour": (all.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
      "seeds": {"base": p.seed, "first_run_index": 0, "planned_runs": p.runs, "stopped_by_wall_cap": all.stopped},
      "simulated_processes": st.incs, "simulated_time_s": st.sim_ns as f64 / 1e9,
      "calls_judged": st.ops, "calls_ok": st.ok, "calls_failed_as_expected": st.err, "calls_panicked_as_allowed": st.panics, "calls_skipped_for_lack_of_inputs": st.skip,
      "calls_by_kind_ok_and_failed": st.by_call, "most_scheduling_points_in_one_call": st.most, "wallet_blobs_decrypted_and_compared": st.blobs, "entropy_reads_delivered": st.draws,
      "faults_that_fired": st.faults, "probes": st.probes,
      "scheduling_points": st.points, "thread_switches": st.switches, "distinct_interleavings": scheds.len(),
      "distinct_interleavings_measure": "hash of the sequence (call, scheduling point inside it, next thread) over multi-threaded runs",
      "code_edges_reached": edges.len(), "code_edges_instrumented": rt::guards(),
      "violations_of_other_properties_seen": all.secondary.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
      "violation": viol_json,
      "real_components": ["keychain (all modules, features backup and custom-networks)", "keychain-c (the C ABI, all functions)", "bip39", "bip32", "secp256k1, ed25519-bip32, cryptoxide except PBKDF2 round count, rand_os, getrandom, serde", "std Mutex, thread locals, panics, HashMap"],
      "simulated_components": ["thread scheduler (compiler-instrumented scheduling points, futex, yield)", "clock", "getrandom system call, /dev/urandom, /dev/random", "HashMap hash keys", "heap allocator (tracking, failing)", "process crash and restart, durable storage of blobs (owned by the caller)", "callers, applications, network plug-ins, storage and signature channels", "PBKDF2 inner round count (reduced to 3-63 rounds that still depend on the requested count; real count in the runs marked full_kdf)"],
    },
    "assumptions": ["sequentially consistent memory: threads switch only at instrumented points, one runs at a time", "sampled, not exhaustive", "the reference model in /verif/sim/src/model.rs (independent use of secp256k1/ed25519-bip32/cryptoxide primitives) is right"],
  });
  std::fs::create_dir_all(format!("{}/evidence", p.dir)).unwrap();
  std::fs::write(format!("{}/evidence/{}.json", p.dir, p.prop), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
  println!("{} {}: {} runs, {} non-trivial histories, {} calls, {} switches, {:.1} s simulated, {:.1} s, slowest run {} ms (run {}), {}/{} edges", p.prop, p.tier, all.runs, nont.len(), st.ops, st.switches, st.sim_ns as f64 / 1e9, wall, all.max_ms.0, all.max_ms.1, edges.len(), rt::guards());
  if !all.secondary.is_empty() { println!("seen (class, call: times, first run): {:?}", all.secondary); }
  for k in known(&p.dir) { if k.property == p.prop { println!("KNOWN-FINDING: property={} {}", k.property, k.what); } }
  if code == 1 { println!("VIOLATION property={} replay={}", p.prop, replay_path); return 1; }
  if let Some(e) = err { eprintln!("harness error: {}", e); return 2; }
  0
}
