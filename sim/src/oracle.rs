//! Judges the recorded history of a run against the reference model, call by call and as a whole.
use crate::exec::Durable;
use crate::model::*;
use crate::types::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
  pub class: &'static str, pub kind: &'static str, pub inc: usize, pub u: u32, pub msg: String,
  /// the call it happened in, and the blob and password the handle it used came from
  pub call: Option<(Api, Call)>, pub from: Option<(Vec<u8>, String)>,
  pub foreign: bool, pub why: Why,
}

#[derive(Clone)]
struct Entry { pw: String, plain: Vec<u8>, content: Option<Content>, open: bool, foreign: bool }
/// What became of the decryption step.
enum Stage { Plain(u64), Fail(Vec<i32>, Why) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Why { Pw, Damaged, Other }

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Stats {
  pub ops: u64, pub ok: u64, pub err: u64, pub panics: u64, pub skip: u64, pub lost: u64, pub by_call: BTreeMap<String, [u64; 2]>, pub most: BTreeMap<String, u64>, pub probes: BTreeMap<String, u64>, pub faults: BTreeMap<String, u64>,
  pub switches: u64, pub sim_ns: u64, pub points: u64, pub incs: u64, pub draws: u64, pub blobs: u64,
}

impl Stats {
  pub fn add(&mut self, o: &Stats) {
    macro_rules! a { ($($f:ident)*) => { $(self.$f += o.$f;)* } }
    a!(ops ok err panics skip lost switches sim_ns points incs draws blobs);
    for (k, v) in &o.by_call { let e = self.by_call.entry(k.clone()).or_default(); e[0] += v[0]; e[1] += v[1]; }
    for (k, v) in &o.most { let e = self.most.entry(k.clone()).or_default(); *e = (*e).max(*v); }
    for (k, v) in &o.faults { *self.faults.entry(k.clone()).or_default() += v; }
    for (k, v) in &o.probes { *self.probes.entry(k.clone()).or_default() += v; }
  }
  fn probe(&mut self, k: &str) { *self.probes.entry(k.to_owned()).or_default() += 1; }
  fn p(&self, k: &str) -> u64 { self.probes.get(k).cloned().unwrap_or(0) }
  fn f(&self, k: &str) -> u64 { self.faults.iter().filter(|(n, _)| n.contains(k)).map(|(_, v)| *v).sum() }
  fn c(&self, k: &str) -> u64 { self.by_call.get(k).map_or(0, |v| v[0] + v[1]) }
}
pub fn rule(p: &str) -> &'static str {
  match p {
    "C01" => "two or more threads were inside calls and switched inside them at least 4 times", "C02" => "at least two secrets were produced and an entropy fault or a restart happened", "C03" => "a call that needs entropy failed because of an outage and another one succeeded after it",
    "C04" => "a damaged blob was given to a call", "C05" => "a blob written by one process was used by a later one, or by the released version", "C06" => "a wrong password was tried on an intact blob", "C07" => "a network was added to or refused for a blob",
    "C08" => "calls that only read ran while another call's read was stalled or the source failed, or were repeated", "C09" => "a derived key, signature or wallet content was compared with the reference derivation", "C10" => "C calls succeeded and failed and their results were released",
    "C11" => "at least two calls failed as they must", "C12" => "a blob of a foreign writer was given to a call", "C13" => "a signature was verified after a faulty channel and one was accepted", "C14" => "a network plug-in failed or panicked",
    "C20" => "secrets were in play and at least one error or panic message and three other results were searched for them",
    "C15" => "a call failed or the process died in a call and later calls were judged", "C16" => "a handle was deleted and others used after it, or more than 150 calls were made", _ => "any call was judged",
  }
}
pub fn nontrivial(p: &str, s: &Stats) -> bool {
  match p {
    "C01" => s.switches >= 4 && s.ok > 2, "C02" => s.p("secrets") >= 2 && (s.f("entropy") + s.f("getrandom") + s.f("dies") > 0 || s.incs > 1), "C03" => s.p("healed") > 0,
    "C04" => s.p("damaged") > 0, "C05" => s.p("inherited") > 0, "C06" => s.p("wrong password") > 0, "C07" => s.c("add-network") > 0,
    "C08" => s.f("stalled") + s.f("error") > 0 && s.p("read only") > 3 || s.p("read only") > 8, "C09" => s.c("pub-key") + s.c("sign") + s.blobs > 1, "C10" => s.ok > 3 && s.err > 0,
    "C11" => s.err >= 2, "C12" => s.p("foreign") > 0, "C13" => s.p("channel") > 0 && s.p("authentic") > 0, "C14" => s.f("plug-in") > 0,
    "C20" => s.p("searched errors") > 0 && s.p("searched results") > 2,
    "C15" => s.p("after failure") > 0, "C16" => s.p("after delete") > 0 || s.ops > 150, _ => s.ops > 0,
  }
}

pub struct Judge<'a> {
  sc: &'a Scenario, cfgs: Vec<CfgInfo<'a>>,
  ledger: HashMap<u64, Entry>,
  used: HashSet<(usize, u64)>, nodes: HashMap<(u64, u32, KP), std::rc::Rc<Option<Node>>>, signs: HashMap<(u64, u32, KP, u64), Vec<u8>>, rs: HashMap<(u64, u32, KP, Vec<u8>), u64>,
  kd: HashMap<(u32, u64, bool), Vec<u8>>, seeds: HashMap<(String, u8, usize), Option<Vec<u8>>>, dec: HashMap<(u64, String), Option<Vec<u8>>>,
  inherited: HashSet<u64>, failed: bool, deleted: bool, outage: bool,
  secrets: Option<Box<crate::secrets::Secrets>>,
  cur: HashMap<u32, (Api, Call)>, opens: HashMap<u64, (Vec<u8>, String)>, cur_why: Why, pad: bool,
  pub viols: Vec<Viol>, pub st: Stats, pub hash: u64, pub sched_hash: u64,
}
/// What happened around one call besides its result.
#[derive(Default)]
struct Around { draws: Vec<(u64, u32)>, fault: bool, efaults: u32, drew: bool, plugs: Vec<(u32, u8, B, u8)>, openfail: bool }

pub fn kind(c: &Call) -> &'static str {
  match c {
    Call::None => "none", Call::Mgr { .. } => "manager", Call::MgrDel => "manager-delete", Call::HasNet { .. } => "has-network", Call::Gen { .. } => "generate",
    Call::NewMnem { .. } => "create-mnemonic", Call::NewSeed { .. } => "create-seed", Call::Open { back: true, .. } => "restore", Call::Open { .. } => "open", Call::ChPw { .. } => "change-password", Call::AddNet { .. } => "add-network",
    Call::Seal { .. } => "encrypt", Call::Unseal { .. } => "decrypt",
    Call::Mnem { .. } => "mnemonic", Call::Keys { .. } => "keys", Call::KNets { .. } => "networks", Call::KHas { .. } => "keychain-has", Call::Pub { .. } => "pub-key",
    Call::Sign { .. } => "sign", Call::Ver { .. } => "verify", Call::KClose => "keychain-delete", Call::Path { .. } => "path", Call::Reap => "release", Call::Bad { .. } => "bad-call",
  }
}
fn short(s: &str) -> String { if s.chars().count() > 300 { format!("{}...", s.chars().take(300).collect::<String>()) } else { s.to_owned() } }

/// expected outcome of a call: acceptable error kinds, and the check of a success if one is acceptable
struct Want { ok: Option<Chk>, errs: Vec<i32>, why: Why, named: Vec<u32> }
enum Chk { Any, Unit, Bool(bool), Bytes(Vec<u8>), Nets(BTreeSet<u32>), Keys(BTreeMap<u32, Vec<u8>>), Mnem(String, u8), Path(KP), Blob { pw: String, content: Option<Content>, plain: Option<Vec<u8>> }, Sentence(usize, u8), NotTrue }
impl Want {
  fn ok(c: Chk) -> Want { Want { ok: Some(c), errs: vec![], why: Why::Other, named: vec![] } }
  fn err(e: &[i32]) -> Want { Want { ok: None, errs: e.to_vec(), why: Why::Other, named: vec![] } }
  fn either(c: Chk, e: &[i32]) -> Want { Want { ok: Some(c), errs: e.to_vec(), why: Why::Other, named: vec![] } }
}
/// does the text contain the number?
fn names(text: &str, n: u64) -> bool { text.split(|c: char| !c.is_ascii_digit()).any(|d| d.parse() == Ok(n)) }
const ANY: [i32; 13] = [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];

impl<'a> Judge<'a> {
  pub fn new(sc: &'a Scenario) -> Judge<'a> {
    let mut j = Judge {
      sc, cfgs: (0..sc.cfgs.len()).map(|i| CfgInfo::new(sc, i)).collect(), ledger: HashMap::new(), used: HashSet::new(), nodes: HashMap::new(), signs: HashMap::new(), rs: HashMap::new(),
      kd: HashMap::new(), seeds: HashMap::new(), dec: HashMap::new(), inherited: HashSet::new(), secrets: None, failed: false, deleted: false, outage: false, cur: HashMap::new(), opens: HashMap::new(), cur_why: Why::Other, pad: false, viols: vec![], st: Stats::default(), hash: 0xcbf29ce484222325, sched_hash: 0xcbf29ce484222325,
    };
    if sc.prop == "C20" {
      let mut s = crate::secrets::Secrets::default();
      for p in &sc.pws { s.bytes(p.as_bytes()); }
      for p in &sc.seeds { s.bytes(&p.0); }
      for m in &sc.mns { s.mnemonic(&m.text); }
      j.secrets = Some(Box::new(s));
    }
    for f in &sc.foreign {
      let c = parse_content(&f.plain.0);
      j.hide(c.as_ref());
      if let Some(s) = &mut j.secrets { s.contents(&f.plain.0); }
      let nonce: Vec<u8> = f.salt.0.iter().rev().take(12).cloned().collect();
      let b = seal(sc.full_kdf, &f.plain.0, &sc.pws[f.pw], &f.salt.0, &nonce);
      j.ledger.insert(fnv(&b), Entry { pw: sc.pws[f.pw].clone(), content: parse_content(&f.plain.0), plain: f.plain.0.clone(), open: f.expect == Expect::Either, foreign: true });
    }
    for (_, g) in &sc.golden {
      let g = crate::golden::get(*g);
      let content = parse_content(g.plain.as_bytes());
      assert!(content.is_some(), "golden blob");
      j.ledger.insert(fnv(&g.blob), Entry { pw: g.pw.clone(), plain: g.plain.clone().into_bytes(), content, open: false, foreign: false });
    }
    j
  }
  fn viol(&mut self, class: &'static str, kind: &'static str, inc: usize, u: u32, msg: String) {
    let call = self.cur.get(&u).cloned();
    let h = call.as_ref().map_or(0, |c| from_of(&c.1));
    let from = self.opens.get(&h).cloned();
    let h = if h != 0 { h } else { call.as_ref().map_or(0, |c| fnv(blob_of(&c.1))) };
    self.viols.push(Viol { class, kind, inc, u, msg: short(&msg), call, from, foreign: self.foreign(h), why: self.cur_why });
  }

  /// the secrets of a wallet
  fn hide(&mut self, c: Option<&Content>) {
    if let (Some(s), Some(c)) = (&mut self.secrets, c) {
      if let Some(x) = &c.seed { s.bytes(x); }
      if let Some(x) = &c.mnemonic { s.mnemonic(x); }
      for k in c.keys.values() { s.bytes(k); }
    }
  }
  /// outputs through which no secret may leave
  fn confined(&mut self, inc: usize, o: &OpRec, k: &'static str) {
    let mut s = match self.secrets.take() { Some(s) => s, None => return };
    match &o.call {
      Call::NewMnem { mn, pw, .. } => { s.bytes(pw.as_bytes()); s.mnemonic(mn); }
      Call::NewSeed { seed, pw, .. } => { s.bytes(pw.as_bytes()); s.bytes(&seed.0); }
      Call::Open { pw, .. } | Call::AddNet { pw, .. } | Call::Mnem { pw, .. } | Call::Keys { pw, .. } | Call::Seal { pw, .. } | Call::Unseal { pw, .. } => s.bytes(pw.as_bytes()),
      Call::ChPw { pw, np, .. } => { s.bytes(pw.as_bytes()); s.bytes(np.as_bytes()); }
      Call::Pub { from, cfg, net, path } | Call::Sign { from, cfg, net, path, .. } => {
        if let Some(c) = self.content(*from) {
          if let (Some(d), true) = (c.keys.get(net), self.cfgs[*cfg].has(*net)) {
            let d = d.clone();
            match &*self.node(*cfg, *net, &d, path) { Some(Node::S(n)) => s.bytes(&n.key), Some(Node::A(x)) => { let b: &[u8] = x.as_ref(); s.bytes(&b[..64]); } _ => {} }
          }
        }
      }
      _ => {}
    }
    // a nonce used for two messages gives the key away
    if let (Call::Sign { from, net, path, msg, .. }, Out::Bytes(b)) = (&o.call, &o.out) {
      let data = self.content(*from).and_then(|c| c.keys.get(net).cloned()).unwrap_or_default();
      if [BTC, ETH, ADA].contains(net) && b.0.len() >= 64 && !data.is_empty() {
        let m = fnv(&msg.0);
        if *self.rs.entry((fnv(&data), *net, *path, b.0[..32].to_vec())).or_insert(m) != m { self.viol("SECRET", "sign", inc, o.u, "two messages were signed with one nonce, from which anybody can compute the private key".into()); }
      }
    }
    let bad = match &o.out {
      Out::Err(_, m) | Out::Panic(m) | Out::Text(m) => { self.st.probe("searched errors"); s.found(m.as_bytes()) }
      Out::Bytes(_) if matches!(o.call, Call::Unseal { .. }) => false,
      Out::Bytes(b) => { self.st.probe("searched results"); s.found(&b.0) }
      _ => false,
    };
    if let (Call::Gen { .. }, Out::Str(m)) = (&o.call, &o.out) { s.mnemonic(m); }
    self.secrets = Some(s);
    if bad { self.viol("SECRET", k, inc, o.u, format!("{:?} {} -> {}: a password, mnemonic, seed or private key is part of the result", o.api, sh(&o.call), sh(&o.out))); }
  }

  fn seed_of(&mut self, m: &str, lang: u8, words: usize) -> Option<Vec<u8>> {
    let k = (m.to_owned(), lang, words);
    if let Some(s) = self.seeds.get(&k) { return s.clone(); }
    let s = sentence_seed(self.sc.full_kdf, m, lang, words);
    self.seeds.insert(k, s.clone());
    s
  }
  fn key_data(&mut self, cfg: usize, net: u32, seed: &[u8]) -> Vec<u8> {
    let plug = self.cfgs[cfg].plug(net);
    let k = (net, fnv(seed), plug.is_some());
    if let Some(d) = self.kd.get(&k) { return d.clone(); }
    let d = key_data(net, seed, plug);
    self.kd.insert(k, d.clone());
    d
  }
  fn node(&mut self, cfg: usize, net: u32, data: &[u8], p: &KP) -> std::rc::Rc<Option<Node>> {
    let k = (fnv(data), net, *p);
    if let Some(n) = self.nodes.get(&k) { return n.clone(); }
    let n = std::rc::Rc::new(node(net, data, p, self.cfgs[cfg].plug(net).is_some()));
    self.nodes.insert(k, n.clone());
    n
  }
  fn signature(&mut self, n: &Node, data: &[u8], net: u32, p: &KP, msg: &[u8]) -> Vec<u8> {
    let k = (fnv(data), net, *p, fnv(msg));
    if let Some(s) = self.signs.get(&k) { return s.clone(); }
    let s = n.sign(msg);
    self.signs.insert(k, s.clone());
    s
  }
  fn stage(&mut self, blob: &[u8], pw: &str) -> Stage {
    let h = fnv(blob);
    if let Some(e) = self.ledger.get(&h) {
      return if same_key(&e.pw, pw) { self.pad = e.pw != pw; Stage::Plain(h) } else { Stage::Fail(vec![0], Why::Pw) };
    }
    if blob.len() <= 60 { return Stage::Fail(vec![1], Why::Damaged); }
    let k = (h, pw.to_owned());
    let p = match self.dec.get(&k) { Some(p) => p.clone(), None => { let p = unseal(self.sc.full_kdf, blob, pw); self.dec.insert(k, p.clone()); p } };
    match p {
      None => Stage::Fail(vec![0], Why::Damaged),
      Some(plain) => {
        let content = parse_content(&plain);
        self.ledger.insert(h, Entry { pw: pw.to_owned(), content, plain, open: false, foreign: true });
        Stage::Plain(h)
      }
    }
  }
  /// the seed a wallet's content stands for
  fn wallet_seed(&mut self, c: &Content, cfg: usize) -> Result<Vec<u8>, i32> {
    if let Some(s) = &c.seed { return if s.len() == 64 { Ok(s.clone()) } else { Err(5) }; }
    match (&c.mnemonic, c.dict) {
      (Some(m), Some(d)) => { let w = self.cfgs[cfg].words(); self.seed_of(&m.clone(), d, w).ok_or(11) }
      _ => Err(2),
    }
  }
  /// expected outcome; also the seed / key data plug-ins may be given
  fn want(&mut self, call: &Call, api: Api, seed_out: &mut Option<Vec<u8>>, loads: &mut Vec<Vec<u8>>) -> Want {
    match call {
      Call::None => Want::ok(Chk::Any),
      Call::Mgr { cfg } => if self.cfgs[*cfg].valid() { Want::ok(Chk::Unit) } else { Want::err(&[3]) },
      Call::MgrDel | Call::KClose | Call::Reap => Want::ok(Chk::Unit),
      Call::HasNet { cfg, net } => Want::ok(Chk::Bool(self.cfgs[*cfg].has(*net))),
      Call::Gen { cfg, lang } => if self.cfgs[*cfg].gen_ok() { Want::ok(Chk::Sentence(self.cfgs[*cfg].words(), *lang)) } else { Want::err(&[11]) },
      Call::NewMnem { cfg, mn, lang, pw } => {
        let words = self.cfgs[*cfg].words();
        match self.seed_of(mn, *lang, words) {
          None => Want::err(&[11]),
          Some(seed) => {
            let mut c = Content { seed: None, mnemonic: Some(mn.clone()), dict: Some(*lang), keys: BTreeMap::new() };
            for n in self.cfgs[*cfg].nets.clone() { c.keys.insert(n, self.key_data(*cfg, n, &seed)); }
            *seed_out = Some(seed);
            Want::ok(Chk::Blob { pw: pw.clone(), content: Some(c), plain: None })
          }
        }
      }
      Call::NewSeed { cfg, seed, pw } => {
        if seed.0.len() != 64 { return Want::err(&[5]); }
        let mut c = Content { seed: Some(seed.0.clone()), mnemonic: None, dict: None, keys: BTreeMap::new() };
        for n in self.cfgs[*cfg].nets.clone() { c.keys.insert(n, self.key_data(*cfg, n, &seed.0)); }
        *seed_out = Some(seed.0.clone());
        Want::ok(Chk::Blob { pw: pw.clone(), content: Some(c), plain: None })
      }
      Call::Open { blob, pw, cfg, .. } => match self.stage(&blob.0, pw) {
        Stage::Fail(e, why) => Want { ok: None, errs: e, why, named: vec![] },
        Stage::Plain(h) => {
          let e = self.ledger[&h].clone();
          if e.open { return Want::either(Chk::Unit, &ANY[1..]); }
          match &e.content {
            None => Want::err(&[4]),
            Some(c) => {
              let ci = &self.cfgs[*cfg];
              let bad: Vec<u32> = c.keys.iter().filter(|(n, d)| ci.has(**n) && !key_loads(**n, d, ci.plug(**n))).map(|(n, _)| *n).collect();
              *loads = c.keys.iter().filter(|(n, _)| ci.plug(**n).is_some()).map(|(_, d)| d.clone()).collect();
              if bad.is_empty() { Want::ok(Chk::Unit) } else { Want { ok: None, errs: vec![9], why: Why::Other, named: bad } }
            }
          }
        }
      },
      Call::ChPw { blob, pw, np, .. } => match self.stage(&blob.0, pw) {
        Stage::Fail(e, why) => Want { ok: None, errs: e, why, named: vec![] },
        Stage::Plain(h) => {
          let e = self.ledger[&h].clone();
          let chk = Chk::Blob { pw: np.clone(), content: if e.open { None } else { e.content.clone() }, plain: if e.open { None } else { Some(e.plain.clone()) } };
          if e.content.is_none() || e.open { Want::either(chk, &[4]) } else { Want::ok(chk) }
        }
      },
      Call::AddNet { cfg, blob, pw, net } => {
        let mut errs = vec![];
        let mut why = Why::Other;
        let sup = self.cfgs[*cfg].has(*net);
        if !sup { errs.push(8); }
        match self.stage(&blob.0, pw) {
          Stage::Fail(e, y) => { errs.extend(e); if sup { why = y; } Want { ok: None, errs, why, named: vec![] } }
          Stage::Plain(h) => {
            let e = self.ledger[&h].clone();
            if e.open { return Want::either(Chk::Any, &ANY[1..]); }
            let c = match e.content { Some(c) => c, None => { errs.push(4); return Want::err(&errs); } };
            if c.keys.contains_key(net) { errs.push(7); }
            let seed = match self.wallet_seed(&c, *cfg) { Ok(s) => Some(s), Err(e) => { errs.push(e); None } };
            if !errs.is_empty() { return Want::err(&errs); }
            let seed = seed.unwrap();
            let mut c = c.clone();
            let d = self.key_data(*cfg, *net, &seed);
            c.keys.insert(*net, d);
            *seed_out = Some(seed);
            Want::ok(Chk::Blob { pw: pw.clone(), content: Some(c), plain: None })
          }
        }
      }
      Call::Mnem { blob, pw, .. } | Call::Keys { blob, pw, .. } => match self.stage(&blob.0, pw) {
        Stage::Fail(e, why) => Want { ok: None, errs: e, why, named: vec![] },
        Stage::Plain(h) => {
          let e = self.ledger[&h].clone();
          if e.open { return Want::either(Chk::Any, &ANY[1..]); }
          match (e.content, call) {
            (None, _) => Want::err(&[4]),
            (Some(c), Call::Keys { .. }) => Want::ok(Chk::Keys(c.keys)),
            (Some(c), _) => match (c.mnemonic, c.dict) { (Some(m), Some(d)) => Want::ok(Chk::Mnem(m, d)), _ => Want::err(&[2]) },
          }
        }
      },
      Call::Seal { data, pw } => Want::ok(Chk::Blob { pw: pw.clone(), content: None, plain: Some(data.0.clone()) }),
      Call::Unseal { blob, pw } => match self.stage(&blob.0, pw) {
        Stage::Fail(e, why) => Want { ok: None, errs: e, why, named: vec![] },
        Stage::Plain(h) => Want::ok(Chk::Bytes(self.ledger[&h].plain.clone())),
      },
      Call::KNets { from, cfg } | Call::KHas { from, cfg, .. } => match self.content(*from) {
        None => Want::either(Chk::Any, &ANY[1..]),
        Some(c) => {
          let s: BTreeSet<u32> = c.keys.keys().cloned().filter(|n| self.cfgs[*cfg].has(*n)).collect();
          if let Call::KHas { net, .. } = call { Want::ok(Chk::Bool(s.contains(net))) } else { Want::ok(Chk::Nets(s)) }
        }
      },
      Call::Pub { from, cfg, net, path } | Call::Sign { from, cfg, net, path, .. } | Call::Ver { from, cfg, net, path, .. } => {
        let c = match self.content(*from) { None => return Want::either(Chk::Any, &ANY[1..]), Some(c) => c };
        if !self.cfgs[*cfg].has(*net) || !c.keys.contains_key(net) { return Want::err(&[6]); }
        let data = c.keys[net].clone();
        let n = self.node(*cfg, *net, &data, path);
        let n = match &*n { None => return Want::err(&[9]), Some(n) => n };
        match call {
          Call::Pub { .. } => Want::ok(Chk::Bytes(n.public())),
          Call::Sign { msg, .. } => Want::ok(Chk::Bytes(self.signature(n, &data, *net, path, &msg.0))),
          Call::Ver { msg, sig, .. } => {
            let a = self.signature(n, &data, *net, path, &msg.0);
            if let Node::P(..) = n { return Want::ok(Chk::Bool(a == sig.0)); }
            if a == sig.0 || (a.len() == 65 && a[..64] == sig.0[..]) { Want::ok(Chk::Bool(true)) }
            else if n.valid(&msg.0, &sig.0) { Want::either(Chk::Any, &[9]) }
            else { Want::either(Chk::NotTrue, &[9]) }
          }
          _ => unreachable!(),
        }
      }
      Call::Path { p } => match path_model(p) {
        Ok(k) => Want::ok(Chk::Path(k)),
        Err(true) => {
          let utf = if let PathOp::Text(b) = p { std::str::from_utf8(&b.0).is_ok() } else { true };
          if utf || api == Api::R { Want::err(&[10]) } else { Want::err(&[-1, 10]) }
        }
        Err(false) => Want::either(Chk::Any, &[10]),
      },
      Call::Bad { bad } => match bad {
        Bad::Utf8Pw => Want::err(&[-1, 0, 8]),
        Bad::Utf8Mn => Want::err(&[-1, 11]),
        Bad::Utf8Path => Want::err(&[-1, 10]),
        Bad::NullMgr | Bad::NullKc => Want::err(&ANY),
        Bad::NullData => Want::err(&[1, 5]),
        Bad::DelNull | Bad::Init => Want::ok(Chk::Bool(true)),
      },
    }
  }
  /// what an error of this type has to name for this call: the network, size or part of the path that was refused
  fn subject(&self, call: &Call, code: i32) -> Option<Vec<u64>> {
    let part = |p: &KP, net: u32| -> Vec<u64> {
      let mut v = vec![];
      if p.a < HARD { v.push(p.a); }
      if p.h > 1 { v.push(p.h); }
      if p.i >= HARD { v.push(p.i); }
      if net != BTC && p.p != HARD + 44 { v.push(p.p); }
      if p.c != net { v.push(p.c); }
      v.iter().flat_map(|x| vec![*x as u64, (*x ^ HARD) as u64]).collect()
    };
    match (call, code) {
      (Call::AddNet { net, .. }, 7..=8) | (Call::Pub { net, .. } | Call::Sign { net, .. } | Call::Ver { net, .. }, 6) => Some(vec![*net as u64]),
      (Call::NewSeed { seed, .. }, 5) => Some(vec![seed.0.len() as u64, seed.0.len() as u64 * 8]),
      (Call::Pub { net, path, cfg, .. } | Call::Sign { net, path, cfg, .. } | Call::Ver { net, path, cfg, .. }, 9) if self.cfgs[*cfg].plug(*net).is_none() => {
        // a signature of a wrong size is refused too
        let mut v = part(path, *net);
        if let Call::Ver { sig, .. } = call { let n = sig.0.len(); if n != 64 && (n != 65 || *net == ADA) || !v.is_empty() { v.push(n as u64); } }
        Some(v).filter(|v| !v.is_empty())
      }
      (Call::Path { p }, 10) => match p {
        PathOp::Eth(a) | PathOp::Meta(a) => Some(vec![*a as u64, (*a ^ HARD) as u64]),
        PathOp::Ada(a, h, i) | PathOp::Btc(_, _, a, h, i) => {
          Some(part(&KP { p: HARD + 44, c: BTC, a: a ^ HARD, h: *h, i: *i }, BTC)).filter(|v| !v.is_empty())
        }
        PathOp::Text(b) => bad_parts(&b.0),
      },
      _ => None,
    }
  }
  fn content(&self, from: u64) -> Option<Content> { self.ledger.get(&from).filter(|e| !e.open).and_then(|e| e.content.clone()) }

  /// are these bytes fresh bytes of the operating system's source?
  fn fresh(&mut self, inc: usize, v: &[u8], own: &[(u64, u32)], all: &[(u8, u64, u32)], t: u8) -> bool {
    let flat = |d: &mut dyn Iterator<Item = (u64, u32)>| -> Vec<u64> { d.flat_map(|(p, n)| p..p + n as u64).collect() };
    let sc = self.sc;
    let mut hit = |j: &mut Self, pos: &[u64]| -> bool {
      if pos.len() < v.len() { return false; }
      let bytes: Vec<u8> = pos.iter().map(|p| ent_byte(sc.ent_seed, inc as u64, *p)).collect();
      for o in 0..=pos.len() - v.len() {
        if bytes[o] == v[0] && bytes[o..o + v.len()] == *v && pos[o..o + v.len()].iter().all(|p| !j.used.contains(&(inc, *p))) {
          for p in &pos[o..o + v.len()] { j.used.insert((inc, *p)); }
          return true;
        }
      }
      false
    };
    let a = flat(&mut own.iter().cloned());
    if hit(self, &a) { return true; }
    let b = flat(&mut all.iter().filter(|d| d.0 == t).map(|d| (d.1, d.2)));
    if hit(self, &b) { return true; }
    let c = flat(&mut all.iter().map(|d| (d.1, d.2)));
    if hit(self, &c) { return true; }
    self.pieced(inc, v, own, all)
  }
  /// a library may keep bytes in stock, drop some of them or read in pieces: the value may also be made of runs of
  /// delivered bytes in either direction, of which at most two are shorter than four bytes and then at the edge of a delivery
  fn pieced(&mut self, inc: usize, v: &[u8], own: &[(u64, u32)], all: &[(u8, u64, u32)]) -> bool {
    let mut list: Vec<(u64, u32)> = own.to_vec();
    for d in all { if !own.iter().any(|o| o.0 == d.1) { list.push((d.1, d.2)); } }
    let (pos, edge): (Vec<u64>, Vec<bool>) = list.iter().flat_map(|&(p, n)| (0..n as u64).map(move |i| (p + i, i == 0 || i == n as u64 - 1))).unzip();
    let bytes: Vec<u8> = pos.iter().map(|p| ent_byte(self.sc.ent_seed, inc as u64, *p)).collect();
    let mut free: Vec<bool> = pos.iter().map(|p| !self.used.contains(&(inc, *p))).collect();
    let (mut done, mut short, mut taken) = (0, 0, vec![]);
    while done < v.len() {
      let rest = &v[done..];
      let mut best: (usize, usize, bool) = (0, 0, true);
      for o in 0..pos.len() {
        if bytes[o] != rest[0] || !free[o] { continue; }
        let up = (0..rest.len()).take_while(|&i| o + i < pos.len() && free[o + i] && bytes[o + i] == rest[i]).count();
        let down = (0..rest.len()).take_while(|&i| i <= o && free[o - i] && bytes[o - i] == rest[i]).count();
        for (n, dir, last) in [(up, true, o + up - 1), (down, false, o + 1 - down)] {
          if n > best.0 && (n >= 4 || edge[o] || edge[last]) { best = (n, o, dir); }
        }
      }
      if best.0 < 4 { short += 1; }
      if best.0 == 0 || short > 2 { return false; }
      for i in 0..best.0 { let at = if best.2 { best.1 + i } else { best.1 - i }; free[at] = false; taken.push(pos[at]); }
      done += best.0;
    }
    for p in taken { self.used.insert((inc, p)); }
    true
  }

  /// one process: its history, how it ended; returns what survives it
  pub fn feed(&mut self, inc: usize, recs: &[Rec], status: i32, d: &mut Durable) {
    self.st.incs += 1;
    self.cur.clear();
    self.inherited = d.slots.iter().flatten().map(|s| fnv(&s.0)).collect();
    self.deleted = false; self.outage = false;
    self.cur_why = Why::Other;
    let cfg_inc = &self.sc.incs[inc];
    let mut around: HashMap<u32, Around> = HashMap::new();
    let mut all_draws: Vec<(u8, u64, u32)> = vec![];
    let mut open: BTreeMap<u8, u32> = BTreeMap::new();
    let mut openfail = false;
    let mut crashed = None;
    let mut last_u = 0;
    let mut reported_end = false;
    let mut marks: Vec<(i64, i64)> = vec![];
    for r in recs {
      let s = serde_json::to_vec(r).unwrap();
      self.hash = mix(self.hash ^ fnv(&s));
      match r {
        Rec::Begin { t, u, api, call } => {
          open.insert(*t, *u);
          last_u = *u;
          if let Call::Open { blob, pw, .. } = call { self.opens.insert(fnv(&blob.0), (blob.0.clone(), pw.clone())); }
          self.cur.insert(*u, (*api, call.clone()));
        }
        Rec::Draw { t, u, pos, n } => { let a = around.entry(*u).or_default(); a.draws.push((*pos, *n)); a.drew = true; all_draws.push((*t, *pos, *n)); self.st.draws += 1; }
        Rec::Fault { u, f, .. } => {
          let a = around.entry(*u).or_default();
          a.drew = true;
          a.efaults += 1;
          let name = match f { EFault::Eintr => "entropy read interrupted", EFault::Short(_) => "entropy short read", EFault::Err(_) => { a.fault = true; "entropy read error" } EFault::Stall(_) => "entropy source stalled" };
          *self.st.faults.entry(name.into()).or_default() += 1;
        }
        Rec::NoSys { u, .. } => { around.entry(*u).or_default().drew = true; *self.st.faults.entry("getrandom system call missing".into()).or_default() += 1; }
        Rec::OpenFail { u, .. } => { openfail = true; around.entry(*u).or_default().openfail = true; *self.st.faults.entry("random device can not be opened or read first".into()).or_default() += 1; }
        Rec::Sw { u, n, to } => { self.st.switches += 1; self.sched_hash = mix(self.sched_hash ^ mix((*u as u64) << 32 ^ *n ^ (*to as u64) << 60)); }
        Rec::Slot { s, b, pw } => d.slots[*s] = Some((b.0.clone(), pw.clone())),
        Rec::MnSlot { s, m, lang } => d.mns[*s] = Some((m.clone(), *lang)),
        Rec::SigSlot { s, b } => d.sigs[*s] = Some(b.0.clone()),
        Rec::Plug { u, id, call, arg, act, .. } => {
          around.entry(*u).or_default().plugs.push((*id, *call, arg.clone(), *act));
          if *act > 0 { *self.st.faults.entry(if *act == 1 { "plug-in returns an error" } else { "plug-in panics" }.into()).or_default() += 1; }
        }
        Rec::Mem { u, what, .. } => { let k = self.kind_of(inc, *u); self.viol("MEM", k, inc, *u, what.clone()) }
        Rec::Wrote { u, fd, b, .. } => {
          self.st.probe("output written");
          if self.secrets.as_ref().map_or(false, |s| s.found(&b.0)) { let k = self.kind_of(inc, *u); self.viol("SECRET", k, inc, *u, format!("wrote a password, mnemonic, seed or private key to file {}", fd)); }
        }
        Rec::Again { u, n, grown } => {
          self.st.probe("repetitions in one call loop");
          self.st.ops += *n as u64;
          around.remove(u);
          if *n >= 500 && *grown >= *n as i64 / 2 { let k = self.kind_of(inc, *u); self.viol("LEAK", k, inc, *u, format!("{} repetitions of one call left {} more blocks of memory allocated", n, grown)); }
        }
        Rec::Forked { back, .. } => if !back { *self.st.faults.entry("the process forks".into()).or_default() += 1; },
        Rec::Mark { blocks, bytes, .. } => {
          marks.push((*blocks, *bytes));
          let n = marks.len();
          if n >= 3 && marks[n - 1] != marks[n - 2] {
            self.viol("LEAK", "process", inc, 0, format!("live memory after identical rounds: {:?}", marks));
          }
        }
        Rec::Crash { u } => { crashed = Some(*u); self.failed = true; self.st.lost += 1; *self.st.faults.entry(crash_name(&cfg_inc.crash).into()).or_default() += 1; }
        Rec::Dead { what } => { reported_end = true; let k = self.kind_of(inc, last_u); self.viol(if what.contains("arena") { "STEPS" } else if what.contains("input buffer") { "INPUT" } else { "DEAD" }, k, inc, last_u, what.clone()) }
        Rec::Steps { u } => { reported_end = true; let k = self.kind_of(inc, *u); self.viol("STEPS", k, inc, *u, "the call does not terminate within its step bound".into()) }
        Rec::End { now, points, .. } => { self.st.sim_ns += now.saturating_sub(cfg_inc.clock0); self.st.points += points; }
        Rec::Ret { t, u, ph, out, jump, pts, outp } => {
          open.remove(t);
          let a = around.remove(u).unwrap_or_default();
          let (api, call) = self.cur.get(u).cloned().unwrap_or((Api::C, Call::None));
          let o = OpRec { t: *t, u: *u, ph: *ph, api, call, out: out.clone(), jump: *jump, pts: *pts, outp: outp.clone() };
          self.cur_why = Why::Other;
          // an allocation failed inside this very call: any failure is fine, a success is judged
          if crashed == Some(*u) && matches!(out, Out::Err(..) | Out::Panic(_)) { self.st.skip += 1; continue; }
          self.op(inc, &o, a, openfail, &all_draws);
        }
      }
    }
    let sig = status & 0x7f;
    let code = (status >> 8) & 0xff;
    if crashed.is_none() && !reported_end {
      if sig != 0 {
        let u = open.values().next().cloned().unwrap_or(last_u);
        let u = if open.values().any(|x| *x == last_u) { last_u } else { u };
        let k = self.kind_of(inc, u);
        let cls = match sig { 24 => "STEPS", 14 => "DEAD", _ => "DIED" };
        self.viol(cls, k, inc, u, format!("the process was killed by signal {} inside a call", sig));
      } else if code != 0 {
        let k = self.kind_of(inc, last_u);
        // 90: more results than the history can hold
        self.viol(if code == 90 { "STEPS" } else { "DIED" }, k, inc, last_u, format!("the process exited with {}", code));
      }
    }
  }
  fn kind_of(&self, inc: usize, u: u32) -> &'static str {
    for o in self.sc.incs[inc].phases.iter().flatten().flatten() {
      if o.u == u { return op_kind(&o.op); }
      if let Op::Fork { ops } = &o.op { for o in ops { if o.u == u { return op_kind(&o.op); } } }
    }
    "process"
  }

  fn op(&mut self, inc: usize, o: &OpRec, a: Around, openfail: bool, all_draws: &[(u8, u64, u32)]) {
    if let Out::Skip = o.out { self.st.skip += 1; return; }
    let k = kind(&o.call);
    self.st.ops += 1;
    let okflag = !matches!(o.out, Out::Err(..) | Out::Panic(_));
    { let e = self.st.by_call.entry(k.to_owned()).or_default(); e[!okflag as usize] += 1; }
    { let e = self.st.most.entry(k.to_owned()).or_default(); *e = (*e).max(o.pts); }
    match &o.out { Out::Err(..) => self.st.err += 1, Out::Panic(_) => self.st.panics += 1, _ => self.st.ok += 1 }
    if let Some(p) = &o.outp { self.viol("OUTP", k, inc, o.u, p.clone()); }
    let readonly = matches!(o.call, Call::HasNet { .. } | Call::Open { .. } | Call::Mnem { .. } | Call::Keys { .. } | Call::KNets { .. } | Call::KHas { .. } | Call::Pub { .. } | Call::Sign { .. } | Call::Ver { .. } | Call::Path { .. } | Call::Unseal { .. });
    if readonly && a.drew { self.viol("DRAWN", k, inc, o.u, "a call that only reads asked the entropy source".into()); }
    if readonly && o.jump > 0 { self.viol("WAITED", k, inc, o.u, format!("a call that only reads waited {} ns for another call's entropy read", o.jump)); }

    self.confined(inc, o, k);
    let (mut seed, mut loads) = (None, vec![]);
    self.pad = false;
    let mut want = self.want(&o.call, o.api, &mut seed, &mut loads);
    // HMAC cannot tell apart passwords that differ in trailing NUL characters: refusing one is right
    if self.pad {
      self.pad = false;
      if let Out::Err(0, _) = o.out { return; }
      if okflag { self.viol("ACC_PAD", k, inc, o.u, format!("accepted although the password differs in trailing NUL characters: {:?} {}", o.api, sh(&o.call))); }
    }
    self.cur_why = want.why;
    if readonly { self.st.probe("read only"); }
    let bh = if blob_of(&o.call).is_empty() { from_of(&o.call) } else { fnv(blob_of(&o.call)) };
    if self.inherited.contains(&bh) { self.st.probe("inherited"); }
    if self.foreign(bh) { self.st.probe("foreign"); }
    if want.why == Why::Pw { self.st.probe("wrong password"); }
    if want.why == Why::Damaged { self.st.probe("damaged"); }
    if k == "verify" { match want.ok { Some(Chk::Bool(true)) => self.st.probe("authentic"), Some(Chk::Any) => self.st.probe("malleable"), _ => self.st.probe("channel") } }
    if self.failed && okflag { self.st.probe("after failure"); }
    if self.deleted && okflag { self.st.probe("after delete"); }
    if !okflag { self.failed = true; }
    if matches!(k, "manager-delete" | "keychain-delete") { self.deleted = true; }
    // plug-ins: what they were given, and what their failures must do
    let mut pfail = vec![];
    let mut ppanic = false;
    for (id, c, arg, act) in &a.plugs {
      let good = match c {
        0 => seed.as_ref().map_or(false, |s| *s == arg.0) || matches!(&o.call, Call::AddNet { blob, .. } if self.ledger.get(&fnv(&blob.0)).map_or(false, |e| e.open)),
        1 => loads.contains(&arg.0) || matches!(&o.call, Call::Open { blob, .. } if self.ledger.get(&fnv(&blob.0)).map_or(false, |e| e.open)),
        _ => match &o.call { Call::Pub { path, .. } | Call::Sign { path, .. } | Call::Ver { path, .. } => kp_bytes(path) == arg.0, _ => false },
      };
      if !good { self.viol("PLUGARG", k, inc, o.u, format!("plug-in {} was called ({}) with {:?}", id, c, arg)); }
      if *act > 0 { pfail.push(*id); if *act == 2 { ppanic = true; } }
    }
    if !pfail.is_empty() {
      let mut errs = vec![9];
      if ppanic { errs.push(-1); }
      let named = if ppanic { vec![] } else { pfail.clone() };
      want = Want { ok: None, errs, why: Why::Other, named };
    }
    // entropy: a call that met a failing read may fail in any way, or succeed with fresh bytes
    let needs = matches!(o.call, Call::Gen { .. } | Call::NewMnem { .. } | Call::NewSeed { .. } | Call::ChPw { .. } | Call::AddNet { .. } | Call::Seal { .. });
    let own = needs && (a.fault || a.openfail) && want.ok.is_some();
    // a call that must fail anyway may notice the outage first
    if needs && (a.fault || a.openfail) && want.ok.is_none() { want.errs.push(-1); }
    // getrandom 0.1 never opens the random devices again once that failed: a finding of its own
    let sticky = needs && !own && openfail && self.sc.incs[inc].ent.nosys.is_some() && want.ok.is_some() && !okflag;
    let excused = own || sticky;
    if sticky { self.viol("STICKY", k, inc, o.u, "fails although the entropy source works again: the random device could not be opened once, and is never opened again".into()); }
    if okflag && needs { self.st.probe("secrets"); if self.outage { self.st.probe("healed"); } }
    let ctx = |m: String| format!("{:?} {} -> {}: {}", o.api, sh(&o.call), sh(&o.out), m);
    match &o.out {
      Out::Err(-1, _) | Out::Panic(_) => {
        if excused { self.outage = true; self.st.probe("outage"); return; }
        if want.errs.contains(&-1) { return; }
        let m = match &o.out { Out::Err(_, m) | Out::Panic(m) => m.clone(), _ => String::new() };
        self.viol("PANIC", k, inc, o.u, ctx(format!("panicked inside ({}); expected {}", m, if want.ok.is_some() { "success".into() } else { format!("error {:?}", want.errs) })));
      }
      Out::Err(c, m) => {
        if excused { self.outage = true; self.st.probe("outage"); return; }
        if !want.errs.contains(c) {
          let cls = if want.ok.is_some() { "REFUSED" } else { "ERRKIND" };
          let cls = if cls == "REFUSED" && matches!(want.ok, Some(Chk::Bool(true))) && k == "verify" { "AUTHREJ" } else { cls };
          self.viol(cls, k, inc, o.u, ctx(if want.ok.is_some() { "must succeed".into() } else { format!("must fail with one of {:?}", want.errs) }));
        } else if *c == 9 && !want.named.is_empty() && !want.named.iter().any(|n| names(m, *n as u64)) {
          self.viol("ERRKIND", k, inc, o.u, ctx(format!("must name one of the networks {:?}", want.named)));
        } else if !self.subject(&o.call, *c).map_or(true, |v| v.iter().any(|n| names(m, *n))) {
          let v = self.subject(&o.call, *c);
          self.viol("ERRKIND", k, inc, o.u, ctx(format!("must name what it is about, one of {:?}", v.unwrap())));
        } else if m.is_empty() { self.viol("ERRKIND", k, inc, o.u, ctx("empty message".into())); }
      }
      out => {
        let chk = match want.ok {
          None => {
            let cls = if !pfail.is_empty() { "ACC_PLUG" } else { match want.why { Why::Pw => "ACC_PW", Why::Damaged => "ACC_DMG", Why::Other => "ACC" } };
            self.viol(cls, k, inc, o.u, ctx(format!("must fail with one of {:?}", want.errs)));
            return;
          }
          Some(c) => c,
        };
        self.check(inc, o, out, chk, &a, all_draws, k);
      }
    }
  }
  fn check(&mut self, inc: usize, o: &OpRec, out: &Out, chk: Chk, a: &Around, all_draws: &[(u8, u64, u32)], k: &'static str) {
    let ctx = |m: String| format!("{:?} {} -> {}: {}", o.api, sh(&o.call), sh(out), m);
    let wrong = |j: &mut Self, e: String| j.viol("VALUE", k, inc, o.u, ctx(format!("expected {}", e)));
    match (chk, out) {
      (Chk::Any, _) => {}
      (Chk::Unit, Out::Unit) => {}
      (Chk::Bool(x), Out::Bool(y)) => if x != *y {
        if k == "verify" { self.viol(if x { "AUTHREJ" } else { "FORGED" }, k, inc, o.u, ctx(format!("expected {}", x))); } else { wrong(self, format!("{}", x)); }
      },
      (Chk::NotTrue, Out::Bool(y)) => if *y { self.viol("FORGED", k, inc, o.u, ctx("not a valid signature".into())); },
      (Chk::Bytes(x), Out::Bytes(y)) => if x != y.0 {
        if self.bad_signature(&o.call, &y.0) { self.viol("BADSIG", k, inc, o.u, ctx(format!("not a valid signature; expected {:?}", B(x)))); } else { wrong(self, format!("{:?}", B(x))); }
      },
      (Chk::Nets(x), Out::Nets(y)) => { let s: BTreeSet<u32> = y.iter().cloned().collect(); if s != x || s.len() != y.len() { wrong(self, format!("{:?}", x)); } }
      (Chk::Keys(x), Out::KeyData(y)) => {
        let s: BTreeMap<u32, Vec<u8>> = y.iter().map(|(n, d)| (*n, d.0.clone())).collect();
        if s != x || s.len() != y.len() { wrong(self, format!("{:?}", x.keys())); }
      }
      (Chk::Mnem(m, l), Out::Mnem(m2, l2)) => if m != *m2 || l as i32 != *l2 { wrong(self, format!("{} {}", m, l)); },
      (Chk::Path(p), Out::Path(q)) => if p != *q { wrong(self, format!("{:?}", p)); },
      (Chk::Sentence(n, l), Out::Str(s)) => {
        match sentence_entropy(s, l) {
          Some(e) if s.split(' ').count() == n => {
            if !self.fresh(inc, &e, &a.draws, all_draws, o.t) { self.viol("FRESH", k, inc, o.u, ctx("its entropy is not fresh bytes of the operating system's source".into())); }
          }
          _ => wrong(self, format!("a valid sentence of {} words", n)),
        }
      }
      (Chk::Blob { pw, content, plain }, Out::Bytes(b)) => {
        self.st.blobs += 1;
        let b = &b.0;
        if b.len() <= 60 { self.viol("CONTENT", k, inc, o.u, ctx("too short for a wallet".into())); return; }
        if !self.fresh(inc, &b[..32], &a.draws, all_draws, o.t) { self.viol("FRESH", k, inc, o.u, ctx("its salt is not fresh bytes of the operating system's source".into())); }
        if !self.fresh(inc, &b[32..44], &a.draws, all_draws, o.t) { self.viol("FRESH", k, inc, o.u, ctx("its nonce is not fresh bytes of the operating system's source".into())); }
        match unseal(self.sc.full_kdf, b, &pw) {
          None => self.viol("CONTENT", k, inc, o.u, ctx("does not decrypt under its password in the documented format".into())),
          Some(p) => {
            let c = parse_content(&p);
            let bad = match (&content, &plain) { (Some(w), _) => c.as_ref() != Some(w), (None, Some(w)) => p != *w, _ => false };
            if bad { self.viol("CONTENT", k, inc, o.u, ctx(format!("holds {} instead of {}", con(&c), con(&content)))); }
            // from here on the blob counts as what it must be: later calls are judged by that
            let open = content.is_none() && !bad && self.ledger.get(&fnv(blob_of(&o.call))).map_or(false, |e| e.open);
            let foreign = self.foreign(fnv(blob_of(&o.call)));
            let content = if content.is_some() { content } else { c };
            self.hide(content.as_ref());
            if let Some(s) = &mut self.secrets { s.contents(&p); }
            self.ledger.insert(fnv(b), Entry { pw, plain: p, content, open, foreign });
          }
        }
      }
      (_, other) => { let m = format!("a result of another kind ({})", sh(other)); wrong(self, m); }
    }
  }
  fn bad_signature(&mut self, c: &Call, s: &[u8]) -> bool {
    if let Call::Sign { from, cfg, net, path, msg } = c {
      let data = match self.content(*from) { Some(c) => c.keys[net].clone(), None => return false };
      let n = self.node(*cfg, *net, &data, path);
      if let Some(n) = &*n { return match n { Node::P(..) => true, n => !n.valid(&msg.0, s) }; }
    }
    false
  }
  pub fn foreign(&self, h: u64) -> bool { self.ledger.get(&h).map_or(false, |e| e.foreign) }
  pub fn blobs(&self) -> usize { self.ledger.len() }
}
fn from_of(c: &Call) -> u64 { match c { Call::KNets { from, .. } | Call::KHas { from, .. } | Call::Pub { from, .. } | Call::Sign { from, .. } | Call::Ver { from, .. } => *from, _ => 0 } }
fn blob_of(c: &Call) -> &[u8] { match c { Call::ChPw { blob, .. } | Call::AddNet { blob, .. } | Call::Open { blob, .. } | Call::Mnem { blob, .. } | Call::Keys { blob, .. } | Call::Unseal { blob, .. } => &blob.0, _ => &[] } }
fn con(c: &Option<Content>) -> String {
  match c { None => "no valid wallet".into(), Some(c) => format!("seed {:?} mnemonic {:?} language {:?} keys {:?}", c.seed.as_ref().map(|s| fnv(s)), c.mnemonic, c.dict, c.keys.iter().map(|(n, d)| (*n, fnv(d))).collect::<Vec<_>>()) }
}
fn sh<T: std::fmt::Debug>(t: &T) -> String { short(&format!("{:?}", t)) }
pub fn crash_name(c: &Option<(u32, CrashAt)>) -> &'static str {
  match c {
    Some((_, CrashAt::Step(_))) => "process dies inside a call", Some((_, CrashAt::Alloc(_))) => "process dies at an allocation", Some((_, CrashAt::Draw(_))) => "process dies at an entropy read",
    Some((_, CrashAt::Oom(_))) => "allocation fails", Some((_, CrashAt::Ret)) => "process dies before a result is stored", None => "crash",
  }
}
pub fn op_kind(o: &Op) -> &'static str {
  match o {
    Op::Mgr { .. } => "manager", Op::MgrDel { .. } => "manager-delete", Op::HasNet { .. } => "has-network", Op::Gen { .. } => "generate", Op::NewMnem { .. } => "create-mnemonic",
    Op::NewSeed { .. } => "create-seed", Op::Open { .. } => "open", Op::Restore { .. } => "restore", Op::ChPw { .. } => "change-password", Op::AddNet { .. } => "add-network", Op::Mnem { .. } => "mnemonic", Op::Keys { .. } => "keys",
    Op::KNets { .. } => "networks", Op::KHas { .. } => "keychain-has", Op::Pub { .. } => "pub-key", Op::Sign { .. } => "sign", Op::Ver { .. } => "verify", Op::KClose { .. } => "keychain-delete",
    Op::Path { .. } => "path", Op::Seal { .. } => "encrypt", Op::Unseal { .. } => "decrypt", Op::Reap { .. } => "release", Op::Hurt { .. } => "storage damage", Op::Copy { .. } => "storage copy", Op::Foreign { .. } => "foreign blob", Op::Idle { .. } => "idle", Op::BadC { .. } => "bad-call", Op::Again { op, .. } => op_kind(op), Op::Fork { .. } => "fork",
  }
}
