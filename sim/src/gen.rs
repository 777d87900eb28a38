//! Seeded generator of scenarios: one seed, one world - wallets, devices, callers, faults, schedule.
use crate::model::*;
use crate::types::*;
use std::collections::BTreeMap;

pub struct Gen { r: Rng, sc: Scenario, u: u32, p: Prof }

#[derive(Clone)]
struct Prof {
  threads: (u64, u64), ops: (u64, u64), incs: (u64, u64), c_pct: u32,
  crash: u32, // % of incarnations that crash
  eint: u32, eshort: u32, eerr: u32, estall: u32, // per mille bounds
  windows: u32, nosys: u32, // %
  cfgs: u8, // 0 only all networks; 1 mixed built-in; 2 plug-ins
  wmgr: u32, wmgrdel: u32, whas: u32, wgen: u32, wnewm: u32, wnews: u32, wopen: u32, wchpw: u32, wadd: u32, wmnem: u32, wkeys: u32,
  wknets: u32, wpub: u32, wsign: u32, wver: u32, wclose: u32, wpath: u32, wreap: u32, whurt: u32, wcopy: u32, wforeign: u32, wbad: u32, widle: u32,
  right: u32, // % of calls that use the right password
  badmn: u32, badpath: u32, chan: u32, // % of unusual inputs
  golden: u32, full: u32, plugfail: u32,
}
const BASE: Prof = Prof {
  threads: (1, 3), ops: (8, 24), incs: (1, 2), c_pct: 65, crash: 0, eint: 60, eshort: 60, eerr: 0, estall: 30, windows: 0, nosys: 10, cfgs: 1,
  wmgr: 2, wmgrdel: 1, whas: 1, wgen: 3, wnewm: 4, wnews: 3, wopen: 8, wchpw: 5, wadd: 4, wmnem: 3, wkeys: 3, wknets: 2, wpub: 6, wsign: 4, wver: 4, wclose: 2, wpath: 1,
  wreap: 1, whurt: 1, wcopy: 1, wforeign: 1, wbad: 1, widle: 2, right: 75, badmn: 12, badpath: 12, chan: 35, golden: 0, full: 2, plugfail: 0,
};

fn profile(prop: &str, r: &mut Rng) -> Prof {
  let b = BASE;
  match prop {
    "C01" => Prof { threads: (2, 6), ops: (4, 14), incs: (1, 1), c_pct: 100, cfgs: 0, wopen: 12, wpub: 10, wsign: 8, wver: 8, wknets: 4, whas: 3, wmnem: 5, wkeys: 5, whurt: 0, wforeign: 0, wmgr: 1, wmgrdel: 1, right: 70, eerr: if r.pct(15) { 60 } else { 0 }, ..b },
    "C02" => Prof { threads: (1, 4), ops: (5, 16), incs: (1, 3), wgen: 14, wnewm: 8, wnews: 8, wchpw: 12, wadd: 6, wpub: 0, wsign: 0, wver: 0, wmnem: 0, wkeys: 0, eint: 200, eshort: 250, eerr: 20, nosys: 30, crash: 25, badmn: 3, wmgr: 5, ..b },
    "C03" => Prof { threads: (1, 4), ops: (10, 26), incs: (1, 1), wgen: 14, wnewm: 8, wnews: 8, wchpw: 10, wadd: 6, wpub: 2, wsign: 1, wver: 1, eerr: 120, windows: 70, nosys: 25, badmn: 3, wmgrdel: 0, wmgr: 0, ..b },
    "C04" => Prof { threads: (1, 2), ops: (14, 40), incs: (1, 2), whurt: 30, wcopy: 3, wopen: 16, wchpw: 10, wadd: 8, wmnem: 8, wkeys: 8, right: 92, wgen: 0, wver: 0, wsign: 0, wbad: 0, wforeign: 2, ..b },
    "C05" => Prof { threads: (1, 3), ops: (8, 22), incs: (2, 4), crash: 60, wchpw: 9, wadd: 8, wnewm: 6, wnews: 5, wopen: 10, wpub: 8, wmnem: 6, wkeys: 6, whurt: 4, wcopy: 3, eerr: 15, golden: 8, full: 4, right: 88, ..b },
    "C06" => Prof { threads: (1, 2), ops: (14, 40), incs: (1, 2), wchpw: 14, wopen: 22, wadd: 6, wmnem: 8, wkeys: 8, right: 35, wpub: 2, wsign: 1, wver: 1, whurt: 0, wforeign: 2, wbad: 0, wgen: 0, ..b },
    "C07" => Prof { threads: (1, 2), ops: (10, 28), incs: (1, 3), wadd: 26, wopen: 10, wknets: 8, wpub: 8, wkeys: 8, wmnem: 4, c_pct: 25, wforeign: 5, right: 90, cfgs: if r.pct(30) { 2 } else { 1 }, whurt: 0, ..b },
    "C08" => Prof { threads: (1, 5), ops: (6, 18), incs: (2, 2), wopen: 12, wmnem: 8, wkeys: 8, wknets: 6, wpub: 12, wsign: 10, wver: 10, wpath: 6, wgen: 4, wnewm: 3, wnews: 3, wchpw: 3, wadd: 2, estall: 300, whurt: 0, wbad: 0, ..b },
    "C09" => Prof { threads: (1, 3), ops: (8, 24), incs: (1, 3), wnewm: 16, wnews: 10, wopen: 16, wpub: 22, wsign: 10, wkeys: 8, wgen: 6, wadd: 8, badmn: 25, c_pct: 45, right: 96, whurt: 0, wforeign: 0, wbad: 0, full: 4, ..b },
    "C10" => Prof { threads: (1, 4), ops: (8, 24), incs: (1, 1), c_pct: 96, wreap: 6, wclose: 6, wmgrdel: 3, wmgr: 4, wknets: 8, wkeys: 8, wmnem: 6, wgen: 6, wbad: 6, wver: 5, badpath: 30, badmn: 25, right: 60, whurt: 3, wforeign: 4, wpath: 5, eerr: if r.pct(40) { 60 } else { 0 }, ..b },
    "C11" => Prof { threads: (1, 2), ops: (14, 44), incs: (1, 1), c_pct: 92, wbad: 14, wpath: 18, whurt: 5, wforeign: 5, badmn: 50, badpath: 50, right: 55, chan: 80, eerr: if r.pct(30) { 60 } else { 0 }, wver: 8, ..b },
    "C12" => Prof { threads: (1, 2), ops: (14, 40), incs: (1, 2), wforeign: 30, wopen: 18, wchpw: 10, wadd: 14, wmnem: 8, wkeys: 8, wpub: 8, wknets: 5, wgen: 0, wnewm: 1, wnews: 1, whurt: 0, right: 96, badpath: 3, golden: 6, ..b },
    "C13" => Prof { threads: (1, 3), ops: (12, 34), incs: (1, 3), wsign: 22, wver: 34, wopen: 10, wchpw: 4, wadd: 4, wgen: 0, wpub: 2, wmnem: 0, wkeys: 0, chan: 60, badpath: 12, right: 95, whurt: 0, wforeign: 0, cfgs: 1, ..b },
    "C14" => Prof { threads: (1, 2), ops: (12, 34), incs: (1, 2), cfgs: 2, c_pct: 8, wmgr: 5, wnewm: 10, wnews: 8, wadd: 16, wopen: 16, wpub: 10, wsign: 10, wver: 12, wkeys: 5, plugfail: 85, right: 92, wbad: 0, whurt: 0, wforeign: 1, ..b },
    "C15" => Prof { threads: (1, 3), ops: (14, 40), incs: (1, 3), crash: 50, right: 50, whurt: 6, wforeign: 3, badmn: 30, badpath: 30, wbad: 5, eerr: 50, wopen: 14, wchpw: 8, wadd: 8, plugfail: 30, cfgs: if r.pct(40) { 2 } else { 1 }, ..b },
    "C20" => Prof { threads: (1, 2), ops: (14, 40), incs: (1, 2), right: 60, whurt: 5, wforeign: 11, badmn: 40, badpath: 30, wbad: 4, eerr: 60, wpub: 8, wsign: 8, wver: 3, wmnem: 4, wkeys: 4, plugfail: 60, cfgs: if r.pct(40) { 2 } else { 1 }, ..b },
    "C16" => Prof { threads: (1, 4), ops: (16, 50), incs: (1, 1), c_pct: 80, wmgr: 8, wmgrdel: 8, wopen: 14, wclose: 10, wpub: 16, wsign: 8, wver: 6, wknets: 8, whas: 4, wgen: 1, whurt: 1, wbad: 2, ..b },
    _ => b,
  }
}

impl Gen {
  fn uid(&mut self) -> u32 { self.u += 1; self.u }
  fn on(&mut self, op: Op) -> OpN { OpN { u: self.uid(), op } }
  fn password(&mut self) -> String {
    let r = &mut self.r;
    let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789 !$%_-.".chars().collect();
    let ascii = |r: &mut Rng, n: u64| -> String { (0..n).map(|_| *r.pick(&alpha)).collect() };
    match r.below(20) {
      0 => String::new(),
      1 => "a".into(),
      2 => { let n = r.range(120, 140); ascii(r, n) }
      3 => { let n = if r.pct(5) { r.logu(70_000).max(3000) } else { r.range(200, 3000) }; ascii(r, n) }
      4 => format!("caf\u{e9} {}", r.below(100)),
      5 => format!("cafe\u{301} {}", r.below(100)),
      6 => format!("\u{43f}\u{430}\u{440}\u{43e}\u{43b}\u{44c}{}\u{1f511}", r.below(50)),
      7 => format!(" {} ", ascii(r, 6)),
      8 => format!("\t{}\n", ascii(r, 5)),
      9 => { let n = r.range(60, 70); ascii(r, n) }
      10 => { let n = r.range(29, 35); ascii(r, n) }
      11 => format!("{}\0{}", ascii(r, 4), ascii(r, 3)),
      12 => "\u{5bc6}\u{7801}".repeat(r.range(1, 50) as usize),
      13 => format!("I\u{130}stanbul{}", r.below(9)),
      _ => { let n = r.range(4, 24); ascii(r, n) }
    }
  }
  fn sentence(&mut self, words: usize, lang: u8) -> String { let e = self.r.bytes(words / 3 * 4); sentence(&entropy_to_words(&e), lang) }
  fn lang(&mut self) -> u8 { if self.r.pct(45) { 0 } else { self.r.below(8) as u8 } }
  fn mn_lits(&mut self) {
    for i in 0..6 {
      let lang = self.lang();
      let text = self.sentence(if i == 3 { 9 } else { 12 }, lang);
      self.sc.mns.push(MnLit { text, lang });
    }
    // unusual ones from here on
    for _ in 0..5 {
      let lang = self.lang();
      let good = self.sentence(12, lang);
      let text = match self.r.below(14) {
        12 | 13 => { let t = self.long_text(); let n = self.r.us(12); let mut v: Vec<String> = good.split(' ').map(|s| s.into()).collect(); v[n] = t; v.join(" ") }
        0 => self.sentence(15, lang), 1 => self.sentence(24, lang), 2 => self.sentence(9, lang), 3 => self.sentence(18, lang),
        4 => String::new(), 5 => word(lang, 5).to_owned(), 6 => good.to_uppercase() + "Q", 7 => format!("{} {}", good, word(lang, 9)),
        8 => { let v: Vec<&str> = good.split(' ').collect(); v[..11].join(" ") }
        9 => { let mut v: Vec<String> = good.split(' ').map(|s| s.into()).collect(); let i = self.r.us(12); v[i] = format!("{}\0", v[i]); v.join(" ") }
        10 => { let w: Vec<u16> = (0..12).map(|_| self.r.below(2048) as u16).collect(); sentence(&w, lang) }
        _ => { let n = self.r.range(1, 4000) as usize; (0..n).map(|i| word(lang, (i * 37 % 2048) as u16)).collect::<Vec<_>>().join(" ") }
      };
      self.sc.mns.push(MnLit { text, lang });
    }
  }
  /// a word of some length in characters of one to four bytes, so that every byte position may fall inside a character
  fn long_text(&mut self) -> String {
    let r = &mut self.r;
    let c = *r.pick(&["a", "\u{e9}", "\u{65e5}", "\u{1f511}", "\u{65e5}", "\u{1f511}"]);
    let n = match r.below(4) { 0 => r.range(1, 40), 1 => r.range(40, 100), 2 => r.range(100, 600), _ => r.logu(20_000).max(1) };
    format!("{}{}", &"xyz"[..r.us(4)], c.repeat(n as usize))
  }
  fn good_mn(&mut self) -> usize { self.r.us(6) }
  fn path(&mut self, net: u32, bad: bool) -> KP {
    let r = &mut self.r;
    let idx = |r: &mut Rng| match r.below(8) { 0 => 0, 1 => 1, 2 => 0x7fff_ffff, 3 => 0x7fff_fffe, 4 => r.below(5) as u32, 5 => 255 + r.below(3) as u32, 6 => 65535 + r.below(3) as u32, _ => r.below(0x8000_0000) as u32 };
    let pu = if net == BTC { *r.pick(&[44, 49, 84, 86, 0]) } else { 44 };
    let mut p = KP { p: HARD + pu, c: net, a: HARD + idx(r), h: r.below(2) as u32, i: idx(r) };
    if bad {
      match r.below(9) {
        0 => p.p = *r.pick(&[44, HARD + 45, 0, HARD + 49, u32::MAX]),
        1 => p.c = *r.pick(&[0, net & 0x7fff_ffff, BTC + 1, ETH, ADA, BTC]),
        2 => p.a &= 0x7fff_ffff,
        3 => p.h = *r.pick(&[2, 3, HARD, HARD + 1, u32::MAX]),
        4 => p.i |= HARD,
        5 => { p.a = 0; p.i = u32::MAX; }
        6 => p.c = BTC + 1,
        7 => p.p &= 0x7fff_ffff,
        _ => p = KP { p: r.u64() as u32, c: r.u64() as u32, a: r.u64() as u32, h: r.u64() as u32, i: r.u64() as u32 },
      }
    }
    p
  }
  fn dmg(&mut self) -> Vec<Dmg> {
    let n = if self.r.pct(80) { 1 } else { 2 };
    (0..n).map(|_| {
      let ns = self.sc.nslots;
      let r = &mut self.r;
      let off = |r: &mut Rng| match r.below(4) { 0 => r.below(64) as u32, 1 => *r.pick(&[0, 31, 32, 43, 44, 59, 60, 61]), _ => r.u64() as u32 };
      match r.below(18) {
        17 => Dmg::Recode(r.below(17) as u8),
        0..=4 => Dmg::Flip(match r.below(3) { 0 => r.below(61 * 8) as u32, _ => r.u64() as u32 }),
        5 | 6 => Dmg::Trunc(match r.below(3) { 0 => r.below(64) as u32, _ => r.u64() as u32 }),
        7 => Dmg::Head(r.range(1, 70) as u32),
        8 => Dmg::Ext(if r.pct(60) { r.below(20) as u32 } else { r.u64() as u32 }, *r.pick(&[0u8, 1, 32, 255, 10])),
        9 => Dmg::Zero(off(r), r.u64() as u32),
        10 => Dmg::Swap(off(r), off(r), r.u64() as u32),
        11 | 12 => Dmg::Splice(r.us(ns), if r.pct(70) { *r.pick(&[32, 44, 60, 16, 61, 76]) } else { r.u64() as u32 }),
        13 => if r.pct(50) { Dmg::Empty } else { Dmg::Fill(r.u64() as u8) },
        14 => Dmg::Set(off(r), r.u64() as u8),
        15 => Dmg::Graft(r.us(ns), *r.pick(&[0, 32, 44, 60]), *r.pick(&[31, 11, 15, 200])),
        _ => Dmg::Repeat,
      }
    }).collect()
  }
  fn chan(&mut self) -> Vec<Chan> {
    if !self.r.pct(self.p.chan) { return vec![]; }
    let (ns, nmsg) = (self.sc.nsig, self.sc.msgs.len());
    let r = &mut self.r;
    vec![match r.below(28) {
      26 => Chan::NegS(r.pct(70)), 27 => Chan::AddL,
      24 | 25 => Chan::MsgHash(r.below(4) as u8), 0..=3 => Chan::Flip(r.u64() as u32), 4 => Chan::Trunc(r.u64() as u32), 5 => Chan::Ext(r.u64() as u8), 6 | 7 => Chan::Drop65, 8 => Chan::Empty, 9 | 10 => Chan::Other(r.us(ns)),
      11 => Chan::Zero, 12 => Chan::Recid(*r.pick(&[0, 1, 2, 3, 4, 27, 28, 255])), 13 => Chan::HalfSwap, 14..=16 => Chan::MsgFlip(r.u64() as u32), 17 => Chan::MsgTrunc, 18 => Chan::MsgExt,
      19 | 20 => Chan::MsgOther(r.us(nmsg)), 21 => Chan::Long(r.u64() as u32), 22 => Chan::Flip(504 + r.below(16) as u32), _ => Chan::Cut(r.u64() as u32),
    }]
  }
  fn path_text(&mut self) -> Vec<u8> {
    let long = if self.r.pct(12) { Some(self.long_text()) } else { None };
    let r = &mut self.r;
    let idx = |r: &mut Rng| -> String {
      let v = match r.below(7) { 0 => 0, 1 => 44, 2 => 0x7fff_ffff, 3 => 0x8000_0000u64, 4 => 0xffff_ffff, 5 => 0x1_0000_0000, _ => r.below(100) };
      format!("{}{}", v, if r.pct(50) { "'" } else { "" })
    };
    let parts: Vec<String> = (0..5).map(|_| if r.pct(80) { format!("{}{}", *r.pick(&[0u64, 1, 44, 60, 1815, 2147483647]), if r.pct(50) { "'" } else { "" }) } else { idx(r) }).collect();
    let good = format!("m/{}", parts.join("/"));
    if let Some(t) = long { let mut p: Vec<String> = good.split('/').map(|s| s.into()).collect(); let i = if r.pct(60) { 0 } else { r.us(p.len()) }; p[i] = t; return p.join("/").into_bytes(); }
    match r.below(16) {
      0..=6 => good.into_bytes(),
      7 => good.replace("/", " / ").into_bytes(),
      8 => good.replacen("m", *r.pick(&["M", "", "n", "\u{43c}", "m'", "mm"]), 1).into_bytes(),
      9 => format!("{}/0", good).into_bytes(),
      10 => "m/44'/60'/0'/0".into(),
      11 => { let mut p = parts.clone(); let i = r.us(5); p[i] = (*r.pick(&["", "'", "-1", "x", "1''", "\u{661}", "0x10", "1e3", "99999999999999999999", "\u{e9}", "\u{1f511}'", "1 1", "4\u{2019}"])).into(); format!("m/{}", p.join("/")).into_bytes() }
      12 => { let n = r.us(good.len() + 1); good.as_bytes()[..n].to_vec() }
      13 => { let mut b = good.into_bytes(); let i = r.us(b.len()); b[i] = r.range(1, 255) as u8; b }
      14 => vec![],
      _ => "/".repeat(r.below(5000) as usize).into_bytes(),
    }
  }
  fn any_net(&mut self) -> u32 {
    let mut v = vec![BTC, ETH, ADA, BTC, ETH, ADA];
    for p in &self.sc.plugs { v.push(p.id); }
    if self.r.pct(8) { v = vec![0, 1, 60, BTC + 1, u32::MAX, 0x8000_0002]; }
    *self.r.pick(&v)
  }

  // ---------------------------------------------------------------- foreign content
  fn rand_content(&mut self, v1: bool) -> Content {
    let seed = self.r.bytes(64);
    let mut c = Content::default();
    let most = if self.r.pct(10) { 0 } else { 70 };
    for n in [BTC, ETH, ADA].iter() { if self.r.pct(most) { c.keys.insert(*n, key_data(*n, &seed, None)); } }
    for p in self.sc.plugs.clone().iter() { if self.r.pct(40) { c.keys.insert(p.id, plug_data(p.id, &seed, p.dlen)); } }
    let more = match self.r.below(40) { 0 => self.r.range(250, 700), 1 => if self.r.pct(20) { 4500 } else { 129 }, 2..=7 => 60, _ => self.r.below(4) };
    let big = more < 10 && self.r.pct(3);
    for _ in 0..more { let n = self.r.u64() as u32; let d = if self.r.pct(20) { 0 } else if big && self.r.pct(20) { self.r.us(70_000) } else if more > 1000 { 8 } else { self.r.us(200) }; let b = self.r.bytes(d); c.keys.entry(n).or_insert(b); }
    // numbers that resemble a supported network's
    if self.r.pct(if self.sc.prop == "C07" { 40 } else { 12 }) { let n = *self.r.pick(&[BTC, ETH, ADA]); let n = match self.r.below(5) { 0 => n & 0x7fff_ffff, 1 => n ^ 0x10000, 2 => n & 0xffff, 3 => n + 1, _ => n.swap_bytes() }; let d = if self.r.pct(50) { key_data(ETH, &seed, None) } else { self.r.bytes(20) }; c.keys.entry(n).or_insert(d); }
    if !v1 {
      match self.r.below(6) {
        0 | 1 => c.seed = Some(seed),
        2 => { let l = self.lang(); c.mnemonic = Some(self.sentence(12, l)); c.dict = Some(l); }
        3 => { let l = self.lang(); c.mnemonic = Some(self.sentence(9, l)); c.dict = if self.r.pct(60) { Some(l) } else { None }; }
        4 => { c.seed = Some(seed[..self.r.us(64)].to_vec()); }
        _ => {}
      }
      // both, which need not belong together
      if self.r.pct(15) {
        let l = self.lang();
        if c.mnemonic.is_none() { c.mnemonic = Some(self.sentence(12, l)); if self.r.pct(85) { c.dict = Some(l); } }
        if c.seed.is_none() { let n = if self.r.pct(80) { 64 } else { self.r.us(80) }; c.seed = Some(self.r.bytes(n)); }
      }
    }
    c
  }
  fn foreign(&mut self) -> ForeignSpec {
    let v1 = self.r.pct(35);
    let mut c = self.rand_content(v1);
    let mut expect = Expect::Good;
    let mut what = if v1 { "first-version wallet" } else { "second-version wallet" };
    let ver = if v1 { 1 } else { 2 };
    let seed = self.r.bytes(64);
    let r = &mut self.r;
    let b64 = |d: &[u8]| base64::encode(d);
    let em = r.below(8);
    let esc = |s: &str| -> String {
      let mut o = String::from("\"");
      for (i, c) in s.chars().enumerate() {
        match c {
          '/' if em == 1 || em == 3 => o.push_str("\\/"),
          c if em == 2 && !c.is_ascii() || em == 3 && i % 7 == 3 => { let mut b = [0; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); } }
          c => { let t = serde_json::to_string(&c.to_string()).unwrap(); o.push_str(&t[1..t.len() - 1]); }
        }
      }
      o.push('"');
      o
    };
    let inner = |c: &Content, order: &[usize], sp: &str| -> String {
      let ks = c.keys.iter().map(|(n, k)| format!("[{}{},{}{}{}]", sp, n, sp, esc(&b64(k)), sp)).collect::<Vec<_>>().join(&format!("{},", sp));
      let opt = |s: Option<String>| s.map_or("null".to_string(), |s| esc(&s));
      let f = [
        format!("\"seed\":{}{}", sp, opt(c.seed.as_ref().map(|s| b64(s)))),
        format!("\"mnemonic\"{}:{}", sp, opt(c.mnemonic.clone())),
        format!("\"dictionary\":{}", c.dict.map_or("null".to_string(), |d| format!("\"{}\"", LANGS[d as usize]))),
        format!("\"keys\":{}[{}{}]", sp, sp, ks),
      ];
      format!("{{{}{}{}}}", sp, order.iter().map(|i| f[*i].clone()).collect::<Vec<_>>().join(&format!("{},{}", sp, sp)), sp)
    };
    let outer = |ver: &str, data: &str, sp: &str, swap: bool| {
      let (a, b) = (format!("\"version\":{}{}", sp, ver), format!("\"data\"{}:\"{}\"", sp, data));
      if swap { format!("{{{}{},{}{}}}", sp, b, sp, a) } else { format!("{{{}{}{},{}}}", sp, a, sp, b) }
    };
    let sp = *r.pick(&["", "", " ", "\n  ", "\t"]);
    let mut order: Vec<usize> = if v1 { vec![3] } else { vec![0, 1, 2, 3] };
    if r.pct(50) { r.shuffle(&mut order); }
    let swap = r.pct(40);
    let vs = format!("{}", ver);
    let mut plain = outer(&vs, &b64(inner(&c, &order, sp).as_bytes()), sp, swap).into_bytes();
    match r.below(33) {
      0..=11 => {}
      12 => { what = "bad key data"; expect = Expect::Good;
        // a key of a supported network that does not load
        let n = *r.pick(&[BTC, ETH, ADA]);
        let mut d = key_data(n, &seed, None);
        match r.below(10) { 7 | 8 if n == ADA => { let i = *r.pick(&[0usize, 31]); d[i] = if i == 0 { d[0] | r.range(1, 7) as u8 } else { d[31] ^ *r.pick(&[0x80u8, 0x40, 0x20, 0xc0]) } } 7 | 8 => { let i = d.len() - 1; d[i] ^= r.range(1, 255) as u8; } 0 => { d.pop(); } 1 => d.push(0), 2 => d.clear(), 3 => { let i = r.us(d.len()); d[i] ^= 1 << r.below(8); } 4 => { let m = r.us(300); d = r.bytes(m); } 5 => d = vec![0; d.len()], _ => d.extend_from_slice(&seed) }
        if n == ADA && key_loads(n, &d, None) { expect = Expect::Either; }
        c.keys.insert(n, d);
        plain = outer(&vs, &b64(inner(&c, &order, "").as_bytes()), "", false).into_bytes();
      }
      13 => { what = "unknown version"; plain = outer(*r.pick(&["0", "3", "65538", "-1", "\"2\"", "2.5", "null", "99999999999999999999"]), &b64(inner(&c, &order, "").as_bytes()), "", false).into_bytes(); }
      14 => { what = "no version"; plain = format!("{{\"data\":\"{}\"}}", b64(inner(&c, &order, "").as_bytes())).into_bytes(); }
      15 => { what = "no data"; plain = format!("{{\"version\":{}}}", ver).into_bytes(); }
      16 => { what = "truncated"; let n = plain.len() - 1 - r.us(plain.len() / 2); plain.truncate(n.max(1)); }
      17 => { what = "not JSON"; let n = r.range(1, 300) as usize; plain = r.bytes(n); }
      18 => { what = "truncated content"; let s = inner(&c, &order, ""); let n = r.us(s.len()); plain = outer(&vs, &b64(&s.as_bytes()[..n]), "", false).into_bytes(); }
      19 => { what = "bad base64"; let s = b64(inner(&c, &order, "").as_bytes()); let i = r.us(s.len()); let mut s = s.into_bytes(); s[i] = b'!'; plain = outer(&vs, std::str::from_utf8(&s).unwrap(), "", false).into_bytes(); }
      20 => { what = "missing keys"; let s = if v1 { "{}".to_string() } else { inner(&c, &[0, 1, 2], "") }; plain = outer(&vs, &b64(s.as_bytes()), "", false).into_bytes(); }
      21 => { what = "missing seed"; if !v1 { plain = outer(&vs, &b64(inner(&c, &[1, 2, 3], "").as_bytes()), "", false).into_bytes(); } }
      22 => { what = "bad key list"; let k = *r.pick(&["5", "null", "[[1]]", "[[1,\"AA==\",2]]", "[1,2]", "{\"1\":\"AA==\"}", "[[\"1\",\"AA==\"]]", "[[-1,\"AA==\"]]", "[[4294967296,\"AA==\"]]", "[[1,\"@@\"]]", "[[1,null]]", "[[1.5,\"AA==\"]]"]);
        let s = if v1 { format!("{{\"keys\":{}}}", k) } else { format!("{{\"seed\":null,\"mnemonic\":null,\"dictionary\":null,\"keys\":{}}}", k) };
        plain = outer(&vs, &b64(s.as_bytes()), "", false).into_bytes(); }
      23 => { what = "bad seed or language"; let s = *r.pick(&["{\"seed\":\"###\",\"mnemonic\":null,\"dictionary\":null,\"keys\":[]}", "{\"seed\":5,\"mnemonic\":null,\"dictionary\":null,\"keys\":[]}", "{\"seed\":null,\"mnemonic\":\"a\",\"dictionary\":\"Klingon\",\"keys\":[]}", "{\"seed\":null,\"mnemonic\":7,\"dictionary\":null,\"keys\":[]}"]);
        plain = outer("2", &b64(s.as_bytes()), "", false).into_bytes(); }
      24 => { what = "trailing garbage"; plain.extend_from_slice(*r.pick(&[&b"x"[..], &b"{}"[..], &b"\0"[..]])); }
      25 => { what = "unknown extra fields"; expect = Expect::Either; let s = inner(&c, &order, ""); let s = format!("{},\"hint\":\"x\"}}", &s[..s.len() - 1]); plain = outer(&vs, &b64(s.as_bytes()), "", false).into_bytes(); }
      26 => { what = "second-version content labelled first"; if !v1 { expect = Expect::Either; } plain = outer("1", &b64(inner(&c, &order, "").as_bytes()), "", false).into_bytes(); }
      27 => { what = "empty key list"; c.keys.clear(); plain = outer(&vs, &b64(inner(&c, &order, "").as_bytes()), "", false).into_bytes(); }
      28 => { what = "optional fields left out"; if !v1 { let mut o = vec![0, 3]; if r.pct(50) { o.push(1); } plain = outer("2", &b64(inner(&c, &o, "").as_bytes()), "", false).into_bytes(); } }
      29 => {
        what = "deep nesting";
        let (n, t) = (r.logu(60_000).max(120) as usize, *r.pick(&["[", "{\"a\":", "[{\"keys\":"]));
        let deep = t.repeat(n);
        plain = match r.below(4) { 0 => deep.into_bytes(), 1 => outer(&vs, &b64(deep.as_bytes()), "", false).into_bytes(), 2 => { let s = inner(&c, &order, ""); outer(&vs, &b64(format!("{},\"x\":{}", &s[..s.len() - 1], deep).as_bytes()), "", false).into_bytes() } _ => format!("{{\"version\":{}", deep).into_bytes() };
      }
      30 => { what = "other JSON"; plain = (*r.pick(&["null", "true", "[]", "{}", "\"\"", "1e400", "-0", "[[]]", "{\"version\":2,\"data\":null}", "{\"version\":2,\"data\":[1,2]}", "{\"version\":2,\"data\":\"\"}", "{\"version\":1,\"data\":\"bnVsbA==\"}", "{\"version\":2,\"data\":\"W10=\"}", "{\"version\":2,\"data\":\"e30=\"}", "{\"version\":1,\"data\":\"e30=\"}"])).as_bytes().to_vec(); }
      31 => {
        // forms a reader may take or leave
        what = "unusual form"; expect = Expect::Either;
        let d = b64(inner(&c, &order, "").as_bytes());
        plain = match r.below(6) {
          0 => format!("[{},\"{}\"]", vs, d),
          1 => outer(&format!("{}.0", ver), &d, "", false),
          2 => outer(&format!("{}e0", ver), &d, "", false),
          3 => outer(&vs, d.trim_end_matches('='), "", false),
          4 => outer(&vs, &d.replace('+', "-").replace('/', "_"), "", false),
          _ => outer(&vs, &d.as_bytes().chunks(76).map(|l| std::str::from_utf8(l).unwrap()).collect::<Vec<_>>().join("\\n"), "", false),
        }.into_bytes();
      }
      _ => { what = "one byte"; plain = vec![r.u64() as u8]; }
    }
    let salt = B(self.r.bytes(32));
    let pw = self.r.us(self.sc.pws.len());
    ForeignSpec { plain: B(plain), pw, salt, expect, what: what.into() }
  }

  // ---------------------------------------------------------------- operations
  fn api(&mut self) -> Api { if self.r.pct(self.p.c_pct) { Api::C } else { Api::R } }
  fn pwsel(&mut self) -> PwSel {
    if self.r.pct(self.p.right) { PwSel::Right } else if self.r.pct(55) { PwSel::Near(self.r.u64() as u32 % 100_000) } else { PwSel::Lit(self.r.us(self.sc.pws.len())) }
  }
  fn rand_op(&mut self) -> Op {
    let p = self.p.clone();
    let w = [p.wmgr, p.wmgrdel, p.whas, p.wgen, p.wnewm, p.wnews, p.wopen, p.wchpw, p.wadd, p.wmnem, p.wkeys, p.wknets, p.wpub, p.wsign, p.wver, p.wclose, p.wpath, p.wreap, p.whurt, p.wcopy, p.wforeign, p.wbad, p.widle];
    let mut x = self.r.below(w.iter().map(|x| *x as u64).sum()) as u32;
    let mut k = 0;
    while x >= w[k] { x -= w[k]; k += 1; }
    let api = self.api();
    let (ns, nm, nk, nmn, nsig) = (self.sc.nslots, self.sc.nm, self.sc.nk, self.sc.nmn, self.sc.nsig);
    let m = self.r.us(nm);
    let kc = self.r.us(nk);
    let (src, dst) = (self.r.us(ns), self.r.us(ns));
    let pw = self.pwsel();
    match k {
      0 => { let cfg = self.cfg_for(api); Op::Mgr { api, m, cfg } }
      1 => Op::MgrDel { api, m },
      2 => Op::HasNet { api, m, net: self.any_net() },
      3 => { let l = self.lang(); Op::Gen { api, m, lang: if self.r.pct(30) { None } else { Some(l) }, dst: self.r.us(nmn) } }
      4 => {
        let mn = if self.r.pct(p.badmn) {
          if self.r.pct(50) { MnRef::Typo(self.r.us(nmn), self.r.u64() as u32 % 10_000) } else { MnRef::Lit(6 + self.r.us(5)) }
        } else if self.r.pct(50) { MnRef::Slot(self.r.us(nmn)) } else { MnRef::Lit(self.good_mn()) };
        let lang = if self.r.pct(p.badmn / 4) { Some(self.r.below(8) as u8) } else { None };
        Op::NewMnem { api, m, mn, lang, pw: self.r.us(self.sc.pws.len()), dst }
      }
      5 => { let seed = if self.r.pct(85) { self.r.us(3) } else { 3 + self.r.us(3) }; Op::NewSeed { api, m, seed, pw: self.r.us(self.sc.pws.len()), dst } }
      6 => Op::Open { api, m, src, pw, k: kc },
      7 => Op::ChPw { api, m, src, pw, np: self.r.us(self.sc.pws.len()), dst: if self.r.pct(60) { src } else { dst } },
      8 => Op::AddNet { api, m, src, pw, net: self.any_net(), dst: if self.r.pct(60) { src } else { dst } },
      9 => Op::Mnem { api, m, src, pw },
      10 => Op::Keys { api, m, src, pw },
      11 => if api == Api::R && self.r.pct(40) { Op::KHas { k: kc, net: self.any_net() } } else { Op::KNets { api, k: kc } },
      12 | 13 | 14 => {
        let (net, path) = self.net_path();
        match k {
          12 => Op::Pub { api, k: kc, net, path },
          13 => Op::Sign { api, k: kc, net, path, msg: self.r.us(self.sc.msgs.len()), dst: self.r.us(nsig) },
          _ => { let ch = self.chan(); Op::Ver { api, k: kc, net, path, msg: self.r.us(self.sc.msgs.len()), sig: self.r.us(nsig), ch } }
        }
      }
      15 => Op::KClose { api, k: kc },
      16 => {
        let r = &mut self.r;
        let ix = |r: &mut Rng| match r.below(6) { 0 => 0, 1 => 0x7fff_ffff, 2 => 0x8000_0000, 3 => u32::MAX, _ => r.below(1000) as u32 };
        let h = *r.pick(&[0, 1, 0, 1, 2, u32::MAX]);
        let p = match r.below(9) { 0 => PathOp::Eth(ix(r)), 1 => PathOp::Meta(ix(r)), 2 => PathOp::Ada(ix(r), h, ix(r)), 3 | 4 => PathOp::Btc(*r.pick(&[44, 49, 84]), r.pct(50), ix(r), h, ix(r)), _ => PathOp::Text(B(self.path_text())) };
        Op::Path { api, p }
      }
      17 => Op::Reap { n: self.r.range(1, 6) as usize },
      18 => Op::Hurt { src, dst, how: self.dmg() },
      19 => Op::Copy { src, dst },
      20 => { if self.sc.foreign.len() < 12 { let f = self.foreign(); self.sc.foreign.push(f); } Op::Foreign { f: self.r.us(self.sc.foreign.len()), dst } }
      21 => { let bad = self.r.pick(&[Bad::Utf8Pw, Bad::Utf8Mn, Bad::Utf8Path, Bad::NullMgr, Bad::NullKc, Bad::NullData, Bad::DelNull, Bad::Init]).clone(); Op::BadC { bad, m, k: kc, src } }
      _ => {
        let r = &mut self.r;
        let ns = *r.pick(&[1_000_000u64, 1_000_000_000, 10_000_000_000, 61_000_000_000, 301_000_000_000, 3_601_000_000_000, 86_401_000_000_000, 40 * 86_400_000_000_000]) + r.below(1_000_000_000);
        let wall = if r.pct(60) { 0 } else { *r.pick(&[-3_600_000_000_000i64, 3_600_000_000_000, -500_000_000_000_000_000, 5_000_000_000, -5_000_000_000, 31_536_000_000_000_000]) };
        Op::Idle { ns, wall }
      }
    }
  }
  fn net_path(&mut self) -> (u32, usize) {
    // a network and a path that belongs to it, most of the time
    let bad = self.r.pct(self.p.badpath);
    let n = self.sc.paths.len().min(9);
    let i = if bad { n * 2 / 3 + self.r.us(n - n * 2 / 3) } else { self.r.us(n * 2 / 3) };
    let net = if self.r.pct(5) { self.any_net() } else { self.sc.paths[i].c };
    (net, i)
  }
  fn cfg_for(&mut self, api: Api) -> usize {
    if api == Api::C { return 0; }
    let n = self.sc.cfgs.len();
    // devices with plug-ins come last
    if self.sc.plugs.len() > 0 && self.r.pct(75) { n - 3 + self.r.us(3) } else { self.r.us(n) }
  }
  fn sign_verify(&mut self, v: &mut Vec<Op>) {
    // a signature and its verification on the same coordinates, perhaps after a faulty channel
    let api = self.api();
    let k = self.r.us(self.sc.nk);
    let (net, path) = self.net_path();
    let (msg, sig) = (self.r.us(self.sc.msgs.len()), self.r.us(self.sc.nsig));
    v.push(Op::Sign { api, k, net, path, msg, dst: sig });
    for _ in 0..self.r.range(1, 3) {
      let ch = self.chan();
      let api2 = if self.r.pct(70) { api } else { self.api() };
      let k2 = if self.r.pct(75) { k } else { self.r.us(self.sc.nk) };
      let (net2, path2) = if self.r.pct(85) { (net, path) } else { self.net_path() };
      v.push(Op::Ver { api: api2, k: k2, net: net2, path: path2, msg, sig, ch });
    }
  }
  fn setup(&mut self, inc: usize, t: usize, threads: usize) -> Vec<Op> {
    let mut v = vec![];
    let p = self.p.clone();
    if t == 0 && p.c_pct > 0 { for m in 0..self.sc.nm { v.push(Op::Mgr { api: Api::C, m, cfg: 0 }); } }
    if p.c_pct < 100 {
      let n = self.sc.nm;
      for m in 0..n { let cfg = if m == 0 && self.r.pct(if self.p.plugfail > 50 { 15 } else { 50 }) { 0 } else { self.cfg_for(Api::R) }; v.push(Op::Mgr { api: Api::R, m, cfg }); }
    }
    let fill = if inc == 0 { self.sc.nslots } else { self.r.us(2) };
    if t == 0 || p.c_pct == 0 {
      if p.wgen + p.wnewm > 0 { let l = self.lang(); for dst in 0..self.sc.nmn.min(2) { let api = self.api(); let m = self.r.us(self.sc.nm); v.push(Op::Gen { api, m, lang: Some(l), dst }); } }
      for i in 0..fill {
        let dst = if inc == 0 { i } else { self.r.us(self.sc.nslots) };
        if self.sc.golden.iter().any(|g| g.0 == dst) { continue; }
        let api = self.api();
        let m = self.r.us(self.sc.nm);
        let pw = self.r.us(self.sc.pws.len());
        v.push(if self.r.pct(50) { let mn = if self.r.pct(40) { MnRef::Slot(self.r.us(self.sc.nmn.min(2))) } else { MnRef::Lit(self.good_mn()) }; Op::NewMnem { api, m, mn, lang: None, pw, dst } } else { Op::NewSeed { api, m, seed: self.r.us(3), pw, dst } });
      }
    }
    let _ = threads;
    for k in 0..self.sc.nk {
      if t == 0 { v.push(Op::Open { api: Api::C, m: 0, src: self.r.us(self.sc.nslots), pw: PwSel::Right, k }); }
      if p.c_pct < 100 && self.r.pct(60) { v.push(Op::Open { api: Api::R, m: self.r.us(self.sc.nm), src: self.r.us(self.sc.nslots), pw: PwSel::Right, k }); }
    }
    v
  }
  fn teardown(&mut self, t: usize, who: usize, rust: bool) -> Vec<Op> {
    let mut v = vec![];
    if rust { for k in 0..self.sc.nk { v.push(Op::KClose { api: Api::R, k }); } for m in 0..self.sc.nm { v.push(Op::MgrDel { api: Api::R, m }); } }
    if t == who {
      for k in 0..self.sc.nk { v.push(Op::KClose { api: Api::C, k }); }
      for m in 0..self.sc.nm { v.push(Op::MgrDel { api: Api::C, m }); }
      v.push(Op::Reap { n: 0 });
    }
    v
  }
  fn wrap(&mut self, v: Vec<Op>) -> Vec<OpN> { v.into_iter().map(|o| self.on(o)).collect() }
  fn ent(&mut self, quiet: bool) -> EntPlan {
    let p = self.p.clone();
    let r = &mut self.r;
    let some = |r: &mut Rng, m: u32| if m == 0 || r.pct(45) { 0 } else { r.below(m as u64 + 1) as u32 };
    let nosys = if r.pct(p.nosys) { Some(*r.pick(&[38, 1])) } else { None };
    let mut e = EntPlan { nosys, seed: r.u64(), eintr: some(r, p.eint), short: some(r, p.eshort), err: some(r, p.eerr), stall: some(r, p.estall), windows: vec![], explicit: None };
    if r.pct(p.windows) { for _ in 0..r.range(1, 4) { let a = r.below(60) as u32; let n = if r.pct(70) { r.range(1, 4) } else { r.range(4, 16) } as u32; e.windows.push((a, n, *r.pick(&[5, 11, 14, 22]))); } }
    // an outage that does not end within the life of the process
    if self.sc.prop == "C03" && self.r.pct(6) { e.windows.clear(); e.windows.push((self.r.below(30) as u32, u32::MAX / 2, 5)); }
    if quiet { e.windows.clear(); e.err = 0; }
    e
  }
  fn sched(&mut self, threads: usize) -> Sched {
    if threads == 1 { return Sched::Seq; }
    let r = &mut self.r;
    let mean = *r.pick(&[0, 7, 40, 200, 1000, 5000, 30_000, 200_000]);
    let special = *r.pick(&[0, 20, 100, 400, 800]);
    Sched::Rand { seed: r.u64(), mean, special: if mean == 0 { special.max(100) } else { special } }
  }
  fn crash(&mut self, phases: &[Vec<Vec<OpN>>]) -> Option<(u32, CrashAt)> {
    let v: Vec<u32> = phases.iter().flatten().flatten().flat_map(|o| if let Op::Fork { ops } = &o.op { ops.iter().collect() } else { vec![o] }).filter(|o| !matches!(o.op, Op::Hurt { .. } | Op::Copy { .. } | Op::Foreign { .. } | Op::Idle { .. } | Op::KClose { .. } | Op::MgrDel { .. })).map(|o| o.u).collect();
    if v.is_empty() { return None; }
    let n = v.len();
    let u = v[n / 4 + self.r.us(n - n / 4)];
    let r = &mut self.r;
    Some((u, match r.below(10) { 0..=3 => CrashAt::Step(r.logu(300_000)), 4 | 5 => CrashAt::Alloc(r.logu(2000) as u32), 6 => CrashAt::Draw(r.below(3) as u32), 7 => CrashAt::Oom(r.logu(2000) as u32), _ => CrashAt::Ret }))
  }

  fn incarnation(&mut self, idx: usize, last: bool) -> Inc {
    let p = self.p.clone();
    let prop = self.sc.prop.clone();
    let threads = self.r.range(p.threads.0, p.threads.1) as usize;
    let cold = prop == "C01" && self.r.pct(20);
    let mut phases: Vec<Vec<Vec<OpN>>> = vec![];
    // leak rounds: the same program over and over
    if !self.sc.full_kdf && ((prop == "C10" && self.r.pct(45)) || (prop == "C16" && self.r.pct(8))) { return self.rounds(threads); }
    if !self.sc.full_kdf && ((prop == "C16" && self.r.pct(12)) || (prop == "C15" && self.r.pct(4)) || (prop == "C10" && self.r.pct(3))) { return self.marathon(); }
    let agains = match &prop[..] { "C16" | "C08" => 8, "C10" | "C13" | "C11" => 2, "C01" | "C09" => 0, "C04" | "C05" | "C06" | "C07" | "C12" | "C14" | "C15" | "C20" => 1, _ => 0 };
    if !self.sc.full_kdf && self.r.pct(agains) { return self.again(); }
    let sweeps = match &prop[..] { "C16" => 10, "C01" | "C08" | "C09" | "C13" => 3, "C05" | "C06" | "C15" => 1, _ => 0 };
    if !self.sc.full_kdf && self.r.pct(sweeps) { return self.sweep(threads, sweeps > 5); }
    if !cold {
      let ph = (0..threads).map(|t| { let v = self.setup(idx, t, threads); self.wrap(v) }).collect();
      phases.push(ph);
    }
    let nph = self.r.range(1, 3);
    let total = self.r.range(p.ops.0, p.ops.1);
    for _ in 0..nph {
      let mut ph = vec![];
      for t in 0..threads {
        let mut v = vec![];
        if cold && phases.is_empty() {
          let m = if self.r.pct(40) { 0 } else { t % self.sc.nm };
          v.push(Op::Mgr { api: Api::C, m, cfg: 0 });
          let mn = self.good_mn();
          v.push(Op::NewMnem { api: Api::C, m, mn: MnRef::Lit(mn), lang: None, pw: self.r.us(self.sc.pws.len()), dst: t % self.sc.nslots });
        }
        let n = (total / nph / if threads > 3 { 2 } else { 1 }).max(1);
        while (v.len() as u64) < n {
          if (p.wver > 20 && self.r.pct(35)) || (p.wver > 0 && self.r.pct(8)) { self.sign_verify(&mut v); continue; }
          if self.r.pct(6) && !v.is_empty() { let o = v[self.r.us(v.len())].clone(); v.push(o); continue; } // the same call again
          let o = self.rand_op();
          match &o {
            // damage is followed by a call on the damaged bytes
            Op::Hurt { dst, .. } | Op::Foreign { dst, .. } => {
              let d = *dst;
              v.push(o);
              for _ in 0..self.r.range(1, 3) {
                let api = self.api();
                let (m, k) = (self.r.us(self.sc.nm), self.r.us(self.sc.nk));
                let pw = if self.r.pct(93) { PwSel::Right } else { self.pwsel() };
                let np = self.r.us(self.sc.pws.len());
                let net = self.any_net();
                v.push(match self.r.below(7) { 0 | 1 => Op::Open { api, m, src: d, pw, k }, 2 => Op::ChPw { api, m, src: d, pw, np, dst: d }, 3 => Op::AddNet { api, m, src: d, pw, net, dst: d }, 4 => Op::Mnem { api, m, src: d, pw }, 5 => Op::Keys { api, m, src: d, pw }, _ => Op::Open { api, m, src: d, pw, k } });
              }
            }
            // use what was opened
            Op::Open { api, k, .. } if self.r.pct(50) => {
              let (api, k) = (*api, *k);
              v.push(o);
              v.push(Op::KNets { api, k });
              let (net, path) = self.net_path();
              v.push(Op::Pub { api, k, net, path });
            }
            _ => v.push(o),
          }
        }
        ph.push(self.wrap(v));
      }
      phases.push(ph);
    }
    // the process forks now and then
    let forks = match &prop[..] { "C02" => 35, "C03" | "C05" | "C08" | "C15" => 5, "C01" | "C16" => 0, _ => 1 };
    if threads == 1 && !self.sc.full_kdf && self.r.pct(forks) {
      for _ in 0..self.r.range(1, 2) {
        let mut v = vec![];
        while v.len() < 6 {
          let o = self.rand_op();
          if matches!(o, Op::HasNet { .. } | Op::Gen { .. } | Op::NewMnem { .. } | Op::NewSeed { .. } | Op::ChPw { .. } | Op::AddNet { .. } | Op::Mnem { .. } | Op::Keys { .. } | Op::KNets { .. } | Op::KHas { .. } | Op::Pub { .. } | Op::Sign { .. } | Op::Ver { .. } | Op::Path { .. }) { v.push(o); }
          if self.r.pct(25) { break; }
        }
        let ops = self.wrap(v);
        let f = self.on(Op::Fork { ops });
        let n = phases.len();
        let ph = &mut phases[1.min(n - 1)..];
        let i = self.r.us(ph.len());
        let at = self.r.us(ph[i][0].len() + 1);
        ph[i][0].insert(at, f);
      }
    }
    // keychains an application builds by itself from exported keys
    let mut r2 = Rng::new(mix(self.sc.seed ^ 0x5ea1 ^ (idx as u64) << 20));
    if r2.pct(35) {
      for o in phases.iter_mut().flatten().flatten() {
        if let Op::Open { api: Api::R, m, src, pw, k } = &o.op {
          if r2.pct(50) { o.op = Op::Restore { m: *m, src: *src, pw: pw.clone(), k: *k }; }
        }
      }
    }
    // the cipher is used by itself
    let seals = match &prop[..] { "C02" | "C03" | "C04" | "C06" | "C08" => 25, "C09" | "C11" | "C13" | "C14" => 0, _ => 8 };
    if p.c_pct < 100 && r2.pct(seals) {
      let (ns, np, nm) = (self.sc.nslots, self.sc.pws.len(), self.sc.msgs.len());
      for ph in phases.iter_mut() {
        for th in ph.iter_mut() {
          for _ in 0..1 + th.len() / 8 {
            let at = r2.us(th.len() + 1);
            let pw = if r2.pct(50) { PwSel::Right } else if r2.pct(60) { PwSel::Near(r2.u64() as u32 % 100_000) } else { PwSel::Lit(r2.us(np)) };
            let op = if r2.pct(45) { Op::Seal { msg: r2.us(nm), pw: r2.us(np), dst: r2.us(ns) } } else { Op::Unseal { src: r2.us(ns), pw } };
            let o = self.on(op);
            th.insert(at, o);
          }
        }
      }
    }
    // what storage holds at the end is looked at once more
    if last {
      let mut v = vec![];
      for s in 0..self.sc.nslots.min(12) {
        let api = if self.p.c_pct >= 50 { Api::C } else { Api::R };
        let (m, k) = (self.r.us(self.sc.nm), self.r.us(self.sc.nk));
        v.push(Op::Open { api, m, src: s, pw: PwSel::Right, k });
        if self.r.pct(60) { v.push(Op::KNets { api, k }); let (net, path) = self.net_path(); v.push(Op::Pub { api, k, net, path }); }
        if self.r.pct(40) { v.push(Op::Mnem { api, m, src: s, pw: PwSel::Right }); }
        if self.r.pct(40) { v.push(Op::Keys { api, m, src: s, pw: PwSel::Right }); }
      }
      let v = self.wrap(v);
      phases.push(vec![v]);
    }
    if self.r.pct(40) { let who = self.r.us(threads); let ph = (0..threads).map(|t| { let v = self.teardown(t, who, p.c_pct < 100); self.wrap(v) }).collect(); phases.push(ph); }
    let quiet = matches!(&prop[..], "C08");
    let mut ent = self.ent(quiet);
    // reading works while the source is dead: the second life of the process has no entropy at all
    if prop == "C08" && idx == 1 && self.r.pct(60) { ent.err = 1000; ent.eintr = 0; ent.short = 0; ent.stall = 0; }
    let crash = if self.r.pct(p.crash) && !last { self.crash(&phases) } else { None };
    Inc { threads, phases, ent, sched: self.sched(threads), crash, init: self.r.pct(70), clock0: if self.r.pct(10) { self.r.u64() >> 2 } else { self.r.below(1 << 50) }, marks: vec![] }
  }
  fn rounds(&mut self, threads: usize) -> Inc {
    let mut prog: Vec<Vec<Vec<Op>>> = vec![];
    prog.push((0..threads).map(|t| self.setup(0, t, threads)).collect());
    let n = self.r.range(3, 10);
    prog.push((0..threads).map(|_| {
      let mut v = vec![];
      for _ in 0..n {
        if self.r.pct(12) { self.sign_verify(&mut v); }
        let o = self.rand_op();
        if !matches!(o, Op::Mgr { .. } | Op::MgrDel { .. }) { v.push(o); }
      }
      v
    }).collect());
    let who = self.r.us(threads);
    prog.push((0..threads).map(|t| self.teardown(t, who, true)).collect());
    let reps = 4;
    let mut phases = vec![];
    let mut marks = vec![];
    for _ in 0..reps {
      for ph in &prog { let ph = ph.iter().map(|v| v.iter().cloned().map(|o| self.on(o)).collect()).collect(); phases.push(ph); }
      marks.push(phases.len());
    }
    phases.push(vec![]);
    let ent = self.ent(false);
    Inc { threads, phases, ent, sched: self.sched(threads), crash: None, init: self.r.pct(70), clock0: 0, marks }
  }
  /// a great number of different things asked of the same handles, and then again in another order
  fn sweep(&mut self, threads: usize, long: bool) -> Inc {
    let threads = if threads > 1 && self.r.pct(40) { 1 } else { threads.min(3) };
    let mut phases = vec![];
    let ph = (0..threads).map(|t| { let v = self.setup(0, t, threads); self.wrap(v) }).collect();
    phases.push(ph);
    let n = match self.r.below(if long { 10 } else { 7 }) { 0..=3 => self.r.range(20, 60), 4..=6 => self.r.range(60, 140), 7 | 8 => self.r.range(140, 300), _ => self.r.range(300, 700) } as usize / if threads > 1 { 2 } else { 1 };
    let kind = self.r.below(10);
    let (k, m) = (self.r.us(self.sc.nk), self.r.us(self.sc.nm));
    let api = if threads > 1 { Api::C } else { self.api() };
    let mut parts: Vec<Vec<Op>> = vec![];
    if kind < 7 {
      // addresses of one wallet
      let p0 = self.sc.paths.len();
      let nets: Vec<u32> = if self.r.pct(60) { vec![*self.r.pick(&[BTC, ETH, ADA])] } else { vec![BTC, ETH, ADA] };
      let how = self.r.below(4);
      let first = self.r.below(3) as u32 * 1000;
      for i in 0..n as u32 {
        let net = nets[i as usize % nets.len()];
        let p = match how { 0 => KP { p: HARD + 44, c: net, a: HARD, h: 0, i: first + i }, 1 => KP { p: HARD + 44, c: net, a: HARD + first + i, h: 0, i: 0 }, 2 => KP { p: HARD + 44, c: net, a: HARD + i / 40, h: i & 1, i: i / 2 % 20 }, _ => self.path(net, false) };
        self.sc.paths.push(p);
      }
      let what = self.r.below(4);
      let (nmsg, nsig) = (self.sc.msgs.len(), self.sc.nsig);
      let mut op = |g: &mut Gen, i: usize| {
        let (net, path) = (g.sc.paths[p0 + i].c, p0 + i);
        match if what == 3 { g.r.below(3) } else { what } {
          0 => Op::Pub { api, k, net, path },
          1 => Op::Sign { api, k, net, path, msg: g.r.us(nmsg.min(4)), dst: g.r.us(nsig) },
          _ => Op::Ver { api, k, net, path, msg: g.r.us(nmsg.min(4)), sig: g.r.us(nsig), ch: vec![] },
        }
      };
      for _ in 0..threads {
        let mut v: Vec<Op> = (0..n).map(|i| op(self, i)).collect();
        for _ in 0..n.min(60) { let i = if self.r.pct(50) { self.r.us(n) } else { self.r.us(n.min(8)) }; v.push(op(self, i)); }
        parts.push(v);
      }
    } else {
      // wallets of one manager; wrong passwords
      let slots = if kind == 9 { self.sc.nslots } else { n.min(150) };
      let s0 = self.sc.nslots;
      self.sc.nslots = self.sc.nslots.max(s0 + slots);
      if kind < 9 {
        let mut v = vec![];
        for i in 0..slots {
          let pw = self.r.us(self.sc.pws.len());
          v.push(if self.r.pct(60) { Op::NewMnem { api, m, mn: MnRef::Lit(self.good_mn()), lang: None, pw, dst: s0 + i } } else { Op::NewSeed { api, m, seed: self.r.us(3), pw, dst: s0 + i } });
        }
        phases.push((0..threads).map(|t| { let o = if t == 0 { v.clone() } else { vec![] }; self.wrap(o) }).collect());
      }
      for _ in 0..threads {
        let mut v = vec![];
        for i in 0..n + n.min(60) {
          let src = if kind == 9 { self.r.us(slots) } else if i < slots { s0 + i } else { let few = if self.r.pct(50) { slots } else { slots.min(8) }; s0 + self.r.us(few) };
          let pw = if kind == 9 && self.r.pct(90) || self.r.pct(10) { self.pwsel() } else { PwSel::Right };
          v.push(match self.r.below(6) { 0..=3 => Op::Open { api, m, src, pw, k }, 4 => Op::Keys { api, m, src, pw }, _ => Op::Mnem { api, m, src, pw } });
          if self.r.pct(25) { let (net, path) = self.net_path(); v.push(Op::Pub { api, k, net, path }); }
        }
        parts.push(v);
      }
    }
    phases.push(parts.into_iter().map(|v| self.wrap(v)).collect());
    let ent = self.ent(true);
    Inc { threads, phases, ent, sched: self.sched(threads), crash: None, init: true, clock0: 0, marks: vec![] }
  }
  /// one read-only call, very many times
  fn again(&mut self) -> Inc {
    let mut phases = vec![];
    let v = self.setup(0, 0, 1);
    phases.push(vec![self.wrap(v)]);
    let mut v = vec![];
    for _ in 0..self.r.range(1, 3) {
      for _ in 0..self.r.below(5) { let o = self.rand_op(); v.push(o); }
      let mut op = self.rand_op();
      for _ in 0..40 {
        let good = match op { Op::HasNet { .. } | Op::KNets { .. } | Op::KHas { .. } | Op::Pub { .. } | Op::Sign { .. } | Op::Ver { .. } | Op::Path { .. } => true, Op::Open { .. } | Op::Mnem { .. } | Op::Keys { .. } => self.r.pct(40), _ => false };
        if good { break; }
        op = self.rand_op();
      }
      let cheap = matches!(op, Op::HasNet { .. } | Op::KNets { .. } | Op::KHas { .. } | Op::Path { .. });
      let n = match self.r.below(10) { 0..=3 => self.r.range(250, 600), 4..=6 => self.r.range(1000, 1300), 7 | 8 => if cheap { 66_000 } else { self.r.range(1300, 4300) }, _ => if cheap { 140_000 } else { 5000 } } as u32;
      v.push(Op::Again { n, op: Box::new(op) });
    }
    for _ in 0..self.r.range(3, 12) { let o = self.rand_op(); v.push(o); }
    phases.push(vec![self.wrap(v)]);
    let ent = self.ent(true);
    Inc { threads: 1, phases, ent, sched: Sched::Seq, crash: None, init: true, clock0: 0, marks: vec![] }
  }
  /// a long life: hundreds of calls on the same handles
  fn marathon(&mut self) -> Inc {
    let threads = 1;
    let mut phases = vec![];
    let v = self.setup(0, 0, 1);
    phases.push(vec![self.wrap(v)]);
    let n = match self.r.below(10) { 0 | 1 => self.r.range(1030, 1300), 2 => self.r.range(2000, 4500), _ => self.r.range(150, 420) };
    let mut v = vec![];
    let few: Vec<Op> = (0..self.r.range(2, 6)).map(|_| self.rand_op()).collect();
    for _ in 0..n { let o = if self.r.pct(60) { self.r.pick(&few).clone() } else { self.rand_op() }; v.push(o); }
    phases.push(vec![self.wrap(v)]);
    let ent = self.ent(true);
    Inc { threads, phases, ent, sched: Sched::Seq, crash: None, init: true, clock0: 0, marks: vec![] }
  }
}

pub fn scenario(prop: &str, seed: u64) -> Scenario {
  let mut r = Rng::new(seed ^ fnv(prop.as_bytes()));
  let mut p = profile(prop, &mut r);
  let full = r.pct(p.full) || r.pct(p.golden);
  if full { p.threads = (1, 2); p.ops = (3, 7); p.incs = (p.incs.0.min(2), p.incs.1.min(2)); }
  let sc = Scenario {
    prop: prop.into(), seed, full_kdf: full, hash_seed: r.u64(), ent_seed: r.u64(), pws: vec![], msgs: vec![], seeds: vec![], mns: vec![], paths: vec![], cfgs: vec![], plugs: vec![], foreign: vec![], golden: vec![], init: vec![],
    nslots: r.range(2, if full { 2 } else { 5 }) as usize, nmn: if full { 1 } else { 3 }, nk: r.range(1, if full { 1 } else { 4 }) as usize, nm: r.range(1, if full { 1 } else { 3 }) as usize, nsig: 4, incs: vec![],
  };
  let mut g = Gen { r, sc, u: 0, p };
  // many handles alive at once
  let hoard = !full && (prop == "C16" && g.r.pct(5) || prop == "C10" && g.r.pct(1));
  if hoard { g.sc.nk = g.r.range(40, 280) as usize; g.sc.nm = g.r.range(1, 140) as usize; }
  let np = g.r.range(3, 7);
  for i in 0..np {
    let p = if i > 0 && g.r.pct(30) { let b = g.sc.pws[g.r.us(i as usize)].clone(); crate::exec::near(&b, g.r.u64() as u32) } else { g.password() };
    g.sc.pws.push(p);
  }
  for i in 0..7 {
    let n = match i { 0 => 0, 1 => 32, 2 => *g.r.pick(&[1, 31, 33, 63, 64, 65, 127, 128, 129, 135, 136, 137]), 3 => g.r.us(300), 4 => g.r.us(2000), 5 => if g.r.pct(10) { 100_000 } else { g.r.us(40) }, _ => 32 };
    let b = B(if i == 6 { vec![0; n] } else { g.r.bytes(n) });
    g.sc.msgs.push(b);
  }
  for i in 0..6 {
    let n = if i < 3 { 64 } else { *g.r.pick(&[0, 1, 16, 32, 63, 65, 96, 128, 1000]) };
    let b = if i == 2 && g.r.pct(20) { vec![0; n] } else { g.r.bytes(n) };
    g.sc.seeds.push(B(b));
  }
  g.mn_lits();
  // devices
  g.sc.cfgs.push(Cfg::All);
  if g.p.cfgs >= 1 {
    g.sc.cfgs.push(Cfg::Nets(vec![ADA]));
    for _ in 0..3 {
      let mut v = vec![];
      for n in [BTC, ETH, ADA].iter() { if g.r.pct(55) { v.push(*n); } }
      if g.r.pct(10) { v.push(77); }
      g.r.shuffle(&mut v);
      g.sc.cfgs.push(Cfg::Nets(v));
    }
  }
  if g.p.cfgs >= 2 {
    let n = g.r.range(1, 3);
    for i in 0..n {
      let id = *g.r.pick(&[7 + i as u32, 0x8000_0002 + i as u32, u32::MAX - i as u32, 100 + i as u32, 60, 0x717, 0x8000_003d, 0x8001_0000, 0]);
      let (min, max) = *g.r.pick(&[(96, 256), (128, 256), (96, 256), (128, 512), (96, 512), (128, 256), (96, 256), (96, 512), (96, 256), (160, 256), (256, 512), (256, 256), (96, 128), (1, 4096), (0, 0), (100, 300)]);
      let faults = if g.r.pct(g.p.plugfail) { (0..g.r.range(1, 7)).map(|_| PlugFault { call: *g.r.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 3, 4, 4]), nth: g.r.logu(8) as u32, panic: g.r.pct(45) }).collect() } else { vec![] };
      let dlen = *g.r.pick(&[4, 32, 77, 96, 200]);
      g.sc.plugs.push(Plug { id, min, max, faults, dlen });
    }
    let (mut left, mut tries) = (3, 0);
    while left > 0 {
      let mut b = vec![];
      for n in [BTC, ETH, ADA].iter() { if g.r.pct(60) { b.push(*n); } }
      let mut plugs: Vec<usize> = (0..g.sc.plugs.len()).filter(|_| g.r.pct(75)).collect();
      g.r.shuffle(&mut plugs);
      // ids must differ
      let mut seen = vec![];
      plugs.retain(|i| { let id = g.sc.plugs[*i].id; if seen.contains(&id) { false } else { seen.push(id); true } });
      g.sc.cfgs.push(Cfg::Custom { builtin: b, plugs });
      tries += 1;
      if tries < 12 && g.r.pct(85) && { let c = CfgInfo::new(&g.sc, g.sc.cfgs.len() - 1); !c.valid() || c.plugs.is_empty() } { g.sc.cfgs.pop(); continue; }
      left -= 1;
    }
    let mut ids: BTreeMap<u32, ()> = BTreeMap::new();
    for i in 0..g.sc.plugs.len() { while ids.contains_key(&g.sc.plugs[i].id) { g.sc.plugs[i].id += 11; } ids.insert(g.sc.plugs[i].id, ()); }
  }
  // paths: two thirds good ones, one third unusual
  let mut nets = vec![BTC, ETH, ADA];
  for p in &g.sc.plugs { nets.push(p.id); }
  for i in 0..9 { let n = nets[i % nets.len()]; let bad = i >= 6;
    let mut p = g.path(n, bad);
    // addresses of one account differ in one place only
    let old: Vec<KP> = g.sc.paths.iter().enumerate().filter(|(j, q)| *j < 6 && q.c == n).map(|(_, q)| *q).collect();
    if !bad && !old.is_empty() && g.r.pct(65) {
      let q = *g.r.pick(&old);
      p = match g.r.below(6) { 0 | 1 => KP { h: 1 - q.h, ..q }, 2 => KP { i: (q.i + 1) & 0x7fff_ffff, ..q }, 3 => KP { a: HARD + ((q.a + 1) & 0x7fff_ffff), ..q }, 4 => KP { i: q.i ^ (1 << g.r.below(31)), ..q }, _ => KP { p: p.p, a: HARD + (q.i & 0x7fff_ffff), i: q.a & 0x7fff_ffff, ..q } };
    }
    g.sc.paths.push(p);
  }
  if full && g.p.golden > 0 { for s in 0..g.sc.nslots { if g.r.pct(60) { let i = g.r.us(crate::golden::count()); g.sc.golden.push((s, i)); } } }
  let n = g.r.range(g.p.incs.0, g.p.incs.1) as usize;
  for i in 0..n { let inc = g.incarnation(i, i + 1 == n); g.sc.incs.push(inc); }
  g.sc
}
