#![allow(unexpected_cfgs, unknown_lints, invalid_runtime_symbol_definitions, static_mut_refs)]
#[macro_use]
extern crate serde_derive;
extern crate rust_keychain;
mod drive;
mod exec;
mod gen;
mod golden;
mod model;
mod oracle;
mod rt;
mod secrets;
mod types;

#[global_allocator]
static A: rt::Alloc = rt::Alloc;

fn main() {
  for v in ["RUST_BACKTRACE", "RUST_LIB_BACKTRACE"] { std::env::remove_var(v); }
  let a: Vec<String> = std::env::args().collect();
  let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
  let num = |k: &str, d: u64| opt(k).map_or(d, |s| s.parse().expect("number"));
  let dir = opt("--dir").unwrap_or_else(|| "/verif".into());
  drive::load_known(&dir);
  let code = match a.get(1).map(|s| &s[..]) {
    Some("run") => {
      let p = drive::Plan {
        prop: opt("--property").expect("--property"), tier: opt("--tier").unwrap_or_else(|| "quick".into()), seed: num("--seed", 1), runs: num("--runs", 1000), secs: num("--secs", 60),
        workers: num("--workers", 8), dir, dump: a.iter().any(|x| x == "--dump"),
      };
      drive::batch(&p)
    }
    Some("replay") => { rt::log_init(192 << 20); drive::replay(&a[2]) }
    Some("show") => {
      rt::log_init(192 << 20);
      let sc = gen::scenario(&a[2], a[3].parse().expect("seed"));
      let r = drive::run(&sc);
      for l in drive::story(&sc, &r) { println!("{}", l); }
      for v in &r.viols { println!("VIOL {} {} inc {} #{} {:?}: {}", v.class, v.kind, v.inc, v.u, v.why, v.msg); }
      println!("{:016x}", r.hash);
      0
    }
    _ => { eprintln!("usage: kcsim run --property C01 [--tier quick] [--seed 1] [--runs n] [--secs n] | replay FILE | show PROPERTY SEED"); 2 }
  };
  rt::exit_now(code);
}
