use std::collections::BTreeMap;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::{Value, json};
use symrt::{Assignment, Stats};

use crate::checks;
use crate::session::{Ctx, Found, Tier};

fn bits(v: &[bool]) -> String {
  v.iter().rev().map(|b| if *b { '1' } else { '0' }).collect()
}
fn unbits(s: &str) -> Vec<bool> {
  s.chars().rev().map(|c| c == '1').collect()
}
fn model_json(m: &Assignment) -> Value {
  Value::Object(m.iter().map(|(k, v)| (k.clone(), Value::String(bits(v)))).collect())
}
fn model_from(v: &Value) -> Assignment {
  v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), unbits(v.as_str().unwrap()))).collect()
}

fn verif() -> PathBuf {
  std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/..")).canonicalize().unwrap()
  })
}
fn seed() -> u64 {
  std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn ctx(pid: &str, tier: Tier, shard: u64, nshards: u64, secs: u64) -> Ctx {
  Ctx {
    pid: pid.into(),
    tier,
    shard,
    nshards,
    seed: seed(),
    deadline: Instant::now() + Duration::from_secs(secs),
    only: None,
    filter: std::env::var("VP_FILTER").ok(),
    stats: Stats::default(),
    units: 0,
    units_skipped: 0,
    incomplete_units: Default::default(),
    concrete_replays: 0,
    functions: Default::default(),
    samples: vec![],
    notes: Default::default(),
    found: vec![],
    max_paths: 20_000,
    progress: std::env::var_os("VP_PROGRESS").map(Into::into),
  }
}

fn report(cx: &Ctx) -> Value {
  let s = &cx.stats;
  json!({
    "units": cx.units, "skipped": cx.units_skipped,
    "incomplete": cx.incomplete_units, "concrete_replays": cx.concrete_replays,
    "functions": cx.functions, "samples": cx.samples, "notes": cx.notes,
    "stats": {"paths": s.paths, "paths_aborted": s.paths_aborted, "branches": s.branches, "forks": s.forks,
      "queries": s.queries, "sat": s.sat, "unsat": s.unsat, "unknown": s.unknown, "checks": s.checks,
      "checks_const": s.checks_const, "sym_vars": s.sym_vars, "solver_us": s.solver_time.as_micros() as u64},
    "found": cx.found.iter().map(|Found { unit, v, reproduced }| json!({
      "unit": unit, "key": v.key, "detail": v.detail, "model": model_json(&v.model), "reproduced": reproduced
    })).collect::<Vec<_>>(),
  })
}

static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// A worker's exit that is the analysis' own doing: a panic in its code, or a crash.
fn crashed(st: &std::process::ExitStatus, err: &str) -> bool {
  use std::os::unix::process::ExitStatusExt;
  matches!(st.signal(), Some(6 | 7 | 11)) || (st.code() == Some(101) && err.lines().any(|l| l.starts_with("panicked at /repo/crates/") || l.starts_with("called from flowistry")))
}

/// Of a panic in the compiler: whose call that was (the analysis', or this harness').
fn caller(i: &std::panic::PanicHookInfo<'_>) -> String {
  let at = i.location().map_or("", |l| l.file());
  if !at.starts_with("compiler/") && !at.starts_with("/rustc") {
    return String::new();
  }
  let bt = std::backtrace::Backtrace::force_capture().to_string();
  let frames = bt.lines().filter_map(|l| Some(l.trim().split_once(": ")?.1.trim_start_matches(['<', '&'])));
  let frames = frames.filter(|f| !f.starts_with("vp_harness::driver::"));
  let krate = |f: &str| f.split("::").next().unwrap().to_string();
  let mut ours = frames.map(krate).filter(|k| k.starts_with("flowistry") || ["symrt", "indexical"].contains(&k.as_str()) || k == "vp_harness");
  ours.next().map_or(String::new(), |k| format!("\ncalled from {k}"))
}

/// Runs one worker again after it crashed, to see whether it does so at the same point.
fn again(args: &[String], dir: &Path) -> Option<(String, String)> {
  std::fs::create_dir_all(dir).unwrap();
  let progress = dir.join("again.at");
  let o = Command::new(std::env::current_exe().unwrap())
    .args(args)
    .arg(dir.join("again.json"))
    .env("VP_PROGRESS", &progress)
    .current_dir(dir)
    .stdin(Stdio::null())
    .output()
    .unwrap();
  let err = String::from_utf8_lossy(&o.stderr).into_owned();
  crashed(&o.status, &err).then(|| (std::fs::read_to_string(progress).unwrap_or_default(), err))
}

pub fn main() {
  let a: Vec<String> = std::env::args().collect();
  let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
  let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
  match &a[1 ..] {
    ["worker", pid, t, shard, n, secs, out] => {
      if std::env::var_os("VP_PANIC").is_none() {
        std::panic::set_hook(Box::new(|i| *LAST_PANIC.lock().unwrap() = format!("{i}{}", caller(i))));
      }
      let mut cx = ctx(pid, tier(t), shard.parse().unwrap(), n.parse().unwrap(), secs.parse().unwrap());
      let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| checks::run(&mut cx)));
      if run.is_err() {
        eprintln!("\n{}", LAST_PANIC.lock().unwrap());
        std::process::exit(101)
      }
      std::fs::write(out, serde_json::to_string(&report(&cx)).unwrap()).unwrap();
    }
    ["run", pid, t] => std::process::exit(run(pid, t)),
    ["replay", file] => std::process::exit(replay(file)),
    ["dump", file] => checks::dump(file),
    _ => {
      eprintln!("usage: vp-harness run <PID> quick|thorough | replay <file> | dump <file.rs>");
      std::process::exit(2)
    }
  }
}

fn replay(file: &str) -> i32 {
  let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
  let pid = v["property"].as_str().unwrap();
  if let Some(a) = v["worker"].as_array() {
    let a: Vec<String> = a.iter().map(|s| s.as_str().unwrap().to_string()).collect();
    let dir = std::env::temp_dir().join(format!("vp-replay-{}", std::process::id()));
    let r = again(&a, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    return match r {
      Some((at, err)) => {
        println!("reproduced: crash at {at}\n{err}");
        1
      }
      None => {
        println!("not reproduced");
        0
      }
    };
  }
  let t = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
  let mut cx = ctx(pid, t, 0, 1, 3600);
  cx.only = Some((v["unit"].as_str().unwrap().into(), model_from(&v["inputs"])));
  if std::env::var_os("VP_PANIC").is_none() {
    std::panic::set_hook(Box::new(|_| {}));
  }
  checks::run(&mut cx);
  let hits: Vec<_> = cx.found.iter().filter(|f| f.v.key == v["key"].as_str().unwrap()).collect();
  for h in &hits {
    println!("reproduced {}: {}\n{}", h.unit, h.v.key, h.v.detail);
  }
  if hits.is_empty() {
    println!("not reproduced");
    0
  } else {
    1
  }
}

fn known(pid: &str) -> Vec<(String, String)> {
  let f = verif().join("known_findings.txt");
  let mut out = vec![];
  for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
    // known: property=<id> key=<key> <what fails>
    if let Some(r) = l.strip_prefix("known: ") {
      let mut it = r.splitn(3, ' ');
      let p = it.next().unwrap_or("").trim_start_matches("property=");
      let k = it.next().unwrap_or("").trim_start_matches("key=");
      if p == pid {
        out.push((k.into(), it.next().unwrap_or("").into()));
      }
    }
  }
  out
}

fn run(pid: &str, t: &str) -> i32 {
  let start = Instant::now();
  let Some(info) = checks::info(pid) else {
    eprintln!("unknown property {pid}");
    return 2;
  };
  let n: u64 = std::env::var("VP_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
  let secs: u64 = match t {
    "thorough" => std::env::var("VP_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(3000),
    _ => 420,
  };
  let dir = std::env::temp_dir().join(format!("vp-{pid}-{}", std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  let exe = std::env::current_exe().unwrap();
  let mut kids = vec![];
  for i in 0 .. n {
    let out = dir.join(format!("{i}.json"));
    let err = std::fs::File::create(dir.join(format!("{i}.err"))).unwrap();
    let args: Vec<String> = ["worker", pid, t, &i.to_string(), &n.to_string(), &secs.to_string()].map(String::from).to_vec();
    let c = Command::new(&exe)
      .args(&args)
      .arg(&out)
      .env("VP_PROGRESS", dir.join(format!("{i}.at")))
      .current_dir(&dir)
      .stdin(Stdio::null())
      .stdout(Stdio::null())
      .stderr(err)
      .spawn()
      .unwrap();
    kids.push((c, out, i, args));
  }
  let mut parts = vec![];
  let mut broken = vec![];
  let mut crashes = vec![];
  for (mut c, out, i, args) in kids {
    // a worker stops by itself unless the code under test does not return
    let last = start + Duration::from_secs(secs + if t == "thorough" { 1200 } else { 200 });
    let st = loop {
      match c.try_wait().unwrap() {
        Some(st) => break st,
        None if Instant::now() > last => {
          let _ = c.kill();
          break c.wait().unwrap();
        }
        None => std::thread::sleep(Duration::from_millis(20)),
      }
    };
    match std::fs::read_to_string(&out) {
      Ok(s) if st.success() => parts.push(serde_json::from_str::<Value>(&s).unwrap()),
      _ => {
        let mut e = String::new();
        let _ = std::fs::File::open(dir.join(format!("{i}.err"))).and_then(|mut f| f.read_to_string(&mut e));
        let at = std::fs::read_to_string(dir.join(format!("{i}.at"))).unwrap_or_default();
        if crashed(&st, &e)
          && let Some((at2, e)) = again(&args, &dir)
          && at == at2
        {
          crashes.push((at, e, args));
          continue;
        }
        broken.push(format!("worker {i} at {at}: {st:?}\n{}", e.chars().rev().take(3000).collect::<String>().chars().rev().collect::<String>()));
      }
    }
  }
  let _ = std::fs::remove_dir_all(&dir);
  let sum = |k: &str| parts.iter().map(|p| p["stats"][k].as_u64().unwrap()).sum::<u64>();
  let top = |k: &str| parts.iter().map(|p| p[k].as_u64().unwrap()).sum::<u64>();
  let union = |k: &str| {
    let mut s = std::collections::BTreeSet::new();
    for p in &parts {
      for x in p[k].as_array().unwrap() {
        s.insert(x.as_str().unwrap().to_string());
      }
    }
    s
  };
  let mut notes: BTreeMap<String, u64> = BTreeMap::new();
  for p in &parts {
    for (k, v) in p["notes"].as_object().unwrap() {
      *notes.entry(k.clone()).or_default() += v.as_u64().unwrap();
    }
  }
  let known = known(pid);
  let mut seen_known = std::collections::BTreeSet::new();
  let mut code = 0;
  let mut nviol = 0;
  let mut unrepro = vec![];
  let mut viol_keys = std::collections::BTreeSet::new();
  let rdir = verif().join("evidence").join("replay");
  for p in &parts {
    for f in p["found"].as_array().unwrap() {
      let key = f["key"].as_str().unwrap();
      if let Some((k, what)) = known.iter().find(|k| k.0 == key.replace(' ', "")) {
        if seen_known.insert(k.clone()) {
          println!("KNOWN-FINDING: property={pid} {what}");
        }
        continue;
      }
      if f["reproduced"] != true {
        unrepro.push(format!("{} {}", f["unit"], key));
        continue;
      }
      if !viol_keys.insert(key.to_string()) {
        continue;
      }
      nviol += 1;
      if nviol <= 5 {
        std::fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{pid}-{nviol}.json"));
        let r = json!({"property": pid, "tier": t, "unit": f["unit"], "key": key, "inputs": f["model"], "detail": f["detail"],
          "how": format!("{}/check.sh replay {}", verif().display(), path.display())});
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        println!("VIOLATION property={pid} replay={}", path.display());
        println!("  {} in {}", key, f["unit"].as_str().unwrap());
        for l in f["detail"].as_str().unwrap().lines().take(12) {
          println!("    {l}");
        }
      }
      code = 1;
    }
  }
  crashes.sort();
  crashes.dedup_by(|a, b| a.0 == b.0);
  for (at, e, args) in &crashes {
    nviol += 1;
    code = 1;
    std::fs::create_dir_all(&rdir).unwrap();
    let path = rdir.join(format!("{pid}-{nviol}.json"));
    let e: String = e.chars().take(2000).collect();
    let r = json!({"property": pid, "tier": t, "unit": at, "key": format!("{pid}:crash:{at}"), "worker": args, "detail": e,
      "how": format!("{}/check.sh replay {}", verif().display(), path.display())});
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    println!("VIOLATION property={pid} replay={}", path.display());
    println!("  the analysis crashes at {at}\n    {}", e.lines().take(4).collect::<Vec<_>>().join("\n    "));
  }
  let incomplete = union("incomplete");
  let checks = sum("checks");
  let coverage = json!({
    "states": sum("paths"), "transitions": sum("branches"), "traces_validated_against_impl": top("concrete_replays"),
    "samples": parts.iter().flat_map(|p| p["samples"].as_array().unwrap().iter().take(1).cloned()).collect::<Vec<_>>(),
    "functions_encoded": info.functions, "bounds": if t == "thorough" { info.bounds_thorough } else { info.bounds_quick },
    "corpus_functions": union("functions").len(),
    "units": top("units"), "units_not_finished": incomplete.len(), "units_not_finished_names": incomplete.iter().take(10).collect::<Vec<_>>(),
    "obligations": checks, "obligations_syntactic": sum("checks_const"),
    "queries": sum("queries"), "queries_sat": sum("sat"), "queries_unsat": sum("unsat"), "queries_unknown": sum("unknown"),
    "forks": sum("forks"), "paths_infeasible": sum("paths_aborted"),
    "max_symbolic_inputs": parts.iter().map(|p| p["stats"]["sym_vars"].as_u64().unwrap()).max(),
    "solver_s": sum("solver_us") as f64 / 1e6, "notes": notes,
    "exhaustive": incomplete.is_empty(),
    "known_findings": seen_known.len(),
  });
  let ev = json!({
    "property": pid, "tier": t, "seed": seed(), "level": "model_checking", "coverage": coverage,
    "assumptions": info.assumptions, "wall_s": start.elapsed().as_secs_f64(), "violations": nviol,
  });
  std::fs::create_dir_all(verif().join("evidence")).unwrap();
  write_atomic(&verif().join("evidence").join(format!("{pid}.json")), &serde_json::to_string_pretty(&ev).unwrap());
  println!(
    "{pid} {t}: {} units, {} paths, {} obligations, {} queries ({:.1}s solver), {} violations, {} unfinished, {:.1}s",
    top("units"), sum("paths"), checks, sum("queries"), sum("solver_us") as f64 / 1e6, nviol, incomplete.len(), start.elapsed().as_secs_f64()
  );
  if code == 1 {
    return 1;
  }
  if !broken.is_empty() {
    eprintln!("worker failure:\n{}", broken.join("\n"));
    return 2;
  }
  if !unrepro.is_empty() {
    eprintln!("counterexamples that did not reproduce concretely: {unrepro:?}");
    return 3;
  }
  if checks == 0 {
    eprintln!("vacuous run");
    return 4;
  }
  for k in &known {
    if !seen_known.contains(&k.0) && std::env::var_os("VP_FILTER").is_none() {
      println!("note: known finding no longer observed: {}", k.0);
    }
  }
  code
}

fn write_atomic(p: &Path, s: &str) {
  let t = p.with_extension("tmp");
  std::fs::write(&t, s).unwrap();
  std::fs::rename(t, p).unwrap();
}
