//! In-process rustc sessions on the corpus, and work units.
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_hir::BodyId;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::TyCtxt;
use rustc_utils::mir::borrowck_facts::get_body_with_borrowck_facts;
use symrt::{Assignment, Stats, Violation};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

pub struct Found {
  pub unit: String,
  pub v: Violation,
  pub reproduced: bool,
}

pub struct Ctx {
  pub pid: String,
  pub tier: Tier,
  pub shard: u64,
  pub nshards: u64,
  pub seed: u64,
  pub deadline: Instant,
  /// replay: only this unit, with these inputs
  pub only: Option<(String, Assignment)>,
  pub filter: Option<String>,
  pub stats: Stats,
  pub units: u64,
  pub units_skipped: u64,
  pub incomplete_units: BTreeSet<String>,
  pub concrete_replays: u64,
  pub functions: BTreeSet<String>,
  pub samples: Vec<String>,
  pub notes: BTreeMap<String, u64>,
  pub found: Vec<Found>,
  pub max_paths: u64,
  pub progress: Option<std::path::PathBuf>,
}

fn hash(s: &str) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for b in s.bytes() {
    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
  }
  h ^ (h >> 29)
}

impl Ctx {
  pub fn thorough(&self) -> bool {
    self.tier == Tier::Thorough
  }
  pub fn pick<T>(&self, quick: T, thorough: T) -> T {
    if self.thorough() { thorough } else { quick }
  }
  pub fn wants(&self, unit: &str) -> bool {
    let yes = match &self.only {
      Some((u, _)) => u == unit,
      None => {
        hash(unit) % self.nshards == self.shard && self.filter.as_ref().is_none_or(|f| unit.contains(f.as_str()))
      }
    };
    if yes {
      self.enter(unit);
    }
    yes
  }
  /// Records what is being worked on, in case the code under test takes the process down.
  pub fn enter(&self, what: &str) {
    if let Some(f) = &self.progress {
      let _ = std::fs::write(f, what);
    }
  }
  /// Replaying a unit needs only its own file.
  pub fn wants_file(&self, file: &str) -> bool {
    self.only.as_ref().is_none_or(|(u, _)| u.starts_with(&format!("{file}/")))
  }
  pub fn note(&mut self, k: &str, n: u64) {
    *self.notes.entry(k.into()).or_default() += n;
  }
  /// One unit of work: all feasible paths of `f`, plus one concrete execution of it on the genuine
  /// (solver-free) data structures with random inputs, plus a concrete replay of each violation.
  pub fn unit(&mut self, id: &str, f: impl FnMut()) {
    let m = self.max_paths;
    self.unit_n(id, m, f)
  }
  pub fn unit_n(&mut self, id: &str, max_paths: u64, mut f: impl FnMut()) {
    if !self.wants(id) {
      return;
    }
    if let Some((_, model)) = &self.only {
      symrt::seed_random(0);
      let vs = symrt::replay(model, &self.pid, &mut f);
      for v in vs {
        self.found.push(Found { unit: id.into(), v, reproduced: true });
      }
      self.units += 1;
      return;
    }
    if Instant::now() > self.deadline {
      self.units_skipped += 1;
      self.incomplete_units.insert(id.into());
      return;
    }
    if std::env::var_os("VP_TRACE").is_some() {
      eprintln!("{id}");
    }
    let budget = self.deadline.min(Instant::now() + Duration::from_secs(self.pick(120, 900)));
    let o = symrt::explore(max_paths, Some(budget), &self.pid, &mut f);
    self.stats.add(&o.stats);
    self.units += 1;
    if !o.complete || o.stats.unknown > 0 {
      self.incomplete_units.insert(id.into());
    }
    if self.samples.len() < 3 {
      self.samples.push(format!(
        "{id}: {} paths, {} obligations, {} queries, {} symbolic inputs",
        o.stats.paths, o.stats.checks, o.stats.queries, o.stats.sym_vars
      ));
    }
    symrt::seed_random(hash(id) ^ (self.seed << 32) | 1);
    let rv = symrt::replay(&Assignment::new(), &self.pid, &mut f);
    symrt::seed_random(0);
    self.concrete_replays += 1;
    for mut v in o.violations {
      let again = symrt::replay(&v.model, &self.pid, &mut f);
      let same = again.into_iter().find(|x| x.key == v.key);
      let reproduced = same.is_some();
      if let Some(x) = same {
        // with concrete values
        v.detail = x.detail;
      }
      self.found.push(Found { unit: id.into(), v, reproduced });
    }
    for v in rv {
      if !self.found.iter().any(|x| x.unit == id && x.v.key == v.key) {
        // the concrete run disagrees with the solver's verdict over all inputs
        self.found.push(Found { unit: id.into(), v, reproduced: false });
      }
    }
  }
}

pub struct Bodies<'tcx> {
  pub tcx: TyCtxt<'tcx>,
  pub list: Vec<(String, BodyId, DefId, &'tcx BodyWithBorrowckFacts<'tcx>)>,
}

struct SendIt<T>(T);
unsafe impl<T> Send for SendIt<T> {}
impl<T> SendIt<T> {
  fn into(self) -> T {
    self.0
  }
}

pub fn compile(src: &str, args: &[String], f: impl for<'tcx> FnOnce(Bodies<'tcx>)) {
  rustc_utils::mir::borrowck_facts::enable_mir_simplification();
  let f = SendIt(f);
  let mut b = rustc_utils::test_utils::CompileBuilder::new(src);
  if !args.is_empty() {
    b.with_args(args.iter().cloned());
  }
  let ran = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
  let ran2 = ran.clone();
  b.compile(move |r| {
    ran2.store(true, std::sync::atomic::Ordering::Relaxed);
    let f = f.into();
    let tcx = r.tcx;
    let mut list = vec![];
    for (_, id) in rustc_utils::source_map::find_bodies::find_bodies(tcx) {
      let def = tcx.hir_body_owner_def_id(id);
      let b = get_body_with_borrowck_facts(tcx, def);
      let b: &BodyWithBorrowckFacts<'_> = unsafe { std::mem::transmute(b) };
      let name = tcx.def_path_str(def.to_def_id());
      list.push((name, id, def.to_def_id(), b));
    }
    list.sort_by_key(|x| x.0.clone());
    f(Bodies { tcx, list })
  });
  assert!(ran.load(std::sync::atomic::Ordering::Relaxed), "corpus program does not compile");
}

pub fn corpus_dir() -> std::path::PathBuf {
  std::path::PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/corpus"))
}

/// (file stem, source) of every corpus file in the given sub-directory.
pub fn corpus(sub: &str) -> Vec<(String, String)> {
  let mut v: Vec<_> = std::fs::read_dir(corpus_dir().join(sub))
    .unwrap_or_else(|e| panic!("corpus {sub}: {e}"))
    .filter_map(|e| {
      let p = e.unwrap().path();
      (p.extension()? == "rs").then(|| (p.file_stem().unwrap().to_string_lossy().into_owned(), std::fs::read_to_string(&p).unwrap()))
    })
    .collect();
  v.sort();
  v
}
