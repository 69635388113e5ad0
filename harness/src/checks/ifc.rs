//! P13: the information-flow checker's verdict on arbitrary final states.
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

use flowistry::infoflow::{FlowResults, compute_flow, vp_hooks::OBSERVER};
use flowistry_ifc::vp_hooks::{IssueFound, analyze, check_crate};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{ClauseKind, Ty, TyCtxt, TyKind};
use rustc_utils::{BodyExt, PlaceExt};
use symrt::{SBV, SBool};

use super::query::set_state;
use super::step::state_places;
use super::{A_CORPUS, A_SYM, A_TRUST, Info};
use crate::real;
use crate::session::{Bodies, Ctx, compile, corpus};
use crate::spec::{RState, Spec, SpecMode};

pub fn info() -> Info {
  Info {
    functions: vec!["flowistry_ifc::analysis::{analyze,implements_trait}", "FlowAnalysis::deps_for", "FlowDomain::join"],
    bounds_quick: "every function of corpus/ifc; each secure-insecure pair of places in turn, every row either can be read from symbolic in 5 dependencies at every return separately, the other secure and insecure places kept apart; whole-crate verdict with two bodies symbolic".into(),
    bounds_thorough: "the same with 2 pairs at a time and 8 dependencies".into(),
    assumptions: vec![A_SYM, A_TRUST, A_CORPUS, "the results object is produced by compute_flow and its states at the returns are then replaced by symbolic ones", "a type is classified by the harness from its structure: the corpus' own types, references to secure types, bounded type parameters, fmt::Arguments, InsecureString"],
  }
}

fn symt_pick(name: &str, n: usize) -> usize {
  symrt::choose(name, n as u32) as usize
}

/// Which trait a type of the corpus implements.
fn class<'tcx>(tcx: TyCtxt<'tcx>, def: DefId, ty: Ty<'tcx>) -> (bool, bool) {
  match ty.kind() {
    TyKind::Ref(_, t, Mutability::Not) => (class(tcx, def, *t).0, false),
    TyKind::Adt(a, _) => {
      let n = tcx.item_name(a.did());
      let n = n.as_str();
      (matches!(n, "Secret" | "Password"), matches!(n, "Leak" | "InsecureString") || (n == "Arguments" && tcx.crate_name(a.did().krate).as_str() == "core"))
    }
    TyKind::Param(_) => {
      let bound = |name: &str| {
        tcx.param_env(def).caller_bounds().iter().any(|c| match c.kind().skip_binder() {
          ClauseKind::Trait(t) => t.self_ty() == ty && tcx.item_name(t.trait_ref.def_id).as_str() == name,
          _ => false,
        })
      };
      (bound("Secure"), bound("Insecure"))
    }
    _ => (false, false),
  }
}

/// Runs `f` with the standard error stream redirected, and returns what was printed there.
fn captured<R>(f: impl FnOnce() -> R) -> (R, String) {
  use std::io::{Read, Seek};
  use std::os::fd::AsRawFd;
  unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
  }
  struct Restore(i32);
  impl Drop for Restore {
    fn drop(&mut self) {
      unsafe {
        dup2(self.0, 2);
        close(self.0);
      }
    }
  }
  let path = std::env::temp_dir().join(format!("vp-err-{}", std::process::id()));
  let mut out = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).unwrap();
  let _ = std::fs::remove_file(&path);
  let restore = unsafe {
    let r = Restore(dup(2));
    dup2(out.as_raw_fd(), 2);
    r
  };
  let r = f();
  drop(restore);
  let mut s = String::new();
  out.rewind().unwrap();
  let _ = out.read_to_string(&mut s);
  (r, s)
}

pub fn run(cx: &mut Ctx) {
  let dir = std::env::temp_dir().join(format!("vp-ifc-{}", std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  let lib = dir.join("libflowistry_ifc_traits.rlib");
  let o = std::process::Command::new("rustc")
    .args(["--edition", "2024", "--crate-type", "rlib", "--crate-name", "flowistry_ifc_traits", "-A", "warnings", "-o"])
    .arg(&lib)
    .arg("/repo/crates/flowistry_ifc_traits/src/lib.rs")
    .output()
    .unwrap();
  if o.status.success() {
    for (file, src) in corpus("ifc") {
      if cx.wants_file(&file) {
        let args = ["--extern".to_string(), format!("flowistry_ifc_traits={}", lib.display())];
        compile(&src, &args, |b| session(cx, &file, &b));
      }
    }
  }
  let _ = std::fs::remove_dir_all(&dir);
  assert!(o.status.success(), "flowistry_ifc_traits does not compile: {}", String::from_utf8_lossy(&o.stderr));
}

fn session<'tcx>(cx: &mut Ctx, file: &str, b: &Bodies<'tcx>) {
  let tcx = b.tcx;
  for (name, id, def, bwf) in &b.list {
    let base = format!("{file}/{name}");
    let body = &bwf.body;
    let spec = Spec::new(tcx, *def, bwf, SpecMode::default());
    let w = spec.width();
    let sp = state_places(&spec);
    let all: Vec<Place<'tcx>> = body
      .local_decls
      .indices()
      .flat_map(|l| {
        let mut v: Vec<_> = spec.children(Place::from_local(l, tcx)).into_iter().collect();
        v.sort_by_key(|p| (p.projection.len(), format!("{p:?}")));
        v
      })
      .collect();
    let secure: Vec<_> = all.iter().copied().filter(|p| class(tcx, *def, spec.ty(*p)).0).collect();
    let insecure: Vec<_> = all.iter().copied().filter(|p| class(tcx, *def, spec.ty(*p)).1).collect();
    cx.functions.insert(base.clone());
    let pairs: Vec<_> = secure.iter().flat_map(|s| insecure.iter().map(move |i| (*s, *i))).collect();
    let rets: Vec<_> = body.all_returns().collect();
    let at_a_time = cx.pick(1, 2);
    let npaths = cx.pick(3_000, 50_000);
    let nbits = cx.pick(5, 8);
    let chunks: Vec<Vec<_>> = if pairs.is_empty() { vec![vec![]] } else { pairs.chunks(at_a_time).map(|c| c.to_vec()).collect() };
    for (ci, chunk) in chunks.iter().enumerate() {
      let u = format!("{base}/{ci}");
      if !cx.wants(&u) {
        continue;
      }
      let r = compute_flow(tcx, *id, bwf);
      cx.unit_n(&u, npaths, || {
        // what is read from the chosen places is symbolic
        let mut free: HashSet<Place<'tcx>> = HashSet::new();
        for (s, i) in chunk {
          for p in [s, i] {
            let rows: HashSet<_> = spec.queried(*p).into_iter().flat_map(|v| spec.influences(v)).map(|q| spec.norm(q)).collect();
            let mut rows: Vec<_> = rows.into_iter().collect();
            rows.sort_by_key(|q| (q.local, q.projection.len(), format!("{q:?}")));
            if rets.len() > 1 {
              // one row at a time: joining many symbolic rows has too many outcomes
              free.insert(rows[symt_pick(&format!("row of {p:?}"), rows.len())]);
            } else {
              free.extend(rows);
            }
          }
        }
        // The others: every row of a secure place has a dependency that insecure places lack.
        let apart = SBV::single(w, w as usize - 1);
        let mut apart_rows: HashSet<Place<'tcx>> = HashSet::new();
        for s in &secure {
          apart_rows.insert(spec.norm(*s));
        }
        for ret in &rets {
          let mut st = RState::new();
          for p in &sp {
            let q = spec.norm(*p);
            st.entry(q).or_insert_with(|| {
              if free.contains(&q) {
                symrt::fresh_bv(&format!("{ret:?} row {q:?}"), nbits.min(w as usize) as u32).resize(w, false)
              } else if apart_rows.contains(&q) && w as usize > nbits {
                apart.clone()
              } else {
                SBV::zero(w)
              }
            });
          }
          set_state(&r, *ret, real::to_domain(&r.analysis, &st));
        }
        let (got, _) = captured(|| matches!(analyze(id, &r).unwrap(), IssueFound::Yes));
        let mut fin = RState::new();
        for ret in &rets {
          for (p, v) in real::rows(r.state_at(*ret)) {
            let n = fin.get(&p).map_or(v.clone(), |o: &SBV| o.or(&v));
            fin.insert(p, n);
          }
        }
        let deps = |ps: &[Place<'tcx>]| -> BTreeMap<usize, SBV> { ps.iter().enumerate().map(|(k, p)| (k, spec.deps_for(&fin, *p))).collect() };
        let (sd, id_) = (deps(&secure), deps(&insecure));
        let want = SBool::any(sd.values().flat_map(|s| id_.values().map(move |i| s.eq(&SBV::zero(w)).not().and(s.subset_of(i))).collect::<Vec<_>>()));
        symrt::check(want.iff(SBool::C(got)), &format!("P13:{base}"), || {
          let bits = |v: &SBV| v.as_const().map_or("(symbolic)".into(), |b| b.iter().enumerate().filter(|(_, x)| **x).map(|(i, _)| spec.bit_name(i)).collect::<Vec<_>>().join(" "));
          let list = |ps: &[Place<'tcx>], d: &BTreeMap<usize, SBV>| ps.iter().enumerate().map(|(k, p)| format!("  {p:?}: {{{}}}", bits(&d[&k]))).collect::<Vec<_>>().join("\n");
          format!("the checker {} an issue\nsecure places:\n{}\ninsecure places:\n{}", if got { "reports" } else { "does not report" }, list(&secure, &sd), list(&insecure, &id_))
        });
      });
    }
  }
  crate_verdict(cx, file, b);
}

/// The verdict on a crate: an issue iff there is one in any body, closures included.
fn crate_verdict<'tcx>(cx: &mut Ctx, file: &str, b: &Bodies<'tcx>) {
  let tcx = b.tcx;
  // does the body hold both kinds of data?
  let both: Vec<bool> = b
    .list
    .iter()
    .map(|(_, _, def, bwf)| {
      let spec = Spec::new(tcx, *def, bwf, SpecMode::default());
      let kinds: Vec<_> = bwf
        .body
        .local_decls
        .indices()
        .flat_map(|l| spec.children(Place::from_local(l, tcx)))
        .map(|p| class(tcx, *def, spec.ty(p)))
        .collect();
      kinds.iter().any(|k| k.0) && kinds.iter().any(|k| k.1) && bwf.body.all_returns().next().is_some()
    })
    .collect();
  for i in 0 .. b.list.len() {
    let u = format!("{file}/crate/{i}");
    if !cx.wants(&u) {
      continue;
    }
    cx.unit_n(&u, 3000, || {
      let j = symrt::choose("other body", b.list.len() as u32) as usize;
      let leaky: BTreeMap<usize, SBool> = [i, j].into_iter().map(|k| (k, symrt::fresh_bool(&format!("everything in {} depends on the same", b.list[k].0)))).collect();
      let list: Vec<_> = b.list.iter().map(|(_, id, def, bwf)| (*id, *def, *bwf as *const _ as usize)).collect();
      let l2 = leaky.clone();
      let observer = move |r: &FlowResults<'_, '_>| {
        let r: &FlowResults<'_, 'tcx> = unsafe { std::mem::transmute(r) };
        let Some(k) = list.iter().position(|x| x.1 == r.analysis.def_id) else { return };
        let bwf = unsafe { &*(list[k].2 as *const rustc_borrowck::consumers::BodyWithBorrowckFacts<'tcx>) };
        let spec = Spec::new(r.analysis.tcx, list[k].1, bwf, SpecMode::default());
        let w = spec.width();
        let row = match l2.get(&k) {
          Some(c) => SBV::ite(*c, &SBV::single(w, 0), &SBV::zero(w)),
          None => SBV::zero(w),
        };
        let st: RState<'tcx> = state_places(&spec).iter().map(|p| (spec.norm(*p), row.clone())).collect();
        for ret in bwf.body.all_returns() {
          set_state(r, ret, real::to_domain(&r.analysis, &st));
        }
      };
      OBSERVER.with(|o| *o.borrow_mut() = Some(Rc::new(observer)));
      struct Off;
      impl Drop for Off {
        fn drop(&mut self) {
          OBSERVER.with(|o| *o.borrow_mut() = None);
        }
      }
      let off = Off;
      let (got, _) = captured(|| matches!(check_crate(tcx), IssueFound::Yes));
      drop(off);
      let want = SBool::any(leaky.iter().filter(|(k, _)| both[**k]).map(|(_, c)| *c));
      symrt::check(want.iff(SBool::C(got)), &format!("P13:{file}:crate:{}", b.list[i].0), || format!("an issue in {:?} {} reported for the crate", leaky.keys().map(|k| &b.list[*k].0).collect::<Vec<_>>(), if got { "is" } else { "is not" }));
    });
  }
}
