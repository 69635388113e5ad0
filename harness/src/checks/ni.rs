//! Slices are sufficient (P01) and stay so through analysed calls (P11): relational symbolic execution
//! of the analysed programs.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};

use flowistry::infoflow::{FlowAnalysis, FlowResults, compute_flow};
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgs, Instance, TypeVisitableExt};
use rustc_utils::BodyExt;
use rustc_utils::mir::location_or_arg::LocationOrArg;
use symrt::SBool;

use super::{Info, step};
use crate::interp::{Run, Stop, Val, World, agree, show};
use crate::real;
use crate::session::{Bodies, Ctx, compile, corpus};
use crate::spec::{Spec, SpecMode};

pub fn info(pid: &str) -> Info {
  let mut functions = vec![
    "compute_flow", "FlowAnalysis (transfer function, entry state, deps_for)", "engine::iterate_to_fixpoint", "ModularMutationVisitor",
    "Aliases::build", "PlaceInfo", "control dependencies",
  ];
  if pid == "P11" {
    functions.extend(["FlowAnalysis::recurse_into_call", "FlowAnalysis::{apply_primary_terminator_effect,deps_for} in both context modes"]);
  }
  let calls = if pid == "P11" { "; every call of every function of corpus/{ni,rec,step} in both context modes from a symbolic state in which what is recorded behind a reference is also recorded for something it may refer to, read at every place" } else { "" };
  Info {
    functions,
    bounds_quick: "every variable (with its fields and what it points to) at every return of every function of corpus/ni; all integer inputs; each block entered at most 3 times per call, slices and enums of every shape up to 2 elements, 400 paths per unit".to_string() + calls,
    bounds_thorough: "the same with each block entered at most 4 times per call and 20000 paths per unit".to_string() + calls,
    assumptions: vec![
      "the analysis runs unmodified on the program; what is symbolic are the program's inputs and the values the perturbed instructions compute",
      "the meaning of MIR is given by harness/src/interp.rs (integers as bit-vectors; shape of data and pointers concrete per path)",
      "trusted: rustc (MIR construction, borrow checking), rustc_utils, Z3",
      "executions that panic, exceed the loop bound or use data that is not there are not constrained",
    ],
  }
}

pub fn run(cx: &mut Ctx) {
  let dirs: &[&str] = if cx.pid == "P11" { &["ni", "rec"] } else { &["ni"] };
  for dir in dirs {
    for (file, src) in corpus(dir) {
      let file = format!("{dir}-{file}");
      if cx.wants_file(&file) {
        compile(&src, &[], |b| session(cx, &file, &b));
      }
    }
  }
}

fn session<'tcx>(cx: &mut Ctx, file: &str, b: &Bodies<'tcx>) {
  let tcx = b.tcx;
  let bodies: HashMap<_, &Body<'tcx>> = b.list.iter().map(|(_, _, d, x)| (*d, &x.body)).collect();
  let recurse = cx.pid == "P11";
  for (name, id, def, bwf) in &b.list {
    let sub = *def;
    if !matches!(tcx.def_kind(sub), DefKind::Fn | DefKind::AssocFn) {
      continue;
    }
    let args = GenericArgs::for_item(tcx, sub, |p, _| match p.kind {
      ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
      _ => tcx.mk_param_from_def(p),
    });
    if args.has_param() {
      continue;
    }
    let base = format!("{file}/{name}");
    if let Some((u, _)) = &cx.only
      && !u.starts_with(&format!("{base}@"))
    {
      continue;
    }
    if cx.filter.as_ref().is_some_and(|f| !f.starts_with(&base) && !base.contains(f.as_str())) {
      continue;
    }
    cx.functions.insert(base.clone());
    let body = &bwf.body;
    let spec = Spec::new(tcx, *def, bwf, SpecMode::default());
    let ps: Vec<_> = step::places(&spec)
      .into_iter()
      .filter(|p| !p.projection.iter().any(|e| matches!(e, ProjectionElem::Index(_))))
      .filter(|p| !p.iter_projections().any(|(b, _)| b.ty(&body.local_decls, tcx).ty.is_raw_ptr()))
      .filter(|p| !p.ty(&body.local_decls, tcx).ty.walk().filter_map(|a| a.as_type()).any(|t| t.is_raw_ptr()))
      .collect();
    let mode = recurse.then(|| real::mode(false, false, true));
    real::with_mode(mode, || {
      cx.enter(&base);
      let r = compute_flow(tcx, *id, bwf);
      let instance = Instance::new_raw(sub, args);
      for ret in body.all_returns() {
        let mut groups: BTreeMap<Vec<usize>, Vec<Place<'tcx>>> = BTreeMap::new();
        for p in &ps {
          groups.entry(deps(&r, &spec, ret, *p)).or_default().push(*p);
        }
        for (d, group) in groups {
          let u = format!("{base}@{ret:?}/{:?}", group[0]);
          if !cx.wants(&u) {
            continue;
          }
          unit(cx, &u, &spec, &bodies, instance, ret, &d, &group);
        }
      }
    });
  }
}

/// The dependencies the real analysis reports, as bit numbers of the specification.
fn deps<'tcx>(r: &FlowResults<'_, 'tcx>, spec: &Spec<'_, 'tcx>, at: Location, p: Place<'tcx>) -> Vec<usize> {
  let fa: &FlowAnalysis<'_, 'tcx> = &r.analysis;
  let mut v: Vec<_> = fa
    .deps_for(r.state_at(at), p)
    .iter()
    .map(|d| match d {
      LocationOrArg::Location(l) => spec.loc_bit(*l),
      LocationOrArg::Arg(l) => spec.arg_bit(*l),
    })
    .collect();
  v.sort();
  v
}

#[allow(clippy::too_many_arguments)]
fn unit<'tcx>(
  cx: &mut Ctx,
  u: &str,
  spec: &Spec<'_, 'tcx>,
  bodies: &HashMap<rustc_hir::def_id::DefId, &Body<'tcx>>,
  instance: Instance<'tcx>,
  ret: Location,
  d: &[usize],
  group: &[Place<'tcx>],
) {
  let (tcx, body) = (spec.tcx, spec.body);
  let keep: HashSet<Location> = spec.locs.iter().filter(|l| d.contains(&spec.loc_bit(**l))).copied().collect();
  let agreed: Vec<Local> = spec.args.iter().filter(|a| d.contains(&spec.arg_bit(**a))).copied().collect();
  let visits = cx.pick(3, 4);
  let max = cx.pick(400, 20_000);
  let stops: RefCell<BTreeMap<String, u64>> = Default::default();
  let pid = cx.pid.clone();
  let before = cx.stats.checks;
  cx.unit_n(u, max, || {
    let w = World { tcx, bodies: bodies.clone(), choices: Default::default(), fresh: Default::default(), max_visits: visits, precise_calls: pid == "P11" };
    let stop = |s: Stop| -> ! {
      let k = match s {
        Stop::Unsupported(s) => format!("not encoded: {s}"),
        s => format!("{s:?}"),
      };
      if std::env::var_os("VP_TRACE").is_some() {
        eprintln!("  {k}");
      }
      *stops.borrow_mut().entry(k).or_default() += 1;
      symrt::abort_path()
    };
    let args = |run: &mut Run<'_, '_, 'tcx>, second: bool| -> Vec<Val<'tcx>> {
      let mut out = vec![];
      for a in body.args_iter() {
        let who = if second && !agreed.contains(&a) { "b" } else { "a" };
        match run.arbitrary(body.local_decls[a].ty, &format!("{who}:{a:?}"), 0) {
          Ok(v) => out.push(v),
          Err(s) => stop(s),
        }
      }
      out
    };
    let mut one = Run::new(&w, None);
    let a1 = args(&mut one, false);
    let (_, f1, l1) = one.run_body(body, instance, a1.clone(), true).unwrap_or_else(|s| stop(s));
    if l1 != ret {
      symrt::abort_path()
    }
    let mut two = Run::new(&w, Some(keep.clone()));
    let a2 = args(&mut two, true);
    let (_, f2, l2) = two.run_body(body, instance, a2.clone(), true).unwrap_or_else(|s| stop(s));
    if l2 != ret {
      symrt::abort_path()
    }
    let mut items = vec![];
    for p in group {
      let v1 = one.place(&f1, *p).and_then(|(a, path)| one.load(a, &path));
      let v2 = two.place(&f2, *p).and_then(|(a, path)| two.load(a, &path));
      if let (Ok(v1), Ok(v2)) = (v1, v2) {
        items.push((*p, agree(&one, &v1, &two, &v2, 0), v1, v2));
      }
    }
    for (p, same, v1, v2) in items {
      let key = format!("{pid}:{}:{}", u.split('@').next().unwrap(), plain(p));
      symrt::check(same, &key, || {
        let names = |d: &[usize]| {
          let l = spec.locs.iter().filter(|l| d.contains(&spec.loc_bit(**l))).map(|l| format!("{l:?}"));
          l.chain(agreed.iter().map(|a| format!("arg {a:?}"))).collect::<Vec<_>>().join(" ")
        };
        let list = |r: &Run<'_, '_, 'tcx>, a: &[Val<'tcx>]| a.iter().map(|v| show(r, v, 0)).collect::<Vec<_>>().join(", ");
        format!(
          "{p:?} at {ret:?} depends, according to the analysis, on {{{}}}\nbut an execution that differs elsewhere gives it another value: {} instead of {}\nfinal arguments ({}) and ({})\n{}",
          names(d), show(&two, &v2, 0), show(&one, &v1, 0), list(&one, &a1), list(&two, &a2),
          body.to_string(tcx).unwrap_or_default()
        )
      });
    }
    let _ = SBool::C(true);
  });
  if cx.only.is_none() && cx.stats.checks == before {
    cx.note("groups never compared", 1);
    if std::env::var_os("VP_TRACE").is_some() {
      eprintln!("  never compared: {u}");
    }
  }
  for (k, n) in stops.into_inner() {
    cx.note(&k, n);
  }
}

/// A place without the regions of its types.
fn plain(p: Place<'_>) -> String {
  let mut out = String::new();
  let s = format!("{p:?}");
  let mut it = s.chars().peekable();
  while let Some(c) = it.next() {
    if c == '\'' {
      while it.peek().is_some_and(|c| *c != ' ') {
        it.next();
      }
      it.next();
    } else {
      out.push(c);
    }
  }
  out
}
