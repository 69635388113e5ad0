//! P11: the effect of a call analysed through its callee, from an arbitrary state, is contained in its
//! signature-only effect, equal to it where the callee cannot be entered, and the same whatever was analysed
//! before.
use rustc_middle::mir::*;
use rustc_middle::ty::{ClosureKind, TyKind};

use flowistry::infoflow::{FlowAnalysis, FlowDomain, compute_flow};
use rustc_utils::BodyExt;
use symrt::{SBV, SBool};

use super::step::{bounds, places, state_places};
use crate::real;
use crate::session::{Bodies, Ctx, compile, corpus};
use crate::spec::{RState, Spec, SpecMode};

pub fn run(cx: &mut Ctx) {
  histories(cx);
  for dir in ["ni", "rec", "step"] {
    for (file, src) in corpus(dir) {
      let file = format!("call-{dir}-{file}");
      if cx.wants_file(&file) {
        compile(&src, &[], |b| session(cx, &file, &b));
      }
    }
  }
}

/// The results for every body that calls another do not depend on what was analysed before on the same thread.
pub fn histories(cx: &mut Ctx) {
  for (dir, file) in [("rec", "callee"), ("rec", "hidden"), ("ni", "calls"), ("ni", "traits")] {
    let Some((_, src)) = corpus(dir).into_iter().find(|(f, _)| f == file) else { panic!("corpus {dir}/{file}") };
    let name = format!("histories-{dir}-{file}");
    if !cx.wants_file(&name) {
      continue;
    }
    let (n, callers) = fresh(&src, |b| (b.list.len(), callers(b)));
    let mut alone: Option<Vec<String>> = None;
    let group = 6;
    for g in 0 .. n.div_ceil(group) {
      let u = format!("{name}/{g}");
      if !cx.wants(&u) {
        continue;
      }
      let alone = alone.get_or_insert_with(|| callers.iter().map(|f| fresh(&src, |b| results(b, *f))).collect());
      cx.unit(&u, || {
        let first = g * group + symrt::choose("analysed first", group.min(n - g * group) as u32) as usize;
        let backwards = symrt::choose("then the callers, last to first", 2) == 1;
        let mut order: Vec<usize> = (0 .. callers.len()).collect();
        if backwards {
          order.reverse();
        }
        let (names, after) = fresh(&src, |b| {
          results(b, first);
          (b.list.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), order.iter().map(|k| results(b, callers[*k])).collect::<Vec<_>>())
        });
        let items = order.iter().zip(&after).map(|(k, r)| (format!("P11:{name}:{}", names[callers[*k]]), SBool::C(*r == alone[*k]))).collect();
        symrt::check_all(items, |i| {
          let diff = alone[order[i]].lines().zip(after[i].lines()).find(|(a, b)| a != b);
          let before: Vec<_> = [first].into_iter().chain(order[.. i].iter().map(|k| callers[*k])).map(|k| &names[k]).collect();
          format!("what {} depends on changes when {before:?} are analysed before:\n{diff:?}", names[callers[order[i]]])
        });
      });
    }
  }
}

/// On a thread of its own, with the program compiled anew.
fn fresh<R: Send>(src: &str, f: impl for<'tcx> FnOnce(&Bodies<'tcx>) -> R + Send) -> R {
  std::thread::scope(|s| {
    let t = s.spawn(|| {
      let mut out = None;
      compile(src, &[], |b| out = Some(f(&b)));
      out.unwrap()
    });
    t.join().unwrap_or_else(|e| std::panic::resume_unwind(e))
  })
}

/// The bodies that call one of their own crate.
fn callers(b: &Bodies<'_>) -> Vec<usize> {
  let local = |f: &Operand<'_>| f.const_fn_def().is_some_and(|(d, _)| d.is_local());
  (0 .. b.list.len()).filter(|k| b.list[*k].3.body.basic_blocks.iter().any(|d| matches!(&d.terminator().kind, TerminatorKind::Call { func, .. } if local(func)))).collect()
}

/// The whole-program results for one body, in text.
fn results(b: &Bodies<'_>, k: usize) -> String {
  let (_, id, _, bwf) = &b.list[k];
  real::with_mode(Some(real::mode(false, false, true)), || {
    let r = compute_flow(b.tcx, *id, bwf);
    let mut lines = vec![];
    for loc in bwf.body.all_locations() {
      for (p, v) in real::rows(r.state_at(loc)) {
        lines.push(format!("{loc:?} {p:?}: {:?}", v.as_const()));
      }
    }
    lines.sort();
    lines.join("\n")
  })
}

/// Why the callee of a call cannot be entered, if that is certain.
fn closed<'tcx>(b: &Bodies<'tcx>, spec: &Spec<'_, 'tcx>, func: &Operand<'tcx>, args: &[rustc_span::source_map::Spanned<Operand<'tcx>>]) -> Option<&'static str> {
  let tcx = b.tcx;
  let Operand::Constant(f) = func else { return Some("function pointer") };
  let TyKind::FnDef(def, _) = f.const_.ty().kind() else { return Some("function pointer") };
  if !def.is_local() {
    return Some("external");
  }
  if !b.list.iter().any(|x| x.2 == *def) {
    return Some("no body");
  }
  if tcx.trait_of_assoc(*def).is_some() {
    return Some("trait method");
  }
  if tcx.fn_sig(*def).skip_binder().output().skip_binder().is_never() {
    return Some("diverges");
  }
  let mutating_closure = args.iter().filter_map(|a| a.node.place()).any(|p| {
    spec.ty(p).walk().filter_map(|g| g.as_type()).any(|t| match t.kind() {
      TyKind::Closure(_, s) => s.as_closure().kind() != ClosureKind::Fn,
      _ => false,
    })
  });
  mutating_closure.then_some("mutating closure")
}

fn session<'tcx>(cx: &mut Ctx, file: &str, b: &Bodies<'tcx>) {
  let tcx = b.tcx;
  for (name, _, def, bwf) in &b.list {
    let base = format!("{file}/{name}");
    let body = &bwf.body;
    let calls: Vec<_> = body
      .basic_blocks
      .iter_enumerated()
      .filter(|(_, d)| matches!(d.terminator().kind, TerminatorKind::Call { .. }))
      .map(|(bb, _)| body.terminator_loc(bb))
      .collect();
    if calls.is_empty() {
      continue;
    }
    let spec = Spec::new(tcx, *def, bwf, SpecMode::default());
    // (nothing is ever recorded for a variant, only for its fields)
    let sp: Vec<_> = state_places(&spec).into_iter().filter(|p| !matches!(p.projection.last(), Some(ProjectionElem::Downcast(..)))).collect();
    let qs: Vec<_> = places(&spec).into_iter().filter(|p| !spec.ty(*p).is_unit()).collect();
    for loc in &calls {
      let u = format!("{base}/{loc:?}");
      if !cx.wants(&u) {
        continue;
      }
      cx.functions.insert(base.clone());
      let TerminatorKind::Call { func, args, .. } = &body.basic_blocks[loc.block].terminator().kind else { unreachable!() };
      let why = closed(b, &spec, func, args);
      if let Some(w) = why {
        cx.note(&format!("calls that cannot be entered: {w}"), 1);
      }
      let mut fa_sig = real::analysis(tcx, *def, bwf);
      // one that has already analysed every other call, and one that has not
      let mut fa_late = real::analysis(tcx, *def, bwf);
      real::with_mode(Some(real::mode(false, false, true)), || {
        let mut d = real::to_domain(&fa_late, &RState::new());
        for l in &calls {
          real::apply(&mut fa_late, body, &mut d, *l);
        }
      });
      cx.unit(&u, || {
        let pre = behind_references(&spec, real::symbolic_state(&spec, &sp), &sp);
        let mut sig = real::to_domain(&fa_sig, &pre);
        real::apply(&mut fa_sig, body, &mut sig, *loc);
        let mut rec = real::to_domain(&fa_late, &pre);
        let mut late = real::to_domain(&fa_late, &pre);
        let mut fa_rec = real::analysis(tcx, *def, bwf);
        real::with_mode(Some(real::mode(false, false, true)), || {
          real::apply(&mut fa_rec, body, &mut rec, *loc);
          real::apply(&mut fa_late, body, &mut late, *loc);
        });
        let (sig, rec, late) = (read(&fa_sig, &sig, &qs), read(&fa_rec, &rec, &qs), read(&fa_late, &late, &qs));
        let b = format!("{base}/{loc:?}");
        match why {
          Some(_) => bounds(&spec, "P11", &format!("{b}:not entered"), &rec, Some(&sig), Some(&sig), &pre),
          None => bounds(&spec, "P11", &format!("{b}:never coarser"), &rec, None, Some(&sig), &pre),
        }
        bounds(&spec, "P11", &format!("{b}:history"), &late, Some(&rec), Some(&rec), &pre);
      });
    }
  }
}

/// What is recorded behind a reference is also recorded for something the reference may refer to.
fn behind_references<'tcx>(spec: &Spec<'_, 'tcx>, mut st: RState<'tcx>, sp: &[Place<'tcx>]) -> RState<'tcx> {
  let old = st.clone();
  for p in sp {
    let named: Vec<_> = spec.aliases(*p).into_iter().filter(|a| a != p && spec.is_direct(*a)).collect();
    if !named.is_empty() {
      let any = named.iter().fold(SBV::zero(spec.width()), |v, a| v.or(&spec.row(&old, *a)));
      let row = st.get_mut(&spec.norm(*p)).unwrap();
      *row = row.and(&any);
    }
  }
  st
}

/// What is observable of a state: the dependencies of each place.
fn read<'tcx>(fa: &FlowAnalysis<'_, 'tcx>, st: &FlowDomain<'tcx>, qs: &[Place<'tcx>]) -> RState<'tcx> {
  qs.iter().map(|q| (*q, real::bv_of(&fa.deps_for(st, *q)))).collect()
}
