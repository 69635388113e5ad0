//! P14: what the editor is told about every expression, on results whose states are symbolic.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

use flowistry::infoflow::{FlowResults, vp_hooks::OBSERVER};
use flowistry_ide::vp_hooks::focus;
use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_middle::mir::*;
use rustc_span::Span;
use rustc_utils::mir::location_or_arg::LocationOrArg;
use rustc_utils::source_map::range::CharRange;
use rustc_utils::source_map::spanner::{EnclosingHirSpans, Spanner};
use rustc_utils::SpanExt;
use symrt::{SBV, SBool};

use super::query::{Q, Target, set_state};
use super::step::state_places;
use super::{A_CORPUS, A_SYM, A_TRUST, Info};
use crate::real;
use crate::session::{Bodies, Ctx, compile, corpus};
use crate::spec::{RState, Spec, SpecMode};

pub fn info() -> Info {
  Info {
    functions: vec!["flowistry_ide::focus::focus", "DirectInfluence::{build,lookup}", "compute_dependency_spans", "compute_dependencies"],
    bounds_quick: "every function of corpus/ide and every selectable expression of it: the rows of one value the expression refers to and of one place written at one other instruction symbolic in 2 dependencies each; all expressions of the function compared on every path".into(),
    bounds_thorough: "the same with 3 dependencies, 4 choices of rows per expression and every other instruction".into(),
    assumptions: vec![A_SYM, A_TRUST, A_CORPUS, "trusted in addition: the Spanner and the span and range utilities of rustc_utils (which spans a location has, which places are behind a span, merging and converting spans)", "the results object is produced by compute_flow and its states are then replaced by symbolic ones"],
  }
}

pub fn run(cx: &mut Ctx) {
  for (file, src) in corpus("ide") {
    if cx.wants_file(&file) {
      compile(&src, &[], |b| session(cx, &file, &b));
    }
  }
}

type R = ((usize, usize), (usize, usize));
fn range(r: &CharRange) -> R {
  ((r.start.line, r.start.column), (r.end.line, r.end.column))
}

fn session<'tcx>(cx: &mut Ctx, file: &str, b: &Bodies<'tcx>) {
  let tcx = b.tcx;
  let sm = tcx.sess.source_map();
  for (name, id, def, bwf) in &b.list {
    if !matches!(tcx.def_kind(*def), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn | rustc_hir::def::DefKind::Closure) {
      continue;
    }
    let base = format!("{file}/{name}");
    cx.functions.insert(base.clone());
    let body = &bwf.body;
    let spec = Spec::new(tcx, *def, bwf, SpecMode::default());
    let w = spec.width();
    let sp = state_places(&spec);
    let spanner = Spanner::new(tcx, *id, body);
    let to_ranges = |v: &[Span]| -> Vec<R> {
      v.iter().filter_map(|s| s.trim_leading_whitespace(sm)).flatten().filter_map(|s| CharRange::from_span(s, sm).ok()).map(|r| range(&r)).collect()
    };
    // expressions, in an order that is the same in every run
    let mut groups: BTreeMap<(u32, u32), (Span, Vec<Target<'tcx>>)> = BTreeMap::new();
    for m in spanner.mir_span_tree.iter() {
      let s = m.span.span();
      groups.entry((m.span.lo.0, m.span.hi.0)).or_insert((s, vec![])).1.extend(m.locations.iter().map(|l| (m.place, *l)));
    }
    let groups: Vec<(Span, Vec<Target<'tcx>>)> = groups.into_values().collect();
    let spans_of: BTreeMap<usize, Vec<Span>> = spec
      .locs
      .iter()
      .map(|l| (spec.loc_bit(*l), LocationOrArg::Location(*l)))
      .chain(spec.args.iter().map(|a| (spec.arg_bit(*a), LocationOrArg::Arg(*a))))
      .map(|(b, l)| (b, spanner.location_to_spans(l, body, EnclosingHirSpans::OuterOnly)))
      .collect();
    // instructions that read or write, as a whole and not through a reference, a value the place reaches
    let mut touch: BTreeMap<Location, HashSet<Place<'tcx>>> = BTreeMap::new();
    for l in &spec.locs {
      for m in spec.mutations_at(*l) {
        let t = touch.entry(*l).or_default();
        t.extend(spec.reachable(m.mutated, Mutability::Mut));
        for i in m.inputs {
          t.extend(spec.reachable(i, Mutability::Not));
        }
      }
    }
    let direct = |ts: &[Target<'tcx>]| -> Vec<Location> {
      let about: HashSet<Place<'tcx>> = ts.iter().flat_map(|(p, _)| spec.reachable(*p, Mutability::Not)).collect();
      touch.iter().filter(|(_, t)| t.iter().any(|p| about.contains(p))).map(|(l, _)| *l).collect()
    };
    let containers: Vec<R> = {
      let params: Vec<Span> = tcx.hir_body(*id).params.iter().map(|p| p.span).collect();
      let mut v = vec![spanner.body_span, spanner.ret_span];
      if let (Some(a), Some(z)) = (params.iter().map(|s| s.lo()).min(), params.iter().map(|s| s.hi()).max()) {
        v.push(params[0].with_lo(a).with_hi(z));
      }
      v.into_iter().map(|s| range(&CharRange::from_span(s, sm).unwrap())).collect()
    };
    for (gi, (_, ts)) in groups.iter().enumerate() {
      let u = format!("{base}/{gi}");
      if !cx.wants(&u) {
        continue;
      }
      let nbits = cx.pick(2, 3);
      let variants = cx.pick(1, 4);
      let everywhere = cx.thorough();
      let addr = *bwf as *const BodyWithBorrowckFacts<'tcx> as usize;
      let (def, ts, sp) = (*def, ts.clone(), sp.clone());
      cx.unit_n(&u, 3_000, || {
        // which rows are symbolic
        let k = symrt::choose("rows", variants) as usize;
        let nlocs = spec.locs.len();
        let other = if everywhere { symrt::choose("other instruction", nlocs as u32) as usize } else { symrt::choose("other instruction", 3) as usize * 5 + gi };
        let other = spec.locs[other % nlocs];
        let t = ts[(gi + k) % ts.len()];
        let at = match t.1 {
          LocationOrArg::Arg(_) => Location::START,
          LocationOrArg::Location(l) => l,
        };
        let none = |_: Location| RState::new();
        let q0 = Q { spec: &spec, state: &none };
        let mut reach: Vec<_> = spec.queried(t.0).into_iter().collect();
        reach.sort_by_key(|p| (p.local, p.projection.len(), format!("{p:?}")));
        let source: HashSet<_> = spec.children(spec.norm(reach[k % reach.len()])).into_iter().map(|p| spec.norm(p)).collect();
        let written: HashSet<_> = q0.written(other).into_iter().map(|p| spec.norm(p)).collect();
        // dependencies that may vary
        let mut bits = vec![spec.loc_bit(at), spec.loc_bit(other)];
        bits.extend(spec.args.iter().map(|a| spec.arg_bit(*a)));
        bits.extend((0 .. w as usize).map(|i| (i * 7 + gi) % w as usize));
        let mut uniq: Vec<usize> = vec![];
        for b in bits {
          if !uniq.contains(&b) && uniq.len() < nbits {
            uniq.push(b);
          }
        }
        let rest = (0 .. w as usize).rev().find(|b| !uniq.contains(b)).map_or(SBV::zero(w), |b| SBV::single(w, b));
        let row = |name: String| {
          let v = symrt::fresh_bv(&name, uniq.len() as u32);
          uniq.iter().enumerate().fold(SBV::zero(w), |acc, (i, b)| acc.or(&SBV::ite(v.bit(i as u32), &SBV::single(w, *b), &SBV::zero(w))))
        };
        let mut states: BTreeMap<Location, RState<'tcx>> = BTreeMap::new();
        for m in [at, other] {
          let mut st = RState::new();
          for p in &sp {
            let q = spec.norm(*p);
            st.entry(q).or_insert_with(|| {
              if (m == at && source.contains(&q)) || (m == other && written.contains(&q)) { row(format!("{m:?} row {q:?}")) } else { rest.clone() }
            });
          }
          states.insert(m, st);
        }
        let st2 = states.clone();
        let observer = move |r: &FlowResults<'_, '_>| {
          let r: &FlowResults<'_, 'tcx> = unsafe { std::mem::transmute(r) };
          if r.analysis.def_id != def {
            return;
          }
          let bwf = unsafe { &*(addr as *const BodyWithBorrowckFacts<'tcx>) };
          let empty = RState::new();
          for l in rustc_utils::BodyExt::all_locations(&bwf.body) {
            set_state(r, l, real::to_domain(&r.analysis, st2.get(&l).unwrap_or(&empty)));
          }
        };
        let observer: Rc<dyn Fn(&FlowResults<'_, '_>) + '_> = Rc::new(observer);
        // removed again before this closure ends, also when the path is abandoned
        let observer: Rc<dyn Fn(&FlowResults<'_, '_>)> = unsafe { std::mem::transmute(observer) };
        OBSERVER.with(|o| *o.borrow_mut() = Some(observer));
        struct Off;
        impl Drop for Off {
          fn drop(&mut self) {
            OBSERVER.with(|o| *o.borrow_mut() = None);
          }
        }
        let off = Off;
        let got = focus(tcx, *id);
        drop(off);
        let got = match got {
          Ok(g) => g,
          Err(e) => return symrt::check(SBool::C(false), &format!("P14:{base}:error"), || format!("no output: {e}")),
        };
        let state = |l: Location| states.get(&l).cloned().unwrap_or_default();
        let q = Q { spec: &spec, state: &state };
        let mut seen = BTreeMap::new();
        for p in &got.place_info {
          *seen.entry(range(&p.range)).or_insert(0) += 1;
        }
        for (s, ts) in &groups {
          let r = range(&CharRange::from_span(*s, sm).unwrap());
          let key = format!("P14:{base}:{r:?}");
          let n = seen.remove(&r).unwrap_or(0);
          symrt::check(SBool::C(n == 1), &format!("{key}:once"), || format!("the expression at {r:?} is present {n} times"));
          let Some(info) = got.place_info.iter().find(|p| range(&p.range) == r) else { continue };
          let back = q.backward(ts);
          let fwd = q.forward(ts);
          let deps: Vec<usize> = (0 .. w as usize).filter(|b| symrt::branch(back.bit(*b as u32).or(fwd[*b]))).collect();
          let merged = Span::merge_overlaps(deps.iter().flat_map(|b| spans_of[b].clone()).collect());
          let direct: Vec<Span> = direct(ts)
            .into_iter()
            .flat_map(|l| spanner.location_to_spans(LocationOrArg::Location(l), body, EnclosingHirSpans::None))
            .filter(|s| merged.iter().any(|m| m.contains(*s)))
            .collect();
          let set = |v: &[CharRange]| -> BTreeSet<R> { v.iter().map(range).collect() };
          let want = |v: Vec<R>| -> BTreeSet<R> { v.into_iter().collect() };
          let parts = [
            ("ranges", set(&info.ranges), want(to_ranges(&[*s]))),
            ("slice", set(&info.slice), want(to_ranges(&merged))),
            ("direct influence", set(&info.direct_influence), want(to_ranges(&direct))),
          ];
          for (what, got, want) in parts {
            symrt::check(SBool::C(got == want), &format!("{key}:{what}"), || {
              format!("the {what} of the expression at {r:?}: {:?} too many, {:?} missing", got.difference(&want).collect::<Vec<_>>(), want.difference(&got).collect::<Vec<_>>())
            });
          }
        }
        symrt::check(SBool::C(seen.is_empty()), &format!("P14:{base}:extra"), || format!("not selectable: {seen:?}"));
        let got: Vec<R> = got.containers.iter().map(range).collect();
        symrt::check(SBool::C(got == containers), &format!("P14:{base}:containers"), || format!("containers {got:?} instead of {containers:?}"));
      });
    }
  }
}
