//! P10 (dependency queries on arbitrary results) and P12 (imprecise modes only add).
use std::collections::HashSet;

use flowistry::infoflow::{Direction, FlowDomain, FlowResults, compute_dependencies, compute_flow};
use rustc_middle::mir::*;
use rustc_mir_dataflow::Analysis;
use rustc_utils::mir::location_or_arg::LocationOrArg;
use symrt::{SBV, SBool};

use super::{A_CORPUS, A_SYM, A_TRUST, Info, step};
use crate::real;
use crate::session::{Bodies, Ctx, compile, corpus};
use crate::spec::{RState, Spec, SpecMode};

pub fn info(pid: &str) -> Info {
  match pid {
    "P10" => Info {
      functions: vec!["compute_dependencies", "TargetDeps::new", "FlowAnalysis::deps_for", "ModularMutationVisitor", "PlaceInfo::{reachable_values,children,normalize}"],
      bounds_quick: "every location of every corpus function as the queried instruction against 4 target sets, the states at the target and at the instruction symbolic in up to 6 dependencies; backward queries with fully symbolic states".into(),
      bounds_thorough: "the same against 24 target sets, 8 dependencies".into(),
      assumptions: vec![A_SYM, A_TRUST, A_CORPUS, "the results object is produced by compute_flow and its states are then replaced by symbolic ones"],
    },
    _ => Info {
      functions: vec!["FlowAnalysis::{apply_primary_*_effect,initialize_start_block,deps_for}", "Aliases::build", "generate_conservative_constraints", "PlaceInfo::reachable_values", "is_extension_active"],
      bounds_quick: "every instruction of every corpus function, default against each imprecise mode, from a pair of symbolic states one included in the other".into(),
      bounds_thorough: "the same in all combinations of modes, all reads".into(),
      assumptions: vec![A_SYM, A_TRUST, A_CORPUS, "inclusion of whole results follows from inclusion of each step, of the entry state and P04"],
    },
  }
}

pub fn run(cx: &mut Ctx) {
  for (file, src) in corpus("step") {
    if cx.wants_file(&file) {
      compile(&src, &[], |b| if cx.pid == "P10" { queries(cx, &file, &b) } else { modes(cx, &file, &b) });
    }
  }
}

/// Replace the state the results hold for a location.
pub fn set_state<'tcx>(r: &FlowResults<'_, 'tcx>, l: Location, d: FlowDomain<'tcx>) {
  let p = r.state_at(l) as *const FlowDomain<'tcx> as *mut FlowDomain<'tcx>;
  unsafe { *std::hint::black_box(p) = d };
}

pub type Target<'tcx> = (Place<'tcx>, LocationOrArg);

pub struct Q<'q, 'a, 'tcx> {
  pub spec: &'q Spec<'a, 'tcx>,
  pub state: &'q dyn Fn(Location) -> RState<'tcx>,
}
impl<'tcx> Q<'_, '_, 'tcx> {
  pub fn backward(&self, ts: &[Target<'tcx>]) -> SBV {
    let mut v = SBV::zero(self.spec.width());
    for (p, l) in ts {
      v = v.or(&match l {
        LocationOrArg::Arg(a) => SBV::single(self.spec.width(), self.spec.arg_bit(*a)),
        LocationOrArg::Location(l) => self.spec.deps_for(&(self.state)(*l), *p),
      });
    }
    v
  }
  pub fn written(&self, l: Location) -> Vec<Place<'tcx>> {
    let spec = self.spec;
    match spec.body.stmt_at(l) {
      either::Either::Right(Terminator { kind: TerminatorKind::SwitchInt { discr, .. }, .. }) => discr.as_place().into_iter().collect(),
      _ => spec.mutations_at(l).into_iter().map(|m| m.mutated).collect(),
    }
  }
  /// Per output bit: is it in the forward slice?
  pub fn forward(&self, ts: &[Target<'tcx>]) -> Vec<SBool> {
    let (spec, w) = (self.spec, self.spec.width());
    let mut sources = vec![];
    for (p, l) in ts {
      let (at, bit) = match l {
        LocationOrArg::Arg(a) => (Location::START, spec.arg_bit(*a)),
        LocationOrArg::Location(l) => (*l, spec.loc_bit(*l)),
      };
      let st = (self.state)(at);
      for r in spec.queried(*p) {
        let mut f = SBV::ones(w);
        for c in spec.children(spec.norm(r)) {
          f = f.and(st.get(&c).unwrap_or(&SBV::zero(w)));
        }
        sources.push(f.or(&SBV::single(w, bit)));
      }
    }
    let mut out = vec![];
    for l in &spec.locs {
      let st = (self.state)(*l);
      let written = self.written(*l);
      out.push(SBool::any(written.iter().flat_map(|p| {
        let row = spec.row(&st, *p);
        sources.iter().map(move |s| s.subset_of(&row)).collect::<Vec<_>>()
      })));
    }
    for a in &spec.args {
      let only = SBV::single(w, spec.arg_bit(*a));
      out.push(SBool::any(sources.iter().map(|s| s.eq(&only))));
    }
    out
  }
}
use rustc_utils::OperandExt;

fn queries<'tcx>(cx: &mut Ctx, file: &str, b: &Bodies<'tcx>) {
  let tcx = b.tcx;
  for (name, id, def, bwf) in &b.list {
    let base = format!("{file}/{name}");
    cx.functions.insert(base.clone());
    let spec = Spec::new(tcx, *def, bwf, SpecMode::default());
    let sp = step::state_places(&spec);
    let ps = step::places(&spec);
    let w = spec.width();
    let nlocs = spec.locs.len();
    let target = |k: usize| -> Target<'tcx> {
      let p = ps[(k * 7 + 1) % ps.len()];
      if k % 4 == 3 && !spec.args.is_empty() {
        let a = spec.args[k / 4 % spec.args.len()];
        (Place::from(a), LocationOrArg::Arg(a))
      } else {
        (p, LocationOrArg::Location(spec.locs[(k * 5 + 2) % nlocs]))
      }
    };
    for (i, l) in spec.locs.iter().enumerate() {
      let u = format!("{base}/{l:?}");
      if !cx.wants(&u) {
        continue;
      }
      let n = cx.pick(4, 24);
      let nbits = cx.pick(4, 6);
      let thorough = cx.thorough();
      let npaths = cx.pick(4_000, 40_000);
      cx.unit_n(&u, npaths, || {
        let r = compute_flow(tcx, *id, bwf);
        let pick = symrt::choose("target", n) as usize;
        let k = pick + i;
        let (t1, t2) = (target(k), target(k * 3 + 1));
        let pair = k % 2 == 1;
        let sets: Vec<Vec<Target<'tcx>>> = if pair { vec![vec![t1, t2]] } else { vec![vec![t1], vec![t2, t1]] };
        let at = |t: Target<'tcx>| match t.1 {
          LocationOrArg::Arg(_) => Location::START,
          LocationOrArg::Location(l) => l,
        };
        // dependencies that may vary: the arguments, the targets, the queried instruction
        let mut bits: Vec<usize> = vec![spec.loc_bit(at(t1)), spec.loc_bit(*l)];
        bits.extend(spec.args.iter().map(|a| spec.arg_bit(*a)));
        bits.push(spec.loc_bit(at(t2)));
        bits.extend((0 .. nlocs).step_by(3));
        let mut uniq: Vec<usize> = vec![];
        for b in bits {
          if !uniq.contains(&b) && uniq.len() < nbits {
            uniq.push(b);
          }
        }
        let mask = SBV::from_bits((0 .. w as usize).map(|i| uniq.contains(&i)).collect());
        let empty = FlowDomain::new(r.analysis.location_domain());
        let symbolic = [at(t1), *l];
        for m in &spec.locs {
          if !symbolic.contains(m) {
            set_state(&r, *m, empty.clone());
          }
        }
        // At the targets the rows of one value reachable from a target, at the instruction the row of one
        // place it writes; everywhere else just one dependency that the others lack. (Every second target of
        // the thorough tier: all rows.)
        let none = |_: Location| RState::new();
        let q0 = Q { spec: &spec, state: &none };
        let all = thorough && pick % 2 == 1;
        let mut focus: HashSet<Place<'tcx>> = HashSet::new();
        let written = q0.written(*l);
        if !written.is_empty() {
          focus.insert(spec.norm(written[k % written.len()]));
        }
        let mut reach: Vec<_> = spec.queried(t1.0).into_iter().collect();
        reach.sort_by_key(|p| (p.local, p.projection.len(), format!("{p:?}")));
        let source: HashSet<_> = match reach.get(k / 2 % reach.len().max(1)) {
          Some(p) => spec.children(spec.norm(*p)).into_iter().map(|p| spec.norm(p)).collect(),
          None => HashSet::new(),
        };
        let other = (0 .. w as usize).find(|b| !uniq.contains(b)).map_or(SBV::zero(w), |b| SBV::single(w, b));
        for m in symbolic {
          let mut st = RState::new();
          for p in &sp {
            let q = spec.norm(*p);
            let free = all || (m == *l && focus.contains(&q)) || (m == at(t1) && source.contains(&q));
            st.entry(q).or_insert_with(|| {
              if free { symrt::fresh_bv(&format!("{m:?} row {q:?}"), w).and(&mask) } else { other.clone() }
            });
          }
          set_state(&r, m, real::to_domain(&r.analysis, &st));
        }
        let state = |l: Location| real::rows(r.state_at(l));
        let q = Q { spec: &spec, state: &state };
        let which = symrt::choose("direction", if pick == 0 { 3 } else { 2 });
        let dir = [Direction::Forward, Direction::Backward, Direction::Both][which as usize];
        let got = compute_dependencies(&r, sets.clone(), dir);
        symrt::check(SBool::C(got.len() == sets.len()), &format!("P10:{base}:{l:?}:count"), || "one result per target set".into());
        let mut items = vec![];
        for (si, (ts, g)) in sets.iter().zip(&got).enumerate() {
          let g = real::bv_of(g);
          let back = if which == 0 { SBV::zero(w) } else { q.backward(ts) };
          let fwd = if which == 1 { vec![SBool::C(false); w as usize] } else { q.forward(ts) };
          for bit in 0 .. w {
            let want = back.bit(bit).or(fwd[bit as usize]);
            items.push((format!("P10:{base}:{l:?}:{dir:?}:{}", spec.bit_name(bit as usize)), g.bit(bit).iff(want), si));
          }
        }
        symrt::check_all(items.iter().map(|i| (i.0.clone(), i.1)).collect(), |j| {
          format!("{dir:?} query of {:?}: {} wrongly present or absent", sets[items[j].2], items[j].0)
        });
      });
    }
    // answers do not depend on the company or order of the target sets (fully symbolic states, backward)
    let u = format!("{base}/batch");
    cx.unit_n(&u, 500, || {
      let r = compute_flow(tcx, *id, bwf);
      let k = symrt::choose("targets", 4) as usize;
      let ts: Vec<Target<'tcx>> = (0 .. 4).map(|i| target(i * 3 + k)).collect();
      for t in &ts {
        if let LocationOrArg::Location(l) = t.1 {
          let mut st = RState::new();
          for p in &sp {
            let q = spec.norm(*p);
            st.entry(q).or_insert_with(|| symrt::fresh_bv(&format!("{l:?} row {q:?}"), w));
          }
          set_state(&r, l, real::to_domain(&r.analysis, &st));
        }
      }
      let ask = |sets: Vec<Vec<Target<'tcx>>>| -> Vec<SBV> {
        compute_dependencies(&r, sets, Direction::Backward).iter().map(real::bv_of).collect()
      };
      let state = |l: Location| real::rows(r.state_at(l));
      let q = Q { spec: &spec, state: &state };
      let all = ask(ts.iter().map(|t| vec![*t]).chain([ts.clone()]).collect());
      let mut items = vec![];
      for (i, t) in ts.iter().enumerate() {
        items.push((format!("P10:{base}:batch {t:?}"), all[i].eq(&q.backward(&[*t]))));
        items.push((format!("P10:{base}:alone {t:?}"), all[i].eq(&ask(vec![vec![*t]])[0])));
      }
      items.push((format!("P10:{base}:batch union"), all[4].eq(&q.backward(&ts))));
      let rev = ask(ts.iter().rev().map(|t| vec![*t]).collect());
      for (i, v) in rev.iter().rev().enumerate() {
        items.push((format!("P10:{base}:order {i}"), v.eq(&all[i])));
      }
      symrt::check_all(items, |_| format!("backward query of {ts:?}"));
    });
  }
}

fn modes(cx: &mut Ctx, file: &str, b: &Bodies<'_>) {
  let tcx = b.tcx;
  let kinds = [(true, false), (false, true), (true, true)];
  for (name, _, def, bwf) in &b.list {
    let base = format!("{file}/{name}");
    cx.functions.insert(base.clone());
    let body = &bwf.body;
    let default = SpecMode::default();
    let spec = Spec::new(tcx, *def, bwf, default);
    let w = spec.width();
    for (ki, (ignore_mut, conservative)) in kinds.into_iter().enumerate() {
      let mode = SpecMode { ignore_mut, conservative };
      let spec2 = real::with_spec_mode(mode, || Spec::new(tcx, *def, bwf, mode));
      let mut sp = step::state_places(&spec2);
      sp.extend(step::state_places(&spec));
      let ps = step::places(&spec);
      let states = || {
        let mut a = RState::new();
        let mut b = RState::new();
        for p in &sp {
          let q = spec.norm(*p);
          if !a.contains_key(&q) {
            let x = symrt::fresh_bv(&format!("row {q:?}"), w);
            b.insert(q, x.or(&symrt::fresh_bv(&format!("more {q:?}"), w)));
            a.insert(q, x);
          }
        }
        (a, b)
      };
      let tag = format!("{base}/{}", ["ignore-mut", "conservative", "both"][ki]);
      for loc in spec.locs.clone() {
        let u = format!("{tag}/{loc:?}");
        if !cx.wants(&u) {
          continue;
        }
        let thorough = cx.thorough();
        cx.unit(&u, || {
          let (a, b) = states();
          let mut fa1 = real::analysis(tcx, *def, bwf);
          let mut d1 = real::to_domain(&fa1, &a);
          real::apply(&mut fa1, body, &mut d1, loc);
          let mut de = real::to_domain(&fa1, &a);
          real::with_mode(Some(real::mode(false, false, false)), || {
            let mut fa = real::analysis(tcx, *def, bwf);
            real::apply(&mut fa, body, &mut de, loc);
          });
          let r1 = real::rows(&d1);
          step::bounds(&spec, "P12", &format!("{tag}/{loc:?}:explicit-default"), &real::rows(&de), Some(&r1), Some(&r1), &a);
          real::with_spec_mode(mode, || {
            let mut fa2 = real::analysis(tcx, *def, bwf);
            let mut d2 = real::to_domain(&fa2, &b);
            real::apply(&mut fa2, body, &mut d2, loc);
            let r2 = real::rows(&d2);
            step::bounds(&spec, "P12", &format!("{tag}/{loc:?}"), &r2, Some(&r1), None, &a);
            let lo = spec2.transfer(&b, &spec2.mutations_at(loc), loc, false);
            step::bounds(&spec, "P12", &format!("{tag}/{loc:?}:mode"), &r2, Some(&lo), None, &b);
            if thorough {
              reads(&ps, &fa1, &d1, &fa2, &d2, &format!("P12:{tag}/{loc:?}"));
            }
          });
        });
      }
      cx.unit(&format!("{tag}/reads"), || {
        let (a, b) = states();
        let fa1 = real::analysis(tcx, *def, bwf);
        let mut d1 = real::to_domain(&fa1, &a);
        let fa2 = real::with_spec_mode(mode, || real::analysis(tcx, *def, bwf));
        let mut d2 = real::to_domain(&fa2, &b);
        reads_modes(mode, &ps, &fa1, &d1, &fa2, &d2, &format!("P12:{tag}"));
        fa1.initialize_start_block(body, &mut d1);
        real::with_spec_mode(mode, || fa2.initialize_start_block(body, &mut d2));
        step::bounds(&spec, "P12", &format!("{tag}/entry"), &real::rows(&d2), Some(&real::rows(&d1)), None, &a);
      });
    }
  }
}

type Fa<'a, 'tcx> = flowistry::infoflow::FlowAnalysis<'a, 'tcx>;

fn reads<'tcx>(ps: &[Place<'tcx>], fa1: &Fa<'_, 'tcx>, d1: &FlowDomain<'tcx>, fa2: &Fa<'_, 'tcx>, d2: &FlowDomain<'tcx>, key: &str) {
  // called with the imprecise mode active
  let precise: Vec<SBV> = real::with_mode(Some(real::mode(false, false, false)), || ps.iter().map(|p| real::bv_of(&fa1.deps_for(d1, *p))).collect());
  let items = ps.iter().zip(precise).map(|(p, x)| (format!("{key}:read {p:?}"), x.subset_of(&real::bv_of(&fa2.deps_for(d2, *p))))).collect();
  symrt::check_all(items, |i| format!("reading {:?} loses a dependency in the imprecise mode", ps[i]));
}
fn reads_modes<'tcx>(mode: SpecMode, ps: &[Place<'tcx>], fa1: &Fa<'_, 'tcx>, d1: &FlowDomain<'tcx>, fa2: &Fa<'_, 'tcx>, d2: &FlowDomain<'tcx>, key: &str) {
  real::with_spec_mode(mode, || reads(ps, fa1, d1, fa2, d2, key))
}
