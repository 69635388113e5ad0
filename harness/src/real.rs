//! Access to the real analysis on symbolic states.
use flowistry::extensions::{ContextMode, EVAL_MODE, EvalMode, MutabilityMode, PointerMode};
use flowistry::infoflow::{FlowAnalysis, FlowDomain};
use flowistry::mir::placeinfo::PlaceInfo;
use indexical::bitset::sym::SymBitSet;
use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::TyCtxt;
use rustc_mir_dataflow::Analysis;
use rustc_utils::mir::location_or_arg::index::LocationOrArgSet;
use symrt::SBV;

use crate::spec::{RState, Spec, SpecMode};

pub fn mode(ignore_mut: bool, conservative: bool, recurse: bool) -> EvalMode {
  EvalMode {
    mutability_mode: if ignore_mut { MutabilityMode::IgnoreMut } else { MutabilityMode::DistinguishMut },
    context_mode: if recurse { ContextMode::Recurse } else { ContextMode::SigOnly },
    pointer_mode: if conservative { PointerMode::Conservative } else { PointerMode::Precise },
  }
}

pub fn with_mode<R>(m: Option<EvalMode>, f: impl FnOnce() -> R) -> R {
  match m {
    None => f(),
    Some(m) => EVAL_MODE.set(m, f),
  }
}
pub fn with_spec_mode<R>(m: SpecMode, f: impl FnOnce() -> R) -> R {
  with_mode(if m == SpecMode::default() { None } else { Some(mode(m.ignore_mut, m.conservative, false)) }, f)
}

pub fn analysis<'a, 'tcx>(
  tcx: TyCtxt<'tcx>,
  def_id: DefId,
  bwf: &'a BodyWithBorrowckFacts<'tcx>,
) -> FlowAnalysis<'a, 'tcx> {
  let pi = PlaceInfo::build(tcx, def_id, bwf);
  FlowAnalysis::new(tcx, def_id, &bwf.body, pi)
}

pub fn set_of(fa: &FlowAnalysis<'_, '_>, bv: SBV) -> LocationOrArgSet {
  LocationOrArgSet::from_inner(SymBitSet::from_bv(bv), fa.location_domain())
}
pub fn bv_of(s: &LocationOrArgSet) -> SBV {
  s.inner().bv()
}

/// A concrete-or-symbolic reference state as a state of the real analysis.
pub fn to_domain<'tcx>(fa: &FlowAnalysis<'_, 'tcx>, st: &RState<'tcx>) -> FlowDomain<'tcx> {
  let mut d = FlowDomain::new(fa.location_domain());
  let mut ps: Vec<_> = st.iter().collect();
  ps.sort_by_key(|(p, _)| (p.local, p.projection.len(), format!("{p:?}")));
  for (p, bv) in ps {
    d.union_into_row(*p, &set_of(fa, bv.clone()));
  }
  d
}
pub fn rows<'tcx>(d: &FlowDomain<'tcx>) -> RState<'tcx> {
  d.rows().map(|(p, s)| (*p, bv_of(s))).collect()
}

/// A row of unconstrained bits for every place.
pub fn symbolic_state<'tcx>(spec: &Spec<'_, 'tcx>, places: &[Place<'tcx>]) -> RState<'tcx> {
  let w = spec.width();
  let mut st = RState::new();
  for p in places {
    let n = spec.norm(*p);
    st.entry(n).or_insert_with(|| symrt::fresh_bv(&format!("row {n:?}"), w));
  }
  st
}

pub fn apply<'tcx>(fa: &mut FlowAnalysis<'_, 'tcx>, body: &Body<'tcx>, st: &mut FlowDomain<'tcx>, loc: Location) {
  match body.stmt_at(loc) {
    either::Either::Left(s) => fa.apply_primary_statement_effect(st, s, loc),
    either::Either::Right(t) => {
      fa.apply_primary_terminator_effect(st, t, loc);
    }
  }
}
