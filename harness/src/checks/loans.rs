//! P06: possible targets of references, for every outlives relation among selected lifetimes.
use std::collections::{BTreeSet, HashSet};
use std::mem::ManuallyDrop;

use flowistry::mir::aliases::Aliases;
use flowistry::mir::placeinfo::PlaceInfo;
use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_middle::mir::*;
use rustc_middle::ty::RegionVid;
use rustc_utils::mir::place::UNKNOWN_REGION;
use rustc_utils::PlaceExt;
use symrt::SBool;

use super::{A_TRUST, Info, step};
use crate::real;
use crate::session::{Bodies, Ctx, compile, corpus};
use crate::spec::{Spec, SpecMode, loan_rules, ref_loans};

pub fn info() -> Info {
  Info {
    functions: vec!["Aliases::{build,build_with_fact_selection,compute_loans,aliases}", "GatherBorrows", "generate_conservative_constraints", "PlaceInfo::{build,aliases,reachable_values}"],
    bounds_quick: "the borrow checker's own relation of every corpus function, and every outlives relation among selected triples of its lifetimes (others as inferred)".into(),
    bounds_thorough: "the same with more triples, and every relation among selected quadruples; also in conservative pointer mode".into(),
    assumptions: vec![A_TRUST, "outlives relations are symbolic booleans forked on; loan sets themselves are concrete on each path", super::A_CORPUS],
  }
}

pub fn run(cx: &mut Ctx) {
  for (file, src) in corpus("step") {
    if cx.wants_file(&file) {
      compile(&src, &[], |b| session(cx, &file, &b));
    }
  }
}

fn refact<'tcx>(
  bwf: &BodyWithBorrowckFacts<'tcx>,
  edges: &BTreeSet<(RegionVid, RegionVid)>,
) -> ManuallyDrop<BodyWithBorrowckFacts<'tcx>> {
  unsafe {
    let mut b = ManuallyDrop::new(std::ptr::read(bwf));
    let mut facts = ManuallyDrop::new(std::ptr::read(&**bwf.input_facts.as_ref().unwrap()));
    let point = bwf.location_table.as_ref().unwrap().start_index(Location::START);
    std::ptr::write(&mut facts.subset_base, edges.iter().map(|(a, b)| ((*a).into(), (*b).into(), point)).collect());
    let boxed = Box::new(ManuallyDrop::into_inner(facts));
    std::ptr::write(&mut b.input_facts, Some(boxed));
    b
  }
}

fn session(cx: &mut Ctx, file: &str, b: &Bodies<'_>) {
  let tcx = b.tcx;
  for (name, _, def, bwf) in &b.list {
    let base = format!("{file}/{name}");
    cx.functions.insert(base.clone());
    let body = &bwf.body;
    let original: BTreeSet<(RegionVid, RegionVid)> = bwf
      .input_facts
      .as_ref()
      .unwrap()
      .subset_base
      .iter()
      .map(|(a, b, _)| (RegionVid::from(*a), RegionVid::from(*b)))
      .collect();
    let modes = [false, true];
    let mut of_interest: BTreeSet<RegionVid> = BTreeSet::new();
    let spec0 = Spec::new(tcx, *def, bwf, SpecMode::default());
    let (_, seed, definite) = loan_rules(tcx, *def, bwf, SpecMode::default(), &|_, _| true);
    for l in body.local_decls.indices() {
      of_interest.extend(Place::from_local(l, tcx).interior_pointers(tcx, body, *def).into_keys().filter(|r| *r != UNKNOWN_REGION));
    }
    let borrows: Vec<RegionVid> = definite.keys().chain(seed.keys()).copied().filter(|r| *r != UNKNOWN_REGION).collect::<BTreeSet<_>>().into_iter().collect();
    of_interest.extend(borrows.iter().copied());
    let all: Vec<RegionVid> = of_interest.into_iter().collect();
    let derefs: Vec<Place<'_>> = step::places(&spec0);

    // selected groups of lifetimes
    let mut groups: Vec<Vec<RegionVid>> = vec![vec![]];
    let want = cx.pick(24, 80);
    let quads = cx.pick(1, 12);
    let mut rng = 0x9e3779b97f4a7c15u64 ^ cx.seed;
    let mut next = |n: usize| {
      rng ^= rng << 13;
      rng ^= rng >> 7;
      rng ^= rng << 17;
      (rng >> 11) as usize % n
    };
    if all.len() >= 3 && !borrows.is_empty() {
      for i in 0 .. want + quads {
        let k = if i < want { 3 } else { 4.min(all.len()) };
        let mut g = BTreeSet::from([borrows[next(borrows.len())]]);
        while g.len() < k {
          g.insert(all[next(all.len())]);
        }
        groups.push(g.into_iter().collect());
      }
    } else if all.len() == 2 {
      groups.push(all.clone());
    }
    for (gi, group) in groups.iter().enumerate() {
      for conservative in modes {
        if conservative && !cx.thorough() && gi > 0 {
          continue;
        }
        let u = format!("{base}/{gi}{}", if conservative { "c" } else { "" });
        let mode = SpecMode { ignore_mut: false, conservative };
        let statics = RegionVid::from_usize(0);
        cx.unit(&u, || {
          real::with_spec_mode(mode, || {
            let mut edges: BTreeSet<_> =
              original.iter().copied().filter(|(a, b)| !(group.contains(a) && group.contains(b))).collect();
            for a in group {
              for b in group {
                if a != b && symrt::branch(symrt::fresh_bool(&format!("{a:?} flows into {b:?}"))) {
                  edges.insert((*a, *b));
                }
              }
            }
            let rb = refact(bwf, &edges);
            let rb: &BodyWithBorrowckFacts<'_> = unsafe { &*(&*rb as *const _) };
            let loans = ref_loans(tcx, *def, rb, mode, &|_, _| true);
            let spec = Spec::with_loans(tcx, *def, body, mode, loans);
            let pi = PlaceInfo::build(tcx, *def, rb);
            // the same relation, selected out of a larger set of facts
            let mut more = edges.clone();
            more.extend(group.iter().flat_map(|a| group.iter().map(move |b| (*a, *b))));
            let rb2 = refact(bwf, &more);
            let rb2: &BodyWithBorrowckFacts<'_> = unsafe { &*(&*rb2 as *const _) };
            let al = Aliases::build_with_fact_selection(tcx, *def, rb2, |a, b, _| a == statics || edges.contains(&(a, b)));
            for p in &derefs {
              let want: HashSet<Place<'_>> = spec.aliases(*p).into_iter().collect();
              let got: HashSet<Place<'_>> = al.aliases(*p).into_iter().collect();
              symrt::check(SBool::C(want == got), &format!("P06:{base}:{gi}:{p:?}"), || {
                format!("targets of {p:?} should be {want:?} but are {got:?} under {edges:?}")
              });
              let got: HashSet<Place<'_>> = pi.aliases(*p).iter().copied().collect();
              symrt::check(SBool::C(want == got), &format!("P06:{base}:{gi}:{p:?}:placeinfo"), || {
                format!("targets of {p:?} should be {want:?} but are {got:?} under {edges:?}")
              });
              for m in [Mutability::Not, Mutability::Mut] {
                let want: HashSet<Place<'_>> = spec.reachable(*p, m).into_iter().collect();
                let got: HashSet<Place<'_>> = pi.reachable_values(*p, m).iter().copied().collect();
                symrt::check(SBool::C(want == got), &format!("P06:{base}:{gi}:{p:?}:reach {m:?}"), || {
                  format!("values reachable from {p:?} should be {want:?} but are {got:?} under {edges:?}")
                });
              }
            }
          })
        });
      }
    }
  }
}
