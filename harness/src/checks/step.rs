//! One instruction, any prior state: P02, P03, P08 (transfer function), P09 (reading), P16 (entry), P07
//! (write one place, read another).
use std::collections::HashSet;

use rustc_middle::mir::visit::{PlaceContext, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::{TyCtxt, TyKind};
use rustc_mir_dataflow::Analysis;
use rustc_span::DUMMY_SP;
use rustc_utils::PlaceExt;
use symrt::{SBV, SBool};

use super::{A_CORPUS, A_SYM, A_TRUST, Info};
use crate::real;
use crate::session::{Bodies, Ctx, compile, corpus};
use crate::spec::{Mut, RState, Spec, SpecMode};

pub fn info(pid: &str) -> Info {
  let functions = match pid {
    "P16" => vec!["FlowAnalysis::initialize_start_block", "PlaceInfo::{all_args,conflicts,normalize}"],
    "P09" => vec!["FlowAnalysis::{deps_for,influences}", "PlaceInfo::{reachable_values,aliases,conflicts,children,normalize}"],
    _ => vec![
      "FlowAnalysis::{apply_primary_statement_effect,apply_primary_terminator_effect,transfer_function,influences,deps_for}",
      "ModularMutationVisitor",
      "PlaceInfo::{aliases,conflicts,children,reachable_values,normalize}",
      "Aliases::build",
    ],
  };
  Info {
    functions,
    bounds_quick: "every instruction of every corpus function from a fully symbolic state (one unconstrained bit per place and dependency), in the default, ignore-mutability and conservative-pointer modes; every branch deciding on every place; plus a strided selection of constructed instructions".into(),
    bounds_thorough: "every instruction of every corpus function from a fully symbolic state, under all mode combinations; plus all constructed instructions over pairs/triples of the function's places".into(),
    assumptions: vec![A_SYM, A_TRUST, A_CORPUS],
  }
}

pub fn run(cx: &mut Ctx) {
  for (file, src) in corpus("step") {
    if !cx.wants_file(&file) {
      continue;
    }
    compile(&src, &[], |b| session(cx, &file, &b));
  }
}

/// Places occurring in the body or derivable from its locals, one representative each.
pub fn places<'tcx>(spec: &Spec<'_, 'tcx>) -> Vec<Place<'tcx>> {
  struct C<'tcx>(Vec<Place<'tcx>>);
  impl<'tcx> Visitor<'tcx> for C<'tcx> {
    fn visit_place(&mut self, p: &Place<'tcx>, _: PlaceContext, _: Location) {
      self.0.push(*p)
    }
  }
  let mut c = C(vec![]);
  for (bb, d) in spec.body.basic_blocks.iter_enumerated() {
    c.visit_basic_block_data(bb, d);
  }
  let mut seen = HashSet::new();
  let mut out = vec![];
  for p in c.0.into_iter().chain(spec.all_places()) {
    if seen.insert(spec.norm(p)) {
      out.push(p);
    }
  }
  out.sort_by_key(|p| (p.local, p.projection.len(), format!("{p:?}")));
  out
}

/// Rows of the symbolic state: everything that could have been written or read.
pub fn state_places<'tcx>(spec: &Spec<'_, 'tcx>) -> Vec<Place<'tcx>> {
  let mut seen = HashSet::new();
  let mut out = vec![];
  for p in places(spec) {
    for a in spec.aliases(p) {
      for c in spec.conflicts(a) {
        if seen.insert(spec.norm(c)) {
          out.push(c);
        }
      }
    }
  }
  out.sort_by_key(|p| (p.local, p.projection.len(), format!("{p:?}")));
  out
}

fn modes(cx: &Ctx) -> Vec<SpecMode> {
  let m = |ignore_mut, conservative| SpecMode { ignore_mut, conservative };
  if cx.thorough() { vec![m(false, false), m(true, false), m(false, true), m(true, true)] } else { vec![m(false, false), m(true, false), m(false, true)] }
}

fn mode_name(m: SpecMode) -> &'static str {
  match (m.ignore_mut, m.conservative) {
    (false, false) => "",
    (true, false) => "/ignore-mut",
    (false, true) => "/conservative",
    (true, true) => "/ignore-mut+conservative",
  }
}

pub fn session(cx: &mut Ctx, file: &str, b: &Bodies<'_>) {
  let tcx = b.tcx;
  for (name, _, def, bwf) in &b.list {
    let base = format!("{file}/{name}");
    cx.functions.insert(base.clone());
    let body = &bwf.body;
    for mode in modes(cx) {
      real::with_spec_mode(mode, || {
        let spec = Spec::new(tcx, *def, bwf, mode);
        let base = format!("{base}{}", mode_name(mode));
        let sp = state_places(&spec);
        match cx.pid.as_str() {
          "P16" => {
            let fa = real::analysis(tcx, *def, bwf);
            cx.unit(&base, || {
              let pre = if symrt::choose("entry state", 2) == 0 { RState::new() } else { real::symbolic_state(&spec, &sp) };
              let mut d = real::to_domain(&fa, &pre);
              fa.initialize_start_block(body, &mut d);
              let want = spec.init(&pre);
              compare(&spec, "P16", &base, &real::rows(&d), &want, &want, &pre);
            });
          }
          "P09" => {
            let qs = places(&spec);
            for (i, q) in qs.iter().enumerate() {
              let u = format!("{base}/{i}:{q:?}");
              if !cx.wants(&u) {
                continue;
              }
              let fa = real::analysis(tcx, *def, bwf);
              cx.unit(&u, || {
                let pre = real::symbolic_state(&spec, &sp);
                let d = real::to_domain(&fa, &pre);
                let got = real::bv_of(&fa.deps_for(&d, *q));
                let want = spec.deps_for(&pre, *q);
                symrt::check(got.eq(&want), &format!("P09:{base}:{q:?}"), || {
                  format!("deps_for({q:?}) differs from the union over everything that can influence it\nmissing {}\nextra {}",
                    names(&spec, &want.and(&got.not())), names(&spec, &got.and(&want.not())))
                });
                let again = real::bv_of(&fa.deps_for(&d, *q));
                symrt::check(again.eq(&got), &format!("P09:{base}:{q:?}:again"), || "a second read differs".into());
                compare(&spec, "P09", &base, &real::rows(&d), &pre, &pre, &pre);
              });
            }
          }
          "P07" => write_read(cx, tcx, *def, bwf, &spec, &base, &sp),
          _ => {
            for loc in spec.locs.clone() {
              let is_call = matches!(body.stmt_at(loc), either::Either::Right(t) if matches!(t.kind, TerminatorKind::Call { .. }));
              if cx.pid == "P08" && !is_call {
                continue;
              }
              let u = format!("{base}/{loc:?}");
              if !cx.wants(&u) {
                continue;
              }
              let mut fa = real::analysis(tcx, *def, bwf);
              let muts = spec.mutations_at(loc);
              let pid = cx.pid.clone();
              cx.unit(&u, || {
                let pre = real::symbolic_state(&spec, &sp);
                let mut d = real::to_domain(&fa, &pre);
                real::apply(&mut fa, body, &mut d, loc);
                step_check(&spec, &pid, &format!("{base}/{loc:?}"), &pre, &muts, loc, &d);
              });
            }
            let main = cx.thorough() || mode == SpecMode::default();
            if cx.pid != "P05" && main {
              crafted(cx, tcx, *def, bwf, &spec, &base, &sp);
            }
            if cx.pid != "P08" && main {
              conditions(cx, tcx, *def, bwf, &spec, &base, &sp);
            }
          }
        }
      });
    }
  }
}

fn names(spec: &Spec<'_, '_>, v: &SBV) -> String {
  match v.as_const() {
    Some(b) => b.iter().enumerate().filter(|(_, x)| **x).map(|(i, _)| spec.bit_name(i)).collect::<Vec<_>>().join(" "),
    None => "(symbolic)".into(),
  }
}

pub fn step_check<'tcx>(
  spec: &Spec<'_, 'tcx>,
  pid: &str,
  base: &str,
  pre: &RState<'tcx>,
  muts: &[Mut<'tcx>],
  loc: Location,
  post: &flowistry::infoflow::FlowDomain<'tcx>,
) {
  let rows = real::rows(post);
  let zero = RState::new();
  let (lo, hi);
  match pid {
    "P02" => {
      lo = spec.transfer(pre, muts, loc, false);
      bounds(spec, pid, base, &rows, Some(&lo), None, pre);
    }
    "P03" => {
      hi = spec.transfer(pre, muts, loc, true);
      bounds(spec, pid, base, &rows, None, Some(&hi), pre);
    }
    _ => {
      lo = spec.transfer(pre, muts, loc, false);
      hi = spec.transfer(pre, muts, loc, true);
      bounds(spec, pid, base, &rows, Some(&lo), Some(&hi), pre);
    }
  }
  let _ = zero;
}

fn compare<'tcx>(
  spec: &Spec<'_, 'tcx>,
  pid: &str,
  base: &str,
  got: &RState<'tcx>,
  lo: &RState<'tcx>,
  hi: &RState<'tcx>,
  pre: &RState<'tcx>,
) {
  bounds(spec, pid, base, got, Some(lo), Some(hi), pre)
}

pub fn bounds<'tcx>(
  spec: &Spec<'_, 'tcx>,
  pid: &str,
  base: &str,
  got: &RState<'tcx>,
  lo: Option<&RState<'tcx>>,
  hi: Option<&RState<'tcx>>,
  pre: &RState<'tcx>,
) {
  let z = SBV::zero(spec.width());
  let mut keys: HashSet<Place<'tcx>> = got.keys().copied().collect();
  keys.extend(lo.into_iter().flat_map(|s| s.keys().copied()));
  let mut keys: Vec<_> = keys.into_iter().collect();
  keys.sort_by_key(|p| (p.local, p.projection.len(), format!("{p:?}")));
  let mut items = vec![];
  let mut info = vec![];
  for p in keys {
    let g = got.get(&p).unwrap_or(&z);
    if let Some(lo) = lo {
      let l = lo.get(&p).unwrap_or(&z);
      items.push((format!("{pid}:{base}:{p:?}:missing"), l.subset_of(g)));
      info.push((p, true));
    }
    if let Some(hi) = hi {
      let h = hi.get(&p).unwrap_or(&z);
      items.push((format!("{pid}:{base}:{p:?}:extra"), g.subset_of(h)));
      info.push((p, false));
    }
  }
  symrt::check_all(items, |i| {
    let (p, missing) = info[i];
    let g = got.get(&p).unwrap_or(&z);
    let o = pre.get(&p).unwrap_or(&z);
    if missing {
      let l = lo.unwrap().get(&p).unwrap_or(&z);
      format!("row {p:?} is missing {} (before: {})", names(spec, &l.and(&g.not())), names(spec, o))
    } else {
      let h = hi.unwrap().get(&p).unwrap_or(&z);
      let extra = g.and(&h.not());
      let mut from: Vec<_> = pre
        .iter()
        .filter(|(_, r)| extra.and(r).as_const().is_some_and(|b| b.contains(&true)))
        .map(|(p, _)| format!("{p:?}"))
        .collect();
      from.sort();
      format!("row {p:?} must not contain {} (before: {}; recorded in {})", names(spec, &extra), names(spec, o), from.join(" "))
    }
  });
}

/// A few locations of the function with distinct controlling branches.
fn sites(spec: &Spec<'_, '_>, n: usize) -> Vec<Location> {
  let mut seen: HashSet<Vec<usize>> = HashSet::new();
  let mut out = vec![];
  for (bb, _) in spec.body.basic_blocks.iter_enumerated() {
    let key: Vec<usize> = spec.cdeps.upper[bb.as_usize()].iter().map(|b| b.as_usize()).collect();
    if seen.insert(key) {
      out.push(Location { block: bb, statement_index: 0 });
    }
  }
  out.sort_by_key(|l| std::cmp::Reverse(spec.cdeps.upper[l.block.as_usize()].len()));
  out.truncate(n);
  out
}

fn konst<'tcx>(tcx: TyCtxt<'tcx>) -> Operand<'tcx> {
  Operand::Constant(Box::new(ConstOperand { span: DUMMY_SP, user_ty: None, const_: Const::zero_sized(tcx.types.unit) }))
}

fn stmt<'tcx>(dst: Place<'tcx>, rv: Rvalue<'tcx>) -> Statement<'tcx> {
  Statement::new(SourceInfo::outermost(DUMMY_SP), StatementKind::Assign(Box::new((dst, rv))))
}

/// Instructions the compiler might have produced but the corpus does not contain: every combination of
/// destination, operation and operands over the function's places.
fn crafted<'tcx>(
  cx: &mut Ctx,
  tcx: TyCtxt<'tcx>,
  def: rustc_hir::def_id::DefId,
  bwf: &rustc_borrowck::consumers::BodyWithBorrowckFacts<'tcx>,
  spec: &Spec<'_, 'tcx>,
  base: &str,
  sp: &[Place<'tcx>],
) {
  let ps = places(spec);
  let pid = cx.pid.clone();
  let stride = cx.pick(7, 1);
  let site_n = cx.pick(1, 2);
  let fn_ty = tcx.type_of(def).instantiate_identity();
  let callee = matches!(fn_ty.kind(), TyKind::FnDef(..)).then(|| {
    Operand::Constant(Box::new(ConstOperand { span: DUMMY_SP, user_ty: None, const_: Const::zero_sized(fn_ty) }))
  });
  let mut n = 0usize;
  for loc in sites(spec, site_n) {
    for (di, dst) in ps.iter().enumerate() {
      let u = format!("{base}/{loc:?}/write {di}:{dst:?}");
      if !cx.wants(&u) {
        n += 1;
        continue;
      }
      n += 1;
      let off = n;
      let mut fa = real::analysis(tcx, def, bwf);
      let dty = tcx.erase_regions(spec.ty(*dst));
      cx.unit(&u, || {
        // operation and operand
        let q_i = symrt::choose("operand", ps.len() as u32) as usize;
        let q = ps[q_i];
        let op = symrt::choose("operation", 6);
        if (q_i * 6 + op as usize + off) % stride != 0 {
          symrt::abort_path();
        }
        let q2 = ps[(q_i * 7 + di * 3 + 1) % ps.len()];
        let cp = |p| Operand::Copy(p);
        let (label, muts, effect): (String, _, Result<Statement<'tcx>, Terminator<'tcx>>);
        if op == 5 || pid == "P08" {
          let Some(f) = callee.clone() else { symrt::abort_path() };
          let args = match op {
            0 => vec![cp(q)],
            1 => vec![Operand::Move(q), cp(q2)],
            2 => vec![cp(q2), Operand::Move(q)],
            3 => vec![konst(tcx), cp(q)],
            4 => vec![cp(q), cp(q2), konst(tcx)],
            _ => vec![cp(q), cp(q)],
          };
          let t = Terminator {
            source_info: SourceInfo::outermost(DUMMY_SP),
            kind: TerminatorKind::Call {
              func: f,
              args: args.iter().map(|o| rustc_span::source_map::dummy_spanned(o.clone())).collect(),
              destination: *dst,
              target: None,
              unwind: UnwindAction::Continue,
              call_source: CallSource::Normal,
              fn_span: DUMMY_SP,
            },
          };
          label = format!("{dst:?} = call({args:?})");
          muts = spec.mutations_term(&t);
          effect = Err(t);
        } else {
          let rv = match op {
            0 => Rvalue::Use(konst(tcx), ),
            1 => {
              if tcx.erase_regions(spec.ty(q)) != dty {
                symrt::abort_path()
              }
              Rvalue::Use(if q_i % 2 == 0 { cp(q) } else { Operand::Move(q) })
            }
            2 => Rvalue::BinaryOp(BinOp::Add, Box::new((cp(q), cp(q2)))),
            3 => Rvalue::Ref(tcx.lifetimes.re_erased, BorrowKind::Shared, q),
            _ => match dty.kind() {
              TyKind::Tuple(ts) if !ts.is_empty() => Rvalue::Aggregate(
                Box::new(AggregateKind::Tuple),
                ts.iter().enumerate().map(|(i, _)| if i % 2 == 0 { cp(q) } else { cp(q2) }).collect(),
              ),
              TyKind::Array(t, _) => Rvalue::Aggregate(Box::new(AggregateKind::Array(*t)), [cp(q), cp(q2)].into_iter().collect()),
              _ => Rvalue::Discriminant(q),
            },
          };
          let s = stmt(*dst, rv);
          label = format!("{:?}", s.kind);
          muts = spec.mutations_stmt(&s);
          effect = Ok(s);
        }
        let pre = real::symbolic_state(spec, sp);
        let mut d = real::to_domain(&fa, &pre);
        match &effect {
          Ok(s) => fa.apply_primary_statement_effect(&mut d, s, loc),
          Err(t) => {
            fa.apply_primary_terminator_effect(&mut d, t, loc);
          }
        }
        step_check(spec, &pid, &format!("{base}/{loc:?}:{label}"), &pre, &muts, loc, &d);
      });
    }
  }
}

/// The function's branches, each deciding on any of the function's places.
fn conditions<'tcx>(
  cx: &mut Ctx,
  tcx: TyCtxt<'tcx>,
  def: rustc_hir::def_id::DefId,
  bwf: &rustc_borrowck::consumers::BodyWithBorrowckFacts<'tcx>,
  spec: &Spec<'_, 'tcx>,
  base: &str,
  sp: &[Place<'tcx>],
) {
  let ps = places(spec);
  let pid = cx.pid.clone();
  let Some(dst) = ps.iter().copied().find(|p| p.as_local().is_some()) else { return };
  let konst = stmt(dst, Rvalue::Use(konst(tcx)));
  for loc in sites(spec, cx.pick(2, 4)) {
    let Some(sw) = spec.cdeps.lower[loc.block.as_usize()]
      .iter()
      .copied()
      .find(|b| matches!(spec.body.basic_blocks[*b].terminator().kind, TerminatorKind::SwitchInt { .. }))
    else {
      continue;
    };
    let u = format!("{base}/{loc:?}/decided by");
    if !cx.wants(&u) {
      continue;
    }
    cx.unit_n(&u, 2000, || {
      let q = ps[symrt::choose("condition", ps.len() as u32) as usize];
      let mut body = spec.body.clone();
      if let TerminatorKind::SwitchInt { discr, .. } = &mut body.basic_blocks.as_mut_preserves_cfg()[sw].terminator_mut().kind {
        *discr = Operand::Copy(q);
      }
      let rb = super::cfg::rebody(bwf, body);
      let rb: &rustc_borrowck::consumers::BodyWithBorrowckFacts<'tcx> = unsafe { &*(&*rb as *const _) };
      let mut fa = real::analysis(tcx, def, rb);
      let spec = Spec::new(tcx, def, rb, spec.mode);
      let pre = real::symbolic_state(&spec, sp);
      let mut d = real::to_domain(&fa, &pre);
      fa.apply_primary_statement_effect(&mut d, &konst, loc);
      let muts = spec.mutations_stmt(&konst);
      step_check(&spec, &pid, &format!("{base}/{loc:?}:decided by {q:?}"), &pre, &muts, loc, &d);
      unsafe {
        drop(fa);
        let p = rb as *const _ as *mut rustc_borrowck::consumers::BodyWithBorrowckFacts<'_>;
        std::ptr::drop_in_place(&mut (*p).body);
      }
    });
  }
}

/// Write `p`, read `q`: the write is visible exactly when the places overlap.
fn write_read<'tcx>(
  cx: &mut Ctx,
  tcx: TyCtxt<'tcx>,
  def: rustc_hir::def_id::DefId,
  bwf: &rustc_borrowck::consumers::BodyWithBorrowckFacts<'tcx>,
  spec: &Spec<'_, 'tcx>,
  base: &str,
  sp: &[Place<'tcx>],
) {
  let ps = places(spec);
  let w = spec.width();
  // A block no branch decides on, so that the only dependency of the write is itself.
  let loc = Location::START;
  let mark = spec.loc_bit(loc);
  let keep = SBV::single(w, mark).not();
  let is_prefix = |a: Place<'tcx>, b: Place<'tcx>| {
    a.local == b.local && a.projection.len() <= b.projection.len() && a.projection[..] == b.projection[.. a.projection.len()]
  };
  // innermost reference followed by a place splits it into allocation and path
  let overlap = |a: Place<'tcx>, b: Place<'tcx>| {
    let (a, b) = (spec.norm(a), spec.norm(b));
    let (short, long) = if is_prefix(a, b) {
      (a, b)
    } else if is_prefix(b, a) {
      (b, a)
    } else {
      return false;
    };
    // containment must not pass through a reference
    let mut cur = short;
    for e in &long.projection[short.projection.len() ..] {
      if matches!(e, ProjectionElem::Deref) && !spec.ty(cur).is_box() {
        return false;
      }
      cur = tcx.mk_place_elem(cur, *e);
    }
    true
  };
  let owned = |a: Place<'tcx>, b: Place<'tcx>| {
    let (a, b) = (spec.norm(a), spec.norm(b));
    let mut cur = a;
    for e in &b.projection[a.projection.len() ..] {
      if matches!(e, ProjectionElem::Deref) && spec.ty(cur).is_ref() {
        return false;
      }
      cur = tcx.mk_place_elem(cur, *e);
    }
    true
  };
  for (i, p) in ps.iter().enumerate() {
    let u = format!("{base}/write {i}:{p:?}");
    if !cx.wants(&u) {
      continue;
    }
    let mut fa = real::analysis(tcx, def, bwf);
    cx.unit(&u, || {
      let mut pre = real::symbolic_state(spec, sp);
      for r in pre.values_mut() {
        *r = r.and(&keep);
      }
      let mut d = real::to_domain(&fa, &pre);
      let s = stmt(*p, Rvalue::Use(konst(tcx)));
      fa.apply_primary_statement_effect(&mut d, &s, loc);
      let targets = spec.mutable_aliases(*p);
      let strong = spec.strong(&Mut { mutated: *p, inputs: vec![], definite: true });
      let mut items = vec![];
      for q in &ps {
        let seen = real::bv_of(&fa.deps_for(&d, *q)).bit(mark as u32);
        let mut want = false;
        for v in spec.queried(*q) {
          let mut read: Vec<Place<'tcx>> = spec.aliases(v).into_iter().collect();
          for (pos, e) in v.projection.iter().enumerate() {
            let base = Place::make(v.local, &v.projection[.. pos], tcx);
            if matches!(e, ProjectionElem::Deref) && !spec.ty(base).is_box() {
              read.extend(spec.aliases(base));
            }
          }
          want |= read.iter().any(|r| {
            targets.iter().any(|t| overlap(*t, *r) || (spec.ty(*r).is_raw_ptr() && is_prefix(spec.norm(*r), spec.norm(*t)) && owned(*r, *t)))
          });
        }
        items.push((format!("P07:{base}:{p:?}->{q:?}"), seen.iff(SBool::C(want))));
      }
      // what contains or is disjoint from the written place keeps its own row
      for (r, old) in &pre {
        // (a raw pointer counts as owning what it points to: nothing is known about its provenance)
        let within = strong && is_prefix(spec.norm(*p), *r) && owned(*p, *r);
        if !within {
          items.push((format!("P07:{base}:{p:?} keeps {r:?}"), old.subset_of(&real::bv_of(d.row_set(r)))));
        }
      }
      symrt::check_all(items.clone(), |k| {
        format!("write to {p:?}: expectation {} violated (visible iff the places overlap)", items[k].0)
      });
      // transitive mutability: what may be modified through p
      let fa_reach = fa.place_info.reachable_values(*p, Mutability::Mut);
      for v in fa_reach.iter() {
        let through_shared = v.iter_projections().any(|(b, _)| {
          matches!(b.ty(spec.body.local_decls(), tcx).ty.ref_mutability(), Some(Mutability::Not))
        });
        symrt::check(
          SBool::C(!through_shared || *v == *p || spec.mode.ignore_mut || spec.reachable(*p, Mutability::Mut).contains(v)),
          &format!("P07:{base}:{p:?} mutable {v:?}"),
          || format!("{v:?} counts as mutable through {p:?}"),
        );
      }
      let want: HashSet<Place<'tcx>> = spec.reachable(*p, Mutability::Mut).into_iter().collect();
      let got: HashSet<Place<'tcx>> = fa_reach.iter().copied().collect();
      symrt::check(SBool::C(want == got), &format!("P07:{base}:{p:?} mutably reachable"), || format!("{got:?} vs {want:?}"));
    });
  }
}
