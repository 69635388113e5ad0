//! Reference semantics: what the documentation (and the paper it cites) says the analysis computes,
//! written without looking at the caches, the SCC order or the visitor structure of the implementation.
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};

use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::visit::{PlaceContext, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::{AdtKind, GenericArgKind, Region, RegionKind, RegionVid, Ty, TyCtxt, TyKind};
use rustc_utils::mir::place::UNKNOWN_REGION;
use rustc_utils::{BodyExt, OperandExt, PlaceExt};
use symrt::{SBV, SBool};

pub type PSet<'tcx> = HashSet<Place<'tcx>>;
pub type RState<'tcx> = HashMap<Place<'tcx>, SBV>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct SpecMode {
  pub ignore_mut: bool,
  pub conservative: bool,
}

#[derive(Clone, Debug)]
pub struct Mut<'tcx> {
  pub mutated: Place<'tcx>,
  pub inputs: Vec<Place<'tcx>>,
  pub definite: bool,
}

pub struct Cdeps {
  /// Sound minimum: closure of the dependence relation of each return on its own.
  pub lower: Vec<BTreeSet<BasicBlock>>,
  /// Maximum: closure of the union of these relations.
  pub upper: Vec<BTreeSet<BasicBlock>>,
}

pub type Loans<'tcx> = HashMap<RegionVid, HashSet<(Place<'tcx>, Mutability)>>;

pub struct Spec<'a, 'tcx> {
  pub tcx: TyCtxt<'tcx>,
  pub def_id: DefId,
  pub body: &'a Body<'tcx>,
  pub mode: SpecMode,
  pub loans: Loans<'tcx>,
  pub cdeps: Cdeps,
  pub locs: Vec<Location>,
  pub args: Vec<Local>,
  norm: RefCell<HashMap<Place<'tcx>, Place<'tcx>>>,
}

struct Collect<'tcx>(Vec<Place<'tcx>>);
impl<'tcx> Visitor<'tcx> for Collect<'tcx> {
  fn visit_place(&mut self, p: &Place<'tcx>, _: PlaceContext, _: Location) {
    self.0.push(*p)
  }
}

pub fn indices<'tcx>(p: Place<'tcx>) -> Vec<Place<'tcx>> {
  p.projection
    .iter()
    .filter_map(|e| match e {
      ProjectionElem::Index(l) => Some(Place::from(l)),
      _ => None,
    })
    .collect()
}

pub fn control_deps(body: &Body<'_>) -> Cdeps {
  let n = body.basic_blocks.len();
  let succ: Vec<Vec<usize>> = body
    .basic_blocks
    .iter()
    .map(|d| d.terminator().successors().map(|b| b.as_usize()).collect())
    .collect();
  let rets: Vec<usize> = body
    .basic_blocks
    .iter_enumerated()
    .filter(|(_, d)| matches!(d.terminator().kind, TerminatorKind::Return))
    .map(|(b, _)| b.as_usize())
    .collect();
  // reaches[x] when avoiding `avoid`
  let reach = |e: usize, avoid: Option<usize>| -> Vec<bool> {
    let mut r = vec![false; n];
    if Some(e) == avoid {
      return r;
    }
    r[e] = true;
    loop {
      let mut ch = false;
      for x in 0 .. n {
        if !r[x] && Some(x) != avoid && succ[x].iter().any(|s| r[*s]) {
          r[x] = true;
          ch = true;
        }
      }
      if !ch {
        return r;
      }
    }
  };
  let close = |d: &mut Vec<BTreeSet<BasicBlock>>| loop {
    let mut ch = false;
    for y in 0 .. n {
      let more: Vec<_> = d[y].iter().flat_map(|x| d[x.as_usize()].iter().copied()).collect();
      for m in more {
        ch |= d[y].insert(m);
      }
    }
    if !ch {
      break;
    }
  };
  let mut lower = vec![BTreeSet::new(); n];
  let mut upper = vec![BTreeSet::new(); n];
  for e in rets {
    let r = reach(e, None);
    let mut direct = vec![BTreeSet::new(); n];
    for y in 0 .. n {
      if !r[y] {
        continue;
      }
      // x is post-dominated by y: every way from x to e goes through y
      let avoid = reach(e, Some(y));
      let pdom = |x: usize| x == y || (r[x] && !avoid[x]);
      for x in 0 .. n {
        if r[x] && succ[x].iter().any(|s| r[*s] && pdom(*s)) && !(x != y && pdom(x)) && x != e {
          direct[y].insert(BasicBlock::from_usize(x));
        }
      }
    }
    for y in 0 .. n {
      let d = direct[y].clone();
      upper[y].extend(d);
    }
    close(&mut direct);
    for (y, d) in direct.into_iter().enumerate() {
      lower[y].extend(d);
    }
  }
  close(&mut upper);
  Cdeps { lower, upper }
}

impl<'a, 'tcx> Spec<'a, 'tcx> {
  pub fn new(tcx: TyCtxt<'tcx>, def_id: DefId, bwf: &'a BodyWithBorrowckFacts<'tcx>, mode: SpecMode) -> Self {
    let loans = ref_loans(tcx, def_id, bwf, mode, &|_, _| true);
    Self::with_loans(tcx, def_id, &bwf.body, mode, loans)
  }
  pub fn with_loans(tcx: TyCtxt<'tcx>, def_id: DefId, body: &'a Body<'tcx>, mode: SpecMode, loans: Loans<'tcx>) -> Self {
    Spec {
      tcx,
      def_id,
      body,
      mode,
      loans,
      cdeps: control_deps(body),
      locs: body.all_locations().collect(),
      args: body.args_iter().collect(),
      norm: Default::default(),
    }
  }
  pub fn width(&self) -> u32 {
    (self.locs.len() + self.args.len()) as u32
  }
  pub fn loc_bit(&self, l: Location) -> usize {
    self.locs.iter().position(|x| *x == l).unwrap()
  }
  pub fn arg_bit(&self, a: Local) -> usize {
    self.locs.len() + self.args.iter().position(|x| *x == a).unwrap()
  }
  pub fn bit_name(&self, i: usize) -> String {
    if i < self.locs.len() { format!("{:?}", self.locs[i]) } else { format!("arg {:?}", self.args[i - self.locs.len()]) }
  }
  pub fn norm(&self, p: Place<'tcx>) -> Place<'tcx> {
    if let Some(q) = self.norm.borrow().get(&p) {
      return *q;
    }
    let q = p.normalize(self.tcx, self.def_id);
    self.norm.borrow_mut().insert(p, q);
    q
  }
  pub fn ty(&self, p: Place<'tcx>) -> Ty<'tcx> {
    p.ty(self.body.local_decls(), self.tcx).ty
  }
  fn ref_ty(&self, p: PlaceRef<'tcx>) -> Ty<'tcx> {
    p.ty(self.body.local_decls(), self.tcx).ty
  }

  /// `p` and the parts it owns (through fields, variants, elements and boxes, not references).
  pub fn children(&self, p: Place<'tcx>) -> PSet<'tcx> {
    p.interior_places(self.tcx, self.body, self.def_id).into_iter().collect()
  }
  /// Parts of `p` plus the places containing `p` up to the innermost reference.
  pub fn conflicts(&self, p: Place<'tcx>) -> PSet<'tcx> {
    let mut out = self.children(p);
    for (base, elem) in p.iter_projections().rev() {
      // containers at or above a reference are reached only through it
      if matches!(elem, ProjectionElem::Deref) && !self.ref_ty(base).is_box() {
        break;
      }
      out.insert(Place::from_ref(base, self.tcx));
    }
    out
  }
  pub fn is_direct(&self, p: Place<'tcx>) -> bool {
    p.is_direct(self.body, self.tcx)
  }
  /// (pointer, rest) for the last / each reference or raw pointer followed by `p`.
  fn refs(&self, p: Place<'tcx>) -> Vec<(Place<'tcx>, Vec<PlaceElem<'tcx>>)> {
    let mut v = vec![];
    for (i, (base, elem)) in p.iter_projections().enumerate() {
      if matches!(elem, ProjectionElem::Deref) && !self.ref_ty(base).is_box() {
        v.push((Place::from_ref(base, self.tcx), p.projection[i + 1 ..].to_vec()));
      }
    }
    v
  }
  pub fn aliases(&self, p: Place<'tcx>) -> PSet<'tcx> {
    let mut out = HashSet::from([p]);
    if self.is_direct(p) {
      return out;
    }
    let (ptr, after) = self.refs(p).pop().unwrap();
    let (region, target) = match self.ty(ptr).kind() {
      TyKind::RawPtr(t, _) => (UNKNOWN_REGION, *t),
      TyKind::Ref(r, t, _) => match r.kind() {
        RegionKind::ReVar(r) => (r, *t),
        _ => return out,
      },
      _ => return out,
    };
    for (l, _) in self.loans.get(&region).into_iter().flatten() {
      if self.ty(*l) == target {
        let mut proj = l.projection.to_vec();
        proj.extend(after.iter().copied());
        out.insert(Place::make(l.local, &proj, self.tcx));
      } else {
        out.insert(*l);
      }
    }
    out
  }
  pub fn influences(&self, p: Place<'tcx>) -> PSet<'tcx> {
    let mut out = HashSet::new();
    for a in self.aliases(p) {
      out.extend(self.conflicts(a));
    }
    for (r, _) in self.refs(p) {
      for a in self.aliases(r) {
        out.extend(self.conflicts(a));
      }
    }
    out
  }
  fn type_regions(&self, ty: Ty<'tcx>, shared: bool, out: &mut Vec<(RegionVid, bool)>) {
    fn reg(r: Region<'_>) -> Option<RegionVid> {
      match r.kind() {
        RegionKind::ReVar(r) => Some(r),
        RegionKind::ReStatic => Some(RegionVid::from_usize(0)),
        _ => None,
      }
    }
    struct V<'t>(bool, &'t mut Vec<(RegionVid, bool)>);
    impl<'tcx, 't> rustc_middle::ty::TypeVisitor<TyCtxt<'tcx>> for V<'t> {
      fn visit_ty(&mut self, ty: Ty<'tcx>) {
        use rustc_middle::ty::TypeSuperVisitable;
        let old = self.0;
        if let TyKind::Ref(_, _, m) = ty.kind() {
          self.0 |= m.is_not();
        } else if ty.is_box() || ty.is_raw_ptr() {
          self.1.push((UNKNOWN_REGION, self.0));
        }
        ty.super_visit_with(self);
        self.0 = old;
      }
      fn visit_region(&mut self, r: Region<'tcx>) {
        if let Some(r) = reg(r) {
          self.1.push((r, self.0));
        }
      }
    }
    use rustc_middle::ty::TypeVisitor;
    V(shared, out).visit_ty(ty);
  }
  /// Values reachable from `p`, usable at mutability `m`.
  pub fn reachable(&self, p: Place<'tcx>, m: Mutability) -> PSet<'tcx> {
    let mut regs = vec![];
    self.type_regions(self.ty(p), false, &mut regs);
    let mut all = HashSet::from([p]);
    for (r, shared) in regs {
      for (l, lm) in self.loans.get(&r).into_iter().flatten() {
        let mutable = !shared && lm.is_mut();
        if m.is_not() || mutable || self.mode.ignore_mut {
          all.insert(*l);
        }
      }
    }
    all
      .into_iter()
      .filter(|q| {
        if let Some((ptr, _)) = self.refs(*q).pop() {
          if self.ty(ptr).is_raw_ptr() {
            return true;
          }
        }
        self.is_direct(*q)
      })
      .collect()
  }

  pub fn mutations_stmt(&self, s: &Statement<'tcx>) -> Vec<Mut<'tcx>> {
    let StatementKind::Assign(b) = &s.kind else { return vec![] };
    let (dst, rv) = (b.0, &b.1);
    let tcx = self.tcx;
    let with_idx = |dst: Place<'tcx>, ins: Vec<Place<'tcx>>| {
      let mut v = ins.clone();
      v.extend(indices(dst));
      v.extend(ins.iter().flat_map(|p| indices(*p)));
      v
    };
    let mk = |mutated, inputs: Vec<Place<'tcx>>| Mut { mutated, inputs: with_idx(mutated, inputs), definite: true };
    match rv {
      Rvalue::Aggregate(k, ops) => {
        let shape = match &**k {
          AggregateKind::Tuple => Some((dst, rv.ty(self.body.local_decls(), tcx).tuple_fields().to_vec())),
          AggregateKind::Adt(d, v, substs, _, _) => {
            let adt = tcx.adt_def(*d);
            let variant = adt.variant(*v);
            let tys = variant.fields.iter().map(|f| f.ty(tcx, substs)).collect::<Vec<_>>();
            match adt.adt_kind() {
              AdtKind::Struct => Some((dst, tys)),
              AdtKind::Enum => Some((dst.project_deeper(&[ProjectionElem::Downcast(Some(variant.name), *v)], tcx), tys)),
              AdtKind::Union => None,
            }
          }
          _ => None,
        };
        if let Some((base, tys)) = shape
          && !tys.is_empty()
        {
          return ops
            .iter_enumerated()
            .map(|(f, op)| {
              let dst = base.project_deeper(&[ProjectionElem::Field(f, tys[f.as_usize()])], tcx);
              mk(dst, op.as_place().into_iter().collect())
            })
            .collect();
        }
      }
      Rvalue::Use(Operand::Copy(src) | Operand::Move(src)) => {
        if let TyKind::Adt(adt, substs) = self.ty(*src).kind()
          && adt.is_struct()
        {
          let fields = &adt.non_enum_variant().fields;
          let vis: Vec<_> = fields
            .iter_enumerated()
            .filter(|(_, f)| f.vis.is_accessible_from(self.def_id, tcx))
            .map(|(i, f)| ProjectionElem::Field(i, f.ty(tcx, substs)))
            .collect();
          let mut out = vec![];
          if vis.is_empty() || vis.len() < fields.len() {
            out.push(mk(dst, vec![*src]));
          }
          out.extend(vis.into_iter().map(|e| mk(dst.project_deeper(&[e], tcx), vec![src.project_deeper(&[e], tcx)])));
          return out;
        }
      }
      _ => {}
    }
    let mut c = Collect(vec![]);
    c.visit_rvalue(rv, Location::START);
    vec![mk(dst, c.0)]
  }
  pub fn mutations_term(&self, t: &Terminator<'tcx>) -> Vec<Mut<'tcx>> {
    let TerminatorKind::Call { func, args, destination, .. } = &t.kind else { return vec![] };
    let ctx = self.body.async_context(self.tcx, self.def_id).map(|c| self.tcx.erase_regions(c));
    let args: Vec<Place<'tcx>> = args
      .iter()
      .filter_map(|a| a.node.as_place())
      .filter(|p| ctx.is_none_or(|c| self.tcx.erase_regions(self.ty(*p)) != c))
      .collect();
    let mut ins = args.clone();
    ins.extend(args.iter().flat_map(|p| indices(*p)));
    for a in &args {
      ins.extend(self.reachable(*a, Mutability::Not).into_iter().filter(|q| q != a));
    }
    ins.extend(func.as_place());
    let unit = self.ty(*destination).is_unit();
    let mut dins = if unit { vec![] } else { ins.clone() };
    dins.extend(indices(*destination));
    let mut out = vec![Mut { mutated: *destination, inputs: dins, definite: true }];
    for a in args {
      for q in self.reachable(a, Mutability::Mut) {
        out.push(Mut { mutated: q, inputs: ins.clone(), definite: false });
      }
    }
    out
  }
  pub fn mutations_at(&self, l: Location) -> Vec<Mut<'tcx>> {
    match self.body.stmt_at(l) {
      either::Either::Left(s) => self.mutations_stmt(s),
      either::Either::Right(t) => self.mutations_term(t),
    }
  }

  pub fn row(&self, st: &RState<'tcx>, p: Place<'tcx>) -> SBV {
    st.get(&self.norm(p)).cloned().unwrap_or_else(|| SBV::zero(self.width()))
  }
  fn read(&self, st: &RState<'tcx>, p: Place<'tcx>) -> SBV {
    let mut seen = HashSet::new();
    let mut v = SBV::zero(self.width());
    for q in self.influences(p) {
      let q = self.norm(q);
      if seen.insert(q)
        && let Some(r) = st.get(&q)
      {
        v = v.or(r);
      }
    }
    v
  }
  /// What a query about `p` is about: itself and the values reachable from it.
  pub fn queried(&self, p: Place<'tcx>) -> PSet<'tcx> {
    let mut all = self.reachable(p, Mutability::Not);
    all.insert(p);
    all
  }
  pub fn deps_for(&self, st: &RState<'tcx>, p: Place<'tcx>) -> SBV {
    let mut v = SBV::zero(self.width());
    for q in self.queried(p) {
      v = v.or(&self.read(st, q));
    }
    v
  }
  /// Is there only one thing `p` can denote, and does writing it replace all of it?
  pub fn strong(&self, m: &Mut<'tcx>) -> bool {
    m.definite
      && self.aliases(m.mutated).len() == 1
      && !m.mutated.projection.iter().any(|e| {
        matches!(e, ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. } | ProjectionElem::Subslice { .. })
      })
  }
  pub fn mutable_aliases(&self, p: Place<'tcx>) -> PSet<'tcx> {
    self
      .aliases(p)
      .into_iter()
      .filter(|a| {
        self.mode.ignore_mut
          || !a.iter_projections().any(|(base, _)| matches!(self.ref_ty(base).ref_mutability(), Some(Mutability::Not)))
      })
      .collect()
  }
  pub fn control_bits(&self, st: &RState<'tcx>, block: BasicBlock, upper: bool) -> SBV {
    let mut v = SBV::zero(self.width());
    let set = if upper { &self.cdeps.upper } else { &self.cdeps.lower };
    for b in &set[block.as_usize()] {
      v = v.or(&SBV::single(self.width(), self.loc_bit(self.body.terminator_loc(*b))));
      if let TerminatorKind::SwitchInt { discr, .. } = &self.body.basic_blocks[*b].terminator().kind
        && let Some(p) = discr.as_place()
      {
        v = v.or(&self.read(st, p));
      }
    }
    v
  }
  /// The state after `muts` happened at `loc`: least (`upper == false`) and greatest admissible.
  pub fn transfer(&self, pre: &RState<'tcx>, muts: &[Mut<'tcx>], loc: Location, upper: bool) -> RState<'tcx> {
    let w = self.width();
    let control = self.control_bits(pre, loc.block, upper);
    let base: Vec<SBV> = muts
      .iter()
      .map(|m| {
        let mut d = SBV::single(w, self.loc_bit(loc)).or(&control);
        for i in &m.inputs {
          d = d.or(&self.read(pre, *i));
        }
        d
      })
      .collect();
    let targets: Vec<Vec<Place<'tcx>>> =
      muts.iter().map(|m| self.mutable_aliases(m.mutated).into_iter().map(|a| self.norm(a)).collect()).collect();
    let clears: Vec<Vec<Place<'tcx>>> = muts
      .iter()
      .map(|m| if self.strong(m) { self.children(m.mutated).into_iter().map(|c| self.norm(c)).collect() } else { vec![] })
      .collect();
    // provenance of the written pointers: read from the prior state, less what is replaced
    let mut deps = base;
    let mut s = pre.clone();
    for c in clears.iter().flatten() {
      s.remove(c);
    }
    for (i, m) in muts.iter().enumerate() {
      deps[i] = deps[i].or(&self.read(&s, m.mutated));
    }
    let mut st = s;
    for i in 0 .. muts.len() {
      for p in &targets[i] {
        let n = self.row(&st, *p).or(&deps[i]);
        st.insert(*p, n);
      }
    }
    st
  }
  pub fn init(&self, pre: &RState<'tcx>) -> RState<'tcx> {
    let mut st = pre.clone();
    for a in &self.args {
      let bit = SBV::single(self.width(), self.arg_bit(*a));
      for p in self.arg_places(*a) {
        for c in self.conflicts(p) {
          let c = self.norm(c);
          let n = self.row(&st, c).or(&bit);
          st.insert(c, n);
        }
      }
    }
    st
  }
  /// Parts of an argument, including what it points to (pointers at depth at most two).
  pub fn arg_places(&self, a: Local) -> Vec<Place<'tcx>> {
    let p = Place::from_local(a, self.tcx);
    let mut roots = vec![p];
    for (ptr, _) in p.interior_pointers(self.tcx, self.body, self.def_id).into_values().flatten() {
      if ptr.projection.len() <= 2 {
        roots.push(self.tcx.mk_place_deref(ptr));
      }
    }
    roots.into_iter().flat_map(|r| self.children(r)).collect()
  }
  /// Every place of the body worth having a row: parts of locals, and of what they point to.
  pub fn all_places(&self) -> Vec<Place<'tcx>> {
    let mut out = HashSet::new();
    for l in self.body.local_decls.indices() {
      let p = Place::from_local(l, self.tcx);
      out.extend(self.children(p));
      for (ptr, _) in p.interior_pointers(self.tcx, self.body, self.def_id).into_values().flatten() {
        out.extend(self.children(self.tcx.mk_place_deref(ptr)));
      }
    }
    let mut v: Vec<_> = out.into_iter().collect();
    v.sort_by_key(|p| (p.local, p.projection.len(), format!("{p:?}")));
    v
  }
}

/// Loan sets: the least solution of the documented rules, by naive iteration.
pub fn ref_loans<'tcx>(
  tcx: TyCtxt<'tcx>,
  def_id: DefId,
  bwf: &BodyWithBorrowckFacts<'tcx>,
  mode: SpecMode,
  keep: &dyn Fn(RegionVid, RegionVid) -> bool,
) -> Loans<'tcx> {
  let body = &bwf.body;
  let (subset, seed, definite) = loan_rules(tcx, def_id, bwf, mode, keep);
  solve_loans(tcx, body, &subset, seed, &definite)
}

pub type Definite<'tcx> = HashMap<RegionVid, (Ty<'tcx>, Vec<PlaceElem<'tcx>>)>;

pub fn loan_rules<'tcx>(
  tcx: TyCtxt<'tcx>,
  def_id: DefId,
  bwf: &BodyWithBorrowckFacts<'tcx>,
  mode: SpecMode,
  keep: &dyn Fn(RegionVid, RegionVid) -> bool,
) -> (BTreeSet<(RegionVid, RegionVid)>, Loans<'tcx>, Definite<'tcx>) {
  let body = &bwf.body;
  let stat = RegionVid::from_usize(0);
  let mut ignored = HashSet::new();
  if let Some(ctx) = body.async_context(tcx, def_id) {
    for part in ctx.walk() {
      if let GenericArgKind::Lifetime(r) = part.kind()
        && let RegionKind::ReVar(r) = r.kind()
      {
        ignored.insert(r);
      }
    }
  }
  let mut subset = BTreeSet::new();
  let mut regions = BTreeSet::from([stat]);
  for (a, b, _) in &bwf.input_facts.as_ref().unwrap().subset_base {
    let (a, b) = (RegionVid::from(*a), RegionVid::from(*b));
    if !keep(a, b) {
      continue;
    }
    regions.extend([a, b]);
    if !ignored.contains(&a) && !ignored.contains(&b) {
      subset.insert((a, b));
    }
  }
  let mut pointers: Vec<(RegionVid, Place<'tcx>, Mutability)> = vec![];
  for l in body.local_decls.indices() {
    for (r, ps) in Place::from_local(l, tcx).interior_pointers(tcx, body, def_id) {
      pointers.extend(ps.into_iter().map(|(p, m)| (r, p, m)));
    }
  }
  regions.extend(pointers.iter().map(|p| p.0).filter(|r| *r != UNKNOWN_REGION));
  let max = regions.iter().max().unwrap().as_usize();
  for r in 0 ..= max {
    subset.insert((stat, RegionVid::from_usize(r)));
  }
  if mode.conservative {
    let target = |p: Place<'tcx>| tcx.mk_place_deref(p).ty(body.local_decls(), tcx).ty;
    for (r1, p1, _) in &pointers {
      for (r2, p2, _) in &pointers {
        if r1 != r2 && *r1 != UNKNOWN_REGION && *r2 != UNKNOWN_REGION && target(*p1) == target(*p2) {
          subset.insert((*r1, *r2));
        }
      }
    }
  }
  let mut seed: Loans<'tcx> = HashMap::new();
  let mut definite = HashMap::new();
  for data in body.basic_blocks.iter() {
    for s in &data.statements {
      if let StatementKind::Assign(b) = &s.kind
        && let Rvalue::Ref(r, kind, p) = &b.1
        && let RegionKind::ReVar(r) = r.kind()
      {
        if p.is_direct(body, tcx) {
          seed.entry(r).or_default().insert((*p, kind.to_mutbl_lossy()));
        }
        // the path added by a reborrow, relative to the first pointer followed
        let first = p
          .iter_projections()
          .enumerate()
          .find(|(_, (b, e))| matches!(e, ProjectionElem::Deref) && !b.ty(body.local_decls(), tcx).ty.is_box());
        let d = match first {
          Some((i, (b, _))) => (b.ty(body.local_decls(), tcx).ty.builtin_deref(true).unwrap(), p.projection[i + 1 ..].to_vec()),
          None => (body.local_decls[p.local].ty, p.projection.to_vec()),
        };
        definite.insert(r, d);
      }
    }
  }
  for a in body.args_iter() {
    for (r, ps) in Place::from_local(a, tcx).interior_pointers(tcx, body, def_id) {
      for (p, m) in ps {
        if p.projection.len() <= 2 {
          seed.entry(r).or_default().insert((tcx.mk_place_deref(p), m));
        }
      }
    }
  }
  for (r, p, _) in &pointers {
    if *r == UNKNOWN_REGION {
      seed.entry(UNKNOWN_REGION).or_default().insert((tcx.mk_place_deref(*p), Mutability::Mut));
    }
  }
  (subset, seed, definite)
}

pub fn step_loan<'tcx>(
  tcx: TyCtxt<'tcx>,
  body: &Body<'tcx>,
  p: Place<'tcx>,
  d: Option<&(Ty<'tcx>, Vec<PlaceElem<'tcx>>)>,
  cyclic: bool,
) -> Place<'tcx> {
  match d {
    Some((ty, proj)) if !cyclic && p.ty(body.local_decls(), tcx).ty == *ty => {
      let mut full = p.projection.to_vec();
      full.extend(proj);
      Place::make(p.local, &full, tcx)
    }
    _ => p,
  }
}

pub fn solve_loans<'tcx>(
  tcx: TyCtxt<'tcx>,
  body: &Body<'tcx>,
  subset: &BTreeSet<(RegionVid, RegionVid)>,
  seed: Loans<'tcx>,
  definite: &Definite<'tcx>,
) -> Loans<'tcx> {
  // reach = transitive closure, to know which outlives edges lie on a cycle
  let mut succ: HashMap<RegionVid, BTreeSet<RegionVid>> = HashMap::new();
  for (a, b) in subset {
    succ.entry(*a).or_default().insert(*b);
  }
  let reach = |from: RegionVid| {
    let mut seen = HashSet::new();
    let mut todo = vec![from];
    while let Some(x) = todo.pop() {
      for y in succ.get(&x).into_iter().flatten() {
        if seen.insert(*y) {
          todo.push(*y);
        }
      }
    }
    seen
  };
  let mut reaches: HashMap<RegionVid, HashSet<RegionVid>> = HashMap::new();
  for (_, b) in subset {
    if !reaches.contains_key(b) {
      reaches.insert(*b, reach(*b));
    }
  }
  let mut c = seed;
  loop {
    let mut changed = false;
    for (a, b) in subset {
      if a == b {
        continue;
      }
      let cyclic = reaches[b].contains(a);
      let add: Vec<_> = c
        .get(a)
        .into_iter()
        .flatten()
        .map(|(p, m)| (step_loan(tcx, body, *p, definite.get(b), cyclic), *m))
        .collect();
      let e = c.entry(*b).or_default();
      for x in add {
        changed |= e.insert(x);
      }
    }
    if !changed {
      return c;
    }
  }
}

pub fn subset_all<'tcx>(a: &RState<'tcx>, b: &RState<'tcx>, w: u32) -> Vec<(Place<'tcx>, SBool)> {
  a.iter()
    .map(|(p, r)| {
      let z = SBV::zero(w);
      (*p, r.subset_of(b.get(p).unwrap_or(&z)))
    })
    .collect()
}
