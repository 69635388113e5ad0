//! Symbolic execution of MIR: the meaning of the programs Flowistry analyses.
//!
//! Integers are SMT terms, everything else (shape of data, pointers) is concrete; branches on
//! symbolic values fork. A run may be *perturbed*: instructions of the outermost function that are
//! not in `keep` compute arbitrary values and branch arbitrarily.
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};

use rustc_hir::LangItem;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::{self, AdtKind, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv};
use symrt::{SBV, SBool};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Step {
  Field(usize),
  Elem(usize),
  Variant(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ptr<'tcx> {
  pub alloc: usize,
  pub path: Vec<Step>,
  pub mutable: bool,
  pub dynty: Option<Ty<'tcx>>,
}

#[derive(Clone)]
pub enum Val<'tcx> {
  Int(SBV),
  Agg(Vec<Val<'tcx>>),
  Enum(usize, Vec<Val<'tcx>>),
  Ptr(Ptr<'tcx>),
  Fn(Instance<'tcx>),
  Opaque(String),
  Uninit,
}
use Val::*;

#[derive(Debug, Clone)]
pub enum Stop {
  Panic,
  Bound,
  Garbage,
  Unsupported(String),
}
pub type R<T> = Result<T, Stop>;
fn unsup<T>(s: impl Into<String>) -> R<T> {
  Err(Stop::Unsupported(s.into()))
}

/// What the runs of one path share: program, choices made by name.
pub struct World<'w, 'tcx> {
  pub tcx: TyCtxt<'tcx>,
  pub bodies: HashMap<DefId, &'w Body<'tcx>>,
  pub choices: RefCell<HashMap<String, u32>>,
  pub fresh: Cell<u32>,
  pub max_visits: u32,
  /// a perturbed call changes only what it wrote, rather than all it could have by its type
  pub precise_calls: bool,
}
impl<'w, 'tcx> World<'w, 'tcx> {
  fn choose(&self, name: String, n: u32) -> u32 {
    if let Some(c) = self.choices.borrow().get(&name) {
      return *c;
    }
    let c = symrt::choose(&name, n);
    self.choices.borrow_mut().insert(name, c);
    c
  }
  fn next(&self) -> u32 {
    self.fresh.set(self.fresh.get() + 1);
    self.fresh.get()
  }
}

pub struct Frame<'w, 'tcx> {
  pub body: &'w Body<'tcx>,
  pub instance: Instance<'tcx>,
  pub locals: Vec<usize>,
  pub top: bool,
}

pub struct Run<'x, 'w, 'tcx> {
  pub w: &'x World<'w, 'tcx>,
  pub mem: Vec<Val<'tcx>>,
  pub keep: Option<HashSet<Location>>,
  depth: u32,
  steps: u32,
  /// what was written to memory older than the current perturbed call
  log: Option<(usize, Vec<(usize, Vec<Step>)>)>,
}

pub fn env<'tcx>() -> TypingEnv<'tcx> {
  TypingEnv::fully_monomorphized()
}

pub fn int_bits(ty: Ty<'_>) -> Option<(u32, bool)> {
  Some(match ty.kind() {
    TyKind::Bool => (1, false),
    TyKind::Char => (32, false),
    TyKind::Int(i) => (i.bit_width().unwrap_or(64) as u32, true),
    TyKind::Uint(i) => (i.bit_width().unwrap_or(64) as u32, false),
    _ => return None,
  })
}

impl<'x, 'w, 'tcx> Run<'x, 'w, 'tcx> {
  pub fn new(w: &'x World<'w, 'tcx>, keep: Option<HashSet<Location>>) -> Self {
    Run { w, mem: vec![], keep, depth: 0, steps: 0, log: None }
  }
  pub fn alloc(&mut self, v: Val<'tcx>) -> usize {
    self.mem.push(v);
    self.mem.len() - 1
  }
  fn tcx(&self) -> TyCtxt<'tcx> {
    self.w.tcx
  }

  /// An arbitrary value of a type; pointers lead to fresh memory.
  pub fn arbitrary(&mut self, ty: Ty<'tcx>, name: &str, depth: u32) -> R<Val<'tcx>> {
    let tcx = self.tcx();
    if let Some((w, _)) = int_bits(ty) {
      return Ok(Int(symrt::fresh_bv(name, w)));
    }
    if depth > 6 {
      return Err(Stop::Bound);
    }
    if let Some(t) = ty.boxed_ty() {
      let v = self.arbitrary(t, &format!("{name}*"), depth + 1)?;
      let alloc = self.alloc(v);
      return Ok(Val::Ptr(Ptr { alloc, path: vec![], mutable: true, dynty: None }));
    }
    let many = |s: &mut Self, tys: Vec<Ty<'tcx>>, tag: &str| -> R<Vec<Val<'tcx>>> {
      tys.into_iter().enumerate().map(|(i, t)| s.arbitrary(t, &format!("{name}.{tag}{i}"), depth + 1)).collect()
    };
    match ty.kind() {
      TyKind::Tuple(ts) => Ok(Agg(many(self, ts.to_vec(), "")?)),
      TyKind::Closure(_, args) => Ok(Agg(many(self, args.as_closure().upvar_tys().to_vec(), "")?)),
      TyKind::Array(t, n) => {
        let n = n.try_to_target_usize(tcx).ok_or(Stop::Unsupported("array length".into()))?;
        Ok(Agg(many(self, vec![*t; n as usize], "")?))
      }
      TyKind::Slice(t) => {
        let n = self.w.choose(format!("len {name}"), 3);
        Ok(Agg(many(self, vec![*t; n as usize], "")?))
      }
      TyKind::Adt(adt, args) => {
        let tys = |v: &ty::VariantDef| v.fields.iter().map(|f| self.norm(f.ty(tcx, args))).collect::<Vec<_>>();
        match adt.adt_kind() {
          AdtKind::Struct => {
            let t = tys(adt.non_enum_variant());
            Ok(Agg(many(self, t, "")?))
          }
          AdtKind::Enum => {
            let all: Vec<_> = adt.variants().iter().map(tys).collect();
            if all.is_empty() {
              return Err(Stop::Garbage);
            }
            let v = self.w.choose(format!("variant {name}"), all.len() as u32) as usize;
            let t = all[v].clone();
            Ok(Enum(v, many(self, t, &format!("v{v}."))?))
          }
          AdtKind::Union => unsup("union"),
        }
      }
      TyKind::Ref(_, t, m) => {
        if t.is_str() {
          return Ok(Opaque(name.into()));
        }
        let v = self.arbitrary(*t, &format!("{name}*"), depth + 1)?;
        let alloc = self.alloc(v);
        Ok(Val::Ptr(self::Ptr { alloc, path: vec![], mutable: m.is_mut(), dynty: None }))
      }
      TyKind::FnDef(..) => Ok(Agg(vec![])),
      _ => unsup(format!("argument of type {ty}")),
    }
  }
  fn norm(&self, ty: Ty<'tcx>) -> Ty<'tcx> {
    self.tcx().normalize_erasing_regions(env(), self.tcx().erase_regions(ty))
  }
  pub fn mono<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, f: &Frame<'w, 'tcx>, t: T) -> T {
    let t = self.tcx().erase_regions(t);
    f.instance.instantiate_mir_and_normalize_erasing_regions(self.tcx(), env(), EarlyBinder::bind(t))
  }

  /// Replace every scalar by an arbitrary one.
  fn havoc(&mut self, v: &Val<'tcx>) -> Val<'tcx> {
    match v {
      Int(b) => Int(symrt::fresh_bv(&format!("havoc {}", self.w.next()), b.width())),
      Agg(vs) => Agg(vs.iter().map(|v| self.havoc(v)).collect()),
      Enum(i, vs) => Enum(*i, vs.iter().map(|v| self.havoc(v)).collect()),
      v => v.clone(),
    }
  }
  /// Havoc what can be changed through the pointers in `v`.
  fn havoc_reach(&mut self, v: &Val<'tcx>, seen: &mut Vec<(usize, Vec<Step>)>) {
    match v {
      Agg(vs) | Enum(_, vs) => vs.iter().for_each(|v| self.havoc_reach(v, seen)),
      Val::Ptr(p) if p.mutable => {
        let key = (p.alloc, p.path.clone());
        if !seen.contains(&key) {
          seen.push(key);
          if let Ok(old) = self.load(p.alloc, &p.path) {
            let new = self.havoc(&old);
            let _ = self.store(p.alloc, &p.path, new);
            self.havoc_reach(&old, seen);
          }
        }
      }
      _ => {}
    }
  }

  pub fn load(&self, alloc: usize, path: &[Step]) -> R<Val<'tcx>> {
    let mut v = &self.mem[alloc];
    for s in path {
      v = match (v, s) {
        (Agg(vs), Step::Field(i) | Step::Elem(i)) => vs.get(*i).ok_or(Stop::Garbage)?,
        (Enum(k, _), Step::Variant(i)) => {
          if k != i {
            return Err(Stop::Garbage);
          }
          v
        }
        (Enum(_, vs), Step::Field(i)) => vs.get(*i).ok_or(Stop::Garbage)?,
        (Uninit, _) => return Err(Stop::Garbage),
        // a box is its pointer
        (Val::Ptr(_), Step::Field(0)) => v,
        _ => return unsup("projection of a scalar"),
      }
    }
    Ok(v.clone())
  }
  fn store(&mut self, alloc: usize, path: &[Step], new: Val<'tcx>) -> R<()> {
    if let Some((old, log)) = &mut self.log
      && alloc < *old
    {
      log.push((alloc, path.to_vec()));
    }
    let mut v = &mut self.mem[alloc];
    for s in path {
      v = match s {
        Step::Variant(i) => match v {
          Enum(k, _) if *k == *i => v,
          _ => return Err(Stop::Garbage),
        },
        Step::Field(i) | Step::Elem(i) => match v {
          Agg(vs) | Enum(_, vs) => vs.get_mut(*i).ok_or(Stop::Garbage)?,
          Uninit => return Err(Stop::Garbage),
          _ => return unsup("store into a scalar"),
        },
      }
    }
    *v = new;
    Ok(())
  }

  pub fn place(&mut self, f: &Frame<'w, 'tcx>, p: Place<'tcx>) -> R<(usize, Vec<Step>)> {
    let (a, path, _) = self.place_meta(f, p)?;
    Ok((a, path))
  }
  fn place_meta(&mut self, f: &Frame<'w, 'tcx>, p: Place<'tcx>) -> R<(usize, Vec<Step>, Option<Ty<'tcx>>)> {
    let (mut alloc, mut path, mut meta) = (f.locals[p.local.as_usize()], vec![], None);
    for (i, e) in p.projection.iter().enumerate() {
      meta = None;
      match e {
        ProjectionElem::Deref => match self.load(alloc, &path)? {
          Val::Ptr(q) => {
            alloc = q.alloc;
            path = q.path;
            meta = q.dynty;
          }
          Uninit => return Err(Stop::Garbage),
          Opaque(_) => return unsup("deref of an opaque value"),
          _ => return unsup("deref of a non-pointer"),
        },
        ProjectionElem::Field(x, _) => path.push(Step::Field(x.as_usize())),
        ProjectionElem::Downcast(_, v) => {
          let base = PlaceRef { local: p.local, projection: &p.projection[.. i] };
          if base.ty(&f.body.local_decls, self.tcx()).ty.is_enum() {
            path.push(Step::Variant(v.as_usize()))
          }
        }
        ProjectionElem::Index(l) => {
          let Int(x) = self.load(f.locals[l.as_usize()], &[])? else { return Err(Stop::Garbage) };
          let n = self.len(alloc, &path)?;
          let k = (0 .. n).find(|k| symrt::branch(x.eq(&SBV::konst(x.width(), *k as u128)))).ok_or(Stop::Panic)?;
          path.push(Step::Elem(k));
        }
        ProjectionElem::ConstantIndex { offset, from_end, .. } => {
          let n = self.len(alloc, &path)?;
          let k = if from_end { n.checked_sub(offset as usize) } else { Some(offset as usize) };
          path.push(Step::Elem(k.ok_or(Stop::Garbage)?));
        }
        ProjectionElem::Subtype(_) | ProjectionElem::OpaqueCast(_) => {}
        e => return unsup(format!("projection {e:?}")),
      }
    }
    Ok((alloc, path, meta))
  }
  fn len(&self, alloc: usize, path: &[Step]) -> R<usize> {
    match self.load(alloc, path)? {
      Agg(v) => Ok(v.len()),
      Uninit => Err(Stop::Garbage),
      _ => unsup("length"),
    }
  }

  fn perturbed(&self, f: &Frame<'w, 'tcx>, l: Location) -> bool {
    f.top && self.keep.as_ref().is_some_and(|k| !k.contains(&l))
  }
  fn read(&mut self, f: &Frame<'w, 'tcx>, p: Place<'tcx>) -> R<Val<'tcx>> {
    let r = self.place(f, p).and_then(|(a, path)| self.load(a, &path));
    match r {
      // an execution whose control flow is arbitrary may look at data that is not there
      Err(Stop::Garbage) | Ok(Uninit) if self.keep.is_some() => {
        let ty = self.mono(f, p.ty(&f.body.local_decls, self.tcx()).ty);
        if ty.is_any_ptr() || ty.is_box() {
          return Err(Stop::Garbage);
        }
        let n = self.w.next();
        self.arbitrary(ty, &format!("garbage {n}"), 3)
      }
      r => r,
    }
  }
  fn operand(&mut self, f: &Frame<'w, 'tcx>, o: &Operand<'tcx>) -> R<Val<'tcx>> {
    match o {
      Operand::Copy(p) => self.read(f, *p),
      Operand::Move(p) => {
        let v = self.read(f, *p)?;
        let ty = self.mono(f, p.ty(&f.body.local_decls, self.tcx()).ty);
        // what is moved out of is gone; references are left behind, they still denote their referents
        let owns = ty.walk().filter_map(|a| a.as_type()).any(|t| self.destructor(t).is_some() || t.is_box());
        if owns {
          let (a, path) = self.place(f, *p)?;
          self.store(a, &path, Uninit)?;
        }
        Ok(v)
      }
      Operand::Constant(c) => self.constant(f, c),
    }
  }
  fn constant(&mut self, f: &Frame<'w, 'tcx>, c: &ConstOperand<'tcx>) -> R<Val<'tcx>> {
    let tcx = self.tcx();
    let k = self.mono(f, c.const_);
    let ty = k.ty();
    if let TyKind::FnDef(..) = ty.kind() {
      return Ok(Agg(vec![]));
    }
    if let Some((w, _)) = int_bits(ty) {
      let Some(i) = k.try_eval_scalar_int(tcx, env()) else { return unsup("constant") };
      return Ok(Int(SBV::konst(w, i.to_bits(i.size()))));
    }
    if let Const::Unevaluated(uv, _) = k {
      let body = match uv.promoted {
        Some(p) => &tcx.promoted_mir(uv.def)[p],
        None => {
          if uv.def.is_local() {
            return unsup("constant item");
          }
          tcx.mir_for_ctfe(uv.def)
        }
      };
      let inst = Instance::new_raw(uv.def, uv.args);
      return self.run_body(body, inst, vec![], false).map(|r| r.0);
    }
    if let Const::Val(v, _) = k {
      match v {
        ConstValue::ZeroSized => return self.zst(ty),
        ConstValue::Slice { .. } => return Ok(Opaque(format!("{k:?}"))),
        _ => {}
      }
    }
    if let Const::Ty(t, ct) = k
      && let Some(v) = ct.try_to_value()
      && let Some((w, _)) = int_bits(t)
      && let Some(s) = v.valtree.try_to_scalar_int()
    {
      return Ok(Int(SBV::konst(w, s.to_bits(s.size()))));
    }
    unsup(format!("constant of type {ty}"))
  }
  fn zst(&mut self, ty: Ty<'tcx>) -> R<Val<'tcx>> {
    let tcx = self.tcx();
    Ok(match ty.kind() {
      TyKind::Tuple(ts) => Agg(ts.iter().map(|t| self.zst(t)).collect::<R<_>>()?),
      TyKind::Adt(a, args) if a.is_struct() => {
        let tys: Vec<_> = a.non_enum_variant().fields.iter().map(|x| self.norm(x.ty(tcx, args))).collect();
        Agg(tys.into_iter().map(|t| self.zst(t)).collect::<R<_>>()?)
      }
      TyKind::Adt(a, args) if a.is_enum() => {
        let layout = tcx.layout_of(env().as_query_input(ty)).map_err(|_| Stop::Unsupported("layout".into()))?;
        let rustc_abi::Variants::Single { index } = layout.variants else { return unsup("zero-sized enum") };
        let tys: Vec<_> = a.variant(index).fields.iter().map(|x| self.norm(x.ty(tcx, args))).collect();
        Enum(index.as_usize(), tys.into_iter().map(|t| self.zst(t)).collect::<R<_>>()?)
      }
      TyKind::FnDef(..) | TyKind::Closure(..) | TyKind::Array(..) => Agg(vec![]),
      _ => return unsup(format!("zero-sized {ty}")),
    })
  }

  fn rvalue(&mut self, f: &Frame<'w, 'tcx>, rv: &Rvalue<'tcx>) -> R<Val<'tcx>> {
    let tcx = self.tcx();
    match rv {
      Rvalue::Use(o) => self.operand(f, o),
      Rvalue::CopyForDeref(p) => self.read(f, *p),
      Rvalue::Repeat(o, n) => {
        let v = self.operand(f, o)?;
        let n = self.mono(f, *n).try_to_target_usize(tcx).ok_or(Stop::Unsupported("repeat".into()))?;
        Ok(Agg(vec![v; n as usize]))
      }
      Rvalue::Ref(_, k, p) => {
        let (alloc, path, dynty) = self.place_meta(f, *p)?;
        Ok(Val::Ptr(Ptr { alloc, path, mutable: matches!(k, BorrowKind::Mut { .. }), dynty }))
      }
      Rvalue::RawPtr(k, p) => {
        let (alloc, path, dynty) = self.place_meta(f, *p)?;
        Ok(Val::Ptr(Ptr { alloc, path, mutable: matches!(k, RawPtrKind::Mut), dynty }))
      }
      Rvalue::Len(p) => {
        let (a, path) = self.place(f, *p)?;
        let n = self.len(a, &path)?;
        Ok(Int(SBV::konst(64, n as u128)))
      }
      Rvalue::Cast(k, o, ty) => {
        let from = self.mono(f, o.ty(&f.body.local_decls, tcx));
        let to = self.mono(f, *ty);
        let v = self.operand(f, o)?;
        match k {
          CastKind::IntToInt => {
            let Some((w, _)) = int_bits(to) else { return unsup("cast") };
            match v {
              Int(b) => {
                let signed = int_bits(from).is_some_and(|x| x.1);
                Ok(Int(b.resize(w, signed)))
              }
              // a field-less enum
              Enum(i, _) => {
                let TyKind::Adt(a, _) = from.kind() else { return unsup("cast") };
                let d = a.discriminant_for_variant(tcx, i.into());
                Ok(Int(SBV::konst(w, d.val)))
              }
              _ => Err(Stop::Garbage),
            }
          }
          CastKind::PointerCoercion(c, _) => match c {
            PointerCoercion::Unsize => {
              let target = |t: Ty<'tcx>| t.builtin_deref(true);
              match (v, target(from), target(to)) {
                (Val::Ptr(mut p), Some(a), Some(b)) => {
                  if matches!(b.kind(), TyKind::Dynamic(..)) && p.dynty.is_none() {
                    p.dynty = Some(a);
                  }
                  Ok(Val::Ptr(p))
                }
                _ => unsup("unsize"),
              }
            }
            PointerCoercion::ReifyFnPointer => {
              let TyKind::FnDef(d, args) = from.kind() else { return unsup("reify") };
              Ok(Fn(self.resolve(*d, args)?))
            }
            PointerCoercion::ClosureFnPointer(_) => {
              let TyKind::Closure(d, args) = from.kind() else { return unsup("closure cast") };
              Ok(Fn(Instance::new_raw(*d, args)))
            }
            _ => Ok(v),
          },
          CastKind::PtrToPtr => Ok(v),
          CastKind::Transmute if matches!(v, Val::Ptr(_)) => Ok(v),
          k => unsup(format!("cast {k:?}")),
        }
      }
      Rvalue::BinaryOp(op, ab) => {
        let ta = self.mono(f, ab.0.ty(&f.body.local_decls, tcx));
        let (a, b) = (self.operand(f, &ab.0)?, self.operand(f, &ab.1)?);
        let Some((w, signed)) = int_bits(ta) else { return unsup(format!("{op:?} on {ta}")) };
        let (Int(a), Int(b)) = (a, b) else { return Err(Stop::Garbage) };
        self.binop(*op, a, b, w, signed)
      }
      Rvalue::UnaryOp(op, o) => {
        let v = self.operand(f, o)?;
        match (op, v) {
          (UnOp::Not, Int(b)) => Ok(Int(b.not())),
          (UnOp::Neg, Int(b)) => Ok(Int(b.neg())),
          (UnOp::PtrMetadata, Val::Ptr(p)) => {
            let n = self.len(p.alloc, &p.path)?;
            Ok(Int(SBV::konst(64, n as u128)))
          }
          _ => unsup("unary"),
        }
      }
      Rvalue::Discriminant(p) => {
        let v = self.read(f, *p)?;
        let ty = self.mono(f, p.ty(&f.body.local_decls, tcx).ty);
        let w = int_bits(self.mono(f, rv.ty(&f.body.local_decls, tcx))).map_or(64, |x| x.0);
        match (v, ty.kind()) {
          (Enum(i, _), TyKind::Adt(a, _)) => Ok(Int(SBV::konst(w, a.discriminant_for_variant(tcx, i.into()).val))),
          (Uninit, _) => Err(Stop::Garbage),
          _ => unsup("discriminant"),
        }
      }
      Rvalue::Aggregate(k, ops) => {
        let vs = ops.iter().map(|o| self.operand(f, o)).collect::<R<Vec<_>>>()?;
        match &**k {
          AggregateKind::Array(_) | AggregateKind::Tuple | AggregateKind::Closure(..) => Ok(Agg(vs)),
          AggregateKind::Adt(d, v, ..) => match tcx.adt_def(*d).adt_kind() {
            AdtKind::Struct => Ok(Agg(vs)),
            AdtKind::Enum => Ok(Enum(v.as_usize(), vs)),
            AdtKind::Union => unsup("union"),
          },
          k => unsup(format!("aggregate {k:?}")),
        }
      }
      rv => unsup(format!("{rv:?}")),
    }
  }
  fn binop(&mut self, op: BinOp, a: SBV, b: SBV, w: u32, signed: bool) -> R<Val<'tcx>> {
    let flag = |c: SBool| Int(SBV::ite(c, &SBV::konst(1, 1), &SBV::konst(1, 0)));
    let lt = |a: &SBV, b: &SBV| if signed { a.slt(b) } else { a.ult(b) };
    let shift = |b: &SBV| b.resize(w, false).and(&SBV::konst(w, (w - 1) as u128));
    let checked = |k: &dyn std::ops::Fn(&SBV, &SBV) -> SBV, extra: u32| {
      let (x, y) = (a.resize(w + extra, signed), b.resize(w + extra, signed));
      let wide = k(&x, &y);
      let r = wide.resize(w, signed);
      let fits = r.resize(w + extra, signed).eq(&wide);
      Ok(Agg(vec![Int(r), flag(fits.not())]))
    };
    Ok(match op {
      BinOp::Add | BinOp::AddUnchecked => Int(a.add(&b)),
      BinOp::Sub | BinOp::SubUnchecked => Int(a.sub(&b)),
      BinOp::Mul | BinOp::MulUnchecked => Int(a.mul(&b)),
      BinOp::AddWithOverflow => return checked(&|x, y| x.add(y), 1),
      BinOp::SubWithOverflow => return checked(&|x, y| x.sub(y), 1),
      BinOp::MulWithOverflow => return checked(&|x, y| x.mul(y), w.min(32)),
      BinOp::Div => Int(a.div(&b, signed)),
      BinOp::Rem => Int(a.rem(&b, signed)),
      BinOp::BitXor => Int(a.xor(&b)),
      BinOp::BitAnd => Int(a.and(&b)),
      BinOp::BitOr => Int(a.or(&b)),
      BinOp::Shl | BinOp::ShlUnchecked => Int(a.shl(&shift(&b))),
      BinOp::Shr | BinOp::ShrUnchecked => Int(a.shr(&shift(&b), signed)),
      BinOp::Eq => flag(a.eq(&b)),
      BinOp::Ne => flag(a.eq(&b).not()),
      BinOp::Lt => flag(lt(&a, &b)),
      BinOp::Le => flag(lt(&b, &a).not()),
      BinOp::Gt => flag(lt(&b, &a)),
      BinOp::Ge => flag(lt(&a, &b).not()),
      BinOp::Cmp => {
        let v = if symrt::branch(lt(&a, &b)) {
          0
        } else if symrt::branch(a.eq(&b)) {
          1
        } else {
          2
        };
        Enum(v, vec![])
      }
      op => return unsup(format!("{op:?}")),
    })
  }

  fn destructor(&self, ty: Ty<'tcx>) -> Option<DefId> {
    let TyKind::Adt(a, _) = ty.kind() else { return None };
    if !a.did().is_local() {
      return None;
    }
    self.tcx().adt_destructor(a.did()).map(|d| d.did)
  }
  fn resolve(&self, d: DefId, args: GenericArgsRef<'tcx>) -> R<Instance<'tcx>> {
    match Instance::try_resolve(self.tcx(), env(), d, args) {
      Ok(Some(i)) => Ok(i),
      _ => unsup("unresolved call"),
    }
  }

  fn call(&mut self, inst: Instance<'tcx>, mut args: Vec<Val<'tcx>>, untupled: bool) -> R<Val<'tcx>> {
    let tcx = self.tcx();
    if self.depth > 8 {
      return Err(Stop::Bound);
    }
    let untuple = |args: &mut Vec<Val<'tcx>>| -> R<()> {
      if !untupled && let Some(Agg(vs)) = args.pop() {
        args.extend(vs);
        return Ok(());
      }
      if untupled { Ok(()) } else { unsup("rust-call arguments") }
    };
    match inst.def {
      InstanceKind::Item(d) => {
        let name = tcx.def_path_str(d);
        match name.as_str() {
          "std::boxed::Box::<T>::new" => {
            let v = args.pop().unwrap();
            let alloc = self.alloc(v);
            return Ok(Val::Ptr(Ptr { alloc, path: vec![], mutable: true, dynty: None }));
          }
          "std::mem::swap" => {
            let (Val::Ptr(a), Val::Ptr(b)) = (&args[0], &args[1]) else { return unsup("swap") };
            let (x, y) = (self.load(a.alloc, &a.path)?, self.load(b.alloc, &b.path)?);
            self.store(a.alloc, &a.path, y)?;
            self.store(b.alloc, &b.path, x)?;
            return Ok(Agg(vec![]));
          }
          "std::mem::replace" => {
            let Val::Ptr(a) = &args[0] else { return unsup("replace") };
            let x = self.load(a.alloc, &a.path)?;
            self.store(a.alloc, &a.path, args[1].clone())?;
            return Ok(x);
          }
          _ => {}
        }
        let body = match self.w.bodies.get(&d) {
          Some(b) => *b,
          None => {
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) || !tcx.is_mir_available(d) {
              return unsup(format!("call to {name}"));
            }
            tcx.instance_mir(inst.def)
          }
        };
        if tcx.is_closure_like(d) {
          untuple(&mut args)?;
        }
        self.depth += 1;
        let r = self.run_body(body, inst, args, false);
        self.depth -= 1;
        r.map(|r| r.0)
      }
      InstanceKind::Virtual(d, _) => {
        let Some(Val::Ptr(p)) = args.first().cloned() else { return unsup("virtual receiver") };
        let Some(t) = p.dynty else { return unsup("virtual receiver of unknown type") };
        if let Val::Ptr(p) = &mut args[0] {
          p.dynty = None;
        }
        let trait_args = tcx.mk_args_trait(t, inst.args.iter().skip(1));
        let i = self.resolve(d, trait_args)?;
        self.call(i, args, untupled)
      }
      InstanceKind::ClosureOnceShim { .. } => {
        let TyKind::Closure(d, cargs) = inst.args.type_at(0).kind() else { return unsup("call_once") };
        let c = args.remove(0);
        let alloc = self.alloc(c);
        args.insert(0, Val::Ptr(Ptr { alloc, path: vec![], mutable: true, dynty: None }));
        self.call(Instance::new_raw(*d, cargs), args, untupled)
      }
      InstanceKind::FnPtrShim(_, ty) => {
        let callee = args.remove(0);
        untuple(&mut args)?;
        self.call_value(&callee, ty, args)
      }
      InstanceKind::CloneShim(..) => {
        let Some(Val::Ptr(p)) = args.pop() else { return unsup("clone") };
        // only plain data is cloned by these shims in the corpus
        self.load(p.alloc, &p.path)
      }
      InstanceKind::ReifyShim(d, _) => self.call(Instance::new_raw(d, inst.args), args, untupled),
      k => unsup(format!("call to {k:?}")),
    }
  }
  fn call_value(&mut self, callee: &Val<'tcx>, ty: Ty<'tcx>, args: Vec<Val<'tcx>>) -> R<Val<'tcx>> {
    match (callee, ty.kind()) {
      (Fn(i), _) => {
        let mut args = args;
        let i = *i;
        if self.tcx().is_closure_like(i.def_id()) {
          args.insert(0, Agg(vec![]));
        }
        self.call(i, args, true)
      }
      (_, TyKind::FnDef(d, a)) => {
        let i = self.resolve(*d, a)?;
        self.call(i, args, true)
      }
      _ => unsup("indirect call"),
    }
  }

  /// Execute a function; the value returned, the frame and the location of the return.
  pub fn run_body(
    &mut self,
    body: &'w Body<'tcx>,
    instance: Instance<'tcx>,
    args: Vec<Val<'tcx>>,
    top: bool,
  ) -> R<(Val<'tcx>, Frame<'w, 'tcx>, Location)>
  {
    let tcx = self.tcx();
    if args.len() != body.arg_count {
      return unsup(format!("{} arguments for {}", args.len(), body.arg_count));
    }
    let mut locals = vec![];
    for l in body.local_decls.indices() {
      let i = l.as_usize();
      let v = if i >= 1 && i <= body.arg_count { args[i - 1].clone() } else { Uninit };
      locals.push(self.alloc(v));
    }
    let f = Frame { body, instance, locals, top };
    let mut visits = vec![0u32; body.basic_blocks.len()];
    let mut bb = START_BLOCK;
    loop {
      visits[bb.as_usize()] += 1;
      self.steps += 1;
      if visits[bb.as_usize()] > self.w.max_visits || self.steps > 3000 {
        return Err(Stop::Bound);
      }
      let data = &body.basic_blocks[bb];
      for (i, s) in data.statements.iter().enumerate() {
        let loc = Location { block: bb, statement_index: i };
        if let StatementKind::Assign(a) = &s.kind {
          let mut v = self.rvalue(&f, &a.1)?;
          if self.perturbed(&f, loc) {
            v = self.havoc(&v);
          }
          let (al, path) = self.place(&f, a.0)?;
          self.store(al, &path, v)?;
        } else if let StatementKind::SetDiscriminant { .. } = &s.kind {
          return unsup("set discriminant");
        }
      }
      let loc = Location { block: bb, statement_index: data.statements.len() };
      bb = match &data.terminator().kind {
        TerminatorKind::Goto { target } => *target,
        TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => *real_target,
        TerminatorKind::SwitchInt { discr, targets } => {
          if self.perturbed(&f, loc) {
            let mut all: Vec<_> = targets.all_targets().to_vec();
            all.retain(|t| !matches!(body.basic_blocks[*t].terminator().kind, TerminatorKind::Unreachable));
            let n = self.w.next();
            all[self.w.choose(format!("branch {n}"), all.len() as u32) as usize]
          } else {
            let Int(d) = self.operand(&f, discr)? else { return Err(Stop::Garbage) };
            let mut next = None;
            for (v, t) in targets.iter() {
              if symrt::branch(d.eq(&SBV::konst(d.width(), v))) {
                next = Some(t);
                break;
              }
            }
            next.unwrap_or(targets.otherwise())
          }
        }
        TerminatorKind::Return => {
          let v = self.mem[f.locals[0]].clone();
          return Ok((v, f, loc));
        }
        TerminatorKind::Assert { cond, expected, target, .. } => {
          let Int(c) = self.operand(&f, cond)? else { return Err(Stop::Garbage) };
          let c = c.bit(0);
          if !symrt::branch(if *expected { c } else { c.not() }) {
            return Err(Stop::Panic);
          }
          *target
        }
        TerminatorKind::Drop { place, target, .. } => {
          let ty = self.mono(&f, place.ty(&body.local_decls, tcx).ty);
          if let Some(d) = self.destructor(ty) {
            let (alloc, path) = self.place(&f, *place)?;
            if !matches!(self.load(alloc, &path), Ok(Uninit) | Err(_)) {
              let TyKind::Adt(_, args) = ty.kind() else { unreachable!() };
              let p = Val::Ptr(Ptr { alloc, path: path.clone(), mutable: true, dynty: None });
              self.call(Instance::new_raw(d, args), vec![p], false)?;
              self.store(alloc, &path, Uninit)?;
            }
          }
          *target
        }
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let vals = args.iter().map(|a| self.operand(&f, &a.node)).collect::<R<Vec<_>>>()?;
          let fty = self.mono(&f, func.ty(&body.local_decls, tcx));
          let precise = self.w.precise_calls && self.perturbed(&f, loc);
          if precise {
            self.log = Some((self.mem.len(), vec![]));
          }
          let v = match fty.kind() {
            TyKind::FnDef(d, a) => {
              if tcx.is_lang_item(*d, LangItem::PanicFmt) || tcx.is_lang_item(*d, LangItem::Panic) {
                return Err(Stop::Panic);
              }
              let i = self.resolve(*d, a)?;
              self.call(i, vals.clone(), false)?
            }
            _ => {
              let c = self.operand(&f, func)?;
              self.call_value(&c, fty, vals.clone())?
            }
          };
          let v = if self.perturbed(&f, loc) {
            match self.log.take() {
              Some((_, log)) => {
                for (a, path) in log {
                  if let Ok(old) = self.load(a, &path) {
                    let new = self.havoc(&old);
                    self.store(a, &path, new)?;
                  }
                }
              }
              None => {
                let mut seen = vec![];
                vals.iter().for_each(|a| self.havoc_reach(a, &mut seen));
              }
            }
            self.havoc(&v)
          } else {
            v
          };
          let Some(t) = target else { return Err(Stop::Panic) };
          let (al, path) = self.place(&f, *destination)?;
          self.store(al, &path, v)?;
          *t
        }
        TerminatorKind::Unreachable => return Err(Stop::Garbage),
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => return Err(Stop::Panic),
        k => return unsup(format!("{k:?}")),
      };
    }
  }
}

/// Do two values of two runs agree, looking through pointers?
pub fn agree<'tcx>(r1: &Run<'_, '_, 'tcx>, a: &Val<'tcx>, r2: &Run<'_, '_, 'tcx>, b: &Val<'tcx>, depth: u32) -> SBool {
  if depth > 12 {
    return SBool::C(true);
  }
  match (a, b) {
    (Uninit, _) | (_, Uninit) => SBool::C(true),
    (Int(a), Int(b)) => a.eq(b),
    (Agg(x), Agg(y)) if x.len() == y.len() => SBool::all(x.iter().zip(y).map(|(x, y)| agree(r1, x, r2, y, depth + 1))),
    (Enum(i, x), Enum(j, y)) if i == j => SBool::all(x.iter().zip(y).map(|(x, y)| agree(r1, x, r2, y, depth + 1))),
    (Val::Ptr(p), Val::Ptr(q)) => match (r1.load(p.alloc, &p.path), r2.load(q.alloc, &q.path)) {
      (Ok(x), Ok(y)) => agree(r1, &x, r2, &y, depth + 1),
      _ => SBool::C(true),
    },
    (Fn(i), Fn(j)) => SBool::C(i == j),
    (Opaque(x), Opaque(y)) => SBool::C(x == y),
    _ => SBool::C(false),
  }
}

pub fn show<'tcx>(r: &Run<'_, '_, 'tcx>, v: &Val<'tcx>, depth: u32) -> String {
  if depth > 6 {
    return "..".into();
  }
  let list = |vs: &Vec<Val<'tcx>>| vs.iter().map(|v| show(r, v, depth + 1)).collect::<Vec<_>>().join(", ");
  match v {
    Int(b) => b.as_u128().map_or("(symbolic)".into(), |v| v.to_string()),
    Agg(vs) => format!("({})", list(vs)),
    Enum(i, vs) => format!("#{i}({})", list(vs)),
    Val::Ptr(p) => match r.load(p.alloc, &p.path) {
      Ok(v) => format!("&{}", show(r, &v, depth + 1)),
      _ => "&?".into(),
    },
    Fn(i) => format!("{i:?}"),
    Opaque(s) => s.clone(),
    Uninit => "uninit".into(),
  }
}
