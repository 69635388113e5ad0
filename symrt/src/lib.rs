//! A small dynamic symbolic execution runtime.
//!
//! Code under test runs natively; values that matter are SMT terms ([`SBV`], [`SBool`]).
//! Whenever the running code demands a concrete `bool`/choice, the runtime asks Z3 which
//! outcomes are feasible under the path condition and forks (by re-execution with a decision
//! prefix).  At assertion points Z3 decides `path condition /\ not property`.
//! In [`Mode::Concrete`] the very same program is re-run with every input fixed to a
//! counterexample's values and no solver at all: that is the replay.
use std::{
  cell::RefCell,
  collections::{BTreeMap, HashMap},
  ffi::{CStr, CString},
  panic::{self, AssertUnwindSafe},
  rc::Rc,
  time::{Duration, Instant},
};
pub mod z3;
use z3::*;

pub type Bits = Rc<Vec<bool>>;

/// Bit-vector term (constant or symbolic).
#[derive(Clone)]
pub enum SBV {
  C(Bits),
  S(u32, Ast),
}

/// Boolean term.
#[derive(Clone, Copy)]
pub enum SBool {
  C(bool),
  S(Ast),
}

pub type Assignment = BTreeMap<String, Vec<bool>>;

#[derive(Clone, Debug, Default)]
pub struct Stats {
  pub paths: u64,
  pub paths_aborted: u64,
  pub branches: u64,
  pub forks: u64,
  pub queries: u64,
  pub sat: u64,
  pub unsat: u64,
  pub unknown: u64,
  pub checks: u64,
  pub checks_const: u64,
  pub sym_vars: u64,
  pub solver_time: Duration,
  pub incomplete: u64,
}
impl Stats {
  pub fn add(&mut self, o: &Stats) {
    self.paths += o.paths;
    self.paths_aborted += o.paths_aborted;
    self.branches += o.branches;
    self.forks += o.forks;
    self.queries += o.queries;
    self.sat += o.sat;
    self.unsat += o.unsat;
    self.unknown += o.unknown;
    self.checks += o.checks;
    self.checks_const += o.checks_const;
    self.sym_vars = self.sym_vars.max(o.sym_vars);
    self.solver_time += o.solver_time;
    self.incomplete += o.incomplete;
  }
}

#[derive(Clone, Debug)]
pub struct Violation {
  pub key: String,
  pub detail: String,
  pub model: Assignment,
}

struct Dec {
  taken: u32,
  /// alternatives still to be explored
  rest: Vec<u32>,
}

enum Mode {
  Symbolic { ctx: Context, solver: Solver },
  Concrete { model: Assignment },
}

struct Engine {
  mode: Mode,
  trace: Vec<Dec>,
  pos: usize,
  vars: BTreeMap<String, (u32, Option<Ast>)>,
  funs: HashMap<String, *mut u8>,
  /// operands (and constant part) of each union term
  unions: HashMap<usize, Rc<(Vec<usize>, Option<Vec<bool>>)>>,
  stats: Stats,
  violations: Vec<Violation>,
  seen: HashMap<String, u32>,
  last_choices: Vec<(String, u32)>,
}

thread_local! { static ENG: RefCell<Option<Engine>> = const { RefCell::new(None) }; }

struct Abort;

fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
  ENG.with(|e| f(e.borrow_mut().as_mut().expect("no symbolic engine active")))
}
pub fn active() -> bool {
  ENG.with(|e| e.try_borrow().map(|e| e.is_some()).unwrap_or(true))
}

fn cx() -> Context {
  with(|e| match &e.mode {
    Mode::Symbolic { ctx, .. } => *ctx,
    Mode::Concrete { .. } => panic!("symbolic term in concrete mode"),
  })
}
pub fn concrete_mode() -> bool {
  with(|e| matches!(e.mode, Mode::Concrete { .. }))
}

fn sym(ctx: Context, s: &str) -> Symbol {
  let c = CString::new(s).unwrap();
  unsafe { Z3_mk_string_symbol(ctx, c.as_ptr()) }
}

thread_local! { static RND: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// Inputs missing from a replayed model: zero, or random bits after `seed_random`.
pub fn seed_random(seed: u64) {
  RND.with(|r| r.set(seed))
}
/// The same name gives the same bits.
fn random_bits(name: &str, w: u32) -> Vec<bool> {
  let mut x = RND.with(|r| r.get());
  if x == 0 {
    return vec![false; w as usize];
  }
  for b in name.bytes() {
    x = (x ^ b as u64).wrapping_mul(0x100000001b3);
  }
  x |= 1;
  (0 .. w)
    .map(|_| {
      x ^= x << 13;
      x ^= x >> 7;
      x ^= x << 17;
      (x >> 33) & 1 == 1
    })
    .collect()
}

/// Fresh (named) bit-vector input.
pub fn fresh_bv(name: &str, w: u32) -> SBV {
  assert!(w > 0);
  with(|e| match &e.mode {
    Mode::Symbolic { ctx, .. } => {
      let ctx = *ctx;
      let a = unsafe { Z3_mk_const(ctx, sym(ctx, name), Z3_mk_bv_sort(ctx, w)) };
      e.vars.insert(name.to_string(), (w, Some(a)));
      e.stats.sym_vars = e.stats.sym_vars.max(e.vars.len() as u64);
      SBV::S(w, a)
    }
    Mode::Concrete { model } => {
      let mut v = match model.get(name) {
        Some(v) => v.clone(),
        None => random_bits(name, w),
      };
      v.resize(w as usize, false);
      e.vars.insert(name.to_string(), (w, None));
      SBV::C(Rc::new(v))
    }
  })
}
pub fn fresh_bool(name: &str) -> SBool {
  fresh_bv(name, 1).bit(0)
}

impl SBV {
  pub fn width(&self) -> u32 {
    match self {
      SBV::C(b) => b.len() as u32,
      SBV::S(w, _) => *w,
    }
  }
  pub fn zero(w: u32) -> SBV {
    SBV::C(Rc::new(vec![false; w as usize]))
  }
  pub fn ones(w: u32) -> SBV {
    SBV::C(Rc::new(vec![true; w as usize]))
  }
  pub fn konst(w: u32, v: u128) -> SBV {
    SBV::C(Rc::new((0 .. w).map(|i| i < 128 && (v >> i) & 1 == 1).collect()))
  }
  pub fn single(w: u32, i: usize) -> SBV {
    SBV::C(Rc::new((0 .. w as usize).map(|j| j == i).collect()))
  }
  pub fn from_bits(b: Vec<bool>) -> SBV {
    SBV::C(Rc::new(b))
  }
  pub fn as_const(&self) -> Option<&[bool]> {
    match self {
      SBV::C(b) => Some(b),
      _ => None,
    }
  }
  pub fn as_u128(&self) -> Option<u128> {
    self.as_const().map(|b| {
      b.iter().enumerate().fold(0u128, |a, (i, x)| if *x && i < 128 { a | (1 << i) } else { a })
    })
  }
  pub fn ast(&self) -> Ast {
    match self {
      SBV::S(_, a) => *a,
      SBV::C(b) => {
        let c = cx();
        unsafe { Z3_mk_bv_numeral(c, b.len() as u32, b.as_ptr()) }
      }
    }
  }
  pub fn is_zero_const(&self) -> bool {
    self.as_const().map(|b| b.iter().all(|x| !x)).unwrap_or(false)
  }
  pub fn is_ones_const(&self) -> bool {
    self.as_const().map(|b| b.iter().all(|x| *x)).unwrap_or(false)
  }
  fn bin(
    &self,
    o: &SBV,
    k: impl Fn(bool, bool) -> bool,
    z: unsafe extern "C" fn(Context, Ast, Ast) -> Ast,
  ) -> SBV {
    assert_eq!(self.width(), o.width());
    match (self, o) {
      (SBV::C(a), SBV::C(b)) =>
        SBV::C(Rc::new(a.iter().zip(b.iter()).map(|(x, y)| k(*x, *y)).collect())),
      _ => SBV::S(self.width(), unsafe { z(cx(), self.ast(), o.ast()) }),
    }
  }
  pub fn or(&self, o: &SBV) -> SBV {
    if self.is_zero_const() { return o.clone(); }
    if o.is_zero_const() { return self.clone(); }
    if let (SBV::S(_, a), SBV::S(_, b)) = (self, o) { if a == b { return self.clone(); } }
    if self.as_const().is_some() && o.as_const().is_some() {
      return self.bin(o, |a, b| a | b, Z3_mk_bvor);
    }
    SBV::union(self, o)
  }
  /// Unions are kept as sorted sets of operands, so that equal unions are equal terms.
  fn union(x: &SBV, y: &SBV) -> SBV {
    let w = x.width();
    assert_eq!(w, y.width());
    let c = cx();
    let parts = |v: &SBV| match v {
      SBV::C(b) => Rc::new((vec![], Some((**b).clone()))),
      SBV::S(_, a) => with(|e| e.unions.get(&(*a as usize)).cloned()).unwrap_or_else(|| Rc::new((vec![*a as usize], None))),
    };
    let (px, py) = (parts(x), parts(y));
    let mut atoms: Vec<usize> = px.0.iter().chain(&py.0).copied().collect();
    atoms.sort_unstable();
    atoms.dedup();
    let konst = match (&px.1, &py.1) {
      (Some(a), Some(b)) => Some(a.iter().zip(b).map(|(x, y)| x | y).collect()),
      (Some(a), None) | (None, Some(a)) => Some(a.clone()),
      (None, None) => None,
    };
    if atoms == px.0 && konst == px.1 {
      return x.clone();
    }
    if atoms == py.0 && konst == py.1 {
      return y.clone();
    }
    let mut t: Option<Ast> = None;
    for a in &atoms {
      let a = *a as Ast;
      t = Some(match t {
        None => a,
        Some(t) => unsafe { Z3_mk_bvor(c, t, a) },
      });
    }
    let mut t = t.unwrap();
    if let Some(k) = &konst {
      t = unsafe { Z3_mk_bvor(c, t, Z3_mk_bv_numeral(c, w, k.as_ptr())) };
    }
    with(|e| e.unions.insert(t as usize, Rc::new((atoms, konst))));
    SBV::S(w, t)
  }
  pub fn and(&self, o: &SBV) -> SBV {
    if self.is_zero_const() { return self.clone(); }
    if o.is_zero_const() { return o.clone(); }
    if self.is_ones_const() { return o.clone(); }
    if o.is_ones_const() { return self.clone(); }
    self.bin(o, |a, b| a & b, Z3_mk_bvand)
  }
  pub fn xor(&self, o: &SBV) -> SBV {
    self.bin(o, |a, b| a ^ b, Z3_mk_bvxor)
  }
  pub fn not(&self) -> SBV {
    match self {
      SBV::C(a) => SBV::C(Rc::new(a.iter().map(|x| !x).collect())),
      SBV::S(w, a) => SBV::S(*w, unsafe { Z3_mk_bvnot(cx(), *a) }),
    }
  }
  pub fn add(&self, o: &SBV) -> SBV {
    if let (Some(a), Some(b)) = (self.as_u128(), o.as_u128()) {
      return SBV::konst(self.width(), a.wrapping_add(b));
    }
    SBV::S(self.width(), unsafe { Z3_mk_bvadd(cx(), self.ast(), o.ast()) })
  }
  pub fn sub(&self, o: &SBV) -> SBV {
    if let (Some(a), Some(b)) = (self.as_u128(), o.as_u128()) {
      return SBV::konst(self.width(), a.wrapping_sub(b));
    }
    SBV::S(self.width(), unsafe { Z3_mk_bvsub(cx(), self.ast(), o.ast()) })
  }
  fn int(&self, signed: bool) -> Option<i128> {
    let w = self.width();
    self.as_u128().map(|v| if signed && w < 128 && (v >> (w - 1)) & 1 == 1 { v as i128 - (1i128 << w) } else { v as i128 })
  }
  fn arith(
    &self,
    o: &SBV,
    signed: bool,
    k: impl Fn(i128, i128) -> i128,
    z: unsafe extern "C" fn(Context, Ast, Ast) -> Ast,
  ) -> SBV {
    assert_eq!(self.width(), o.width());
    match (self.int(signed), o.int(signed)) {
      (Some(a), Some(b)) => SBV::konst(self.width(), k(a, b) as u128),
      _ => SBV::S(self.width(), unsafe { z(cx(), self.ast(), o.ast()) }),
    }
  }
  pub fn mul(&self, o: &SBV) -> SBV {
    self.arith(o, false, |a, b| a.wrapping_mul(b), Z3_mk_bvmul)
  }
  pub fn neg(&self) -> SBV {
    match self.int(false) {
      Some(v) => SBV::konst(self.width(), v.wrapping_neg() as u128),
      None => SBV::S(self.width(), unsafe { Z3_mk_bvneg(cx(), self.ast()) }),
    }
  }
  /// Quotient and remainder as SMT-LIB defines them (callers exclude zero divisors).
  pub fn div(&self, o: &SBV, signed: bool) -> SBV {
    self.arith(o, signed, |a, b| if b == 0 { 0 } else { a.wrapping_div(b) }, if signed { Z3_mk_bvsdiv } else { Z3_mk_bvudiv })
  }
  pub fn rem(&self, o: &SBV, signed: bool) -> SBV {
    self.arith(o, signed, |a, b| if b == 0 { 0 } else { a.wrapping_rem(b) }, if signed { Z3_mk_bvsrem } else { Z3_mk_bvurem })
  }
  pub fn shl(&self, o: &SBV) -> SBV {
    let w = self.width() as i128;
    self.arith(o, false, move |a, b| if b >= w { 0 } else { a << b }, Z3_mk_bvshl)
  }
  pub fn shr(&self, o: &SBV, signed: bool) -> SBV {
    let w = self.width() as i128;
    if signed {
      self.arith(o, true, move |a, b| if b >= w || b < 0 { if a < 0 { -1 } else { 0 } } else { a >> b }, Z3_mk_bvashr)
    } else {
      self.arith(o, false, move |a, b| if b >= w { 0 } else { a >> b }, Z3_mk_bvlshr)
    }
  }
  pub fn slt(&self, o: &SBV) -> SBool {
    if let (Some(a), Some(b)) = (self.int(true), o.int(true)) {
      return SBool::C(a < b);
    }
    SBool::S(unsafe { Z3_mk_bvslt(cx(), self.ast(), o.ast()) })
  }
  /// Change of width: truncation, or extension by sign or zero.
  pub fn resize(&self, w: u32, signed: bool) -> SBV {
    let old = self.width();
    if w == old {
      return self.clone();
    }
    match self.int(signed) {
      Some(v) => SBV::konst(w, v as u128),
      None => {
        let (c, a) = (cx(), self.ast());
        SBV::S(w, unsafe {
          if w < old {
            Z3_mk_extract(c, w - 1, 0, a)
          } else if signed {
            Z3_mk_sign_ext(c, w - old, a)
          } else {
            Z3_mk_zero_ext(c, w - old, a)
          }
        })
      }
    }
  }
  pub fn ult(&self, o: &SBV) -> SBool {
    if let (Some(a), Some(b)) = (self.as_u128(), o.as_u128()) {
      return SBool::C(a < b);
    }
    SBool::S(unsafe { Z3_mk_bvult(cx(), self.ast(), o.ast()) })
  }
  pub fn ule(&self, o: &SBV) -> SBool {
    o.ult(self).not()
  }
  pub fn eq(&self, o: &SBV) -> SBool {
    assert_eq!(self.width(), o.width());
    match (self, o) {
      (SBV::C(a), SBV::C(b)) => SBool::C(a == b),
      _ => SBool::S(unsafe { Z3_mk_eq(cx(), self.ast(), o.ast()) }),
    }
  }
  /// every bit of `self` is also in `o`
  pub fn subset_of(&self, o: &SBV) -> SBool {
    // a constant member that a constant set lacks
    if let (SBV::S(_, a), SBV::C(k)) = (self, o) {
      if let Some(px) = with(|e| e.unions.get(&(*a as usize)).cloned()) {
        if px.1.as_ref().is_some_and(|c| c.iter().zip(k.iter()).any(|(x, y)| *x && !*y)) {
          return SBool::C(false);
        }
      }
    }
    // operands that occur in both unions cannot matter: leave them out of the formula
    if let (SBV::S(w, a), SBV::S(_, b)) = (self, o) {
      let px = with(|e| e.unions.get(&(*a as usize)).cloned()).unwrap_or_else(|| Rc::new((vec![*a as usize], None)));
      let inside: Vec<usize> = match with(|e| e.unions.get(&(*b as usize)).cloned()) {
        Some(p) => p.0.clone(),
        None => vec![*b as usize],
      };
      let mut rest = match &px.1 {
        Some(k) => SBV::C(Rc::new(k.clone())),
        None => SBV::zero(*w),
      };
      for x in px.0.iter().filter(|x| inside.binary_search(x).is_err()) {
        rest = rest.or(&SBV::S(*w, *x as Ast));
      }
      let z = unsafe { Z3_mk_bvand(cx(), rest.ast(), o.not().ast()) };
      return SBool::S(unsafe { Z3_mk_eq(cx(), z, SBV::zero(*w).ast()) });
    }
    self.and(&o.not()).eq(&SBV::zero(self.width()))
  }
  pub fn bit(&self, i: u32) -> SBool {
    match self {
      SBV::C(b) => SBool::C(b[i as usize]),
      SBV::S(_, a) => {
        let c = cx();
        unsafe {
          let x = Z3_mk_extract(c, i, i, *a);
          SBool::S(Z3_mk_eq(c, x, Z3_mk_bv_numeral(c, 1, [true].as_ptr())))
        }
      }
    }
  }
  pub fn ite(c: SBool, t: &SBV, f: &SBV) -> SBV {
    match c {
      SBool::C(true) => t.clone(),
      SBool::C(false) => f.clone(),
      SBool::S(a) => {
        match (t, f) {
          (SBV::C(x), SBV::C(y)) if x == y => return t.clone(),
          (SBV::S(_, x), SBV::S(_, y)) if x == y => return t.clone(),
          _ => {}
        }
        SBV::S(t.width(), unsafe { Z3_mk_ite(cx(), a, t.ast(), f.ast()) })
      }
    }
  }
  /// Uninterpreted function application (symbolic mode only; constant mode uses `model`
  /// entries named `name(args)` and defaults to zero).
  pub fn app(name: &str, args: &[SBV], w: u32) -> SBV {
    if concrete_mode() {
      let s: Vec<String> = args
        .iter()
        .map(|a| a.as_const().unwrap().iter().rev().map(|b| if *b { '1' } else { '0' }).collect())
        .collect();
      return fresh_bv(&format!("{name}({})", s.join(",")), w);
    }
    let c = cx();
    unsafe {
      let widths: Vec<u32> = args.iter().map(|a| a.width()).collect();
      let full = format!("{name}/{widths:?}->{w}");
      let known = with(|e| e.funs.get(&full).copied());
      let d = known.unwrap_or_else(|| {
        let sorts: Vec<Sort> = widths.iter().map(|w| Z3_mk_bv_sort(c, *w)).collect();
        let d = Z3_mk_func_decl(
          c,
          sym(c, &full),
          sorts.len() as u32,
          sorts.as_ptr(),
          Z3_mk_bv_sort(c, w),
        );
        with(|e| e.funs.insert(full, d));
        d
      });
      let asts: Vec<Ast> = args.iter().map(|a| a.ast()).collect();
      SBV::S(w, Z3_mk_app(c, d, asts.len() as u32, asts.as_ptr()))
    }
  }
  pub fn show(&self) -> String {
    match self {
      SBV::C(b) => format!(
        "{{{}}}",
        b.iter()
          .enumerate()
          .filter(|(_, x)| **x)
          .map(|(i, _)| i.to_string())
          .collect::<Vec<_>>()
          .join(",")
      ),
      SBV::S(_, a) => ast_str(*a),
    }
  }
}

fn ast_str(a: Ast) -> String {
  let c = cx();
  unsafe { CStr::from_ptr(Z3_ast_to_string(c, Z3_simplify(c, a))).to_string_lossy().into_owned() }
}

impl SBool {
  pub fn ast(self) -> Ast {
    match self {
      SBool::S(a) => a,
      SBool::C(true) => unsafe { Z3_mk_true(cx()) },
      SBool::C(false) => unsafe { Z3_mk_false(cx()) },
    }
  }
  pub fn not(self) -> SBool {
    match self {
      SBool::C(b) => SBool::C(!b),
      SBool::S(a) => SBool::S(unsafe { Z3_mk_not(cx(), a) }),
    }
  }
  pub fn and(self, o: SBool) -> SBool {
    match (self, o) {
      (SBool::C(false), _) | (_, SBool::C(false)) => SBool::C(false),
      (SBool::C(true), x) | (x, SBool::C(true)) => x,
      (SBool::S(a), SBool::S(b)) => SBool::S(unsafe { Z3_mk_and(cx(), 2, [a, b].as_ptr()) }),
    }
  }
  pub fn or(self, o: SBool) -> SBool {
    match (self, o) {
      (SBool::C(true), _) | (_, SBool::C(true)) => SBool::C(true),
      (SBool::C(false), x) | (x, SBool::C(false)) => x,
      (SBool::S(a), SBool::S(b)) => SBool::S(unsafe { Z3_mk_or(cx(), 2, [a, b].as_ptr()) }),
    }
  }
  pub fn implies(self, o: SBool) -> SBool {
    self.not().or(o)
  }
  pub fn iff(self, o: SBool) -> SBool {
    match (self, o) {
      (SBool::C(a), SBool::C(b)) => SBool::C(a == b),
      (SBool::C(true), x) | (x, SBool::C(true)) => x,
      (SBool::C(false), x) | (x, SBool::C(false)) => x.not(),
      (SBool::S(a), SBool::S(b)) => SBool::S(unsafe { Z3_mk_eq(cx(), a, b) }),
    }
  }
  pub fn all(it: impl IntoIterator<Item = SBool>) -> SBool {
    it.into_iter().fold(SBool::C(true), |a, b| a.and(b))
  }
  pub fn any(it: impl IntoIterator<Item = SBool>) -> SBool {
    it.into_iter().fold(SBool::C(false), |a, b| a.or(b))
  }
}
impl From<bool> for SBool {
  fn from(b: bool) -> Self {
    SBool::C(b)
  }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Ans {
  Sat,
  Unsat,
  Unknown,
}

fn query(e: &mut Engine, a: &[Ast]) -> Ans {
  let Mode::Symbolic { ctx, solver } = &e.mode else { unreachable!() };
  let t = Instant::now();
  let r = unsafe { Z3_solver_check_assumptions_or_push(*ctx, *solver, a) };
  e.stats.solver_time += t.elapsed();
  e.stats.queries += 1;
  match r {
    1 => {
      e.stats.sat += 1;
      Ans::Sat
    }
    -1 => {
      e.stats.unsat += 1;
      Ans::Unsat
    }
    _ => {
      e.stats.unknown += 1;
      Ans::Unknown
    }
  }
}
#[allow(non_snake_case)]
unsafe fn Z3_solver_check_assumptions_or_push(ctx: Context, s: Solver, a: &[Ast]) -> i32 {
  // leaves the pushed frame in place so that a model may be fetched; caller pops via `pop1`
  Z3_solver_push(ctx, s);
  for x in a {
    Z3_solver_assert(ctx, s, *x);
  }
  Z3_solver_check(ctx, s)
}
fn pop1(e: &Engine) {
  if let Mode::Symbolic { ctx, solver } = &e.mode {
    unsafe { Z3_solver_pop(*ctx, *solver, 1) }
  }
}
fn assert_pc(e: &Engine, a: Ast) {
  if let Mode::Symbolic { ctx, solver } = &e.mode {
    unsafe { Z3_solver_assert(*ctx, *solver, a) }
  }
}
fn get_model(e: &Engine) -> Assignment {
  let Mode::Symbolic { ctx, solver } = &e.mode else { unreachable!() };
  let mut out = Assignment::new();
  unsafe {
    let m = Z3_solver_get_model(*ctx, *solver);
    Z3_model_inc_ref(*ctx, m);
    for (n, (w, a)) in &e.vars {
      let mut v: Ast = std::ptr::null_mut();
      if Z3_model_eval(*ctx, m, a.unwrap(), true, &mut v) {
        let s = CStr::from_ptr(Z3_get_numeral_binary_string(*ctx, v)).to_string_lossy().into_owned();
        let mut bits: Vec<bool> = s.chars().rev().map(|c| c == '1').collect();
        bits.resize(*w as usize, false);
        out.insert(n.clone(), bits);
      }
    }
    Z3_model_dec_ref(*ctx, m);
  }
  out
}

/// Concretise a boolean: forks when both outcomes are feasible.
pub fn branch(b: SBool) -> bool {
  let a = match b {
    SBool::C(b) => return b,
    SBool::S(a) => a,
  };
  match unsafe { Z3_get_bool_value(cx(), Z3_simplify(cx(), a)) } {
    1 => return true,
    -1 => return false,
    _ => {}
  }
  let na = b.not().ast();
  with(|e| {
    e.stats.branches += 1;
    if e.pos < e.trace.len() {
      let t = e.trace[e.pos].taken;
      e.pos += 1;
      assert_pc(e, if t == 1 { a } else { na });
      return t == 1;
    }
    let f = query(e, &[na]);
    pop1(e);
    let t = query(e, &[a]);
    pop1(e);
    let (taken, rest) = match (t != Ans::Unsat, f != Ans::Unsat) {
      (true, true) => {
        e.stats.forks += 1;
        (1, vec![0])
      }
      (true, false) => (1, vec![]),
      (false, true) => (0, vec![]),
      (false, false) => panic!("inconsistent path condition"),
    };
    e.trace.push(Dec { taken, rest });
    e.pos += 1;
    assert_pc(e, if taken == 1 { a } else { na });
    taken == 1
  })
}

/// A symbolic choice among `n` alternatives (an SMT variable that is forked on).
pub fn choose(name: &str, n: u32) -> u32 {
  assert!(n > 0);
  if n == 1 {
    return 0;
  }
  let w = 32 - (n - 1).leading_zeros();
  let v = fresh_bv(name, w);
  if let Some(c) = v.as_u128() {
    let c = (c % n as u128) as u32;
    with(|e| e.last_choices.push((name.into(), c)));
    return c;
  }
  let taken = with(|e| {
    e.stats.branches += 1;
    if e.pos < e.trace.len() {
      let t = e.trace[e.pos].taken;
      e.pos += 1;
      return t;
    }
    e.stats.forks += (n - 1) as u64;
    e.trace.push(Dec { taken: 0, rest: (1 .. n).rev().collect() });
    e.pos += 1;
    0
  });
  let eq = v.eq(&SBV::konst(w, taken as u128)).ast();
  with(|e| {
    assert_pc(e, eq);
    e.last_choices.push((name.into(), taken));
  });
  taken
}

/// Restrict the current path; infeasible paths are dropped.
pub fn assume(b: SBool) {
  match b {
    SBool::C(true) => {}
    SBool::C(false) => abort_path(),
    SBool::S(a) => {
      let ok = with(|e| {
        assert_pc(e, a);
        if e.pos < e.trace.len() {
          return true;
        }
        let r = query(e, &[]);
        pop1(e);
        r != Ans::Unsat
      });
      if !ok {
        abort_path()
      }
    }
  }
}
/// Restrict the path without a feasibility query (for assumptions over fresh inputs).
pub fn assume_unchecked(b: SBool) {
  match b {
    SBool::C(true) => {}
    SBool::C(false) => abort_path(),
    SBool::S(a) => with(|e| assert_pc(e, a)),
  }
}
pub fn abort_path() -> ! {
  panic::resume_unwind(Box::new(Abort))
}

/// The deciding step: is the property true for every input on this path?
pub fn check(b: SBool, key: &str, detail: impl FnOnce() -> String) {
  let dup = with(|e| {
    e.stats.checks += 1;
    e.seen.contains_key(key)
  });
  match b {
    SBool::C(true) => with(|e| e.stats.checks_const += 1),
    SBool::C(false) => {
      if dup {
        return;
      }
      let d = detail();
      with(|e| {
        let model = match &e.mode {
          Mode::Symbolic { .. } => {
            let r = query(e, &[]);
            if r == Ans::Unsat {
              pop1(e);
              return;
            }
            let m = get_model(e);
            pop1(e);
            m
          }
          Mode::Concrete { model } => model.clone(),
        };
        e.seen.insert(key.into(), 1);
        e.violations.push(Violation { key: key.into(), detail: d, model })
      })
    }
    SBool::S(_) => {
      let na = b.not().ast();
      let found = with(|e| {
        let r = query(e, &[na]);
        let m = (r == Ans::Sat).then(|| get_model(e));
        pop1(e);
        m
      });
      if let Some(model) = found {
        if !dup {
          let d = detail();
          with(|e| {
            e.seen.insert(key.into(), 1);
            e.violations.push(Violation { key: key.into(), detail: d, model })
          });
        }
      }
    }
  }
}

/// Many checks decided by one query when they all hold; each on its own otherwise.
pub fn check_all(items: Vec<(String, SBool)>, mut detail: impl FnMut(usize) -> String) {
  let all = SBool::all(items.iter().map(|i| i.1));
  let holds = match all {
    SBool::C(b) => b,
    SBool::S(_) => {
      let na = all.not().ast();
      with(|e| {
        let r = query(e, &[na]);
        pop1(e);
        r == Ans::Unsat
      })
    }
  };
  if holds {
    with(|e| {
      e.stats.checks += items.len() as u64;
      e.stats.checks_const += items.iter().filter(|i| matches!(i.1, SBool::C(_))).count() as u64;
    });
    return;
  }
  for (i, (k, b)) in items.into_iter().enumerate() {
    check(b, &k, || detail(i));
  }
}

/// Is `b` satisfiable together with the path condition? (used by oracles and witnesses)
pub fn possible(b: SBool) -> bool {
  match b {
    SBool::C(b) => b,
    SBool::S(a) => with(|e| {
      let r = query(e, &[a]);
      pop1(e);
      r != Ans::Unsat
    }),
  }
}

pub fn current_choices() -> Vec<(String, u32)> {
  with(|e| e.last_choices.clone())
}

pub struct Outcome {
  pub stats: Stats,
  pub violations: Vec<Violation>,
  pub complete: bool,
}

/// Message of a caught panic in the code under test.
fn panic_msg(p: &(dyn std::any::Any + Send)) -> String {
  p.downcast_ref::<&str>()
    .map(|s| s.to_string())
    .or_else(|| p.downcast_ref::<String>().cloned())
    .unwrap_or_else(|| "panic".into())
}

/// Explore every feasible path of `f` (up to `max_paths`).
pub fn explore(max_paths: u64, deadline: Option<Instant>, panic_key: &str, mut f: impl FnMut()) -> Outcome {
  let (ctx, solver) = unsafe {
    let cfg = Z3_mk_config();
    let ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, None);
    let s = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    let p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, sym(ctx, "timeout"), 60_000);
    Z3_solver_set_params(ctx, s, p);
    (ctx, s)
  };
  ENG.with(|e| {
    *e.borrow_mut() = Some(Engine {
      mode: Mode::Symbolic { ctx, solver },
      trace: vec![],
      pos: 0,
      vars: BTreeMap::new(),
      funs: HashMap::new(),
      unions: HashMap::new(),
      stats: Stats::default(),
      violations: vec![],
      seen: HashMap::new(),
      last_choices: vec![],
    })
  });
  let mut complete = true;
  loop {
    with(|e| {
      e.pos = 0;
      e.vars.clear();
      e.last_choices.clear();
    });
    unsafe { Z3_solver_push(ctx, solver) };
    let r = panic::catch_unwind(AssertUnwindSafe(&mut f));
    match r {
      Ok(()) => with(|e| e.stats.paths += 1),
      Err(p) if p.is::<Abort>() => with(|e| e.stats.paths_aborted += 1),
      Err(p) => {
        let m = panic_msg(&*p);
        with(|e| e.stats.paths += 1);
        check(SBool::C(false), &format!("{panic_key}:panic"), || format!("panic: {m}"));
      }
    }
    unsafe { Z3_solver_pop(ctx, solver, 1) };
    // backtrack
    let more = with(|e| loop {
      match e.trace.last_mut() {
        None => break false,
        Some(d) => match d.rest.pop() {
          Some(t) => {
            d.taken = t;
            break true;
          }
          None => {
            e.trace.pop();
          }
        },
      }
    });
    if !more {
      break;
    }
    let n = with(|e| e.stats.paths + e.stats.paths_aborted);
    if n >= max_paths || deadline.is_some_and(|d| Instant::now() > d) {
      complete = false;
      break;
    }
  }
  let eng = ENG.with(|e| e.borrow_mut().take()).unwrap();
  unsafe {
    Z3_solver_dec_ref(ctx, solver);
    Z3_del_context(ctx);
  }
  let mut stats = eng.stats;
  if !complete {
    stats.incomplete += 1;
  }
  Outcome { stats, violations: eng.violations, complete }
}

/// Re-run `f` once with all inputs fixed: no solver, no terms.
pub fn replay(model: &Assignment, panic_key: &str, mut f: impl FnMut()) -> Vec<Violation> {
  ENG.with(|e| {
    *e.borrow_mut() = Some(Engine {
      mode: Mode::Concrete { model: model.clone() },
      trace: vec![],
      pos: 0,
      vars: BTreeMap::new(),
      funs: HashMap::new(),
      unions: HashMap::new(),
      stats: Stats::default(),
      violations: vec![],
      seen: HashMap::new(),
      last_choices: vec![],
    })
  });
  let r = panic::catch_unwind(AssertUnwindSafe(&mut f));
  if let Err(p) = r {
    if !p.is::<Abort>() {
      let m = panic_msg(&*p);
      check(SBool::C(false), &format!("{panic_key}:panic"), || format!("panic: {m}"));
    }
  }
  let eng = ENG.with(|e| e.borrow_mut().take()).unwrap();
  eng.violations
}
