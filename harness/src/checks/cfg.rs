//! P04 (work-list engine) and P05 (control dependence) over every control-flow graph of bounded size.
use std::mem::ManuallyDrop;
use std::rc::Rc;

use flowistry::mir::engine::iterate_to_fixpoint;
use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_index::IndexVec;
use rustc_middle::mir::*;
use rustc_middle::ty::TyCtxt;
use rustc_mir_dataflow::{Analysis, JoinSemiLattice};
use rustc_span::DUMMY_SP;
use rustc_utils::BodyExt;
use rustc_utils::mir::location_or_arg::{LocationOrArg, index::LocationOrArgDomain};
use symrt::{SBV, SBool};

use super::{A_CORPUS, A_SYM, A_TRUST, Info, step};
use crate::real;
use crate::session::{Bodies, Ctx, compile, corpus};
use crate::spec::{Spec, SpecMode};

pub fn info(pid: &str) -> Info {
  match pid {
    "P04" => Info {
      functions: vec!["mir::engine::iterate_to_fixpoint", "AnalysisResults::state_at"],
      bounds_quick: "all control-flow graphs of 4 blocks (goto / 2-way switch / return) with symbolic gen, kill and entry sets of 2 bits; all graphs of 3 blocks with 2 instructions per block and 2 bits; graphs of 2 and 3 blocks whose instructions may also copy one bit to another (2 or 3 bits); six larger families (chain, loop, diamonds, nested loops, loop with exits, backwards chain) of 6, 7 and 8 blocks with 1 bit".into(),
      bounds_thorough: "all control-flow graphs of 5 blocks with 1 bit, 4 blocks with 2 bits, 3 blocks with 2 instructions per block and 2 bits, 2 blocks with 4 instructions and 3 bits; with copies: 4 blocks of 1 instruction, 3 of 2, 2 of 3 with 3 bits; the six larger families of 6 blocks with 2 bits and of 8 and 10 with 1".into(),
      assumptions: vec!["gen/kill domain; the engine's decision to revisit is the symbolic comparison of states, forked on", A_TRUST],
    },
    _ => Info {
      functions: vec!["FlowAnalysis::transfer_function (control dependences)", "FlowAnalysis::new"],
      bounds_quick: "all control-flow graphs of 4 blocks and all of 5 blocks with at least two switches (goto / 2-way switch / return), from a symbolic state of the branch conditions; every instruction of the control-flow corpus".into(),
      bounds_thorough: "all control-flow graphs of up to 6 blocks (strided above 5); every instruction of the whole corpus".into(),
      assumptions: vec![A_SYM, A_TRUST, A_CORPUS],
    },
  }
}

const TEMPLATE: &str = "pub fn f(c0: bool, c1: bool, c2: bool, c3: bool, c4: bool, c5: bool) -> i32 { 0 }";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Term {
  Goto(usize),
  Switch(usize, usize),
  Return,
}

/// Terminators of a block when there are `n` blocks (the start block is never a target).
pub fn terms(n: usize) -> Vec<Term> {
  let mut v = vec![Term::Return];
  v.extend((1 .. n).map(Term::Goto));
  for a in 1 .. n {
    for b in a + 1 .. n {
      v.push(Term::Switch(a, b));
    }
  }
  v
}

pub fn decode(mut code: usize, n: usize) -> Vec<Term> {
  let ts = terms(n);
  (0 .. n)
    .map(|_| {
      let t = ts[code % ts.len()];
      code /= ts.len();
      t
    })
    .collect()
}

/// Is every block but possibly none reachable, and numbered in order of discovery? (one graph per shape)
pub fn canonical(g: &[Term]) -> bool {
  let mut order = vec![0];
  let mut i = 0;
  while i < order.len() {
    let succ = match g[order[i]] {
      Term::Goto(t) => vec![t],
      Term::Switch(a, b) => vec![a, b],
      Term::Return => vec![],
    };
    for s in succ {
      if !order.contains(&s) {
        order.push(s);
      }
    }
    i += 1;
  }
  // unreachable blocks are allowed only at the end, and at most one
  order.iter().enumerate().all(|(i, b)| i == *b) && order.len() + 1 >= g.len()
}

pub fn build<'tcx>(tcx: TyCtxt<'tcx>, base: &Body<'tcx>, g: &[Term], stmts: usize) -> Body<'tcx> {
  let mut body = base.clone();
  let si = SourceInfo::outermost(DUMMY_SP);
  let mut blocks: IndexVec<BasicBlock, BasicBlockData<'tcx>> = IndexVec::new();
  let mut locals = body.local_decls.clone();
  for (i, t) in g.iter().enumerate() {
    let mut ss = vec![];
    for _ in 0 .. stmts {
      let x = locals.push(LocalDecl::new(tcx.types.i32, DUMMY_SP));
      let c = Operand::Constant(Box::new(ConstOperand { span: DUMMY_SP, user_ty: None, const_: Const::zero_sized(tcx.types.unit) }));
      ss.push(Statement::new(si, StatementKind::Assign(Box::new((Place::from(x), Rvalue::Use(c))))));
    }
    let bb = BasicBlock::from_usize;
    let kind = match *t {
      Term::Goto(t) => TerminatorKind::Goto { target: bb(t) },
      Term::Switch(a, b) => TerminatorKind::SwitchInt {
        discr: Operand::Copy(Place::from(Local::from_usize(1 + i))),
        targets: SwitchTargets::static_if(0, bb(a), bb(b)),
      },
      Term::Return => TerminatorKind::Return,
    };
    blocks.push(BasicBlockData::new_stmts(ss, Some(Terminator { source_info: si, kind }), false));
  }
  body.local_decls = locals;
  body.basic_blocks = BasicBlocks::new(blocks);
  body
}

/// The borrow-check facts of one body attached to another.
pub fn rebody<'tcx>(bwf: &BodyWithBorrowckFacts<'tcx>, body: Body<'tcx>) -> ManuallyDrop<BodyWithBorrowckFacts<'tcx>> {
  unsafe {
    let mut b = ManuallyDrop::new(std::ptr::read(bwf));
    std::ptr::write(&mut b.body, body);
    b
  }
}

pub fn run(cx: &mut Ctx) {
  if cx.wants_file("cfg") {
    compile(TEMPLATE, &[], |b| {
      if cx.pid == "P04" {
        engine(cx, &b)
      } else {
        control(cx, &b)
      }
    });
  }
  if cx.pid == "P05" {
    for (file, src) in corpus("step") {
      if (cx.thorough() || matches!(file.as_str(), "control" | "closures" | "calls")) && cx.wants_file(&file) {
        compile(&src, &[], |b| step::session(cx, &file, &b));
      }
    }
  }
}

fn graphs(n: usize, keep: impl Fn(&[Term]) -> bool) -> Vec<(usize, Vec<Term>)> {
  let total = terms(n).len().pow(n as u32);
  (0 .. total).map(|c| (c, decode(c, n))).filter(|(_, g)| canonical(g) && keep(g)).collect()
}

/// Some larger graphs of `n` blocks: a chain, a loop, diamonds in a row, nested loops, a loop with a way out of each block.
fn families(n: usize) -> Vec<(usize, Vec<Term>)> {
  use Term::*;
  let last = n - 1;
  let graph = |f: &dyn Fn(usize) -> Term| -> Vec<Term> { (0 .. n).map(f).collect() };
  let all = vec![
    graph(&|i| if i == last { Return } else { Goto(i + 1) }),
    graph(&|i| if i == last { Return } else if i == last - 1 { Switch(1, last) } else { Goto(i + 1) }),
    graph(&|i| if i == last { Return } else if i % 3 == 0 && i + 3 <= last { Switch(i + 1, i + 2) } else { Goto((i / 3 * 3 + 3).min(last).max(i + 1)) }),
    graph(&|i| if i == last { Return } else if i > n / 2 { Switch(i + 1 - n / 2, i + 1) } else { Goto(i + 1) }),
    graph(&|i| if i == last { Return } else if i == last - 1 { Goto(1) } else { Switch(i + 1, last) }),
    graph(&|i| if i == last { Return } else if i == 0 { Goto(last - 1) } else if i == 1 { Goto(last) } else { Switch(i - 1, last) }),
  ];
  all.into_iter().enumerate().collect()
}

fn switches(g: &[Term]) -> usize {
  g.iter().filter(|t| matches!(t, Term::Switch(..))).count()
}

fn control(cx: &mut Ctx, b: &Bodies<'_>) {
  let tcx = b.tcx;
  let (_, _, def, bwf) = &b.list[0];
  let mut sets = vec![(4, graphs(4, |_| true))];
  sets.push((5, graphs(5, |g| switches(g) >= 2)));
  if cx.thorough() {
    sets.push((6, graphs(6, |g| switches(g) >= 3)));
  }
  for (n, gs) in sets {
    cx.note(&format!("graphs of {n} blocks"), if cx.shard == 0 { gs.len() as u64 } else { 0 });
    // groups of graphs; the graph within a group is a symbolic choice
    let group = 64;
    for (gi, chunk) in gs.chunks(group).enumerate() {
      let u = format!("cfg/{n}/{gi}");
      if !cx.wants(&u) {
        continue;
      }
      cx.unit(&u, || {
        let k = symrt::choose("graph", chunk.len() as u32) as usize;
        let (code, g) = &chunk[k];
        let rb = rebody(bwf, build(tcx, &bwf.body, g, 1));
        let rb: &BodyWithBorrowckFacts<'_> = unsafe { &*(&*rb as *const _) };
        let mut fa = real::analysis(tcx, *def, rb);
        let spec = Spec::new(tcx, *def, rb, SpecMode::default());
        let places: Vec<_> = rb.body.args_iter().take(n).map(Place::from).collect();
        let pre = real::symbolic_state(&spec, &places);
        for i in 0 .. n {
          let loc = Location { block: BasicBlock::from_usize(i), statement_index: 0 };
          let mut d = real::to_domain(&fa, &pre);
          real::apply(&mut fa, &rb.body, &mut d, loc);
          let muts = spec.mutations_at(loc);
          step::step_check(&spec, "P05", &format!("cfg{n}-{code}:{loc:?}"), &pre, &muts, loc, &d);
        }
        unsafe {
          // the edited body (and only it) is ours to free
          drop(fa);
          let p = rb as *const _ as *mut BodyWithBorrowckFacts<'_>;
          std::ptr::drop_in_place(&mut (*p).body);
        }
      });
    }
  }
}

#[derive(Clone)]
struct D(SBV);
impl JoinSemiLattice for D {
  fn join(&mut self, o: &D) -> bool {
    let n = self.0.or(&o.0);
    let c = n.eq(&self.0).not();
    self.0 = n;
    symrt::branch(c)
  }
}
impl PartialEq for D {
  fn eq(&self, o: &D) -> bool {
    symrt::branch(self.0.eq(&o.0))
  }
}
impl Eq for D {}
struct GenKill {
  locs: Vec<Location>,
  gens: Vec<SBV>,
  kill: Vec<SBV>,
  /// For each instruction, the pair of bits it copies (numbered; 0 is none).
  copy: Vec<SBV>,
  entry: SBV,
  w: u32,
  visits: usize,
  name: String,
}
impl GenKill {
  fn f(&self, s: &SBV, l: Location) -> SBV {
    let i = self.locs.iter().position(|x| *x == l).unwrap();
    let mut kill = self.kill[i].clone();
    let mut add = SBV::zero(self.w);
    let mut gens = self.gens[i].clone();
    for (k, (from, to)) in copies(self.w).into_iter().enumerate() {
      let on = self.copy[i].eq(&SBV::konst(4, k as u128 + 1));
      let one = |b: usize| SBV::single(self.w, b);
      // an instruction does not set or forget what it copies (its effect would not be stable)
      gens = SBV::ite(on, &gens.and(&one(from).not()), &gens);
      kill = SBV::ite(on, &kill.and(&one(from).not()), &kill);
      add = SBV::ite(on.and(s.bit(from as u32)), &add.or(&one(to)), &add);
    }
    s.and(&kill.not()).or(&add).or(&gens)
  }
}
/// The pairs of distinct bits.
fn copies(w: u32) -> Vec<(usize, usize)> {
  let w = w as usize;
  (0 .. w).flat_map(|a| (0 .. w).filter(move |b| a != *b).map(move |b| (a, b))).collect()
}
impl GenKill {
  fn drains(&self) {
    if self.visits > 40 * self.locs.len() {
      let name = &self.name;
      symrt::check(SBool::C(false), &format!("P04:{name}:no-drain"), || "the work list does not drain".into());
      symrt::abort_path();
    }
  }
}
impl<'tcx> Analysis<'tcx> for GenKill {
  type Domain = D;
  const NAME: &'static str = "gen-kill";
  fn bottom_value(&self, _: &Body<'tcx>) -> D {
    D(SBV::zero(self.w))
  }
  fn initialize_start_block(&self, _: &Body<'tcx>, s: &mut D) {
    s.0 = s.0.or(&self.entry);
  }
  fn apply_primary_statement_effect(&mut self, s: &mut D, _: &Statement<'tcx>, l: Location) {
    self.visits += 1;
    self.drains();
    s.0 = self.f(&s.0, l);
  }
  fn apply_primary_terminator_effect<'mir>(&mut self, s: &mut D, t: &'mir Terminator<'tcx>, l: Location) -> TerminatorEdges<'mir, 'tcx> {
    self.visits += 1;
    self.drains();
    s.0 = self.f(&s.0, l);
    t.edges()
  }
}

fn engine(cx: &mut Ctx, b: &Bodies<'_>) {
  let tcx = b.tcx;
  let bwf = b.list[0].3;
  // (blocks, statements per block, bits); more than 10 bits: that many plus 10, and instructions may copy
  let shapes: Vec<(usize, usize, u32)> =
    cx.pick(vec![(3, 1, 2), (3, 2, 1), (4, 1, 1), (2, 3, 2), (0, 0, 2), (2, 2, 12), (3, 1, 12), (2, 2, 13), (3, 2, 2), (4, 1, 2), (6, 1, 1), (7, 1, 1), (8, 1, 1)], vec![(6, 1, 2), (8, 1, 1), (10, 1, 1), (3, 2, 2), (4, 1, 2), (2, 4, 3), (0, 0, 2), (5, 1, 1), (2, 3, 13), (3, 2, 12), (4, 1, 12)]);
  for (n, stmts, w) in shapes {
    // n == 0: the jumps themselves have effects (loops must contain an instruction without)
    let jumps = n == 0;
    let (copying, w) = (w > 10, if w > 10 { w - 10 } else { w });
    let n = if jumps { 3 } else { n };
    let gs = if n > 5 { families(n) } else { graphs(n, |g| !jumps || !g[2 ..].iter().any(|t| matches!(t, Term::Goto(1) | Term::Switch(1, _))) || *g == [Term::Goto(1), Term::Goto(2), Term::Goto(1)]) };
    cx.note(&format!("graphs of {n} blocks, {stmts} statements, {w} bits{}", if copying { ", copying" } else { "" }), if cx.shard == 0 { gs.len() as u64 } else { 0 });
    for (code, g) in gs {
      let u = format!("cfg/{n}x{stmts}w{w}{}/{code}", if jumps { "jumps" } else if copying { "copies" } else { "" });
      if !cx.wants(&u) {
        continue;
      }
      let body = build(tcx, &bwf.body, &g, stmts);
      let locs: Vec<Location> = body.all_locations().collect();
      let domain = Rc::new(LocationOrArgDomain::from_iter(
        locs.iter().map(|l| LocationOrArg::Location(*l)).chain(body.args_iter().map(LocationOrArg::Arg)),
      ));
      let succ = |l: Location| -> Vec<Location> {
        let data = &body.basic_blocks[l.block];
        if l.statement_index < data.statements.len() {
          vec![l.successor_within_block()]
        } else {
          data.terminator().successors().map(|b| b.start_location()).collect()
        }
      };
      let reachable = {
        let mut r = vec![Location::START];
        let mut i = 0;
        while i < r.len() {
          for s in succ(r[i]) {
            if !r.contains(&s) {
              r.push(s);
            }
          }
          i += 1;
        }
        r
      };
      cx.unit_n(&u, 5_000, || {
        let bit = |s: &str, i: usize| symrt::fresh_bv(&format!("{s}{i}"), w);
        let effect = |s: &str, i: usize| {
          let l = locs[i];
          let jump = l.statement_index == body.basic_blocks[l.block].statements.len();
          if jump && !jumps { SBV::zero(w) } else { bit(s, i) }
        };
        let a = GenKill {
          locs: locs.clone(),
          gens: (0 .. locs.len()).map(|i| effect("gen", i)).collect(),
          kill: (0 .. locs.len()).map(|i| effect("kill", i)).collect(),
          copy: (0 .. locs.len())
            .map(|i| {
              let l = locs[i];
              let jump = l.statement_index == body.basic_blocks[l.block].statements.len();
              if copying && !jump { symrt::fresh_bv(&format!("copy{i}"), 4) } else { SBV::zero(4) }
            })
            .collect(),
          entry: bit("entry", 0),
          w,
          visits: 0,
          name: format!("cfg{n}x{stmts}-{code}"),
        };
        let r = iterate_to_fixpoint(tcx, &body, domain.clone(), a);
        let a = &r.analysis;
        // least solution, by iteration from bottom (exact after |locations| rounds per bit)
        let mut before = vec![SBV::zero(w); locs.len()];
        before[0] = a.entry.clone();
        for _ in 0 ..= locs.len() * if copying { w as usize } else { 1 } {
          let mut next = vec![SBV::zero(w); locs.len()];
          next[0] = a.entry.clone();
          for l in &reachable {
            let i = locs.iter().position(|x| x == l).unwrap();
            let out = a.f(&before[i], *l);
            for s in succ(*l) {
              let j = locs.iter().position(|x| *x == s).unwrap();
              next[j] = next[j].or(&out);
            }
          }
          before = next;
        }
        let items = locs
          .iter()
          .enumerate()
          .map(|(i, l)| {
            let want = if reachable.contains(l) { a.f(&before[i], *l) } else { SBV::zero(w) };
            (format!("P04:cfg{n}x{stmts}-{code}:{l:?}"), r.state_at(*l).0.eq(&want))
          })
          .collect::<Vec<(String, SBool)>>();
        symrt::check_all(items, |i| format!("state at {:?} of {g:?} is not the least solution", locs[i]));
      });
    }
  }
}
