//! Prints, for every named variable of every function, the lines its value at the returns depends on.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_errors;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::BTreeSet;

use flowistry::extensions::{ContextMode, EVAL_MODE, EvalMode, MutabilityMode, PointerMode};
use flowistry::infoflow::compute_flow;
use rustc_middle::mir::{Place, TerminatorKind, VarDebugInfoContents};
use rustc_middle::ty::TyCtxt;
use rustc_utils::BodyExt;
use rustc_utils::mir::{borrowck_facts, location_or_arg::LocationOrArg};

struct Cb;
impl rustc_driver::Callbacks for Cb {
  fn config(&mut self, config: &mut rustc_interface::Config) {
    borrowck_facts::enable_mir_simplification();
    config.override_queries = Some(borrowck_facts::override_queries);
  }
  fn after_analysis(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'_>) -> rustc_driver::Compilation {
    let mode = EvalMode {
      mutability_mode: if std::env::var_os("IGNORE_MUT").is_some() { MutabilityMode::IgnoreMut } else { MutabilityMode::DistinguishMut },
      context_mode: if std::env::var_os("RECURSE").is_some() { ContextMode::Recurse } else { ContextMode::SigOnly },
      pointer_mode: if std::env::var_os("CONSERVATIVE").is_some() { PointerMode::Conservative } else { PointerMode::Precise },
    };
    fluid_let::fluid_set!(EVAL_MODE, mode);
    let lines = std::env::var_os("MIR").is_none();
    for id in tcx.hir_body_owners() {
      if !tcx.def_kind(id).is_fn_like() {
        continue;
      }
      let name = tcx.def_path_str(id);
      let bwf = borrowck_facts::get_body_with_borrowck_facts(tcx, id);
      let body = &bwf.body;
      if !lines {
        println!("{}", body.to_string(tcx).unwrap());
      }
      let body_id = tcx.hir_body_owned_by(id).id();
      let r = compute_flow(tcx, body_id, bwf);
      let mut vars: Vec<(String, Place)> = vec![];
      vars.push(("return".into(), Place::return_place()));
      for v in &body.var_debug_info {
        if let VarDebugInfoContents::Place(p) = v.value {
          vars.push((v.name.to_string(), p));
        }
      }
      let arg = |l| {
        body.var_debug_info.iter().find_map(|v| match v.value {
          VarDebugInfoContents::Place(p) if p.as_local() == Some(l) => Some(v.name.to_string()),
          _ => None,
        }).unwrap_or(format!("{l:?}"))
      };
      if std::env::var_os("FORWARD").is_some() {
        for (var, place) in &vars {
          let Some(local) = place.as_local() else { continue };
          // from where the variable is first assigned
          let mut at = None;
          if body.args_iter().any(|a| a == local) {
            at = Some(LocationOrArg::Arg(local));
          } else {
            for l in body.all_locations() {
              use rustc_middle::mir::StatementKind::Assign;
              let data = &body.basic_blocks[l.block];
              let hit = match data.statements.get(l.statement_index) {
                Some(st) => matches!(&st.kind, Assign(b) if b.0 == *place),
                None => matches!(&data.terminator().kind, TerminatorKind::Call { destination, .. } if destination == place),
              };
              if hit {
                at = Some(LocationOrArg::Location(l));
                break;
              }
            }
          }
          let Some(at) = at else { continue };
          let ds = flowistry::infoflow::compute_dependencies(&r, vec![vec![(*place, at)]], flowistry::infoflow::Direction::Forward).remove(0);
          let (mut ls, mut rest) = (BTreeSet::new(), BTreeSet::new());
          for d in ds.iter() {
            match d {
              LocationOrArg::Arg(l) => { rest.insert(arg(*l)); }
              LocationOrArg::Location(l) => {
                ls.insert(tcx.sess.source_map().lookup_char_pos(body.source_info(*l).span.lo()).line);
              }
            }
          }
          let all: Vec<String> = ls.into_iter().map(|l| l.to_string()).chain(rest).collect();
          println!("{name}.{var}>: {} .", all.join(" "));
        }
      }
      for (var, place) in vars {
        let (mut ls, mut rest) = (BTreeSet::new(), BTreeSet::new());
        for (bb, data) in body.basic_blocks.iter_enumerated() {
          if !matches!(data.terminator().kind, TerminatorKind::Return) {
            continue;
          }
          let at = body.terminator_loc(bb);
          for d in r.analysis.deps_for(r.state_at(at), place).iter() {
            match d {
              LocationOrArg::Arg(l) => { rest.insert(arg(*l)); }
              LocationOrArg::Location(l) => {
                let span = body.source_info(*l).span;
                ls.insert(tcx.sess.source_map().lookup_char_pos(span.lo()).line);
                if !lines { rest.insert(format!("{l:?}")); }
              }
            }
          }
        }
        let all: Vec<String> = ls.into_iter().map(|l| l.to_string()).chain(rest).collect();
        println!("{name}.{var}: {} .", all.join(" "));
      }
    }
    rustc_driver::Compilation::Stop
  }
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  rustc_driver::run_compiler(&args, &mut Cb);
}
