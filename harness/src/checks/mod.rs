//! The per-property checks.
use crate::session::Ctx;

pub mod cfg;
pub mod focus;
pub mod ifc;
pub mod loans;
pub mod ni;
pub mod opts;
pub mod query;
pub mod rec;
pub mod step;

pub struct Info {
  pub functions: Vec<&'static str>,
  pub bounds_quick: String,
  pub bounds_thorough: String,
  pub assumptions: Vec<&'static str>,
}

pub const A_SYM: &str = "dependency sets are symbolic bit-vectors: the vendored indexical implements its BitSet trait with SMT terms, everything else (flowistry, rustc_utils, rustc) runs unmodified";
pub const A_TRUST: &str = "trusted: rustc, rustc_utils (place normalisation, interior places, control-dependence graph construction), Z3";
pub const A_CORPUS: &str = "program structure is bounded by the MIR bodies of harness/corpus; dependency states over them are arbitrary";

pub fn info(pid: &str) -> Option<Info> {
  Some(match pid {
    "P02" | "P03" | "P07" | "P08" | "P09" | "P16" => step::info(pid),
    "P04" | "P05" => cfg::info(pid),
    "P06" => loans::info(),
    "P01" | "P11" => ni::info(pid),
    "P10" | "P12" => query::info(pid),
    "P13" => ifc::info(),
    "P14" => focus::info(),
    "P15" => opts::info(),
    _ => return None,
  })
}

pub fn run(cx: &mut Ctx) {
  match cx.pid.clone().as_str() {
    "P02" | "P03" | "P07" | "P08" | "P09" | "P16" => step::run(cx),
    "P04" | "P05" => cfg::run(cx),
    "P06" => loans::run(cx),
    "P01" => ni::run(cx),
    "P11" => {
      ni::run(cx);
      rec::run(cx)
    }
    "P10" | "P12" => query::run(cx),
    "P13" => ifc::run(cx),
    "P14" => focus::run(cx),
    "P15" => opts::run(cx),
    p => panic!("unknown property {p}"),
  }
}

/// Print the MIR and backward dependencies of every function of a file.
pub fn dump(file: &str) {
  use rustc_utils::{BodyExt, PlaceExt};
  let src = std::fs::read_to_string(file).unwrap();
  crate::session::compile(&src, &[], |b| {
    for (name, id, _, bwf) in &b.list {
      println!("== {name}\n{}", bwf.body.to_string(b.tcx).unwrap());
      let mode = std::env::var_os("VP_RECURSE").map(|_| crate::real::mode(false, false, true));
      let r = crate::real::with_mode(mode, || flowistry::infoflow::compute_flow(b.tcx, *id, bwf));
      for loc in bwf.body.all_returns() {
        for l in bwf.body.local_decls.indices() {
          let p = rustc_middle::mir::Place::from_local(l, b.tcx);
          println!("  {loc:?} {p:?}: {:?}", r.analysis.deps_for(r.state_at(loc), p));
        }
      }
    }
  });
}
