//! P15: the options given to the editor's plugin are those its analysis runs with.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

use flowistry_ide::FlowistryPlugin;
use flowistry_ide::vp_hooks::focus;
use rustc_plugin::RustcPlugin;
use serde_json::{Value, json};
use symrt::{SBool, choose};

use super::{A_TRUST, Info};
use crate::real;
use crate::session::{Ctx, compile};

type Args = <FlowistryPlugin as RustcPlugin>::Args;

pub fn info() -> Info {
  let b = "each option of the plugin absent or each of its names, as given on the command line and as handed on to the driver; one program on which the 8 combinations of modes all give different slices";
  Info {
    functions: vec!["FlowistryPluginArgs (command line and JSON)", "FlowistryPlugin::run", "FlowistryCallbacks", "postprocess", "is_extension_active, as used by the analysis"],
    bounds_quick: b.into(),
    bounds_thorough: b.into(),
    assumptions: vec![A_TRUST, "the slices each mode gives are computed by the same analysis, with the mode set directly"],
  }
}

const SRC: &str = r#"fn set(a: &mut i32, b: &i32) -> i32 { let _ = b; *a = 1; 2 }
unsafe extern "Rust" { safe fn read(a: &i32, b: &i32) -> i32; }
pub fn modes(x: &mut i32, y: &mut i32, z: i32, w: i32) -> i32 {
  let mut p = z;
  let q = w;
  set(&mut p, &q);
  let s = w;
  let t = z;
  read(&s, &t);
  *x = s;
  *y + p
}
"#;

/// What is shown of an output, in an order of its own.
fn shown(v: &Value) -> BTreeSet<String> {
  let pos = |p: &Value| (p["line"].as_u64().unwrap(), p["column"].as_u64().unwrap());
  let range = |r: &Value| (pos(&r["start"]), pos(&r["end"]));
  let ranges = |v: &Value| v.as_array().unwrap().iter().map(range).collect::<BTreeSet<_>>();
  v["place_info"].as_array().unwrap().iter().map(|p| format!("{:?} {:?}", range(&p["range"]), ranges(&p["slice"]))).collect()
}

/// (ignore-mut, conservative, recurse) -> what focus shows
fn expected() -> BTreeMap<(bool, bool, bool), BTreeSet<String>> {
  let mut out = BTreeMap::new();
  compile(SRC, &[], |b| {
    let (_, id, ..) = b.list.iter().find(|(n, ..)| n == "modes").unwrap();
    for i in [false, true] {
      for c in [false, true] {
        for r in [false, true] {
          let o = real::with_mode(real::mode(i, c, r).into(), || focus(b.tcx, *id)).unwrap();
          out.insert((i, c, r), shown(&serde_json::to_value(&o).unwrap()));
        }
      }
    }
  });
  if std::env::var("VP_DEBUG").is_ok() { std::fs::write("/tmp/opts.txt", format!("{out:#?}")).unwrap(); }
  assert_eq!(out.values().collect::<BTreeSet<_>>().len(), 8, "the program does not tell the modes apart");
  out
}

pub fn run(cx: &mut Ctx) {
  let dir = tempdir();
  let file = dir.join("modes.rs");
  std::fs::write(&file, SRC).unwrap();
  let path = file.to_str().unwrap().to_string();
  let want = if cx.wants("options/cli") || cx.wants("options/json") { expected() } else { BTreeMap::new() };
  for cli in [true, false] {
    cx.unit(if cli { "options/cli" } else { "options/json" }, || {
      let names = [["DistinguishMut", "IgnoreMut"], ["Precise", "Conservative"], ["SigOnly", "Recurse"]];
      let given: Vec<usize> = ["mutability", "pointer", "context"].iter().map(|n| choose(n, 3) as usize).collect();
      let name = |k: usize| (given[k] > 0).then(|| names[k][given[k] - 1]);
      let args: Args = if cli {
        let mut a = vec!["flowistry".to_string()];
        for (k, o) in ["--mutability-mode", "--pointer-mode", "--context-mode"].iter().enumerate() {
          if let Some(n) = name(k) {
            a.extend([o.to_string(), n.to_string()]);
          }
        }
        a.extend(["focus", &path, "2", "9"].map(String::from));
        let parsed = <Args as clap::Parser>::try_parse_from(a).unwrap_or_else(|e| panic!("{e}"));
        // the command line is read by cargo-flowistry, which hands it to the driver
        serde_json::from_str(&serde_json::to_string(&parsed).unwrap()).unwrap()
      } else {
        serde_json::from_value(json!({
          "bench": null, "mutability_mode": name(0), "pointer_mode": name(1), "context_mode": name(2),
          "command": { "Focus": { "file": path, "pos_line": 2, "pos_column": 9 } }
        }))
        .unwrap()
      };
      let sysroot = std::process::Command::new("rustc").args(["--print", "sysroot"]).output().unwrap();
      let sysroot = String::from_utf8(sysroot.stdout).unwrap().trim().to_string();
      let rustc = ["rustc", &path, "--crate-type", "lib", "--edition", "2021", "--sysroot", &sysroot, "--out-dir", dir.to_str().unwrap()].map(String::from).to_vec();
      let got = captured(|| FlowistryPlugin.run(rustc, args).is_ok());
      let key = (given[0] == 2, given[1] == 2, given[2] == 2);
      let good = got.as_ref().is_some_and(|v| v.get("Ok").is_some_and(|o| shown(o) == want[&key]));
      symrt::check(SBool::C(good), &format!("P15:options:{}", if cli { "cli" } else { "json" }), || {
        let like = got.as_ref().and_then(|v| v.get("Ok")).map(shown).and_then(|s| want.iter().find(|(_, w)| **w == s)).map(|(k, _)| *k);
        format!("with {:?} {:?} {:?} the analysis should run with (ignore-mut, conservative, recurse) = {key:?}, but runs with {like:?}", name(0), name(1), name(2))
      });
    });
  }
  let _ = std::fs::remove_dir_all(&dir);
}

fn tempdir() -> std::path::PathBuf {
  let d = std::env::temp_dir().join(format!("vp-options-{}", std::process::id()));
  std::fs::create_dir_all(&d).unwrap();
  d
}

/// What `f` prints, decoded.
fn captured(f: impl FnOnce() -> bool) -> Option<Value> {
  use base64::Engine;
  let out = Arc::new(Mutex::new(vec![]));
  let before = std::io::set_output_capture(Some(out.clone()));
  let ok = f();
  std::io::set_output_capture(before);
  let bytes = out.lock().unwrap().clone();
  if !ok {
    return None;
  }
  let zipped = base64::engine::general_purpose::STANDARD.decode(bytes.trim_ascii()).ok()?;
  serde_json::from_reader(flate2::read::GzDecoder::new(&zipped[..])).ok()
}
