//! P15, decided by Kani (CBMC) on /repo's source file itself.
#[path = "../../../repo/crates/flowistry/src/extensions.rs"]
pub mod extensions;

use std::fmt::Debug;
use std::str::FromStr;

use extensions::*;

/// The mode a string denotes, as documented: the variant's own name.
pub fn denotes<M: Copy>(table: &[(&[u8], M)], s: &[u8]) -> Option<M> {
  let mut i = 0;
  while i < table.len() {
    let (name, m) = table[i];
    let mut same = name.len() == s.len();
    let mut j = 0;
    while same && j < s.len() {
      same = name[j] == s[j];
      j += 1;
    }
    if same {
      return Some(m);
    }
    i += 1;
  }
  None
}

pub const MUTABILITY: &[(&[u8], MutabilityMode)] =
  &[(b"DistinguishMut", MutabilityMode::DistinguishMut), (b"IgnoreMut", MutabilityMode::IgnoreMut)];
pub const CONTEXT: &[(&[u8], ContextMode)] = &[(b"SigOnly", ContextMode::SigOnly), (b"Recurse", ContextMode::Recurse)];
pub const POINTER: &[(&[u8], PointerMode)] = &[(b"Precise", PointerMode::Precise), (b"Conservative", PointerMode::Conservative)];

/// Parsing `s` gives exactly what the table says.
pub fn parses<M: FromStr + Copy + PartialEq + Debug>(table: &[(&[u8], M)], s: &str) -> bool {
  match (M::from_str(s), denotes(table, s.as_bytes())) {
    (Ok(a), Some(b)) => a == b,
    (Err(_), None) => true,
    _ => false,
  }
}

pub fn default_is_documented() -> bool {
  let d = EvalMode::default();
  d.mutability_mode == MutabilityMode::DistinguishMut && d.context_mode == ContextMode::SigOnly && d.pointer_mode == PointerMode::Precise
}

/// Before a mode is set, while it is, while another one is set inside, and afterwards.
/// `table` is the option: the set of modes that select it.
pub fn active_iff_selected(table: u8, outer: EvalMode, inner: EvalMode) -> bool {
  let bit = |m: EvalMode| {
    (m.mutability_mode == MutabilityMode::IgnoreMut) as u8
      | ((m.context_mode == ContextMode::Recurse) as u8) << 1
      | ((m.pointer_mode == PointerMode::Conservative) as u8) << 2
  };
  let selects = |m: EvalMode| table >> bit(m) & 1 == 1;
  let mut ok = !is_extension_active(selects);
  {
    fluid_let::fluid_set!(EVAL_MODE, outer);
    ok &= is_extension_active(selects) == selects(outer);
    {
      fluid_let::fluid_set!(EVAL_MODE, inner);
      ok &= is_extension_active(selects) == selects(inner);
    }
    ok &= is_extension_active(selects) == selects(outer);
  }
  ok & !is_extension_active(selects)
}

pub fn mode(bits: u8) -> EvalMode {
  EvalMode {
    mutability_mode: if bits & 1 == 0 { MutabilityMode::DistinguishMut } else { MutabilityMode::IgnoreMut },
    context_mode: if bits & 2 == 0 { ContextMode::SigOnly } else { ContextMode::Recurse },
    pointer_mode: if bits & 4 == 0 { PointerMode::Precise } else { PointerMode::Conservative },
  }
}

/// The claims, by name, about concrete values. `bytes` is a string, or `[table, outer, inner]`.
pub fn holds(claim: &str, bytes: &[u8]) -> bool {
  let s = || std::str::from_utf8(bytes).unwrap();
  match claim {
    "mutability" => parses(MUTABILITY, s()),
    "context" => parses(CONTEXT, s()),
    "pointer" => parses(POINTER, s()),
    "default" => default_is_documented(),
    "active" => active_iff_selected(bytes[0], mode(bytes[1]), mode(bytes[2])),
    _ => panic!("no such claim"),
  }
}

#[cfg(kani)]
mod proofs {
  use super::*;

  /// Error messages are not part of the claim.
  fn no_text(_: std::fmt::Arguments<'_>) -> String {
    String::new()
  }

  #[cfg(not(thorough))]
  const N: usize = 18;
  #[cfg(thorough)]
  const N: usize = 40;

  /// Well-formed UTF-8 (RFC 3629, table 3-7 of the Unicode standard).
  fn utf8(b: &[u8]) -> bool {
    let mut need = 0u8;
    let (mut lo, mut hi) = (0x80u8, 0xBFu8);
    let mut i = 0;
    while i < b.len() {
      let x = b[i];
      if need > 0 {
        if x < lo || x > hi {
          return false;
        }
        (lo, hi) = (0x80, 0xBF);
        need -= 1;
      } else if x >= 0x80 {
        (need, lo, hi) = match x {
          0xC2 ..= 0xDF => (1, 0x80, 0xBF),
          0xE0 => (2, 0xA0, 0xBF),
          0xED => (2, 0x80, 0x9F),
          0xE1 ..= 0xEF => (2, 0x80, 0xBF),
          0xF0 => (3, 0x90, 0xBF),
          0xF1 ..= 0xF3 => (3, 0x80, 0xBF),
          0xF4 => (3, 0x80, 0x8F),
          _ => return false,
        };
      }
      i += 1;
    }
    need == 0
  }

  fn string(buf: &[u8; N]) -> &str {
    let len: usize = kani::any();
    kani::assume(len <= N);
    kani::assume(utf8(&buf[.. len]));
    unsafe { std::str::from_utf8_unchecked(&buf[.. len]) }
  }

  macro_rules! parsing {
    ($name:ident, $table:ident) => {
      #[kani::proof]
      #[kani::solver(cadical)]
      #[kani::stub(alloc::fmt::format, no_text)]
      fn $name() {
        let buf: [u8; N] = kani::any();
        let s = string(&buf);
        let ok = parses($table, s);
        kani::cover!(denotes($table, s.as_bytes()).is_some(), "some name is accepted");
        kani::cover!(denotes($table, s.as_bytes()).is_none() && s.len() == N, "some longest string is rejected");
        assert!(ok, "claim");
      }
    };
  }
  parsing!(mutability, MUTABILITY);
  parsing!(context, CONTEXT);
  parsing!(pointer, POINTER);

  /// A name with one character in front, behind, or instead of its first (one claim each): feasible even for code that goes
  /// through the string by `char`, which arbitrary strings are not.
  fn near<const K: usize, const K1: usize, M: FromStr + Copy + PartialEq + Debug>(how: u8, table: &[(&[u8], M)], name: &[u8; K]) {
    let x: u8 = kani::any();
    kani::assume(x < 0x80);
    if how == 0 {
      let mut b = [x; K1];
      b[.. K].copy_from_slice(name);
      check(table, &b);
    } else if how == 1 {
      let mut b = [x; K1];
      b[1 ..].copy_from_slice(name);
      check(table, &b);
    } else {
      let mut b = *name;
      b[0] = x;
      check(table, &b);
    }
  }
  fn check<M: FromStr + Copy + PartialEq + Debug>(table: &[(&[u8], M)], b: &[u8]) {
    let s = unsafe { std::str::from_utf8_unchecked(b) };
    let ok = parses(table, s);
    kani::cover!(denotes(table, b).is_none(), "a near miss");
    assert!(ok, "claim");
  }

  /// What the library does on ASCII strings, which are all that `near` has.
  fn lower(s: &str) -> String {
    let mut v = s.as_bytes().to_vec();
    v.iter_mut().for_each(|b| *b = b.to_ascii_lowercase());
    unsafe { String::from_utf8_unchecked(v) }
  }
  fn upper(s: &str) -> String {
    let mut v = s.as_bytes().to_vec();
    v.iter_mut().for_each(|b| *b = b.to_ascii_uppercase());
    unsafe { String::from_utf8_unchecked(v) }
  }

  macro_rules! nearly {
    ($name:ident, $how:literal, $table:ident, $n:literal, $of:literal) => {
      #[kani::proof]
      #[kani::solver(cadical)]
      #[kani::stub(alloc::fmt::format, no_text)]
      #[kani::stub(str::to_lowercase, lower)]
      #[kani::stub(str::to_uppercase, upper)]
      fn $name() {
        near::<$n, { $n + 1 }, _>($how, $table, $of);
      }
    };
  }
  nearly!(near0_mutability, 0, MUTABILITY, 9, b"IgnoreMut");
  nearly!(near1_mutability, 1, MUTABILITY, 9, b"IgnoreMut");
  nearly!(near2_mutability, 2, MUTABILITY, 9, b"IgnoreMut");
  nearly!(near0_context, 0, CONTEXT, 7, b"SigOnly");
  nearly!(near1_context, 1, CONTEXT, 7, b"SigOnly");
  nearly!(near2_context, 2, CONTEXT, 7, b"SigOnly");
  nearly!(near0_pointer, 0, POINTER, 7, b"Precise");
  nearly!(near1_pointer, 1, POINTER, 7, b"Precise");
  nearly!(near2_pointer, 2, POINTER, 7, b"Precise");

  #[kani::proof]
  fn default() {
    let ok = default_is_documented();
    kani::cover!(true, "reached");
    assert!(ok, "claim");
  }

  #[kani::proof]
  fn active() {
    let (table, outer, inner): (u8, u8, u8) = (kani::any(), kani::any(), kani::any());
    kani::assume(outer < 8 && inner < 8);
    let ok = active_iff_selected(table, mode(outer), mode(inner));
    kani::cover!(table == 0x80 && outer == 7 && inner == 0, "reached");
    assert!(ok, "claim");
  }
}
