// Programs on which the analysis is known to be wrong (known_findings.txt).
pub struct D<'a>(&'a mut u8, u8);
impl Drop for D<'_> { fn drop(&mut self) { *self.0 = self.1 } }
fn drop_effect(a: u8, v: u8) -> u8 { let mut x = a; { let _d = D(&mut x, v); } x }
fn deep_struct(x: &mut (u8, &mut (u8, &mut u8)), v: u8) -> u8 { *(x.1).1 = v; (x.1).0 = 2; *(x.1).1 }
mod m {
  pub struct S { p: u8, pub q: u8 }
  pub fn consume(s: S) -> u8 { s.q ^ s.p }
}
fn private_consume(s: m::S, v: u8) -> u8 { let mut s = s; s.q = v; m::consume(s) }
