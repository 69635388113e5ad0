pub struct D<'a>(&'a mut u8, u8);
impl Drop for D<'_> { fn drop(&mut self) { *self.0 = self.1 } }
fn drop_explicit(a: u8, v: u8) -> u8 { let mut x = a; { let d = D(&mut x, v); drop(d) } x }
fn drop_cond(a: u8, v: u8, c: bool) -> u8 { let mut x = a; { let d = D(&mut x, v); if c { std::mem::forget(d) } } x }
fn deep3(x: &mut &mut &mut u8, v: u8) -> u8 { ***x = v; ***x }
fn deep3_read(x: &&&u8, c: bool) -> u8 { if c { ***x } else { 0 } }
fn deep4_read(x: &&&&u8, c: bool) -> u8 { let y = ***x; if c { *y } else { 0 } }
fn deep_tuple(x: &(&(&u8, u8), u8)) -> u8 { *(x.0).0 ^ (x.0).1 }
mod m {
  #[derive(Clone, Copy)] pub struct S { pub q: u8, p: u8 }
  impl S { pub fn new(p: u8, q: u8) -> S { S { p, q } } pub fn p(&self) -> u8 { self.p } }
  pub struct T { pub q: (u8, u8), p: u8 }
  impl T { pub fn get(self) -> u8 { self.p ^ self.q.1 } }
  pub fn consume(s: S) -> u8 { s.q ^ s.p }
}
fn private_field(s: m::S, v: u8) -> u8 { let mut s = s; s.q = v; s.q }
fn private_consume(s: m::S, v: u8) -> u8 { let mut s = s; s.q = v; m::consume(s) }
fn private_copy(s: m::S, v: u8) -> m::S { let mut s = s; s.q = v; let t = s; t }
fn private_method(a: u8, b: u8) -> u8 { let s = m::S::new(a, b); s.p() }
fn private_t(t: m::T, v: u8) -> u8 { let mut t = t; t.q.1 = v; t.get() }
fn private_ref(s: &mut m::S, v: u8) -> u8 { s.q = v; s.p() }
