// callees that change what their caller may not name
mod m {
  #[derive(Clone, Copy)] pub struct I { pub x: u8, pub y: u8 }
  pub struct S { pub k: u8, inner: I }
  pub struct R<'a> { pub k: u8, r: &'a mut u8 }
  pub struct O { pub k: u8, o: Option<u8> }
  pub struct N { pub s: S, t: (u8, S) }
  pub fn new(k: u8, x: u8, y: u8) -> S { S { k, inner: I { x, y } } }
  pub fn new_r<'a>(k: u8, r: &'a mut u8) -> R<'a> { R { k, r } }
  pub fn new_o(k: u8, v: u8) -> O { O { k, o: Some(v) } }
  pub fn new_n(s: S, t: S) -> N { N { s, t: (0, t) } }
  pub fn set_x(s: &mut S, v: u8) { s.inner.x = v }
  pub fn set_y(s: &mut S, v: u8) { s.inner.y = v }
  pub fn set_k(s: &mut S, v: u8) { s.k = v }
  pub fn set_inner(s: &mut S, i: I) { s.inner = i }
  pub fn get_y(s: &S) -> u8 { s.inner.y }
  pub fn set_r(s: &mut R<'_>, v: u8) { *s.r = v }
  pub fn take_r(s: R<'_>, v: u8) { *s.r = v }
  pub fn set_o(s: &mut O, v: u8) { if let Some(o) = &mut s.o { *o = v } }
  pub fn get_o(s: &O) -> u8 { match s.o { Some(v) => v, None => 0 } }
  pub fn set_n(n: &mut N, v: u8) { n.t.1.inner.y = v; n.t.0 = n.s.k }
  pub fn get_n(n: &N) -> u8 { n.t.1.inner.y ^ n.t.0 }
  pub fn part(s: &mut S) -> &mut u8 { &mut s.inner.y }
}
fn o_set_x(a: u8, b: u8, v: u8) -> u8 { let mut s = m::new(a, b, 0); m::set_x(&mut s, v); m::get_y(&s) }
fn o_set_y(a: u8, b: u8, v: u8) -> u8 { let mut s = m::new(a, b, 0); m::set_y(&mut s, v); m::get_y(&s) }
fn o_set_k(a: u8, b: u8, v: u8) -> (u8, u8) { let mut s = m::new(a, 0, b); m::set_k(&mut s, v); (s.k, m::get_y(&s)) }
fn o_set_arg(s: &mut m::S, v: u8) -> u8 { m::set_y(s, v); s.k }
fn o_set_inner(s: &mut m::S, v: u8, w: u8) -> u8 { m::set_inner(s, m::I { x: v, y: w }); m::get_y(s) }
fn o_set_r(a: u8, v: u8) -> u8 { let mut x = a; { let mut s = m::new_r(1, &mut x); m::set_r(&mut s, v); } x }
fn o_take_r(a: u8, v: u8) -> u8 { let mut x = a; { let s = m::new_r(1, &mut x); m::take_r(s, v); } x }
fn o_set_o(k: u8, v: u8, w: u8) -> (u8, u8) { let mut s = m::new_o(k, v); m::set_o(&mut s, w); (s.k, m::get_o(&s)) }
fn o_set_n(k: u8, v: u8, w: u8) -> (u8, u8) { let mut n = m::new_n(m::new(k, 0, 0), m::new(1, v, 2)); m::set_n(&mut n, w); (n.s.k, m::get_n(&n)) }
fn o_part(a: u8, v: u8) -> u8 { let mut s = m::new(a, 1, 2); *m::part(&mut s) = v; m::get_y(&s) }
