// structured data: tuples, structs, enums, boxes
#[derive(Clone, Copy)]
pub struct P { pub x: i32, pub y: i32 }
pub struct Q { pub p: P, pub b: bool, pub t: (i32, (u8, bool)) }
pub struct G<T> { pub v: T, pub n: usize }
pub enum E { A(i32), B { x: i32, y: bool }, C }
pub struct W(pub i32);

pub fn tuples(a: i32, b: i32) -> (i32, (i32, i32)) {
  let mut t = (a, (b, 0));
  let u = t.1;
  t.1.0 = u.1;
  t.0 = t.0 + u.0;
  let v = t;
  t = (1, (v.0, 2));
  t.1 = (b, b);
  t
}
pub fn structs(p: P, c: i32) -> Q {
  let mut q = Q { p, b: c > 0, t: (c, (1, true)) };
  q.p.x = c;
  let r = q.p;
  q.p = P { x: r.y, y: r.x };
  q.t.1.1 = q.b;
  q.p.y = q.t.0;
  q
}
pub fn generic<T: Copy>(g: G<T>, v: T) -> G<(T, T)> {
  let mut h = G { v: (g.v, v), n: g.n };
  h.v.0 = v;
  h.n = g.n + 1;
  let w = G { n: 0, ..h };
  h = G { v: (w.v.1, w.v.0), n: w.n };
  h
}
pub fn enums(e: E, k: i32) -> i32 {
  let f = match e {
    E::A(n) => E::B { x: n + k, y: true },
    E::B { x, y } => if y { E::A(x) } else { E::C },
    E::C => E::C,
  };
  if let E::B { x, .. } = f { x } else { k }
}
pub fn option_mut(o: Option<(i32, i32)>, k: i32) -> Option<(i32, i32)> {
  let mut o = o;
  if let Some((a, b)) = &mut o {
    *a = k;
    *b += *a;
  }
  o
}
pub fn boxes(b: Box<(i32, Box<i32>)>, k: i32) -> i32 {
  let mut c = b;
  c.0 = k;
  *c.1 = c.0 + 1;
  let d = *c.1;
  let e = Box::new(d);
  *e + c.0
}
pub fn newtype(w: W) -> W {
  let W(n) = w;
  let mut v = W(n + 1);
  v.0 *= 2;
  v
}
pub fn unions_ok(a: u32) -> f32 {
  #[derive(Clone, Copy)]
  union U { i: u32, f: f32 }
  let u = U { i: a };
  unsafe { u.f }
}
mod private {
  #[derive(Clone, Copy)]
  pub struct Hid { pub a: i32, pub b: i32, c: i32 }
  #[derive(Clone, Copy)]
  pub struct Opaque { c: i32 }
  pub fn mk(a: i32) -> Hid { Hid { a, b: a, c: a } }
  pub fn op(c: i32) -> Opaque { Opaque { c } }
  pub fn sum(h: Hid, o: Opaque) -> i32 { h.a + h.b + h.c + o.c }
}
pub fn hidden(a: i32, b: i32) -> i32 {
  let mut h = private::mk(a);
  h.a = b;
  let g = h;
  let o = private::op(b);
  let p = o;
  private::sum(g, p)
}
