pub struct S<'a> { pub r: &'a mut u8, pub k: u8 }
pub struct V<'a> { pub a: &'a u8, pub b: &'a u8 }
pub struct N<'a, 'b> { pub x: &'a mut u8, pub y: &'b mut u8 }
impl<'a> S<'a> {
  fn new(r: &'a mut u8, k: u8) -> S<'a> { S { r, k } }
  fn put(&mut self, v: u8) { *self.r = v; self.k ^= 1 }
  fn get(&self) -> u8 { *self.r }
  fn inner(&mut self) -> &mut u8 { self.r }
  fn done(self) -> &'a mut u8 { self.r }
}
fn mk<'a>(a: &'a u8, b: &'a u8) -> V<'a> { V { a, b } }
fn first<'a, 'b>(a: &'a mut u8, b: &'b mut u8) -> N<'a, 'b> { N { x: a, y: b } }
fn assign<'a>(s: &mut S<'a>, r: &'a mut u8) { s.r = r }
fn longest<'a>(a: &'a mut (u8, u8), c: bool) -> &'a mut u8 { if c { &mut a.0 } else { &mut a.1 } }
fn id<T>(t: T) -> T { t }
fn l_new(a: u8, v: u8) -> u8 { let mut x = a; { let mut s = S::new(&mut x, 1); s.put(v); } x }
fn l_get(a: u8, v: u8) -> u8 { let mut x = a; let mut s = S::new(&mut x, 1); s.put(v); s.get() }
fn l_inner(a: u8, v: u8) -> u8 { let mut x = a; { let mut s = S::new(&mut x, 1); *s.inner() = v; } x }
fn l_done(a: u8, v: u8) -> u8 { let mut x = a; { let s = S::new(&mut x, 1); let r = s.done(); *r = v; } x }
fn l_mk(a: u8, b: u8) -> u8 { let v = mk(&a, &b); *v.a }
fn l_first(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); { let n = first(&mut x, &mut y); *n.x = v; *n.y = 3; } (x, y) }
fn l_assign(a: u8, b: u8, v: u8, c: bool) -> (u8, u8) { let (mut x, mut y) = (a, b); { let mut s = S { r: &mut x, k: 0 }; if c { assign(&mut s, &mut y) } s.put(v); } (x, y) }
fn l_longest(t: (u8, u8), c: bool, v: u8) -> (u8, u8) { let mut t = t; *longest(&mut t, c) = v; t }
fn l_id(a: u8, v: u8) -> u8 { let mut x = a; *id(&mut x) = v; x }
fn l_id_struct(a: u8, v: u8) -> u8 { let mut x = a; { let s = id(S { r: &mut x, k: v }); *s.r = s.k; } x }
fn l_opt(a: u8, v: u8, c: bool) -> u8 { let mut x = a; { let o = if c { Some(&mut x) } else { None }; if let Some(r) = o { *r = v } } x }
fn l_arr(a: u8, b: u8, v: u8, c: bool) -> (u8, u8) { let (mut x, mut y) = (a, b); { let rs = [&mut x, &mut y]; if c { *rs[0] = v } else { *rs[1] = v } } (x, y) }
fn l_tup_loop(n: u8, a: u8, b: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); { let mut t = (&mut x, &mut y); let mut i = 0u8; while i < n { t = (t.1, t.0); *t.0 = i; i += 1; } } (x, y) }
fn l_nested(a: u8, v: u8) -> u8 { let mut x = a; { let mut s = S { r: &mut x, k: 0 }; let t = &mut s; let u = &mut *t.r; *u = v; } x }
fn l_two_structs(a: u8, b: u8, v: u8) -> u8 { let (mut x, mut y) = (a, b); { let mut s = S { r: &mut x, k: 0 }; let t = S { r: &mut y, k: 0 }; s.put(v); *t.r = s.k; } x ^ y }
fn l_arg(s: &mut S, v: u8) { *s.r = v }
fn l_arg2(s: S, v: u8, c: bool) -> u8 { if c { *s.r = v } *s.r }
fn l_view(v: &V, c: bool) -> u8 { if c { *v.a } else { *v.b } }
fn l_copy_view(v: V, c: bool) -> u8 { let w = V { a: v.b, b: v.a }; if c { *w.a } else { 0 } }
fn l_split(p: &mut (u8, u8), v: u8) -> u8 { let (a, b) = (&mut p.0, &mut p.1); *a = v; *b ^= *a; p.1 }
fn l_ret(s: S<'_>) -> u8 { let S { r, k } = s; *r ^ k }
fn l_reinit(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); let mut s = S { r: &mut x, k: v }; s.put(1); s = S { r: &mut y, k: 2 }; s.put(v); (x, y) }
