// references: reborrows, nested references, structs holding references, raw pointers
pub struct R<'a> { pub r: &'a mut i32, pub s: &'a i32 }
pub struct N<'a, 'b> { pub a: &'a mut (i32, i32), pub b: &'b (i32, i32) }

pub fn simple(x: &mut i32, y: &i32) -> i32 {
  *x = *y;
  let r = &mut *x;
  *r += 1;
  *x
}
pub fn fields(t: &mut (i32, (i32, i32)), c: bool) -> i32 {
  let a = &mut t.1;
  let b = if c { &mut a.0 } else { &mut a.1 };
  *b = 3;
  t.0 = t.1.0;
  t.1.1
}
pub fn local_alias(c: bool, k: i32) -> (i32, i32) {
  let mut x = 1;
  let mut y = 2;
  {
    let p = if c { &mut x } else { &mut y };
    *p = k;
  }
  let q = &mut x;
  *q += y;
  (x, y)
}
pub fn nested<'a>(p: &mut &'a mut i32, q: &'a mut i32, k: i32) {
  **p = k;
  *p = q;
  **p = 2;
}
pub fn shared_nested(p: &&(i32, i32)) -> i32 {
  let q = *p;
  let r = &q.1;
  *r + p.0
}
pub fn holder(h: R<'_>, k: i32) -> i32 {
  *h.r = k + *h.s;
  let g = R { r: &mut *h.r, s: h.s };
  *g.r = *g.s;
  *h.r
}
pub fn two<'a, 'b>(n: N<'a, 'b>, k: i32) -> &'b i32 {
  n.a.0 = n.b.1;
  n.a.1 = k;
  &n.b.0
}
pub fn ret_ref<'a>(a: &'a mut (i32, i32), c: bool) -> &'a mut i32 {
  if c { &mut a.0 } else { &mut a.1 }
}
pub fn use_ret(c: bool) -> i32 {
  let mut t = (1, 2);
  let r = ret_ref(&mut t, c);
  *r = 5;
  t.0 + t.1
}
pub fn raw(x: i32) -> i32 {
  let mut a = x;
  let p = &mut a as *mut i32;
  unsafe { *p = 4; }
  let b = unsafe { *p };
  a + b
}
pub fn raw_arg(p: *mut (i32, i32), q: &mut i32) {
  unsafe { (*p).0 = *q; }
  *q = unsafe { (*p).1 };
}
pub fn slice_ref(s: &mut [i32], i: usize) -> i32 {
  s[i] = 1;
  let t = &mut s[1 ..];
  t[0] = 2;
  s[0]
}
pub fn box_ref(b: &mut Box<(i32, i32)>, k: i32) -> i32 {
  b.0 = k;
  let c = &mut b.1;
  *c += 1;
  b.1
}
pub fn opt_ref(o: &mut Option<i32>, k: i32) {
  if let Some(v) = o { *v += k } else { *o = Some(k) }
}
pub fn list_walk(mut l: &mut (i32, Option<Box<(i32, i32)>>)) -> i32 {
  l.0 = 1;
  let m = &mut *l;
  m.1 = None;
  l = m;
  l.0
}
static mut GLOBAL: i32 = 0;
static TABLE: [i32; 2] = [1, 2];
pub fn statics(i: usize) -> i32 {
  unsafe { GLOBAL = 2; }
  let t: &'static i32 = &TABLE[i];
  *t
}
pub fn arrays_of_refs<'a>(a: &'a mut i32, b: &'a mut i32, i: usize) {
  let mut v = [a, b];
  *v[i] = 7;
  let w = &mut v;
  *w[0] = 8;
}
// lifetimes that cover pointees of several types, overlapping
pub struct Two<'a> { pub x: &'a mut i32, pub y: &'a mut u8 }
pub struct Other<'a> { pub y: &'a mut u8, pub z: &'a mut i64 }
pub fn two_structs(t: Two<'_>, o: Other<'_>) -> u8 {
  *t.x = 1;
  *t.y = *o.y;
  *o.z = 2;
  *t.y
}
pub fn same_lifetime<'a>(a: &'a mut i32, b: &'a mut u8, c: &mut u8) -> u8 {
  *a = 1;
  *b = *c;
  *c = 2;
  *b
}
fn take_box(b: Box<i32>, k: i32) -> i32 { *b + k }
pub fn raw_and_box(mut b: Box<i32>, p: *mut i32, k: i32) -> i32 {
  unsafe { *p = k; }
  *b += 1;
  take_box(b, k)
}
pub struct Many<'a, 'b> { pub a: &'a u8, pub b: &'a mut u8, pub c: &'b u8, pub d: &'b mut (u8, u8), pub e: &'a u8, pub f: Box<u8>, pub g: u8 }
pub fn many(mut m: Many<'_, '_>, k: u8) -> u8 {
  *m.b = *m.a + *m.e;
  m.d.1 = *m.c;
  *m.f = k;
  m.g = m.d.0;
  *m.f
}
pub fn box_behind(mut b: Box<i32>, c: Box<i32>, k: i32) -> i32 {
  let r = &mut b;
  **r = k;
  let v = take_box(c, k);
  **r += v;
  v
}
pub fn box_behind_arg(b: &mut Box<i32>, t: &mut (Box<i32>, i32), c: Box<i32>) -> i32 {
  **b = 1;
  *t.0 = 2;
  t.1 = take_box(c, **b);
  *t.0
}
pub struct St { pub s: &'static (u8, u8), pub m: &'static mut u8 }
fn take_static(a: &'static (u8, u8), b: &'static mut u8) -> u8 { *b = a.0; a.1 }
pub fn static_fields(st: St, k: u8, t: &'static u8) -> u8 {
  *st.m = k;
  let q = st.s;
  *st.m = q.0 + *t;
  take_static(st.s, st.m)
}
