// call signatures
pub struct S<'a> { pub m: &'a mut i32, pub s: &'a i32, pub b: Box<i32>, pub n: i32 }
fn val(_: i32) -> i32 { 0 }
fn unit(_: i32, _: i32) {}
fn by_mut(_: &mut i32, _: i32) {}
fn by_mut_ret(_: &mut i32, _: &i32) -> bool { true }
fn by_ref(_: &i32) -> i32 { 1 }
fn two_mut(_: &mut i32, _: &mut (i32, i32)) {}
fn by_struct(_: S<'_>) -> i32 { 0 }
fn by_struct_ref(_: &S<'_>) -> i32 { 0 }
fn by_struct_mut(_: &mut S<'_>) {}
fn by_box(_: Box<(i32, i32)>) -> Box<i32> { Box::new(1) }
fn by_raw(_: *mut i32, _: *const i32) {}
fn nested_mut(_: &mut &mut i32) {}
fn mut_in_shared(_: &&mut i32) {}
fn shared_in_mut(_: &mut &i32) {}
fn ident<T>(t: T) -> T { t }
fn longer<'a>(a: &'a mut i32, _: &'a mut i32) -> &'a mut i32 { a }
fn tuple(_: (&mut i32, &i32)) -> (i32, i32) { (1, 2) }
fn arr(_: [&mut i32; 2]) {}
fn never() -> ! { loop {} }

pub fn values(a: i32, b: i32) -> i32 {
  let x = val(a);
  unit(x, b);
  let mut t = (1, 2);
  t.0 = val(b);
  t.1 = val(t.0);
  t.1
}
pub fn muts(a: i32, b: i32) -> i32 {
  let mut x = a;
  let mut y = (1, b);
  by_mut(&mut x, b);
  let r = by_mut_ret(&mut y.0, &x);
  two_mut(&mut x, &mut y);
  if r { by_ref(&x) } else { y.1 }
}
pub fn args(x: &mut i32, y: &mut (i32, i32), z: &i32) -> bool {
  by_mut(x, *z);
  two_mut(x, y);
  by_mut_ret(&mut y.1, z)
}
pub fn structs(k: i32) -> i32 {
  let mut a = 1;
  let b = k;
  let mut s = S { m: &mut a, s: &b, b: Box::new(k), n: 2 };
  by_struct_ref(&s);
  by_struct_mut(&mut s);
  let n = s.n;
  by_struct(s) + a + n
}
pub fn struct_arg(s: S<'_>, t: &mut S<'_>) -> i32 {
  by_struct_mut(t);
  by_struct_ref(&s);
  *t.m = by_struct(s);
  *t.m
}
pub fn nesting(k: i32) -> i32 {
  let mut a = k;
  let b = 2;
  let mut r = &mut a;
  nested_mut(&mut r);
  mut_in_shared(&r);
  let mut s = &b;
  shared_in_mut(&mut s);
  *s + *r
}
pub fn generic(a: &mut i32, b: &i32) -> i32 {
  let r = ident(a);
  let s = ident(b);
  *r = *s;
  let t = ident((1, *r));
  t.1
}
pub fn returning(c: i32) -> (i32, i32) {
  let mut x = c;
  let mut y = 2;
  let r = longer(&mut x, &mut y);
  *r = 1;
  let b = by_box(Box::new((x, y)));
  (x, *b)
}
pub fn packed(k: i32) -> i32 {
  let (mut x, y, mut z) = (1, k, 3);
  let r = tuple((&mut x, &y));
  arr([&mut x, &mut z]);
  r.0 + x + z
}
pub fn raws(k: i32) -> i32 {
  let mut x = k;
  let y = 1;
  by_raw(&mut x, &y);
  x + y
}
pub fn in_array(i: usize, k: i32) -> [i32; 2] {
  let mut a = [1, 2];
  a[i] = val(k);
  by_mut(&mut a[i], k);
  a
}
pub fn pointers(f: fn(i32) -> i32, g: &dyn Fn(i32) -> i32, k: i32) -> i32 {
  let x = f(k);
  let y = g(x);
  x + y
}
pub fn methods(v: &mut Vec<i32>, o: Option<i32>) -> usize {
  v.push(1);
  let n = v.len();
  let m = o.unwrap_or(2);
  v.insert(n, m);
  v.iter().count()
}
pub fn diverges(c: bool) -> i32 {
  if c { never() }
  1
}
pub fn in_branch(c: bool, x: &mut i32, k: i32) {
  if c { by_mut(x, k) } else { *x = val(k) }
}
