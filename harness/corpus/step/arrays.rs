pub fn index(a: [i32; 3], i: usize, j: usize) -> i32 {
  let mut b = a;
  b[i] = 1;
  b[j] = b[i] + b[0];
  b[2]
}
pub fn nested(a: [[i32; 2]; 2], i: usize) -> [i32; 2] {
  let mut b = a;
  b[i][0] = 4;
  let c = b[1];
  b[0] = c;
  b[i]
}
pub fn tup(i: usize, k: i32) -> [(i32, bool); 2] {
  let mut a = [(0, false), (k, true)];
  a[i].0 = 3;
  a[1] = (k, a[i].1);
  a
}
pub fn pattern(a: &mut [i32; 4]) -> i32 {
  let [x, .., y] = a;
  *x = *y;
  let [_, rest @ ..] = a;
  rest[0]
}
pub fn rep(x: i32, i: usize) -> i32 { let mut a = [x; 4]; a[i] += 1; a[0] }
pub fn vecs(v: &mut Vec<(i32, i32)>, i: usize, k: i32) -> i32 {
  v[i].0 = k;
  v.push((k, 0));
  v.len() as i32
}
#[derive(Clone, Copy)] pub struct Q { pub x: u8, pub y: (u8, i32) }
pub fn elems(a: &mut [Q; 3], b: &[Q], q: Q, i: usize, j: usize) -> Q {
  a[i] = q;
  a[0] = b[j];
  a[j] = a[i];
  a[1] = Q { x: a[i].x, y: a[2].y };
  b[i]
}
