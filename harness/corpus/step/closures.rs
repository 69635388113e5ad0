pub fn captures(a: i32, b: i32) -> i32 {
  let mut x = a;
  let y = b;
  let mut inc = |k: i32| { x += k + y; };
  inc(1);
  inc(y);
  x
}
pub fn by_move(s: (i32, Box<i32>)) -> i32 {
  let f = move || *s.1 + s.0;
  f()
}
pub fn passed(v: Option<i32>, k: i32) -> Option<i32> {
  let mut n = 0;
  let r = v.map(|x| { n += 1; x + k });
  if n > 0 { r } else { None }
}
pub fn nested(x: &mut (i32, i32)) {
  let mut f = || { let mut g = || x.0 += 1; g(); };
  f();
}
pub async fn asynch(x: &mut i32, y: i32) -> i32 {
  let z = y + 1;
  *x = z;
  other(x).await;
  *x
}
async fn other(x: &mut i32) { *x += 1; }
