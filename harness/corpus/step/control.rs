// control flow
pub fn nested_if(a: bool, b: bool, c: i32) -> i32 {
  let mut x = 0;
  if a {
    if b { x = c; } else { x += 1; }
    x += 2;
  }
  x
}
pub fn loops(n: i32, k: i32) -> (i32, i32) {
  let mut i = 0;
  let mut s = 0;
  let mut t = 0;
  while i < n {
    s += i;
    if s > k { t = s; break; }
    i += 1;
  }
  (s, t)
}
pub fn nested_loops(n: i32, m: i32) -> i32 {
  let mut i = 0;
  let mut acc = 0;
  'o: while i < n {
    let mut j = 0;
    loop {
      if j >= m { break; }
      if j == 7 { continue 'o; }
      if j == 9 { break 'o; }
      acc += j;
      j += 1;
    }
    i += 1;
  }
  acc
}
pub fn early(a: i32, b: bool) -> i32 {
  if b { return a; }
  let mut z = 2;
  if a > 3 { z = a; }
  z
}
pub fn multi(n: u8) -> u32 {
  let mut r = 0;
  match n { 0 => r = 1, 1 | 2 => { r = 2 } 3 if r == 0 => { r = 7 } _ => {} }
  r + 1
}
pub fn short(a: bool, b: bool, c: bool) -> bool { a && (b || !c) }
pub fn diverge(n: i32) -> i32 {
  if n < 0 { panic!("no") }
  let x = n / 2;
  if x == 3 { loop {} }
  x
}
pub fn try_it(a: Option<i32>, b: Option<i32>) -> Option<i32> {
  let x = a?;
  let y = b?;
  Some(x + y)
}
pub fn for_loop(v: &[i32]) -> i32 {
  let mut s = 0;
  for x in v { s += *x; }
  s
}
