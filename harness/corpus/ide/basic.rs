fn line(a: u8, b: u8) -> u8 {
  let x = a;
  let y = b;
  x + y
}

fn branch(c: bool, a: u8) -> u8 {
  let mut x = 0;
  if c {
    x = a;
  } else {
    x += 1;
  }
  x
}

fn repeat(n: u8) -> u8 {
  let mut i = 0;
  while i < n {
    i += 2;
  }
  return i;
}

fn refs(a: u8) -> u8 {
  let mut x = a;
  let r = &mut x;
  *r = 7;
  let s = &x;
  *s
}

fn tuples(p: (u8, u8)) -> u8 {
  let mut q = p;
  q.0 = p.1;
  let (u, v) = q;
  u ^ v
}

fn unit() {}
