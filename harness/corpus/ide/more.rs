struct S {
  a: u8,
  b: u8,
}

impl S {
  fn set(&mut self, v: u8) -> &mut u8 {
    self.a = v;
    self.b = 1;
    &mut self.b
  }
  fn both(self, other: &S) -> u8 {
    self.a
      + other.b
  }
}

enum E {
  One(u8),
  Two { x: u8, y: u8 },
  None,
}

fn matching(e: E, d: u8) -> u8 {
  match e {
    E::One(v) => v,
    E::Two { x, y } => x ^ y,
    E::None => d,
  }
}

fn call(a: u8, b: u8) -> u8 {
  let mut s = S { a, b };
  let r = s.set(
    b,
  );
  *r += 1;
  s.both(&S { a: 1, b })
}

fn closure(a: u8) -> u8 {
  let f = |b: u8| {
    a + b
  };
  f(1)
}

fn early(v: &[u8], i: usize) -> Option<u8> {
  if i >= v.len() {
    return None;
  }
  let x = v[i];
  Some(x)
}

fn generic<T: Clone>(t: &T) -> T {
  let u = t.clone();
  u
}

fn mutate(x: &mut u8, y: u8) {
  *x = y;
}

fn strings(n: u8) -> String {
  let mut s = String::new();
  if n > 1 {
    s.push('a');
  }
  s.push_str("é→");
  s
}
