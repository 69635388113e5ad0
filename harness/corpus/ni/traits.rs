trait T { fn get(&self) -> u8; fn set(&mut self, v: u8); fn twice(&mut self, v: u8) { self.set(v); self.set(v ^ 1) } }
struct A(u8); struct B { x: u8, k: u8 }
impl T for A { fn get(&self) -> u8 { self.0 } fn set(&mut self, v: u8) { self.0 = v } }
impl T for B { fn get(&self) -> u8 { self.x } fn set(&mut self, v: u8) { if self.k == 1 { self.x = v } } }
fn stat(a: u8, v: u8) -> u8 { let mut t = A(a); t.set(v); t.get() }
fn stat_b(a: u8, k: u8, v: u8) -> u8 { let mut t = B { x: a, k }; t.set(v); t.get() }
fn generic<X: T>(x: &mut X, v: u8) -> u8 { x.set(v); x.get() }
fn use_generic(a: u8, k: u8, v: u8) -> u8 { let mut t = B { x: a, k }; let _ = generic(&mut t, v); t.x }
fn dynamic(c: bool, a: u8, k: u8, v: u8) -> u8 { let mut x = A(a); let mut y = B { x: a, k }; { let d: &mut dyn T = if c { &mut x } else { &mut y }; d.set(v); } x.0 ^ y.x }
fn default(a: u8, v: u8) -> u8 { let mut t = A(a); t.twice(v); t.0 }
struct N(u8);
impl std::ops::Add for N { type Output = N; fn add(self, o: N) -> N { N(self.0 ^ o.0) } }
impl std::ops::AddAssign<u8> for N { fn add_assign(&mut self, o: u8) { self.0 ^= o } }
impl std::ops::Index<usize> for N { type Output = u8; fn index(&self, _: usize) -> &u8 { &self.0 } }
fn ops(a: u8, b: u8, c: u8) -> u8 { let mut x = N(a) + N(b); x += c; x.0 }
fn index(a: u8, i: usize) -> u8 { let n = N(a); n[i] }
impl PartialEq for N { fn eq(&self, o: &N) -> bool { self.0 == o.0 } }
fn eqs(a: u8, b: u8, c: u8) -> u8 { if N(a) == N(b) { c } else { 0 } }
