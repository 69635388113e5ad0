#[derive(Clone, Copy)] pub struct P { pub x: u8, pub y: u8 }
fn set(x: &mut u8, v: u8) { *x = v }
fn set_if(x: &mut u8, v: u8, c: bool) { if c { *x = v } }
fn add(a: u8, b: u8) -> u8 { a ^ b }
fn fst<'a>(a: &'a mut u8, _b: &mut u8) -> &'a mut u8 { a }
fn choose<'a>(c: bool, a: &'a mut u8, b: &'a mut u8) -> &'a mut u8 { if c { a } else { b } }
fn get_x(p: &mut P) -> &mut u8 { &mut p.x }
fn swap(a: &mut u8, b: &mut u8) { let t = *a; *a = *b; *b = t }
fn mk(a: u8) -> P { P { x: a, y: 1 } }
fn rd(p: &P) -> u8 { p.y }
fn store<'a>(d: &mut &'a u8, s: &'a u8) { *d = s }
fn konst() -> u8 { 3 }
fn nothing(_: &mut u8) {}
impl P { fn set_x(&mut self, v: u8) { self.x = v } fn x(&self) -> u8 { self.x } fn with(self, v: u8) -> P { P { x: v, ..self } } }
fn c_set(a: u8, v: u8) -> u8 { let mut x = a; set(&mut x, v); x }
fn c_set_if(a: u8, v: u8, c: bool) -> u8 { let mut x = a; set_if(&mut x, v, c); x }
fn c_set2(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); set(&mut x, v); set(&mut y, x); (x, y) }
fn c_add(a: u8, b: u8, c: u8) -> u8 { let t = add(a, b); let _ = add(t, c); t }
fn c_fst(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); *fst(&mut x, &mut y) = v; (x, y) }
fn c_choose(c: bool, a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); *choose(c, &mut x, &mut y) = v; (x, y) }
fn c_get(p: P, v: u8) -> P { let mut p = p; *get_x(&mut p) = v; p }
fn c_swap(a: u8, b: u8) -> u8 { let (mut x, mut y) = (a, b); swap(&mut x, &mut y); x }
fn c_mk(a: u8, b: u8) -> u8 { let p = mk(a); let q = mk(b); let _ = q; p.x }
fn c_rd(p: P, v: u8) -> u8 { let mut p = p; p.x = v; rd(&p) }
fn c_store(a: u8, b: u8) -> u8 { let (x, y) = (a, b); let mut r = &x; store(&mut r, &y); *r }
fn c_method(p: P, v: u8) -> u8 { let mut p = p; p.set_x(v); p.x() ^ p.y }
fn c_with(p: P, v: u8) -> P { let q = p.with(v); q }
fn c_cond(c: bool, a: u8, v: u8) -> u8 { let mut x = a; if c { set(&mut x, v) } x }
fn c_loop(n: u8, a: u8) -> u8 { let mut x = a; let mut i = 0u8; while i < n { set(&mut x, i); i += 1; } x }
fn c_konst(a: u8) -> u8 { let k = konst(); let x = a; let _ = x; k }
fn c_nothing(a: u8, b: u8) -> u8 { let mut x = a; nothing(&mut x); let _ = b; x }
fn c_nested(a: u8, b: u8, c: u8) -> u8 { add(add(a, konst()), { let _d = c; b }) }
fn c_args(x: &mut u8, y: &mut u8, v: u8) { set(x, v); if *y == 1 { set(y, *x) } }
fn c_tuple(t: &mut (u8, u8), v: u8) -> u8 { set(&mut t.0, v); t.1 }
fn c_reborrow(p: &mut P, v: u8) -> u8 { let r = &mut *p; r.set_x(v); p.y }
fn c_ptr(c: bool, a: u8) -> u8 { let f: fn(u8, u8) -> u8 = if c { add } else { |a, _| a }; f(a, 1) }
fn c_keep<'a>(p: &'a mut P, q: &'a mut P, v: u8) -> u8 { let r = choose(true, &mut p.x, &mut q.x); *r = v; p.y ^ q.y }
fn c_mem(a: u8, b: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); std::mem::swap(&mut x, &mut y); let o = std::mem::replace(&mut x, 3); (o, y) }
fn fact(n: u8) -> u8 { if n == 0 { 1 } else { n ^ fact(n - 1) } }
fn c_rec(a: u8, b: u8) -> u8 { let _ = fact(b & 1); fact(a & 1) }
fn c_opt(o: Option<P>, v: u8) -> u8 { let mut o = o; if let Some(p) = &mut o { p.set_x(v) } match o { Some(p) => p.x(), None => 0 } }
