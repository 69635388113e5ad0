fn apply<F: Fn(u8) -> u8>(f: F, a: u8) -> u8 { f(a) }
fn apply_mut<F: FnMut(u8)>(mut f: F, a: u8) { f(a) }
fn apply_once<F: FnOnce() -> u8>(f: F) -> u8 { f() }
fn cap(a: u8, b: u8) -> u8 { let f = |x: u8| x ^ a; let _ = b; f(3) }
fn cap_mut(a: u8, b: u8) -> u8 { let mut x = a; { let mut f = |v: u8| x = v; f(b); } x }
fn cap_mut2(a: u8, b: u8, c: bool) -> (u8, u8) { let (mut x, mut y) = (a, b); { let mut f = |v: u8| if c { x = v } else { y = v }; f(1); f(2); } (x, y) }
fn cap_move(a: u8, b: u8) -> u8 { let f = move || a; let _ = b; f() }
fn pass(a: u8, b: u8) -> u8 { apply(|x| x ^ b, a) }
fn pass_mut(a: u8, b: u8) -> u8 { let mut x = a; apply_mut(|v| x ^= v, b); x }
fn pass_once(a: u8, b: u8) -> u8 { let t = (a, b); apply_once(move || t.0) }
fn cap_field(t: (u8, u8), v: u8) -> (u8, u8) { let mut t = t; { let mut f = || t.0 = v; f(); } t }
fn cap_ref(x: &mut u8, v: u8) { let mut f = || *x = v; f() }
fn nested(a: u8, b: u8) -> u8 { let f = |x: u8| { let g = |y: u8| y ^ b; g(x) }; f(a) }
fn cond_call(c: bool, a: u8) -> u8 { let mut x = a; let mut f = || x = 1; if c { f() } x }
fn ret(a: u8) -> impl Fn(u8) -> u8 { move |x| x ^ a }
fn use_ret(a: u8, b: u8, c: u8) -> u8 { let f = ret(a); let _ = c; f(b) }
fn two(a: u8, b: u8) -> u8 { let mut s = 0u8; let mut add = |v: u8| s ^= v; add(a); add(b); s }
