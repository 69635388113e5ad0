#[derive(Clone, Copy)] pub struct P { pub x: u8, pub y: u8 }
pub struct It { pub i: u8, pub n: u8 }
impl Iterator for It { type Item = u8; fn next(&mut self) -> Option<u8> { if self.i < self.n { self.i += 1; Some(self.i) } else { None } } }
fn while_let(n: u8, a: u8) -> u8 { let mut it = It { i: 0, n }; let mut s = a; while let Some(x) = it.next() { s ^= x; } s }
fn for_it(n: u8, a: u8, b: u8) -> u8 { let mut s = a; let mut t = b; for x in (It { i: 0, n }) { s ^= x; t = s; } let _ = t; s }
fn question(o: Option<u8>, p: Option<u8>) -> Option<u8> { let x = o?; let y = p?; Some(x ^ y) }
fn question_side(o: Option<u8>, x: &mut u8, v: u8) -> Option<()> { o?; *x = v; Some(()) }
fn parse(n: u8, k: u8) -> Result<u8, u8> { if n == k { return Err(n) } let m = if n > k { n } else { k }; Ok(m) }
fn use_parse(n: u8, k: u8, d: u8) -> u8 { match parse(n, k) { Ok(v) => v, Err(_) => d } }
fn state(n: u8, a: u8) -> u8 { #[derive(Clone, Copy)] enum St { Start, Run(u8), End } let mut s = St::Start; let mut i = 0u8; while i < n { s = match s { St::Start => St::Run(a), St::Run(x) if x == 3 => St::End, St::Run(x) => St::Run(x ^ 1), St::End => St::End }; i += 1; } match s { St::Run(x) => x, _ => 0 } }
fn max(a: u8, b: u8, c: u8) -> u8 { let mut m = a; if b > m { m = b } if c > m { m = c } m }
fn min_idx(a: u8, b: u8) -> u8 { let mut idx = 0; let mut best = a; if b < best { best = b; idx = 1 } let _ = best; idx }
fn counter(n: u8, p: P) -> (u8, u8) { let mut c = 0u8; let mut d = 0u8; let mut i = 0u8; while i < n { if i == p.x { c = i } if i == p.y { d = i } i += 1; } (c, d) }
fn early_in_loop(n: u8, k: u8, x: &mut u8, y: &mut u8) -> bool { let mut i = 0u8; while i < n { if i == k { *x = i; return true } *y = i; i += 1; } false }
fn swap_refs(a: u8, b: u8, c: bool, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); { let (mut r, mut s) = (&mut x, &mut y); if c { let t = r; r = s; s = t; } *r = v; *s = 0; } (x, y) }
fn branch_on_ref(x: &mut u8, y: &mut u8) { let r = &*x; if *r == 1 { *y = 2 } *x = 0 }
fn struct_flow(p: &mut P, q: &mut P, c: bool) { if c { *p = *q } else { q.x = p.y } }
fn ret_mutated(x: &mut u8, v: u8) -> u8 { *x = v; let y = *x; *x = 0; y }
fn bool_expr(a: u8, b: u8, c: u8) -> bool { (a == b || b == c) && a != 0 }
fn nested_if_ret(a: u8, b: u8, c: u8) -> u8 { if a == 0 { if b == 0 { return c } } else if c == 0 { return b } a }
fn const_overwrite_loop(n: u8, a: u8) -> u8 { let mut x = a; let mut i = 0u8; while i < n { x = 0; i += 1; } x }
fn partially(c: bool, a: u8, b: u8) -> P { let mut p = P { x: 0, y: 0 }; if c { p.x = a } p.y = b; p }
fn tuple_match(t: (bool, u8), a: u8) -> u8 { match t { (true, 0) => a, (true, n) => n, (false, _) => 7 } }
fn ref_match(t: &mut (bool, u8), a: u8) { match t { (true, n) => *n = a, (b, _) => *b = true } }
fn closure_loop(n: u8, a: u8) -> u8 { let mut s = 0u8; let mut f = |v: u8| { s ^= v; s }; let mut i = 0u8; let mut last = 0; while i < n { last = f(a); i += 1; } last }
fn closure_env(p: P, c: bool) -> u8 { let mut p = p; let mut f = || { if c { p.x = p.y } }; f(); f(); p.x }
fn double_deref(x: &mut &mut u8, y: &mut u8, c: bool) { if c { **x = *y } else { *y = **x } }
fn unused_call(a: u8, x: &mut u8) -> u8 { fn f(x: &mut u8) -> u8 { *x ^= 1; *x } let r = f(x); let _ = r; a }
fn bind_at(n: u8, a: u8) -> u8 { match n { m @ 1..=4 => m, m => m ^ a } }
fn arr_fill(n: usize, v: u8) -> [u8; 2] { let mut a = [0u8; 2]; let mut i = 0; while i < 2 { if i == n { a[i] = v } i += 1; } a }
fn opt_take(o: &mut Option<u8>, x: &mut u8) { if let Some(v) = o.take() { *x = v } }
fn opt_map(o: Option<u8>, k: u8) -> Option<u8> { o.map(|v| v ^ k) }
fn unwrap_or(o: Option<u8>, d: u8) -> u8 { o.unwrap_or(d) }
