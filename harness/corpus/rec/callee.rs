#[derive(Clone, Copy)] pub struct P { pub x: u8, pub y: u8 }
pub struct S<'a> { pub r: &'a mut u8, pub k: u8 }
fn overwrite_arg(x: &mut u8, mut y: u8, c: bool) -> u8 { *x = y; if c { y = 0 } y }
fn move_value(x: &mut u8, y: &mut u8) { *y = *x; *x = 1 }
fn move_field(s: &mut S, y: &mut u8) { *y = *s.r; *s.r = 1 }
fn move_by_value(s: S, y: &mut u8) { *y = *s.r; *s.r = 1 }
fn exchange(p: &mut P) -> u8 { let o = p.x; p.x = p.y; p.y = 3; o }
fn reset(p: &mut P) { *p = P { x: 0, y: 0 } }
fn konst(x: &mut u8) { *x = 7 }
fn cond_konst(x: &mut u8, c: bool) { if c { *x = 7 } }
fn early(x: &mut u8, c: bool) { if c { return } *x = 1 }
fn two(x: &mut u8, y: &mut u8, v: u8) { *x = v; *y = *x }
fn only_first(x: &mut u8, _y: &mut u8, v: u8) { *x = v }
fn ret_first(a: u8, _b: u8) -> u8 { a }
fn ret_tuple(a: u8, b: u8) -> (u8, u8) { (a, b) }
fn ret_opt(c: bool, a: u8) -> Option<u8> { if c { Some(a) } else { None } }
fn ret_struct(a: u8, b: u8, c: bool) -> P { let mut p = P { x: a, y: 0 }; if c { p.y = b } p }
fn ret_ref<'a>(p: &'a mut P) -> &'a mut u8 { p.y = 1; &mut p.x }
fn opt_set(o: &mut Option<u8>, v: u8) { if let Some(x) = o { *x = v } }
fn opt_replace(o: &mut Option<u8>, v: u8, c: bool) { *o = if c { Some(v) } else { None } }
fn arr_set(a: &mut [u8; 2], i: usize, v: u8) { if i < 2 { a[i] = v } }
fn arr_first(a: &[u8; 2]) -> u8 { a[0] }
fn nested(p: &mut P, v: u8) { konst(&mut p.y); two(&mut p.x, &mut p.y, v) }
fn deeper(x: &mut u8, v: u8) { set(x, v) }
fn set(x: &mut u8, v: u8) { *x = v }
fn rec(x: &mut u8, n: u8) { if n > 0 { *x ^= n; rec(x, n - 1) } }
fn even(x: &mut u8, n: u8) -> bool { if n == 0 { true } else { *x = n; odd(x, n - 1) } }
fn odd(x: &mut u8, n: u8) -> bool { if n == 0 { false } else { *x ^= n; even(x, n - 1) } }
fn gener<T>(x: &mut T, v: T) { *x = v }
fn gen_ret<T>(a: T, _b: T) -> T { a }
fn loop_set(x: &mut u8, n: u8) { let mut i = 0u8; while i < n { *x = i; i += 1; } }
fn branch_ret(c: bool, a: u8, b: u8) -> u8 { if c { return a } b }
fn store<'a>(d: &mut &'a u8, s: &'a u8) { *d = s }
fn through(s: &mut S, v: u8) { *s.r = v; s.k = v }
fn swap_s<'a>(s: &mut S<'a>, t: &mut S<'a>) { std::mem::swap(s, t) }
fn never() -> ! { loop {} }
fn o_overwrite_arg(a: u8, b: u8, c: bool) -> (u8, u8) { let mut x = a; let r = overwrite_arg(&mut x, b, c); (x, r) }
fn o_move_value(a: u8, b: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); move_value(&mut x, &mut y); (x, y) }
fn o_move_value_arg(x: &mut u8, y: &mut u8, v: u8) { *x = v; move_value(x, y) }
fn o_move_field(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); { let mut s = S { r: &mut x, k: 0 }; *s.r = v; move_field(&mut s, &mut y); } (x, y) }
fn o_move_by_value(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); { let s = S { r: &mut x, k: 0 }; *s.r = v; move_by_value(s, &mut y); } (x, y) }
fn o_exchange(p: P) -> (P, u8) { let mut p = p; let r = exchange(&mut p); (p, r) }
fn o_reset(p: P) -> P { let mut p = p; reset(&mut p); p }
fn o_konst(a: u8) -> u8 { let mut x = a; konst(&mut x); x }
fn o_cond_konst(a: u8, c: bool) -> u8 { let mut x = a; cond_konst(&mut x, c); x }
fn o_early(a: u8, c: bool) -> u8 { let mut x = a; early(&mut x, c); x }
fn o_two(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); two(&mut x, &mut y, v); (x, y) }
fn o_only_first(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); only_first(&mut x, &mut y, v); (x, y) }
fn o_ret_first(a: u8, b: u8) -> u8 { ret_first(a, b) }
fn o_ret_tuple(a: u8, b: u8) -> u8 { let t = ret_tuple(a, b); t.0 }
fn o_ret_opt(c: bool, a: u8) -> u8 { match ret_opt(c, a) { Some(v) => v, None => 1 } }
fn o_ret_struct(a: u8, b: u8, c: bool) -> u8 { let p = ret_struct(a, b, c); p.x }
fn o_ret_ref(p: P, v: u8) -> P { let mut p = p; *ret_ref(&mut p) = v; p }
fn o_opt_set(o: Option<u8>, v: u8) -> Option<u8> { let mut o = o; opt_set(&mut o, v); o }
fn o_opt_replace(o: Option<u8>, v: u8, c: bool) -> Option<u8> { let mut o = o; opt_replace(&mut o, v, c); o }
fn o_arr_set(a: [u8; 2], i: usize, v: u8) -> [u8; 2] { let mut a = a; arr_set(&mut a, i, v); a }
fn o_arr_first(a: [u8; 2], v: u8) -> u8 { let mut a = a; a[0] = v; arr_first(&a) }
fn o_nested(p: P, v: u8) -> P { let mut p = p; nested(&mut p, v); p }
fn o_deeper(a: u8, v: u8) -> u8 { let mut x = a; deeper(&mut x, v); x }
fn o_rec(a: u8, n: u8) -> u8 { let mut x = a; rec(&mut x, n & 1); x }
fn o_even(a: u8, n: u8) -> (u8, bool) { let mut x = a; let r = even(&mut x, n & 1); (x, r) }
fn o_gen(a: u8, v: u8) -> u8 { let mut x = a; gener(&mut x, v); x }
fn o_gen_ref(a: u8, b: u8) -> u8 { let (x, y) = (a, b); let mut r = &x; gener(&mut r, &y); *r }
fn o_gen_mut(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); { let mut r = &mut x; gener(&mut r, &mut y); *r = v; } (x, y) }
fn o_gen_ret(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); { let r = gen_ret(&mut x, &mut y); *r = v; } (x, y) }
fn o_loop_set(a: u8, n: u8) -> u8 { let mut x = a; loop_set(&mut x, n); x }
fn o_branch_ret(c: bool, a: u8, b: u8) -> u8 { let r = branch_ret(c, a, b); r }
fn o_store(a: u8, b: u8) -> u8 { let (x, y) = (a, b); let mut r = &x; store(&mut r, &y); *r }
fn o_through(a: u8, v: u8) -> (u8, u8) { let mut x = a; let k; { let mut s = S { r: &mut x, k: 0 }; through(&mut s, v); k = s.k; } (x, k) }
fn o_swap_s(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); { let mut s = S { r: &mut x, k: 0 }; let mut t = S { r: &mut y, k: 1 }; swap_s(&mut s, &mut t); *s.r = v; } (x, y) }
fn o_never(c: bool, a: u8) -> u8 { if c { never() } a }
fn o_twice(a: u8, v: u8, w: u8) -> (u8, u8) { let mut x = a; set(&mut x, v); let y = x; set(&mut x, w); (x, y) }
fn o_cond(c: bool, a: u8, v: u8) -> u8 { let mut x = a; if c { set(&mut x, v) } else { konst(&mut x) } x }
fn o_loop(n: u8, a: u8) -> u8 { let mut x = a; let mut i = 0u8; while i < n { set(&mut x, i); i += 1; } x }
fn o_ptr(a: u8, v: u8) -> u8 { let f: fn(&mut u8, u8) = set; let mut x = a; f(&mut x, v); x }
trait Dflt { fn put(&self, a: u8, b: u8) -> u8 { a } fn set(&mut self, a: u8); fn set2(&mut self, a: u8) { self.set(a) } }
struct D1; impl Dflt for D1 { fn put(&self, a: u8, b: u8) -> u8 { b } fn set(&mut self, a: u8) { } }
struct D2 { x: u8 } impl Dflt for D2 { fn set(&mut self, a: u8) { self.x = a; } }
fn call_dflt_overridden(a: u8, b: u8) -> u8 { D1.put(a, b) }
fn call_dflt(a: u8, b: u8) -> u8 { let mut d = D2 { x: a }; let r = d.put(a, b); d.set2(b); d.x ^ r }
fn call_dflt_set(a: u8, b: u8) -> u8 { let mut d = D2 { x: a }; d.set2(b); d.x }
fn generic_dflt<T: Dflt>(t: &mut T, a: u8) { t.set2(a); }
fn call_generic_dflt(a: u8, b: u8) -> u8 { let mut d = D2 { x: a }; generic_dflt(&mut d, b); d.x }
fn by_value(mut t: ((u8, u8), u8), v: u8) -> u8 { t.0.1 = v; t.1 = v; t.0.0 }
fn by_value_struct(mut p: P, mut q: (P, u8), v: u8) -> u8 { p.x = v; q.0.y = p.x; q.1 }
fn o_by_value(t: ((u8, u8), u8), v: u8) -> (((u8, u8), u8), u8) { let r = by_value(t, v); (t, r) }
fn o_by_value_struct(p: P, q: (P, u8), v: u8) -> (u8, u8, u8) { let r = by_value_struct(p, q, v); (p.x, q.0.y, r) }
