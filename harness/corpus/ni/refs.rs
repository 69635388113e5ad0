#[derive(Clone, Copy)] pub struct P { pub x: u8, pub y: u8 }
fn through(a: u8, b: u8) -> u8 { let mut x = a; let r = &mut x; *r = b; x }
fn through2(a: u8, b: u8) -> u8 { let mut x = a; let y = b; { let r = &mut x; *r ^= y; } x }
fn pick(c: bool, a: u8, b: u8, v: u8) -> u8 { let (mut x, mut y) = (a, b); { let r = if c { &mut x } else { &mut y }; *r = v; } x }
fn pick_both(c: bool, a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); { let r = if c { &mut x } else { &mut y }; *r = v; } (x, y) }
fn reassign(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); let mut r = &mut x; *r = v; r = &mut y; *r = v; (x, y) }
fn field_ref(p: P, v: u8) -> P { let mut p = p; let r = &mut p.y; *r = v; p }
fn whole_ref(p: P, v: u8) -> u8 { let mut p = p; let r = &mut p; r.x = v; p.x }
fn reborrow(a: u8, v: u8) -> u8 { let mut x = a; let r = &mut x; let s = &mut *r; *s = v; x }
fn reborrow_field(p: &mut P, v: u8) -> u8 { let r = &mut p.x; *r = v; p.y }
fn nested(a: u8, v: u8) -> u8 { let mut x = a; let mut r = &mut x; let rr = &mut r; **rr = v; x }
fn nested_switch(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); { let mut r = &mut x; let rr = &mut r; **rr = 1; *rr = &mut y; **rr = v; } (x, y) }
fn args(x: &mut u8, y: &u8, c: bool) { if c { *x = *y } }
fn args_struct(p: &mut P, q: &P) { p.x = q.y; if p.y == q.x { p.y = 0 } }
fn ret_ref<'a>(c: bool, a: &'a u8, b: &'a u8) -> &'a u8 { if c { a } else { b } }
fn ret_ref_deref(c: bool, a: &u8, b: &u8) -> u8 { let r = if c { a } else { b }; *r }
fn ret_mut<'a>(p: &'a mut P, v: u8) -> &'a mut u8 { p.y = v; &mut p.x }
fn tuple_refs(a: u8, b: u8, v: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); { let t = (&mut x, &mut y); *t.0 = v; } (x, y) }
fn tuple_refs2(t: (&mut u8, &mut u8), v: u8) { *t.0 = v; *t.1 ^= *t.0 }
fn shared(a: u8) -> u8 { let x = a; let r = &x; let s = r; *s ^ 1 }
fn shared_mut(a: u8, b: u8) -> u8 { let mut x = a; let y = x; x = b; let _ = x; y }
fn ref_in_struct(a: u8, v: u8) -> u8 { struct S<'a> { r: &'a mut u8, k: u8 } let mut x = a; let s = S { r: &mut x, k: v }; *s.r = s.k; x }
fn ref_loop(n: u8, a: u8, b: u8) -> (u8, u8) { let (mut x, mut y) = (a, b); let mut i = 0u8; while i < n { let r = if i == 1 { &mut x } else { &mut y }; *r = i; i += 1; } (x, y) }
fn two_level(x: &mut &mut u8, v: u8) { **x = v }
fn two_level_read(x: &&u8, c: bool) -> u8 { if c { **x } else { 0 } }
fn old_value(x: &mut u8, v: u8) -> u8 { let o = *x; *x = v; o }
fn cond_ref(c: bool, x: &mut u8, y: &mut u8, v: u8) { let r = if c { x } else { y }; *r = v }
fn opt_ref(o: Option<&mut u8>, v: u8) -> u8 { if let Some(r) = o { *r = v; 1 } else { 0 } }
fn copy_then_mut(a: u8, v: u8) -> u8 { let mut x = a; let r = &mut x; let c = *r; *r = v; let _ = x; c }
fn chain(p: &mut (P, u8), v: u8) -> u8 { let q = &mut p.0; let r = &mut q.x; *r = v; q.y = *r; p.1 }
fn match_ref(p: &mut (u8, u8), c: bool) { let (a, b) = p; if c { *a = *b } else { *b = *a } }
fn write_then_borrow(a: u8, b: u8) -> u8 { let mut x = a; x = b; let r = &x; let z = *r; z }
fn ptr_index(c: bool, a: u8) -> u8 { let z = 0u8; let r = if c { &a } else { &z }; let q = (*r, 1u8); q.0 }
