#[derive(Clone, Copy)] pub struct P { pub x: u8, pub y: u8 }
#[derive(Clone, Copy)] pub struct Q { pub p: P, pub z: u8, pub t: (u8, u8) }
pub struct W(pub u8, pub P);
#[derive(Clone, Copy)] pub enum E { A, B(u8), C { x: u8, y: u8 } }
fn tuple(a: u8, b: u8) -> u8 { let mut t = (a, b); t.1 = 5; t.0 ^= 1; t.0 }
fn tuple2(a: u8, b: u8) -> (u8, u8) { let mut t = (a, b); t.0 = t.1; t }
fn strukt(a: u8, b: u8) -> u8 { let mut p = P { x: a, y: b }; p.y = p.x; let q = p; q.x }
fn strukt_whole(a: P, b: P, c: bool) -> u8 { let mut p = a; if c { p = b } p.y = 1; p.x }
fn nested(q: Q, v: u8) -> u8 { let mut q = q; q.p.x = v; q.t = (v, q.z); let p = q.p; p.y }
fn nested2(q: Q, v: u8, c: bool) -> Q { let mut r = q; if c { r.p = P { x: v, y: r.t.0 } } else { r.t.1 = v } r }
fn field_swap(p: P) -> P { let mut p = p; let t = p.x; p.x = p.y; p.y = t; p }
fn update(q: Q, v: u8) -> Q { Q { z: v, ..q } }
fn tuple_struct(w: W, v: u8) -> u8 { let mut w = w; w.1.x = v; w.0 = w.1.y; w.0 }
fn deep(a: u8, b: u8) -> u8 { let mut t = ((a, b), (b, a)); t.0 .1 = 7; t.1 = t.0; t.1 .0 }
fn destructure(q: Q) -> u8 { let Q { p: P { x, .. }, t: (_, w), .. } = q; x ^ w }
fn enum_make(c: bool, a: u8, b: u8) -> E { if c { E::B(a) } else { E::C { x: a, y: b } } }
fn enum_match(e: E, d: u8) -> u8 { match e { E::A => d, E::B(x) => x, E::C { y, .. } => y } }
fn enum_mut(mut e: E, v: u8) -> u8 { if let E::C { x, .. } = &mut e { *x = v } match e { E::C { x, y } => x ^ y, _ => 0 } }
fn option(o: Option<u8>, d: u8) -> u8 { match o { Some(x) => x, None => d } }
fn option_nested(o: Option<Option<u8>>, d: u8) -> u8 { if let Some(Some(x)) = o { x } else { d } }
fn result(r: Result<u8, u16>, d: u8) -> u8 { let v = match r { Ok(v) => v, Err(_) => return d }; v ^ 1 }
fn enum_replace(o: &mut Option<u8>, a: u8, c: bool) { if c { *o = Some(a) } else { *o = None } }
fn enum_cond(o: Option<u8>, a: u8) -> Option<u8> { let mut r = o; if r.is_none() { r = Some(a) } r }
fn partial_move(p: (P, P)) -> u8 { let (a, b) = p; let _ = b.x; a.y }
fn loop_struct(n: u8, a: P) -> u8 { let mut p = a; let mut i = 0u8; while i < n { p.y = p.x; i += 1; } p.y }
fn bools(t: (bool, bool), a: u8) -> u8 { let mut r = 0; if t.0 { r = a } if t.1 { r ^= 1 } r }
fn unit_ret(p: P) { let mut p = p; p.x = p.y; }
fn discr(e: E) -> u8 { let d = matches!(e, E::B(_)); d as u8 }
