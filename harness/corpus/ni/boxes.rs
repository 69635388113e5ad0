pub struct L { pub v: u8, pub n: Option<Box<u8>> }
fn boxed(a: u8, b: u8) -> u8 { let mut x = Box::new(a); *x = b; *x }
fn boxed_arg(x: Box<u8>, v: u8) -> u8 { let mut x = x; let o = *x; *x = v; o }
fn boxed_struct(x: Box<(u8, u8)>, v: u8) -> u8 { let mut x = x; x.0 = v; x.1 }
fn boxed_struct2(x: Box<(u8, u8)>, v: u8) -> u8 { let mut x = x; x.0 = v; x.0 }
fn unbox(x: Box<(u8, u8)>) -> u8 { let t = *x; t.0 }
fn list(l: L, d: u8) -> u8 { match l.n { Some(b) => *b, None => d } }
fn list_mut(l: &mut L, v: u8) { if let Some(b) = &mut l.n { **b = v } l.v = v ^ 1 }
fn box_swap(c: bool, a: Box<u8>, b: Box<u8>) -> u8 { let x = if c { a } else { b }; *x }
fn box_ref(x: &mut Box<u8>, v: u8) { **x = v }
fn box_replace(x: &mut Box<u8>, v: u8, c: bool) { if c { *x = Box::new(v) } }
fn box_dyn(a: u8, b: u8) -> u8 { let f: Box<dyn Fn(u8) -> u8> = Box::new(move |x| x ^ a); f(b) }
