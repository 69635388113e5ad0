pub trait T { fn set(&mut self, v: u8); fn get(&self) -> u8; }
pub struct S<'a> { pub r: &'a mut u8 }
impl T for S<'_> { fn set(&mut self, v: u8) { *self.r = v } fn get(&self) -> u8 { *self.r } }
impl T for &mut u8 { fn set(&mut self, v: u8) { **self = v } fn get(&self) -> u8 { **self } }
fn stat<X: T>(x: &mut X, v: u8) { x.set(v) }
fn stat_by_value<X: T>(mut x: X, v: u8) { x.set(v) }
fn stat_get<X: T>(x: &X) -> u8 { x.get() }
fn dynamic(x: &mut dyn T, v: u8) { x.set(v) }
fn dynamic_get(x: &dyn T) -> u8 { x.get() }
fn dyn_fn(f: &mut dyn FnMut(u8), v: u8) { f(v) }
fn imp_fn(f: &mut impl FnMut(u8), v: u8) { f(v) }
fn dyn_ref(f: &dyn Fn(u8) -> u8, v: u8) -> u8 { f(v) }
fn imp_ref(f: impl Fn(u8) -> u8, v: u8) -> u8 { f(v) }
fn boxed<'a>(f: Box<dyn FnMut(u8) + 'a>, v: u8) { let mut f = f; f(v) }
fn opt_fn(f: Option<&mut dyn FnMut(u8)>, v: u8) { if let Some(f) = f { f(v) } }
fn wrap<F: FnMut(u8)>(mut f: F, v: u8) { f(v) }
fn outer<F: FnMut(u8)>(f: F, v: u8) { wrap(f, v) }
fn o_stat(a: u8, v: u8) -> u8 { let mut x = a; { let mut s = S { r: &mut x }; stat(&mut s, v); } x }
fn o_stat_value(a: u8, v: u8) -> u8 { let mut x = a; { let s = S { r: &mut x }; stat_by_value(s, v); } x }
fn o_stat_ref(a: u8, v: u8) -> u8 { let mut x = a; stat_by_value(&mut x, v); x }
fn o_stat_get(a: u8, v: u8) -> u8 { let mut x = a; let s = S { r: &mut x }; *s.r = v; stat_get(&s) }
fn o_dynamic(a: u8, v: u8) -> u8 { let mut x = a; { let mut s = S { r: &mut x }; dynamic(&mut s, v); } x }
fn o_dynamic_get(a: u8, v: u8) -> u8 { let mut x = a; let s = S { r: &mut x }; *s.r = v; dynamic_get(&s) }
fn o_dyn_fn(a: u8, v: u8) -> u8 { let mut x = a; dyn_fn(&mut |w| x = w, v); x }
fn o_dyn_local(a: u8, v: u8) -> u8 { let mut x = a; { let mut f = |w| x = w; dyn_fn(&mut f, v); } x }
fn o_imp_fn(a: u8, v: u8) -> u8 { let mut x = a; imp_fn(&mut |w| x = w, v); x }
fn o_dyn_ref(a: u8, v: u8) -> u8 { let x = a; let f = |w: u8| w ^ x; dyn_ref(&f, v) }
fn o_imp_ref(a: u8, v: u8) -> u8 { let x = a; imp_ref(|w| w ^ x, v) }
fn o_opt_fn(a: u8, v: u8) -> u8 { let mut x = a; opt_fn(Some(&mut |w| x = w), v); x }
fn o_outer(a: u8, v: u8) -> u8 { let mut x = a; outer(|w| x = w, v); x }
fn o_boxed(a: u8, v: u8) -> u8 { let mut x = a; boxed(Box::new(|w| x = w), v); x }
struct F<'a> { f: Box<dyn FnMut(u8) + 'a> }
fn field_fn(s: &mut F<'_>, v: u8) { (s.f)(v) }
fn field_fn_value<'a>(s: F<'a>, v: u8) { let mut s = s; (s.f)(v) }
fn o_field_fn(a: u8, v: u8) -> u8 { let mut x = a; { let mut s = F { f: Box::new(|w| x = w) }; field_fn(&mut s, v); } x }
fn o_field_fn_value(a: u8, v: u8) -> u8 { let mut x = a; { let s = F { f: Box::new(|w| x = w) }; field_fn_value(s, v); } x }
