extern crate flowistry_ifc_traits;
use flowistry_ifc_traits::{Insecure, InsecureString, Secure};
struct Secret(u8);
impl Secure for Secret {}
struct Leak { x: u8, y: u8 }
impl Insecure for Leak {}
struct Pair { s: Secret, l: Leak, n: u8 }
enum Kind { S(Secret), L(Leak), N }

fn value(s: Secret, l: Leak, n: u8) -> u8 { n }
fn reference(s: &Secret, l: Leak) -> u8 { l.x }
fn reference2(s: &&Secret, l: Leak) -> u8 { l.x }
fn mutable(s: &mut Secret, l: Leak) -> u8 { l.x }
fn behind(s: Secret, l: &mut Leak) { l.x = s.0; }
fn returned(s: Secret) -> Leak { Leak { x: s.0, y: 0 } }
fn early(s: Secret, l: Leak, c: bool) -> u8 { if c { return s.0; } l.x }
fn loops(s: Secret, l: Leak, n: u8) -> u8 { let mut i = 0; while i < n { if i == 7 { return l.y; } i += 1; } s.0 }
fn diverges(s: Secret, l: Leak) -> ! { loop {} }
fn panics(s: Secret, l: Leak) -> ! { panic!() }
fn nested(p: Pair) -> u8 { p.n }
fn nested_tuple(p: (Secret, (u8, Leak))) -> u8 { (p.1).0 }
fn tuple_two(p: (Secret, Leak), q: (Leak, Secret)) -> u8 { p.1.x ^ q.0.x }
fn kinds(k: Kind) -> u8 { match k { Kind::S(s) => s.0, Kind::L(l) => l.x, Kind::N => 0 } }
fn option(o: Option<Secret>, l: Option<Leak>) -> bool { o.is_some() ^ l.is_some() }
fn boxed(s: Box<Secret>, l: Box<Leak>) -> u8 { s.0 ^ l.x }
fn only_secure(s: Secret, n: u8) -> u8 { s.0 ^ n }
fn only_insecure(l: Leak, n: u8) -> u8 { l.x ^ n }
fn neither(n: u8) -> u8 { n }
fn two_secure(s: Secret, t: Secret, l: Leak) -> u8 { l.x }
fn two_insecure(s: Secret, l: Leak, m: InsecureString) -> u8 { l.x }
fn string(s: Secret, m: InsecureString) -> InsecureString { m }
fn generic<T: Secure, U: Insecure, V>(s: T, l: U, v: V) -> V { v }
fn generic_ref<'a, T: Secure>(s: &'a T, l: Leak) -> &'a T { s }
fn locals(n: u8) -> u8 { let s = Secret(n); let l = Leak { x: n, y: 1 }; s.0 ^ l.x }
fn unused(c: bool) -> u8 { let s: Secret; let l = Leak { x: 1, y: 2 }; if c { s = Secret(1); drop(s); } l.x }
fn dead(c: bool, l: Leak) -> u8 { if c { let s = Secret(3); die(s) } l.x }
fn die(s: Secret) -> ! { panic!() }
fn array(s: [Secret; 1], l: [Leak; 1]) -> u8 { s[0].0 ^ l[0].x }
fn closure(s: Secret, l: Leak) -> u8 { let f = || s.0; f() ^ l.x }
fn closure_mut(s: Secret, mut l: Leak) -> u8 { let mut f = || l.x = s.0; f(); l.y }
impl Secret { fn get(&self, l: Leak) -> u8 { self.0 ^ l.x } }
fn in_closure(n: u8) -> u8 { let f = |n: u8| { let s = Secret(n); let l = Leak { x: n, y: 1 }; s.0 ^ l.x }; f(n) }
fn in_closure_twice(n: u8) -> u8 { let f = || { let g = |s: Secret, l: Leak| s.0 ^ l.x; g(Secret(n), Leak { x: n, y: 1 }) }; f() }
fn in_item(n: u8) -> u8 { fn inner(s: Secret, l: Leak) -> u8 { s.0 ^ l.x } n }
trait Both { fn both(&self, s: Secret, l: Leak) -> u8 { s.0 ^ l.x } fn none(&self, s: Secret, l: Leak) -> u8; }
impl Both for u8 { fn none(&self, s: Secret, l: Leak) -> u8 { l.y } }
mod inner { pub fn deep(s: super::Secret, l: super::Leak) -> u8 { l.x } }
