pub struct P { pub k: u8, pub b: bool, pub o: Option<u8> }
pub enum E { A(u8), B { x: u8, y: bool }, C }
pub fn on_pointee(r: &u8) -> u8 { let mut x = 0; match *r { 0 => x = 1, _ => {} } x }
pub fn on_field(p: P) -> u8 { let mut x = 0; match p.k { 0 => x = 1, 7 => x = 2, _ => {} } x }
pub fn on_ref_field(p: &P) -> u8 { let mut x = 0; if p.b { x = 1 } x }
pub fn on_mut_field(p: &mut P, c: bool) -> u8 { p.b = c; let mut x = 0; if p.b { x = 1 } else { p.k = 3 } x }
pub fn on_tuple(t: (bool, u8), u: &(u8, bool)) -> (u8, u8) { let (mut x, mut y) = (0, 0); if t.0 { x = 1 } if u.1 { y = 2 } (x, y) }
pub fn on_box(b: Box<bool>) -> u8 { let mut x = 0; if *b { x = 1 } x }
pub fn on_double(r: &&bool, s: &&mut bool) -> u8 { let mut x = 0; if **r { x = 1 } if **s { x ^= 2 } x }
pub fn on_array(a: [bool; 2], i: usize) -> u8 { let mut x = 0; if a[0] { x = 1 } if i < 2 && a[i] { x ^= 2 } x }
pub fn on_opt_field(p: P) -> u8 { match p.o { Some(v) => v, None => p.k } }
pub fn on_enum(e: E, w: u8) -> u8 { match e { E::A(v) => v, E::B { x, y } => if y { x } else { w }, E::C => 3 } }
pub fn on_enum_ref(e: &E, w: u8) -> u8 { match e { E::A(v) => *v, E::B { x, y } => if *y { *x } else { w }, E::C => 3 } }
pub fn on_enum_mut(e: &mut E, w: u8) { match e { E::A(v) => *v = w, E::B { x, y } => if *y { *x = w }, E::C => *e = E::A(w) } }
pub fn guard(o: Option<u8>, w: u8, p: &P) -> u8 { match o { Some(v) if v < w => 1, Some(v) if p.b => v, Some(_) => 2, None => 3 } }
pub fn nested(o: Option<Option<u8>>) -> u8 { match o { Some(Some(0)) => 1, Some(Some(v)) => v, Some(None) => 2, None => 3 } }
pub fn letelse(o: &Option<u8>, d: &mut u8) -> u8 { let Some(v) = o else { *d = 9; return 0 }; *d = *v; 1 }
pub fn ranges(x: &u8) -> u8 { match *x { 0..=9 => 1, 10 | 12 => 2, _ => 3 } }
pub fn pair(a: Option<u8>, b: Option<u8>) -> u8 { match (a, b) { (Some(x), Some(y)) => x ^ y, (Some(x), None) => x, (None, Some(y)) => y, _ => 0 } }
pub fn whilelet(mut o: Option<u8>, s: &mut u8) { while let Some(v) = o { *s ^= v; o = if v > 3 { None } else { Some(v + 1) }; } }
pub fn labelled(n: u8, k: &u8) -> u8 { let mut r = 0; 'a: loop { let mut i = 0u8; loop { if i == *k { break 'a } if i == n { break } i += 1; } r += 1; if r > 2 { break } } r }
pub fn short(a: &bool, b: &bool, c: bool) -> u8 { if *a && (*b || c) { 1 } else { 2 } }
pub fn ret_in_match(o: Option<u8>, d: &mut u8) -> u8 { let v = match o { Some(0) => return 7, Some(v) => v, None => { *d = 1; return 8 } }; *d = v; v }
