fn seq(a: u8, b: u8) -> u8 { let mut x = a; let y = b; x ^= 3; let _z = x & y; x }
fn cond(c: bool, a: u8, b: u8) -> u8 { let x; if c { x = a } else { x = b } x }
fn cond_side(c: bool, a: u8) -> u8 { let mut x = a; let mut y = 0; if c { y = x; x = 1; } let _ = y; x }
fn nested(c: bool, d: bool, a: u8, b: u8) -> u8 {
  let mut x = 0u8; let mut y = b;
  if c { if d { x = a; } else { y = a; } } else if d { y ^= 1; }
  let _ = y; x
}
fn early(c: bool, a: u8, b: u8) -> u8 { if c { return a } let x = a ^ b; if x == 3 { return b } x }
fn early_void(c: bool, d: bool, x: &mut u8, y: &mut u8) { *x = 1; if c { return } *y = 2; if d { *x = 3; return } *x = 4; }
fn flag_then(a: u8, b: u8) -> u8 { let mut done = false; let mut x = 0; if a == 1 { done = true } if !done { x = b } x }
fn lazy_and(a: bool, b: bool, x: u8) -> u8 { if a && b { x } else { 0 } }
fn lazy_or(a: bool, b: bool, x: u8) -> u8 { let y = if a || b { 1 } else { x }; y }
fn matching(n: u8, a: u8, b: u8) -> u8 { match n { 0 => a, 1 | 2 => b, 7..=9 => a ^ b, _ => 0 } }
fn guard(n: u8, a: u8, b: u8) -> u8 { match n { x if x == a => b, 1 => 0, _ => n } }
fn while_loop(n: u8, a: u8) -> u8 { let mut i = 0u8; let mut x = a; let mut y = 0u8; while i < n { x ^= i; y = x; i += 1; } let _ = y; x }
fn loop_break(n: u8, k: u8) -> u8 { let mut i = 0u8; let mut r = 0; loop { if i == n { break } if i == k { r = 1; break } i += 1; } r }
fn loop_continue(n: u8, k: u8) -> u8 { let mut i = 0u8; let mut s = 0u8; let mut t = 0u8; while i < n { i += 1; if i == k { continue } s = i; t ^= 1; } let _ = t; s }
fn shadow(a: u8, b: u8) -> u8 { let x = a; let x = x ^ 1; { let x = b; let _ = x; } x }
fn swap_chain(n: u8, a: u8, b: u8, c: u8) -> u8 { let mut i = 0u8; let (mut x, mut y, mut z) = (a, b, c); while i < n { let t = x; x = y; y = z; z = t; i += 1; } let _ = (y, z); x }
fn ctrl_after_loop(n: u8, a: u8) -> u8 { let mut i = 0u8; while i < n { i += 1; } let mut x = 0; if i == 2 { x = a } x }
fn two_loops(n: u8, m: u8) -> u8 { let mut i = 0u8; let mut j = 0u8; while i < n { i += 1 } while j < m { j += 1 } j }
fn labelled(n: u8, k: u8) -> u8 { let mut r = 0u8; 'o: loop { loop { if r == n { break 'o } if r == k { break } r += 1; } if k == n { break } r = n; } r }
fn let_else(n: u8, a: u8) -> u8 { let 1 = n else { return 0 }; a }
fn overwrite(a: u8, b: u8) -> u8 { let mut x = a; x = b; x }
fn overwrite_cond(c: bool, a: u8, b: u8, d: u8) -> u8 { let mut x = a; if c { x = b; } x = d; x }
fn assert_like(a: u8, b: u8) -> u8 { let x = a; if b == 0 { panic!() } x }
fn implicit(c: bool) -> u8 { let mut x = 1; let mut y = 0; if c { y = 1 } if y == 0 { x = 0 } x }
fn dead_branch(a: u8, c: bool) -> u8 { let mut x = a; if c { x = a } x }
fn casts(a: u16, b: i8) -> u32 { let x = a as u8 as u32; let y = b as i32; let _ = y; x }
fn bits(a: u8, b: u8) -> (u8, u8) { let x = a << 1; let y = b >> 1; (x, !y) }
fn cmps(a: i8, b: i8, c: i8) -> (bool, bool) { (a < b, b >= c) }
fn tern(n: u8, a: &mut u8, b: &mut u8) { match n { 0 => *a = 1, 1 => *b = 1, 2 => { *a = 2; *b = 2 } _ => {} } }
