fn arr_set(a: [u8; 2], i: usize, v: u8) -> [u8; 2] { let mut a = a; if i < 2 { a[i] = v } a }
fn arr_get(a: [u8; 2], i: usize) -> u8 { if i < 2 { a[i] } else { 0 } }
fn arr_const(a: [u8; 3], v: u8) -> u8 { let mut a = a; a[0] = v; a[1] }
fn arr_lit(x: u8, y: u8) -> u8 { let a = [x, y, 1]; a[1] }
fn arr_loop(a: [u8; 2]) -> u8 { let mut s = 0u8; let mut i = 0; while i < 2 { s ^= a[i]; i += 1; } s }
fn slice_get(s: &[u8], i: usize) -> u8 { if i < s.len() { s[i] } else { 0 } }
fn slice_set(s: &mut [u8], i: usize, v: u8) { if i < s.len() { s[i] = v } }
fn slice_first(s: &[u8], d: u8) -> u8 { if s.len() == 0 { d } else { s[0] } }
fn slice_pat(s: &[u8], d: u8) -> u8 { match s { [] => d, [x] => *x, [x, .., y] => *x ^ *y } }
fn arr_ref(a: [u8; 2], i: usize, v: u8) -> u8 { let mut a = a; if i < 2 { let r = &mut a[i]; *r = v; } a[0] }
fn arr_struct(a: [(u8, u8); 2], i: usize, v: u8) -> (u8, u8) { let mut a = a; if i < 2 { a[i].0 = v } a[1] }
fn arr_two(a: [[u8; 2]; 2], i: usize, j: usize, v: u8) -> u8 { let mut a = a; if i < 2 && j < 2 { a[i][j] = v } a[0][1] }
fn arr_repeat(v: u8, i: usize) -> u8 { let mut a = [v; 2]; if i < 2 { a[i] = 0 } a[0] }
fn idx(i: usize) -> usize { i & 1 }
fn arr_call(a: [u8; 2], i: usize, v: u8) -> [u8; 2] { let mut a = a; a[idx(i)] = v; a }
fn arr_pat(a: [u8; 3]) -> u8 { let [x, .., z] = a; x ^ z }
fn arr_copy(a: [u8; 2], v: u8) -> u8 { let mut b = a; b[0] = v; a[0] ^ b[1] }
fn arr_swap(a: &mut [u8; 2], i: usize, j: usize) { if i < 2 && j < 2 { let t = a[i]; a[i] = a[j]; a[j] = t; } }
fn slice_len(s: &[u8], a: u8) -> usize { let _ = a; s.len() }
#[derive(Clone, Copy)] pub struct Q { pub x: u8, pub y: u8 }
fn arr_put(a: [Q; 2], q: Q, i: usize) -> u8 { let mut a = a; if i < 2 { a[i] = q } a[0].y }
fn arr_take(a: [Q; 2], i: usize) -> u8 { let q = a[i & 1]; q.x }
fn arr_move(a: &mut [Q; 2], i: usize, j: usize) { a[i & 1] = a[j & 1] }
