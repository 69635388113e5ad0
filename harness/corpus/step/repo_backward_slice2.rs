// programs of /repo/crates/flowistry/tests/backward_slice
#![allow(warnings)]
mod t_pointer_increment {
fn main() {
  let mut x = 1;
  let y = &mut x;
  *y += 1;
  x;
}
}
mod t_pointer_multiple_locations {
fn main() {
  let mut x = 1;
  let mut y = 2;
  let z = if true {
    &mut x
  } else {
    &mut y
  };
  *z += 1;
  x;
}
}
mod t_pointer_mutate_field {
fn main() {
  let mut x = (1,);
  let mut y = &mut x;
  (*y).0 = 2;
  x;
}
}
mod t_pointer_mutate_pointer {
fn main() {
  let mut x = 1;
  let mut y = 1;
  let mut a = &mut x;
  let b = &mut a;
  *b = &mut y;
  **b = 2;
  y;
}
}
mod t_pointer_nested {
fn main() {
  let mut x = 1;
  let mut y = &mut x;
  let z = &mut y;
  **z = 2;
  x;
}
}
mod t_pointer_read {
fn main() {
  let x = 1;
  let y = &x;
  let z = *y + 1;
  z;
}
}
mod t_pointer_reborrow {
fn main() {
  let mut x = 1;
  let mut y = &mut x;
  let z = &mut *y;
  *z = 2;
  x;
}
}
mod t_pointer_reborrow_nested {
fn main() {
  let mut x: i32 = 1;
  let mut y = &mut x;
  let z = &mut y;
  let w = &mut **z;
  *w = 2;
  *y;
}
}
mod t_pointer_slice_includes_deref {
fn main() {
  let mut x = 1;
  let y = &mut x;
  *y = 1;
  y;
}
}
mod t_pointer_slice_outer {
fn main() {
  let mut y = &mut 0;
  *y = 1;
  let z = &y;
}
}
mod t_pointer_write {
fn main() {
  let mut x = 1;
  let y = &mut x;
  *y = 1;
  x;
}
}
mod t_return_ty {
fn foo(x: i32) -> Option<i32> {
  let y = 1;
  if x > 0 {
    return None;
  }
  
  let z = 2;
  return Some(z);
}
}
mod t_self_multicall_independent {
use std::ops::AddAssign;
struct Foo(i32, i32);
impl Foo {
  fn foo(&mut self) {
    let x = self.0.abs();
    if self.1 == 0 {
      self.1.add_assign(x);
      &self.0;
    }
  }
}
}
mod t_self_read_independent {
struct Foo(i32, i32);
impl Foo {
  fn foo(&mut self) {
    self.0 += 1;
    self.1 += 1;
    let x = self.1;
    x;
  }
}
}
mod t_self_write_independent {
struct Foo(i32, i32);
impl Foo {
  fn foo(&mut self) {
    let x = 1;
    let y = 2;
    self.0 = x;
    self.1 = y;
    self.1;
  }
}
}
mod t_slice_ptr_elem_write {
fn main() {
  let mut x = 1;
  let y = [&mut x];
  *y[0] = 0;
  x;
}
}
mod t_slice_write {
fn main() {
  let mut x = [0u8; 2];
  let y = &mut x[..1];
  y[0] = 0;
  x;
}
}
mod t_str_static_lifetime {
fn main() {
  let mut x = "a";
  x = "b";
  print!("c");
  x;
}
}
mod t_string_drop_and_replace {
fn main() {
  let mut x = String::new();
  x = String::new();
  x;
}
}
mod t_strong_update_conditional {
fn main() {
  let mut x = 1;
  x = 1;
  let mut y = 2;
  let z = if true { &mut x } else { &mut y };
  *z += 1;
  x;
}
}
mod t_struct_field_independence {
struct Point { x: i32, y: i32 }
fn main() {
  let x = 1;
  let y = 2;
  let p = Point { x, y };
  p.x;
}
}
mod t_struct_field_independence_heap {
struct Point { x: String, y: String }
fn main() {
  let x = String::new();
  let y = String::new();
  let p = Point { x, y };
  &p.x;
}
}
mod t_struct_mut_ptr_1 {
fn main() {
  struct Foo<'a>(&'a mut i32);
  let mut x = 1;
  let f = Foo(&mut x);
  *f.0 += 1;
  x;
}
}
mod t_struct_mut_ptr_function {
struct Foo<'a>(&'a mut i32);
fn foo(f: Foo) {}

fn main() {
  let mut x = 0;
  let f = Foo(&mut x);
  foo(f);
  x;
}
}
mod t_struct_read_constant {
fn main() {
  struct Foo(i32, i32);
  let a = 1;
  let z = Foo(a, 2);
  z.1;
}
}
mod t_struct_write {
fn main() {
  struct Foo { x: i32, y: i32 }
  let mut x = Foo { x: 1, y: 2 };
  x.y = 3;
  x;
}
}
mod t_trait_method {
trait Foo {
  fn bar(&self, x: i32) {
    let mut y = x + 1;
    y -= 1;
    y;
  }
}
}
mod t_tuple_copy {
// TODO: y.1 shoudn't be part of the slice
  //   the issue is that when we do z = y, then the collected influence of y
  //   is broadcast into every conflicting place in z. So y.1 -> z -> z.0.
  //   we need something to "match up" influences so y.1 only flows to z.1

fn main() {
  let mut x = 1;
  let mut y = (0, 0);
  y.1 += 1;
  let z = y;
  x += z.0;
  x;
}
}
mod t_tuple_field_independence_owned {
// shouldn't include line 1 b/c x.1 isn't relevant

fn main() {
  let mut x = (0, 1);
  x.0 += 1;
  x.1 += 1;
  x.0;
}
}
mod t_tuple_field_independence_ref {
fn main() {
  let mut x = &mut (0, 1);
  x.0 += 1;
  x.1 += 1;
  x.0;
}
}
mod t_tuple_field_independence_ref2 {
fn main() {
  let mut x = &mut (0, 1);
  x.0 += 1;
  x.1 += 1;
  x.1;
}
}
mod t_tuple_field_sensitive_constructor {
fn main() {
  let x = 0;
  let y = 1;
  let t = (x, y);
  t.0;
}
}
