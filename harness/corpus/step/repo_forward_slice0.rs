// programs of /repo/crates/flowistry/tests/forward_slice
#![allow(warnings)]
mod t_basic_slice_constant {
fn main() {
  let mut x = 1;
  let y = x + 2;
  let z = y;
}
}
mod t_basic_slice_variable {
fn main() {
  let mut x = 1;
  let y = x + 2;
  let z = y;
}
}
mod t_basic_unused {
fn main() {
  let x = 1;
  let y = 1 + 2;
  let z = x + y;
}
}
mod t_basic_update {
fn main() {
  let mut x = 1;
  x += 1;
  let y = x;
}
}
mod t_condition {
fn main() {
  let x = 1;
  let y = 2;
  let z = if true {
    x
  } else {
    y
  };
  let w = z;
}
}
mod t_const_item {
fn foo() { 
  const FOO: &str = "bar";
  let x = FOO;
}
}
mod t_control_dependent_param {
fn foo(x: i32) {
  let y = match x {
    0 => 0,
    _ => 1
  };
}
}
mod t_control_dependent_simple {
fn main() {
  let x = 1;
  let y = match x {
    0 => 0,
    _ => 1
  };
  let z = y;
}
}
mod t_function_params {
fn foo(x: i32) {
  let y = x + 1;
  let z = y;
}
fn main() {}
}
mod t_match_discriminant {
fn main() {
  let x = 1;
  let y = match x {
    0 => 0,
    _ => 1
  };
}
}
mod t_match_one_branch {
fn main() {
  let x = 1;
  let y = match x {
    _ => 0
  };
  let z = y;
}
}
mod t_pointer_deep {
fn foo() {
  let x = 1;
  let y = &&&x;
  let a = ***y;
}
}
mod t_pointer_write {
fn main() {
  let mut x = 1;
  let y = &mut x;
  *y += 2;
}
}
mod t_projection_basic {
fn bar(x: (i32, i32)) {
  let y = x.0;
}
}
mod t_return_keyword {
fn ok() -> i32 {
  let x = 1;
  return x;
}
}
mod t_static_method {
struct Foo;
impl Foo {
  fn bar() -> i32 { 0 }
}

fn ok() {
  let x = Foo::bar();
  let y = x;
}
}
mod t_struct_param {
struct Point(i32, i32);
fn foo(p: &mut Point) {
  p.0 += 1;
}
fn main() {}
}
mod t_struct_pointers_deep {
struct A(i32);
struct B<'a>(&'a A);
struct C<'a, 'b>(&'b B<'a>);
struct D<'a, 'b, 'c>(&'c C<'a, 'b>);

fn foo() {
  let x = D(&C(&B(&A(0))));
  let y = x.0.0.0.0 + 1;
}

}
mod t_time_calculation {
use std::time::Instant;
fn run_expensive_calculation(){}
fn main() {
  let start = Instant::now();
  run_expensive_calculation();
  let elapsed = start.elapsed();
  println!("Elapsed: {}s", elapsed.as_secs());
}
}
mod t_tuple_mutate_field {
struct Foo(usize, usize);
fn main() {
  let a = 1;
  let b = 2;
  let mut x = Foo(a, b);
  x.0 += 1;
  let z = x.0;
}
}
