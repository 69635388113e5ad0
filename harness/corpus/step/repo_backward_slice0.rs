// programs of /repo/crates/flowistry/tests/backward_slice
#![allow(warnings)]
mod t_array_read {
fn main() {
  let x = [0; 1];
  let y = x[0];
  y;
}
}
mod t_array_write {
fn main() {
  let mut x = [0; 1];
  x[0] = 2;
  x;
}
}
mod t_async_simple {
async fn foobar(x: &mut i32) -> i32 { 0 }
async fn test() {
  let mut x = 1;
  foobar(&mut x).await;
  x;
}
fn main() {}
}
mod t_async_two_await {
async fn bar() -> i32 { 0 }
async fn foo() {
    let a = bar().await;
    let b = bar().await;
}
fn main(){}
}
mod t_box_move {
fn main() {
  let mut y = Box::new(0);
  *y = 1;
  let w = y;
  let z = *w;
}
}
mod t_box_write {
fn main() {
  let mut y = Box::new(0);
  *y = 1;
  y;
}
}
mod t_closure_read_upvar {
fn main() {
  let mut x = 1;
  let f = || { x + 1; };
  f();
  x;
}
}
mod t_closure_slice_inner_write_inner {
fn main() {
  let x = 1;
  (|| {
    let y = 1;
    let z = 2;
    y;
  })();
}
}
mod t_closure_slice_inner_write_outer {
fn main() {
  let mut x = 1;
  (|| {
    x += 1;
    x;
  })();
}
}
mod t_closure_write_upvar {
fn main() {
  let mut x = 1;
  let mut f = || { x += 1; };
  f();
  x;
}
}
mod t_early_return_drop {
fn main() {
  let s = String::new();
  if true {
    return;
  }

  let x = 1;
}
}
mod t_early_return_option {
fn foo(y: Option<i32>) -> Option<i32> {
  y?;

  let x = Some(1);
  x
}
}
mod t_early_return_simple {
fn main() -> i32 {
  if true {
    return 0;
  }

  let x = 1;
  let y = x;
  y
}
}
mod t_enum_write_branch_read_branch {
// Foo::Y code should be irrelevant

fn main() {
  enum Foo { X(i32), Y(i32) }
  let mut x = Foo::X(1);
  if let Foo::X(z) = &mut x {
    *z += 1;
  }
  if let Foo::Y(z) = &mut x {
    *z += 1;
  }
  if let Foo::X(z) = x {
    z;
  }
}
}
mod t_enum_write_branch_read_whole {
// Both if-lets should be relevant

fn main() {
  enum Foo { X(i32), Y(i32) }
  let mut x = Foo::X(1);
  if let Foo::X(z) = &mut x {
    *z += 1;
  }
  if let Foo::Y(z) = &mut x {
    *z += 1;
  }
  x;
}
}
mod t_forloop_some_relevant {
fn main() {
  let mut i = 0;
  let mut j = 0;
  for x in [0] {
    i += x;
    j += x;
  } 
  i;
}
}
mod t_function_arg_pattern {
struct Foo(i32, i32);
fn bar(Foo(x, y): Foo) {
  let a = x;
  let b = y;
  b; 
}
}
mod t_function_lifetime_alias_mut {
fn foo<'a>(x: &'a mut i32, y: &'a i32) {
  let z = x;
  *z = 1;
  *y;
}

fn main() {}
}
mod t_function_mut_ptr_param {
fn foo(x: &mut i32) {
  *x = 2;
  let y = *x;
  y;
}

fn main() {}
}
mod t_function_mut_ptr_param_field {
fn foo(x: (&mut i32,)) {
  *x.0 = 2;
  let y = *x.0;
  y;
}

fn main() {}
}
mod t_function_param {
fn foo(x: i32) {
  let y = x + 1;
  y;
}
}
mod t_function_param_field_independence {
fn foo(x: &mut (i32, i32)) {
  x.0 += 1;
  x.1 += 1;
  x.0;
}

fn main() {}
}
mod t_function_ref_in_ret {
fn foo(x: (&mut i32,)) -> (&mut i32,) {
  *x.0 = 1;
  x
}
fn main() {}
}
mod t_function_ret {
fn foo(x: i32) -> i32 {
  x
}

fn main() {}
}
mod t_function_ret_not_sliced {
fn foo(x: i32) -> i32 {
  print!("{}", x);
  let y = 1;
  y
}
fn main() {}
}
mod t_generic_param {
fn main() {}

fn foo<T>(t: T) {
  let x = t;
  x;
}
}
mod t_hashset_union {
use std::collections::HashSet;
fn union(set: &mut HashSet<i32>, other: &HashSet<i32>) -> bool {
  let orig_len = set.len();
  for el in other {
    set.insert(*el);
  }
  let final_len = set.len();
  return orig_len != final_len;
}
}
mod t_if_all_paths_irrelevant {
fn main() {
  let x = 1;
  let y = if true { 1 } else { 2 };
  x;
}
}
mod t_if_both_paths_relevant {
fn main() {
  let x = if true {
    1
  } else {
    2
  };
  x;
}
}
mod t_if_one_path_relevant {
fn main() {
  let mut x = 1;
  let mut y = 2;
  if true {
    x = 3;
  } else {
    y = x;
  }
  x;
}
}
mod t_if_slice_in_branch {
fn main() {
  let a = 1;
  let b = 2;
  if a > 0 {
    let c = 3;
  }
}
}
mod t_if_test {
fn main() {
  let y = 1;
  let x = if y > 0 {
    if false { return; }
    1
  } else {
    2
  };
  x;
}
}
