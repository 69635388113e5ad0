// programs of /repo/crates/flowistry/tests/extensions
#![allow(warnings)]
mod t_conservative_i32_mut_ptr {
/* conservative */
fn main() {
  let mut x = 1;
  let mut y = 2;
  let a = &mut x;
  let b = &mut y;
  *a += 1;
  y;
}
}
mod t_ignoremut_simple {
/* ignoremut */
fn other(x: &i32) {}
fn main() {
  let x = 1;
  other(&x);
  x;
}
}
mod t_recurse_cache {
/* recurse */
// TODO: ideally we could actually verify that the flow for ok is only computed once?

fn ok(x: &i32) {}

fn main() {
  let x = 1;
  ok(&x);
  ok(&x);
  x;
}
}
mod t_recurse_child_privacy {
/* recurse */
mod foo {
  pub struct Foo(i32);
  pub fn new() -> Foo { Foo(0) }
  pub fn ok(f: &mut Foo) { f.0 = 1; }
}  

fn main() {
  let mut f = foo::new();
  foo::ok(&mut f);
  f;
}
}
mod t_recurse_no_definition {
/* recurse */
fn main() {
  let mut v = vec![0];
  v.get_mut(0);
  v;
}
}
mod t_recurse_not_all_args {
/* recurse */
fn other(x: &mut i32, y: i32, z: i32) { *x += y; }
fn main() {
  let mut x = 1;
  let y = 1;
  let z = 1;
  other(&mut x, y, z);
  x;
}
}
mod t_recurse_parent_privacy {
/* recurse */
mod bar {
  pub fn whee(f: &mut super::foo::Foo) {
    super::foo::ok(f);
  }
} 

mod foo {
  pub struct Foo(i32);
  pub fn new() -> Foo { Foo(0) }
  pub fn ok(f: &mut Foo) { f.0 = 1; }
  pub fn test() {
    let mut f = Foo(0);
    super::bar::whee(&mut f);
    f;
  }
}  

fn main() {}
}
mod t_recurse_project_dst {
/* recurse */
// TODO: other(&mut x) should be excluded from the slice.
  // this was originally done via
  //   all_aliases.aliases.row_set(mutated).unwrap().to_owned()
  // in apply_mutation

fn other(x: &mut (i32, i32)) { (*x).0 = 1; }
fn main() {
  let mut x = (0, 0);
  other(&mut x);
  x.1;
}
}
mod t_recurse_project_src {
/* recurse */
// TODO: y.1 += 1 shouldn't be part of the slice
  //  see tuple_copy test

fn other(x: &mut i32, y: (i32, i32)) { *x += y.0; }
fn main() {
  let mut x = 1;
  let mut y = (0, 0);
  y.0 += 1;
  y.1 += 1;
  other(&mut x, y);
  x;
}
}
mod t_recurse_recursive {
/* recurse */
fn foobar(x: &mut i32) -> i32 {
  foobar(x) - 1
}

fn main() {
  let mut x = 1;
  foobar(&mut x);
  x;
}
}
mod t_recurse_return {
/* recurse */
fn ok(x: i32, y: i32) -> i32 { x }

fn main() {
  let x = 1;
  let y = 1;
  let z = ok(x, y);
  z;  
}
}
mod t_recurse_return_field_sensitive {
/* recurse */
fn mk(x: i32, y: i32) -> (i32, i32) { (x, y) }
fn main() {
  let x = 0;
  let y = 1;
  let t = mk(x, y);
  t.0;
}
}
mod t_recurse_simple {
/* recurse */
fn other(x: &mut i32) -> i32 { *x }
fn main() {
  let mut x = 1;
  let y = other(&mut x);
  x;
}
}
