// programs of /repo/crates/flowistry/tests/find_mutations
#![allow(warnings)]
mod t_array_mut_ptr_mutate_index {
fn main() {
  let mut x = 0;
  let mut y = [&mut x];
  *y[0] = 1;
}
}
mod t_basic_variable_reassign {
fn main() {
  let mut x = 1;
  x = 2;
}
}
mod t_mut_child_closure {
fn main() {
  let mut x = 0;
  let mut mutate_x = || {
    x += 1;
  };
  mutate_x();
}
}
mod t_mutable_function_arg {
fn update(x: &mut i32) {}
fn main() {
  let mut x = 1;
  update(&mut x);
}
}
mod t_struct_method_mutable_self {
struct Foo();
impl Foo { fn bar(&mut self) {} fn baz(&self) {} }
fn main() {
  let mut x = Foo {};
  x.bar();
  x.baz();
}
}
mod t_struct_mut_ptr_field {
fn main() {
  struct Foo<'a>(&'a mut i32);
  let mut x = 1;
  let f = Foo(&mut x);
  *f.0 += 1;
}
}
mod t_struct_mut_ptr_function {
struct Foo<'a>(&'a mut i32);
fn foo(f: Foo) {}

fn main() {
  let mut x = 0;
  let f = Foo(&mut x);
  foo(f);
}
}
mod t_struct_write_find_only_field {
fn main() {
  struct Foo { x: i32, y: i32 }
  let mut x = Foo { x: 1, y: 2 };
  x.y = 3;
  x.x = 3;
  &x.y;
}
}
mod t_struct_write_find_whole_struct {
fn main() {
  struct Foo { x: i32, y: i32 }
  let mut x = Foo { x: 1, y: 2 };
  x.y = 3;
}
}
mod t_tuple_field_mutable_ref_mutation {
fn main() {
  let mut y = 0;
  let mut x = (0, &mut y);
  x.0 += 1;
  *x.1 += 1;
}
}
mod t_tuple_field_write_find_only_field {
fn main() {
  let mut x = (0, 0);
  x.0 += 1;
  x.1 += 1;
  &x.1;
}
}
mod t_tuple_field_write_find_whole_tuple {
fn main() {
  let mut x = (0, 0);
  x.0 += 1;
}
}
mod t_update_mutable_borrow {
fn main() {
  let mut x = 1;
  let y = &mut x;
  *y += 1;
}
}
mod t_vec_mut_ptr_mutate_index {
fn main() {
  let mut x = 0;
  let mut y = 1;

  let mut z = vec![&mut x];
  z.push(&mut y);

  *z[0] += 1;
}
}
