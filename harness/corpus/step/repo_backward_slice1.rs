// programs of /repo/crates/flowistry/tests/backward_slice
#![allow(warnings)]
mod t_interior_mutability_not_observable {
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
  let x = Rc::new(RefCell::new(0));
  let y = x.clone();
  *y.borrow_mut() = 1;
  x;
}
}
mod t_interior_mutability_observable {
use std::cell::RefCell;
fn main() {
  let x = RefCell::new(0);
  *x.borrow_mut() = 1;
  x;
}
}
mod t_interprocedural_field_independence {
use std::ops::AddAssign;
struct Foo(i32, i32);
impl Foo {
  fn bar(&mut self) {
    self.0.add_assign(0);
    self.1;
  }
}

fn main() {}
}
mod t_interprocedural_input {
fn foo(x: i32) -> i32 { x }

fn main() {
  let mut x = 1;
  let y = 2;
  x += foo(y);
  x;
}
}
mod t_interprocedural_mut_input {
// y should be relevant b/c it could be involved in computation of x

fn foo(x: &mut i32, y: i32) {}

fn main() {
  let mut x = 1;
  let y = 2;
  foo(&mut x, y);
  x;
}
}
mod t_interprocedural_mut_input_field {
fn foo(x: (&mut i32,)) {}

fn main() {
  let mut x = 1;
  foo((&mut x,));
  x;
}
}
mod t_interprocedural_mut_input_irrelevant {
fn foo(x: &mut i32) {}

fn main() {
  let mut x = 1;
  let mut y = 2;
  foo(&mut y);
  x;
}
}
mod t_interprocedural_mut_input_whole {
fn write(t: &mut (i32, i32)) {}

fn main() {
  let mut x = (1, 2);
  write(&mut x);
  x.0;
}
}
mod t_interprocedural_mut_output {
fn foo(x: &mut i32) -> &mut i32 { x }

fn main() {
  let mut x = 1;
  let y = foo(&mut x);
  *y += 2;
  x;
}
}
mod t_interprocedural_mut_output_field_read_field {
// Should conservatively assume returned value could be any field

fn foo(x: &mut (i32, i32)) -> &mut i32 { &mut x.0 }

fn main() {
  let mut x = (0, 1);
  let y = foo(&mut x);
  *y += 1;
  x.1;
}
}
mod t_interprocedural_mut_output_field_read_whole {
fn foo(x: &mut (i32, i32)) -> &mut i32 { &mut x.0 }

fn main() {
  let mut x = (0, 1);
  let y = foo(&mut x);
  *y += 1;
  x;
}
}
mod t_interprocedural_mut_output_lifetimes {
fn foo<'a, 'b>(x: &'a mut i32, y: &'b mut i32) -> &'b mut i32 { y }

fn main() {
  let mut x = 1;
  let mut y = 2;
  let z = foo(&mut x, &mut y);
  *z += 1;
  x;
}
}
mod t_interprocedural_mut_output_lifetimes_outlives {
fn foo<'a, 'b: 'a>(x: &'a mut i32, y: &'b mut i32) -> &'a mut i32 { x }

fn main() {
  let mut x = 1;
  let mut y = 2;
  let z = foo(&mut x, &mut y);
  *z += 1;
  y;
}
}
mod t_interprocedural_output {
fn foo() -> i32 { 1 }

fn main() {
  let mut x = 1;
  x += foo();
  x;
}
}
mod t_interprocedural_ref_input {
// call should be irrelevant b/c x can only be read

fn foo(x: &i32) {}

fn main() {
  let mut x = 1;
  foo(&x);
  x;
}
}
mod t_interprocedural_ref_output {
fn foo(x: &i32) -> &i32 { x }

fn main() {
  let mut x = 1;
  let y = foo(&x);
  let z = *y;
  z;
}
}
mod t_issue_54 {
fn main() {
    let mut v: Vec<&str> = vec![];
    v.sort_by_key(|x| x.len());
    v;
}
}
mod t_iter_foreach {
fn foo() -> usize {
  let mut x = 0;
  std::iter::once(&mut x).for_each(|y| *y += 1);
  return x;
}
}
mod t_loop_break {
fn main() {
  let mut x = 0;
  loop {
    if x == 10 {
      break;
    }
    x += 1;
  }
  x;
}
}
mod t_loop_counter {
use std::io;

fn main() {
  let mut buffer = String::new();
  let stdin = io::stdin();

  let mut total = 0;
  loop {
    let input = {
      buffer.clear();
      stdin.read_line(&mut buffer).unwrap();
      buffer.trim()
    };

    if input == "exit" {
      break;
    }

    let n = input.parse::<i32>().unwrap();
    println!("Read: {}", n);
    total += n;
  }

  println!("{:?}", total);
}
}
mod t_macro_print {
fn main() {
  let x = 1;
  println!("{}", x);
  x;
}
}
mod t_macro_read {
fn main() {
  let x = vec![1, 2, 3];
  x;
}
}
mod t_macro_rules {
macro_rules! foo {
  ($e:expr) => { $e } 
}

fn test() {
  let x = 1;
  let y = foo!(x);
}


}
mod t_match_branch {
fn main() {
    let x = 1;
    match x {
      x if x > 0 => 3,
      _ => {
        let y = x;
        y
      }
    };
  }
}
mod t_match_early_return {
fn foo() -> usize {
 let x = match 0 {
   0 => 1,
   1 => 2,
   _ => { return 3; }
 };
 x
}
}
mod t_match_simple {
fn main() {
  let x = 1;
  let y = match Some(x) {
    None => 1,
    Some(x) => x,
  };
  y;
}
}
mod t_match_string {
fn foo(s: &str) {
 let x = match s {
   "a" => 1,
   _ => 2
 };
}
}
mod t_method_simple {
struct Foo(i32, i32);
impl Foo { fn bar(&self) -> i32 { self.0 } }

fn main() {
  let x = 1;
  let y = 2;
  let z = Foo(x, y);
  let w = z.bar();
  w;
}
}
mod t_pointer_aliasing {
fn main() {
  let mut x = 1;
  let y = &mut x;
  let z = y;
  *z = 2;
  x;
}
}
mod t_pointer_copy_and_read {
fn main() {
  let mut x = 1;
  let y = &mut x;
  *y = 2;
  let z = y;
  *z;
}
}
mod t_pointer_funcall_nest {
fn f(x: &&mut i32) {}

fn main() {
  let mut x = 1;
  f(&&mut x);
  x;
}
}
mod t_pointer_ignore_reads {
// n should be ignored

fn main() {
  let mut x = 1;
  let y = &mut x;
  let n = *y;
  x;
}
}
