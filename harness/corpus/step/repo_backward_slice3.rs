// programs of /repo/crates/flowistry/tests/backward_slice
#![allow(warnings)]
mod t_tuple_field_sensitive_through_whole_write {
struct Point { x: usize, y: usize }
fn main() {
  let x = 1;
  let y = 2;
  let z = Point { x, y };
  let w = z;
  w.x;  
}
}
mod t_tuple_write_field_read_field {
// shouldn't include line 1 b/c x.1 isn't relevant

fn main() {
  let mut x = (0, 1);
  x.0 = 1;
  x.0;
}
}
mod t_tuple_write_field_read_whole {
// should include line 1 because x.1 is relevant

fn main() {
    let mut x = (0, 1);
    x.0 = 1;
    x;
  }
}
mod t_tuple_write_ptr_field {
fn main() {
   let mut a = 0;
   let b = (1, &mut a);
   *b.1 += 1;
   let c = b;
   c;
}
}
mod t_tuple_write_whole_read_field {
fn main() {
  let mut x = (0, 1);
  x = (2, 3);
  x.0;
}
}
mod t_tuple_write_whole_read_whole {
fn main() {
  let mut x = (0, 1);
  x = (2, 3);
  x;
}
}
mod t_unicode {
fn what() {
    let x = "߷߷߷߷";
}

fn main() {
  let x = "߷߷߷߷";
  let y = x; // ߷
  y;
}
}
mod t_variable_assign {
// should not include line 1 b/c of overriding assignment

fn main() {
  let mut x = 1;
  x = 2;
  x;
}
}
mod t_variable_read {
fn main() {
  let x = 1;
  x;
}
}
mod t_variable_reassign {
// should include line 1 b/c of reassign

fn main() {
  let mut x = 1;
  x += 2;
  x;
}
}
mod t_variable_slice_from_middle {
// should not include x += 3

fn main() {
  let mut x = 1;
  x += 2;
  x;
  x += 3;
}
}
mod t_variable_slice_lhs {
fn main() {
  let x = 1;
  let y = x;
}
}
mod t_variable_slice_sub_exp {
fn main() {
    let x = 1;    
    let y = 2;
    x + y;
  }
}
mod t_variable_slice_whole_exp {
fn main() {
  let x = 1;
  let y = 2;
  x + y;
}
}
mod t_vec_read {
fn main() {
  let x = 1;
  let y = vec![x];
  let z = y[0];
}
}
mod t_while_cond_irrelevant {
fn main() {
  let x = 1;
  let mut y = 2;
  while x < y {
    y -= 1;
  }
  x;
}
}
mod t_while_cond_relevant {
fn main() {
  let mut x = 1;
  let y = 2;
  while x < y {
    x += 1;
  }
  x;
}
}
