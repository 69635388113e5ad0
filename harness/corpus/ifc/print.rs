use flowistry_ifc_traits::{Secure, insecure_print};
#[derive(Debug)]
struct Password(String);
impl Secure for Password {}
fn main() {
  let password = Password("hunter2".into());
  let shown = &password.0;
  insecure_print!("{:?}", shown);
}
fn fine() {
  let password = Password("hunter2".into());
  let other = 1;
  insecure_print!("{}", other);
}
fn implicit(p: &Password, n: usize) {
  if p.0.len() == n { insecure_print!("{}", n); }
}
