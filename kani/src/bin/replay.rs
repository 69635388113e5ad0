//! `replay CLAIM BYTE..`: exit 0 if the claim holds of these values in the real code, 1 if it does not.
fn main() {
  let mut args = std::env::args().skip(1);
  let claim = args.next().expect("claim");
  let bytes: Vec<u8> = args.map(|a| a.parse().unwrap()).collect();
  let ok = std::panic::catch_unwind(|| vp_modes::holds(&claim, &bytes)).unwrap_or(false);
  println!("{claim} {:?}: {}", String::from_utf8_lossy(&bytes), if ok { "holds" } else { "violated" });
  std::process::exit(!ok as i32);
}
