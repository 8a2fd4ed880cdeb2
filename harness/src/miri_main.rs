//! The cases of C20, one after the other, to be interpreted by Miri:
//! stunmiri PART SEED FROM STEP UNTIL
use stunpbt::{engine, props::unsafety};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let n: Vec<u64> = std::env::args().skip(1).map(|a| a.parse().expect("number")).collect();
    let (part, _) = &unsafety::parts()[n[0] as usize];
    engine::plain("C20", part, n[1], n[2], n[3], n[4], |idx| println!("CASE {idx}"));
    println!("DONE");
}
