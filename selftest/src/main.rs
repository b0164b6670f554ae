//! reads a list of texts (one per line, code points separated by commas); prints, per function and text(s), the result
use std::io::Read;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    let ts: Vec<String> = t.lines().map(|l| l.split(',').filter(|x| !x.is_empty()).map(|x| char::from_u32(x.parse().unwrap()).unwrap()).collect()).collect();
    let run = |f: &str, i: usize, j: usize, r: std::thread::Result<String>| println!("{{\"f\":\"{f}\",\"i\":{i},\"j\":{j},\"r\":{}}}", r.unwrap_or("\"panic\"".into()));
    for f in selftest::a::ONE {
        for (i, s) in ts.iter().enumerate() {
            run(&format!("a::{f}"), i, 0, std::panic::catch_unwind(|| selftest::a::call1(f, s)));
        }
    }
    for f in selftest::c::ONE {
        for (i, s) in ts.iter().enumerate() {
            run(&format!("c::{f}"), i, 0, std::panic::catch_unwind(|| selftest::c::call1(f, s)));
        }
    }
    for f in selftest::b::TWO {
        for (i, s) in ts.iter().enumerate() {
            for (j, p) in ts.iter().enumerate() {
                run(&format!("b::{f}"), i, j, std::panic::catch_unwind(|| selftest::b::call2(f, s, p)));
            }
        }
    }
}
