//! replay <harness> <point file>: lines "name hexbits"
use std::collections::HashMap;
fn main() {
    if std::env::var("HX_CLI").is_ok() {
        if let Ok(s) = std::env::var("HX_CLOCK") { unsafe { hx::sym::STEP = s.parse().unwrap_or(0); } }
        return hx::cli::run();
    }
    let a: Vec<String> = std::env::args().collect();
    let mut m = HashMap::new();
    for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
        let mut w = l.split_whitespace();
        if let (Some(n), Some(h)) = (w.next(), w.next()) { m.insert(n.to_string(), f64::from_bits(u64::from_str_radix(h, 16).unwrap())); }
    }
    *hx::sym::POINT.lock().unwrap() = Some(m);
    let f = hx::TABLES.iter().flat_map(|t| t.iter()).find(|(n, _)| *n == a[1]).expect("harness").1;
    let r = std::panic::catch_unwind(f);
    if r.is_err() { println!("FAIL no-panic"); }
    let bad = r.is_err() || !hx::sym::FAILED.lock().unwrap().is_empty();
    println!("{}", if bad { "REPLAY-VIOLATION" } else { "REPLAY-HOLDS" });
    std::process::exit(bad as i32);
}
