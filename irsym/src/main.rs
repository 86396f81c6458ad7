mod exec;
mod ir;
mod mem;
mod poly;
mod solve;
mod term;
use std::fmt::Write as _;

fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => {} c => o.push(c) } } o }
fn pt(p: &Vec<(String, f64)>) -> String { let v: Vec<String> = p.iter().map(|(n, x)| format!("[\"{}\",\"{:016x}\",{}]", esc(n), x.to_bits(), if x.is_finite() { format!("{:e}", x) } else { "null".into() })).collect(); format!("[{}]", v.join(",")) }

fn run() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let irf = get("--ir").expect("--ir");
    let h = get("--harness").expect("--harness");
    let real = get("--mode").map_or(true, |m| m != "fp");
    let cap: usize = get("--cap").map_or(20000, |x| x.parse().unwrap());
    let feas: u64 = get("--feas-ms").map_or(3000, |x| x.parse().unwrap());
    let eqms: u64 = get("--eq-ms").map_or(20000, |x| x.parse().unwrap());
    let t0 = std::time::Instant::now();
    let src = std::fs::read_to_string(&irf).expect("read ir");
    let m = ir::Module::parse(src);
    let parse_s = t0.elapsed().as_secs_f64();
    let mut sol = solve::Solver::new(real, cap, feas, eqms);
    if let Some(b) = get("--big") { sol.big = b.parse().unwrap(); }
    if let Some(d) = get("--dump") { let _ = std::fs::create_dir_all(&d); sol.dump = Some(d); }
    if let Some(s) = get("--solvers") { sol.solvers = s.split(',').map(|x| x.to_string()).collect(); }
    let mut ex = exec::Exec::new(m, real, sol);
    ex.ts.affine = a.iter().any(|x| x == "--affine");
    ex.slices = a.iter().any(|x| x == "--slices");
    ex.skip_unknown = a.iter().any(|x| x == "--skip-unknown");
    ex.trace = a.iter().any(|x| x == "--trace");
    if let Some(p) = get("--max-paths") { ex.max_paths = p.parse().unwrap(); }
    if let Some(p) = get("--max-ins") { ex.max_ins = p.parse().unwrap(); }
    if let Some(p) = get("--max-viol") { ex.max_viol = p.parse().unwrap(); }
    if let Some(p) = get("--time") { *poly::DEADLINE.lock().unwrap() = Some(t0 + std::time::Duration::from_secs(p.parse().unwrap())); }
    let r = ex.explore(&h);
    let mut o = String::new();
    let (mut pr, mut vi, mut inc) = (0, 0, 0);
    for ob in &ex.obls { match ob.verdict.as_str() { "proved" => pr += 1, "violated" => vi += 1, _ => inc += 1 } }
    let mut fns: std::collections::BTreeSet<String> = Default::default();
    for d in &ex.hitdbg { if let Some(s) = ex.m.subprogram_of_loc(*d) { let (n, f) = &ex.m.disub[&s]; if let Some(file) = ex.m.difile.get(f) { if file.contains("/repo/src/") { fns.insert(format!("{} {}", file.replace("/repo/", ""), n)); } } } }
    let _ = write!(o, "{{\"harness\":\"{}\",\"mode\":\"{}\",\"error\":{},\"proved\":{},\"violated\":{},\"inconclusive\":{},\"paths\":{},\"dead_paths\":{},\"forks\":{},\"pruned\":{},\"unknown_feasibility\":{},\"branches_not_explored\":{},\"merges\":{},\"congruent_branches\":{},\"max_decisions\":{},\"instructions\":{},\"terms\":{},\"symbolic_inputs\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"parse_s\":{:.2},\"largest_query_bytes\":{},\"tolerance_proofs\":{},",
        h, if real { "real" } else { "fp" }, match &r { Ok(()) => "null".to_string(), Err(e) => format!("\"{}\"", esc(e)) }, pr, vi, inc, ex.stats.paths, ex.stats.dead, ex.stats.forks, ex.stats.pruned, ex.stats.unknown_feas, ex.stats.skipped, ex.sol.merges, ex.stats.congruent, ex.stats.max_depth, ex.stats.ins, ex.ts.t.len(), ex.ts.vars.len(), ex.sol.time, t0.elapsed().as_secs_f64(), parse_s, ex.sol.biggest, ex.sol.tol_used);
    let q: Vec<String> = ex.sol.queries.iter().map(|(k, v)| format!("\"{}\":{{\"unsat\":{},\"sat\":{},\"unknown\":{},\"witness\":{}}}", k, v.0, v.1, v.2, v.3)).collect();
    let _ = write!(o, "\"queries\":{{{}}},", q.join(","));
    let rc: Vec<String> = ex.reached.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
    let _ = write!(o, "\"reached\":{{{}}},", rc.join(","));
    let vs: Vec<String> = ex.ts.vars.iter().map(|v| format!("[\"{}\",{:e},{:e}]", esc(&v.name), v.lo, v.hi)).collect();
    let _ = write!(o, "\"inputs\":[{}],", vs.join(","));
    let uf: Vec<String> = ex.calls_uf.iter().map(|v| format!("\"{}\"", v)).collect();
    let _ = write!(o, "\"uninterpreted\":[{}],", uf.join(","));
    let ff: Vec<String> = fns.iter().map(|v| format!("\"{}\"", esc(v))).collect();
    let _ = write!(o, "\"functions\":[{}],", ff.join(","));
    let er: Vec<String> = ex.sol.errors.iter().take(5).map(|v| format!("\"{}\"", esc(v))).collect();
    let _ = write!(o, "\"solver_errors\":[{}],", er.join(","));
    // obligations: aggregate the proved ones per id and method, list the rest
    let mut agg: std::collections::BTreeMap<(String, String), usize> = Default::default();
    for ob in &ex.obls { if ob.verdict == "proved" { *agg.entry((ob.id.clone(), ob.method.clone())).or_insert(0) += 1; } }
    let ag: Vec<String> = agg.iter().map(|((i, m), n)| format!("[\"{}\",\"{}\",{}]", esc(i), esc(m), n)).collect();
    let _ = write!(o, "\"proved_obligations\":[{}],", ag.join(","));
    let ws: Vec<String> = ex.witnesses.iter().map(pt).collect();
    let _ = write!(o, "\"witnesses\":[{}],", ws.join(","));
    let mut seen: std::collections::HashMap<String, usize> = Default::default();
    let mut os = vec![];
    for ob in &ex.obls { if ob.verdict != "proved" {
        let c = seen.entry(format!("{}{}", ob.id, ob.verdict)).or_insert(0); *c += 1; if *c > 6 { continue; }
        let extra: Vec<String> = ob.extra.iter().map(pt).collect();
        os.push(format!("{{\"id\":\"{}\",\"kind\":\"{}\",\"verdict\":\"{}\",\"method\":\"{}\",\"path\":{},\"detail\":\"{}\",\"point\":{},\"extra\":[{}]}}", esc(&ob.id), ob.kind, ob.verdict, esc(&ob.method), ob.path, esc(&ob.detail), ob.point.as_ref().map_or("null".into(), pt), extra.join(",")));
    } }
    let _ = write!(o, "\"failures\":[{}]}}", os.join(","));
    if let Some(f) = get("--out") { std::fs::write(f, &o).unwrap(); } else { println!("{}", o); }
    0
}
fn main() {
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap();
    std::process::exit(t.join().unwrap_or(3));
}
