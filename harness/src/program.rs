use crate::integ::*;
use crate::persist::*;
use crate::sym::*;
use crate::util::*;
use posidonius::*;
use std::path::Path;

/// one body drifting through space: a case file with a step of one day, a limit of `limit` days, history every day and a
/// recovery snapshot every `rec` days
fn case(p: &str, limit: f64, hist: f64, rec: f64) {
    let mut u = Universe::new(0., limit, vec![Particle::new(1., 4e-3, 0.3, ax(0., 0., 0.), ax(0., 0., 0.), ax(0.1, 0.2, 0.3))], no_effects());
    u.particles[0].inertial_position = axes("p", -1., 1.);
    u.particles[0].inertial_velocity = axes("v", -1., 1.);
    let mut l = LeapFrog::new(1., rec, hist, u);
    let mut w = posidonius::output::get_universe_history_writer(Path::new("none.bin"), 0);
    l.write_recovery_snapshot(Path::new(p), &mut w);
}
/// the history is the records at these times, all on the straight line the body follows
fn expect(tag: &str, p: &str, times: &[f64]) {
    let r = records(p).unwrap_or_default();
    check(&[tag, "number of records"].concat(), r.len() == times.len());
    let (p0, v0) = (axes("p", -1., 1.), axes("v", -1., 1.));
    for (x, t) in r.iter().zip(times) {
        check_eq(&[tag, "time"].concat(), x.t, *t, 1e-6);
        check_axes(&[tag, "position"].concat(), ax(x.v[0], x.v[1], x.v[2]), add(p0, mul(*t, v0)), 1.);
    }
}
fn saved(p: &str) -> Option<LeapFrog> { let mut r = None; let _ = panics(|| r = posidonius::output::restore_snapshot(Path::new(p)).ok()); r.and_then(|b| b.as_any().downcast_ref::<LeapFrog>().cloned()) }

/// start never touches files that are already there
pub fn h_cli_start() {
    case("case.bin", 5., 1., 2.);
    let (s, h) = (choice("snap", 2) == 1, choice("hist", 2) == 1);
    let case_there = choice("case", 2) == 1;
    if !case_there { let _ = std::fs::remove_file("case.bin"); }
    let c = bytes_len("case.bin");
    if s { let _ = std::fs::write("s.bin", b"precious"); }
    if h { let _ = std::fs::write("h.bin", b"precious too"); }
    let r = program(&["posidonius", "start", "case.bin", "s.bin", "h.bin", "--silent"]);
    if s || h || !case_there {
        check("refused", r != 0);
        check("the old snapshot is left alone", if s { bytes("s.bin") == b"precious" } else { !Path::new("s.bin").exists() });
        check("the old history is left alone", if h { bytes("h.bin") == b"precious too" } else { !Path::new("h.bin").exists() });
        reach("refused");
    } else {
        check("completes", r == 0);
        expect("", "h.bin", &[0., 1., 2., 3., 4.]);
        check("the case is left alone", bytes_len("case.bin") == c);
        reach("completed");
    }
}
fn bytes_len(p: &str) -> usize { bytes(p).len() }
/// a run that stops at its limit leaves a snapshot from which resume, with or without new settings, goes on
pub fn h_cli_resume() {
    case("case.bin", 3., 1., 0.5);
    check("completes", program(&["posidonius", "start", "case.bin", "s.bin", "h.bin", "--silent"]) == 0);
    expect("first ", "h.bin", &[0., 1., 2.]);
    match saved("s.bin") { Some(x) => check("the newest snapshot", x.current_time == 1. && x.n_historic_snapshots == 1), None => check("snapshot", false) }
    let (r, times): (u64, &[f64]) = match choice("how", 6) {
        0 => (program(&["posidonius", "resume", "s.bin", "h.bin", "--silent"]), &[0., 1., 2.]),
        1 => (program(&["posidonius", "resume", "s.bin", "h.bin", "--silent", "--time-limit", "6"]), &[0., 1., 2., 3., 4., 5.]),
        2 => (program(&["posidonius", "resume", "s.bin", "h.bin", "--silent", "--time-limit", "6.5", "--historic-snapshot-period", "2"]), &[0., 2., 4.]),
        3 => (program(&["posidonius", "resume", "s.bin", "h.bin", "--silent", "--time-limit", "5", "--recovery-snapshot-period", "100"]), &[0., 1., 2., 3., 4.]),
        4 => { let r = program(&["posidonius", "resume", "s.bin", "h.bin", "--silent", "--time-limit", "0.5"]); check("a limit in the past is refused", r != 0); reach("refused"); return; }
        _ => { let _ = std::fs::write("h.bin", b"lost"); let r = program(&["posidonius", "resume", "s.bin", "h.bin", "--silent"]); check("a history that does not match is refused", r != 0 && bytes("h.bin") == b"lost"); reach("refused"); return; }
    };
    check("resumed to the end", r == 0);
    expect("resumed ", "h.bin", times);
    reach("done");
}
/// recovery snapshots are written as often as asked for, whether or not the execution time is limited, and at that limit
pub fn h_cli_limit() {
    case("case.bin", 8., 1., 3.);
    let how = choice("how", 3);
    let r = match how {
        0 => program(&["posidonius", "start", "case.bin", "s.bin", "h.bin", "--silent"]),
        1 => program(&["posidonius", "start", "case.bin", "s.bin", "h.bin", "--silent", "--limit", "1000"]),
        _ => { clock_step(400_000_000); program(&["posidonius", "start", "case.bin", "s.bin", "h.bin", "--silent", "--limit", "2"]) }
    };
    check("ends well", r == 0);
    let Some(x) = saved("s.bin") else { check("there is a snapshot", false); return; };
    let n = records("h.bin").map_or(0, |r| r.len());
    if how < 2 {
        // saved at 1 (first step), then as soon as 3 days have gone by since the last one
        check("the newest snapshot", x.current_time == 5.);
        check("the history", n == 8 && x.n_historic_snapshots == 5);
        reach("completed");
    } else {
        check("cut short", x.current_time < 8. && x.n_historic_snapshots == n && x.current_time == n as f64);
        clock_step(1000);
        check("resumed", program(&["posidonius", "resume", "s.bin", "h.bin", "--silent"]) == 0);
        expect("", "h.bin", &[0., 1., 2., 3., 4., 5., 6., 7.]);
        reach("limited");
    }
}
harnesses!(h_cli_start, h_cli_resume, h_cli_limit);
