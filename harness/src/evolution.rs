use crate::effects::*;
use crate::sym::*;
use crate::util::*;
use posidonius::constants::*;
use posidonius::*;

// ---- C13: evolving bodies
fn table(kind: EvolutionType, n: usize) -> Evolver {
    let mut e = Evolver::new(EvolutionType::NonEvolving, 0., 0.);
    e.evolution = kind;
    for i in 0..n {
        let k = i as f64;
        e.time.push(10. * k + 0.25 * k * k - 15.);
        let s = if i < 10 { String::from("") } else { String::from("1") };
        e.radius.push(real(&["R", &s, &name(i % 10, "")].concat(), 1e-3, 1e-2));
        e.radius_of_gyration_2.push(real(&["g", &s, &name(i % 10, "")].concat(), 0.1, 0.4));
        e.love_number.push(real(&["k", &s, &name(i % 10, "")].concat(), 0.1, 1.));
        e.inverse_tidal_q_factor.push(real(&["q", &s, &name(i % 10, "")].concat(), 1e-6, 1e-3));
    }
    e
}
fn at(t: f64, x: &Vec<f64>, y: &Vec<f64>) -> f64 {
    let n = x.len();
    if t <= x[0] { return y[0]; }
    for i in 1..n { if t < x[i] { return y[i - 1] + (y[i] - y[i - 1]) / (x[i] - x[i - 1]) * (t - x[i - 1]); } }
    y[n - 1]
}
fn query(e: &mut Evolver, t: f64, s: &str) {
    let w = [at(t, &e.time, &e.radius), at(t, &e.time, &e.radius_of_gyration_2), at(t, &e.time, &e.love_number), at(t, &e.time, &e.inverse_tidal_q_factor)];
    check_eq(&[s, "radius"].concat(), e.radius(t, 5.), w[0], 1e-9);
    check_eq(&[s, "gyration"].concat(), e.radius_of_gyration_2(t, 5.), w[1], 1e-9);
    check_eq(&[s, "love"].concat(), e.love_number(t, 5.), w[2], 1e-9);
    check_eq(&[s, "invq"].concat(), e.inverse_tidal_q_factor(t, 5.), w[3], 1e-9);
}
/// the value at a time does not depend on the times asked for before
pub fn h_evo_history() {
    let mut e = table(EvolutionType::LeconteChabrier2013(true), 14);
    let (a, b) = (real("t1", -20., 200.), real("t2", -20., 200.));
    query(&mut e, a, "first ");
    query(&mut e, b, "second ");
    reach("done");
}
/// long walks: many queries at symbolic times inside a moving interval, then one anywhere
pub fn h_evo_walk() {
    let mut e = table(EvolutionType::LeconteChabrier2013(true), 18);
    let f = real("f", 0., 0.99);
    let back = choice("back", 2) == 1;
    for k in 0..17 { let i = if back { 16 - k } else { k }; let t = e.time[i] + f * (e.time[i + 1] - e.time[i]); query(&mut e, t, "walk "); }
    let t = real("t", -20., 240.);
    query(&mut e, t, "last ");
    reach("done");
}
/// which quantities evolve in which model
pub fn h_evo_kinds() {
    let kind = match choice("kind", 8) { 0 => EvolutionType::GalletBolmont2017(1.), 1 => EvolutionType::BolmontMathis2016(1.), 2 => EvolutionType::Baraffe2015(1.), 3 => EvolutionType::Leconte2011(0.01), 4 => EvolutionType::Baraffe1998(1.), 5 => EvolutionType::LeconteChabrier2013(false), 6 => EvolutionType::LeconteChabrier2013(true), _ => EvolutionType::NonEvolving };
    let (hg, hk, hq) = match kind {
        EvolutionType::Baraffe2015(_) | EvolutionType::Leconte2011(_) => (true, false, false),
        EvolutionType::LeconteChabrier2013(b) => (true, true, b),
        EvolutionType::GalletBolmont2017(_) | EvolutionType::BolmontMathis2016(_) => (false, false, true),
        _ => (false, false, false),
    };
    let hr = kind != EvolutionType::NonEvolving;
    let mut e = table(kind, 4);
    let t = real("t", -20., 60.);
    let w = [at(t, &e.time, &e.radius), at(t, &e.time, &e.radius_of_gyration_2), at(t, &e.time, &e.love_number), at(t, &e.time, &e.inverse_tidal_q_factor)];
    let c = real("c", 0., 5.);
    check_eq("radius", e.radius(t, c), if hr { w[0] } else { c }, 1e-9);
    check_eq("gyration", e.radius_of_gyration_2(t, c), if hg { w[1] } else { c }, 1e-9);
    check_eq("love", e.love_number(t, c), if hk { w[2] } else { c }, 1e-9);
    check_eq("invq", e.inverse_tidal_q_factor(t, c), if hq { w[3] } else { c }, 1e-9);
    reach("done");
}
fn evolving(u: &mut Universe, i: usize, e: Evolver) { u.particles[i].evolution = e.evolution; u.particles_evolvers[i] = e; u.consider_effects.evolution = true; }
fn two(host: usize, models: &[TidalModel], r0: f64) -> Universe {
    let mut ps = vec![];
    for i in 0..models.len() {
        let mut b = Particle::new(if i == host { 1. } else { 0.125 }, r0, 0.5, ax(1. + i as f64, 0., 0.), ax(0., 0., 0.), ax(0.1, 0.2, 0.3));
        b.set_tides(Tides::new(if i == host { TidesEffect::CentralBody(models[i]) } else { TidesEffect::OrbitingBody(models[i]) }));
        ps.push(b);
    }
    Universe::new(0., 10., ps, tides_on())
}
/// the evolving quantities reach the body and the tides it raises, whichever body evolves
pub fn h_evo_apply() {
    let (n, host) = (2, choice("host", 2) as usize);
    let who = choice("who", 2) as usize;
    let (m0, c0) = ctl_params(0);
    let (m1, c1) = ctl_params(1);
    let mut par = vec![c0, c1];
    let mut u = two(host, &[m0, m1], 0.05);
    let e = table(EvolutionType::LeconteChabrier2013(false), 3);
    let t = real("t", -20., 40.);
    let (er, eg, ek) = (at(t, &e.time, &e.radius), at(t, &e.time, &e.radius_of_gyration_2), at(t, &e.time, &e.love_number));
    evolving(&mut u, who, e);
    let l: Vec<Axes> = (0..n).map(|i| axes(&name(i, "L"), -1., 1.)).collect();
    place_with(&mut u, host, &l);
    for i in 0..n { u.particles[i].angular_momentum = l[i]; }
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(t, true, true, true, IgnoreGravityTerms::None);
    let (o, w) = (u.particles[1 - who], u.particles[who]);
    check_eq("radius", w.radius, er, 1e-9);
    check_eq("gyration", w.radius_of_gyration_2, eg, 1e-9);
    check_eq("inertia", w.moment_of_inertia, w.mass * eg * er * er, 1e-20);
    check_axes("spin", w.spin, mul(1. / (w.mass * eg * er * er), l[who]), 1e-9);
    check_eq("other radius", o.radius, 0.05, 1e-9);
    check_eq("other inertia", o.moment_of_inertia, o.mass * 0.25 * 0.05 * 0.05, 1e-20);
    let k = match w.tides.effect { TidesEffect::CentralBody(TidalModel::ConstantTimeLag(p)) | TidesEffect::OrbitingBody(TidalModel::ConstantTimeLag(p)) => p.love_number, _ => -1. };
    check_eq("love number", k, ek, 1e-9);
    par[who].k2 = k;
    let p = 1 - host;
    let (r, v) = rel(&u, p, host);
    let spin = |i: usize| mul(1. / u.particles[i].moment_of_inertia, l[i]);
    let (f, th, tp) = ctl_oracle(u.particles[host].mass, u.particles[host].radius, spin(host), &par[host], u.particles[p].mass, u.particles[p].radius, spin(p), &par[p], r, v);
    check_axes("planet.a", u.particles[p].inertial_additional_acceleration, mul(1. / u.particles[p].mass, f), 1e-40);
    check_axes("host.a", u.particles[host].inertial_additional_acceleration, mul(-1. / u.particles[host].mass, f), 1e-40);
    check_axes("planet.dL", u.particles[p].dangular_momentum_dt, tp, 1e-40);
    check_axes("host.dL", u.particles[host].dangular_momentum_dt, th, 1e-40);
    reach("done");
}
/// dynamical tide: dissipation depends on the excitation frequency now, not on the regime of an earlier evaluation
fn dyn_tide(kind: EvolutionType, first: bool) {
    let (host, who) = (0, choice("who", 2) as usize);
    let (k2, sg) = (0.25, real("sg", 0., 1.));
    let model = TidalModel::ConstantTimeLag(ConstantTimeLagParameters { dissipation_factor: sg, dissipation_factor_scale: 2., love_number: k2 });
    let mut u = two(host, &[model, model], 0.005);
    let mut e = Evolver::new(EvolutionType::NonEvolving, 0., 0.);
    e.evolution = kind;
    let q = real("q", 1e-6, 1e-3);
    e.time = vec![-1., 1.];
    e.radius = vec![0.005, 0.005];
    e.radius_of_gyration_2 = vec![0.25, 0.25];
    e.love_number = vec![k2, k2];
    e.inverse_tidal_q_factor = vec![q, q];
    evolving(&mut u, who, e);
    u.particles[0].inertial_position = ax(1., 2., 3.);
    u.particles[0].inertial_velocity = ax(0., 0., 0.);
    u.particles[1].inertial_position = ax(1.25, 2., 3.);
    u.particles[1].inertial_velocity = ax(0., 0., 0.03125);
    u.inertial_to_heliocentric();
    let other = ax(0.1, 0.2, 0.3);
    let moi = u.particles[who].moment_of_inertia;
    u.particles[1 - who].angular_momentum = mul(u.particles[1 - who].moment_of_inertia, other);
    if first {
        u.particles[who].angular_momentum = ax(0., moi * real("w0", 0., 4.), 0.);
        u.calculate_additional_effects(0., true, true, true, IgnoreGravityTerms::None);
    }
    let w = real("w", 0., 4.);
    u.particles[who].angular_momentum = ax(0., moi * w, 0.);
    u.calculate_additional_effects(0., true, true, true, IgnoreGravityTerms::None);
    // semi-major axis from the energy of the relative orbit; Bolmont & Mathis 2016, Gallet & Bolmont 2017
    let gm = G * (u.particles[0].mass + u.particles[1].mass);
    let (r, v) = rel(&u, 1, 0);
    let a = 1. / (2. / dot(r, r).sqrt() - dot(v, v) / gm);
    let n = (gm / (a * a * a)).sqrt();
    assume(w < 0.5 * n - 1e-6 || w > 0.5 * n + 1e-6); // the two regimes meet with a jump there
    let mut half = if w > n { w - n } else { n - w };
    let sm = 1e-5 * 86400.;
    assume((half < sm - 1e-6 || half > sm + 1e-6) && half > 1e-6);
    let mut sigma = 2. * sg;
    if half < w {
        reach("dynamical");
        if half < 1e-5 * 86400. { half = 1e-5 * 86400.; reach("corotation"); }
        let lag = 0.75 * w * w / SUN_DYN_FREQ_2 * q;
        sigma = 2. * (2. * K2 / (3. * 0.005f64.powi(5)) * lag / half + sg);
    } else { reach("equilibrium"); }
    let mk = |i: usize| Ctl { k2, sigma: if i == who { sigma } else { 2. * sg } };
    let spin = |i: usize| if i == who { ax(0., w, 0.) } else { other };
    let (f, th, tp) = ctl_oracle(1., 0.005, spin(0), &mk(0), 0.125, 0.005, spin(1), &mk(1), r, v);
    check_axes("planet.a", u.particles[1].inertial_additional_acceleration, mul(1. / 0.125, f), 1e-40);
    check_axes("host.a", u.particles[0].inertial_additional_acceleration, mul(-1., f), 1e-40);
    check_axes("planet.dL", u.particles[1].dangular_momentum_dt, tp, 1e-40);
    check_axes("host.dL", u.particles[0].dangular_momentum_dt, th, 1e-40);
    reach("done");
}
fn dk() -> EvolutionType { match choice("kind", 3) { 0 => EvolutionType::LeconteChabrier2013(true), 1 => EvolutionType::BolmontMathis2016(1.), _ => EvolutionType::GalletBolmont2017(1.) } }
pub fn h_evo_dyn() { dyn_tide(dk(), false) }
pub fn h_evo_dyn2() { dyn_tide(EvolutionType::LeconteChabrier2013(true), true) }

// ---- the tables on disk
fn file(p: &str, s: &str) {
    let d = std::path::Path::new(p);
    let _ = std::fs::create_dir_all(d.parent().unwrap());
    std::fs::write(d, s).unwrap();
}
fn load(kind: EvolutionType, t0: f64, lim: f64) -> Option<Evolver> {
    let mut out = None;
    let p = panics(|| { out = Some(Evolver::new(kind, t0, lim)); });
    if p { None } else { out }
}
const NONE: &[f64] = &[];
fn expect(kind: EvolutionType, text: &str, path: &str, time: &[f64], radius: &[f64], g: &[f64], k: &[f64], q: &[f64]) {
    file(path, text);
    let (t0, lim) = (real("t0", 0., 1e10), real("lim", 0., 1e10));
    let e = load(kind, t0, lim);
    let n = time.len();
    let bad = time[0] > t0 || time[n - 1] - t0 < lim;
    check("refused exactly outside of the table", e.is_none() == bad);
    if let Some(e) = e {
        reach("loaded");
        check("rows", e.time.len() == n && e.radius.len() == n && e.radius_of_gyration_2.len() == g.len() && e.love_number.len() == k.len() && e.inverse_tidal_q_factor.len() == q.len());
        if e.time.len() != n || e.radius.len() != n || e.radius_of_gyration_2.len() != g.len() || e.love_number.len() != k.len() || e.inverse_tidal_q_factor.len() != q.len() { return; }
        check("kind", e.evolution == kind);
        for i in 0..n {
            check_eq("time", e.time[i], time[i] - t0, 1.);
            check_eq("radius", e.radius[i], radius[i], 1e-30);
            if g.len() > 0 { check_eq("gyration", e.radius_of_gyration_2[i], g[i], 1e-30); }
            if k.len() > 0 { check_eq("love", e.love_number[i], k[i], 1e-30); }
            if q.len() > 0 { check_eq("invq", e.inverse_tidal_q_factor[i], q[i], 1e-30); }
        }
    } else { reach("refused"); }
}
pub fn h_evo_load() {
    let y = 365.25;
    match choice("kind", 7) {
        0 => expect(EvolutionType::GalletBolmont2017(1.), "a b c d e f g h i j k\n6 91 92 0.5 93 94 95 96 97 98 3\n7 91 92 0.75 93 94 95 96 97 98 2\n", "input/Gallet_Bolmont_2017/M_10_Z_0134.dat", &[1e6 * y, 1e7 * y], &[0.5 * R_SUN, 0.75 * R_SUN], NONE, NONE, &[1e-3, 1e-2]),
        1 => expect(EvolutionType::BolmontMathis2016(1.), "1e6 0.5 1e-4\n3e6 0.75 2e-4\n", "input/Bolmont_Mathis_2016/L10Z02r.dat", &[1e6 * y, 3e6 * y], &[0.5 * R_SUN, 0.75 * R_SUN], NONE, NONE, &[1e-4, 2e-4]),
        2 => expect(EvolutionType::Baraffe2015(1.), "t x r g\n1e6 7 0.5 0.25\n3e6 7 0.75 0.125\n", "input/Baraffe_2015/1000_Msun.dat", &[1e6 * y, 3e6 * y], &[0.5 * R_SUN, 0.75 * R_SUN], &[0.25, 0.125], NONE, NONE),
        3 => expect(EvolutionType::Baraffe1998(1.), "1e6 5e8 4\n3e6 6e8 4\n", "input/Baraffe_1998/SRad_Spli_M-1_0000.dat", &[1e6 * y, 3e6 * y], &[5e8 / AU, 6e8 / AU], NONE, NONE, NONE),
        4 => expect(EvolutionType::Baraffe1998(0.1), "1e6 0.5 4\n3e6 0.75 4\n", "input/Baraffe_1998/01Msun.dat", &[1e6 * y, 3e6 * y], &[0.5 * R_SUN, 0.75 * R_SUN], NONE, NONE, NONE),
        5 => expect(EvolutionType::LeconteChabrier2013(false), "1e6 5e8 0.5 0.25 9 1e-4\n3e6 6e8 0.75 0.125 9 2e-4\n", "input/Leconte_Chabrier_2013/Jupiter.dat", &[1e6 * y, 3e6 * y], &[5e8 / AU, 6e8 / AU], &[0.25, 0.125], &[0.5, 0.75], NONE),
        _ => expect(EvolutionType::LeconteChabrier2013(true), "1e6 5e8 0.5 0.25 9 1e-4\n3e6 6e8 0.75 0.125 9 2e-4\n", "input/Leconte_Chabrier_2013/Jupiter.dat", &[1e6 * y, 3e6 * y], &[5e8 / AU, 6e8 / AU], &[0.25, 0.125], &[0.5, 0.75], &[1e-4, 2e-4]),
    }
}
/// brown dwarfs: radius of gyration comes from a second file with its own time sampling
pub fn h_evo_brown() {
    let y = 365.25;
    file("input/Leconte_2011/rg2BD.dat", "1e6 1 0.2 3 4 5 6 7 8 9 10 11 12\n3e6 1 0.4 3 4 5 6 7 8 9 10 11 12\n5e6 1 0.6 3 4 5 6 7 8 9 10 11 12\n");
    expect(EvolutionType::Leconte2011(0.012), "5e5 0.4\n2e6 0.5\n3e6 0.6\n4e6 0.7\n6e6 0.8\n", "input/Leconte_2011/mass_12.0000.dat", &[2e6 * y, 3e6 * y, 4e6 * y], &[0.5 * R_SUN, 0.6 * R_SUN, 0.7 * R_SUN], &[0.3, 0.4, 0.5], NONE, NONE);
}
fn masses(dir: &str, names: &[(&str, f64)], tol: f64, row: impl Fn(usize) -> String, kind: impl Fn(f64) -> EvolutionType, lo: f64, hi: f64) { masses_then(dir, names, tol, row, kind, lo, hi, |_, _| {}) }
fn masses_then(dir: &str, names: &[(&str, f64)], tol: f64, row: impl Fn(usize) -> String, kind: impl Fn(f64) -> EvolutionType, lo: f64, hi: f64, then: impl Fn(&Evolver, usize)) {
    for (i, (f, _)) in names.iter().enumerate() { file(&["input/", dir, "/", f].concat(), &row(i)); }
    let m = real("mass", lo, hi);
    let mut want = 99;
    for (i, (_, x)) in names.iter().enumerate() { let d = m - x; if (if d < 0. { -d } else { d }) < tol * 0.999 { want = i; } else { assume((if d < 0. { -d } else { d }) > tol * 1.001); } }
    let e = load(kind(m), 1e6, -1e7);
    check("refused exactly when the mass is not tabulated", e.is_none() == (want == 99));
    if let Some(e) = e {
        reach("loaded");
        check("rows", e.radius.len() >= 1);
        if e.radius.len() >= 1 && want < 99 {
            check_eq("table of that mass", e.radius[0], (1. + want as f64) * R_SUN, 1e-9);
            then(&e, want);
        }
    } else { reach("refused"); }
}
const NUM: [&str; 30] = ["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23", "24", "25", "26", "27", "28", "29", "30"];
fn row2(i: usize) -> String { ["0 ", NUM[i], " 1e-4\n"].concat() }
pub fn h_evo_mass_bm() {
    masses("Bolmont_Mathis_2016", &[("L04Z02r.dat", 0.4), ("L05Z02r.dat", 0.5), ("L06Z02r.dat", 0.6), ("L07Z02r.dat", 0.7), ("L08Z02r.dat", 0.8), ("L09Z02r.dat", 0.9), ("L10Z02r.dat", 1.0), ("L11Z02r.dat", 1.1), ("L12Z02r.dat", 1.2), ("L13Z02r.dat", 1.3), ("L14Z02r.dat", 1.4), ("L15Z02r.dat", 1.5)], 1e-3, row2, |m| EvolutionType::BolmontMathis2016(m), 0.2, 1.7);
}
pub fn h_evo_mass_gb() {
    masses("Gallet_Bolmont_2017", &[("M_03_Z_0134.dat", 0.3), ("M_04_Z_0134.dat", 0.4), ("M_06_Z_0134.dat", 0.6), ("M_07_Z_0134.dat", 0.7), ("M_08_Z_0134.dat", 0.8), ("M_09_Z_0134.dat", 0.9), ("M_10_Z_0134.dat", 1.0), ("M_11_Z_0134.dat", 1.1), ("M_12_Z_0134.dat", 1.2), ("M_14_Z_0134.dat", 1.4)], 1e-3,
        |i| ["0 99 99 ", NUM[i], " 99 99 99 99 99 99 1\n9 99 99 99 99 99 99 99 99 99 1\n"].concat(), |m| EvolutionType::GalletBolmont2017(m), 0.2, 1.7);
}
fn b15(light: bool) {
    let all = [("0010_Msun.dat", 0.01), ("0015_Msun.dat", 0.015), ("0020_Msun.dat", 0.02), ("0030_Msun.dat", 0.03), ("0040_Msun.dat", 0.04), ("0050_Msun.dat", 0.05), ("0060_Msun.dat", 0.06), ("0070_Msun.dat", 0.07), ("0072_Msun.dat", 0.072), ("0075_Msun.dat", 0.075), ("0080_Msun.dat", 0.08),
        ("0090_Msun.dat", 0.09), ("0110_Msun.dat", 0.11), ("0130_Msun.dat", 0.13), ("0150_Msun.dat", 0.15), ("0170_Msun.dat", 0.17), ("0200_Msun.dat", 0.20), ("0300_Msun.dat", 0.30), ("0400_Msun.dat", 0.40), ("0500_Msun.dat", 0.50), ("0600_Msun.dat", 0.60), ("0700_Msun.dat", 0.70), ("0800_Msun.dat", 0.80), ("0900_Msun.dat", 0.90), ("1000_Msun.dat", 1.00), ("1100_Msun.dat", 1.10), ("1200_Msun.dat", 1.20), ("1300_Msun.dat", 1.30), ("1400_Msun.dat", 1.40)];
    let row = |i: usize| ["0 99 ", NUM[i], " 0.2\n"].concat();
    if light { masses("Baraffe_2015", &all[..11], 1e-4, row, |m| EvolutionType::Baraffe2015(m), 0.005, 0.085) } else { masses("Baraffe_2015", &all[11..], 1e-7, row, |m| EvolutionType::Baraffe2015(m), 0.085, 1.5) }
}
pub fn h_evo_mass_b15() { b15(choice("light", 2) == 1) }
pub fn h_evo_mass_l11() {
    let names = [("mass_10.0000.dat", 0.01), ("mass_12.0000.dat", 0.012), ("mass_15.0000.dat", 0.015), ("mass_20.0000.dat", 0.02), ("mass_30.0000.dat", 0.03), ("mass_40.0000.dat", 0.04), ("mass_50.0000.dat", 0.05), ("mass_60.0000.dat", 0.06), ("mass_70.0000.dat", 0.07), ("mass_72.0000.dat", 0.072), ("mass_75.0000.dat", 0.075), ("mass_80.0000.dat", 0.08)];
    file("input/Leconte_2011/rg2BD.dat", "0 0.01 0.02 0.03 0.04 0.05 0.06 0.07 0.08 0.09 0.1 0.11 0.12\n9 0.01 0.02 0.03 0.04 0.05 0.06 0.07 0.08 0.09 0.1 0.11 0.12\n");
    masses_then("Leconte_2011", &names, 1e-4, |i| ["0 ", NUM[i], "\n"].concat(), |m| EvolutionType::Leconte2011(m), 0.005, 0.085, |e, i| check_eq("gyration of that mass", e.radius_of_gyration_2[0], 0.01 * (1. + i as f64), 1e-9));
}
harnesses!(h_evo_history, h_evo_walk, h_evo_kinds, h_evo_apply, h_evo_dyn, h_evo_dyn2, h_evo_load, h_evo_brown, h_evo_mass_bm, h_evo_mass_gb, h_evo_mass_b15, h_evo_mass_l11);
