use crate::compose::*;
use crate::integ::*;
use crate::sym::*;
use crate::util::*;
use posidonius::output::*;
use posidonius::*;
use std::path::Path;

pub fn uni(n: usize, mask: usize) -> Universe {
    let mut u = full(n, GeneralRelativityImplementation::Kidder1995, &on(mask));
    u.time_limit = real("limit", 100., 1e6);
    state(&mut u, "s");
    u
}
pub enum Any3 { W(WHFast), I(Ias15), L(LeapFrog) }
pub fn make(kind: u64, dt: f64, rec: f64, hist: f64, u: Universe) -> Any3 {
    match kind {
        0 => Any3::W(WHFast::new(dt, rec, hist, u, posidonius::whfast::CoordinatesType::Jacobi)),
        10 => Any3::W(WHFast::new(dt, rec, hist, u, posidonius::whfast::CoordinatesType::DemocraticHeliocentric)),
        20 => Any3::W(WHFast::new(dt, rec, hist, u, posidonius::whfast::CoordinatesType::WHDS)),
        1 => Any3::I(Ias15::new(dt, rec, hist, u)),
        _ => Any3::L(LeapFrog::new(dt, rec, hist, u)),
    }
}
pub fn wh() -> u64 { 10 * choice("coord", 3) }
impl Any3 {
    pub fn it(&mut self) -> &mut dyn Integrator { match self { Any3::W(x) => x, Any3::I(x) => x, Any3::L(x) => x } }
    pub fn universe(&mut self) -> &mut Universe { match self { Any3::W(x) => &mut x.universe, Any3::I(x) => &mut x.universe, Any3::L(x) => &mut x.universe } }
    pub fn same(&self, b: &dyn Integrator) -> bool {
        match self {
            Any3::W(x) => b.as_any().downcast_ref::<WHFast>().map_or(false, |y| x == y),
            Any3::I(x) => b.as_any().downcast_ref::<Ias15>().map_or(false, |y| x == y),
            Any3::L(x) => b.as_any().downcast_ref::<LeapFrog>().map_or(false, |y| x == y),
        }
    }
}
pub fn h_rt_bin() {
    let kind = match choice("kind", 3) { 0 => wh(), k => k };
    let mut a = make(kind, real("dt", 1e-3, 5e-2), real("rec", 1., 10.), real("hist", 1., 10.), uni(2, 31));
    match &mut a { Any3::W(x) => x.current_time = real("now", 1., 50.), Any3::I(x) => x.current_time = real("now", 1., 50.), Any3::L(x) => x.current_time = real("now", 1., 50.) }
    let mut w = writer(0);
    a.it().write_recovery_snapshot(Path::new("s.bin"), &mut w);
    match restore_snapshot(Path::new("s.bin")) { Ok(b) => check("restored as saved", a.same(&*b)), Err(_) => check("restored", false) }
    reach("done");
}

// ---- records of the history file, as the documented layout has them: little-endian d d i then 17 d
pub struct Rec { pub t: f64, pub dt: f64, pub id: i32, pub v: [f64; 17] }
pub fn bytes(p: &str) -> Vec<u8> { std::fs::read(p).unwrap_or_default() }
fn f64_at(b: &[u8], o: usize) -> f64 { let mut a = [0u8; 8]; a.copy_from_slice(&b[o..o + 8]); f64::from_le_bytes(a) }
pub fn records(p: &str) -> Option<Vec<Rec>> {
    let b = bytes(p);
    if b.len() % 156 != 0 { return None; }
    let mut out = vec![];
    for k in 0..b.len() / 156 {
        let o = 156 * k;
        let mut v = [0.; 17];
        for i in 0..17 { v[i] = f64_at(&b, o + 20 + 8 * i); }
        out.push(Rec { t: f64_at(&b, o), dt: f64_at(&b, o + 8), id: i32::from_le_bytes([b[o + 16], b[o + 17], b[o + 18], b[o + 19]]), v });
    }
    Some(out)
}
/// one record per body, in the order of the bodies, with the documented columns
fn layout(n: usize, mask: usize) {
    let mut u = uni(n, mask);
    u.inertial_to_heliocentric();
    u.calculate_spin_and_evolving_quantities(0., true);
    for i in 0..n {
        u.particles[i].tides.parameters.internal.scaled_dissipation_factor = real(&name(i, "sd"), 0., 1.);
        u.particles[i].tides.parameters.internal.lag_angle = real(&name(i, "lag"), 0., 1.);
        u.particles[i].tides.parameters.internal.denergy_dt = real(&name(i, "de"), 0., 1.);
        u.particles[i].disk.parameters.internal.migration_timescale = real(&name(i, "mig"), 0., 1.);
    }
    let (t, dt) = (real("t", 0., 1e9), real("dt", 1e-3, 5e-2));
    let mut w = writer(0);
    for k in 0..2 { write_historic_snapshot(&mut w, &u, t + k as f64, dt); }
    drop(w);
    check("bytes per record", n_bytes_per_particle_in_historic_snapshot() == 156 && bytes("h.bin").len() == 2 * n * 156);
    let r = records("h.bin").unwrap_or_default();
    for k in 0..2 { for i in 0..n {
        let p = &u.particles[i];
        let Some(x) = r.get(k * n + i) else { check("record present", false); return; };
        check_eq("time", x.t, t + k as f64, 1e-6);
        check_eq("time step", x.dt, dt, 1e-6);
        check("body", x.id == i as i32);
        let love = match &p.tides.effect { TidesEffect::CentralBody(TidalModel::ConstantTimeLag(q)) | TidesEffect::OrbitingBody(TidalModel::ConstantTimeLag(q)) => q.love_number, _ => 0. };
        let want = [p.inertial_position.x, p.inertial_position.y, p.inertial_position.z, p.spin.x, p.spin.y, p.spin.z, p.inertial_velocity.x, p.inertial_velocity.y, p.inertial_velocity.z, p.mass, p.radius, p.radius_of_gyration_2, love, p.tides.parameters.internal.scaled_dissipation_factor, p.tides.parameters.internal.lag_angle, p.tides.parameters.internal.denergy_dt, p.disk.parameters.internal.migration_timescale];
        for c in 0..17 { check_eq(&name(c % 10, ["column", "column1"][c / 10]), x.v[c], want[c], 1e-30); }
    } }
    reach("done");
}
pub fn h_layout_n1() { layout(1, 0) }
pub fn h_layout_n3() { layout(3, 31) }

/// which steps are recorded, when a recovery snapshot is asked for, and when the run ends
fn sched(kind: u64, steps: usize) {
    let (dt, rec, hist, limit) = (real("dt", 0.5, 1.), real("rec", 0.1, 3.), real("hist", 0.1, 3.), real("limit", 0.1, if kind == 1 { 1000. } else { 5. }));
    let mut u = full(1, GeneralRelativityImplementation::Kidder1995, &on(0));
    u.time_limit = limit;
    let mut a = make(kind, dt, rec, hist, u);
    a.it().initialize_physical_values();
    let mut w = writer(0);
    let (mut count, mut due, mut saved) = (0usize, 0., -1.);
    let mut times = vec![];
    for _ in 0..steps {
        let t = a.it().get_current_time();
        let record = count == 0 || due <= t;
        if record { due = if kind == 1 { t + hist } else if count == 0 { hist } else { due + hist }; count += 1; times.push(t); }
        let wanted = count == 1 && times.len() == 1 && times[0] == t || saved + rec <= t;
        let r = a.it().iterate(&mut w, true);
        let now = a.it().get_current_time();
        if kind != 1 { check_eq("advances", now, t + dt, 1e-6); } else { check("advances", now > t); }
        check("number of records", a.it().get_n_historic_snapshots() == count);
        match r {
            Ok(trigger) => {
                check("goes on while another step fits", kind == 1 || now + dt <= limit);
                check("asks for a recovery snapshot", trigger == wanted);
                if trigger { a.it().write_recovery_snapshot(Path::new("s.bin"), &mut w); saved = now; }
            }
            Err(_) => { check("ends when no further step fits", kind == 1 || now + dt > limit); reach("ended"); break; }
        }
    }
    drop(w);
    let r = records("h.bin").unwrap_or_default();
    check("records in the file", r.len() == count);
    for (k, t) in times.iter().enumerate() { if let Some(x) = r.get(k) { check_eq("stamp", x.t, *t, 1e-6); if kind != 1 || k == 0 { check_eq("stamp dt", x.dt, dt, 1e-6); } } }
    reach("done");
}
pub fn h_sched_lf() { sched(2, 4) }
pub fn h_sched_wh() { sched(0, 4) }
pub fn h_sched_ias() { sched(1, 3) }

fn few(n: usize) -> Universe {
    let mut ps = vec![];
    for i in 0..n {
        let k = i as f64;
        let mut b = if i == 0 { Particle::new(1., 4e-3, 0.3, ax(0., 0., 0.), ax(0., 0., 0.), ax(0.1, 0.2, 0.3)) } else { Particle::new(1e-5 * k, 1e-4, 0.5, ax(0.5 * k, 0.1, 0.01 * k), ax(-0.001, 0.02 / k, 0.001), ax(0.1, 0.2, 2. * k)) };
        let tm = TidalModel::ConstantTimeLag(ConstantTimeLagParameters { dissipation_factor: 0.5, dissipation_factor_scale: 2., love_number: 0.3 });
        b.set_tides(Tides::new(if i == 0 { TidesEffect::CentralBody(tm) } else { TidesEffect::OrbitingBody(tm) }));
        ps.push(b);
    }
    Universe::new(0., 1e6, ps, ConsiderEffects { tides: true, ..no_effects() })
}
/// state reached by real steps: saved, restored, and then carried on by both
fn rt_run(kind: u64) {
    let (rec, hist) = (real("rec", 1., 10.), real("hist", 1., 10.));
    let u = few(3);
    let mut a = make(kind, 0.08, rec, hist, u);
    a.it().initialize_physical_values();
    let mut w = writer(0);
    for _ in 0..2 { let _ = a.it().iterate(&mut w, true); }
    a.it().write_recovery_snapshot(Path::new("s.bin"), &mut w);
    for x in records("h.bin").unwrap_or_default() { for c in 0..17 { check_def(&name(c % 10, ["defined", "defined1"][c / 10]), x.v[c]); } }
    match restore_snapshot(Path::new("s.bin")) {
        Ok(mut b) => {
            check("restored as saved", a.same(&*b));
            let _ = a.it().iterate(&mut w, true);
            let _ = b.iterate(&mut w, true);
            check("carries on alike", a.same(&*b));
        }
        Err(_) => check("restored", false),
    }
    reach("done");
}
pub fn h_rt_run_lf() { rt_run(2) }
pub fn h_rt_run_wh() { rt_run(wh()) }
pub fn h_rt_run_ias() { rt_run(1) }

/// a run cut off after a recovery snapshot and resumed from it leaves the same history as one that was not
pub fn h_resume() {
    let (dt, extra) = (real("dt", 0.01, 0.05), choice("lost", 3));
    let mk = || {
        let mut u = few(2);
        for i in 0..2 { let w = axes(&name(i, "w"), 0.1, 1.); u.particles[i].angular_momentum = mul(u.particles[i].moment_of_inertia, w); }
        let mut l = LeapFrog::new(dt, 1e5, 0.99 * dt, u); // not in step with dt: ties would be decided by rounding
        l.initialize_physical_values();
        l
    };
    let mut a = mk();
    let mut w = get_universe_history_writer(Path::new("a.bin"), 0);
    for _ in 0..4 { let _ = a.iterate(&mut w, true); }
    drop(w);
    let mut b = mk();
    let mut w = writer(0);
    for _ in 0..2 { let _ = b.iterate(&mut w, true); }
    b.write_recovery_snapshot(Path::new("s.bin"), &mut w);
    for _ in 0..extra { let _ = b.iterate(&mut w, true); }
    drop(w);
    let Ok(mut c) = restore_snapshot(Path::new("s.bin")) else { check("restored", false); return; };
    let mut w = writer(c.get_n_historic_snapshots() as u64 * n_bytes_per_particle_in_historic_snapshot() * c.get_n_particles() as u64);
    for _ in 0..2 { let _ = c.iterate(&mut w, true); }
    drop(w);
    let (x, y) = (records("a.bin").unwrap_or_default(), records("h.bin").unwrap_or_default());
    check("as many records", x.len() == 8 && y.len() == 8);
    for (p, q) in x.iter().zip(y.iter()) {
        check_eq("time", p.t, q.t, 1e-6);
        check("body", p.id == q.id);
        for c in 0..17 { check_eq(&name(c % 10, ["column", "column1"][c / 10]), q.v[c], p.v[c], 1e-30); }
    }
    let d = c.as_any().downcast_ref::<LeapFrog>();
    check("same kind", d.is_some());
    if let Some(d) = d { same_state("end ", &d.universe, &a.universe); check_eq("end time", d.current_time, a.current_time, 1e-6); }
    reach("done");
}
/// opening the history of a run that expects `want` bytes
pub fn h_history_file() {
    let have = 52 * choice("have", 8);
    let want = 156 * choice("want", 3);
    let old: Vec<u8> = (0..have).map(|i| (i * 7 % 251) as u8).collect();
    if have > 0 || choice("exists", 2) == 1 { let _ = std::fs::write("h.bin", &old); }
    let mut ok = false;
    let p = panics(|| { use std::io::Write; let mut w = writer(want); let _ = w.write_all(&[9u8; 20]); let _ = w.flush(); ok = true; });
    let now = bytes("h.bin");
    if have < want {
        check("an incomplete history is refused", p);
        check("a refused history is left alone", now == old);
        reach("refused");
    } else {
        check("a complete history is accepted", !p && ok);
        let mut e = old[..want as usize].to_vec(); e.extend_from_slice(&[9u8; 20]);
        check("what the run had written stays, what came after goes, new records follow", now == e);
        reach("continued");
    }
}
fn load_any(p: &Path) -> Option<Box<dyn Integrator>> { let mut r = None; let bad = panics(|| r = restore_snapshot(p).ok()); if bad { None } else { r } }
fn small(kind: u64, now: f64) -> Any3 {
    let mut u = Universe::new(0., 1e6, vec![Particle::new(1., 4e-3, 0.3, ax(0., 0., 0.), ax(0., 0., 0.), ax(0.1, 0.2, 0.3))], no_effects());
    u.particles[0].inertial_position = axes("p", -1., 1.);
    let mut a = make(kind, 0.08, 1., 1., u);
    match &mut a { Any3::W(x) => x.current_time = now, Any3::I(x) => x.current_time = now, Any3::L(x) => x.current_time = now }
    a
}
/// killed at any moment of a save, in the middle of a write or not: a complete snapshot is still on disk, under its name
/// or as a backup, with all the history it refers to, and nothing half-written is taken for a snapshot
fn crash(kind: u64) {
    let mut a = small(kind, real("now", 1., 2.));
    let mut b = small(kind, real("later", 3., 4.));
    let mut w = writer(0);
    let first = choice("first", 2) == 0;
    if !first { a.it().write_recovery_snapshot(Path::new("s.bin"), &mut w); }
    let k = choice("crash", 12);
    let r = process(|| {
        use std::io::Write;
        let _ = w.write_all(&[1u8; 156]);
        crash_at(k);
        b.it().write_recovery_snapshot(Path::new("s.bin"), &mut w);
    });
    let (mut olds, mut news) = (0, 0);
    if let Ok(d) = std::fs::read_dir(".") {
        for e in d.flatten() {
            let p = e.path();
            if p.extension().map_or(true, |x| x != "bin") || p.ends_with("h.bin") { continue; }
            if let Some(x) = load_any(&p) {
                let t = x.get_current_time();
                let n = t >= 3.;
                if n { news += 1; } else { olds += 1; }
                check("a snapshot on disk is whole", match (&a, &b) { (Any3::W(a), Any3::W(b)) => eqw(if n { b } else { a }, &*x), (Any3::I(a), Any3::I(b)) => eqi(if n { b } else { a }, &*x), (Any3::L(a), Any3::L(b)) => eql(if n { b } else { a }, &*x), _ => false });
            }
        }
    }
    check("some snapshot survives", first || olds + news > 0);
    check("a finished save is there", r != 0 || news == 1);
    check("the history was written first", news == 0 || bytes("h.bin").len() == 156);
    reach(if r == 0 { "saved" } else { "killed" });
}
fn eqw(a: &WHFast, b: &dyn Integrator) -> bool { b.as_any().downcast_ref::<WHFast>().map_or(false, |b| a.universe == b.universe && a.current_time == b.current_time) }
fn eqi(a: &Ias15, b: &dyn Integrator) -> bool { b.as_any().downcast_ref::<Ias15>().map_or(false, |b| a.universe == b.universe && a.current_time == b.current_time) }
fn eql(a: &LeapFrog, b: &dyn Integrator) -> bool { b.as_any().downcast_ref::<LeapFrog>().map_or(false, |b| a.universe == b.universe && a.current_time == b.current_time) }
pub fn h_crash_lf() { crash(2) }
pub fn h_crash_wh() { crash(0) }
pub fn h_crash_ias() { crash(1) }

/// how often output is written has no influence on the motion
fn neutral(kind: u64, steps: usize) {
    let dt = if kind == 2 { real("dt", 0.01, 0.05) } else { 0.08 };
    let mk = |hist: f64| {
        let mut u = few(if kind == 2 { 2 } else { 3 });
        if kind == 2 { for i in 0..2 { let w = axes(&name(i, "w"), 0.1, 1.); u.particles[i].angular_momentum = mul(u.particles[i].moment_of_inertia, w); } }
        let mut a = make(kind, dt, 1e5, hist, u);
        a.it().initialize_physical_values();
        a
    };
    let (mut a, mut b) = (mk(1e5), mk(0.99 * dt));
    let mut w = writer(0);
    let mut x = get_universe_history_writer(Path::new("x.bin"), 0);
    for _ in 0..steps {
        let _ = a.it().iterate(&mut w, true);
        let _ = b.it().iterate(&mut x, true);
        b.it().write_recovery_snapshot(Path::new("s.bin"), &mut x);
    }
    check("written often and seldom", a.it().get_n_historic_snapshots() == 1 && (kind == 1 || b.it().get_n_historic_snapshots() == steps));
    check_eq("time", b.it().get_current_time(), a.it().get_current_time(), 1e-6);
    let v = a.universe().clone();
    same_state("", b.universe(), &v);
    reach("done");
}
pub fn h_neutral_lf() { neutral(2, 3) }
pub fn h_neutral_wh() { neutral(wh(), 4) }
pub fn h_neutral_ias() { neutral(1, 4) }
/// changing the settings of a simulation in progress
fn settings(kind: u64) {
    let (limit, now, new, nh, nr) = (real("limit", 10., 20.), real("now", 0., 9.), real("new", -5., 40.), real("nh", -1., 5.), real("nr", -1., 5.));
    let evolving = choice("evolving", 2) == 1;
    let mut u = few(2);
    u.time_limit = limit;
    if evolving {
        u.consider_effects.evolution = true;
        u.particles_evolvers[1].evolution = EvolutionType::GalletBolmont2017(1.0);
        u.particles_evolvers[1].time = vec![0., 15., 30.];
    }
    let mut a = make(kind, 0.08, 1., 2., u);
    match &mut a { Any3::W(x) => x.current_time = now, Any3::I(x) => x.current_time = now, Any3::L(x) => x.current_time = now }
    a.it().set_snapshot_periods(nh, nr);
    let (h, r) = match &a { Any3::W(x) => (x.historic_snapshot_period, x.recovery_snapshot_period), Any3::I(x) => (x.historic_snapshot_period, x.recovery_snapshot_period), Any3::L(x) => (x.historic_snapshot_period, x.recovery_snapshot_period) };
    check_eq("history period", h, if nh > 0. { nh } else { 2. }, 1e-6);
    check_eq("recovery period", r, if nr > 0. { nr } else { 1. }, 1e-6);
    let refused = panics(|| a.it().set_time_limit(new));
    let beyond = evolving && new > limit && new > 30.;
    check("refuses a limit in the past or beyond the evolution tables", refused == (new > 0. && (new < now || beyond)));
    if refused { reach("refused"); return; }
    let got = a.universe().time_limit;
    check_eq("limit", got, if new > 0. { new } else { limit }, 1e-6);
    check_eq("time", a.it().get_current_time(), now, 1e-6);
    reach("changed");
}
pub fn h_settings_lf() { settings(2) }
pub fn h_settings_wh() { settings(0) }
pub fn h_settings_ias() { settings(1) }

/// a snapshot cut short (by a crash, a full disk) is never taken for a simulation
fn torn(kind: u64, n: u64, step: usize) {
    let mut a = small(kind, real("now", 1., 2.));
    let mut w = writer(0);
    a.it().write_recovery_snapshot(Path::new("s.bin"), &mut w);
    let l = bytes("s.bin").len();
    let cut = 1 + step * choice("cut", n) as usize;
    if cut >= l { return; }
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open("s.bin") { let _ = f.set_len((l - cut) as u64); }
    check("a cut-off snapshot is refused", load_any(Path::new("s.bin")).is_none());
    reach("done");
}
pub fn h_torn_lf() { torn(2, 40, 97) }
pub fn h_torn_wh() { torn(0, 60, 53) }
pub fn h_torn_ias() { torn(1, 60, 151) }
harnesses!(h_rt_bin, h_layout_n1, h_layout_n3, h_sched_lf, h_sched_wh, h_sched_ias, h_rt_run_lf, h_rt_run_wh, h_rt_run_ias, h_resume, h_history_file, h_crash_lf, h_crash_wh, h_crash_ias, h_neutral_lf, h_neutral_wh, h_neutral_ias, h_settings_lf, h_settings_wh, h_settings_ias, h_torn_lf, h_torn_wh, h_torn_ias);
