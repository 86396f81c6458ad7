use crate::compose::*;
use crate::sym::*;
use crate::util::*;
use posidonius::*;
use std::path::Path;

pub fn writer(n: u64) -> std::io::BufWriter<std::fs::File> { posidonius::output::get_universe_history_writer(Path::new("h.bin"), n) }
pub fn same_state(tag: &str, a: &Universe, b: &Universe) {
    for i in 0..b.n_particles {
        let (p, q) = (&a.particles[i], &b.particles[i]);
        check_axes(&name(i, &[tag, "pos"].concat()), p.inertial_position, q.inertial_position, 1e-3);
        check_axes(&name(i, &[tag, "vel"].concat()), p.inertial_velocity, q.inertial_velocity, 1e-6);
        check_axes(&name(i, &[tag, "L"].concat()), p.angular_momentum, q.angular_momentum, 1e-30);
    }
}
/// drift half a step, kick a whole one, drift half a step
fn dkd(u: &mut Universe, t: f64, dt: f64) {
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(t, true, true, false, IgnoreGravityTerms::None);
    for p in u.particles[..u.n_particles].iter_mut() {
        p.inertial_position = add(p.inertial_position, mul(0.5 * dt, p.inertial_velocity));
        p.angular_momentum = add(p.angular_momentum, mul(0.5 * dt, p.dangular_momentum_dt));
    }
    u.gravity_calculate_acceleration(IgnoreGravityTerms::None);
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(t + 0.5 * dt, true, true, true, IgnoreGravityTerms::None);
    for p in u.particles[..u.n_particles].iter_mut() {
        p.inertial_velocity = add(p.inertial_velocity, mul(dt, add(p.inertial_acceleration, p.inertial_additional_acceleration)));
        p.inertial_position = add(p.inertial_position, mul(0.5 * dt, p.inertial_velocity));
        p.angular_momentum = add(p.angular_momentum, mul(0.5 * dt, p.dangular_momentum_dt));
    }
}
fn lf(n: usize, mask: usize, steps: usize) {
    let mut u = full(n, GeneralRelativityImplementation::Kidder1995, &on(mask));
    u.time_limit = 1e6;
    state(&mut u, "s");
    let dt = real("dt", 1e-3, 5e-2);
    let mut it = LeapFrog::new(dt, 1e5, 1e5, u.clone());
    it.initialize_physical_values();
    u.calculate_spin_and_evolving_quantities(0., true);
    u.calculate_roche_radiuses();
    let mut w = writer(0);
    for k in 0..steps {
        let mut r = Ok(false);
        let a = panics(|| r = it.iterate(&mut w, true));
        let b = panics(|| dkd(&mut u, k as f64 * dt, dt));
        check("stops on a close approach", a == b);
        if a { reach("aborted"); return; }
        same_state(["a", "b", "c"][k], &it.universe, &u);
        check_eq("time", it.get_current_time(), (k + 1) as f64 * dt, 1e-6);
        check("goes on", r.is_ok());
        u = it.universe.clone();
    }
    reach("done");
}
pub fn h_lf_n2() { lf(2, 0, 2) }
pub fn h_lf_n3() { lf(3, 0, 2) }
pub fn h_lf_eff() { lf(2, 31, 1) }
pub fn h_lf_eff2() { lf(2, 17, 2) }
harnesses!(h_lf_n2, h_lf_n3, h_lf_eff, h_lf_eff2);
