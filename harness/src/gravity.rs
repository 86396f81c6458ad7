use crate::sym::*;
use crate::util::*;
use posidonius::*;
use posidonius::constants::G;

fn bodies(n: usize, host: usize) -> Universe {
    // most massive body at index `host`; masses and positions symbolic, radii small so that bodies need not touch
    let mut ps = vec![];
    for i in 0..n {
        let m = if i == host { real(&name(i, "m"), 0.5, 2.0) } else { real(&name(i, "m"), 1e-9, 0.4) };
        ps.push(Particle::new(m, 1e-7, 0.5, ax(i as f64, 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.)));
    }
    let mut u = Universe::new(0., 10., ps, no_effects());
    for i in 0..n { u.particles[i].inertial_position = axes(&name(i, "p"), -20., 20.); }
    u
}
fn newton(u: &Universe, i: usize, skip: impl Fn(usize, usize) -> bool) -> (Axes, f64) {
    let mut a = ax(0., 0., 0.);
    let mut s = 0.;
    for j in 0..u.n_particles {
        if j == i || skip(i, j) { continue; }
        let d = sub(u.particles[j].inertial_position, u.particles[i].inertial_position);
        let r2 = dot(d, d);
        let r = r2.sqrt();
        a = add(a, mul(G * u.particles[j].mass / (r2 * r), d));
        s += G * u.particles[j].mass / r2;
    }
    (a, s)
}
fn run(n: usize, host: usize, terms: IgnoreGravityTerms, skip: impl Fn(usize, usize) -> bool) {
    let mut u = bodies(n, host);
    u.calculate_roche_radiuses();
    if panics(|| u.gravity_calculate_acceleration(terms)) { reach("aborted"); return; }
    reach("computed");
    for i in 0..n {
        let (a, s) = newton(&u, i, &skip);
        check_axes(&name(i, "newton"), u.particles[i].inertial_acceleration, a, s);
    }
}
pub fn h_gravity_n2() { run(2, 0, IgnoreGravityTerms::None, |_, _| false) }
pub fn h_gravity_n3() { let h = choice("host", 3) as usize; run(3, h, IgnoreGravityTerms::None, |_, _| false) }
pub fn h_gravity_wh1() {
    let h = choice("host", 3) as usize;
    let first = if h == 0 { 1 } else { 0 };
    run(3, h, IgnoreGravityTerms::WHFastOne, |i, j| (i == h && j == first) || (j == h && i == first))
}
pub fn h_gravity_wh2() { let h = choice("host", 3) as usize; run(3, h, IgnoreGravityTerms::WHFastTwo, |i, j| i == h || j == h) }
/// the full number of bodies the program allows: nine at fixed places, one anywhere in a box away from them
pub fn h_gravity_n10() {
    let n = 10;
    let moving = choice("moving", 10) as usize;
    let host = 9 - moving;
    let ps = (0..n).map(|i| Particle::new(if i == host { 1. } else { 1e-4 * (1. + i as f64) }, 1e-7, 0.5, ax(i as f64, 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.))).collect();
    let mut u = Universe::new(0., 10., ps, no_effects());
    for i in 0..n { u.particles[i].inertial_position = if i == moving { axes("p", 20., 30.) } else { let k = i as f64; ax(k, 0.5 * k * k - 3., 1. - 0.25 * k) }; }
    u.calculate_roche_radiuses();
    u.gravity_calculate_acceleration(IgnoreGravityTerms::None);
    for i in 0..n {
        let (a, s) = newton(&u, i, |_, _| false);
        check_axes(&name(i, "newton"), u.particles[i].inertial_acceleration, a, s);
    }
    reach("computed");
}
harnesses!(h_gravity_n10, h_gravity_n2, h_gravity_n3, h_gravity_wh1, h_gravity_wh2);
