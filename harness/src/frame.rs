use crate::compose::*;
use crate::integ::*;
use crate::persist::{make, wh};
use crate::sym::*;
use crate::util::*;
use posidonius::constants::G;
use posidonius::*;

// ---- the motion of given systems, seen from any inertial frame
fn at(u: &mut Universe, c: Axes, v: Axes) { for p in u.particles[..u.n_particles].iter_mut() { p.inertial_position = add(p.inertial_position, c); p.inertial_velocity = add(p.inertial_velocity, v); } }
/// classical solution of the two-body problem: position and velocity after t
fn two_body(mu: f64, p: Axes, v: Axes, t: f64) -> (Axes, Axes) {
    let r = dot(p, p).sqrt();
    let a = 1. / (2. / r - dot(v, v) / mu);
    let h = cross(p, v);
    let ev = sub(mul(1. / mu, cross(v, h)), mul(1. / r, p));
    let e = dot(ev, ev).sqrt();
    let x = mul(1. / e, ev);
    let y = cross(mul(1. / dot(h, h).sqrt(), h), x);
    let (cx, cy) = (dot(p, x), dot(p, y));
    if a > 0. {
        let b = a * (1. - e * e).sqrt();
        let e0 = (cy / b).atan2(cx / a + e);
        let n = (mu / (a * a * a)).sqrt();
        let m = e0 - e * e0.sin() + n * t;
        let (mut lo, mut hi) = (m - 1., m + 1.);
        for _ in 0..200 { let k = 0.5 * (lo + hi); if k - e * k.sin() < m { lo = k } else { hi = k } }
        let k = 0.5 * (lo + hi);
        let (s, c) = (k.sin(), k.cos());
        let d = n / (1. - e * c);
        (add(mul(a * (c - e), x), mul(b * s, y)), add(mul(-a * s * d, x), mul(b * c * d, y)))
    } else {
        let b = -a * (e * e - 1.).sqrt();
        let q: f64 = cy / b;
        let f0 = (q + (q * q + 1.).sqrt()).ln();
        let n = (mu / (-a * a * a)).sqrt();
        let m = e * f0.sinh() - f0 + n * t;
        let (mut lo, mut hi) = (-50., 50.);
        for _ in 0..200 { let k: f64 = 0.5 * (lo + hi); if e * k.sinh() - k < m { lo = k } else { hi = k } }
        let k: f64 = 0.5 * (lo + hi);
        let (s, c) = (k.sinh(), k.cosh());
        let d = n / (e * c - 1.);
        (add(mul(a * (c - e), x), mul(b * s, y)), add(mul(a * s * d, x), mul(b * c * d, y)))
    }
}
fn near(n: &str, a: Axes, b: Axes, tol: f64) { let d = sub(a, b); for k in [d.x, d.y, d.z] { check(n, k <= tol && k >= -tol); } }
/// shapes: (position, velocity in units of the circular one, masses, step in periods of the circular orbit)
fn shape(k: u64) -> (Axes, f64, Axes, f64, f64) {
    match k {
        0 => (ax(0.5, 0.1, 0.05), 1.02, ax(-0.1, 1., 0.2), 1e-3, 0.01),
        1 => (ax(-0.3, 0.4, 0.1), 1.37, ax(0.8, 0.7, -0.1), 0.2, 0.02),   // periastron of a very eccentric orbit
        2 => (ax(0.2, -0.6, 0.3), 0.3, ax(0.3, 0.2, 0.5), 1e-6, 0.1),     // close to apastron
        3 => (ax(0.4, 0.4, -0.2), 1.8, ax(-0.7, 0.6, 0.1), 1e-2, 0.1),    // hyperbolic
        4 => (ax(0.1, 0.9, 0.1), 1.1, ax(0.9, 0.1, -0.3), 1e-3, 2.3),     // more than an orbit per step
        5 => (ax(0.7, -0.2, 0.4), 0.9, ax(0.2, 0.8, 0.6), 0.3, 0.45),
        6 => (ax(0.4, 0.4, -0.2), 1.3, ax(-0.7, -0.6, 0.5), 1e-2, 0.3),   // coming in, eccentric, past the periastron
        _ => (ax(3., 4., -2.), 5., ax(-3., -4., 3.), 1e-2, 0.2),          // fast hyperbolic fly-by
    }
}
fn two(kind: u64, k: u64, steps: usize) {
    let (p, f, d, m, periods) = shape(k);
    let mu = G * (1. + m);
    let r = dot(p, p).sqrt();
    let v = mul(f * (mu / r / dot(d, d)).sqrt(), d);
    let dt = periods * 2. * std::f64::consts::PI * (r * r * r / mu).sqrt();
    let (c, w) = (axes("c", -5., 5.), axes("u", 0.05, 0.1));
    let mut u = Universe::new(0., 1e9, vec![Particle::new(1., 1e-7, 0.3, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 0.)), Particle::new(m, 1e-8, 0.3, p, v, ax(0., 0., 0.))], no_effects());
    at(&mut u, c, w);
    let mut a = make(kind, dt, 1e8, 1e8, u);
    a.it().initialize_physical_values();
    let mut o = writer(0);
    for _ in 0..steps {
        let _ = a.it().iterate(&mut o, true);
        let t = a.it().get_current_time();
        let (x, y) = two_body(mu, p, v, t);
        let s = |p: Axes| dot(p, p).sqrt();
        let b = &a.universe().particles;
        near("relative position", sub(b[1].inertial_position, b[0].inertial_position), x, 1e-10 * (s(x) + s(p)));
        near("relative velocity", sub(b[1].inertial_velocity, b[0].inertial_velocity), y, 1e-10 * (s(y) + s(v)) * (1. + (s(p) / s(x)).powi(2)));
        near("centre of mass", mul(1. / (1. + m), add(b[0].inertial_position, mul(m, b[1].inertial_position))), add(c, mul(t, w)), 1e-10 * s(p));
        near("momentum", mul(1. / (1. + m), add(b[0].inertial_velocity, mul(m, b[1].inertial_velocity))), w, 1e-10 * s(v));
    }
    reach("done");
}
pub fn h_two_j() { two(0, choice("shape", 8), 3) }
pub fn h_two_w() { two(20, choice("shape", 8), 3) }
pub fn h_two_ias() { two(1, choice("shape", 7), 4) }

// ---- reference: fourth order Runge-Kutta with many small steps
type State = Vec<(Axes, Axes, Axes)>;
fn get(u: &Universe) -> State { u.particles[..u.n_particles].iter().map(|p| (p.inertial_position, p.inertial_velocity, p.angular_momentum)).collect() }
fn put(u: &mut Universe, s: &State) { for (p, x) in u.particles[..s.len()].iter_mut().zip(s) { p.inertial_position = x.0; p.inertial_velocity = x.1; p.angular_momentum = x.2; } }
fn rate(u: &mut Universe, s: &State, t: f64) -> State {
    put(u, s);
    u.inertial_to_heliocentric();
    u.gravity_calculate_acceleration(IgnoreGravityTerms::None);
    u.calculate_additional_effects(t, true, true, true, IgnoreGravityTerms::None);
    u.particles[..u.n_particles].iter().map(|p| (p.inertial_velocity, add(p.inertial_acceleration, p.inertial_additional_acceleration), p.dangular_momentum_dt)).collect()
}
fn lin(s: &State, h: f64, k: &State) -> State { s.iter().zip(k).map(|(a, b)| (add(a.0, mul(h, b.0)), add(a.1, mul(h, b.1)), add(a.2, mul(h, b.2)))).collect() }
fn advance(u: &mut Universe, t0: f64, t1: f64, n: usize) {
    let h = (t1 - t0) / n as f64;
    for i in 0..n {
        let (t, s) = (t0 + i as f64 * h, get(u));
        let k1 = rate(u, &s, t);
        let k2 = rate(u, &lin(&s, 0.5 * h, &k1), t + 0.5 * h);
        let k3 = rate(u, &lin(&s, 0.5 * h, &k2), t + 0.5 * h);
        let k4 = rate(u, &lin(&s, h, &k3), t + h);
        let s = lin(&lin(&lin(&lin(&s, h / 6., &k1), h / 3., &k2), h / 3., &k3), h / 6., &k4);
        put(u, &s);
    }
}
fn size(a: Axes) -> f64 { dot(a, a).sqrt() }
/// several bodies that attract each other
fn many(kind: u64, host: usize, dt: f64, steps: usize, tol: f64) {
    let mut ps = vec![];
    let mut k = 0.;
    for i in 0..4 {
        if i == host { ps.push(Particle::new(1., 1e-5, 0.3, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 0.))); continue; }
        k += 1.;
        let v: f64 = (G / (0.3 * k)).sqrt();
        ps.push(Particle::new(1e-3 * k, 1e-6, 0.3, ax(0.3 * k * (2. * k).cos(), 0.3 * k * (2. * k).sin(), 0.02 * k), ax(-v * (2. * k).sin(), 1.05 * v * (2. * k).cos(), 1e-3 * k), ax(0., 0., 0.)));
    }
    let mut u = Universe::new(0., 1e9, ps, no_effects());
    let mut r = u.clone();
    r.calculate_roche_radiuses();
    let (c, w) = (axes("c", -5., 5.), axes("u", 0.05, 0.1));
    at(&mut u, c, w);
    let mut a = make(kind, dt, 1e8, 1e8, u);
    a.it().initialize_physical_values();
    let mut o = writer(0);
    let mut t0 = 0.;
    for _ in 0..steps {
        let _ = a.it().iterate(&mut o, true);
        let t = a.it().get_current_time();
        advance(&mut r, t0, t, if kind == 1 { 200 } else { 40 });
        t0 = t;
        for i in 0..4 {
            let (p, q) = (&a.universe().particles[i], &r.particles[i]);
            near("position", p.inertial_position, add(add(q.inertial_position, c), mul(t, w)), tol * 0.3);
            near("velocity", p.inertial_velocity, add(q.inertial_velocity, w), tol * 0.03);
        }
    }
    reach("done");
}
pub fn h_many_wh() { let k = wh(); many(k, choice("host", 4) as usize, 0.02, 3, 1e-8) }
pub fn h_many_lf() { many(2, choice("host", 4) as usize, 2e-4, 3, 1e-10) }
pub fn h_many_ias() { many(1, choice("host", 4) as usize, 0.5, 3, 1e-11) }
/// two bodies with one effect, or with all of them together: what the effect does in a few steps is there, to within a small part of it
fn driven(kind: u64, mask: usize, dt: f64, steps: usize, part: f64) {
    let mk = |m: usize| {
        let mut ps = vec![];
        for i in 0..2 {
            let mut b = if i == 0 { Particle::new(1., 1e-2, 0.3, ax(0., 0., 0.), ax(0., 0., 0.), ax(0.5, 1., 3.)) } else { Particle::new(1e-2, 1e-3, 0.5, ax(0.08, 0.03, 0.02), ax(-0.02, 0.05, 0.005), ax(1., -0.5, 4.)) };
            let tm = TidalModel::ConstantTimeLag(ConstantTimeLagParameters { dissipation_factor: if i == 0 { 1e6 } else { 1e9 }, dissipation_factor_scale: 2., love_number: 0.3 });
            let rm = RotationalFlatteningModel::OblateSpheroid(OblateSpheroidParameters { love_number: 0.9 });
            if i == 0 {
                b.set_tides(Tides::new(TidesEffect::CentralBody(tm)));
                b.set_rotational_flattening(RotationalFlattening::new(RotationalFlatteningEffect::CentralBody(rm)));
                b.set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::CentralBody(GeneralRelativityImplementation::Kidder1995)));
                b.set_disk(Disk::new(DiskEffect::CentralBody(DiskProperties { inner_edge_distance: 1e-3, outer_edge_distance: 100., lifetime: 1e6, alpha: 1e-2, surface_density_normalization: 1e-1, mean_molecular_weight: 2.4 })));
                b.set_wind(Wind::new(WindEffect::Interaction, 1e-7, 0.25));
            } else {
                b.set_tides(Tides::new(TidesEffect::OrbitingBody(tm)));
                b.set_rotational_flattening(RotationalFlattening::new(RotationalFlatteningEffect::OrbitingBody(rm)));
                b.set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::OrbitingBody));
                b.set_disk(Disk::new(DiskEffect::OrbitingBody));
            }
            ps.push(b);
        }
        let mut u = Universe::new(0., 1e9, ps, on(m));
        u.calculate_spin_and_evolving_quantities(0., true);
        u.calculate_roche_radiuses();
        u
    };
    let (mut u, mut r, mut z) = (mk(mask), mk(mask), mk(0));
    let (c, w) = (axes("c", -5., 5.), axes("u", 0.05, 0.1));
    at(&mut u, c, w);
    let mut a = make(kind, dt, 1e8, 1e8, u);
    a.it().initialize_physical_values();
    let mut o = writer(0);
    for _ in 0..steps { let _ = a.it().iterate(&mut o, true); }
    let t = a.it().get_current_time();
    // the same without effects, to leave out what the integrator itself neglects
    let mut e = make(kind, dt, 1e8, 1e8, z.clone());
    e.it().initialize_physical_values();
    for _ in 0..steps { let _ = e.it().iterate(&mut o, true); }
    let same = e.it().get_current_time() == t;
    let n = if dt > 1. { 240 } else { 60 };
    advance(&mut r, 0., t, n);
    advance(&mut z, 0., t, n);
    let (mut moved, mut turned) = (0., 0.);
    for i in 0..2 {
        let (p, f, q, y) = (&a.universe().particles[i], &e.universe().particles[i], &r.particles[i], &z.particles[i]);
        let g = if same { f } else { y };
        let (dx, dv, dl) = (sub(q.inertial_position, y.inertial_position), sub(q.inertial_velocity, y.inertial_velocity), sub(q.angular_momentum, y.angular_momentum));
        let (ex, ev, el) = (sub(sub(p.inertial_position, add(c, mul(t, w))), g.inertial_position), sub(sub(p.inertial_velocity, w), g.inertial_velocity), sub(p.angular_momentum, g.angular_momentum));
        near("position", ex, dx, part * size(dx) + 1e-13);
        near("velocity", ev, dv, 0.05 * part * size(dv) + 1e-14);
        near("spin", el, dl, 0.05 * part * size(dl) + 1e-15 * size(q.angular_momentum));
        moved += size(dv) / size(q.inertial_velocity);
        turned += size(dl) / size(q.angular_momentum);
        #[cfg(feature = "native")]
        println!("{} same {} v {:e} L {:e} err x {:e} v {:e} L {:e}", i, same, size(dv) / size(q.inertial_velocity), size(dl) / size(q.angular_momentum), size(sub(ex, dx)) / size(dx), size(sub(ev, dv)) / size(dv), size(sub(el, dl)) / size(dl));
    }
    check("the effect shows", (mask == 16 || moved > 1e-12) && (mask == 8 || turned > 1e-12));
    reach("done");
}
fn effect() -> usize { [1, 2, 4, 8, 16, 31][choice("effect", 6) as usize] }
pub fn h_driven_wh() { let k = wh(); driven(k, effect(), 0.01, 2, 0.02) }
pub fn h_driven_lf() { driven(2, effect(), 1e-3, 2, 0.2) }
// the second step is too long for IAS15, which tries again with a shorter one
pub fn h_driven_ias() { let e = effect(); driven(1, e, if choice("step", 2) == 0 { 0.05 } else { 6. }, 2, 1e-3) }
harnesses!(h_two_j, h_two_w, h_two_ias, h_many_wh, h_many_lf, h_many_ias, h_driven_wh, h_driven_lf, h_driven_ias);
