use crate::compose::*;
use crate::integ::*;
use crate::persist::wh;
use crate::sym::*;
use crate::util::*;
use posidonius::whfast::{verif, CoordinatesType};
use posidonius::*;

/// stands for the Keplerian motion: any map will do to see how the integrator is put together around it
fn flow(mu: f64, dt: f64, x: Axes, v: Axes) -> (Axes, Axes) { (add(mul(1. - 7. * mu * dt, x), mul(dt, v)), sub(mul(1. + mu, v), mul(3. * mu * dt, x))) }
/// a simpler one, for where the terms get too many
fn flow_simple(mu: f64, dt: f64, x: Axes, v: Axes) -> (Axes, Axes) { if unsafe { SIMPLE } == 1 { (add(x, mul(dt * mu * 100., v)), v) } else { (x, add(v, mul(dt * mu * 100., x))) } }
static mut SIMPLE: u8 = 0;
fn stand_in(mu: f64, dt: f64, x: Axes, v: Axes) -> (Axes, Axes) { if unsafe { SIMPLE } > 0 { flow_simple(mu, dt, x, v) } else { flow(mu, dt, x, v) } }
fn mean(u: &Universe, o: &[usize], f: impl Fn(&Particle) -> Axes) -> (f64, Axes) {
    let (mut m, mut s) = (0., ax(0., 0., 0.));
    for &i in o { m += u.particles[i].mass; s = add(s, mul(u.particles[i].mass, f(&u.particles[i]))); }
    (m, mul(1. / m, s))
}
/// the Wisdom-Holman map in the three coordinate systems; o: host first, then the others in order
fn wh_map(u: &mut Universe, kind: u64, dt: f64, o: &[usize]) {
    let (n, h, g) = (o.len(), o[0], posidonius::constants::G);
    let m: Vec<f64> = o.iter().map(|&i| u.particles[i].mass).collect();
    let (mut q, mut w) = (vec![ax(0., 0., 0.); n], vec![ax(0., 0., 0.); n]);
    let (mt, mut cx) = mean(u, o, |p| p.inertial_position);
    let (_, cv) = mean(u, o, |p| p.inertial_velocity);
    for k in 1..n {
        let p = u.particles[o[k]];
        if kind == 0 {
            q[k] = sub(p.inertial_position, mean(u, &o[..k], |p| p.inertial_position).1);
            w[k] = sub(p.inertial_velocity, mean(u, &o[..k], |p| p.inertial_velocity).1);
        } else {
            q[k] = sub(p.inertial_position, u.particles[h].inertial_position);
            w[k] = mul(if kind == 20 { (m[0] + m[k]) / m[0] } else { 1. }, sub(p.inertial_velocity, cv));
        }
    }
    let kepler = |q: &mut Vec<Axes>, w: &mut Vec<Axes>| { let mut s = m[0]; for k in 1..n { s += m[k]; let mass = match kind { 0 => s, 10 => m[0], _ => m[0] + m[k] }; let r = stand_in(g * mass, 0.5 * dt, q[k], w[k]); q[k] = r.0; w[k] = r.1; } };
    let jump = |q: &mut Vec<Axes>, w: &Vec<Axes>| {
        if kind == 0 { return; }
        for k in 1..n { for j in 1..n { if kind == 10 { q[k] = add(q[k], mul(0.5 * dt * m[j] / m[0], w[j])); } else if j != k { q[k] = add(q[k], mul(0.5 * dt * m[j] / (m[0] + m[j]), w[j])); } } }
    };
    let back = |u: &mut Universe, q: &Vec<Axes>, w: &Vec<Axes>, cx: Axes| {
        // coordinates of the host, then of the others
        let (mut x0, mut v0) = (cx, cv);
        if kind == 0 { let mut s = m[0]; for k in 1..n { s += m[k]; x0 = sub(x0, mul(m[k] / s, q[k])); v0 = sub(v0, mul(m[k] / s, w[k])); } }
        else { for k in 1..n { x0 = sub(x0, mul(m[k] / mt, q[k])); v0 = sub(v0, mul(if kind == 20 { m[k] / (m[0] + m[k]) } else { m[k] / m[0] }, w[k])); } }
        u.particles[h].inertial_position = x0;
        u.particles[h].inertial_velocity = v0;
        let (mut s, mut x, mut v) = (m[0], x0, v0); // Jacobi: centre of mass of what is inside
        for k in 1..n {
            let p = &mut u.particles[o[k]];
            if kind == 0 {
                p.inertial_position = add(x, q[k]); p.inertial_velocity = add(v, w[k]);
                s += m[k]; x = add(x, mul(m[k] / s, q[k])); v = add(v, mul(m[k] / s, w[k]));
            } else { p.inertial_position = add(x0, q[k]); p.inertial_velocity = add(cv, mul(if kind == 20 { m[0] / (m[0] + m[k]) } else { 1. }, w[k])); }
        }
    };
    kepler(&mut q, &mut w);
    jump(&mut q, &w);
    cx = add(cx, mul(0.5 * dt, cv));
    back(u, &q, &w, cx);
    // accelerations without what the Keplerian motion has
    u.gravity_calculate_acceleration(if kind == 0 { IgnoreGravityTerms::WHFastOne } else { IgnoreGravityTerms::WHFastTwo });
    let acc: Vec<Axes> = o.iter().map(|&i| u.particles[i].inertial_acceleration).collect();
    let mut s = m[0];
    for k in 1..n {
        s += m[k];
        let a = match kind { 0 => sub(acc[k], mean(u, &o[..k], |p| p.inertial_acceleration).1), 10 => acc[k], _ => mul((m[0] + m[k]) / m[0], acc[k]) };
        w[k] = add(w[k], mul(dt, a));
        if kind == 0 && k > 1 { let r2 = dot(q[k], q[k]) + 1e-12; w[k] = add(w[k], mul(dt * g * s / (r2 * r2.sqrt()), q[k])); }
    }
    jump(&mut q, &w);
    kepler(&mut q, &mut w);
    cx = add(cx, mul(0.5 * dt, cv));
    back(u, &q, &w, cx);
}
fn coords(kind: u64) -> CoordinatesType { match kind { 0 => CoordinatesType::Jacobi, 10 => CoordinatesType::DemocraticHeliocentric, _ => CoordinatesType::WHDS } }
fn step(n: usize, host: usize, kind: u64, steps: usize, simple: u8) {
    unsafe { SIMPLE = simple };
    let frame = |q: &str, s: f64| if simple > 0 { ax(0., 0., 0.) } else { axes(q, -s, s) };
    let mut ps = vec![];
    for i in 0..n {
        let k = if i < host { i + 1 } else { i } as f64;
        let mut b = Particle::new(if i == host { real("M", 0.5, 2.) } else { real(&name(i, "m"), 1e-6, 0.1) }, 1e-6, 0.3, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 0.));
        b.inertial_position = if i == host { frame("p", 5.) } else { add(frame("p", 5.), add(ax(4. * k - 2., 0., 0.), if simple == 2 { ax(real(&name(i, "rx"), -1., 1.), 0.5 * k, 0.25) } else { axes(&name(i, "r"), -1., 1.) })) };
        b.inertial_velocity = add(frame("u", 1.), axes(&name(i, "v"), -0.1, 0.1));
        ps.push(b);
    }
    let mut u = Universe::new(0., 1e6, ps.clone(), no_effects());
    for i in 0..n { u.particles[i].inertial_position = ps[i].inertial_position; u.particles[i].inertial_velocity = ps[i].inertial_velocity; }
    let dt = real("dt", 1e-3, 5e-2);
    let mut it = WHFast::new(dt, 1e5, 1e5, u.clone(), coords(kind));
    it.initialize_physical_values();
    u.calculate_roche_radiuses();
    let mut o = vec![host];
    for i in 0..n { if i != host { o.push(i); } }
    unsafe { verif::KEPLER_FLOW = Some(stand_in) };
    let mut w = writer(0);
    for s in 0..steps {
        let _ = it.iterate(&mut w, true);
        wh_map(&mut u, kind, dt, &o);
        if simple == 1 {
            // the same in the coordinates the motion separates in: centre of mass, and each body relative to those before it
            for k in 0..n {
                let f = |u: &Universe, v: fn(&Particle) -> Axes| if k == 0 { mean(u, &o, v).1 } else { sub(v(&u.particles[o[k]]), mean(u, &o[..k], v).1) };
                check_axes(&name(k, "pos"), f(&it.universe, |p| p.inertial_position), f(&u, |p| p.inertial_position), 1e-3);
                if k > 0 { check_axes(&name(k, "vel"), f(&it.universe, |p| p.inertial_velocity), f(&u, |p| p.inertial_velocity), 1e-6); }
            }
        } else { same_state(["a", "b", "c"][s], &it.universe, &u); }
        u = it.universe.clone();
    }
    reach("done");
}
/// effects act for half a step before and half a step after the motion
fn kick(kind: u64) {
    unsafe { SIMPLE = 2 };
    let mut ps = vec![];
    for i in 0..2 {
        let mut b = Particle::new(if i == 0 { real("M", 0.5, 2.) } else { real("m", 1e-4, 0.1) }, real(&name(i, "R"), 1e-4, 1e-3), 0.3, ax(0., 0., 0.), ax(0., 0., 0.), ax(0.1, 0.2, 0.3));
        let tm = TidalModel::ConstantTimeLag(ConstantTimeLagParameters { dissipation_factor: 0., dissipation_factor_scale: 2., love_number: real(&name(i, "k"), 0., 1.) });
        b.set_tides(Tides::new(if i == 0 { TidesEffect::CentralBody(tm) } else { TidesEffect::OrbitingBody(tm) }));
        b.inertial_position = if i == 0 { ax(0., 0., 0.) } else { axes("r", 0.1, 1.) };
        b.inertial_velocity = axes(&name(i, "v"), 0.01, 0.1);
        ps.push(b);
    }
    let mut u = Universe::new(0., 1e6, ps.clone(), on(1));
    for i in 0..2 { u.particles[i].inertial_position = ps[i].inertial_position; u.particles[i].inertial_velocity = ps[i].inertial_velocity; }
    let dt = real("dt", 1e-3, 5e-2);
    let mut it = WHFast::new(dt, 1e5, 1e5, u.clone(), coords(kind));
    it.initialize_physical_values();
    u.calculate_roche_radiuses();
    unsafe { verif::KEPLER_FLOW = Some(stand_in) };
    let push = |u: &mut Universe| {
        u.inertial_to_heliocentric();
        u.calculate_additional_effects(0., true, true, true, IgnoreGravityTerms::None);
        for p in u.particles[..2].iter_mut() { p.inertial_velocity = add(p.inertial_velocity, mul(0.5 * dt, p.inertial_additional_acceleration)); }
    };
    let mut w = writer(0);
    let _ = it.iterate(&mut w, true);
    push(&mut u);
    wh_map(&mut u, kind, dt, &[0, 1]);
    push(&mut u);
    same_state("", &it.universe, &u);
    check_eq("time", it.current_time, dt, 1e-6);
    reach("done");
}
/// the real Keplerian motion of a body on a circular orbit, any size, speed and orientation: a rotation by the angle dt |v| / r
fn circular(general: bool, smax: f64, terms: usize) {
    let s = real("phase", 1e-3, smax);
    let (r, w) = (real("r", 0.01, 10.), real("w", 1e-3, 1.));
    let along = |k: usize, x: f64| ax(if k == 0 { x } else { 0. }, if k == 1 { x } else { 0. }, if k == 2 { x } else { 0. });
    let (p, v) = if general { let i = choice("along", 3) as usize; (along(i, r), along((i + 1 + choice("across", 2) as usize) % 3, w)) } else { (ax(r, 0., 0.), ax(0., w, 0.)) };
    let dt = s * r / w;
    let mut it = WHFast::new(1., 1., 1., Universe::new(0., 1e6, vec![Particle::new(1., 1e-3, 0.3, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 0.)), Particle::new(1e-3, 1e-4, 0.3, ax(1., 0., 0.), ax(0., 0.01, 0.), ax(0., 0., 0.))], no_effects()), CoordinatesType::Jacobi);
    let (x, u) = verif::kepler_step(&mut it, 1, w * w * r, dt, p, v);
    let (mut c, mut sn, mut t) = (0., 0., 1.);
    for k in 0..terms { c += t; t *= s / (2 * k + 1) as f64; sn += t; t *= -s / (2 * k + 2) as f64; }
    check_axes("position", x, add(mul(c, p), mul(sn * r / w, v)), 1e-2);
    check_axes("velocity", u, sub(mul(c, v), mul(sn * w / r, p)), 1e-3);
    reach("done");
}
pub fn h_kep_small() { circular(false, 0.3, 9) }
pub fn h_kep_dir() { circular(true, 0.3, 9) }
pub fn h_kep_big() { circular(false, 1.2, 12) }
pub fn h_wh_kick() { kick(wh()) }
pub fn h_wh_j2() { step(2, choice("host", 2) as usize, 0, 1, 0) }
pub fn h_wh_d2() { step(2, choice("host", 2) as usize, 10, 1, 0) }
pub fn h_wh_w2() { step(2, choice("host", 2) as usize, 20, 1, 0) }
pub fn h_wh_j3() { step(3, 0, 0, 1, 1) }
pub fn h_wh_j3v() { step(3, choice("host", 3) as usize, 0, 1, 2) }
pub fn h_wh_d3() { step(3, 0, 10, 1, 0) }
pub fn h_wh_w3() { step(3, 0, 20, 1, 0) }

/// a single body with a saturated wind loses angular momentum exponentially, whichever the integrator
fn brake(kind: u64) {
    let mut b = Particle::new(1., 4e-3, 0.3, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 0.));
    b.set_wind(Wind::new(WindEffect::Interaction, 2.5e-8, 0.25));
    let mut u = Universe::new(0., 1e6, vec![b], on(16));
    let w0 = if kind == 1 { ax(1., 2., 3.) } else { axes("w", 1., 2.) };
    u.particles[0].inertial_velocity = axes("v", 0.1, 1.);
    u.particles[0].angular_momentum = mul(u.particles[0].moment_of_inertia, w0);
    let mut a = crate::persist::make(kind, 0.5, 1e5, 1e5, u);
    a.it().initialize_physical_values();
    let c = { let u = a.universe(); u.inertial_to_heliocentric(); u.calculate_additional_effects(0., false, true, true, IgnoreGravityTerms::None); -u.particles[0].dangular_momentum_dt.x / u.particles[0].angular_momentum.x };
    let l0 = a.universe().particles[0].angular_momentum;
    let mut w = writer(0);
    let _ = a.it().iterate(&mut w, true);
    let t = a.it().get_current_time();
    let l = a.universe().particles[0].angular_momentum;
    check("brakes", c * t > 1e-5 && c * t < 1e-2);
    let x = c * t;
    let (e, d) = (1. - x + x * x / 2. - x * x * x / 6., if kind == 2 { x * x } else { x * x * x }); // LeapFrog takes half of the torque from the start of the step
    for (p, q) in [(l.x, l0.x), (l.y, l0.y), (l.z, l0.z)] { check("keeps braking", p > q * (e - d) && p < q * (e + d)); }
    reach("done");
}
pub fn h_brake_lf() { brake(2) }
pub fn h_brake_wh() { brake(0) }
pub fn h_brake_ias() { brake(1) }
harnesses!(h_wh_j2, h_wh_d2, h_wh_w2, h_wh_j3, h_wh_j3v, h_wh_d3, h_wh_w3, h_kep_small, h_kep_dir, h_kep_big, h_wh_kick, h_brake_lf, h_brake_wh, h_brake_ias);
