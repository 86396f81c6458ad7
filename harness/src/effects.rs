use crate::sym::*;
use crate::util::*;
use posidonius::*;
use posidonius::constants::K2;

/// n bodies at arbitrary inertial positions/velocities (relative to body `host`), with arbitrary spins
pub struct Setup { pub n: usize, pub host: usize, pub bary: bool }
pub fn body(i: usize, host: usize) -> Particle { // host: the most massive body
    let m = if i == host { real(&name(i, "m"), 0.5, 2.0) } else { real(&name(i, "m"), 1e-6, 0.4) };
    let r = real(&name(i, "R"), 1e-3, 1e-2);
    Particle::new(m, r, 0.5, ax(1. + i as f64, 0., 0.), ax(0., 0., 0.), ax(0.1, 0.2, 0.3))
}
/// place every body (the host anywhere, the others anywhere relative to it) and give each an angular momentum that
/// differs from the one it was constructed with; returns the spins L / I
pub fn place(u: &mut Universe, host: usize) -> Vec<Axes> {
    let w = (0..u.n_particles).map(|i| axes(&name(i, "w"), -2., 2.)).collect();
    place_with(u, host, &w);
    w
}
pub fn place_with(u: &mut Universe, host: usize, w: &Vec<Axes>) {
    for i in 0..u.n_particles { u.particles[i].angular_momentum = mul(u.particles[i].moment_of_inertia, w[i]); }
    let (p0, v0) = (axes("hp", -5., 5.), axes("hv", -1., 1.));
    for i in 0..u.n_particles {
        if i == host { u.particles[i].inertial_position = p0; u.particles[i].inertial_velocity = v0; continue; }
        u.particles[i].inertial_position = add(p0, axes(&name(i, "r"), -3., 3.));
        u.particles[i].inertial_velocity = add(v0, axes(&name(i, "v"), -0.1, 0.1));
    }
}
pub fn rel(u: &Universe, i: usize, h: usize) -> (Axes, Axes) {
    (sub(u.particles[i].inertial_position, u.particles[h].inertial_position), sub(u.particles[i].inertial_velocity, u.particles[h].inertial_velocity))
}
pub struct Ctl { pub k2: f64, pub sigma: f64 }
pub fn ctl_params(i: usize) -> (TidalModel, Ctl) {
    let (k2, scale, sigma) = (real(&name(i, "k"), 0., 1.), real(&name(i, "sc"), 0.1, 10.), real(&name(i, "sg"), 0., 1.));
    (TidalModel::ConstantTimeLag(ConstantTimeLagParameters { dissipation_factor: sigma, dissipation_factor_scale: scale, love_number: k2 }), Ctl { k2, sigma: scale * sigma })
}
pub fn tides_on() -> ConsiderEffects { ConsiderEffects { tides: true, ..no_effects() } }

/// Bolmont et al. 2015, eq. 5, 6, 8, 9, 19, 25 in vector form: force on the planet, torque on host spin, torque on planet spin
pub fn ctl_oracle(hm: f64, hr: f64, hw: Axes, h: &Ctl, pm: f64, pr: f64, pw: Axes, p: &Ctl, r: Axes, v: Axes) -> (Axes, Axes, Axes) {
    let d2 = dot(r, r);
    let d = d2.sqrt();
    let vr = dot(r, v) / d;
    let d7 = d2 * d2 * d2 * d;
    let cons = -3. * K2 / d7 * (pm * pm * hr.powi(5) * h.k2 + hm * hm * pr.powi(5) * p.k2);
    let diss = -13.5 * vr / (d7 * d) * (pm * pm * hr.powi(10) * h.sigma + hm * hm * pr.powi(10) * p.sigma);
    let os = 4.5 * pm * pm * hr.powi(10) * h.sigma / d7;
    let op = 4.5 * hm * hm * pr.powi(10) * p.sigma / d7;
    let fr = mul((cons + diss + (os + op) * vr / d) / d, r);
    let f = add(fr, add(mul(os / d, sub(cross(hw, r), v)), mul(op / d, sub(cross(pw, r), v))));
    let torque = |o: f64, w: Axes| mul(-o, sub(sub(mul(d, w), mul(dot(r, w) / d, r)), mul(1. / d, cross(r, v))));
    (f, torque(os, hw), torque(op, pw))
}
fn ctl(n: usize, host: usize, heavy: usize, disabled: usize) {
    let mut ps = vec![];
    let mut par = vec![];
    for i in 0..n {
        let mut b = body(i, heavy);
        let (model, c) = ctl_params(i);
        if i == host { b.set_tides(Tides::new(TidesEffect::CentralBody(model))); } else if i != disabled { b.set_tides(Tides::new(TidesEffect::OrbitingBody(model))); }
        par.push(c);
        ps.push(b);
    }
    let mut u = Universe::new(0., 10., ps, tides_on());
    let spins = place(&mut u, host);
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(0., true, true, true, IgnoreGravityTerms::None);
    let (mut fs, mut ts) = (ax(0., 0., 0.), ax(0., 0., 0.));
    let hm = u.particles[host].mass;
    for i in 0..n {
        if i == host { continue; }
        let p = u.particles[i];
        if i == disabled {
            check_axes(&name(i, "untouched.a"), p.inertial_additional_acceleration, ax(0., 0., 0.), 1.);
            check_axes(&name(i, "untouched.dL"), p.dangular_momentum_dt, ax(0., 0., 0.), 1.);
            continue;
        }
        let (r, v) = rel(&u, i, host);
        let (f, th, tp) = ctl_oracle(hm, u.particles[host].radius, spins[host], &par[host], p.mass, p.radius, spins[i], &par[i], r, v);
        check_axes(&name(i, "planet.a"), p.inertial_additional_acceleration, mul(1. / p.mass, f), 1e-40);
        check_axes(&name(i, "planet.dL"), p.dangular_momentum_dt, tp, 1e-40);
        fs = add(fs, f);
        ts = add(ts, th);
    }
    check_axes("host.a", u.particles[host].inertial_additional_acceleration, mul(-1. / hm, fs), 1e-40);
    check_axes("host.dL", u.particles[host].dangular_momentum_dt, ts, 1e-40);
    reach("done");
}
pub fn h_ctl_n2() { let h = choice("host", 2) as usize; ctl(2, h, h, 99) }
pub fn h_ctl_n3() { ctl(3, 0, 0, 99) }
pub fn h_ctl_n5() { ctl(5, 2, 2, 99) }
pub fn h_ctl_disabled() { ctl(3, 0, 0, 1 + choice("dis", 2) as usize) }
/// a host that is not the most massive body (a planet with a moon around a star)
pub fn h_ctl_moon() { let k = choice("dis", 2) as usize; ctl(3, 1, 2, if k == 0 { 99 } else { 2 }) }

/// shared skeleton: expected (acceleration, torque) per body
pub fn run_effects(u: &mut Universe, dl: bool, acc: bool, ig: IgnoreGravityTerms) {
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(0., true, dl, acc, ig);
}
pub fn check_all(u: &Universe, a: &Vec<Axes>, t: &Vec<Axes>, s: f64) {
    for i in 0..u.n_particles {
        check_axes(&name(i, "acc"), u.particles[i].inertial_additional_acceleration, a[i], s);
        check_axes(&name(i, "dL"), u.particles[i].dangular_momentum_dt, t[i], s);
    }
    reach("done");
}
pub fn zeros(n: usize) -> Vec<Axes> { vec![ax(0., 0., 0.); n] }

// ---- rotational flattening (oblate spheroid): Bolmont et al. 2015 eq. 15-18
fn c_over_w2(m: f64, k: f64, r: f64) -> f64 { m * k * r.powi(5) / 6. }
/// force on the planet, torque on the host's spin, torque on the planet's spin; written without dividing by a spin
pub fn oblate_oracle(hm: f64, hr: f64, hw: Axes, hk: f64, pm: f64, pr: f64, pw: Axes, pk: f64, r: Axes) -> (Axes, Axes, Axes) {
    let d2 = dot(r, r);
    let d5 = d2 * d2 * d2.sqrt();
    let (cs, cp) = (c_over_w2(pm, hk, hr), c_over_w2(hm, pk, pr));
    let (rs, rp) = (dot(r, hw), dot(r, pw));
    let radial = -3. / d5 * (cp * dot(pw, pw) + cs * dot(hw, hw)) + 15. / (d5 * d2) * (cs * rs * rs + cp * rp * rp);
    let (os, op) = (-6. * cs * rs / d5, -6. * cp * rp / d5);
    let f = add(mul(radial, r), add(mul(op, pw), mul(os, hw)));
    (f, mul(-os, cross(r, hw)), mul(-op, cross(r, pw)))
}
fn oblate(n: usize, host: usize, heavy: usize, disabled: usize, zero: u64) {
    let (mut ps, mut k) = (vec![], vec![]);
    for i in 0..n {
        let mut b = body(i, heavy);
        let love = real(&name(i, "k"), 0., 1.);
        let model = RotationalFlatteningModel::OblateSpheroid(OblateSpheroidParameters { love_number: love });
        if i == host { b.set_rotational_flattening(RotationalFlattening::new(RotationalFlatteningEffect::CentralBody(model))) }
        else if i != disabled { b.set_rotational_flattening(RotationalFlattening::new(RotationalFlatteningEffect::OrbitingBody(model))) }
        k.push(love);
        ps.push(b);
    }
    let mut u = Universe::new(0., 10., ps, ConsiderEffects { rotational_flattening: true, ..no_effects() });
    let w: Vec<Axes> = (0..n).map(|i| if zero >> i & 1 == 1 { ax(0., 0., 0.) } else { axes(&name(i, "w"), -2., 2.) }).collect();
    if n > 2 { for x in &w { assume(dot(*x, *x) > 1e-6); } } // bodies at rest: see h_oblate_n2 and h_oblate_nospin
    place_with(&mut u, host, &w);
    run_effects(&mut u, true, true, IgnoreGravityTerms::None);
    let (mut a, mut t) = (zeros(n), zeros(n));
    let h = u.particles[host];
    for i in 0..n {
        if i == host || i == disabled { continue; }
        let p = u.particles[i];
        let (f, th, tp) = oblate_oracle(h.mass, h.radius, w[host], k[host], p.mass, p.radius, w[i], k[i], rel(&u, i, host).0);
        a[i] = mul(1. / p.mass, f);
        t[i] = tp;
        a[host] = add(a[host], mul(-1. / h.mass, f));
        t[host] = add(t[host], th);
    }
    check_all(&u, &a, &t, 1e-40);
}
pub fn h_oblate_n2() { let h = choice("host", 2) as usize; oblate(2, h, h, 99, 0) }
pub fn h_oblate_n3() { oblate(3, 0, 0, 99, 0) }
pub fn h_oblate_n5() { oblate(5, 2, 2, 99, 0) }
pub fn h_oblate_disabled() { oblate(3, 0, 0, 1 + choice("dis", 2) as usize, 0) }
pub fn h_oblate_nospin() { oblate(2, 0, 0, 99, 1 + choice("which", 3)) }
pub fn h_oblate_moon() { let k = choice("dis", 2) as usize; oblate(3, 1, 2, if k == 0 { 99 } else { 2 }, 0) }

// ---- wind: Bolmont & Mathis 2016 eq. 14
fn wind(n: usize) {
    let (mut ps, mut kk, mut ss) = (vec![], vec![], vec![]);
    let off = choice("off", n as u64 + 1) as usize;
    for i in 0..n {
        let mut b = body(i, 0);
        let (k, s) = (real(&name(i, "K"), 0., 1.), real(&name(i, "sat"), 0.1, 2.));
        b.set_wind(Wind::new(if i == off { WindEffect::Disabled } else { WindEffect::Interaction }, k, s));
        kk.push(if i == off { 0. } else { k });
        ss.push(s);
        ps.push(b);
    }
    let mut u = Universe::new(0., 10., ps, ConsiderEffects { wind: true, ..no_effects() });
    let w = place(&mut u, 0);
    run_effects(&mut u, true, true, IgnoreGravityTerms::None);
    let mut t = zeros(n);
    for i in 0..n {
        let p = u.particles[i];
        let w2 = dot(w[i], w[i]);
        let sat = w2.sqrt() >= ss[i];
        if sat { reach("saturated") } else { reach("slow") }
        let e2 = if sat { ss[i] * ss[i] } else { w2 };
        t[i] = mul(-kk[i] * e2 * (p.radius / posidonius::constants::R_SUN / p.mass).sqrt(), w[i]);
    }
    check_all(&u, &zeros(n), &t, 1e-40);
}
pub fn h_wind() { wind(2) }
pub fn h_wind_n4() { wind(4) }

// ---- gas disk: Alibert et al. 2013 eq. 8-10
pub struct DiskP { pub inner: f64, pub outer: f64, pub life: f64, pub alpha: f64, pub norm: f64, pub mmw: f64 }
pub fn disk_oracle(t: f64, dp: &DiskP, hm: f64, pm: f64, r: Axes, v: Axes) -> (Axes, bool) {
    use posidonius::constants::{BOLTZMANN_CONSTANT, MASS_HYDROGEN_ATOM, G};
    let mu = G * pm + G * hm;
    let d = dot(r, r).sqrt();
    let sma = mu * d / (2. * mu - d * dot(v, v));
    let temp = 280. / d.sqrt() * hm;
    let cs2 = BOLTZMANN_CONSTANT * temp / (dp.mmw * MASS_HYDROGEN_ATOM);
    let omega = (G * hm / (d * d * d)).sqrt();
    let vr = -1.5 * dp.alpha * cs2 / omega / sma;
    if !(d > dp.inner) { return (ax(0., 0., 0.), false); }
    let sigma = dp.norm / d * (-d / dp.outer).exp() * (1. - (dp.inner / d).sqrt()) * (-t / dp.life).exp();
    let x = 2. * sigma * (sma * sma) / pm;
    let adot = vr * if x < 1. { x } else { 1. };
    let rate = -adot / sma; // 1 / migration timescale
    let mut f = mul(-pm * rate, v);
    f = add(f, mul(-20. * pm * rate * dot(r, v) / (d * d), r));
    f.z += -20. * pm * rate * v.z;
    (f, true)
}
fn disk(n: usize, host: usize, heavy: usize, disabled: usize) {
    let dp = DiskP { inner: real("inner", 0.01, 1.), outer: real("outer", 10., 100.), life: real("life", 1., 1e3), alpha: real("alpha", 1e-4, 1e-1), norm: real("norm", 1e-8, 1.), mmw: real("mmw", 1., 3.) };
    let mut ps = vec![];
    for i in 0..n {
        let mut b = body(i, heavy);
        if i == host { b.set_disk(Disk::new(DiskEffect::CentralBody(DiskProperties { inner_edge_distance: dp.inner, outer_edge_distance: dp.outer, lifetime: dp.life, alpha: dp.alpha, surface_density_normalization: dp.norm, mean_molecular_weight: dp.mmw }))) }
        else if i != disabled { b.set_disk(Disk::new(DiskEffect::OrbitingBody)) }
        ps.push(b);
    }
    let mut u = Universe::new(0., 10., ps, ConsiderEffects { disk: true, ..no_effects() });
    place(&mut u, host);
    for i in 0..n { if i != host { // bound orbits: the semi-major axis is positive
        let (r, v) = rel(&u, i, host);
        assume(dot(r, r) > 1e-4);
        if n > 2 { assume(dot(r, r).sqrt() > dp.inner); } // inside the gap: see h_disk_n2
        assume(dot(r, r).sqrt() * dot(v, v) < 1.9 * posidonius::constants::G * u.particles[host].mass);
    } }
    let t = real("t", 0., 1e3);
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(t, true, true, true, IgnoreGravityTerms::None);
    let mut a = zeros(n);
    let h = u.particles[host];
    for i in 0..n {
        if i == host || i == disabled { continue; }
        let p = u.particles[i];
        let (r, v) = rel(&u, i, host);
        let (f, inside) = disk_oracle(t, &dp, h.mass, p.mass, r, v);
        if inside { reach("inside") } else { reach("in the gap") }
        a[i] = mul(1. / p.mass, f);
        a[host] = add(a[host], mul(-1. / h.mass, f));
    }
    check_all(&u, &a, &zeros(n), 1e-40);
}
pub fn h_disk_n2() { let h = choice("host", 2) as usize; disk(2, h, h, 99) }
pub fn h_disk_n3() { disk(3, 0, 0, choice("dis", 3) as usize) }
pub fn h_disk_moon() { disk(3, 1, 2, 2) }
harnesses!(h_ctl_n5, h_ctl_moon, h_oblate_n5, h_oblate_moon, h_disk_moon, h_wind_n4, h_oblate_n2, h_oblate_n3, h_oblate_disabled, h_oblate_nospin, h_wind, h_disk_n2, h_disk_n3, h_ctl_n2, h_ctl_n3, h_ctl_disabled);
