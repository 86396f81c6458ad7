use crate::effects::*;
use crate::sym::*;
use crate::util::*;
use posidonius::constants::{G, SPEED_OF_LIGHT_2};
use posidonius::*;

fn setup(n: usize, host: usize, disabled: usize, imp: GeneralRelativityImplementation) -> (Universe, Vec<Axes>) {
    let mut ps = vec![];
    for i in 0..n {
        let mut b = body(i, host);
        if i == host { b.set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::CentralBody(imp))) }
        else if i != disabled { b.set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::OrbitingBody)) }
        ps.push(b);
    }
    let mut u = Universe::new(0., 10., ps, ConsiderEffects { general_relativity: true, ..no_effects() });
    let w = place(&mut u, host);
    for i in 0..n { if i != host { let (r, v) = rel(&u, i, host); assume(dot(r, r) > 1e-4); assume(dot(v, v) > 1e-8); } }
    (u, w)
}
pub struct Kidder { pub a: Axes, pub th: Axes, pub tp: Axes }
/// Kidder 1995 eq. 2.2b, 2.2d, 2.2c and 2.4 with c restored: relative acceleration and spin precession of both bodies
pub fn kidder_oracle(mh: f64, sh: Axes, mp: f64, sp: Axes, r: Axes, v: Axes) -> Kidder {
    let (c2, m) = (SPEED_OF_LIGHT_2, G * mh + G * mp);
    let d = dot(r, r).sqrt();
    let n = mul(1. / d, r);
    let (v2, vr, eta) = (dot(v, v), dot(r, v) / d, (mh * mp) / ((mh + mp) * (mh + mp)));
    let x = m / d;
    let k1 = -m / (d * d * c2);
    let a1 = add(mul(k1 * ((1. + 3. * eta) * v2 - 2. * (2. + eta) * x - 1.5 * eta * vr * vr), n), mul(-2. * k1 * (2. - eta) * vr, v));
    let k2 = -m / (d * d * c2 * c2);
    let rad = 0.75 * (12. + 29. * eta) * x * x + eta * (3. - 4. * eta) * v2 * v2 + 1.875 * eta * (1. - 3. * eta) * vr * vr * vr * vr
        - 1.5 * eta * (3. - 4. * eta) * v2 * vr * vr - 0.5 * eta * (13. - 4. * eta) * x * v2 - (2. + 25. * eta + 2. * eta * eta) * x * vr * vr;
    let tan = eta * (15. + 4. * eta) * v2 - (4. + 41. * eta + 8. * eta * eta) * x - 3. * eta * (3. + 2. * eta) * vr * vr;
    let a2 = add(mul(k2 * rad, n), mul(-0.5 * k2 * tan * vr, v));
    let s = add(sh, sp);
    let dd = mul(mh - mp, sub(mul(1. / mp, sp), mul(1. / mh, sh)));
    let f = G / (c2 * d * d * d);
    let a3 = add(sub(mul(6. * f * dot(cross(n, v), add(mul(2., s), dd)), n), mul(f, cross(v, add(mul(7., s), mul(3., dd))))), mul(3. * f * vr, cross(n, add(mul(3., s), dd))));
    let l = mul(mh * mp / (mh + mp), cross(r, v));
    let prec = |m1: f64, m2: f64, s1: Axes, s2: Axes| mul(f, add(sub(mul(2. + 1.5 * m2 / m1, cross(l, s1)), cross(s2, s1)), mul(3. * dot(n, s2), cross(n, s1))));
    Kidder { a: add(a1, add(a2, a3)), th: prec(mh, mp, sh, sp), tp: prec(mp, mh, sp, sh) }
}
fn kidder(n: usize, host: usize, disabled: usize, dl: bool, acc: bool) {
    let (mut u, w) = setup(n, host, disabled, GeneralRelativityImplementation::Kidder1995);
    run_effects(&mut u, dl, acc, IgnoreGravityTerms::None);
    let (mut a, mut t) = (zeros(n), zeros(n));
    let h = u.particles[host];
    for i in 0..n {
        if i == host || i == disabled { continue; }
        let p = u.particles[i];
        let (r, v) = rel(&u, i, host);
        let k = kidder_oracle(h.mass, mul(h.moment_of_inertia, w[host]), p.mass, mul(p.moment_of_inertia, w[i]), r, v);
        a[i] = k.a;
        t[i] = k.tp;
        a[host] = add(a[host], mul(-p.mass / h.mass, k.a));
        t[host] = add(t[host], k.th);
    }
    for i in 0..n {
        if acc { check_axes(&name(i, "acc"), u.particles[i].inertial_additional_acceleration, a[i], 1e-40); }
        if dl { check_axes(&name(i, "dL"), u.particles[i].dangular_momentum_dt, t[i], 1e-40); }
    }
    reach("done");
}
pub fn h_kidder_n2() { kidder(2, choice("host", 2) as usize, 99, true, true) }
pub fn h_kidder_n3() { kidder(3, 0, 99, true, true) }
pub fn h_kidder_dis() { kidder(3, 0, 1 + choice("dis", 2) as usize, true, true) }
pub fn h_kidder_dl() { kidder(2, 0, 99, true, false) }

/// Newhall et al. 1983 (Einstein-Infeld-Hoffmann): every pair of bodies, with the Newtonian accelerations of all of them
pub fn eih_oracle(m: &[f64], x: &[Axes], v: &[Axes], on: &[bool]) -> Vec<Axes> {
    let n = m.len();
    let c2 = SPEED_OF_LIGHT_2;
    let dist = |i: usize, j: usize| { let d = sub(x[i], x[j]); dot(d, d).sqrt() };
    let newton: Vec<Axes> = (0..n).map(|i| { let mut a = ax(0., 0., 0.); for j in 0..n { if i != j { let d = dist(i, j); a = add(a, mul(-G * m[j] / (d * d * d), sub(x[i], x[j]))); } } a }).collect();
    (0..n).map(|i| {
        let mut a = ax(0., 0., 0.);
        if !on[i] { return a; }
        let pot = |k: usize| { let mut p = 0.; for l in 0..n { if l != k { p += G * m[l] / dist(k, l); } } p };
        for j in 0..n {
            if i == j { continue; }
            let (d, r) = (sub(x[i], x[j]), dist(i, j));
            let k = G * m[j] / (r * r * r * c2);
            let dv = dot(d, v[j]) / r;
            let br = 4. * pot(i) + pot(j) - dot(v[i], v[i]) - 2. * dot(v[j], v[j]) + 4. * dot(v[i], v[j]) + 1.5 * dv * dv + 0.5 * dot(d, newton[j]);
            a = add(a, mul(k * br, d));
            a = add(a, mul(k * dot(d, sub(mul(4., v[i]), mul(3., v[j]))), sub(v[i], v[j])));
            a = add(a, mul(3.5 * G * m[j] / (r * c2), newton[j]));
        }
        a
    }).collect()
}
fn newhall(n: usize, host: usize, disabled: usize, ig: IgnoreGravityTerms) {
    let (u, _) = setup(n, host, disabled, GeneralRelativityImplementation::Newhall1983);
    for i in 0..n { for j in 0..i { let d = rel(&u, i, j).0; assume(dot(d, d) > 1e-2); } }
    let on: Vec<bool> = (0..n).map(|i| i != disabled).collect();
    newhall_compare(u, &on, ig);
}
fn newhall_compare(mut u: Universe, on: &[bool], ig: IgnoreGravityTerms) {
    let n = u.n_particles;
    let m: Vec<f64> = (0..n).map(|i| u.particles[i].mass).collect();
    let x: Vec<Axes> = (0..n).map(|i| u.particles[i].inertial_position).collect();
    let v: Vec<Axes> = (0..n).map(|i| u.particles[i].inertial_velocity).collect();
    let a = eih_oracle(&m, &x, &v, on);
    // the stopping rule of the fixed-point iteration looks at components below 1e-30: keep away from them
    for x in a.iter().zip(on).filter(|p| *p.1).map(|p| p.0) { assume(x.x.abs() > 1e-25); assume(x.y.abs() > 1e-25); assume(x.z.abs() > 1e-25); }
    u.inertial_to_heliocentric();
    u.gravity_calculate_acceleration(ig);
    u.calculate_additional_effects(0., true, true, true, ig);
    for i in 0..n { check_axes(&name(i, "acc"), u.particles[i].inertial_additional_acceleration, a[i], 1e-40); }
    reach("done");
}
pub fn h_newhall_n2() { newhall(2, choice("host", 2) as usize, 99, IgnoreGravityTerms::None) }
pub fn h_newhall_n3() { newhall(3, 0, 99, IgnoreGravityTerms::None) }
pub fn h_newhall_wh1() { newhall(2, choice("host", 2) as usize, 99, IgnoreGravityTerms::WHFastOne) }
pub fn h_newhall_wh2() { newhall(2, 0, 99, IgnoreGravityTerms::WHFastTwo) }
pub fn h_newhall_dis() { newhall(3, 0, 1 + choice("dis", 2) as usize, IgnoreGravityTerms::None) }
/// two bodies for which relativity is disabled next to one for which it is not
pub fn h_newhall_dis2() {
    let n = 4;
    let mut ps = vec![];
    for i in 0..n {
        let mut b = body(i, 0);
        if i == 0 { b.set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::CentralBody(GeneralRelativityImplementation::Newhall1983))) }
        if i == 1 { b.set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::OrbitingBody)) }
        ps.push(b);
    }
    let mut u = Universe::new(0., 10., ps, ConsiderEffects { general_relativity: true, ..no_effects() });
    place(&mut u, 0);
    for i in 0..n { for j in 0..i { let d = rel(&u, i, j).0; assume(dot(d, d) > 1e-2); } }
    newhall_compare(u, &[true, true, false, false], IgnoreGravityTerms::None);
}
/// Anderson et al. 1975 in the form of REBOUNDx's gr: the velocity v~ with v = (1 - A(v~)) v~ by fixed-point iteration,
/// in Jacobi coordinates of the bodies for which relativity is enabled
fn anderson(n: usize, host: usize, disabled: usize, ig: IgnoreGravityTerms) {
    let (mut u, _) = setup(n, host, disabled, GeneralRelativityImplementation::Anderson1975);
    for i in 0..n { for j in 0..i { let d = rel(&u, i, j).0; assume(dot(d, d) > 1e-2); } }
    let c2 = SPEED_OF_LIGHT_2;
    let on: Vec<usize> = std::iter::once(host).chain((0..n).filter(|i| *i != host && *i != disabled)).collect();
    let newton: Vec<Axes> = (0..n).map(|i| { let mut a = ax(0., 0., 0.); for j in 0..n { if i != j { let r = rel(&u, i, j).0; let d = dot(r, r).sqrt(); a = add(a, mul(-G * u.particles[j].mass / (d * d * d), r)); } } a }).collect();
    // Jacobi coordinates: relative to the centre of mass of the bodies further in
    let com = |f: &dyn Fn(usize) -> Axes, k: usize| { let (mut s, mut m) = (ax(0., 0., 0.), 0.); for i in &on[..k] { s = add(s, mul(u.particles[*i].mass, f(*i))); m += u.particles[*i].mass; } mul(1. / m, s) };
    let mu = G * u.particles[host].mass;
    let mut da = vec![];
    for k in 1..on.len() {
        let q = on[k];
        let x = sub(u.particles[q].inertial_position, com(&|i| u.particles[i].inertial_position, k));
        let v = sub(u.particles[q].inertial_velocity, com(&|i| u.particles[i].inertial_velocity, k));
        let a = sub(newton[q], com(&|i| newton[i], k));
        let r = dot(x, x).sqrt();
        let (mut w, mut aa) = (v, (0.5 * dot(v, v) + 3. * mu / r) / c2);
        for _ in 0..10 {
            let old = w;
            w = mul(1. / (1. - aa), v);
            aa = (0.5 * dot(w, w) + 3. * mu / r) / c2;
            let d = sub(w, old);
            if dot(d, d) / dot(w, w) < posidonius::constants::DBL_EPSILON_2 { break; }
        }
        let b = (mu / r - 1.5 * dot(w, w)) * mu / (r * r * r) / c2;
        let wd = add(a, mul(b, x));
        let d = (dot(w, wd) - 3. * mu / (r * r * r) * dot(x, v)) / c2;
        da.push(sub(sub(mul(b * (1. - aa), x), mul(aa, a)), mul(d, w)));
    }
    // back to inertial accelerations: the centre of mass is not accelerated
    let mut exp = zeros(n);
    let m: Vec<f64> = on.iter().map(|i| u.particles[*i].mass).collect();
    for k in 1..on.len() {
        let inner: f64 = m[..k].iter().sum();
        let f = m[k] / (inner + m[k]);
        exp[on[k]] = add(exp[on[k]], mul(1. - f, da[k - 1]));
        for l in 0..k { exp[on[l]] = sub(exp[on[l]], mul(f, da[k - 1])); }
    }
    u.inertial_to_heliocentric();
    u.gravity_calculate_acceleration(ig);
    u.calculate_additional_effects(0., true, true, true, ig);
    let mut back = ax(0., 0., 0.);
    for i in 0..n {
        if i == host { continue; }
        let a = u.particles[i].inertial_additional_acceleration;
        check_axes(&name(i, "acc"), a, exp[i], 1e-40);
        back = sub(back, mul(u.particles[i].mass / u.particles[host].mass, a));
    }
    check_axes("host.acc", u.particles[host].inertial_additional_acceleration, back, 1e-40);
    reach("done");
}
pub fn h_anderson_n2() { anderson(2, choice("host", 2) as usize, 99, IgnoreGravityTerms::None) }
pub fn h_anderson_n3() { anderson(3, 0, 99, IgnoreGravityTerms::None) }
pub fn h_anderson_dis() { anderson(3, 0, 1 + choice("dis", 2) as usize, IgnoreGravityTerms::None) }
pub fn h_anderson_wh1() { anderson(2, choice("host", 2) as usize, 99, IgnoreGravityTerms::WHFastOne) }
pub fn h_anderson_wh2() { anderson(2, 0, 99, IgnoreGravityTerms::WHFastTwo) }
harnesses!(h_kidder_n2, h_kidder_n3, h_kidder_dis, h_kidder_dl, h_newhall_n2, h_newhall_n3, h_newhall_wh1, h_newhall_wh2, h_newhall_dis, h_newhall_dis2, h_anderson_n2, h_anderson_n3, h_anderson_dis, h_anderson_wh1, h_anderson_wh2);
