use crate::effects::*;
use crate::sym::*;
use crate::util::*;
use posidonius::*;

// ---- C12: effects add up, and an evaluation depends on the current state only
pub fn full(n: usize, gr: GeneralRelativityImplementation, c: &ConsiderEffects) -> Universe {
    let host = 0;
    let mut ps = vec![];
    for i in 0..n {
        let mut b = body(i, host);
        let tm = TidalModel::ConstantTimeLag(ConstantTimeLagParameters { dissipation_factor: real(&name(i, "sg"), 0., 1.), dissipation_factor_scale: 2., love_number: real(&name(i, "k"), 0., 1.) });
        let rm = RotationalFlatteningModel::OblateSpheroid(OblateSpheroidParameters { love_number: real(&name(i, "kf"), 0., 1.) });
        if i == host {
            b.set_tides(Tides::new(TidesEffect::CentralBody(tm)));
            b.set_rotational_flattening(RotationalFlattening::new(RotationalFlatteningEffect::CentralBody(rm)));
            b.set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::CentralBody(gr)));
            b.set_disk(Disk::new(DiskEffect::CentralBody(DiskProperties { inner_edge_distance: 1e-3, outer_edge_distance: 100., lifetime: 1e6, alpha: 1e-2, surface_density_normalization: 1e-4, mean_molecular_weight: 2.4 })));
        } else {
            b.set_tides(Tides::new(TidesEffect::OrbitingBody(tm)));
            b.set_rotational_flattening(RotationalFlattening::new(RotationalFlatteningEffect::OrbitingBody(rm)));
            b.set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::OrbitingBody));
            b.set_disk(Disk::new(DiskEffect::OrbitingBody));
        }
        b.set_wind(Wind::new(WindEffect::Interaction, 0.5 + i as f64, 0.25));
        ps.push(b);
    }
    Universe::new(0., 10., ps, c.clone())
}
/// states 0 and 1: two independent arbitrary states of the same bodies
pub fn state(u: &mut Universe, s: &str) {
    let nm = |i: usize, q: &str| name(i, &[q, s].concat());
    for i in 0..u.n_particles {
        u.particles[i].angular_momentum = mul(u.particles[i].moment_of_inertia, ax(real(&nm(i, "wx"), 0.1, 2.), real(&nm(i, "wy"), -1., 2.), real(&nm(i, "wz"), 0.1, 2.)));
        if i == 0 { u.particles[i].inertial_position = axes(&nm(i, "p"), -5., 5.); u.particles[i].inertial_velocity = axes(&nm(i, "v"), -1., 1.); continue; }
        u.particles[i].inertial_position = add(u.particles[0].inertial_position, ax(real(&nm(i, "rx"), 4. * i as f64 - 3.9, 4. * i as f64 - 1.), real(&nm(i, "ry"), -1., 3.), real(&nm(i, "rz"), 0.1, 3.)));
        u.particles[i].inertial_velocity = add(u.particles[0].inertial_velocity, axes(&nm(i, "u"), -0.1, 0.1));
    }
}
fn eval(u: &mut Universe, s: &str, dl: bool, acc: bool) {
    state(u, s);
    u.inertial_to_heliocentric();
    u.gravity_calculate_acceleration(IgnoreGravityTerms::None);
    u.calculate_additional_effects(0., true, dl, acc, IgnoreGravityTerms::None);
}
pub fn on(k: usize) -> ConsiderEffects { ConsiderEffects { tides: k & 1 != 0, rotational_flattening: k & 2 != 0, general_relativity: k & 4 != 0, disk: k & 8 != 0, wind: k & 16 != 0, evolution: false } }
fn quiet(u: &mut Universe) { for i in 0..u.n_particles { u.particles[i].radius = u.particles[i].radius; } }
fn comp(n: usize, mask: usize, gr: GeneralRelativityImplementation) {
    let mut u = full(n, gr, &on(mask));
    eval(&mut u, "s", true, true);
    let (mut a, mut l) = (vec![ax(0., 0., 0.); n], vec![ax(0., 0., 0.); n]);
    for k in 0..5 {
        if mask & (1 << k) == 0 { continue; }
        let mut w = full(n, gr, &on(1 << k));
        eval(&mut w, "s", true, true);
        for i in 0..n { a[i] = add(a[i], w.particles[i].inertial_additional_acceleration); l[i] = add(l[i], w.particles[i].dangular_momentum_dt); }
    }
    for i in 0..n {
        check_axes(&name(i, "acc"), u.particles[i].inertial_additional_acceleration, a[i], 1e-40);
        check_axes(&name(i, "dL"), u.particles[i].dangular_momentum_dt, l[i], 1e-40);
    }
    let _ = quiet;
    reach("done");
}
pub fn h_comp_n2() { comp(2, 31, GeneralRelativityImplementation::Kidder1995) }
pub fn h_comp_n3() { comp(3, 31, GeneralRelativityImplementation::Kidder1995) }
/// the other formulations of relativity
pub fn h_comp_gr() { comp(3, 7, grs()) }
fn hist(n: usize, gr: GeneralRelativityImplementation, mask: usize, dl: bool, acc: bool) {
    let mut u = full(n, gr, &on(mask));
    eval(&mut u, "before", dl, acc);
    eval(&mut u, "s", true, true);
    let mut w = full(n, gr, &on(mask));
    eval(&mut w, "s", true, true);
    for i in 0..n {
        check_axes(&name(i, "acc"), u.particles[i].inertial_additional_acceleration, w.particles[i].inertial_additional_acceleration, 1e-40);
        check_axes(&name(i, "dL"), u.particles[i].dangular_momentum_dt, w.particles[i].dangular_momentum_dt, 1e-40);
        check_axes(&name(i, "grav"), u.particles[i].inertial_acceleration, w.particles[i].inertial_acceleration, 1e-40);
    }
    reach("done");
}
fn grs() -> GeneralRelativityImplementation { match choice("gr", 3) { 0 => GeneralRelativityImplementation::Kidder1995, 1 => GeneralRelativityImplementation::Anderson1975, _ => GeneralRelativityImplementation::Newhall1983 } }
pub fn h_hist_n2() { hist(2, GeneralRelativityImplementation::Kidder1995, 31, true, true) }
pub fn h_hist_n3() { let w = choice("which", 3); hist(3, grs(), 7, w != 1, w != 2) }
/// asking for torques only, or for accelerations only, gives the same values as asking for both
pub fn h_flags() {
    let n = 2;
    let gr = GeneralRelativityImplementation::Kidder1995;
    let which = choice("which", 2) == 0;
    let mut u = full(n, gr, &on(31));
    eval(&mut u, "s", which, !which);
    let mut w = full(n, gr, &on(31));
    eval(&mut w, "s", true, true);
    for i in 0..n {
        if which { check_axes(&name(i, "dL"), u.particles[i].dangular_momentum_dt, w.particles[i].dangular_momentum_dt, 1e-40); }
        else { check_axes(&name(i, "acc"), u.particles[i].inertial_additional_acceleration, w.particles[i].inertial_additional_acceleration, 1e-40); }
    }
    reach("done");
}
harnesses!(h_comp_n2, h_comp_n3, h_comp_gr, h_hist_n2, h_hist_n3, h_flags);
