use crate::effects::*;
use crate::sym::*;
use crate::util::*;
use posidonius::constants::*;
use posidonius::*;

// ---- C02: when does a run stop because of a collision, a close encounter or an ejection
fn abort(n: usize, host: usize) {
    let mut ps = vec![];
    for i in 0..n {
        let (m, r) = if n > 2 { (if i == host { 1. } else { 0.125 * (1. + i as f64) }, 0.01 * (1. + i as f64)) }
            else { (if i == host { real(&name(i, "m"), 0.5, 2.0) } else { real(&name(i, "m"), 1e-6, 0.4) }, real(&name(i, "R"), 1e-4, 1.)) };
        ps.push(Particle::new(m, r, 0.5, ax(i as f64, 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.)));
    }
    let mut u = Universe::new(0., 10., ps, no_effects());
    for i in 0..n { u.particles[i].inertial_position = if i == 0 { ax(1., 2., 3.) } else { let p = axes(&name(i, "p"), -200., 200.); if n == 2 { p } else { ax(p.x, 2., 3.) } }; }
    let mut stop = false;
    for i in 0..n { for j in 0..i {
        let (a, b) = (u.particles[i], u.particles[j]);
        let d = sub(a.inertial_position, b.inertial_position);
        let d2 = dot(d, d);
        let (big, small) = if a.mass > b.mass { (a, b) } else { (b, a) };
        // Roche limit r_small / 0.462 (M / m)^(1/3)
        let roche = small.radius / 0.462 * (big.mass / small.mass).powf(1. / 3.);
        if d2 <= roche * roche { reach("roche"); stop = true; }
        if d2 <= (a.radius + b.radius) * (a.radius + b.radius) { reach("collision"); stop = true; }
        if (i == host || j == host) && d2 > 100. * 100. { reach("ejection"); stop = true; }
    } }
    u.calculate_roche_radiuses();
    let aborted = panics(|| u.gravity_calculate_acceleration(IgnoreGravityTerms::None));
    check("stops exactly when it should", aborted == stop);
}
pub fn h_abort_n2() { abort(2, choice("host", 2) as usize) }
pub fn h_abort_n3() { abort(3, choice("host", 3) as usize) }

// ---- C03: barycentric construction and heliocentric coordinates
fn bary(n: usize, host: usize) {
    let mut ps = vec![];
    for i in 0..n {
        let m = if i == host { real(&name(i, "m"), 0.5, 2.0) } else { real(&name(i, "m"), 0., 0.4) };
        ps.push(Particle::new(m, 1e-3, 0.5, axes(&name(i, "p"), -10., 10.), axes(&name(i, "v"), -1., 1.), ax(0.1, 0.2, 0.3)));
    }
    let given = ps.clone();
    let mut u = Universe::new(0., 10., ps, no_effects());
    let (mut sx, mut sv) = (ax(0., 0., 0.), ax(0., 0., 0.));
    for i in 0..n {
        let p = u.particles[i];
        sx = add(sx, mul(p.mass, p.inertial_position));
        sv = add(sv, mul(p.mass, p.inertial_velocity));
        check_eq(&name(i, "mass"), p.mass, given[i].mass, 1.);
        check_axes(&name(i, "rel.x"), sub(p.inertial_position, u.particles[0].inertial_position), sub(given[i].heliocentric_position, given[0].heliocentric_position), 10.);
        check_axes(&name(i, "rel.v"), sub(p.inertial_velocity, u.particles[0].inertial_velocity), sub(given[i].heliocentric_velocity, given[0].heliocentric_velocity), 1.);
    }
    check_axes("centre of mass", sx, ax(0., 0., 0.), 1.);
    check_axes("total momentum", sv, ax(0., 0., 0.), 1.);
    check("host", u.hosts.index.most_massive == host);
    for i in 0..n { if i != host { let r = rel(&u, i, host).0; assume(dot(r, r) > 1e-6); } }
    u.inertial_to_heliocentric();
    for i in 0..n {
        let p = u.particles[i];
        let (r, v) = rel(&u, i, host);
        check_axes(&name(i, "helio.x"), p.heliocentric_position, r, 1.);
        check_axes(&name(i, "helio.v"), p.heliocentric_velocity, v, 1.);
        check_eq(&name(i, "helio.d"), p.heliocentric_distance, dot(r, r).sqrt(), 1.);
        check_eq(&name(i, "helio.v2"), p.heliocentric_norm_velocity_vector_2, dot(v, v), 1.);
        check_eq(&name(i, "helio.vn"), p.heliocentric_norm_velocity_vector, dot(v, v).sqrt(), 1.);
        if i != host { check_eq(&name(i, "helio.vr"), p.heliocentric_radial_velocity, dot(r, v) / dot(r, r).sqrt(), 1.); }
    }
    // the inertial state is not touched
    reach("done");
}
pub fn h_bary_n2() { bary(2, choice("host", 2) as usize) }
pub fn h_bary_n3() { bary(3, choice("host", 3) as usize) }
/// a body's derived quantities at construction
pub fn h_particle() {
    let (m, r, g) = (real("m", 1e-6, 2.), real("R", 1e-6, 1.), real("g", 0.01, 1.));
    let (x, v, w) = (axes("x", -10., 10.), axes("v", -1., 1.), axes("w", -10., 10.));
    let p = Particle::new(m, r, g, x, v, w);
    check_eq("mass", p.mass, m, 1e-9);
    check_eq("mu", p.mass_g, G * m, 1e-12);
    check_eq("radius", p.radius, r, 1e-9);
    let i = m * g * g * r * r;
    check_eq("moment of inertia", p.moment_of_inertia, i, 1e-40);
    check_axes("angular momentum", p.angular_momentum, mul(i, w), 1e-40);
    check_axes("position", p.heliocentric_position, x, 1.);
    check_axes("velocity", p.heliocentric_velocity, v, 1.);
    check_axes("spin", p.spin, w, 1.);
    check_eq("spin rate", p.norm_spin_vector_2, dot(w, w), 1.);
    reach("done");
}
/// the most massive body, for any masses
pub fn h_host() {
    let n = 3;
    let ps: Vec<Particle> = (0..n).map(|i| Particle::new(real(&name(i, "m"), 1e-3, 2.0), 1e-3, 0.5, ax(i as f64, 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.))).collect();
    let m: Vec<f64> = ps.iter().map(|p| p.mass).collect();
    let u = Universe::new(0., 10., ps, no_effects());
    let h = u.hosts.index.most_massive;
    check("in range", h < n);
    for i in 0..n { check(&name(i, "heaviest"), m[h] >= m[i]); if i < h { check(&name(i, "first of equals"), m[h] > m[i]); } }
    reach("done");
}

// ---- C04: configuration
fn tm() -> TidalModel { TidalModel::ConstantTimeLag(ConstantTimeLagParameters { dissipation_factor: 1., dissipation_factor_scale: 1., love_number: 0.3 }) }
fn rm() -> RotationalFlatteningModel { RotationalFlatteningModel::OblateSpheroid(OblateSpheroidParameters { love_number: 0.3 }) }
fn dk(edges: bool) -> DiskProperties { let e = if edges { 1. } else { 0. }; DiskProperties { inner_edge_distance: 0.01 * e, outer_edge_distance: 100. * e, lifetime: 1e6, alpha: 1e-2, surface_density_normalization: 1e-4, mean_molecular_weight: 2.4 } }
const GI: [GeneralRelativityImplementation; 4] = [GeneralRelativityImplementation::Kidder1995, GeneralRelativityImplementation::Anderson1975, GeneralRelativityImplementation::Newhall1983, GeneralRelativityImplementation::Disabled];
fn cfg_bodies(n: usize, host: usize) -> Vec<Particle> {
    (0..n).map(|i| Particle::new(if i == host { 1. } else { 1e-3 }, 1e-3, 0.5, ax(1. + i as f64, 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.))).collect()
}
/// roles: 0 disabled, 1 central, 2 orbiting
fn count(r: &[u64]) -> usize { r.iter().filter(|x| **x == 1).count() }
fn index(r: &[u64]) -> usize { r.iter().position(|x| *x == 1).unwrap_or(99) }
fn roles(n: usize, s: &str) -> Vec<u64> { (0..n).map(|i| choice(&name(i, s), 3)).collect() }
fn build(ps: Vec<Particle>, c: ConsiderEffects) -> Option<Universe> {
    let mut out = None;
    let p = panics(|| { out = Some(Universe::new(0., 10., ps, c)); });
    if p { None } else { out }
}
/// tides and rotational flattening, every assignment of roles to two bodies, every combination of flags
pub fn h_config_tides_rf() {
    let n = 2;
    let (t, r) = (roles(n, "t"), roles(n, "f"));
    let host = choice("host", 2) as usize;
    let (ct, cr) = (choice("ct", 2) == 1, choice("cf", 2) == 1);
    let mut ps = cfg_bodies(n, host);
    for i in 0..n {
        if t[i] == 1 { ps[i].set_tides(Tides::new(TidesEffect::CentralBody(tm()))) } else if t[i] == 2 { ps[i].set_tides(Tides::new(TidesEffect::OrbitingBody(tm()))) }
        if r[i] == 1 { ps[i].set_rotational_flattening(RotationalFlattening::new(RotationalFlatteningEffect::CentralBody(rm()))) } else if r[i] == 2 { ps[i].set_rotational_flattening(RotationalFlattening::new(RotationalFlatteningEffect::OrbitingBody(rm()))) }
    }
    let (et, er) = (ct && count(&t) > 0, cr && count(&r) > 0);
    let bad = count(&t) > 1 || count(&r) > 1 || (et && er && index(&t) != index(&r));
    let u = build(ps, ConsiderEffects { tides: ct, rotational_flattening: cr, ..no_effects() });
    check("rejected exactly when inconsistent", u.is_none() == bad);
    if let Some(u) = u {
        reach("accepted");
        check("tides considered", u.consider_effects.tides == et);
        check("flattening considered", u.consider_effects.rotational_flattening == er);
        check("others off", !u.consider_effects.general_relativity && !u.consider_effects.disk && !u.consider_effects.wind && !u.consider_effects.evolution);
        check("most massive", u.hosts.index.most_massive == host);
    } else { reach("rejected"); }
}
fn accept(ps: Vec<Particle>, c: ConsiderEffects, bad: bool, f: impl Fn(&Universe)) {
    let u = build(ps, c);
    check("rejected exactly when inconsistent", u.is_none() == bad);
    if let Some(mut u) = u {
        reach("accepted");
        f(&u);
        u.inertial_to_heliocentric();
        let p = panics(|| u.calculate_additional_effects(0., false, true, true, IgnoreGravityTerms::None));
        check("an accepted configuration can be evaluated", !p);
    } else { reach("rejected"); }
}
pub fn h_config_gr() {
    let n = 2;
    let g = roles(n, "g");
    let imp = choice("imp", 4) as usize;
    let host = choice("host", 2) as usize;
    let cg = choice("cg", 2) == 1;
    let mut ps = cfg_bodies(n, host);
    for i in 0..n {
        if g[i] == 1 { ps[i].set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::CentralBody(GI[imp]))) } else if g[i] == 2 { ps[i].set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::OrbitingBody)) }
    }
    let ng = if imp == 3 { 0 } else { count(&g) };
    let eg = cg && ng > 0;
    accept(ps, ConsiderEffects { general_relativity: cg, ..no_effects() }, ng > 1 || (eg && index(&g) != host), |u| {
        check("relativity considered", u.consider_effects.general_relativity == eg);
        check("formulation", u.general_relativity_implementation == if eg { GI[imp] } else { GeneralRelativityImplementation::Disabled });
    });
}
pub fn h_config_disk() {
    let n = 2;
    let d = roles(n, "d");
    let edges = choice("edges", 2) == 1;
    let host = choice("host", 2) as usize;
    let cd = choice("cd", 2) == 1;
    let mut ps = cfg_bodies(n, host);
    for i in 0..n { if d[i] == 1 { ps[i].set_disk(Disk::new(DiskEffect::CentralBody(dk(edges)))) } else if d[i] == 2 { ps[i].set_disk(Disk::new(DiskEffect::OrbitingBody)) } }
    if !edges && count(&d) > 1 { return; } // two hosts, neither of them with a disk: unspecified
    let ed = cd && edges && count(&d) > 0;
    accept(ps, ConsiderEffects { disk: cd, ..no_effects() }, edges && count(&d) > 1, |u| check("disk considered", u.consider_effects.disk == ed));
}
/// wind and evolution flags; number of bodies
pub fn h_config_misc() {
    let (cw, ce, w, big) = (choice("cw", 2) == 1, choice("ce", 2) == 1, choice("w", 3) as usize, choice("big", 2) == 1);
    let n = if big { 11 } else { 10 };
    let mut ps = cfg_bodies(n, 0);
    if w < 2 { ps[w * 9].set_wind(Wind::new(WindEffect::Interaction, 1., 1.)); }
    let u = build(ps, ConsiderEffects { wind: cw, evolution: ce, ..no_effects() });
    check("at most ten bodies", u.is_none() == big);
    if let Some(u) = u {
        check("wind considered", u.consider_effects.wind == (cw && w < 2));
        check("evolution considered", !u.consider_effects.evolution);
        check("number of bodies", u.n_particles == 10);
        reach("accepted");
    }
}
harnesses!(h_abort_n2, h_abort_n3, h_bary_n2, h_bary_n3, h_particle, h_host, h_config_tides_rf, h_config_gr, h_config_disk, h_config_misc);
