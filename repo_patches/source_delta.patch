From 1dab9a50410a80b4768e9945c8786e3fa9a0b784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:48 +0000
Subject: [PATCH 01/19] fix: update the spin before the effects are initialized
 with it

calculate_additional_effects computed the position-spin scalar products used by
tides and rotational flattening from the spin of the previous call.
---
 src/particles/universe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 16c9b0c..2bb64ef 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -426,8 +426,8 @@ impl Universe {
     }
 
     pub fn calculate_additional_effects(&mut self, current_time: f64, evolution: bool, dangular_momentum_dt: bool, accelerations: bool, ignored_gravity_terms: IgnoreGravityTerms) {
-        self.initialize(dangular_momentum_dt, accelerations);
         self.calculate_spin_and_evolving_quantities(current_time, evolution); // Make sure we start with the good initial values
+        self.initialize(dangular_momentum_dt, accelerations); // Uses the spin, so it has to be up to date
 
         let (mut particles, _) = self.particles.split_at_mut(self.n_particles);
         if dangular_momentum_dt && self.consider_effects.wind {
-- 
2.43.0


From b95c91e497df1df9e8e8ed1460489a5338454264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:18 +0000
Subject: [PATCH 02/19] fix: bodies with disabled tides or flattening do not
 act on the host

The host torque (and the stellar Kaula tide) summed over every other body,
including those whose effect is disabled and whose distance is never computed,
which turned the host's torque into NaN.
---
 src/effects/rotational_flattening/common.rs | 3 +++
 src/effects/tides/common.rs                 | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/effects/rotational_flattening/common.rs b/src/effects/rotational_flattening/common.rs
index 65a8a25..3e359ca 100644
--- a/src/effects/rotational_flattening/common.rs
+++ b/src/effects/rotational_flattening/common.rs
@@ -183,6 +183,9 @@ pub fn calculate_dangular_momentum_dt_induced_by_rotational_flattening(rotationa
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+        if let RotationalFlatteningEffect::Disabled = particle.rotational_flattening.effect {
+            continue; // Bodies without rotational flattening do not exert any torque on the host
+        }
         if let RotationalFlatteningEffect::CentralBody(rotational_flattening_model) = rotational_flattening_host_particle.rotational_flattening.effect {
             let torque_induced_by_rotational_flattening = match rotational_flattening_model {
                 RotationalFlatteningModel::OblateSpheroid(_) => oblate_spheroid::calculate_torque_induced_by_rotational_flattening(&rotational_flattening_host_particle, &particle, central_body),
diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index 944ba59..eba5d07 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -241,6 +241,9 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+        if let TidesEffect::Disabled = particle.tides.effect {
+            continue; // Bodies without tides do not raise any on the host
+        }
         if let TidesEffect::CentralBody(tidal_model) = &tidal_host_particle.tides.effect {
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
@@ -353,6 +356,9 @@ pub fn calculate_tidal_acceleration(tidal_host_particle: &mut Particle, particle
         TidesEffect::CentralBody(TidalModel::Kaula(_))
     ) {
         for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+            if let TidesEffect::Disabled = particle.tides.effect {
+                continue; // Bodies without tides do not raise any on the host
+            }
             let tidal_force = kaula::calculate_tidal_force(particle, tidal_host_particle, central_body);
             let factor1 = 1. / particle.mass;
 
-- 
2.43.0


From d6625e145eb20f3c56391ecfcbe93e25ae36e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:48 +0000
Subject: [PATCH 03/19] fix: rotational flattening of a body that does not
 rotate is zero, not NaN

---
 .../rotational_flattening/oblate_spheroid.rs  | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/effects/rotational_flattening/oblate_spheroid.rs b/src/effects/rotational_flattening/oblate_spheroid.rs
index 69b4d1d..7a96dc1 100644
--- a/src/effects/rotational_flattening/oblate_spheroid.rs
+++ b/src/effects/rotational_flattening/oblate_spheroid.rs
@@ -36,12 +36,20 @@ fn calculate_orthogonal_component_of_the_force_induced_by_rotational_flattening_
                     // - Star Equation 16 from Bolmont et al. 2015
                     particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation = particle.mass * rotational_flattening_host_particle_love_number * rotational_flattening_host_particle.norm_spin_vector_2 * rotational_flattening_host_particle.radius.powi(5) / 6.; // Msun.AU^5.day-2
                     // - Second part of Equation 15 from Bolmont et al. 2015
-                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin / (rotational_flattening_host_particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5));
+                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation = if rotational_flattening_host_particle.norm_spin_vector_2 > 0. {
+                        -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin / (rotational_flattening_host_particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5))
+                    } else {
+                        0. // No rotation, no flattening
+                    };
                 } else {
                     // - Planet Equation 16 from Bolmont et al. 2015
                     particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation = rotational_flattening_host_particle.mass * params.love_number * particle.norm_spin_vector_2 * particle.radius.powi(5) / 6.; // Msun.AU^5.day-2
                     // - Second part of Equation 15 from Bolmont et al. 2015
-                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin / (particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5));
+                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation = if particle.norm_spin_vector_2 > 0. {
+                        -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin / (particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5))
+                    } else {
+                        0. // No rotation, no flattening
+                    };
                 }
             }
         }
@@ -51,10 +59,20 @@ fn calculate_orthogonal_component_of_the_force_induced_by_rotational_flattening_
 pub fn calculate_radial_component_of_the_force_induced_by_rotational_flattening(rotational_flattening_host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle]) {
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
         if let RotationalFlatteningEffect::OrbitingBody(_) = particle.rotational_flattening.effect {
+            let star_term = if rotational_flattening_host_particle.norm_spin_vector_2 > 0. {
+                particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin/rotational_flattening_host_particle.norm_spin_vector_2
+            } else {
+                0. // No rotation, no flattening
+            };
+            let planet_term = if particle.norm_spin_vector_2 > 0. {
+                particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin/particle.norm_spin_vector_2
+            } else {
+                0. // No rotation, no flattening
+            };
             // - First part of Equation 15 from Bolmont et al. 2015
             particle.rotational_flattening.parameters.internal.radial_component_of_the_force_induced_by_rotation = -3./particle.rotational_flattening.parameters.internal.distance.powi(5) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation)
-                + 15./particle.rotational_flattening.parameters.internal.distance.powi(7) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin/rotational_flattening_host_particle.norm_spin_vector_2
-                    + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin/particle.norm_spin_vector_2); // Msun.AU.day-1
+                + 15./particle.rotational_flattening.parameters.internal.distance.powi(7) * (star_term
+                    + planet_term); // Msun.AU.day-1
         }
     }
 }
-- 
2.43.0


From be17d8dee9ff1e38588f9b5143626a4166785ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:33 +0000
Subject: [PATCH 04/19] fix: second order post-Newtonian acceleration scales
 with 1/c^4

Kidder 1995, equation 2.2d, in units with c != 1.
---
 src/effects/general_relativity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index e612c71..38a0311 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -253,7 +253,7 @@ fn calculate_kidder1995_second_order_general_relativity_acceleration(host_partic
             let general_relativity_factor_2 = particle.general_relativity.parameters.internal.factor.powi(2);
 
             // Radial part of the GR force (Kidder 1995, equation 2.2d)
-            let radial_component_of_the_second_order_general_relativity_acceleration = -star_planet_mass_g / (distance_2 * SPEED_OF_LIGHT_2)
+            let radial_component_of_the_second_order_general_relativity_acceleration = -star_planet_mass_g / (distance_2 * SPEED_OF_LIGHT_2.powi(2))
                     * (3.0/4.0*(12.0+29.0*particle.general_relativity.parameters.internal.factor)*(star_planet_mass_g.powi(2)/distance_2)
                     + particle.general_relativity.parameters.internal.factor*(3.0-4.0*particle.general_relativity.parameters.internal.factor)*norm_velocity_vector_4
                     + 15.0/8.0*particle.general_relativity.parameters.internal.factor*(1.0-3.0*particle.general_relativity.parameters.internal.factor)*radial_velocity_4
@@ -261,7 +261,7 @@ fn calculate_kidder1995_second_order_general_relativity_acceleration(host_partic
                     - 0.5*particle.general_relativity.parameters.internal.factor*(13.0-4.0*particle.general_relativity.parameters.internal.factor)*(star_planet_mass_g/particle.general_relativity.parameters.internal.distance)*norm_velocity_vector_2
                     - (2.0 + 25.0*particle.general_relativity.parameters.internal.factor+2.0*general_relativity_factor_2)*(star_planet_mass_g/particle.general_relativity.parameters.internal.distance)*radial_velocity_2);
 
-            let orthogonal_component_of_the_second_order_general_relativity_acceleration = -star_planet_mass_g / (distance_2 * SPEED_OF_LIGHT_2)
+            let orthogonal_component_of_the_second_order_general_relativity_acceleration = -star_planet_mass_g / (distance_2 * SPEED_OF_LIGHT_2.powi(2))
                     * (-0.5)*particle.general_relativity.parameters.internal.radial_velocity
                     * (particle.general_relativity.parameters.internal.factor*(15.0+4.0*particle.general_relativity.parameters.internal.factor)*norm_velocity_vector_2 
                     - (4.0+41.0*particle.general_relativity.parameters.internal.factor+8.0*general_relativity_factor_2)*(star_planet_mass_g/particle.general_relativity.parameters.internal.distance)
-- 
2.43.0


From be49b4c6f539c0a0e209d981c9f021e78af63313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:33 +0000
Subject: [PATCH 05/19] fix: spin-orbit general relativity terms follow Kidder
 1995 equations 2.2c and 2.4

The 1/r^3 factor was missing from the acceleration and from the precession, and
the scalar product (n x v).(2S + dm/m D) was replaced by a componentwise product.
---
 src/effects/general_relativity.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index 38a0311..7a86859 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -337,15 +337,15 @@ fn calculate_kidder1995_spin_orbit_general_relativity_acceleration_and_dangular_
             let mass_spin_factor_y = mass_factor*star_planet_mass*(particle_angular_momentum.y/particle.mass - star_angular_momentum.y/host_particle.mass);
             let mass_spin_factor_z = mass_factor*star_planet_mass*(particle_angular_momentum.z/particle.mass - star_angular_momentum.z/host_particle.mass);
 
-            let element1_x: f64 = 6.*particle_normalized_position.x
-                               * ((particle_normalized_position.y * particle.general_relativity.coordinates.velocity.z - particle_normalized_position.z * particle.general_relativity.coordinates.velocity.y)
-                               * (2.*(star_angular_momentum.x+particle_angular_momentum.x) + mass_spin_factor_x));
-            let element1_y :f64 = 6.*particle_normalized_position.y
-                               * ((particle_normalized_position.z * particle.general_relativity.coordinates.velocity.x - particle_normalized_position.x * particle.general_relativity.coordinates.velocity.z)
-                               * (2.*(star_angular_momentum.y+particle_angular_momentum.y) + mass_spin_factor_y));
-            let element1_z: f64 = 6.*particle_normalized_position.z
-                               * ((particle_normalized_position.x * particle.general_relativity.coordinates.velocity.y - particle_normalized_position.y * particle.general_relativity.coordinates.velocity.x)
-                               * (2.*(star_angular_momentum.z+particle_angular_momentum.z) + mass_spin_factor_z));
+            let element1 = (particle_normalized_position.y * particle.general_relativity.coordinates.velocity.z - particle_normalized_position.z * particle.general_relativity.coordinates.velocity.y)
+                               * (2.*(star_angular_momentum.x+particle_angular_momentum.x) + mass_spin_factor_x)
+                               + (particle_normalized_position.z * particle.general_relativity.coordinates.velocity.x - particle_normalized_position.x * particle.general_relativity.coordinates.velocity.z)
+                               * (2.*(star_angular_momentum.y+particle_angular_momentum.y) + mass_spin_factor_y)
+                               + (particle_normalized_position.x * particle.general_relativity.coordinates.velocity.y - particle_normalized_position.y * particle.general_relativity.coordinates.velocity.x)
+                               * (2.*(star_angular_momentum.z+particle_angular_momentum.z) + mass_spin_factor_z);
+            let element1_x: f64 = 6.*particle_normalized_position.x * element1;
+            let element1_y :f64 = 6.*particle_normalized_position.y * element1;
+            let element1_z: f64 = 6.*particle_normalized_position.z * element1;
 
             let element7s = Axes{
                                     x:7.*(star_angular_momentum.x+particle_angular_momentum.x) + 3.*mass_spin_factor_x,
@@ -365,7 +365,7 @@ fn calculate_kidder1995_spin_orbit_general_relativity_acceleration_and_dangular_
             let element3_y: f64 = 3.*particle.general_relativity.parameters.internal.radial_velocity * (particle_normalized_position.z * element3s.x - particle_normalized_position.x * element3s.z);
             let element3_z: f64 = 3.*particle.general_relativity.parameters.internal.radial_velocity * (particle_normalized_position.x * element3s.y - particle_normalized_position.y * element3s.x);
 
-            let factor_a = G / SPEED_OF_LIGHT_2;
+            let factor_a = G / (SPEED_OF_LIGHT_2 * particle.general_relativity.parameters.internal.distance.powi(3));
             let total_general_relativity_spin_orbit_acceleration_x = factor_a * (element1_x - element2_x + element3_x);
             let total_general_relativity_spin_orbit_acceleration_y = factor_a * (element1_y - element2_y + element3_y);
             let total_general_relativity_spin_orbit_acceleration_z = factor_a * (element1_z - element2_z + element3_z);
-- 
2.43.0


From d75518ef86d89a29ee9b87c8ef882da78b12eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:33 +0000
Subject: [PATCH 06/19] fix: restore the ignored gravity terms in general
 relativity from inertial positions

The host's inertial position was combined with the particle's heliocentric one.
---
 src/effects/general_relativity.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index 7a86859..20fd859 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -658,9 +658,9 @@ fn get_anderson1975_newhall1983_newtonian_inertial_accelerations(host_particle:
             n_particles = particles.len() + more_particles.len();
         }
         for (newtonian_acceleration, particle) in newtonian_inertial_accelerations[..n_particles].iter_mut().zip(particles.iter_mut().chain(more_particles.iter_mut())) {
-            let dx = host_particle.inertial_position.x - particle.general_relativity.coordinates.position.x;
-            let dy = host_particle.inertial_position.y - particle.general_relativity.coordinates.position.y;
-            let dz = host_particle.inertial_position.z - particle.general_relativity.coordinates.position.z;
+            let dx = host_particle.inertial_position.x - particle.inertial_position.x;
+            let dy = host_particle.inertial_position.y - particle.inertial_position.y;
+            let dz = host_particle.inertial_position.z - particle.inertial_position.z;
             let r2 = dx.powi(2) + dy.powi(2) + dz.powi(2);
             let r = r2.sqrt();
             let prefac = G/(r2*r);
-- 
2.43.0


From 06371002813fb368bb8b014e9ff8f96d61e39e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:33 +0000
Subject: [PATCH 07/19] fix: compute the general relativity torque also when
 only torques are requested

---
 src/particles/universe.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 2bb64ef..830eb89 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -487,7 +487,8 @@ impl Universe {
                 }
             }
         }
-        if accelerations && self.consider_effects.general_relativity {
+        // Kidder 1995 implementation provides also the torque
+        if (accelerations || (dangular_momentum_dt && self.general_relativity_implementation == GeneralRelativityImplementation::Kidder1995)) && self.consider_effects.general_relativity {
             let (mut particles_left, particles_right) = particles.split_at_mut(self.hosts.index.general_relativity);
             if let Some((mut general_relativity_host_particle, mut particles_right)) = particles_right.split_first_mut() {
                 if let GeneralRelativityEffect::CentralBody(general_relativity_implementation) = general_relativity_host_particle.general_relativity.effect {
-- 
2.43.0


From fb5a71c2c9eb12639ea58a28fb5cccebfae352b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:27 +0000
Subject: [PATCH 08/19] fix: heliocentric speed does not depend on the host's
 previous heliocentric velocity

---
 src/particles/universe.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 830eb89..7ad059f 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -318,6 +318,16 @@ impl Universe {
     pub fn inertial_to_heliocentric(&mut self) {
         let (particles_left, particles_right) = self.particles.split_at_mut(self.hosts.index.most_massive);
         if let Some((host_particle, particles_right)) = particles_right.split_first_mut() {
+            host_particle.heliocentric_position.x = 0.;
+            host_particle.heliocentric_position.y = 0.;
+            host_particle.heliocentric_position.z = 0.;
+            host_particle.heliocentric_velocity.x = 0.;
+            host_particle.heliocentric_velocity.y = 0.;
+            host_particle.heliocentric_velocity.z = 0.;
+            host_particle.heliocentric_distance = 0.;
+            host_particle.heliocentric_radial_velocity = 0.;
+            host_particle.heliocentric_norm_velocity_vector_2 = 0.;
+            host_particle.heliocentric_norm_velocity_vector = 0.;
             for particle in particles_left.iter_mut().chain(particles_right.iter_mut()) {
                 particle.heliocentric_position.x = particle.inertial_position.x - host_particle.inertial_position.x;
                 particle.heliocentric_position.y = particle.inertial_position.y - host_particle.inertial_position.y;
@@ -337,16 +347,6 @@ impl Universe {
                                                                 + (particle.heliocentric_velocity.z - host_particle.heliocentric_velocity.z).powi(2);
                 particle.heliocentric_norm_velocity_vector = particle.heliocentric_norm_velocity_vector_2.sqrt();
             }
-            host_particle.heliocentric_position.x = 0.;
-            host_particle.heliocentric_position.y = 0.;
-            host_particle.heliocentric_position.z = 0.;
-            host_particle.heliocentric_velocity.x = 0.;
-            host_particle.heliocentric_velocity.y = 0.;
-            host_particle.heliocentric_velocity.z = 0.;
-            host_particle.heliocentric_distance = 0.;
-            host_particle.heliocentric_radial_velocity = 0.;
-            host_particle.heliocentric_norm_velocity_vector_2 = 0.;
-            host_particle.heliocentric_norm_velocity_vector = 0.;
         }
     }
 
-- 
2.43.0


From ff52a17131e28c88be316239959540f3344bfe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:27 +0000
Subject: [PATCH 09/19] fix: ejections are detected wherever the most massive
 body is listed

---
 src/particles/universe.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 7ad059f..d8d7df9 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -231,9 +231,10 @@ impl Universe {
                         println!("\n");
                         panic!("[PANIC {} UTC] Collision between particle {} and {}!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), i, j);
                     }
-                    if MAX_DISTANCE_2 > 0. && i == self.hosts.index.most_massive && distance_2 > MAX_DISTANCE_2 {
+                    if MAX_DISTANCE_2 > 0. && (i == self.hosts.index.most_massive || j == self.hosts.index.most_massive) && distance_2 > MAX_DISTANCE_2 {
+                        let ejected = if i == self.hosts.index.most_massive { j } else { i };
                         println!("\n");
-                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), j);
+                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), ejected);
                     }
                 }
                 //////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 0f1d8f0ab58267d8be2e193281d23c37eac1944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:27 +0000
Subject: [PATCH 10/19] fix: a disk without edges is disabled instead of
 indexing out of range

---
 src/particles/universe.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index d8d7df9..aceb26e 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -726,11 +726,12 @@ fn disable_unnecessary_effects(consider_effects: &mut ConsiderEffects, particles
                 found_central_body_general_relativity = true;
             }
         }
-        if let DiskEffect::CentralBody(_) = particle.disk.effect {
+        if let DiskEffect::CentralBody(disk) = particle.disk.effect {
             if found_central_body_disk {
                 panic!("[PANIC {} UTC] Only one central body is allowed for disk effects!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
             }
-            found_central_body_disk = true;
+            // A disk without edges is no disk (see find_indices)
+            found_central_body_disk = disk.inner_edge_distance != 0. || disk.outer_edge_distance != 0.;
         }
         if WindEffect::Disabled != particle.wind.effect {
             found_wind = true;
-- 
2.43.0


From 4c54c34525392701ccee5badf9f0723586b679d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:05 +0000
Subject: [PATCH 11/19] fix: evolving quantities do not depend on the times
 asked for before

---
 src/effects/evolution.rs | 43 +++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index fa389a1..e616fee 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -446,41 +446,45 @@ impl Evolver {
     // OPTIMIZATION: Skip first N elements which belong to the past
     // but still go through the last n elements just in case the integrator
     // is travelling to the past (e.g., current time step did not converge)
-    fn idx(&self) -> usize {
+    fn idx(&self, current_time: f64) -> usize {
         let security_shift = 10;
-        if self.left_index > security_shift {
+        if self.left_index > security_shift && self.time[self.left_index - security_shift] <= current_time {
             return self.left_index - security_shift;
         } else {
             return 0;
         }
     }
 
+    fn interpolate(&mut self, current_time: f64, quantity: fn(&Evolver) -> &Vec<f64>) -> f64 {
+        let idx = self.idx(current_time);
+        let (value, left_index) = linear_interpolation(current_time, &self.time[idx..], &quantity(self)[idx..]);
+        self.left_index = idx + left_index; // the interpolation started at idx
+        return value;
+    }
+
     pub fn radius(&mut self, current_time: f64, current_radius: f64) -> f64 {
-        let (new_radius, left_index) = match self.evolution {
-            EvolutionType::NonEvolving => { (current_radius, 0) },
-            _ => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius[self.idx()..]) }
+        let new_radius = match self.evolution {
+            EvolutionType::NonEvolving => { current_radius },
+            _ => { self.interpolate(current_time, |evolver| &evolver.radius) }
         };
-        self.left_index += left_index;
         return new_radius;
     }
 
     pub fn radius_of_gyration_2(&mut self, current_time: f64, current_radius_of_gyration_2: f64) -> f64 {
-        let (new_radius_of_gyration_2, left_index) = match self.evolution {
-            EvolutionType::Baraffe2015(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            EvolutionType::Leconte2011(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            _ => { (current_radius_of_gyration_2, 0) }
+        let new_radius_of_gyration_2 = match self.evolution {
+            EvolutionType::Baraffe2015(_) => { self.interpolate(current_time, |evolver| &evolver.radius_of_gyration_2) },
+            EvolutionType::Leconte2011(_) => { self.interpolate(current_time, |evolver| &evolver.radius_of_gyration_2) },
+            EvolutionType::LeconteChabrier2013(_) => { self.interpolate(current_time, |evolver| &evolver.radius_of_gyration_2) },
+            _ => { current_radius_of_gyration_2 }
         };
-        self.left_index += left_index;
         return new_radius_of_gyration_2;
     }
 
     pub fn love_number(&mut self, current_time: f64, current_love_number: f64) -> f64 {
-        let (new_love_number, left_index) = match self.evolution {
-            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.love_number[self.idx()..]) },
-            _ => { (current_love_number, 0) }
+        let new_love_number = match self.evolution {
+            EvolutionType::LeconteChabrier2013(_) => { self.interpolate(current_time, |evolver| &evolver.love_number) },
+            _ => { current_love_number }
         };
-        self.left_index += left_index;
         return new_love_number;
     }
 
@@ -502,13 +506,12 @@ impl Evolver {
         // The tidal theory (and this code) assumes circular orbits because they are easier.
         // Excentric orbits needs more than one frequency to be described and it will be
         // included in future versions of this code.
-        let (new_inverse_tidal_q_factor, left_index) = match self.evolution {
+        let new_inverse_tidal_q_factor = match self.evolution {
             EvolutionType::BolmontMathis2016(_) | EvolutionType::GalletBolmont2017(_) | EvolutionType::LeconteChabrier2013(true) => {
-                linear_interpolation(current_time, &self.time[self.idx()..], &self.inverse_tidal_q_factor[self.idx()..])
+                self.interpolate(current_time, |evolver| &evolver.inverse_tidal_q_factor)
             },
-            _ => (current_inverse_tidal_q_factor, 0),
+            _ => current_inverse_tidal_q_factor,
         };
-        self.left_index += left_index;
         return new_inverse_tidal_q_factor;
     }
 }
-- 
2.43.0


From 987b63a7ee2f151fd10fef9af270ee6ed5639008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:05 +0000
Subject: [PATCH 12/19] fix: the evolving love number reaches the body's tidal
 parameters

---
 src/effects/evolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index e616fee..126e328 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -534,9 +534,9 @@ pub fn calculate_particles_non_spin_dependent_evolving_quantities(current_time:
         ////////////////////////////////////////////////////////////////////
         // Love number
         ////////////////////////////////////////////////////////////////////
-        match &particle.tides.effect {
+        match &mut particle.tides.effect {
             TidesEffect::CentralBody(tidal_model) | TidesEffect::OrbitingBody(tidal_model) => {
-                if let TidalModel::ConstantTimeLag(mut params) = tidal_model {
+                if let TidalModel::ConstantTimeLag(params) = tidal_model {
                     params.love_number = evolver.love_number(current_time, params.love_number);
                 }
             },
-- 
2.43.0


From 664b56034c8ad67e3ffffca1c6db41d8bc9b4bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:05 +0000
Subject: [PATCH 13/19] fix: a planet leaving the dynamical tide regime drops
 its own dissipation factor

---
 src/effects/tides/constant_time_lag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/constant_time_lag.rs b/src/effects/tides/constant_time_lag.rs
index d5d157a..370786c 100644
--- a/src/effects/tides/constant_time_lag.rs
+++ b/src/effects/tides/constant_time_lag.rs
@@ -129,7 +129,7 @@ fn calculate_host_dependent_scaled_dissipation_factors(tidal_host_particle: &mut
                             set_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, particle.id, tidal_host_particle.id, host_dependent_scaled_dissipation_factor);
                         } else {
                             // Equilibrium regime (not dynamical tide)
-                            remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, tidal_host_particle.id, particle.id);
+                            remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, particle.id, tidal_host_particle.id);
                         }
                     }
                 }
-- 
2.43.0


From 39e3be000e2285f5816bcd706ba0302b8b29cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:40 +0000
Subject: [PATCH 14/19] fix: accept --time-limit when resuming

The flag was parsed as u64 but read as f64, which clap answers with a panic.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6a38792..a99ebb7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -72,7 +72,7 @@ fn main() {
                                     .arg(Arg::new("change_time_limit")
                                         .long("time-limit")
                                         .value_name("days")
-                                        .value_parser(value_parser!(u64))
+                                        .value_parser(value_parser!(f64))
                                         .help("Set new simulation time limit in days."))
                                     )
                             .subcommand_required(true)
-- 
2.43.0


From 0ab58862dd763a250ae85a220eb76832a7dc7ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:40 +0000
Subject: [PATCH 15/19] fix: write recovery snapshots also when the execution
 time is limited

With --limit the periodic recovery snapshots were never written, so that a run
killed before its limit could not be resumed.
---
 src/main.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a99ebb7..dbc7bfa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -158,14 +158,11 @@ fn main() {
     loop {
         match boxed_universe_integrator.iterate(&mut universe_history_writer, silent_mode) {
             Ok(recovery_snapshot_time_trigger) => {
-                if enabled_execution_time_limit {
-                    let elapsed = instant.elapsed();
-                    if elapsed >= execution_time_limit {
-                        // Save a universe snapshot so that we can resume later on
-                        boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
-                        println!("[WARNING {} UTC] Reached execution time limit before simulation completion", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap()); 
-                        break;
-                    }
+                if enabled_execution_time_limit && instant.elapsed() >= execution_time_limit {
+                    // Save a universe snapshot so that we can resume later on
+                    boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
+                    println!("[WARNING {} UTC] Reached execution time limit before simulation completion", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap()); 
+                    break;
                 } else if recovery_snapshot_time_trigger {
                     // Save a universe snapshot so that we can resume in case of failure
                     boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
-- 
2.43.0


From 384add3ab68a6ed9c5853bb2cb164cd6268b7590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:07 +0000
Subject: [PATCH 16/19] fix: define the tidal energy loss of the first historic
 snapshot

It was computed before any effect had been evaluated, from distances and forces
that were still zero, so the first record of every simulation with tides held a
NaN.
---
 src/integrator/ias15.rs    | 3 +++
 src/integrator/leapfrog.rs | 3 +++
 src/integrator/whfast.rs   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index 3f960cc..afdb038 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -414,6 +414,9 @@ impl Integrator for Ias15 {
         let evolution = true;
         self.universe.calculate_spin_and_evolving_quantities(self.current_time, evolution); // Make sure we start with the good initial values
         self.universe.calculate_roche_radiuses(); // Needed for collision detection
+        // The first historic snapshot is written before the first step and uses quantities derived by the effects (e.g., tidal energy loss)
+        self.universe.inertial_to_heliocentric();
+        self.universe.calculate_additional_effects(self.current_time, evolution, true, true, IgnoreGravityTerms::None);
     }
 
 
diff --git a/src/integrator/leapfrog.rs b/src/integrator/leapfrog.rs
index ed6d8ca..c9d3e4a 100644
--- a/src/integrator/leapfrog.rs
+++ b/src/integrator/leapfrog.rs
@@ -146,6 +146,9 @@ impl Integrator for LeapFrog {
         let evolution = true;
         self.universe.calculate_spin_and_evolving_quantities(self.current_time, evolution); // Make sure we start with the good initial values
         self.universe.calculate_roche_radiuses(); // Needed for collision detection
+        // The first historic snapshot is written before the first step and uses quantities derived by the effects (e.g., tidal energy loss)
+        self.universe.inertial_to_heliocentric();
+        self.universe.calculate_additional_effects(self.current_time, evolution, true, true, IgnoreGravityTerms::None);
     }
 
     fn iterate(&mut self, universe_history_writer: &mut BufWriter<File>, silent_mode: bool) -> Result<bool, String> {
diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index f199906..123a4a8 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -230,6 +230,9 @@ impl Integrator for WHFast {
         let evolution = true;
         self.universe.calculate_spin_and_evolving_quantities(self.current_time, evolution); // Make sure we start with the good initial values
         self.universe.calculate_roche_radiuses(); // Needed for collision detection
+        // The first historic snapshot is written before the first step and uses quantities derived by the effects (e.g., tidal energy loss)
+        self.universe.inertial_to_heliocentric();
+        self.universe.calculate_additional_effects(self.current_time, evolution, true, true, IgnoreGravityTerms::None);
     }
 
     fn iterate(&mut self, universe_history_writer: &mut BufWriter<File>, silent_mode: bool) -> Result<bool, String> {
-- 
2.43.0


From d480bb6899a272d0f6e91b66e81e0d3abfee78ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 17/19] fix: refuse an incomplete binary snapshot that another
 integrator could be read from

---
 src/integrator/output.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 38a0662..729857d 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -11,6 +11,7 @@ use super::super::tools::calculate_keplerian_orbital_elements;
 use bincode;
 use time::{OffsetDateTime, format_description};
 use serde::{Serialize};
+use serde::de::DeserializeOwned;
 use serde_json;
 use std::path::Path;
 use std::fs;
@@ -240,11 +241,21 @@ fn deserialize_json_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>
     }
 }
 
+fn deserialize_whole<T: DeserializeOwned, R: Read>(reader: &mut R) -> Result<T, bincode::Error> {
+    // All the content has to be used: the beginning of an incomplete snapshot can be understood as a different integrator
+    let value = bincode::deserialize_from(&mut *reader)?;
+    let mut next_byte = [0u8; 1];
+    if reader.read(&mut next_byte)? > 0 {
+        return Err(Box::new(bincode::ErrorKind::Custom("Unexpected content at the end".to_string())));
+    }
+    Ok(value)
+}
+
 fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>, String> {
     // Open the path in read-only mode, returns `io::Result<File>`
     let snapshot_file = File::open(&snapshot_path).unwrap();
     let mut reader = BufReader::new(&snapshot_file);
-    let wrapped_universe_integrator: Result<WHFast, bincode::Error> = bincode::deserialize_from(&mut reader);
+    let wrapped_universe_integrator: Result<WHFast, bincode::Error> = deserialize_whole(&mut reader);
     match wrapped_universe_integrator {
         Ok(universe_integrator) => {
             println!("[INFO {} UTC] WHFAST Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
@@ -254,7 +265,7 @@ fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>,
             // Re-open file because the previous File/BufReader was already consumed
             let snapshot_file = File::open(&snapshot_path).unwrap();
             let mut reader = BufReader::new(&snapshot_file);
-            let wrapped_universe_integrator: Result<Ias15, bincode::Error> = bincode::deserialize_from(&mut reader);
+            let wrapped_universe_integrator: Result<Ias15, bincode::Error> = deserialize_whole(&mut reader);
             match wrapped_universe_integrator {
                 Ok(universe_integrator) => {
                     println!("[INFO {} UTC] IAS15 Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
@@ -264,7 +275,7 @@ fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>,
                     // Re-open file because the previous File/BufReader was already consumed
                     let snapshot_file = File::open(&snapshot_path).unwrap();
                     let mut reader = BufReader::new(&snapshot_file);
-                    let wrapped_universe_integrator: Result<LeapFrog, bincode::Error> = bincode::deserialize_from(&mut reader);
+                    let wrapped_universe_integrator: Result<LeapFrog, bincode::Error> = deserialize_whole(&mut reader);
                     match wrapped_universe_integrator {
                         Ok(universe_integrator) => {
                             println!("[INFO {} UTC] LeapFrog Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
-- 
2.43.0


From d8dfe8a5491bab32dcfa0813d0451a5d0d1adf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:13 +0000
Subject: [PATCH 18/19] hook: stand-in for and access to WHFast's Keplerian
 motion, under cfg(posidonius_verif)

---
 src/integrator/whfast.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index 123a4a8..a2b68de 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -87,6 +87,19 @@ use std::any::Any;
 /// energy is conserved.
 ///
 
+/// Verification hooks: a stand-in for the Keplerian motion of one body, and direct access to the real one
+#[cfg(posidonius_verif)]
+pub mod verif {
+    use super::{Axes, WHFast};
+    pub static mut KEPLER_FLOW: Option<fn(f64, f64, Axes, Axes) -> (Axes, Axes)> = None;
+    pub fn kepler_step(integrator: &mut WHFast, i: usize, mass_g: f64, dt: f64, position: Axes, velocity: Axes) -> (Axes, Axes) {
+        integrator.particles_alternative_coordinates[i].position = position;
+        integrator.particles_alternative_coordinates[i].velocity = velocity;
+        integrator.kepler_individual_step(i, mass_g, dt);
+        (integrator.particles_alternative_coordinates[i].position, integrator.particles_alternative_coordinates[i].velocity)
+    }
+}
+
 #[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]
 pub enum CoordinatesType {
     Jacobi,
@@ -677,6 +690,14 @@ impl WHFast {
     //***************************** 
     // Keplerian motion           
     fn kepler_individual_step(&mut self, i: usize, mass_g: f64, _dt: f64){
+        #[cfg(posidonius_verif)]
+        if let Some(flow) = unsafe { verif::KEPLER_FLOW } {
+            let p_j = &mut self.particles_alternative_coordinates[i];
+            let (position, velocity) = flow(mass_g, _dt, p_j.position, p_j.velocity);
+            p_j.position = position;
+            p_j.velocity = velocity;
+            return;
+        }
         // Save a copy of the original position and velocities
         let p1_position;
         let p1_velocity;
-- 
2.43.0


From 3439fe6e5101f4b3226ae0911fa6e2d4b8f86f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:13 +0000
Subject: [PATCH 19/19] fix: integrate the spin also when wind is the only
 effect that changes it

---
 src/integrator/ias15.rs  | 4 ++--
 src/integrator/whfast.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index afdb038..b6558b3 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -531,7 +531,7 @@ impl Ias15 {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.wind || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
 
         loop {
 
@@ -1348,7 +1348,7 @@ impl Ias15 {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.wind || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
         if ratio > 20. {
             // Do not predict if stepsize increase is very large.
             for k in 0..3*self.n_particles {
diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index a2b68de..b100d60 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -288,7 +288,7 @@ impl Integrator for WHFast {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.wind || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
 
         let evolution = true;
         self.integrate_velocity_dependent_forces(self.half_time_step, integrate_spin, evolution); // Corrects the inertial velocity and computes spin
-- 
2.43.0

