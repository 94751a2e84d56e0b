From 31ffde3ef3ab2c5c4a92f0893e0c4a66aa950305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 01/15] fix: use the configured step size in simulation runs

Phase::reset restores the step size from base_stepsize, which was never set
from the configuration, so every run used a step of 1 s.
---
 sim/src/phase.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 964e3c5..2de045f 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -274,6 +274,7 @@ impl Phase {
         }
         if let Some(config) = config.stepsize {
             phase.stepsize = config;
+            phase.base_stepsize = config;
         }
         if let Some(config) = config.end_criterion {
             phase.end_criterion = config;
-- 
2.43.0


From 22fbe7c72f55144b0736436cc07d7237c99cdd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 02/15] fix: initialize the vehicle at the configured altitude

The documented init altitude was parsed but never used.
---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 2de045f..01b78b9 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -325,7 +325,7 @@ impl Phase {
         let distance_to_surface =
             self.planet.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));
 
-        self.state.position = distance_to_surface
+        self.state.position = (distance_to_surface + config.altitude)
             * vector![
                 geocentric_lat.cos() * long.cos(),
                 geocentric_lat.cos() * long.sin(),
-- 
2.43.0


From 039329e75856fb69fc85906fe89d9fb2b2d2c677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 03/15] fix: convert geodetic to geocentric latitude in the
 right direction

With k = (equatorial / polar radius)^2, tan(geocentric) = tan(geodetic) / k.
The latitude was multiplied by k^2 instead, which moved the launch site away
from the equator on oblate planets.
---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 01b78b9..6b88cb5 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -318,7 +318,7 @@ impl Phase {
 
         let k = (self.planet.equatorial_radius / self.planet.polar_radius).powi(2);
 
-        let geocentric_lat = f64::atan(k.powi(2) * lat.tan());
+        let geocentric_lat = f64::atan(lat.tan() / k);
 
         self.launch = [geocentric_lat, long, az];
 
-- 
2.43.0


From b022bc98705224f964feb10d9d870240cc6c07ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 04/15] fix: build rotations directly from their matrices

Rotation3::from_matrix iteratively searches the closest rotation starting at
the identity and stops at the wrong one (off by 180 deg) for half-turns, e.g.
when launching at latitude 0, longitude 180. The matrices are rotations
already.
---
 sim/src/transformations.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sim/src/transformations.rs b/sim/src/transformations.rs
index a0c438d..8cff43d 100644
--- a/sim/src/transformations.rs
+++ b/sim/src/transformations.rs
@@ -11,7 +11,7 @@ use nalgebra::{matrix, Rotation3};
 ///
 /// Uses the geocentric latitude, longitude and azimuth in rad.
 pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
                                        lat.cos()*long.cos(),                                lat.cos()*long.sin(),           lat.sin();
         lat.sin()*long.cos()*az.sin() - az.cos()*long.sin(), az.cos()*long.cos() + az.sin()*lat.sin()*long.sin(), -az.sin()*lat.cos();
        -az.sin()*long.sin() - az.cos()*lat.sin()*long.cos(), az.sin()*long.cos() - az.cos()*lat.sin()*long.sin(),  az.cos()*lat.cos()
@@ -22,7 +22,7 @@ pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {
 ///
 /// Uses the roll, yaw and pitch angles in rad.
 pub fn launch_to_body(roll: f64, yaw: f64, pitch: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
         yaw.cos()*pitch.cos(), roll.cos()*yaw.sin()*pitch.cos() + roll.sin()*pitch.sin(), roll.sin()*yaw.sin()*pitch.cos() - roll.cos()*pitch.sin();
                    -yaw.sin(),                                      roll.cos()*yaw.cos(),                                      roll.sin()*yaw.cos();
         yaw.cos()*pitch.sin(), roll.cos()*yaw.sin()*pitch.sin() - roll.sin()*pitch.cos(), roll.sin()*yaw.sin()*pitch.sin() + roll.cos()*pitch.cos()
@@ -46,7 +46,7 @@ pub fn inertial_to_body(launch: [f64; 3], euler_angles: [f64; 3]) -> Rotation3<f
 /// Uses the current simulation time in sec and the planet's rotation rate in
 /// rad/sec.
 pub fn inertial_to_planet(time: f64, rotation_rate: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
         (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;
        -(rotation_rate*time).sin(), (rotation_rate*time).cos(), 0.;
                                 0.,                         0., 1.
-- 
2.43.0


From 4fa4862793dd6ccf39393399f4c943afdf7098d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 05/15] fix: compute the angle of attack in all quadrants

A flow from behind or straight from above was reported as zero or 90 deg,
because the components were compared to zero without taking their magnitude.
---
 sim/src/vehicle.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index f3339b0..2b934bc 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -101,14 +101,11 @@ impl Vehicle {
     /// Calculates the angle-of-attack. `velocity` should be the velocity with
     /// respect to the atmosphere in body frame.
     pub fn alpha(velocity: Vector3<f64>) -> f64 {
-        if velocity.x < NEARLY_ZERO {
-            if velocity.z < NEARLY_ZERO {
-                return 0.;
-            }
-            return velocity.z.signum() * PI / 2.;
+        if velocity.x.abs() < NEARLY_ZERO && velocity.z.abs() < NEARLY_ZERO {
+            return 0.;
         }
 
-        f64::atan(velocity.z / velocity.x)
+        f64::atan2(velocity.z, velocity.x)
     }
 
     /// Calculates the thrust force of the vehicle at the current throttle
-- 
2.43.0


From 924313321717a098a3a981d696b1197076cbd132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 06/15] fix: keep drag when no lift table is given (and vice
 versa)

A missing table yields NAN, which spread to both the axial and the normal
force and zeroed the forces of the table which was given.
---
 sim/src/vehicle.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index 2b934bc..fc94bd3 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -175,9 +175,10 @@ impl Vehicle {
     /// coefficients are calculated with tables, which can take any state
     /// variable as input.
     pub fn aero_force(&self, state: &State) -> Vector3<f64> {
-        let cd = self.drag_coeff.at_state(state);
-        let cl = self.lift_coeff.at_state(state);
-        let cy = self.side_force_coeff.at_state(state);
+        // Coefficients without a value (e.g. from an empty table) do not contribute
+        let [cd, cl, cy] = [&self.drag_coeff, &self.lift_coeff, &self.side_force_coeff]
+            .map(|table| table.at_state(state))
+            .map(|coeff| if coeff.is_nan() { 0. } else { coeff });
 
         let ca = state.alpha.cos() * cd - state.alpha.sin() * cl;
         let cn = state.alpha.sin() * cd + state.alpha.cos() * cl;
-- 
2.43.0


From 03a1103df08f1ed9a6939a19755cd80a64f089d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 07/15] fix: report an infinite mach number without atmosphere
 also at rest

The documented value was NAN (0 / 0) for a vehicle at rest.
---
 sim/src/atmosphere/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sim/src/atmosphere/mod.rs b/sim/src/atmosphere/mod.rs
index 515c5f9..1d3ae4f 100644
--- a/sim/src/atmosphere/mod.rs
+++ b/sim/src/atmosphere/mod.rs
@@ -111,7 +111,10 @@ impl Atmosphere {
     /// Calculates the speed of sound and uses the velocity with respect to the
     /// atmosphere of the state.
     pub fn mach_number(&self, state: &State) -> f64 {
-        state.velocity_atmosphere.norm() / self.speed_of_sound(state)
+        match self.model {
+            AtmosphereModel::NoAtmosphere => f64::INFINITY,
+            _ => state.velocity_atmosphere.norm() / self.speed_of_sound(state),
+        }
     }
 
     /// Get the dynamic pressure in Pa.
-- 
2.43.0


From 6b2227f0799fd00f3df2240c2dae32bb4d2f71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 08/15] fix: do not leak derived variables into the next
 phase's initial state

The initial state of a phase was evaluated on top of the last full state of the
previous one, so variables which are not computed yet were not zero there.
---
 sim/src/phase.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 6b88cb5..d8f0185 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -196,7 +196,10 @@ impl Phase {
     /// Also, it will write the current time step to output.
     pub fn run(&mut self) {
         // Calculate initial full state
-        self.state = self.system(self.state.clone());
+        self.state = self.system(State::from_vec(
+            vector![self.state.time, self.state.time_since_event],
+            self.state.to_primary_vec(),
+        ));
 
         while !self.ended {
             self.step();
-- 
2.43.0


From c2f358565170baf6409c3bee00fc1e9e58bf2699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 09/15] fix: end a phase only when the target value is crossed

A value which started beyond its target was taken for an overshoot, so the
phase stepped backwards in time to reach it (or to NAN for a constant value).
As documented, such an end criterion is not reached until it is crossed.
---
 sim/src/phase.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index d8f0185..3f92d1f 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -135,22 +135,19 @@ impl Phase {
         let y_t_1 = self.end_criterion.0.get_value(new_state) - self.end_criterion.1;
         let dt = self.stepsize;
 
-        -y_t * dt / (y_t_1 - y_t)
+        // Never step back in time, if the target was already reached
+        (-y_t * dt / (y_t_1 - y_t)).max(0.)
     }
 
     /// Checks whether the target value was overshot
     ///
-    /// It checks whether the value is increasing or decreasing over the last
-    /// time step and then checks whether the current value is above or below
-    /// the target value.
+    /// It checks whether the target value lies between the values of the last
+    /// and the current time step, or was already reached at the last one.
     fn event_is_active(&self, old_state: &State, new_state: &State) -> bool {
-        if self.end_criterion.0.get_value(new_state) < self.end_criterion.0.get_value(old_state) {
-            // Function is going down, so check if function < target
-            self.end_criterion.0.get_value(new_state) < self.end_criterion.1
-        } else {
-            // Function is going up, check if function > target
-            self.end_criterion.0.get_value(new_state) > self.end_criterion.1
-        }
+        let y_t = self.end_criterion.0.get_value(old_state) - self.end_criterion.1;
+        let y_t_1 = self.end_criterion.0.get_value(new_state) - self.end_criterion.1;
+
+        y_t.abs() < 1e-3 || y_t * y_t_1 < 0.
     }
 
     /// Does one integration step.
-- 
2.43.0


From 2afac4e2b41e230087ebda5d1c7f827ec8a5ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 10/15] fix: correct two mistyped 1962 standard atmosphere base
 values

---
 sim/src/atmosphere/standard_atmosphere_1962.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim/src/atmosphere/standard_atmosphere_1962.rs b/sim/src/atmosphere/standard_atmosphere_1962.rs
index f772d72..6ab0719 100644
--- a/sim/src/atmosphere/standard_atmosphere_1962.rs
+++ b/sim/src/atmosphere/standard_atmosphere_1962.rs
@@ -143,14 +143,14 @@ const STD_ATMOS_TABLE: [(f64, f64, f64, f64); 22] = [
         0.56867005e-2 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
     (
-        396_406.39 * METER_PER_FOOT,
+        386_406.39 * METER_PER_FOOT,
         0.52676024e-4 * PASCAL_PER_PSF,
         649.17 * KELVIN_PER_RANKIN,
         0.11443751e-1 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
     (
         480_781.04 * METER_PER_FOOT,
-        0.10566108e-4 * PASCAL_PER_PSF,
+        0.10586108e-4 * PASCAL_PER_PSF,
         1_729.17 * KELVIN_PER_RANKIN,
         0.86358208e-2 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
-- 
2.43.0


From d197abef4cd5b980e0c604dc3104bc72dfa41c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 11/15] fix: accept the documented planet model name
 "fisher_1960"

---
 sim/src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/config.rs b/sim/src/config.rs
index b94f219..3d2d48a 100644
--- a/sim/src/config.rs
+++ b/sim/src/config.rs
@@ -25,6 +25,7 @@ pub enum PlanetConfig {
     Spherical,
     /// 1960 Fisher earth model (includes up to J2)
     /// See [`crate::planet`] for more information.
+    #[serde(rename = "fisher_1960", alias = "fisher1960")]
     Fisher1960,
     /// Smithsonian earth model (includes up to J4)
     /// See [`crate::planet`] for more information.
-- 
2.43.0


From e6ddbbf7b6b8d694d33f366c9644072d6d4d80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 12/15] fix: halve the interval when searching the end of a
 phase

The secant estimate alone converges so slowly for strongly curved variables
(e.g. pressure or dynamic pressure with a step size of 20 s) that the
simulation aborted although the target value was crossed.
---
 sim/src/phase.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 3f92d1f..bd9ea6d 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -179,7 +179,14 @@ impl Phase {
                 panic!("Could not find zero crossing of event")
             }
 
-            self.stepsize = self.time_to_go(&self.state, &state);
+            let stepsize = self.time_to_go(&self.state, &state);
+            // The estimate converges slowly for strongly curved variables,
+            // so make sure the interval is halved at least every second try.
+            self.stepsize = if self.end_criterion_tries % 2 == 1 {
+                stepsize.min(self.stepsize / 2.)
+            } else {
+                stepsize
+            };
             self.end_criterion_tries += 1;
         } else {
             // Normal step, still more steps to go.
-- 
2.43.0


From ec7db061db35e8ae9f1947fffef57b992ec717e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 13/15] fix: do not step over a target value which is known to
 be crossed

After a rejected step the shortened step size was kept. If the shortened step
ended just before the crossing, the next one could jump past the interval in
which the target value is crossed, and an oscillating variable was back on the
other side by then: the phase continued.
---
 sim/src/phase.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index bd9ea6d..98cd0d1 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -47,6 +47,9 @@ pub struct Phase {
     end_criterion: (StateVariable, f64),
     /// The number of tries to hit the target value.
     end_criterion_tries: usize,
+    /// The time since the event until which the target value must be crossed,
+    /// if it is already known.
+    end_criterion_bound: Option<f64>,
     /// Whether the current phase has ended.
     pub ended: bool,
 }
@@ -179,6 +182,8 @@ impl Phase {
                 panic!("Could not find zero crossing of event")
             }
 
+            self.end_criterion_bound = Some(self.state.time_since_event + self.stepsize);
+
             let stepsize = self.time_to_go(&self.state, &state);
             // The estimate converges slowly for strongly curved variables,
             // so make sure the interval is halved at least every second try.
@@ -191,6 +196,15 @@ impl Phase {
         } else {
             // Normal step, still more steps to go.
             self.state = state;
+
+            if let Some(bound) = self.end_criterion_bound {
+                // Do not step over the crossing.
+                self.stepsize = bound - self.state.time_since_event;
+                if self.stepsize <= 0. {
+                    self.stepsize = self.base_stepsize;
+                    self.end_criterion_bound = None;
+                }
+            }
         }
     }
 
@@ -236,6 +250,7 @@ impl Default for Phase {
             base_stepsize: 1.,
             end_criterion: (StateVariable::TimeSinceEvent, 0.),
             end_criterion_tries: 0,
+            end_criterion_bound: None,
             ended: false,
         }
     }
@@ -309,6 +324,7 @@ impl Phase {
         self.steering.init(self.state.euler_angles);
         self.ended = false;
         self.end_criterion_tries = 0;
+        self.end_criterion_bound = None;
         self
     }
 
-- 
2.43.0


From 2e6064e793ad6bbe0cea14924f21c989d53108bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 14/15] fix: bisect the interval when searching the end of a
 phase

Taking the smaller of the estimate and half the interval did not shrink the
interval if the estimate fell short of the crossing.
---
 sim/src/phase.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 98cd0d1..4f074b3 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -184,13 +184,12 @@ impl Phase {
 
             self.end_criterion_bound = Some(self.state.time_since_event + self.stepsize);
 
-            let stepsize = self.time_to_go(&self.state, &state);
             // The estimate converges slowly for strongly curved variables,
-            // so make sure the interval is halved at least every second try.
+            // so halve the interval every second try.
             self.stepsize = if self.end_criterion_tries % 2 == 1 {
-                stepsize.min(self.stepsize / 2.)
+                self.stepsize / 2.
             } else {
-                stepsize
+                self.time_to_go(&self.state, &state)
             };
             self.end_criterion_tries += 1;
         } else {
-- 
2.43.0


From 5d32d52ffc0d5751678c1c32b87b8392bbe675b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 15/15] fix: allow enough tries to find the end of a phase by
 bisection

---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 4f074b3..45131b8 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -178,7 +178,7 @@ impl Phase {
             self.state = state;
         } else if self.event_is_active(&self.state, &state) {
             // The stepsize was too big, try again.
-            if self.end_criterion_tries > 20 {
+            if self.end_criterion_tries > 100 {
                 panic!("Could not find zero crossing of event")
             }
 
-- 
2.43.0

