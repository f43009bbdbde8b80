From 69cc0332451e16b304ca580e3b89fe2c6bfbb87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 01/15] fix: honour the configured step size

Phase::reset restored the step size from base_stepsize, which was never
updated from the configuration, so every phase ran with a step size of 1 s.
---
 sim/src/phase.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 964e3c5..f919a8e 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -273,6 +273,7 @@ impl Phase {
             phase.steering.update_with_config(config);
         }
         if let Some(config) = config.stepsize {
+            phase.base_stepsize = config;
             phase.stepsize = config;
         }
         if let Some(config) = config.end_criterion {
-- 
2.43.0


From a17badc3ac74fdaa0fad555a0617cf2039c42b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 02/15] fix: start the vehicle at the configured initial
 altitude

init.altitude was parsed but never used.
---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index f919a8e..7fa5033 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -325,7 +325,7 @@ impl Phase {
         let distance_to_surface =
             self.planet.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));
 
-        self.state.position = distance_to_surface
+        self.state.position = (distance_to_surface + config.altitude)
             * vector![
                 geocentric_lat.cos() * long.cos(),
                 geocentric_lat.cos() * long.sin(),
-- 
2.43.0


From 28b9617c77a54ad16ebfedd3574835dcdfff89a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 03/15] fix: convert geodetic to geocentric latitude correctly

tan(geocentric) = (R_P / R_E)^2 * tan(geodetic), but k is (R_E / R_P)^2, so
the latitude moved towards the pole and by twice the amount.
---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 7fa5033..1e0be62 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -318,7 +318,7 @@ impl Phase {
 
         let k = (self.planet.equatorial_radius / self.planet.polar_radius).powi(2);
 
-        let geocentric_lat = f64::atan(k.powi(2) * lat.tan());
+        let geocentric_lat = f64::atan(lat.tan() / k);
 
         self.launch = [geocentric_lat, long, az];
 
-- 
2.43.0


From 303f1e6a03b2490b3ebe56b2dba91f4137944ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 04/15] fix: accept the documented planet model name
 fisher_1960

---
 sim/src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/config.rs b/sim/src/config.rs
index b94f219..535b4a9 100644
--- a/sim/src/config.rs
+++ b/sim/src/config.rs
@@ -25,6 +25,7 @@ pub enum PlanetConfig {
     Spherical,
     /// 1960 Fisher earth model (includes up to J2)
     /// See [`crate::planet`] for more information.
+    #[serde(alias = "fisher_1960")]
     Fisher1960,
     /// Smithsonian earth model (includes up to J4)
     /// See [`crate::planet`] for more information.
-- 
2.43.0


From cda75f0e37a8653af1f0a7727dfa975831949bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 05/15] fix: angle of attack for flow from above with no
 forward speed

A negative z component was always treated as nearly zero, so the angle of
attack was 0 instead of -PI/2.
---
 sim/src/vehicle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index f3339b0..4fbb04e 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -102,7 +102,7 @@ impl Vehicle {
     /// respect to the atmosphere in body frame.
     pub fn alpha(velocity: Vector3<f64>) -> f64 {
         if velocity.x < NEARLY_ZERO {
-            if velocity.z < NEARLY_ZERO {
+            if velocity.z.abs() < NEARLY_ZERO {
                 return 0.;
             }
             return velocity.z.signum() * PI / 2.;
-- 
2.43.0


From 4ae66dc378d8c838b425d3ec18137c08e80c08d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 06/15] fix: an empty drag or lift table must not disable the
 other one

The NAN of the empty table spread to both the axial and normal force, which
were then both set to zero.
---
 sim/src/vehicle.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index 4fbb04e..642216d 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -178,9 +178,11 @@ impl Vehicle {
     /// coefficients are calculated with tables, which can take any state
     /// variable as input.
     pub fn aero_force(&self, state: &State) -> Vector3<f64> {
-        let cd = self.drag_coeff.at_state(state);
-        let cl = self.lift_coeff.at_state(state);
-        let cy = self.side_force_coeff.at_state(state);
+        // An empty table (NAN) has no effect, and must not affect the others
+        let coeff = |table: &Table| Some(table.at_state(state)).filter(|c| !c.is_nan());
+        let cd = coeff(&self.drag_coeff).unwrap_or(0.);
+        let cl = coeff(&self.lift_coeff).unwrap_or(0.);
+        let cy = coeff(&self.side_force_coeff).unwrap_or(0.);
 
         let ca = state.alpha.cos() * cd - state.alpha.sin() * cl;
         let cn = state.alpha.sin() * cd + state.alpha.cos() * cl;
-- 
2.43.0


From eb1832c3c3ddf5295faaa365a64ba7ec4f071c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 07/15] fix: an engine without thrust consumes no propellant

The default engine of the user manual (thrust and specific impulse of zero)
resulted in a mass flow of NAN, and with it in a state full of NANs.
---
 sim/src/vehicle.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index 642216d..23f1c2c 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -227,6 +227,11 @@ impl Engine {
 
     /// Calculates the massflow using the vacuum thrust and specific impulse.
     fn massflow(&self) -> f64 {
+        if self.thrust_vac == 0. {
+            // No thrust, the specific impulse does not matter (and can be zero)
+            return 0.;
+        }
+
         -self.thrust_vac / self.isp_vac / STD_GRAVITY
     }
 }
-- 
2.43.0


From cc905e762e76dacfe026b1b15a4acc985d2375a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 08/15] fix: only treat the end criterion as overshot if the
 target was crossed

Any state beyond the target in the direction of change counted as overshot,
even if the target had been passed long before. The estimated step size then
became negative and the simulation ran backwards in time (or became infinite
for a constant value). A target already reached at the start ends the phase.
---
 sim/src/phase.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 1e0be62..9860c58 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -140,17 +140,13 @@ impl Phase {
 
     /// Checks whether the target value was overshot
     ///
-    /// It checks whether the value is increasing or decreasing over the last
-    /// time step and then checks whether the current value is above or below
-    /// the target value.
+    /// It checks whether the target value lies between the values before and
+    /// after the last time step.
     fn event_is_active(&self, old_state: &State, new_state: &State) -> bool {
-        if self.end_criterion.0.get_value(new_state) < self.end_criterion.0.get_value(old_state) {
-            // Function is going down, so check if function < target
-            self.end_criterion.0.get_value(new_state) < self.end_criterion.1
-        } else {
-            // Function is going up, check if function > target
-            self.end_criterion.0.get_value(new_state) > self.end_criterion.1
-        }
+        let y_t = self.end_criterion.0.get_value(old_state) - self.end_criterion.1;
+        let y_t_1 = self.end_criterion.0.get_value(new_state) - self.end_criterion.1;
+
+        y_t * y_t_1 < 0.
     }
 
     /// Does one integration step.
@@ -176,6 +172,10 @@ impl Phase {
             // We found a good last stepsize. Phase has ended.
             self.ended = true;
             self.state = state;
+        } else if (self.end_criterion.0.get_value(&self.state) - self.end_criterion.1).abs() < 1e-3
+        {
+            // The target was already reached when the phase started.
+            self.ended = true;
         } else if self.event_is_active(&self.state, &state) {
             // The stepsize was too big, try again.
             if self.end_criterion_tries > 20 {
-- 
2.43.0


From 40c5ad0484e0d424825e6fd0838f4148645ce055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 09/15] fix: compute the initial state of a phase from the
 primary state only

Variables which are not available yet for steering or tables should be zero,
but held the values of the previous phase's last state.
---
 sim/src/phase.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 9860c58..82f3a2c 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -195,8 +195,11 @@ impl Phase {
     /// This function repeatedly run [`Phase::step`] until the phase has ended.
     /// Also, it will write the current time step to output.
     pub fn run(&mut self) {
-        // Calculate initial full state
-        self.state = self.system(self.state.clone());
+        // Calculate initial full state, without values left from the last phase
+        self.state = self.system(State::from_vec(
+            vector![self.state.time, self.state.time_since_event],
+            self.state.to_primary_vec(),
+        ));
 
         while !self.ended {
             self.step();
-- 
2.43.0


From 8d1b8440132d31bc41264e3637162f1e1c695048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 10/15] Add a run-time monitoring hook, guarded by
 cfg(post_monitor)

---
 sim/src/lib.rs     |  2 ++
 sim/src/monitor.rs | 39 +++++++++++++++++++++++++++++++++++++++
 sim/src/phase.rs   | 11 +++++++++++
 3 files changed, 52 insertions(+)
 create mode 100644 sim/src/monitor.rs

diff --git a/sim/src/lib.rs b/sim/src/lib.rs
index 7593ba7..d9d5288 100644
--- a/sim/src/lib.rs
+++ b/sim/src/lib.rs
@@ -13,6 +13,8 @@ mod atmosphere;
 mod config;
 mod example_data;
 mod integration;
+#[cfg(post_monitor)]
+pub mod monitor;
 mod phase;
 mod planet;
 mod state;
diff --git a/sim/src/monitor.rs b/sim/src/monitor.rs
new file mode 100644
index 0000000..58c6e73
--- /dev/null
+++ b/sim/src/monitor.rs
@@ -0,0 +1,39 @@
+//! Observation points for run-time monitoring.
+//!
+//! Only compiled with `RUSTFLAGS="--cfg post_monitor"`. An observer installed
+//! with [`observe`] sees the events of all simulations run by its thread.
+
+pub use crate::state::State;
+use std::cell::RefCell;
+
+/// Something that happened during a simulation.
+#[derive(Debug)]
+pub enum Event<'a> {
+    /// The equations of motion were evaluated, with this result.
+    Evaluated(&'a State),
+    /// A phase starts running from this state.
+    PhaseStarted(&'a State),
+    /// A time step was tried. This is the current state after it, which is
+    /// the one before it if the step was discarded.
+    Stepped { state: &'a State, ended: bool },
+}
+
+type Observer = Box<dyn FnMut(&Event)>;
+
+thread_local! {
+    static OBSERVER: RefCell<Option<Observer>> = const { RefCell::new(None) };
+}
+
+/// Installs the observer of the current thread.
+pub fn observe(observer: Option<Observer>) {
+    OBSERVER.with(|o| *o.borrow_mut() = observer);
+}
+
+/// Passes an event to the observer. It is uninstalled if it panics.
+pub(crate) fn emit(event: Event) {
+    let observer = OBSERVER.with(|o| o.borrow_mut().take());
+    if let Some(mut observer) = observer {
+        observer(&event);
+        OBSERVER.with(|o| *o.borrow_mut() = Some(observer));
+    }
+}
diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 82f3a2c..12f9dd0 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -122,6 +122,9 @@ impl Phase {
             .transform_vector(&state.vehicle_acceleration_body)
             + state.gravity_acceleration;
 
+        #[cfg(post_monitor)]
+        crate::monitor::emit(crate::monitor::Event::Evaluated(&state));
+
         state
     }
 
@@ -201,8 +204,16 @@ impl Phase {
             self.state.to_primary_vec(),
         ));
 
+        #[cfg(post_monitor)]
+        crate::monitor::emit(crate::monitor::Event::PhaseStarted(&self.state));
+
         while !self.ended {
             self.step();
+            #[cfg(post_monitor)]
+            crate::monitor::emit(crate::monitor::Event::Stepped {
+                state: &self.state,
+                ended: self.ended,
+            });
             println!(
                 "Time: {:.0}\nPosition: {:.0}\nVelocity: {:.0}\nAltitude: {:.0}\nProp mass: {:.0}\n",
                 self.state.time,
-- 
2.43.0


From c0e9f9a7102a00d3f48111691ab2f54b596be83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 11/15] fix: build rotation matrices directly
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Rotation3::from_matrix searches the rotation iteratively. It returns a wrong
rotation if the angle is 180° (e.g. a launch at latitude 0, longitude 180 and
azimuth 180, or a roll of 180°), and does not end if an angle is NaN. The
matrices are rotations by construction, so no search is needed.
---
 sim/src/transformations.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sim/src/transformations.rs b/sim/src/transformations.rs
index a0c438d..8cff43d 100644
--- a/sim/src/transformations.rs
+++ b/sim/src/transformations.rs
@@ -11,7 +11,7 @@ use nalgebra::{matrix, Rotation3};
 ///
 /// Uses the geocentric latitude, longitude and azimuth in rad.
 pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
                                        lat.cos()*long.cos(),                                lat.cos()*long.sin(),           lat.sin();
         lat.sin()*long.cos()*az.sin() - az.cos()*long.sin(), az.cos()*long.cos() + az.sin()*lat.sin()*long.sin(), -az.sin()*lat.cos();
        -az.sin()*long.sin() - az.cos()*lat.sin()*long.cos(), az.sin()*long.cos() - az.cos()*lat.sin()*long.sin(),  az.cos()*lat.cos()
@@ -22,7 +22,7 @@ pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {
 ///
 /// Uses the roll, yaw and pitch angles in rad.
 pub fn launch_to_body(roll: f64, yaw: f64, pitch: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
         yaw.cos()*pitch.cos(), roll.cos()*yaw.sin()*pitch.cos() + roll.sin()*pitch.sin(), roll.sin()*yaw.sin()*pitch.cos() - roll.cos()*pitch.sin();
                    -yaw.sin(),                                      roll.cos()*yaw.cos(),                                      roll.sin()*yaw.cos();
         yaw.cos()*pitch.sin(), roll.cos()*yaw.sin()*pitch.sin() - roll.sin()*pitch.cos(), roll.sin()*yaw.sin()*pitch.sin() + roll.cos()*pitch.cos()
@@ -46,7 +46,7 @@ pub fn inertial_to_body(launch: [f64; 3], euler_angles: [f64; 3]) -> Rotation3<f
 /// Uses the current simulation time in sec and the planet's rotation rate in
 /// rad/sec.
 pub fn inertial_to_planet(time: f64, rotation_rate: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
         (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;
        -(rotation_rate*time).sin(), (rotation_rate*time).cos(), 0.;
                                 0.,                         0., 1.
-- 
2.43.0


From 238b1354205929750933daa39937442917805230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 12/15] fix: base altitude of the 1962 atmosphere layer at
 386,406 ft

It read 396,406 ft, which makes the temperature jump by 32 K and the pressure by
24 % at the boundary. With 386,406.39 ft (120 km geometric altitude) the layers
below and above meet.
---
 sim/src/atmosphere/standard_atmosphere_1962.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/atmosphere/standard_atmosphere_1962.rs b/sim/src/atmosphere/standard_atmosphere_1962.rs
index f772d72..4e53e48 100644
--- a/sim/src/atmosphere/standard_atmosphere_1962.rs
+++ b/sim/src/atmosphere/standard_atmosphere_1962.rs
@@ -143,7 +143,7 @@ const STD_ATMOS_TABLE: [(f64, f64, f64, f64); 22] = [
         0.56867005e-2 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
     (
-        396_406.39 * METER_PER_FOOT,
+        386_406.39 * METER_PER_FOOT,
         0.52676024e-4 * PASCAL_PER_PSF,
         649.17 * KELVIN_PER_RANKIN,
         0.11443751e-1 * KELVIN_PER_RANKIN / METER_PER_FOOT,
-- 
2.43.0


From a1e27136d097162377067a9d5925a80976eed83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 13/15] fix: base pressure of the 1962 atmosphere layer at
 480,781 ft

It read 0.10566108e-4 psf, 0.2 % below the pressure which the layer below
reaches there. With 0.10586108e-4 psf both layers next to it meet.
---
 sim/src/atmosphere/standard_atmosphere_1962.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/atmosphere/standard_atmosphere_1962.rs b/sim/src/atmosphere/standard_atmosphere_1962.rs
index 4e53e48..6ab0719 100644
--- a/sim/src/atmosphere/standard_atmosphere_1962.rs
+++ b/sim/src/atmosphere/standard_atmosphere_1962.rs
@@ -150,7 +150,7 @@ const STD_ATMOS_TABLE: [(f64, f64, f64, f64); 22] = [
     ),
     (
         480_781.04 * METER_PER_FOOT,
-        0.10566108e-4 * PASCAL_PER_PSF,
+        0.10586108e-4 * PASCAL_PER_PSF,
         1_729.17 * KELVIN_PER_RANKIN,
         0.86358208e-2 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
-- 
2.43.0


From 81ee3158a581da241fb496148c5085400ccba801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 14/15] fix: abort when the step size gets too small to advance
 the time

---
 sim/src/phase.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 12f9dd0..d1c69fc 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -188,6 +188,11 @@ impl Phase {
             self.stepsize = self.time_to_go(&self.state, &state);
             self.end_criterion_tries += 1;
         } else {
+            if state.time <= self.state.time {
+                // The stepsize got too small to advance the time, this would go on forever.
+                panic!("Could not find zero crossing of event")
+            }
+
             // Normal step, still more steps to go.
             self.state = state;
         }
-- 
2.43.0


From 7633c41987fae61b5c0db903d557357dd4ba730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:47 +0000
Subject: [PATCH 15/15] fix: go on with the configured step size if an overshot
 target is not passed again

Where the variable of the end criterion jumps, rounding can make the crossing
vanish when the step is repeated. The phase then went on with steps of a few
1e-16 s, practically forever.
---
 sim/src/phase.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index d1c69fc..39f996a 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -47,6 +47,8 @@ pub struct Phase {
     end_criterion: (StateVariable, f64),
     /// The number of tries to hit the target value.
     end_criterion_tries: usize,
+    /// The time at the end of the last discarded time step.
+    overshot_time: f64,
     /// Whether the current phase has ended.
     pub ended: bool,
 }
@@ -187,12 +189,18 @@ impl Phase {
 
             self.stepsize = self.time_to_go(&self.state, &state);
             self.end_criterion_tries += 1;
+            self.overshot_time = state.time;
         } else {
             if state.time <= self.state.time {
                 // The stepsize got too small to advance the time, this would go on forever.
                 panic!("Could not find zero crossing of event")
             }
 
+            if state.time > self.overshot_time {
+                // The target was not passed again (e.g. its variable jumps), search on.
+                self.stepsize = self.base_stepsize;
+            }
+
             // Normal step, still more steps to go.
             self.state = state;
         }
@@ -248,6 +256,7 @@ impl Default for Phase {
             base_stepsize: 1.,
             end_criterion: (StateVariable::TimeSinceEvent, 0.),
             end_criterion_tries: 0,
+            overshot_time: f64::NEG_INFINITY,
             ended: false,
         }
     }
@@ -321,6 +330,7 @@ impl Phase {
         self.steering.init(self.state.euler_angles);
         self.ended = false;
         self.end_criterion_tries = 0;
+        self.overshot_time = f64::NEG_INFINITY;
         self
     }
 
-- 
2.43.0

