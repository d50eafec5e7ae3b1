From 01344122b87de836ca2b2e75c05d8ad2e16cb8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:35 +0000
Subject: [PATCH 01/24] fix: give BalloonState and the VAE modules default
 factories so the simulator imports on Python 3.11+

---
 .../env/balloon/balloon.py                    | 30 ++++++++++++-------
 .../generative/vae.py                         |  4 +--
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 28d8fbe..5192aca 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -164,16 +164,22 @@ class BalloonState(object):
   # 78.5kg for the payload plus 14kg of ballast.
   payload_mass: float = 92.5  # [kg]
 
-  nighttime_power_load: units.Power = units.Power(watts=183.7)
-  daytime_power_load: units.Power = units.Power(watts=120.4)
+  nighttime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=183.7))
+  daytime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=120.4))
 
-  acs_valve_hole_diameter: units.Distance = units.Distance(m=0.04)
+  acs_valve_hole_diameter: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0.04))
 
-  battery_capacity: units.Energy = units.Energy(watt_hours=3058.56)
+  battery_capacity: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=3058.56))
 
   # State of the system.
-  x: units.Distance = units.Distance(m=0)
-  y: units.Distance = units.Distance(m=0)
+  x: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
+  y: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
 
   pressure: float = 6000.0  # [Pa]
 
@@ -186,13 +192,17 @@ class BalloonState(object):
   envelope_volume: float = 1804.0  # [kg/s]
   superpressure: float = 0  # [Pa]
 
-  acs_power: units.Power = units.Power(watts=0)
+  acs_power: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   acs_mass_flow: float = 0  # [kg/s]
 
-  solar_charging: units.Power = units.Power(watts=0)
-  power_load: units.Power = units.Power(watts=0)
+  solar_charging: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
+  power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   # battery_charge initialized to 95% capacity.
-  battery_charge: units.Energy = units.Energy(watt_hours=2905.6)
+  battery_charge: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=2905.6))
 
   last_command: control.AltitudeControlCommand = (
       control.AltitudeControlCommand.STAY)
diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index b7f6545..6d08c3b 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -135,7 +135,7 @@ class Decoder(nn.Module):
   """A decoder network for a variational autoencoder."""
   num_hidden_layers: int = 3
   hidden_layer_network_width: int = 1000
-  field_shape: FieldShape = FieldShape()
+  field_shape: FieldShape = dataclasses.field(default_factory=FieldShape)
 
   @nn.compact
   def __call__(self, z: jnp.ndarray) -> jnp.ndarray:
@@ -191,7 +191,7 @@ class WindFieldVAE(nn.Module):
   """Class that learns a VAE to generate wind fields."""
   num_latents: int = 64
   reparameterize_latents: bool = True
-  field_shape: FieldShape = FieldShape()
+  field_shape: FieldShape = dataclasses.field(default_factory=FieldShape)
 
   def setup(self):
     self.encoder = Encoder(self.num_latents)
-- 
2.43.0


From 38eadb6e6106537d7a6622dff9a1920f290399ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:20 +0000
Subject: [PATCH 02/24] fix: solar_calculator rejects invalid latitudes
 (is_valid was never called)

---
 balloon_learning_environment/env/balloon/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 0350e02..6e4bec9 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -57,7 +57,7 @@ def solar_calculator(latlng: s2.LatLng,
     flux: Solar flux in W/m^2.
   """
   # Check if latitude is within expected range.
-  if not latlng.is_valid:
+  if not latlng.is_valid():
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
-- 
2.43.0


From 0aee9d83f075fd1d6bb0f42882953b1fa10bd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:20 +0000
Subject: [PATCH 03/24] fix: NamedPerciatelliFeatures.wind_at rejects
 out-of-range levels

---
 balloon_learning_environment/env/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index aabe1aa..1b05f48 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -231,7 +231,7 @@ class NamedPerciatelliFeatures:
     Args:
       level: the query pressure level.
     """
-    if 0 > level >= self.num_pressure_levels:
+    if not 0 <= level < self.num_pressure_levels:
       raise ValueError(f'Invalid wind level: {level}')
 
     wind = self._winds[level * 3:level * 3 + 3]
-- 
2.43.0


From 1573c6c2adf08fa53ae2fc063c5db83ef36802b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:20 +0000
Subject: [PATCH 04/24] fix: undo_squash_to_unit_interval rejects values
 outside [0, 1)

---
 balloon_learning_environment/utils/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/transforms.py b/balloon_learning_environment/utils/transforms.py
index c92f7be..2cd83fc 100644
--- a/balloon_learning_environment/utils/transforms.py
+++ b/balloon_learning_environment/utils/transforms.py
@@ -89,6 +89,6 @@ def undo_squash_to_unit_interval(x: float, constant: float) -> float:
   """Computes the input value of squash_to_unit_interval given the output."""
   if constant <= 0:
     raise ValueError('Squash constant must be greater than zero.')
-  if 0 > x >= 1:
+  if not 0 <= x < 1:
     raise ValueError('Undo squash can only be performed on a value in [0, 1).')
   return (x * constant) / (1 - x)
-- 
2.43.0


From 60829fd9b62876b7afd4e4301bec5b56e8a1fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:20 +0000
Subject: [PATCH 05/24] fix: NamedPerciatelliFeatures reads
 navigation_paused/enabled from the right features

---
 balloon_learning_environment/env/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index 1b05f48..b274018 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -214,8 +214,8 @@ class NamedPerciatelliFeatures:
     elif last_command_idx == 2:
       self.last_command = control.AltitudeControlCommand.DOWN
 
-    self.navigation_enabled = ambient_features[11]
-    self.navigation_paused = ambient_features[12]
+    self.navigation_paused = ambient_features[11]
+    self.navigation_enabled = ambient_features[12]
 
     self.has_excess_energy = ambient_features[13]
     self.descent_cost = ambient_features[14]
-- 
2.43.0


From e5bc4670d1f0a376b3594400114c8c92764000c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:20 +0000
Subject: [PATCH 06/24] fix: Energy.__ge__ raises instead of returning a
 ValueError

---
 balloon_learning_environment/utils/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/units.py b/balloon_learning_environment/utils/units.py
index d923a96..7858d5e 100644
--- a/balloon_learning_environment/utils/units.py
+++ b/balloon_learning_environment/utils/units.py
@@ -249,7 +249,7 @@ class Energy(object):
     if isinstance(other, Energy):
       return self.watt_hours >= other.watt_hours
     else:
-      return ValueError(f'Cannot compare Energy and {type(other)}')
+      raise ValueError(f'Cannot compare Energy and {type(other)}')
 
 
 class Power(object):
-- 
2.43.0


From 8a3e5254e30578e42d982c0bd50dccee3c5caca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:20 +0000
Subject: [PATCH 07/24] fix: load_perciatelli44 raises the documented
 RuntimeError when nothing is found

---
 balloon_learning_environment/models/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/models/models.py b/balloon_learning_environment/models/models.py
index b33aecf..3dede13 100644
--- a/balloon_learning_environment/models/models.py
+++ b/balloon_learning_environment/models/models.py
@@ -122,7 +122,7 @@ def load_perciatelli44(path: Optional[str] = None) -> bytes:
   try:
     with tf.io.gfile.GFile(_PERCIATELLI44_RELATIVE_PATH, 'rb') as f:
       return f.read()
-  except FileNotFoundError:
+  except tf.errors.NotFoundError:
     pass
 
   raise RuntimeError(
-- 
2.43.0


From 5983517db09ad91482c06e1fb174065887585993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:00 +0000
Subject: [PATCH 08/24] fix: solar_calculator gives the same sun for the same
 instant in any timezone

---
 balloon_learning_environment/env/balloon/solar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 6e4bec9..b86c149 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -61,6 +61,8 @@ def solar_calculator(latlng: s2.LatLng,
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
+  # The calendar day below must be the UTC day, like fraction_of_day.
+  time = time.astimezone(dt.timezone.utc)
 
   # Compute fraction_of_day from time.
   fraction_of_day = (
-- 
2.43.0


From b29f243acb4b56a8d4eb488737aa1f14771e5c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:00 +0000
Subject: [PATCH 09/24] fix: MatplotlibRenderer renders frames with matplotlib
 >= 3.10

---
 .../env/rendering/matplotlib_renderer.py                    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/rendering/matplotlib_renderer.py b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
index 4107140..be4304f 100644
--- a/balloon_learning_environment/env/rendering/matplotlib_renderer.py
+++ b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
@@ -108,10 +108,8 @@ class MatplotlibRenderer(renderer.Renderer):
       plt.pause(0.001)  # Renders the image and runs the GUI loop.
     elif mode == 'rgb_array' or mode == 'tensorboard':
       self._fig.canvas.draw()
-      rgb_string = self._fig.canvas.tostring_rgb()
-      width, height = self._fig.canvas.get_width_height()
-      frame = np.frombuffer(
-          rgb_string, dtype=np.uint8).reshape(height, width, -1)
+      # Note: tostring_rgb was removed in matplotlib 3.10.
+      frame = np.asarray(self._fig.canvas.buffer_rgba())[..., :3].copy()
       if mode == 'rgb_array':
         return frame
 
-- 
2.43.0


From c9c7d43b90aa2f817a319efa1db1f45eaceebf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:00 +0000
Subject: [PATCH 10/24] fix: combine_eval_shards only merges the requested
 model's shards

---
 balloon_learning_environment/eval/combine_eval_shards.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/balloon_learning_environment/eval/combine_eval_shards.py b/balloon_learning_environment/eval/combine_eval_shards.py
index 5abc5e0..acab012 100644
--- a/balloon_learning_environment/eval/combine_eval_shards.py
+++ b/balloon_learning_environment/eval/combine_eval_shards.py
@@ -20,6 +20,7 @@ r"""Combines sharded eval results into a single json file.
 import glob
 import json
 import os
+import re
 from typing import Sequence
 
 from absl import app
@@ -46,6 +47,11 @@ def main(argv: Sequence[str]) -> None:
     data = list()
 
     for path in glob.glob(os.path.join(FLAGS.path, f'{model}_*.json')):
+      # The glob also matches other models, e.g. random_walk_0 for random.
+      if not re.fullmatch(re.escape(model) + r'_\d+\.json',
+                          os.path.basename(path)):
+        continue
+
       with open(path, 'r') as f:
         data.extend(json.load(f))
 
-- 
2.43.0


From 56e11be88ef64715f1f493c62b765849c6037c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:12 +0000
Subject: [PATCH 11/24] fix: WindGP falls back to the prior when every
 observation is stale

---
 balloon_learning_environment/env/wind_gp.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/wind_gp.py b/balloon_learning_environment/env/wind_gp.py
index a19fbfc..f1df2ca 100644
--- a/balloon_learning_environment/env/wind_gp.py
+++ b/balloon_learning_environment/env/wind_gp.py
@@ -183,11 +183,17 @@ class WindGP(object):
 
         inputs = inputs[fresh_observations]
         targets = targets[fresh_observations]
-      self.model.fit(inputs, targets)
 
-      # Output should be a N x 2 set of predictions about local measurements,
-      # and a N-sized vector of standard deviations.
-      means, deviations = self.model.predict(locations, return_std=True)
+      if inputs.shape[0] == 0:
+        # All the observations are stale, so only the prior is left.
+        means = np.zeros((locations.shape[0], 2))
+        deviations = np.full(locations.shape[0], np.sqrt(_SIGMA_EXP_SQUARED))
+      else:
+        self.model.fit(inputs, targets)
+
+        # Output should be a N x 2 set of predictions about local measurements,
+        # and a N-sized vector of standard deviations.
+        means, deviations = self.model.predict(locations, return_std=True)
 
       # Deviations are std.dev., convert to variance and normalize.
       # TODO(bellemare): Ask what the actual lower bound is supposed to
-- 
2.43.0


From 940ac740cd17d0732aca468e0dc4036b63f9f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:55 +0000
Subject: [PATCH 12/24] fix: checkpoint discovery ignores stray files and
 handles iterations >= 100000

---
 balloon_learning_environment/agents/dopamine_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index 24e3c65..bca191f 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -38,7 +38,8 @@ def _is_checkpoint_name(file_name: str) -> bool:
   if len(parts) != 2:
     return False
 
-  return parts[0] == 'checkpoint' and len(parts[1]) == 5
+  return (parts[0] == 'checkpoint' and len(parts[1]) >= 5
+          and parts[1].isdecimal())
 
 
 def _get_checkpoint_iteration(checkpoint_name: str) -> int:
@@ -98,7 +99,8 @@ def get_latest_checkpoint(checkpoint_dir: str) -> int:
     return -1
 
   try:
-    latest_episode = max(extract_episode(x) for x in checkpoint_files)
+    latest_episode = max(extract_episode(x) for x in checkpoint_files
+                         if _is_checkpoint_name(x))
   except ValueError:
     return -1
   return latest_episode
-- 
2.43.0


From 9cc57e44f36aca6cfaf82479f9938b08022a41c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:31 +0000
Subject: [PATCH 13/24] fix: solar_calculator returns a finite elevation when
 the sun is exactly overhead

---
 balloon_learning_environment/env/balloon/solar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index b86c149..7d41ad9 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -134,10 +134,13 @@ def solar_calculator(latlng: s2.LatLng,
   declination_sun = np.arcsin(
       np.sin(obliquity_correction) * np.sin(apparent_long_sun))
 
-  zenith_angle = np.arccos(
+  # Make sure cos_zenith is in the range [-1, 1]: rounding can push it just
+  # outside when the sun is exactly overhead (or underfoot).
+  cos_zenith = (
       np.sin(latlng.lat().radians) * np.sin(declination_sun) +
       np.cos(latlng.lat().radians) * np.cos(declination_sun) *
       np.cos(hour_angle))
+  zenith_angle = np.arccos(np.clip(cos_zenith, -1.0, 1.0))
 
   # Compute solar elevation. Correct for atmospheric refraction.
   el_uncorrected_deg = 90.0 - math.degrees(zenith_angle)
-- 
2.43.0


From 1258ee323b224a56493e079700c5efda1cdc514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:05 +0000
Subject: [PATCH 14/24] fix: find sunrise and sunset by slope, not by assuming
 a symmetric elevation curve

---
 balloon_learning_environment/env/balloon/solar.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 7d41ad9..2f85a76 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -361,12 +361,13 @@ def _find_solar_elevation_binary_search(
 
   # Binary search the function for its minimum.
   while high > low + 1:
-    midpoint = low + (high - low) / 2
-    if objective[low] < objective[high]:
-      # This trick works when the function is symmetric around its minimum.
-      high = math.ceil(midpoint)  # Ceil/floor is a bit more conservative.
+    midpoint = low + (high - low) // 2
+    # The local slope tells which side of the minimum we are on. Comparing the
+    # ends of the interval would not: |elevation - target| is not symmetric.
+    if objective[midpoint - 1] < objective[midpoint]:
+      high = midpoint
     else:
-      low = math.floor(midpoint)
+      low = midpoint
 
   # If all went well, the minimum is either high or low.
   if objective[low] < objective[high]:
-- 
2.43.0


From 2f7593cd52bf8cc23551d5b1359c5f879a676f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:04 +0000
Subject: [PATCH 15/24] fix: calculate_latlng_from_offset reaches the poles
 without a math domain error

---
 balloon_learning_environment/utils/spherical_geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/utils/spherical_geometry.py b/balloon_learning_environment/utils/spherical_geometry.py
index 4b5c9a5..3e7190a 100644
--- a/balloon_learning_environment/utils/spherical_geometry.py
+++ b/balloon_learning_environment/utils/spherical_geometry.py
@@ -69,8 +69,8 @@ def calculate_latlng_from_offset(center_latlng: s2.LatLng,
   d_lng = math.atan2(sin_angle * cos_from_lat * math.sin(heading),
                      cos_angle - sin_from_lat * sin_lat)
 
-  new_lat = math.asin(sin_lat)
-  new_lat = min(max(new_lat, -math.pi / 2.0), math.pi / 2.0)
+  # Rounding may push sin_lat just outside [-1, 1] when the result is a pole.
+  new_lat = math.asin(min(max(sin_lat, -1.0), 1.0))
   new_lng = center_latlng.lng().radians + d_lng
 
   return s2.LatLng.from_radians(new_lat, new_lng).normalized()
-- 
2.43.0


From c3ab2aff6ddf622950b70955d57d450b423bfec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:27 +0000
Subject: [PATCH 16/24] fix: find checkpoints in directories whose names
 contain glob characters

---
 balloon_learning_environment/agents/dopamine_utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index bca191f..fb15843 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -88,18 +88,15 @@ def load_checkpoint(
 
 def get_latest_checkpoint(checkpoint_dir: str) -> int:
   """Find the episode ID of the latest checkpoint, if any."""
-  glob = osp.join(checkpoint_dir, 'checkpoint_*.pkl')
-  def extract_episode(x):
-    return int(x[x.rfind('checkpoint_') + 11:-4])
-
+  # Note: globbing would not find directories whose names contain brackets.
   try:
-    checkpoint_files = tf.io.gfile.glob(glob)
+    checkpoint_files = tf.io.gfile.listdir(checkpoint_dir)
   except tf.errors.NotFoundError:
     logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
     return -1
 
   try:
-    latest_episode = max(extract_episode(x) for x in checkpoint_files
+    latest_episode = max(_get_checkpoint_iteration(x) for x in checkpoint_files
                          if _is_checkpoint_name(x))
   except ValueError:
     return -1
-- 
2.43.0


From 1685ae81e654b31571f3bd68cc5b5595eb6719b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 17/24] fix: hand the last reward of an episode without
 terminal to the agent once

---
 balloon_learning_environment/train_lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/train_lib.py b/balloon_learning_environment/train_lib.py
index 768b3c0..474a15f 100644
--- a/balloon_learning_environment/train_lib.py
+++ b/balloon_learning_environment/train_lib.py
@@ -67,8 +67,10 @@ def _run_one_episode(env: balloon_env.BalloonEnv,
       final_episode_step = i + 1
       break
 
-    # Pass observation to agent, request new action.
-    a = agent.step(r, obs)
+    # Pass observation to agent, request new action. There is no further action
+    # to take in the last step; end_episode passes on its reward.
+    if i + 1 < max_episode_length:
+      a = agent.step(r, obs)
 
   # The environment has no timeout, so terminal really is a terminal state.
   agent.end_episode(r, terminal)
-- 
2.43.0


From 7c38e09d8bd0a141f5e6be077385fa2d0b2392cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:39 +0000
Subject: [PATCH 18/24] fix: keep the console log of earlier episodes when
 training resumes

---
 balloon_learning_environment/metrics/console_collector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/metrics/console_collector.py b/balloon_learning_environment/metrics/console_collector.py
index e991604..a1f123a 100644
--- a/balloon_learning_environment/metrics/console_collector.py
+++ b/balloon_learning_environment/metrics/console_collector.py
@@ -52,7 +52,9 @@ class ConsoleCollector(collector.Collector):
 
   def pre_training(self) -> None:
     if self._log_file is not None:
-      self._log_file_writer = tf.io.gfile.GFile(self._log_file, 'w')
+      # Keep the log of the earlier episodes when resuming from a checkpoint.
+      mode = 'a' if self.current_episode > 0 else 'w'
+      self._log_file_writer = tf.io.gfile.GFile(self._log_file, mode)
 
   def begin_episode(self) -> None:
     self._action_counts = np.zeros(self._num_actions)
-- 
2.43.0


From 9048c88726c35abae61474be34b3fc67e64484a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:01 +0000
Subject: [PATCH 19/24] fix: combine shards of models and paths whose names
 contain glob characters

---
 balloon_learning_environment/eval/combine_eval_shards.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/eval/combine_eval_shards.py b/balloon_learning_environment/eval/combine_eval_shards.py
index acab012..5ffc8db 100644
--- a/balloon_learning_environment/eval/combine_eval_shards.py
+++ b/balloon_learning_environment/eval/combine_eval_shards.py
@@ -46,7 +46,9 @@ def main(argv: Sequence[str]) -> None:
   for model in FLAGS.models:
     data = list()
 
-    for path in glob.glob(os.path.join(FLAGS.path, f'{model}_*.json')):
+    pattern = os.path.join(glob.escape(FLAGS.path),
+                           f'{glob.escape(model)}_*.json')
+    for path in glob.glob(pattern):
       # The glob also matches other models, e.g. random_walk_0 for random.
       if not re.fullmatch(re.escape(model) + r'_\d+\.json',
                           os.path.basename(path)):
-- 
2.43.0


From 74fd5d75985fad0ab14780b3da83ea1d5e4cdd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 20/24] fix: give each Perciatelli44 session its own graph

Sessions shared the default graph, so an agent loaded from another file later
in the same process silently used the network of the first one.
---
 balloon_learning_environment/agents/perciatelli44.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/balloon_learning_environment/agents/perciatelli44.py b/balloon_learning_environment/agents/perciatelli44.py
index a4654e0..b77f1eb 100644
--- a/balloon_learning_environment/agents/perciatelli44.py
+++ b/balloon_learning_environment/agents/perciatelli44.py
@@ -26,12 +26,15 @@ import tensorflow as tf
 def load_perciatelli_session() -> tf.compat.v1.Session:
   serialized_perciatelli = models.load_perciatelli44()
 
-  sess = tf.compat.v1.Session()
   graph_def = tf.compat.v1.GraphDef()
   graph_def.ParseFromString(serialized_perciatelli)
 
-  tf.compat.v1.import_graph_def(graph_def)
-  return sess
+  # Each session gets its own graph: in a shared graph the names of a second
+  # import would refer to the first one.
+  graph = tf.Graph()
+  with graph.as_default():
+    tf.compat.v1.import_graph_def(graph_def, name='')
+  return tf.compat.v1.Session(graph=graph)
 
 
 class Perciatelli44(agent.Agent):
-- 
2.43.0


From 9a69edeb38855527e4a0c2212b61dd8f61253063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:08 +0000
Subject: [PATCH 21/24] fix: let the finetune_perciatelli agent train

The loaded weights were a FrozenDict while the optimizer state mirrors the
network's own parameters, a plain dict in current flax versions, so the first
update raised a ValueError.
---
 balloon_learning_environment/agents/quantile_agent.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/agents/quantile_agent.py b/balloon_learning_environment/agents/quantile_agent.py
index 79e31a0..6f77950 100644
--- a/balloon_learning_environment/agents/quantile_agent.py
+++ b/balloon_learning_environment/agents/quantile_agent.py
@@ -84,7 +84,11 @@ class QuantileAgent(agent.Agent, quantile_agent.JaxQuantileAgent):
     self._exploration_wrapper = exploration_wrapper_constructor(
         num_actions, observation_shape)
     if reload_perciatelli:
-      self.online_params = self.load_perciatelli_weights()
+      # Keep the container type of the initial parameters (a dict or FrozenDict,
+      # depending on the flax version): the optimizer state has the same one.
+      self.online_params = flax.serialization.from_state_dict(
+          self.online_params,
+          flax.core.unfreeze(self.load_perciatelli_weights()))
       self.target_network_params = self.online_params
       logging.info('Successfully loaded Perciatelli44 parameters.')
 
-- 
2.43.0


From 6b0d31a6354cbb473db9441d0ff1435a00918e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:57 +0000
Subject: [PATCH 22/24] fix: let train.py be run again after its last iteration

A run that had nothing left to do ended with gym's ResetNeeded error, because
the final picture was rendered before any reset.
---
 balloon_learning_environment/train.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/train.py b/balloon_learning_environment/train.py
index 9dc86ff..f3ea70c 100644
--- a/balloon_learning_environment/train.py
+++ b/balloon_learning_environment/train.py
@@ -104,7 +104,9 @@ def main(_) -> None:
 
   if FLAGS.base_dir is not None:
     image_save_path = osp.join(FLAGS.base_dir, 'balloon_path.png')
-    img = env.render(mode='rgb_array')
+    # Unwrapped, because gym's order enforcing wrapper refuses to render when a
+    # run that was already finished flew no further episode.
+    img = env.unwrapped.render(mode='rgb_array')
     if isinstance(img, np.ndarray):
       matplotlib.image.imsave(image_save_path, img)
 
-- 
2.43.0


From 19a792453c1b33ef19737dd732cd2ed3696674d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 23/24] fix: a refused simulation step leaves the balloon's
 state untouched

---
 .../env/balloon/balloon.py                       | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 5192aca..2001f89 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -293,12 +293,18 @@ class Balloon:
       stride: The step size for the simulation of the balloon physics.
     """
 
-    self.state.last_command = action
-
     assert self.state.status == BalloonStatus.OK, (
         'Stepping balloon after a terminal event occured. '
         f'({self.state.status.name})')
 
+    outer_stride = int(time_delta.total_seconds())
+    inner_stride = int(stride.total_seconds())
+    assert outer_stride % inner_stride == 0, (
+        f'The outer simulation stride (time_delta={time_delta}) must be a '
+        f'multiple of the inner simulation stride (stride={stride})')
+
+    self.state.last_command = action
+
     # The safety layers may prevent some actions from taking effect in
     # certain situations. While the correct interpretation
     # is, e.g., that even when a down action is commanded the altitude control
@@ -322,12 +328,6 @@ class Balloon:
     effective_action = self.state.altitude_safety_layer.get_action(
         effective_action, atmosphere, self.state.pressure)
 
-    outer_stride = int(time_delta.total_seconds())
-    inner_stride = int(stride.total_seconds())
-    assert outer_stride % inner_stride == 0, (
-        f'The outer simulation stride (time_delta={time_delta}) must be a '
-        f'multiple of the inner simulation stride (stride={stride})')
-
     for _ in range(outer_stride // inner_stride):
       state_changes = _simulate_step_internal(
           self.state, wind_vector, atmosphere, effective_action, stride)
-- 
2.43.0


From 50b2b22539be8fb86c8a4eab96c718bfbde7b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 24/24] fix: steps of any whole number of strides, fractions of
 a second included, run in full

---
 balloon_learning_environment/env/balloon/balloon.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 2001f89..c3f1fe7 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -297,9 +297,7 @@ class Balloon:
         'Stepping balloon after a terminal event occured. '
         f'({self.state.status.name})')
 
-    outer_stride = int(time_delta.total_seconds())
-    inner_stride = int(stride.total_seconds())
-    assert outer_stride % inner_stride == 0, (
+    assert time_delta % stride == dt.timedelta(), (
         f'The outer simulation stride (time_delta={time_delta}) must be a '
         f'multiple of the inner simulation stride (stride={stride})')
 
@@ -328,7 +326,7 @@ class Balloon:
     effective_action = self.state.altitude_safety_layer.get_action(
         effective_action, atmosphere, self.state.pressure)
 
-    for _ in range(outer_stride // inner_stride):
+    for _ in range(time_delta // stride):
       state_changes = _simulate_step_internal(
           self.state, wind_vector, atmosphere, effective_action, stride)
       for k, v in state_changes.items():
-- 
2.43.0

