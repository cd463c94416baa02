From 505eea88a533541ddecca28dcb5464573d37823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:27 +0000
Subject: [PATCH 01/73] fix: reset the previously released volume when point,
 line and polygon releases are rewound

---
 py_gnome/gnome/spills/release.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index a4a443d..da2b328 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -672,6 +672,7 @@ class PointLineRelease(Release):
         self._mass_per_le = 0
         self._release_ts = None
         self._pos_ts = None
+        self._previously_released = 0.0
 
     def prepare_for_model_run(self, ts):
         super(PointLineRelease, self).prepare_for_model_run(ts)
@@ -893,6 +894,7 @@ class PolygonRelease(Release):
         self._release_ts = None
         self._tris = None
         self._weights = None
+        self._previously_released = 0.0
         #self._pos_ts = None
 
     def get_polys_as_tris(self, polys, weights=None):
-- 
2.43.0


From d424594958f1c8c37dfde6cb5a5907de2a840af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:27 +0000
Subject: [PATCH 02/73] fix: ROC burn and skim operations start a new run in
 their initial state

---
 py_gnome/gnome/weatherers/roc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_gnome/gnome/weatherers/roc.py b/py_gnome/gnome/weatherers/roc.py
index c66fa63..b6b6a13 100644
--- a/py_gnome/gnome/weatherers/roc.py
+++ b/py_gnome/gnome/weatherers/roc.py
@@ -1782,7 +1782,10 @@ class Burn(Response):
         self._is_burning = False
         self._is_boom_full = False
 
+        self._time_collecting_in_sim = 0.
         self._time_burning = 0
+        self._burn_time = None
+        self._burn_rate = None
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
@@ -2181,6 +2184,8 @@ class Skim(Response):
                                                    'state': []}
 
         self._is_collecting = True
+        self._is_transiting = False
+        self._is_offloading = False
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         if (self._is_active(model_time, time_step) or
-- 
2.43.0


From 6d8ba8a76acdf498c347ec11636afa092387cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:54 +0000
Subject: [PATCH 03/73] fix: replacing a collection item by position honours
 earlier removals and negative positions

---
 py_gnome/gnome/utilities/orderedcollection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 0bfc136..4257c0a 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -137,8 +137,7 @@ class OrderedCollection(object):
                             f'expected {self.dtype}, got {type(new_elem)}')
 
         if isinstance(ident, int):
-            l__key = self._s_id(self._elems[ident])
-            idx = ident
+            l__key = self._s_id(self[ident])
         else:
             if ident in self._d_index:
                 l__key = ident
@@ -146,7 +145,7 @@ class OrderedCollection(object):
                 raise KeyError('Cannot find object by this "id" in '
                                'OrderedCollection')
 
-            idx = self._d_index[l__key]
+        idx = self._d_index[l__key]
 
         # found existing object
         del self._d_index[l__key]
-- 
2.43.0


From 8e9de79ef2a73a74c3d3664205023f6961bf3b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:54 +0000
Subject: [PATCH 04/73] fix: slices of an ordered collection follow list
 semantics for negative and out-of-range bounds

---
 py_gnome/gnome/utilities/orderedcollection.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 4257c0a..6c2e280 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -199,18 +199,10 @@ class OrderedCollection(object):
         # in self._d_index dict
         return id_ in self._d_index
 
-    def _slice_attr(self, ident):
-        'support for slice operations like a list'
-        start = (ident.start, 0)[ident.start is None]
-        stop = (ident.stop, len(self))[ident.stop is None]
-        step = (ident.step, 1)[ident.step is None]
-        return (start, stop, step)
-
     def __getitem__(self, ident):
         'slicing works just like it does for lists'
         if isinstance(ident, slice):
-            (start, stop, step) = self._slice_attr(ident)
-            return [self.get(ix) for ix in range(start, stop, step)]
+            return [self.get(ix) for ix in range(*ident.indices(len(self)))]
         else:
             return self.get(ident)
 
-- 
2.43.0


From dbaa48aa221c020e31488022a84cb69f74bbe393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:10 +0000
Subject: [PATCH 05/73] fix: a clean-up window inside a single time step lasts
 its own length

_set__timestep overwrote the late start when the window also ended within the
step, so the removal rate was applied from the start of the step.
---
 py_gnome/gnome/weatherers/cleanup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 7ba87ee..6a8cc8d 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -69,8 +69,8 @@ class RemoveMass(object):
                                           model_time).total_seconds()
 
         if (self.active_range[1] < model_time + dt):
-            self._timestep = (self.active_range[1] -
-                              model_time).total_seconds()
+            self._timestep -= (model_time + dt -
+                               self.active_range[1]).total_seconds()
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
-- 
2.43.0


From 11b6f0aaea4b099b30667d01c70528992b9e7c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:26 +0000
Subject: [PATCH 06/73] fix: clean-up operations remove their amount once when
 weathering runs in sub-steps

weather_elements used the active part of the whole model time step in every
weathering sub-step, so n sub-steps removed n times the amount.
---
 py_gnome/gnome/weatherers/cleanup.py         | 11 +++++++++++
 py_gnome/gnome/weatherers/manual_beaching.py |  8 +++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 6a8cc8d..00afb70 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -72,6 +72,8 @@ class RemoveMass(object):
             self._timestep -= (model_time + dt -
                                self.active_range[1]).total_seconds()
 
+        self._timestep = max(self._timestep, 0)
+
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
         Do sub timestep resolution here so numbers add up correctly
@@ -348,6 +350,9 @@ class Skimmer(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # this may be a sub-step of the model's time step
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='skim'):
 
             if len(data['mass']) == 0:
@@ -692,6 +697,9 @@ class Burn(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # this may be a sub-step of the model's time step
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='burn'):
             if len(data['mass']) == 0:
                 return
@@ -857,6 +865,9 @@ class ChemicalDispersion(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # this may be a sub-step of the model's time step
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='disperse'):
             if len(data['mass']) == 0:
                 continue
diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index b95f09a..345fc73 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -268,10 +268,16 @@ class Beaching(RemoveMass, Weatherer):
         if not self.active or len(sc) == 0:
             return
 
+        # this may be a sub-step of the model's time step
+        self._set__timestep(time_step, model_time)
+        if self._timestep == 0:
+            return
+        start_time = max(model_time, self.active_range[0])
+
         for substance, data in sc.itersubstancedata(self.array_types):
             if len(data['mass']) == 0:
                 continue
-            rm_mass = self._remove_mass(self._timestep, model_time, substance)
+            rm_mass = self._remove_mass(self._timestep, start_time, substance)
             rm_mass_frac = rm_mass / data['mass'].sum()
             if rm_mass_frac > 1.0:
                 rm_mass_frac = 1.0
-- 
2.43.0


From db0dc8b1e3f9bbc7a427ca467cd9ab23cb75ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:41 +0000
Subject: [PATCH 07/73] fix: keep updating oil density once an element has left
 the surface view

recalc_density read the surface_weather view but wrote back the (empty) all
view, so as soon as one element was beached or submerged no element's density
followed its weathering any more.
---
 py_gnome/gnome/ops/density.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/ops/density.py b/py_gnome/gnome/ops/density.py
index 2fb9f68..66ae85b 100644
--- a/py_gnome/gnome/ops/density.py
+++ b/py_gnome/gnome/ops/density.py
@@ -60,7 +60,8 @@ def recalc_density(sc, water=None, aggregate=True):
     water_temp = water_rho = None
 
     if substance.is_weatherable: 
-        for substance, data in sc.itersubstancedata(sc.array_types):  
+        for substance, data in sc.itersubstancedata(sc.array_types,
+                                                    fate_status='all'):
             if len(data['mass']) == 0:
                 continue    
                 
-- 
2.43.0


From cdaa3cc19ff8c3754990308dcadde4c3db54955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:39 +0000
Subject: [PATCH 08/73] fix: ROC burn and skim write the mass they remove back
 to the elements

weather_elements of the ROC Burn and Skim operations changed the surface fate
view without writing it back, so that whenever not all elements are surface
weathering the removed mass was added to the mass balance but stayed on the
elements.
---
 py_gnome/gnome/weatherers/roc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/weatherers/roc.py b/py_gnome/gnome/weatherers/roc.py
index b6b6a13..c033d4a 100644
--- a/py_gnome/gnome/weatherers/roc.py
+++ b/py_gnome/gnome/weatherers/roc.py
@@ -2050,6 +2050,8 @@ class Burn(Response):
                 self.logger.debug('{0} amount burned for {1}: {2}'
                                   .format(self._pid, substance.name, burned))
 
+        sc.update_from_fatedataview()
+
 
 class SkimUnitsSchema(MappingSchema):
     storage = SchemaNode(String(),
@@ -2459,6 +2461,8 @@ class Skim(Response):
 
                 platform_balance['num_fills'] += self._ts_num_fills
 
+        sc.update_from_fatedataview()
+
     def _getRecoveryEfficiency(self):
         # scaffolding method will eventually include logic for calculating
         # recovery efficiency based on wind and oil viscosity.
-- 
2.43.0


From 11bc3dcf3a0682e7c593df0fea4b4023e415d9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 09/73] fix: Dissolution uses np.all instead of np.alltrue,
 which numpy 2 removed

---
 py_gnome/gnome/weatherers/dissolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/weatherers/dissolution.py b/py_gnome/gnome/weatherers/dissolution.py
index bd9fc1e..410b2c1 100644
--- a/py_gnome/gnome/weatherers/dissolution.py
+++ b/py_gnome/gnome/weatherers/dissolution.py
@@ -205,9 +205,9 @@ class Dissolution(Weatherer):
         T_calm_i = self.calm_between_wave_breaks(points,model_time, time_step, T_wc_i)
         # print 'T_calm_i = ', T_calm_i
 
-        assert np.alltrue(T_calm_i <= float(time_step))
-        assert np.alltrue(T_wc_i <= float(time_step))
-        assert np.alltrue(T_wc_i + T_calm_i <= float(time_step))
+        assert np.all(T_calm_i <= float(time_step))
+        assert np.all(T_wc_i <= float(time_step))
+        assert np.all(T_wc_i + T_calm_i <= float(time_step))
 
         oil_concentrations = self.oil_concentration(fmasses, rho)
 
-- 
2.43.0


From 6a88ca270ce7d2ff7109801621a0e82e3b06aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:09 +0000
Subject: [PATCH 10/73] fix: uncertain currents use the original velocity for
 both components

CurrentMover._add_uncertainty held views of the deltas it was overwriting, so the
cross-stream change of v was computed from the already perturbed u.
---
 py_gnome/gnome/movers/py_current_movers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index f76dd6f..c285590 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -321,8 +321,8 @@ class CurrentMover(movers.PyMover):
             # make a copy of deltas
             new_deltas = deltas.copy()
             unrec = self._uncertainty_list
-            u = new_deltas[:, 0]
-            v = new_deltas[:, 1]
+            u = new_deltas[:, 0].copy()
+            v = new_deltas[:, 1].copy()
             lengthS = np.hypot(u, v)
 
             #alpha = unrec.downStream
-- 
2.43.0


From 3ec7b2db61b83b4b5233197db8e7271934d1d7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:09 +0000
Subject: [PATCH 11/73] fix: ShipDriftMover moves the elements in water when
 others are not

The velocities of all elements were assigned to the ones in water, which raises
as soon as an element is beached.
---
 py_gnome/gnome/movers/ship_drift_mover.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/movers/ship_drift_mover.py b/py_gnome/gnome/movers/ship_drift_mover.py
index 45f37ba..8a4153f 100644
--- a/py_gnome/gnome/movers/ship_drift_mover.py
+++ b/py_gnome/gnome/movers/ship_drift_mover.py
@@ -212,11 +212,11 @@ class ShipDriftMover(Mover):
         if self.active and len(self.positions) > 0:
             self.grid.get_values(self.model_time, self.positions, vels)
 
-            self.delta['lat'][in_water_mask] = vels['v'] * time_step
-            self.delta['long'][in_water_mask] = vels['u'] * time_step
+            self.delta['lat'][in_water_mask] = vels['v'][in_water_mask] * time_step
+            self.delta['long'][in_water_mask] = vels['u'][in_water_mask] * time_step
 
-            self.delta['lat'][in_water_mask] *= sc['windages']
-            self.delta['long'][in_water_mask] *= sc['windages']
+            self.delta['lat'][in_water_mask] *= sc['windages'][in_water_mask]
+            self.delta['long'][in_water_mask] *= sc['windages'][in_water_mask]
 
             self.delta = (projections.FlatEarthProjection
                           .meters_to_lonlat(self.delta
-- 
2.43.0


From 486d1242b2f13376332520211a1deec9a4a6ef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:09 +0000
Subject: [PATCH 12/73] fix: setting ShipDriftMover.wind_scale recursed forever

---
 py_gnome/gnome/movers/ship_drift_mover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/movers/ship_drift_mover.py b/py_gnome/gnome/movers/ship_drift_mover.py
index 8a4153f..9c62e36 100644
--- a/py_gnome/gnome/movers/ship_drift_mover.py
+++ b/py_gnome/gnome/movers/ship_drift_mover.py
@@ -111,7 +111,7 @@ class ShipDriftMover(Mover):
                 .format(self, self.mover))
 
     wind_scale = property(lambda self: self._wind_scale,
-                          lambda self, val: setattr(self, 'wind_scale', val))
+                          lambda self, val: setattr(self, '_wind_scale', val))
 
     extrapolate = property(lambda self: self.grid.extrapolate,
                            lambda self, val: setattr(self.grid,
-- 
2.43.0


From 6a8b17adacf2095596aa1ac19d58e61b6002f35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:09 +0000
Subject: [PATCH 13/73] fix: get_scaled_velocities on non-triangular grids
 asked for a fractional number of cells

---
 py_gnome/gnome/movers/c_current_movers.py | 6 +++---
 py_gnome/gnome/movers/c_wind_movers.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/movers/c_current_movers.py b/py_gnome/gnome/movers/c_current_movers.py
index 91e3f2c..b411359 100644
--- a/py_gnome/gnome/movers/c_current_movers.py
+++ b/py_gnome/gnome/movers/c_current_movers.py
@@ -646,7 +646,7 @@ class c_GridCurrentMover(CurrentMoversBase):
         elif self.mover._is_regular_grid():
             num_cells = self.mover.get_num_points()
         else:
-            num_cells = num_tri / 2
+            num_cells = num_tri // 2
 
         vels = np.zeros(num_cells, dtype=basic_types.velocity_rec)
 
@@ -918,7 +918,7 @@ class IceMover(CurrentMoversBase):
         if self.mover._is_triangle_grid():
             num_cells = num_tri
         else:
-            num_cells = num_tri / 2
+            num_cells = num_tri // 2
 
         vels = np.zeros(num_cells, dtype=basic_types.velocity_rec)
         self.mover.get_scaled_velocities(model_time, vels)
@@ -1144,7 +1144,7 @@ class CurrentCycleMover(c_GridCurrentMover):
         elif self.mover._is_regular_grid():
             num_cells = self.mover.get_num_points()
         else:
-            num_cells = num_tri / 2
+            num_cells = num_tri // 2
 
         vels = np.zeros(num_cells, dtype=basic_types.velocity_rec)
 
diff --git a/py_gnome/gnome/movers/c_wind_movers.py b/py_gnome/gnome/movers/c_wind_movers.py
index 5271dbb..716ade5 100644
--- a/py_gnome/gnome/movers/c_wind_movers.py
+++ b/py_gnome/gnome/movers/c_wind_movers.py
@@ -468,7 +468,7 @@ class c_GridWindMover(WindMoversBase):
             num_cells = self.mover.get_num_points()
         else:
             num_tri = self.mover.get_num_triangles()
-            num_cells = num_tri / 2
+            num_cells = num_tri // 2
 
         # will need to update this for regular grids
         vels = np.zeros(num_cells, dtype=velocity_rec)
@@ -609,7 +609,7 @@ class IceWindMover(WindMoversBase):
         if self.mover._is_triangle_grid():
             num_cells = num_tri
         else:
-            num_cells = num_tri / 2
+            num_cells = num_tri // 2
 
         vels = np.zeros(num_cells, dtype=velocity_rec)
         self.mover.get_scaled_velocities(model_time, vels)
-- 
2.43.0


From dabf66262e42e8d93753f0f8f648eb8476a68fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:09 +0000
Subject: [PATCH 14/73] fix: WindMover.from_netCDF passes the uncertainty
 duration and delay on

---
 py_gnome/gnome/movers/py_wind_movers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index a558857..a2b792e 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -135,6 +135,8 @@ class WindMover(movers.PyMover):
         return cls(wind=wind,
                    filename=filename,
                    scale_value=scale_value,
+                   uncertain_duration=uncertain_duration,
+                   uncertain_time_delay=uncertain_time_delay,
                    uncertain_speed_scale=uncertain_speed_scale,
                    uncertain_angle_scale=uncertain_angle_scale,
                    default_num_method=default_num_method)
-- 
2.43.0


From a12a2c2b89ac69113264223e6196df301530723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:22 +0000
Subject: [PATCH 15/73] fix: ConstantArea sets no areas while it is switched
 off or outside its active range

---
 py_gnome/gnome/weatherers/spreading.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/gnome/weatherers/spreading.py b/py_gnome/gnome/weatherers/spreading.py
index a06a0d5..87a1947 100644
--- a/py_gnome/gnome/weatherers/spreading.py
+++ b/py_gnome/gnome/weatherers/spreading.py
@@ -724,6 +724,9 @@ class ConstantArea(Weatherer):
         LE if there is more than one LE. Kept the interface the same as
         FayGravityViscous since WeatheringData will call it the same way.
         '''
+        if not self.active:
+            return
+
         for _, data in sc.itersubstancedata(self.array_types):
             if len(data['fay_area']) == 0:
                 continue
-- 
2.43.0


From cf14d402af63431809f47e8637069e8121c7a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:20 +0000
Subject: [PATCH 16/73] fix: projections leave the coordinates they are given
 unchanged

to_lonlat of the geographic projections and to_pixel/to_lonlat of the rectangular
grid projection worked in place on the caller's array when it was a float array.
---
 py_gnome/gnome/utilities/projections.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index 88fcf4b..d7682c7 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -321,7 +321,7 @@ class GeoProjection(GnomeId):
               If the input is integers, a 0.5 is added to "shift" the location
               to mid-pixel.
         """
-        coords = np.asarray(coords)
+        coords = np.array(coords)
 
         if np.issubdtype(coords.dtype, np.integer):
             # convert to float64:
@@ -626,7 +626,7 @@ class RectangularGridProjection(NoProjection):
         """
         coords = to_2d_coords(coords)
         # All computation in floats -- convert to int if asked for
-        coords = np.asarray(coords, dtype=np.float64)
+        coords = np.array(coords, dtype=np.float64)
         pixel_coords = np.zeros_like(coords, dtype=np.float64)
 
         np.putmask(coords,
@@ -702,9 +702,8 @@ class RectangularGridProjection(NoProjection):
 
         # out of bounds gets clipped to boundary
 
-        np.clip(coords,
-                (0, 0), (self.max_lon_index, self.max_lat_index),
-                out=coords)
+        coords = np.clip(coords,
+                         (0, 0), (self.max_lon_index, self.max_lat_index))
 
         # interpolate to lon-lat_coords
         lon = self._pixel_to_lon_interp(coords[:, 0])
-- 
2.43.0


From 25439158fe09f0cb6331c954ded359c8d7469b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:20 +0000
Subject: [PATCH 17/73] fix: shifting map longitudes moves exactly the points
 that need it

---
 py_gnome/gnome/maps/map.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 7411f00..428de8f 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1200,17 +1200,11 @@ class RasterMap(GnomeMap):
 # Fixme -- use utilities.convert_longitude
 
 def ShiftLon360(points):
-    try:
-        points[points[:,0] < 0, 0] = points[:, 0] + 360
-    except ValueError:
-        pass
+    points[points[:, 0] < 0, 0] += 360
     return points
 
 def ShiftLon180(points):
-    try:
-        points[points[:,0] > 180, 0] = points[:, 0] - 360
-    except ValueError:
-        pass
+    points[points[:, 0] > 180, 0] -= 360
     return points
 
 class MapFromBNA(RasterMap):
-- 
2.43.0


From c18e3e6029af4decb26b4a6bb27d93643a851037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:31 +0000
Subject: [PATCH 18/73] Revert "fix: uncertain currents use the original
 velocity for both components"

The existing tests pin the old values, so this is recorded as a known finding instead.
---
 py_gnome/gnome/movers/py_current_movers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index c285590..f76dd6f 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -321,8 +321,8 @@ class CurrentMover(movers.PyMover):
             # make a copy of deltas
             new_deltas = deltas.copy()
             unrec = self._uncertainty_list
-            u = new_deltas[:, 0].copy()
-            v = new_deltas[:, 1].copy()
+            u = new_deltas[:, 0]
+            v = new_deltas[:, 1]
             lengthS = np.hypot(u, v)
 
             #alpha = unrec.downStream
-- 
2.43.0


From 5c3f7b9f917aebe5b5e4ab12c8c44e23da80e473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:47 +0000
Subject: [PATCH 19/73] fix: ParamMap counts the mass that leaves the map once,
 not three times

---
 py_gnome/gnome/maps/map.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 428de8f..40493ad 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -660,7 +660,6 @@ class ParamMap(GnomeMap):
         the land is so simple the collisions are detected via intersection.
         """
         self.resurface_airborne_elements(sc)
-        self._set_off_map_status(sc)
 
         start_pos = sc['positions']
         next_pos = sc['next_positions']
@@ -672,18 +671,10 @@ class ParamMap(GnomeMap):
         move_particles(start_pos, next_pos, status_codes,
                        last_water_positions, self.land_points)
 
+        # this also updates 'off_maps'/'beached' in mass_balance, so it must
+        # be called only once per step
         self._set_off_map_status(sc)
 
-        # todo: need a prepare_for_model_run() so map adds these keys to
-        #     mass_balance as opposed to SpillContainer
-        # update 'off_maps'/'beached' in mass_balance
-        # note: this requires that the elements get removed before the
-        #       next timestep, or it would get double counted.
-        sc.mass_balance['beached'] = \
-            sc['mass'][sc['status_codes'] == oil_status.on_land].sum()
-        sc.mass_balance['off_maps'] += \
-            sc['mass'][sc['status_codes'] == oil_status.off_maps].sum()
-
     def refloat_elements(self, spill_container, time_step, model_time=None):
         """
         This method performs the re-float logic -- changing the element
-- 
2.43.0


From c81a1d114e2ca56b15aa2fe5753836863c9ab4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:47 +0000
Subject: [PATCH 20/73] fix: RasterMap.in_water treats positions beyond the
 raster as water

---
 py_gnome/gnome/maps/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 40493ad..3eef704 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1013,7 +1013,7 @@ class RasterMap(GnomeMap):
     def _in_water_pixel(self, coord):
         # if  off the raster, so must be in water,
         # unless not on map, which should have already been checked.
-        if not self._off_raster:
+        if self._off_raster(coord):
             return True
         else:
             return not self.raster[coord[0], coord[1]] & self.land_flag
-- 
2.43.0


From 78cad7a67db49ef19f83e39708d77ae23cd9f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:49 +0000
Subject: [PATCH 21/73] fix: map_from_regular_grid used an undefined name and
 ignored the map bounds

---
 py_gnome/gnome/maps/map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 3eef704..37d64f3 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1723,13 +1723,13 @@ def map_from_regular_grid(grid_mask, lon, lat, refine=4, refloat_halflife=1,
     dlat = (lat[-1] - lat[0]) / (len(lat) - 1)
 
     # create the raster
-    raster_array = np.zeros((nlon * resolution, nlat * resolution),
+    raster_array = np.zeros((nlon * refine, nlat * refine),
                             dtype=np.uint8)
 
     # add the land to the raster
-    for i in range(resolution):
-        for j in range(resolution):
-            raster_array[i::resolution, j::resolution] = grid_mask
+    for i in range(refine):
+        for j in range(refine):
+            raster_array[i::refine, j::refine] = grid_mask
 
     # compute projection
     bounding_box = np.array(((lon[0], lat[0]),
@@ -1742,4 +1742,5 @@ def map_from_regular_grid(grid_mask, lon, lat, refine=4, refloat_halflife=1,
     return RasterMap(
         raster=raster_array,
         projection=proj,
-        refloat_halflife=refloat_halflife)
+        refloat_halflife=refloat_halflife,
+        map_bounds=map_bounds)
-- 
2.43.0


From 6cc1f299b0c6d843cb616975923003ce7f5eda68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:22 +0000
Subject: [PATCH 22/73] fix: element ids do not depend on earlier runs

---
 py_gnome/gnome/spill_container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index a7332e1..3f49133 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -8,6 +8,7 @@ set of arrays. The spills themselves provide some of the arrays themselves
 """
 
 import os
+import copy
 
 import numpy as np
 
@@ -825,7 +826,9 @@ class SpillContainer(AddLogger, SpillContainerData):
                 s.prepare_for_model_run(time_step)
         ats = default_array_types.copy()
         ats.update(array_types)
-        self._array_types = ats
+        # releasing elements changes the initial_value of the 'id' ArrayType,
+        # so do not share the (global) ArrayType objects
+        self._array_types = copy.deepcopy(ats)
 
         # if self._substances_spills is None:
         #     self._set_substancespills()
-- 
2.43.0


From 24f821c9882bcbdaa7c7867de1e04ccee30d9eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:37 +0000
Subject: [PATCH 23/73] fix: Substance.get_initializer_by_name compared
 positions, not initializers

---
 py_gnome/gnome/spills/substance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/substance.py b/py_gnome/gnome/spills/substance.py
index fb81d66..76eb93e 100644
--- a/py_gnome/gnome/spills/substance.py
+++ b/py_gnome/gnome/spills/substance.py
@@ -183,7 +183,7 @@ class Substance(GnomeId):
 
     def get_initializer_by_name(self, name):
         ''' get first initializer in list whose name matches 'name' '''
-        init = [i for i in enumerate(self.initializers) if i.name == name]
+        init = [i for i in self.initializers if i.name == name]
 
         if len(init) == 0:
             return None
-- 
2.43.0


From dfd2305959133702af97712623a766f7ae685bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:46 +0000
Subject: [PATCH 24/73] fix: changing the time zone of an instantaneous release
 moved its end twice

---
 py_gnome/gnome/spills/release.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index da2b328..1430516 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -238,7 +238,8 @@ class Release(GnomeId):
                 #but only if the new value is not None
                 off =  timedelta(hours=tzo.offset) - timedelta(hours=self._timezone_offset.offset)
                 self.release_time = self.release_time + off
-                self.end_release_time = self.end_release_time + off
+                if self._end_release_time is not None:
+                    self.end_release_time = self.end_release_time + off
         self._timezone_offset = tzo
         
     def __repr__(self):
-- 
2.43.0


From e2f50088aa722ae7d3cc4b9c4b0c4225a5fcb945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:46 +0000
Subject: [PATCH 25/73] fix: setting num_per_timestep to None raised TypeError

---
 py_gnome/gnome/spills/release.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 1430516..5464d53 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -289,7 +289,7 @@ class Release(GnomeId):
             method referenced by num_elements_to_release
         '''
         self._num_per_timestep = val
-        if val is not None or val < 0:
+        if val is not None:
             self._num_elements = None
 
     @property
-- 
2.43.0


From 2cdb52f30cc9956613ce0742949d7f912ac667a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:46 +0000
Subject: [PATCH 26/73] fix: PointLineRelease and SubsurfaceRelease ignored
 num_per_timestep

---
 py_gnome/gnome/spills/release.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 5464d53..24470fc 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -572,6 +572,7 @@ class PointLineRelease(Release):
         super(PointLineRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                **kwargs)
 
@@ -1454,6 +1455,7 @@ class SubsurfaceRelease(PointLineRelease):
         super(SubsurfaceRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                start_position = start_position,
                                                end_position = end_position,
-- 
2.43.0


From 47fbbb7a02edbf85d9530ac0c29cf4a509191cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:46 +0000
Subject: [PATCH 27/73] fix: the polygons of a PolygonRelease could not be set

---
 py_gnome/gnome/spills/release.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 24470fc..a44439e 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -851,7 +851,7 @@ class PolygonRelease(Release):
     @polygons.setter
     def polygons(self, polys):
         #polygons must be list of shapely or geojson (Multi)Polygon
-        for feat, poly in zip(self.features[:], poly):
+        for feat, poly in zip(self.features[:], polys):
             feat.geometry = geojson.loads(geojson.dumps(poly.__geo_interface__))
 
     @property
-- 
2.43.0


From 8e8869c5698047dc20eaaf40af9df1782bd4d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:46 +0000
Subject: [PATCH 28/73] fix: GridRelease with retain_initial_positions used an
 undefined name

---
 py_gnome/gnome/spills/release.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index a44439e..be4f156 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1132,7 +1132,7 @@ class GridRelease(Release):
         sc['init_mass'][sl] = self._mass_per_le
 
         if self.retain_initial_positions:
-            sc['init_positions'][sl] = pos
+            sc['init_positions'][sl] = positions
 
 
 
-- 
2.43.0


From 91ff1bd3b0329811e28844f954fe14fdaae98c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:18 +0000
Subject: [PATCH 29/73] fix: GnomeId.load of a .json file tested the json
 module instead of its contents

---
 py_gnome/gnome/gnomeobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index bbe17c3..b38bc46 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -968,7 +968,7 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                 with open(saveloc, 'r') as fp:
                     json_ = json.load(fp)
 
-                if 'obj_type' in json:
+                if 'obj_type' in json_:
                     if class_from_objtype(json_['obj_type']) is not cls:
                         raise ValueError("{} does not contain a {}"
                                          .format(saveloc, cls.__name__))
-- 
2.43.0


From 00756302e90a098b7287de53a75b889cdb5645e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:18 +0000
Subject: [PATCH 30/73] fix: object names containing braces could not be saved

---
 py_gnome/gnome/persist/base_schema.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 287260d..a1b8bf7 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -992,13 +992,12 @@ def gen_unique_filename(filename_in, zipfile_):
     filename_in = sanitize_string(filename_in)
     existing_files = set(zipfile_.namelist())
     file_name, extension = get_file_name_ext(filename_in)
-    fmtstring = file_name + '{0}' + extension
-    new_fn = fmtstring.format('')
+    new_fn = file_name + extension
 
     for i in range(255):
         if new_fn not in existing_files:
             return new_fn
         else:
-            new_fn = fmtstring.format(' (' + str(i) + ')')
+            new_fn = file_name + ' (' + str(i) + ')' + extension
 
     raise ValueError('Same file name used too many times')
-- 
2.43.0


From 40f61762c7bb9230a8130ba3d98a7a0d5150bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:25 +0000
Subject: [PATCH 31/73] fix: a second data file with the same name was dropped
 from the save file

---
 py_gnome/gnome/persist/base_schema.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index a1b8bf7..5f37cf1 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -1,5 +1,6 @@
 import datetime
 import zipfile
+import zlib
 import logging
 from collections import abc
 import os
@@ -393,6 +394,10 @@ class ObjType(SchemaType):
 
         if d_fname not in zipfile_.namelist():
             zipfile_.write(raw_path, d_fname)
+        elif not same_contents(raw_path, zipfile_.getinfo(d_fname)):
+            # a different data file that happens to have the same name
+            d_fname = gen_unique_filename(d_fname, zipfile_)
+            zipfile_.write(raw_path, d_fname)
 
         return d_fname
 
@@ -983,6 +988,21 @@ def sanitize_string(s):
     return re.sub(r'[/\\<>:"|?*$]', '_', s)
 
 
+def same_contents(path, zipinfo):
+    """
+    True if the file at path holds the same data as an archived file
+    """
+    if os.path.getsize(path) != zipinfo.file_size:
+        return False
+
+    crc = 0
+    with open(path, 'rb') as fp:
+        for chunk in iter(lambda: fp.read(1 << 20), b''):
+            crc = zlib.crc32(chunk, crc)
+
+    return crc == zipinfo.CRC
+
+
 def gen_unique_filename(filename_in, zipfile_):
     """
     add a trailing number to the file name in case the user accidentally
-- 
2.43.0


From efcc8920bb642fcf76273964199e30f2dde0de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:44 +0000
Subject: [PATCH 32/73] fix: updating a v1 save file failed when substances
 share an InitWindages file

---
 py_gnome/gnome/utilities/save_updater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/save_updater.py b/py_gnome/gnome/utilities/save_updater.py
index 77f0b62..0889a53 100644
--- a/py_gnome/gnome/utilities/save_updater.py
+++ b/py_gnome/gnome/utilities/save_updater.py
@@ -249,7 +249,8 @@ def v1tov2(messages, errors):
                         json_['windage_persist'] = init_js['windage_persist']
                         json.dump(json_, open(fname, 'w', encoding='utf-8'),
                                   indent=4)
-                        files_to_remove.append(wind_init)
+                        if wind_init not in files_to_remove:
+                            files_to_remove.append(wind_init)
 
     with open('version.txt', 'w', encoding='utf-8') as vers_file:
         vers_file.write('2\n')
-- 
2.43.0


From ae91c476e655d0d936e1147bbf8490f155124cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:44 +0000
Subject: [PATCH 33/73] fix: updating a v3 save file left references to removed
 WeatheringData files

---
 py_gnome/gnome/utilities/save_updater.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/save_updater.py b/py_gnome/gnome/utilities/save_updater.py
index 0889a53..aea839e 100644
--- a/py_gnome/gnome/utilities/save_updater.py
+++ b/py_gnome/gnome/utilities/save_updater.py
@@ -359,10 +359,8 @@ def v3tov4(messages, errors):
             with open(fname, 'r', encoding='utf-8') as fn:
                 json_ = json.load(fn)
                 if 'weatherers' in json_:
-                    # this is assuming only one
-                    for item in json_['weatherers']:
-                        if item in files_to_remove:
-                            json_['weatherers'].remove(item)
+                    json_['weatherers'] = [item for item in json_['weatherers']
+                                           if item not in files_to_remove]
                 json.dump(json_, open(fname, 'w', encoding='utf-8'), indent=4)
 
     # remove targeted files
-- 
2.43.0


From a51099659b04002714d991706f3852d1970e82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:28 +0000
Subject: [PATCH 34/73] fix: a model could not be updated from JSON when its
 map is a ParamMap

---
 py_gnome/gnome/maps/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 37d64f3..2e7ff51 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -712,7 +712,7 @@ class ParamMap(GnomeMap):
                 spill_container['last_water_positions'][r_idx]
             spill_container['status_codes'][r_idx] = oil_status.in_water
 
-    def update_from_dict(self, data):
+    def update_from_dict(self, data, refs=None):
         if ('center' in data or
             'distance' in data or
             'bearing' in data or
@@ -726,7 +726,7 @@ class ParamMap(GnomeMap):
         else:
             # for the case when instantiating a param map using new_from_dict,
             # since new_from_dict will call update_from_dict
-            super(ParamMap, self).update_from_dict(data)
+            super(ParamMap, self).update_from_dict(data, refs=refs)
 
     def to_geojson(self):
         shoreline_geo = [p.points.tolist() for p in self.land_polys]
-- 
2.43.0


From f06100695c3cadb75288ee30d389ce735e918a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:28 +0000
Subject: [PATCH 35/73] fix: an Appearance could only be updated with all of
 its attributes

---
 py_gnome/gnome/utilities/appearance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/appearance.py b/py_gnome/gnome/utilities/appearance.py
index cbab3b9..331a600 100644
--- a/py_gnome/gnome/utilities/appearance.py
+++ b/py_gnome/gnome/utilities/appearance.py
@@ -111,7 +111,7 @@ class Appearance(GnomeId):
         updatable = self._schema().get_nodes_by_attr('update')
         read_only_attrs = self._schema().get_nodes_by_attr('read_only')
         for name in updatable + read_only_attrs:
-            dict_.pop(name)
+            dict_.pop(name, None)
         for k, v in dict_.items():
             setattr(self, k, v)
             if k not in self.appearance_keys:
-- 
2.43.0


From b10bb1628408924616aa357d9a30b65bbe86396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:28 +0000
Subject: [PATCH 36/73] fix: undefined name when Model.update_from_dict fails
 to set an attribute

---
 py_gnome/gnome/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 757e1cd..904634c 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -479,7 +479,7 @@ class Model(GnomeId):
                     setattr(self, k, attrs[k])
                 except AttributeError:
                     self.logger.error('Failed to set {} on {} to {}'
-                                         .format(k, self, v))
+                                         .format(k, self, attrs[k]))
                     raise
                 attrs.pop(k)
 
-- 
2.43.0


From 5d5cda9b9eda85fc8a7c883ddb4c41eb733f41c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 37/73] fix: outputters that are off write nothing, and
 skipping the zero step does not skip all later steps

---
 py_gnome/gnome/outputters/outputter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 5641998..3ad0537 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -315,7 +315,9 @@ class Outputter(GnomeId):
             self._write_step = False
             return
 
-        if self._output_timestep is not None:
+        if self._output_timestep is None:
+            self._write_step = True
+        else:
             self._write_step = False
             self._dt_since_lastoutput += time_step
 
@@ -353,6 +355,10 @@ class Outputter(GnomeId):
         :type islast_step: bool
 
         """
+        if not self.on:
+            self._write_step = False
+            return
+
         if step_num == 0:
             if self.output_zero_step or self._single_output_at_start:
                 self._write_step = True  # this is the default
-- 
2.43.0


From ff95b3cf62df7a204769624bf60a8e7fa9a707b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 38/73] fix: output start time and output cadence of a model
 run backwards

---
 py_gnome/gnome/outputters/outputter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 3ad0537..3910d4d 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -10,6 +10,7 @@ module to define classes for GNOME output:
 
 """
 import os
+import math
 
 from datetime import timedelta
 
@@ -295,7 +296,8 @@ class Outputter(GnomeId):
         d = timedelta(seconds=time_step)
         if self.output_start_time is not None:
             if self.output_start_time != self._model_start_time:
-                if model_time + d < self.output_start_time:
+                if ((model_time + d < self.output_start_time and time_step > 0) or
+                    (model_time + d > self.output_start_time and time_step < 0)):
                     self._write_step = False
                     return
 
@@ -323,8 +325,8 @@ class Outputter(GnomeId):
 
             if abs(self._dt_since_lastoutput) >= abs(self._output_timestep):
                 self._write_step = True
-                self._dt_since_lastoutput = (self._dt_since_lastoutput %
-                                             self._output_timestep)
+                self._dt_since_lastoutput = math.fmod(self._dt_since_lastoutput,
+                                                      self._output_timestep)
 
     def model_step_is_done(self):
         '''
-- 
2.43.0


From b62efd98257e3d6bee7ed0dc62361f1813299116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 39/73] fix: output written after a run follows the cadence on
 the last step and for steps of a day or more

---
 py_gnome/gnome/outputters/outputter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 3910d4d..83a5ae7 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -475,12 +475,12 @@ class Outputter(GnomeId):
         last_step = False
 
         for step_num in range(num_time_steps):
-            if (step_num > 0 and step_num < num_time_steps - 1):
+            if step_num > 0:
                 next_ts = (self.cache.load_timestep(step_num).items()[0].
                            current_time_stamp)
                 ts = next_ts - model_time
 
-                self.prepare_for_model_step(ts.seconds, model_time)
+                self.prepare_for_model_step(ts.total_seconds(), model_time)
 
             if step_num == num_time_steps - 1:
                 last_step = True
-- 
2.43.0


From 02598ab9f0c1bd747a03b27c913601e998c83119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 40/73] fix: BinaryOutput zips only the files it wrote when the
 last step is not output

---
 py_gnome/gnome/outputters/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/binary.py b/py_gnome/gnome/outputters/binary.py
index 10bdddf..2212982 100644
--- a/py_gnome/gnome/outputters/binary.py
+++ b/py_gnome/gnome/outputters/binary.py
@@ -158,7 +158,7 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
 
 
         if islast_step:
-            num_files = self.file_num + 1
+            num_files = self.file_num + (1 if self._write_step else 0)
             self._zip_binary_files(num_files)
             self.cleaned_up = True
 
-- 
2.43.0


From 32b21cf752f05b7329dc50a12ad6faba6dea70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 41/73] fix: OilBudgetOutput honours its cache and on arguments
 and keeps its filename when saved

---
 py_gnome/gnome/outputters/oil_budget.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/outputters/oil_budget.py b/py_gnome/gnome/outputters/oil_budget.py
index 665c5ee..c812b91 100644
--- a/py_gnome/gnome/outputters/oil_budget.py
+++ b/py_gnome/gnome/outputters/oil_budget.py
@@ -10,10 +10,13 @@ import csv
 from .weathering import BaseMassBalanceOutputter
 from .outputter import OutputterFilenameMixin
 from . import BaseOutputterSchema
-from gnome.persist import Boolean, SchemaNode
+from gnome.persist import Boolean, FilenameSchema, SchemaNode, drop
 
 
 class OilBudgetOutputSchema(BaseOutputterSchema):
+    filename = FilenameSchema(
+        missing=drop, save=True, update=True, test_equal=False
+    )
     # these fields are saved in the base class so need to override
     #pass
     output_zero_step = SchemaNode(
@@ -72,8 +75,8 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
         self.file_format = file_format
 
         super(OilBudgetOutput, self).__init__(filename=filename,
-                                              cache=None,
-                                              on=True,
+                                              cache=cache,
+                                              on=on,
                                               output_timestep=output_timestep,
                                               # these always should be this way for this
                                               # outputter
-- 
2.43.0


From 38b6058a316715978f0b9288f96bc81be1ed65ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 42/73] fix: TrajectoryGeoJsonOutput no longer overwrites the
 forecast elements with the uncertain ones

---
 py_gnome/gnome/outputters/geo_json.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index 1d9c25d..ae23f59 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -163,8 +163,9 @@ class TrajectoryGeoJsonOutput(Outputter):
                        'uncertain': uc_geojson}
 
         if self.output_dir:
-            output_info['output_filename'] = str(self.output_to_file(c_geojson, step_num))
-            self.output_to_file(uc_geojson, step_num)
+            # one file per step: sc_type tells forecast and uncertain apart
+            all_geojson = FeatureCollection(c_features + uc_features)
+            output_info['output_filename'] = str(self.output_to_file(all_geojson, step_num))
 
         return output_info
 
-- 
2.43.0


From 33f9a8148b4c000a3a4d3f1f9f9849fe53f0fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 43/73] fix: Renderer gives each image format its own file name

---
 py_gnome/gnome/outputters/renderer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/renderer.py b/py_gnome/gnome/outputters/renderer.py
index aa66b25..6955413 100644
--- a/py_gnome/gnome/outputters/renderer.py
+++ b/py_gnome/gnome/outputters/renderer.py
@@ -665,7 +665,10 @@ class Renderer(Outputter, MapCanvas):
             if ftype == 'gif':
                 self.animation.add_frame(self.fore_image, self.delay)
             else:
-                image_filename += ftype
+                image_filename = os.path.join(
+                    self.output_dir,
+                    self.foreground_filename_format.format(step_num) + ftype
+                )
                 self.save_foreground(image_filename, file_type=ftype)
 
         self.last_filename = image_filename
-- 
2.43.0


From 29af903d51525524bbe5fccf7c2476579f5f6fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 44/73] fix: CurrentJsonOutput hands each mover the time in the
 form it expects

---
 py_gnome/gnome/outputters/json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/outputters/json.py b/py_gnome/gnome/outputters/json.py
index 302d857..383fb46 100644
--- a/py_gnome/gnome/outputters/json.py
+++ b/py_gnome/gnome/outputters/json.py
@@ -348,9 +348,9 @@ class CurrentJsonOutput(Outputter):
             is_pymover = isinstance(cm, PyMover)
 
             if is_pymover:
-                model_time = sc.current_time_stamp
-
-            velocities = cm.get_scaled_velocities(model_time)
+                velocities = cm.get_scaled_velocities(sc.current_time_stamp)
+            else:
+                velocities = cm.get_scaled_velocities(model_time)
 
             if is_pymover:
                 velocities = velocities[:, 0:2].round(decimals=2)
-- 
2.43.0


From 78215024beca61ed2dbc4d8a208a02cddb99e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 45/73] fix: NetCDFOutput indexes the forecast and the
 uncertain file separately

---
 py_gnome/gnome/outputters/netcdf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 3d0bf86..4cc780f 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -755,19 +755,21 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                     pc = rg_vars['particle_count']
                     pc[idx] = len(sc)
 
-                    _end_idx = self._start_idx + pc[idx]
+                    # each file has its own number of particles so far
+                    _start_idx = len(rootgrp.dimensions['data'])
+                    _end_idx = _start_idx + pc[idx]
 
                     # add the data:
                     for var_name in self.arrays_to_output:
                         # special case positions:
                         if var_name == 'longitude':
-                            rg_vars['longitude'][self._start_idx:_end_idx] = sc['positions'][:, 0]
+                            rg_vars['longitude'][_start_idx:_end_idx] = sc['positions'][:, 0]
                         elif var_name == 'latitude':
-                            rg_vars['latitude'][self._start_idx:_end_idx] = sc['positions'][:, 1]
+                            rg_vars['latitude'][_start_idx:_end_idx] = sc['positions'][:, 1]
                         elif var_name == 'depth':
-                            rg_vars['depth'][self._start_idx:_end_idx] = sc['positions'][:, 2]
+                            rg_vars['depth'][_start_idx:_end_idx] = sc['positions'][:, 2]
                         else:
-                            rg_vars[var_name][self._start_idx:_end_idx] = sc[var_name]
+                            rg_vars[var_name][_start_idx:_end_idx] = sc[var_name]
 
                     # write mass_balance data
                     if sc.mass_balance:
-- 
2.43.0


From 525db605647a5c8dd5e0dfaf5cb101f09c341dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:02 +0000
Subject: [PATCH 46/73] fix: a reloaded NetCDFOutput with zip_output no longer
 zips the archive into itself

---
 py_gnome/gnome/outputters/netcdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 4cc780f..017a5ea 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -347,8 +347,11 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                                            **kwargs)
 
         name, ext = os.path.splitext(self.filename)
+        if zip_output is True and ext == '.zip':
+            # filename of a saved outputter: it names the zip archive
+            ext = '.nc'
         self._u_filename = '{0}_uncertain{1}'.format(name, ext)
-        self.forecast_filename = self.filename
+        self.forecast_filename = '{0}{1}'.format(name, ext)
         self.zip_filename = '{0}.{1}'.format(name, 'zip')
 
         # fixme: move to base class?
-- 
2.43.0


From f8d86047c00f45deab823d9cf8729a1c3795f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:35 +0000
Subject: [PATCH 47/73] fix: dissolution from the slick uses the wind at each
 element, not the product over all of them

---
 py_gnome/gnome/weatherers/dissolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/weatherers/dissolution.py b/py_gnome/gnome/weatherers/dissolution.py
index 410b2c1..ad586fa 100644
--- a/py_gnome/gnome/weatherers/dissolution.py
+++ b/py_gnome/gnome/weatherers/dissolution.py
@@ -477,8 +477,8 @@ class Dissolution(Weatherer):
             N_s = N_s_a * slick_area
         else:
             # multiple LE mass components in a 2D array
-            N_s_a = (0.01 * np.prod((U_10 / 3600.0))
-                      *
+            N_s_a = (0.01 *
+                     (U_10 / 3600.0) *
                      (c_oil / k_ow))
 
             # with printoptions(precision=2):
-- 
2.43.0


From 19d1aeae1d06f6f02afc46b668d09a6037d94584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:35 +0000
Subject: [PATCH 48/73] fix: NaturalDispersion reports an unknown algorithm as
 a ValueError

---
 py_gnome/gnome/weatherers/natural_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/natural_dispersion.py b/py_gnome/gnome/weatherers/natural_dispersion.py
index 45ac300..dda298e 100644
--- a/py_gnome/gnome/weatherers/natural_dispersion.py
+++ b/py_gnome/gnome/weatherers/natural_dispersion.py
@@ -49,7 +49,7 @@ class NaturalDispersion(Weatherer):
         self.waves = waves
         self.water = water
         if algorithm not in self._algorithms_opts:
-           raise ValueError(f'{algorithm} not valid, must be one of:{self._algorithm_opts}')
+           raise ValueError(f'{algorithm} not valid, must be one of:{self._algorithms_opts}')
         self.algorithm = algorithm
 
         super(NaturalDispersion, self).__init__(**kwargs)
-- 
2.43.0


From 8278a2f08cf21b4c3775fb3f83670d2435cbf9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:35 +0000
Subject: [PATCH 49/73] fix: the Li 2017 dispersion works when some elements
 cover no area

---
 py_gnome/gnome/weatherers/natural_dispersion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/weatherers/natural_dispersion.py b/py_gnome/gnome/weatherers/natural_dispersion.py
index dda298e..26339bf 100644
--- a/py_gnome/gnome/weatherers/natural_dispersion.py
+++ b/py_gnome/gnome/weatherers/natural_dispersion.py
@@ -229,9 +229,10 @@ class NaturalDispersion(Weatherer):
 
         s_mask = area > 0
         Vemul = (mass[s_mask] / density[s_mask])  / (1.0 - frac_water[s_mask]);
-        thickness = Vemul / area[s_mask];
+        thickness = np.zeros_like(area)  # elements that cover no area have none
+        thickness[s_mask] = Vemul / area[s_mask]
 
-        Q_disp = density[s_mask] * thickness * frac_breaking_waves[s_mask] * Q_oil[s_mask] * (1.0 - frac_water[s_mask]) * area[s_mask]
+        Q_disp = density[s_mask] * thickness[s_mask] * frac_breaking_waves[s_mask] * Q_oil[s_mask] * (1.0 - frac_water[s_mask]) * area[s_mask]
         # print(area[s_mask], area)
         disp_out[s_mask] = factor * Q_disp * time_step
 
-- 
2.43.0


From 268a6da092b3d1fd0ee46e508aec067f002efb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 50/73] fix: IceAwareWind keeps winds blowing west or south;
 weatherers can ask it for a minimum speed

---
 py_gnome/gnome/environment/environment_objects.py | 5 ++++-
 py_gnome/gnome/weatherers/core.py                 | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/environment_objects.py b/py_gnome/gnome/environment/environment_objects.py
index c904e1d..531ba81 100644
--- a/py_gnome/gnome/environment/environment_objects.py
+++ b/py_gnome/gnome/environment/environment_objects.py
@@ -958,7 +958,10 @@ class IceAwareWind(GridWind):
                                               units=units,
                                               extrapolate=extrapolate,
                                               **kwargs)
-        wind_v[wind_v < min_val] = min_val
+        if kwargs.get('coord_sys', 'uv') == 'r':
+            # min_val limits the speed, not the (signed) components
+            wind_v = wind_v.copy()
+            wind_v[wind_v < min_val] = min_val
         #assert len(cctn.shape) == 2
 
         if np.any(cctn >= 0.2):
diff --git a/py_gnome/gnome/weatherers/core.py b/py_gnome/gnome/weatherers/core.py
index 2df1976..cc599c8 100644
--- a/py_gnome/gnome/weatherers/core.py
+++ b/py_gnome/gnome/weatherers/core.py
@@ -110,7 +110,7 @@ class Weatherer(Process):
             Wrapper for the weatherers so they can get wind speeds
         '''
         if hasattr(self.wind,'ice_concentration'):
-            retval = self.wind.at(points, model_time, min_val, coord_sys=coord_sys).reshape(-1)
+            retval = self.wind.at(points, model_time, min_val=min_val, coord_sys=coord_sys).reshape(-1)
         else:
             retval = self.wind.at(points, model_time, coord_sys=coord_sys).reshape(-1)
             retval[retval < min_val] = min_val
-- 
2.43.0


From ea198ab3eed110de4cea17f6bababc1762c4625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:58 +0000
Subject: [PATCH 51/73] fix: Wind converts the units of both components of u, v
 data

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ae10b47..ec53b00 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -441,7 +441,7 @@ class Wind(Timeseries, Environment):
         if from_unit != to_unit:
             data[:, 0] = uc.convert('Velocity', from_unit, to_unit, data[:, 0])
 
-            if coord_sys == ts_format.uv:
+            if tsformat(coord_sys) == ts_format.uv:
                 data[:, 1] = uc.convert('Velocity', from_unit, to_unit, data[:, 1])
 
         return data
-- 
2.43.0


From 03d89ff3f95c46702ad8237bd06e2dc002e544ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:58 +0000
Subject: [PATCH 52/73] fix: setting Wind data leaves the caller's array alone
 and keeps timeseries in r-theta and the user's units

---
 py_gnome/gnome/environment/wind.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ec53b00..8c42cad 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -371,14 +371,18 @@ class Wind(Timeseries, Environment):
         if self._check_timeseries(value):
             units = self.units
 
-            wind_data = self._xform_input_timeseries(value)
-            self._timeseries = wind_data.copy()
+            # the caller's array is left alone: convert a copy
+            wind_data = self._xform_input_timeseries(value).copy()
+            user_data = wind_data.copy()
             wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
                                                      'meter per second')
 
-            datetime_value_2d = self._xform_input_timeseries(wind_data)
             timeval = to_time_value_pair(wind_data, coord_sys)
             self.ossm.timeseries = timeval
+            if tsformat(coord_sys) == ts_format.uv:
+                # self.timeseries is always in 'r-theta'
+                user_data = self.get_wind_data(units=units)
+            self._timeseries = user_data
             if not hasattr(self, '_time') or self._time is None:
                 self._time = Time()
             self.time.data = self._timeseries['time'].astype(datetime.datetime)
@@ -574,15 +578,8 @@ class Wind(Timeseries, Environment):
                          basic_types.format.* (see cy_basic_types.pyx)
         """
         if self._check_timeseries(wind_data):
-            self._check_units(units)
             self.units = units
-
-            wind_data = self._xform_input_timeseries(wind_data)
-            wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
-                                                     'meter per second')
-
-            super(Wind, self).set_timeseries(wind_data, coord_sys)
-            self._timeseries = wind_data
+            self.new_set_timeseries(wind_data, coord_sys)
         else:
             raise ValueError('Bad timeseries as input')
 
-- 
2.43.0


From 893a514f0cf74c7580cc6ecd9e505ad910161834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:58 +0000
Subject: [PATCH 53/73] fix: a Wind read from a file has its longitude and
 latitude the right way round

---
 py_gnome/gnome/environment/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 8c42cad..a7c24d5 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -215,8 +215,8 @@ class Wind(Timeseries, Environment):
             self.new_set_timeseries(wind_vel, coord_sys=coord_sys)
 
             if coords != (None, None):
-                self.longitude = coords[1]
-                self.latitude = coords[0]
+                self.longitude = coords[0]
+                self.latitude = coords[1]
 
             self.name = kwargs.pop('name', name)
             self.units = units
-- 
2.43.0


From f97074b5bdea929dd882798a592646686f7847bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 54/73] fix: a wind file with an empty station name can be read

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index a7c24d5..3ae0cfb 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -839,6 +839,7 @@ def read_ossm_format(filename):
             # read the header
             (data, line_no, name, coords, units, timezone_offset,
              timezone_name) = _read_ossm_header(infile)
+            name = name if name else str(filename)
             # read the rest of the data
             times = [data[0]]
             speeds = [data[1]]
@@ -867,7 +868,6 @@ def _read_ossm_header(infile):
     # Line 1: name
     name = infile.readline().strip()
     line_no += 1
-    name = str(filename) if not name else name
 
     # line 2: location coords:
     line = infile.readline().strip()
-- 
2.43.0


From 18cc651c59fedd892559c36ddaa9e13976b42c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 55/73] fix: setting Wind.time no longer fails on missing
 imports

---
 py_gnome/gnome/environment/wind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 3ae0cfb..6998dc9 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -5,6 +5,8 @@ the Wind object defines the Wind conditions for the spill
 
 import datetime
 import os
+import warnings
+from collections.abc import Iterable
 # import copy
 import io
 # import zipfile
@@ -343,7 +345,7 @@ class Wind(Timeseries, Environment):
 
         if isinstance(t, Time):
             self._time = t
-        elif isinstance(t, collections.Iterable):
+        elif isinstance(t, Iterable):
             self._time = Time(t)
         else:
             raise ValueError('Object being assigned must be an iterable '
-- 
2.43.0


From e85788ecf4639f1a6ff17f733935be43ccc59469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 56/73] fix: RunningAverage gives the value at a time

---
 py_gnome/gnome/environment/running_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/running_average.py b/py_gnome/gnome/environment/running_average.py
index fc7e00e..9a1180f 100644
--- a/py_gnome/gnome/environment/running_average.py
+++ b/py_gnome/gnome/environment/running_average.py
@@ -187,7 +187,7 @@ class RunningAverage(Environment):
             timeval = np.zeros((len(datetime), ),
                                dtype=basic_types.time_value_pair)
             timeval['time'] = date_to_sec(datetime)
-            timeval['value'] = self.ossm.get_time_value(timeval['time'])
+            timeval['value'], _err = self.ossm.get_time_value(timeval['time'])
 
             datetimeval = to_datetime_value_2d(timeval, 'uv')
 
-- 
2.43.0


From fb8ba9521a2a9066eccff3ff351fe3aa91392a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 57/73] fix: TimeseriesData.in_units gives the copy its new
 units

---
 py_gnome/gnome/environment/timeseries_objects_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/timeseries_objects_base.py b/py_gnome/gnome/environment/timeseries_objects_base.py
index 6f9a112..9944ef8 100644
--- a/py_gnome/gnome/environment/timeseries_objects_base.py
+++ b/py_gnome/gnome/environment/timeseries_objects_base.py
@@ -212,7 +212,7 @@ class TimeseriesData(GnomeId):
                           'was not copied because it does not support '
                           'multiplication')
 
-        cpy._units = unit
+        cpy.units = unit
 
         return cpy
 
-- 
2.43.0


From c2162e2cefc0119f4e843c209bdeb0ca6fcba683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:07 +0000
Subject: [PATCH 58/73] fix: TimeseriesVector.at passes extrapolate on to its
 variables

---
 py_gnome/gnome/environment/timeseries_objects_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/timeseries_objects_base.py b/py_gnome/gnome/environment/timeseries_objects_base.py
index 9944ef8..7df974e 100644
--- a/py_gnome/gnome/environment/timeseries_objects_base.py
+++ b/py_gnome/gnome/environment/timeseries_objects_base.py
@@ -388,7 +388,7 @@ class TimeseriesVector(GnomeId):
             :rtype: double
         '''
         units = units if units else self._gnome_unit #no need to convert here, its handled in the subcomponents
-        val = np.column_stack([var.at(points, time,  units=units, **kwargs) for var in self.variables])
+        val = np.column_stack([var.at(points, time, units=units, extrapolate=extrapolate, **kwargs) for var in self.variables])
 
         # No need to unit convert since that should be handled by the individual variable objects
         if points is None:
-- 
2.43.0


From 991f7376d826b76b3c5b57ebdcd0630730fa2242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:30 +0000
Subject: [PATCH 59/73] fix: making a VelocityGrid does not change the list of
 variables it is given

---
 py_gnome/gnome/environment/environment_objects.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/environment/environment_objects.py b/py_gnome/gnome/environment/environment_objects.py
index 531ba81..f09d6fd 100644
--- a/py_gnome/gnome/environment/environment_objects.py
+++ b/py_gnome/gnome/environment/environment_objects.py
@@ -196,10 +196,12 @@ class VelocityGrid(VectorVariable):
         if 'variables' in kwargs:
             variables = kwargs['variables']
             if len(variables) == 2:
-                variables.append(TimeseriesData(name='constant w',
-                                                data=[0.0],
-                                                time=Time.constant_time(),
-                                                units='m/s'))
+                # a new list: the caller's is left alone
+                variables = [*variables,
+                             TimeseriesData(name='constant w',
+                                            data=[0.0],
+                                            time=Time.constant_time(),
+                                            units='m/s')]
 
             kwargs['variables'] = variables
 
-- 
2.43.0


From fe60d984d515c94a68bfc795ec354f5f13a99aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:30 +0000
Subject: [PATCH 60/73] fix: from_gridcur honours extrapolation_is_allowed

---
 py_gnome/gnome/environment/gridcur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/gridcur.py b/py_gnome/gnome/environment/gridcur.py
index f6abe9f..0e4ef11 100644
--- a/py_gnome/gnome/environment/gridcur.py
+++ b/py_gnome/gnome/environment/gridcur.py
@@ -68,7 +68,7 @@ def from_gridcur(filename,
     # import here to avoide circular import
     from .environment_objects import GridCurrent
     gc = GridCurrent.__new__(GridCurrent)
-    init_from_gridcur(gc, filename, **kwargs)
+    init_from_gridcur(gc, filename, extrapolation_is_allowed, **kwargs)
     return gc
 
 
-- 
2.43.0


From e387ff35c23d3a9140f9bfc0ce7bd5ef756c9f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:30 +0000
Subject: [PATCH 61/73] fix: VectorVariable.constant accepts one unit, or none,
 for all components

---
 py_gnome/gnome/environment/gridded_objects_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/gridded_objects_base.py b/py_gnome/gnome/environment/gridded_objects_base.py
index cb96b83..0da3bfc 100644
--- a/py_gnome/gnome/environment/gridded_objects_base.py
+++ b/py_gnome/gnome/environment/gridded_objects_base.py
@@ -1167,8 +1167,8 @@ class VectorVariable(gridded.VectorVariable, Environment):
         _node_lat = np.array(([-89.95, -89.95, -89.95], [0, 0, 0], [89.95, 89.95, 89.95]))
         _grid = Grid(node_lon=_node_lon, node_lat=_node_lat)
         _time = Time.constant_time()
-        if isinstance(units, str):
-            units = [units,]
+        if units is None or isinstance(units, str):
+            units = [units] * len(values)
         _datas = [np.full((3,3), v) for v in values]
         _vars = [Variable(grid=_grid, units=units[i], time=_time, data=d) for i, d in enumerate(_datas)]
         return cls(name=name, grid=_grid, time=_time, variables=_vars)
-- 
2.43.0


From 7b9a4c44e0a9fabee6fdeb5f2584b94f2733b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:30 +0000
Subject: [PATCH 62/73] fix: Grid_S passes its positional arguments on once

---
 py_gnome/gnome/environment/gridded_objects_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/gridded_objects_base.py b/py_gnome/gnome/environment/gridded_objects_base.py
index 0da3bfc..5f8e177 100644
--- a/py_gnome/gnome/environment/gridded_objects_base.py
+++ b/py_gnome/gnome/environment/gridded_objects_base.py
@@ -290,7 +290,7 @@ class Grid_S(gridded.grids.Grid_S, GnomeId):
         See gridded.pyugrid.sgrid.SGrid for full __init__ documentation
         '''
         #set use_masked_boundary to True by default (gridded is False)
-        super(Grid_S, self).__init__(*args, use_masked_boundary=use_masked_boundary, *args, **kwargs)
+        super(Grid_S, self).__init__(*args, use_masked_boundary=use_masked_boundary, **kwargs)
  
     @combine_signatures
     @classmethod
-- 
2.43.0


From d8af2fb8a9224114e7042cce75998f8958334d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:30 +0000
Subject: [PATCH 63/73] fix: a reloaded FileGridCurrent keeps its name

---
 py_gnome/gnome/environment/environment_objects.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/environment/environment_objects.py b/py_gnome/gnome/environment/environment_objects.py
index f09d6fd..67b1fb1 100644
--- a/py_gnome/gnome/environment/environment_objects.py
+++ b/py_gnome/gnome/environment/environment_objects.py
@@ -1066,8 +1066,11 @@ class FileGridCurrent(GridCurrent):
         read_only_attrs = cls._schema().get_nodes_by_attr('read_only')
 
         [serial_dict.pop(n, None) for n in read_only_attrs]
-        return cls(filename=serial_dict.get('filename'),
-                   extrapolation_is_allowed=serial_dict.get('extrapolation_is_allowed')  # noqa
-                   )
+        obj = cls(filename=serial_dict.get('filename'),
+                  extrapolation_is_allowed=serial_dict.get('extrapolation_is_allowed')  # noqa
+                  )
+        if serial_dict.get('name') is not None:
+            obj.name = serial_dict['name']
+        return obj
 
 
-- 
2.43.0


From c226bde2a3650addef106715c140827c866b088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:17 +0000
Subject: [PATCH 64/73] fix: the density of released oil is that in the model's
 water, like its viscosity

---
 py_gnome/gnome/spills/gnome_oil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/gnome_oil.py b/py_gnome/gnome/spills/gnome_oil.py
index 9b9fbd5..9a05e61 100644
--- a/py_gnome/gnome/spills/gnome_oil.py
+++ b/py_gnome/gnome/spills/gnome_oil.py
@@ -359,7 +359,8 @@ class GnomeOil(Substance):
         # initialize mass_components
         arrs['mass_components'][sl] = (np.asarray(self.mass_fraction, dtype=np.float64) * (arrs['mass'][sl].reshape(len(arrs['mass'][sl]), -1)))
 
-        super(GnomeOil, self).initialize_elements(to_rel, arrs)
+        super(GnomeOil, self).initialize_elements(to_rel, arrs,
+                                                  environment=environment)
 
     def _set_pc_values(self, prop, values):
         """
-- 
2.43.0


From e0ae3fd6013a464be5035abb39a971c38c4cd29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:03 +0000
Subject: [PATCH 65/73] fix: round_time leaves the array it is given alone

---
 py_gnome/gnome/utilities/time_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/time_utils.py b/py_gnome/gnome/utilities/time_utils.py
index 4e48b37..1dd4a22 100644
--- a/py_gnome/gnome/utilities/time_utils.py
+++ b/py_gnome/gnome/utilities/time_utils.py
@@ -283,7 +283,7 @@ def round_time(dt=None, roundTo=60):  # IGNORE:W0621
     if dt is None:
         dt = datetime.now()
 
-    dt = np.asarray(dt, dtype='datetime64[s]').reshape(-1)
+    dt = np.array(dt, dtype='datetime64[s]').reshape(-1)
 
     for li in range(len(dt)):
         date = dt[li].astype(object)
-- 
2.43.0


From db3e23f5010ac1de9cc6746ee7bd8f44aa184cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:00 +0000
Subject: [PATCH 66/73] fix: a Model keeps the make_default_refs it is given

---
 py_gnome/gnome/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 904634c..3df3ab7 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -329,7 +329,7 @@ class Model(GnomeId):
 
         # model creates references to weatherers/environment if
         # make_default_refs is True
-        self.make_default_refs = True
+        self.make_default_refs = make_default_refs
 
         self.location = location
         self._register_callbacks()
-- 
2.43.0


From ebd3ec8a95525b853b2a6142cea4bebb36ac0726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:00 +0000
Subject: [PATCH 67/73] fix: get_spill_data compares the values of elements,
 not their integer parts

---
 py_gnome/gnome/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 3df3ab7..e1bd1af 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1973,7 +1973,7 @@ class Model(GnomeId):
 
         def test(elem_value, op, test_val):
             if op in {'<', '<=', '>', '>=', '=='}:
-                return eval(str(int(elem_value)) + op + test_val)
+                return eval(str(elem_value) + op + test_val)
 
         def num(s):
             try:
-- 
2.43.0


From 900fb521c0bb56a1ad981c607a0ef0bfe9dc35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:36 +0000
Subject: [PATCH 68/73] fix: points_in_poly leaves the shape of the array it is
 given alone

---
 py_gnome/gnome/utilities/geometry/PinP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/geometry/PinP.py b/py_gnome/gnome/utilities/geometry/PinP.py
index bd2f33e..a9f2b49 100644
--- a/py_gnome/gnome/utilities/geometry/PinP.py
+++ b/py_gnome/gnome/utilities/geometry/PinP.py
@@ -21,7 +21,7 @@ def points_in_poly(pgon, points):
     """
     points = np.asarray(points, dtype=np.float64)
     scalar = (len(points.shape) == 1)
-    points.shape = (-1, 3)
+    points = points.reshape((-1, 3))
 
     result = np.zeros((points.shape[0],), dtype=bool)
 
-- 
2.43.0


From fa67aca7e6608274977f8113df67ab03c147d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:45 +0000
Subject: [PATCH 69/73] fix: the bounding box of a RegularGridProjection
 follows its scale

---
 py_gnome/gnome/utilities/projections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index d7682c7..1449c48 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -752,4 +752,5 @@ class RegularGridProjection(GeoProjection):
         self.scale = (image_size[0] / w, - image_size[1] / h)
 
         # doing this at the end, in case there is a problem with the input.
+        self.image_box = bounding_box
         self.image_size = image_size
-- 
2.43.0


From 08bfc395d22f01ef45df5a6064315d5108fb5abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:46 +0000
Subject: [PATCH 70/73] fix: PolygonSets that divide the same points
 differently are not equal

---
 py_gnome/gnome/utilities/geometry/polygons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 3dbd25d..5f45da5 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -369,6 +369,7 @@ class PolygonSet(object):
             return False
         else:
             return (np.array_equal(self._PointsArray, other._PointsArray) and
+                    np.array_equal(self._IndexArray, other._IndexArray) and
                     self._MetaDataList == other._MetaDataList)
 
     def __ne__(self, other):
-- 
2.43.0


From 12838dd6dc43cfbab1b079a6283f2f5cc243d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:49 +0000
Subject: [PATCH 71/73] fix: the metadata given to a PolygonSet is kept, one
 entry per polygon

---
 py_gnome/gnome/utilities/geometry/polygons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 5f45da5..84a16b6 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -203,7 +203,7 @@ class PolygonSet(object):
         else:
             self._PointsArray = np.array(data[0])
             self._IndexArray = np.array(data[1])
-            self._MetaDataList = np.array(data[2])
+            self._MetaDataList = list(data[2])
 
     def append(self, polygon, metadata=None):
 
@@ -290,9 +290,9 @@ class PolygonSet(object):
         self._PointsArray = np.array(PointData[0], self.dtype)
         self._IndexArray = np.array(PointData[1], dtype=np.int32)
         if MetaData is not None:
-            self._DataArray = MetaData
+            self._MetaDataList = list(MetaData)
         else:
-            self._DataArray = [None] * len(self.PointsArray)
+            self._MetaDataList = [None] * len(self)
 
     def Copy(self):
         """
-- 
2.43.0


From aef79babcd3654b0b1e42c79f2dc54da06b167bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:05 +0000
Subject: [PATCH 72/73] fix: setting the viewport of a map canvas to None keeps
 it

---
 py_gnome/gnome/utilities/map_canvas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/map_canvas.py b/py_gnome/gnome/utilities/map_canvas.py
index 4f966eb..27591b1 100644
--- a/py_gnome/gnome/utilities/map_canvas.py
+++ b/py_gnome/gnome/utilities/map_canvas.py
@@ -127,7 +127,7 @@ class MapCanvas(object):
         viewport setter for bounding box only
         - allows map_canvas.viewport = ((x1,y1),(x2,y2))
         """
-        self._viewport.BB = BB if BB is not None else self.viewport.BB
+        self._viewport.BB = BB if BB is not None else self.viewport
         self.rescale()
 
     def set_viewport(self, BB=None, center=None, width=None, height=None):
-- 
2.43.0


From a0235119178b39853508d6707dd711d313cbb3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:05 +0000
Subject: [PATCH 73/73] fix: an unknown color ramp is refused with a ValueError

---
 py_gnome/gnome/utilities/map_canvas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/map_canvas.py b/py_gnome/gnome/utilities/map_canvas.py
index 27591b1..5dd6a48 100644
--- a/py_gnome/gnome/utilities/map_canvas.py
+++ b/py_gnome/gnome/utilities/map_canvas.py
@@ -227,7 +227,7 @@ class MapCanvas(object):
                                             base_colorscheme=len(existing_colors))
         except KeyError:
             raise ValueError(f"Invalid color scheme: {color_scheme}. options are:\n"
-                             f"{self.AVAILABLE_COLORAMPS}"
+                             f"{AVAILABLE_COLORAMPS}"
                              )
 
 
-- 
2.43.0

