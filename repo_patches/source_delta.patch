From 8263baa1e916573b95bed092141448cd988fc228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:24 +0000
Subject: [PATCH 01/28] fix: mixing valve no longer divides by zero when there
 is neither load nor recirc loss

---
 src/ecoengine/objects/dhwsystems/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/utils.py b/src/ecoengine/objects/dhwsystems/utils.py
index a47a94e..b86e99d 100644
--- a/src/ecoengine/objects/dhwsystems/utils.py
+++ b/src/ecoengine/objects/dhwsystems/utils.py
@@ -12,6 +12,9 @@ def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, co
         inlet_temp_f = cold_temp_f
     else:
         storage_draw_gal = (load_supplyT_gal + flow_returnT_gal) * ((supply_temp_f - return_temp_f) / (storage_temp_f - return_temp_f))
+        if storage_draw_gal <= 0.0:
+            # No load and no recirc loss: nothing leaves (or enters) storage.
+            return {'storage_draw_gal': 0.0, 'inlet_temp_f': cold_temp_f}
         recirc_to_tank_gal = storage_draw_gal - load_supplyT_gal
         inlet_temp_f = ((load_supplyT_gal * cold_temp_f) + (recirc_to_tank_gal * return_temp_f)) / storage_draw_gal
     return {
-- 
2.43.0


From fbd63d40271e0be294773a9035c83dd90ccce08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 02/28] fix: reject climate zones outside 1-96 instead of
 answering with another zone's weather

---
 src/ecoengine/objects/building/ClimateZone.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ecoengine/objects/building/ClimateZone.py b/src/ecoengine/objects/building/ClimateZone.py
index b4b3b33..74b73c9 100644
--- a/src/ecoengine/objects/building/ClimateZone.py
+++ b/src/ecoengine/objects/building/ClimateZone.py
@@ -143,7 +143,14 @@ class ClimateZone:
         Returns
         -------
         ClimateZone
+
+        Raises
+        ------
+        ValueError
+            If the zone is outside 1-96.
         """
+        if not 1 <= zone_id <= 96:
+            raise ValueError(f"Climate zone must be between 1 and 96, got {zone_id!r}.")
         oat_f_by_hour               = cls._load_oat_data(zone_id)
         inlet_water_temp_f_by_month = cls._load_inlet_water_data(zone_id)
         return cls(zone_id, oat_f_by_hour, inlet_water_temp_f_by_month)
-- 
2.43.0


From e3fe2057da030749a9c0d1ae15cb6aef948a3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:35 +0000
Subject: [PATCH 03/28] fix: reject negative, empty or wrong-length custom load
 shapes when no building type is given

---
 src/ecoengine/objects/building/Building.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/building/Building.py b/src/ecoengine/objects/building/Building.py
index 78c0116..e6f71c7 100644
--- a/src/ecoengine/objects/building/Building.py
+++ b/src/ecoengine/objects/building/Building.py
@@ -324,6 +324,8 @@ class Building:
                 )
             raw = list(custom_peak_ls)
             raw_sum = sum(raw)
+            if raw_sum <= 0:
+                raise ValueError("custom_peak_load_shape must have a positive sum.")
 
             if magnitude is None:
                 # derive magnitude from unnormalized shape sum
@@ -335,8 +337,8 @@ class Building:
                 if abs(raw_sum - 1.0) > 1e-3:
                     peak_ls = np.array([x / raw_sum for x in raw])
                 else:
-                    _validate_load_shape(raw, 'custom_peak_load_shape')
                     peak_ls = np.array(raw)
+            _validate_load_shape(list(peak_ls), 'custom_peak_load_shape')
 
             if custom_avg_ls is not None:
                 raw_avg     = list(custom_avg_ls)
-- 
2.43.0


From 58cb042a1cee0b5539597142aee5f4314894b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:20 +0000
Subject: [PATCH 04/28] fix: switching a building back from the annual load
 shape restores its own daily shapes

---
 src/ecoengine/objects/building/Building.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/building/Building.py b/src/ecoengine/objects/building/Building.py
index e6f71c7..f75c52e 100644
--- a/src/ecoengine/objects/building/Building.py
+++ b/src/ecoengine/objects/building/Building.py
@@ -109,6 +109,7 @@ class Building:
         self.daily_dhw_use_supplyT_gal = daily_dhw_use_supplyT_gal
         self.peak_load_shape = np.array(peak_load_shape)
         self.avg_load_shape  = np.array(avg_load_shape)
+        self._daily_load_shapes: tuple[np.ndarray, np.ndarray] | None = None
         self.utility_cost_tracker = utility_cost_tracker
         self.building_type = building_type
 
@@ -439,12 +440,16 @@ class Building:
             )
         data      = _load_shape_json('multi_family')
         annual_ls = np.array(data['loadshapes']['Annual_Normalized'])
+        if not self.is_annual_load_shape():
+            # remember the building's own daily shapes so they can be restored
+            self._daily_load_shapes = (self.peak_load_shape, self.avg_load_shape)
         self.peak_load_shape = annual_ls
         self.avg_load_shape  = annual_ls  # one shape for the whole year; no separate peak/avg
 
     def set_to_daily_load_shape(self) -> None:
         """
-        Switch back to the 24-hour daily load shapes (Stream / Stream_Avg).
+        Switch back to the 24-hour daily load shapes the building had before
+        set_to_annual_load_shape() (default: Stream / Stream_Avg).
 
         Only supported for multi_family buildings.
 
@@ -458,6 +463,9 @@ class Building:
                 "set_to_daily_load_shape() is only available for multi_family buildings. "
                 f"This building is type '{self.building_type}'."
             )
+        if self._daily_load_shapes is not None:
+            self.peak_load_shape, self.avg_load_shape = self._daily_load_shapes
+            return
         data = _load_shape_json('multi_family')
         self.peak_load_shape = np.array(data['loadshapes']['Stream'])
         self.avg_load_shape  = np.array(data['loadshapes']['Stream_Avg'])
-- 
2.43.0


From e187371ff2c89012417837753bc4499905734d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:54 +0000
Subject: [PATCH 05/28] fix: UtilityCostTracker.to_csv keeps hour-by-hour
 energy rates

---
 src/ecoengine/objects/building/UtilityCostTracker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index d008c95..612198a 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -679,6 +679,11 @@ class UtilityCostTracker:
                 else:
                     energy_rate = ""
                     demand_rate = ""
+                # Hour-by-hour rates (loaded from CSV) may differ within a period.
+                if len(self.energy_charge_by_hour) == 8760:
+                    hourly_rate = self.energy_charge_by_hour[h]
+                    if hourly_rate != self.energy_charge_map.get(period):
+                        energy_rate = hourly_rate
 
                 base_charge = self.monthly_base_charge if h == 0 else ""
                 writer.writerow([date_str, period, energy_rate, demand_rate, base_charge])
-- 
2.43.0


From 6c035952598840dffc957f569803dbf93850ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:27 +0000
Subject: [PATCH 06/28] fix: drawing from a stratified tank that is already
 below the floor temperature no longer warms it

---
 .../components/storage/StratifiedTank.py       | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ecoengine/objects/components/storage/StratifiedTank.py b/src/ecoengine/objects/components/storage/StratifiedTank.py
index e79021a..6e51197 100644
--- a/src/ecoengine/objects/components/storage/StratifiedTank.py
+++ b/src/ecoengine/objects/components/storage/StratifiedTank.py
@@ -163,6 +163,15 @@ class StratifiedTank(StorageTank):
         shift_pct_min = (t_floor - self._strat_inter) / self.strat_slope - 100.0
         return shift_pct_min * self.total_volume_gal / 100.0
 
+    def _shift_thermocline_up(self, gal: float, min_temp_f: float | None) -> None:
+        """
+        Move the thermocline up by ``gal``, but not past the point where the top
+        of the tank is at ``min_temp_f``. A tank already colder than that stays
+        where it is — drawing water never warms the tank.
+        """
+        floor_gal = min(self._delta_gal, self._delta_gal_floor(min_temp_f))
+        self._delta_gal = max(self._delta_gal - gal, floor_gal)
+
     def draw(
         self,
         volume_supplyT_gal: float,
@@ -219,8 +228,7 @@ class StratifiedTank(StorageTank):
         # If avg_temp ≈ outlet_temp_f the standard formula is exact.
         avg_temp = self.get_average_draw_temp_f(physical_vol)
         if avg_temp >= outlet_temp_f - 1e-6:
-            self._delta_gal -= physical_vol
-            self._delta_gal = max(self._delta_gal, self._delta_gal_floor(supply_temp_f))
+            self._shift_thermocline_up(physical_vol, supply_temp_f)
             return
 
         # Slow path: draw dips into the transition / cold zone.
@@ -243,8 +251,7 @@ class StratifiedTank(StorageTank):
             if hi - lo < 1e-6:
                 break
 
-        self._delta_gal -= min((lo + hi) * 0.5, self.total_volume_gal)
-        self._delta_gal = max(self._delta_gal, self._delta_gal_floor(supply_temp_f))
+        self._shift_thermocline_up(min((lo + hi) * 0.5, self.total_volume_gal), supply_temp_f)
 
     def heat(
         self,
@@ -409,8 +416,7 @@ class StratifiedTank(StorageTank):
         """
         self._inlet_temp_f = inlet_temp_f
         if gal > 0.0:
-            self._delta_gal -= gal
-            self._delta_gal = max(self._delta_gal, self._delta_gal_floor(supply_temp_f))
+            self._shift_thermocline_up(gal, supply_temp_f)
 
     # ------------------------------------------------------------------
     # Sizing support
-- 
2.43.0


From 182411fb2d701b6dbc2714a9e45bdb3382b2a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:15 +0000
Subject: [PATCH 07/28] fix: slug tank's average draw temperature accounts for
 the water displaced since the slug formed

---
 .../objects/components/storage/SlugOverlayTank.py    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/components/storage/SlugOverlayTank.py b/src/ecoengine/objects/components/storage/SlugOverlayTank.py
index b96496f..147d45d 100644
--- a/src/ecoengine/objects/components/storage/SlugOverlayTank.py
+++ b/src/ecoengine/objects/components/storage/SlugOverlayTank.py
@@ -267,13 +267,21 @@ class SlugOverlayTank(EnergyTank):
         """
         if not self._slug_active:
             return super().get_average_draw_temp_f(draw_gal)
+        draw_gal = min(draw_gal, self.total_volume_gal)
+        if draw_gal <= 0.0:
+            return super().get_average_draw_temp_f(draw_gal)
+
         draw_gal_pct = draw_gal/self.total_volume_gal * 100.0
+        # The hot zone above the slug is the frozen profile displaced upward by
+        # the water that has entered the slug (see get_temperature_at_fraction).
+        top_pct = 100.0 - (self._slug_vol_gal - self._original_slug_vol_gal) / self.total_volume_gal * 100.0
         if 100.0 - draw_gal_pct >= self._slug_top_pct:
             # All draw above slug
-            return super().get_average_draw_temp_f(draw_gal)
+            return self._zone_average_temp_f(top_pct - draw_gal_pct, top_pct)
+
         non_slug_draw_pct = 100.0 - self._slug_top_pct
         slug_draw_pct = draw_gal_pct - non_slug_draw_pct
-        return ((super().get_average_draw_temp_f(self.total_volume_gal * (non_slug_draw_pct/100.0)) * non_slug_draw_pct) + (self._slug_temp_f * slug_draw_pct)) / draw_gal_pct
+        return (self._zone_average_temp_f(top_pct - non_slug_draw_pct, top_pct) * non_slug_draw_pct + self._slug_temp_f * slug_draw_pct) / draw_gal_pct
     
     def get_temperature_at_fraction(self, fract: float, verbose = False) -> float:
         """
-- 
2.43.0


From 764ace95ae90f1c02d837b0ec176f7c7d7ce2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:48 +0000
Subject: [PATCH 08/28] fix: keep temperature-maintenance series aligned with
 the timesteps when the heater is off

SimulationRun.record_timestep skipped None values, so a parallel-loop run (whose TM
heater reports no power while off) billed its power at the wrong hours.
---
 src/ecoengine/objects/simulation/SimulationRun.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 5c68b12..a20b895 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -146,11 +146,15 @@ class SimulationRun:
         self.heater_mode.append(mode)
         for node_idx, temp in enumerate(tank_temps_f):
             self.tank_temps_f[node_idx].append(temp)
-        if tm_tank_temp_f is not None:
+        # A system with a TM heater reports it every timestep; keep the TM series
+        # aligned with the timesteps even when one value is None (e.g. heater off).
+        if (
+            tm_tank_temp_f is not None
+            or tm_heater_output_kbtuh is not None
+            or tm_heater_input_kw is not None
+        ):
             self.tm_tank_temp_f.append(tm_tank_temp_f)
-        if tm_heater_output_kbtuh is not None:
             self.tm_heater_output_kbtuh.append(tm_heater_output_kbtuh)
-        if tm_heater_input_kw is not None:
             self.tm_heater_input_kw.append(tm_heater_input_kw)
 
     def check_outlet_deficit(self, top_tank_temp_f: float, supply_temp_f: float) -> bool:
-- 
2.43.0


From c3066848eed9bc3bb19e8e3e3ad18d24884e92f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:51 +0000
Subject: [PATCH 09/28] fix: peak demand and monthly cost/energy reports
 include temperature-maintenance power

get_total_energy_kwh, get_annual_utility_cost and the detailed breakdown already did, so
the monthly reports did not add up to the annual ones for systems with a TM heater.
---
 .../objects/simulation/SimulationRun.py       | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index a20b895..21b1197 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -273,14 +273,24 @@ class SimulationRun:
 
     def get_peak_demand_kw(self) -> float:
         """
-        Return peak instantaneous power draw observed during the simulation [kW].
+        Return peak instantaneous power draw observed during the simulation [kW],
+        primary and TM heaters together.
 
         Returns
         -------
         float
         """
-        non_none = [p for p in self.heater_power_in_kw if p is not None]
-        return max(non_none) if non_none else 0.0
+        return max(
+            (self._total_power_in_kw(i) for i in range(len(self.heater_power_in_kw))),
+            default=0.0,
+        )
+
+    def _total_power_in_kw(self, step: int) -> float:
+        """Primary plus TM electrical power at timestep *step* [kW] (None counts as 0)."""
+        kw = self.heater_power_in_kw[step] or 0.0
+        if step < len(self.tm_heater_input_kw):
+            kw += self.tm_heater_input_kw[step] or 0.0
+        return kw
 
     def get_summary(self) -> dict:
         """
@@ -603,8 +613,8 @@ class SimulationRun:
         energy_by_month = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
 
-        for i, kw_raw in enumerate(self.heater_power_in_kw):
-            kw   = kw_raw or 0.0
+        for i in range(len(self.heater_power_in_kw)):
+            kw   = self._total_power_in_kw(i)
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
             energy_by_month[_step_to_month(i, self.timestep_min)] += (
                 kw * hours_per_step * rate
@@ -700,7 +710,7 @@ class SimulationRun:
         for month_idx, days in enumerate(_DAYS_IN_MONTH):
             n_steps = days * steps_per_day
             monthly[month_idx] = sum(
-                (self.heater_power_in_kw[i] or 0.0) * hours_per_step
+                self._total_power_in_kw(i) * hours_per_step
                 for i in range(step, min(step + n_steps, len(self.heater_power_in_kw)))
             )
             step += n_steps
-- 
2.43.0


From bf492c70ae9bfe1b186273b7fac509e47674eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:08 +0000
Subject: [PATCH 10/28] fix: multi-pass RTP simulation reports the outdoor
 temperature as oat_f, not the tank top

---
 .../objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 60198e8..5c46c07 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -638,7 +638,7 @@ class MultiPassRTPSystem(RTPSystem):
             "usable_volume_supplyT_gal": usable_vol_gal,
             "heater_output_kbtuh":       total_kbtuh,
             "heater_power_in_kw":        total_kw,
-            "oat_f":                     top_temp_f,
+            "oat_f":                     oat_f,
             "inlet_water_temp_f":        inlet_water_temp_f,
             "tank_temps_f":              tank_temps_f,
             "mode":                      mode,
-- 
2.43.0


From 1cfc9b2e195cb0e4f0e8ae34be57d25fcfeb3eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:13 +0000
Subject: [PATCH 11/28] fix: a simulation starts with all heaters off, so
 repeating it gives the same result

Tanks were re-initialised but heaters kept the on/off state left by the previous run (or by
multi-pass sizing), so a second run of the same system could differ from the first.
---
 src/ecoengine/interfaces/Simulator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecoengine/interfaces/Simulator.py b/src/ecoengine/interfaces/Simulator.py
index 0127b4c..81f02ce 100644
--- a/src/ecoengine/interfaces/Simulator.py
+++ b/src/ecoengine/interfaces/Simulator.py
@@ -76,6 +76,12 @@ def simulate(dhw_system: DHWSystem, building: Building, duration: str = "3day",
             percent_useable = 1.0,
         )
 
+    # Start every run with all heaters off, whatever ran on this system before
+    tm_water_heater = getattr(dhw_system, "tm_water_heater", None)
+    for wh in [*dhw_system.water_heaters, tm_water_heater]:
+        if wh is not None:
+            wh.turn_off()
+
     sim_run.supply_temp_f = dhw_system.supply_temp_f
     num_steps = duration_min // timestep_min
     for i in range(num_steps):
-- 
2.43.0


From 8560107bdb0721819cfb0fa3c827493401023162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:45 +0000
Subject: [PATCH 12/28] fix: instantaneous heater is sized for the peak hour's
 rate, not 60 times it

The load-shape fraction times daily use is already gallons per hour; the sized capacity was
60 times the highest output the same system ever needs in simulation.
---
 src/ecoengine/objects/dhwsystems/InstantWHSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
index 5a0bdf6..4d15890 100644
--- a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
+++ b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
@@ -81,7 +81,7 @@ class InstantWHSystem(DHWSystem):
         delta_t = self.supply_temp_f - design_inlet_temp_f
 
         # Peak instantaneous generation rate [gal/hr at supply temp]
-        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape)) * 60.0
+        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
 
         self._minimum_capacity_kbtuh       = peak_gph * _RHO_CP * delta_t / self.defrost_factor / 1000.0
         self._minimum_storage_storageT_gal = 0.0
-- 
2.43.0


From 87bd1c8c923ccaa31e70a7f72467b9dffa40c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:45 +0000
Subject: [PATCH 13/28] fix: mixing valve handles a storage tank at supply or
 make-up temperature instead of dividing by zero

---
 src/ecoengine/objects/dhwsystems/utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/utils.py b/src/ecoengine/objects/dhwsystems/utils.py
index b86e99d..a4e505a 100644
--- a/src/ecoengine/objects/dhwsystems/utils.py
+++ b/src/ecoengine/objects/dhwsystems/utils.py
@@ -4,7 +4,17 @@ from ecoengine.constants.constants import _RHO_CP
 def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, cold_temp_f : float, supply_temp_f : float, return_temp_f : float, storage_temp_f : float) -> dict:
     # For minute intervals, storage_temp_f is whatever temperature is at the top of the storage tank, set point storage temperature or not
     recirc_loss_btu = flow_returnT_gal * _RHO_CP * (supply_temp_f - return_temp_f)
-    critical_flow_gal = recirc_loss_btu / (_RHO_CP * (storage_temp_f - supply_temp_f))
+    if storage_temp_f <= cold_temp_f:
+        # Storage is as cold as the make-up water: the load passes through unheated.
+        return {'storage_draw_gal': load_supplyT_gal, 'inlet_temp_f': cold_temp_f}
+    if load_supplyT_gal <= 0.0 and recirc_loss_btu <= 0.0:
+        # No load and no recirc loss: nothing leaves (or enters) storage.
+        return {'storage_draw_gal': 0.0, 'inlet_temp_f': cold_temp_f}
+    if storage_temp_f != supply_temp_f:
+        critical_flow_gal = recirc_loss_btu / (_RHO_CP * (storage_temp_f - supply_temp_f))
+    else:
+        # Storage exactly at supply temperature: with any recirc loss the valve is fully open.
+        critical_flow_gal = float('inf') if recirc_loss_btu > 0.0 else 0.0
 
     if load_supplyT_gal > critical_flow_gal:
         storage_draw_gal = (load_supplyT_gal * ((supply_temp_f - cold_temp_f) / (storage_temp_f - cold_temp_f))) + \
@@ -12,9 +22,6 @@ def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, co
         inlet_temp_f = cold_temp_f
     else:
         storage_draw_gal = (load_supplyT_gal + flow_returnT_gal) * ((supply_temp_f - return_temp_f) / (storage_temp_f - return_temp_f))
-        if storage_draw_gal <= 0.0:
-            # No load and no recirc loss: nothing leaves (or enters) storage.
-            return {'storage_draw_gal': 0.0, 'inlet_temp_f': cold_temp_f}
         recirc_to_tank_gal = storage_draw_gal - load_supplyT_gal
         inlet_temp_f = ((load_supplyT_gal * cold_temp_f) + (recirc_to_tank_gal * return_temp_f)) / storage_draw_gal
     return {
-- 
2.43.0


From d7625af87a59e52cf5babc9a279defbbf952873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:18 +0000
Subject: [PATCH 14/28] fix: EcosizerEngine accepts integer zip codes, as
 documented

---
 src/ecoengine/interfaces/EcosizerEngine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index d6c7039..536756b 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -702,13 +702,15 @@ class EcosizerEngine:
             return ClimateZone.from_design_conditions(**czv)
         if isinstance(czv, str) and czv.isdigit() and len(czv) == 5:
             return ClimateZone.from_zip_code(czv)
+        if isinstance(czv, int) and 10000 <= czv <= 99999:
+            return ClimateZone.from_zip_code(czv)
         if isinstance(czv, int) and 1 <= czv <= 96:
             return ClimateZone.from_zone_id(czv)
         if isinstance(czv, str):
             return ClimateZone.from_weather_station(czv)
         raise ValueError(
             f"Cannot determine ClimateZone from {czv!r}. "
-            "Pass a 5-digit CA zip code string, a zone ID int (1–96), "
+            "Pass a 5-digit CA zip code, a zone ID int (1–96), "
             "a weather station name string, or a dict with 'design_oat_f' "
             "and/or 'design_inlet_water_temp_f'."
         )
-- 
2.43.0


From 8b6696a6401c567c5a8e1e2e277c968ab777edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:18 +0000
Subject: [PATCH 15/28] fix: EcosizerEngine attaches the utility cost tracker
 to its building

---
 src/ecoengine/interfaces/EcosizerEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 536756b..82a4e75 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -693,6 +693,7 @@ class EcosizerEngine:
             gpdpp                   = self.gpdpp,
             custom_peak_load_shape  = self.custom_peak_load_shape,
             custom_avg_load_shape   = self.custom_avg_load_shape,
+            utility_cost_tracker    = self.utility_cost_tracker,
         )
 
     def _build_climate_zone(self, ClimateZone):
-- 
2.43.0


From 792de2f6eff500306d2f133847b7d1c248d5624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:18 +0000
Subject: [PATCH 16/28] fix: sizing that fails puts the building's annual load
 shape back

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py                | 5 ++---
 .../objects/dhwsystems/recirc_systems/SwingSystem.py         | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 46e39f9..3736748 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -379,9 +379,8 @@ class DHWSystem:
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     def get_minimum_capacity_kbtuh(self) -> float:
         """
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 7b90b9a..4aed5c3 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -266,9 +266,8 @@ class SwingSystem(RecircSystem):
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     # ------------------------------------------------------------------
     # Sizing curve — override to enforce correct call order
-- 
2.43.0


From d9e378c5c0604556b26260ae1ce5f95d754dc139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:18 +0000
Subject: [PATCH 17/28] fix: single-pass RTP load-shift sizing restores the
 building's daily use exactly

---
 .../objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
index 401c001..2e06102 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
@@ -254,13 +254,14 @@ class SinglePassRTPSystem(RTPSystem):
             * 24.0
         )
 
+        original_daily_gal = building.daily_dhw_use_supplyT_gal
         building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
         try:
             result = super()._calc_gen_rate_ls_gph(
                 control_schedule, control_map, building, strat_slope, fract_total_vol
             )
         finally:
-            building.daily_dhw_use_supplyT_gal -= recirc_daily_supplyT_gal
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
         return result
 
     def _calc_running_volume_ls_supplyT_gal(
@@ -310,13 +311,14 @@ class SinglePassRTPSystem(RTPSystem):
             * 24.0
         )
 
+        original_daily_gal = building.daily_dhw_use_supplyT_gal
         building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
         try:
             result = super()._calc_running_volume_ls_supplyT_gal(
                 control_schedule, building, gen_rate_ls_gph, fract_total_vol
             )
         finally:
-            building.daily_dhw_use_supplyT_gal -= recirc_daily_supplyT_gal
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
         return result
 
     # ------------------------------------------------------------------
-- 
2.43.0


From 29f133ed1196fb851fb97b0829d8d4a135d23081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:43 +0000
Subject: [PATCH 18/28] fix: EcosizerEngine without gpdpp uses the building
 default, as documented

---
 src/ecoengine/interfaces/EcosizerEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 82a4e75..79a3d93 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -690,7 +690,7 @@ class EcosizerEngine:
             building_type           = self.building_type,
             magnitude               = self.magnitude,
             climate_zone            = zone,
-            gpdpp                   = self.gpdpp,
+            **({} if self.gpdpp is None else {"gpdpp": self.gpdpp}),
             custom_peak_load_shape  = self.custom_peak_load_shape,
             custom_avg_load_shape   = self.custom_avg_load_shape,
             utility_cost_tracker    = self.utility_cost_tracker,
-- 
2.43.0


From 03994cbf1c76dc181c1615d4499cfdcf4c7e608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:43 +0000
Subject: [PATCH 19/28] fix: a load-shift schedule without shed hours sizes as
 a normal schedule instead of crashing

---
 src/ecoengine/interfaces/EcosizerEngine.py                    | 2 +-
 src/ecoengine/objects/dhwsystems/DHWSystem.py                 | 4 ++--
 .../objects/dhwsystems/recirc_systems/SwingSystem.py          | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 79a3d93..2f834c6 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -735,7 +735,7 @@ class EcosizerEngine:
             outlet_temp_f    = self.storage_temp_f,
         )
 
-        if not self.load_shift_schedule:
+        if not self.load_shift_schedule or 0 not in self.load_shift_schedule:
             return ["normal"] * 24, {"normal": normal}
 
         # Build schedule from 24-element 0/1 list (0 = shed, 1 = run)
diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 3736748..f53e6e2 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -338,7 +338,7 @@ class DHWSystem:
         # effective maximum daily run time is capped at the number of non-shed
         # hours. Matches original: maxDayRun_hr = min(compRuntime_hr, sum(loadShiftSchedule)).
         original_max_run_hr = self.max_daily_run_hr
-        if control_schedule and self._is_load_shifting(control_map):
+        if control_schedule and "shed" in control_schedule and self._is_load_shifting(control_map):
             non_shed_hours_hr = float(sum(1 for h in control_schedule if h != "shed"))
             self.max_daily_run_hr = min(self.max_daily_run_hr, non_shed_hours_hr)
 
@@ -351,7 +351,7 @@ class DHWSystem:
                 running_vol_supplyT_gal, strat_factor
             )
 
-            if control_schedule and self._is_load_shifting(control_map):
+            if control_schedule and "shed" in control_schedule and self._is_load_shifting(control_map):
                 ls_capacity_kbtuh = self._calc_required_capacity_ls_kbtuh(
                     control_schedule, control_map, building, strat_slope,
                     fract_total_vol=load_shift_fract_total_vol,
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 4aed5c3..f450161 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -201,7 +201,7 @@ class SwingSystem(RecircSystem):
             building.set_to_daily_load_shape()
 
         original_max_run_hr = self.max_daily_run_hr
-        if control_schedule and self._is_load_shifting(control_map):
+        if control_schedule and "shed" in control_schedule and self._is_load_shifting(control_map):
             non_shed = float(sum(1 for h in control_schedule if h != "shed"))
             self.max_daily_run_hr = min(self.max_daily_run_hr, non_shed)
 
@@ -238,7 +238,7 @@ class SwingSystem(RecircSystem):
             # the physically correct answer — a smaller, better-matched system.
             capacity_kbtuh = self._calc_required_capacity(building)
 
-            if control_schedule and self._is_load_shifting(control_map):
+            if control_schedule and "shed" in control_schedule and self._is_load_shifting(control_map):
                 ls_gen_rate_gph = self._calc_gen_rate_ls_gph(
                     control_schedule, control_map, building, strat_slope,
                     fract_total_vol=load_shift_fract_total_vol,
-- 
2.43.0


From 595ca51880de228dbbeaa943f77cfc8c3c4b3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:03 +0000
Subject: [PATCH 20/28] fix: instantaneous, multi-pass and swing ER sizing
 ignore the building's annual load shape like the others

---
 src/ecoengine/objects/dhwsystems/InstantWHSystem.py | 12 ++++++++++--
 .../recirc_systems/SwingERTrdOffSystem.py           |  9 ++++++++-
 .../dhwsystems/rtp_systems/MultiPassRTPSystem.py    | 13 +++++++++++++
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
index 4d15890..d3abad5 100644
--- a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
+++ b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
@@ -80,8 +80,16 @@ class InstantWHSystem(DHWSystem):
         design_inlet_temp_f = self._require_design_inlet_temp(building)
         delta_t = self.supply_temp_f - design_inlet_temp_f
 
-        # Peak instantaneous generation rate [gal/hr at supply temp]
-        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
+        # Sizing is always performed on the 24-hour daily load shape.
+        was_annual = building.is_annual_load_shape()
+        if was_annual:
+            building.set_to_daily_load_shape()
+        try:
+            # Peak instantaneous generation rate [gal/hr at supply temp]
+            peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
+        finally:
+            if was_annual:
+                building.set_to_annual_load_shape()
 
         self._minimum_capacity_kbtuh       = peak_gph * _RHO_CP * delta_t / self.defrost_factor / 1000.0
         self._minimum_storage_storageT_gal = 0.0
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 2d21238..dc5ca7f 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -292,7 +292,14 @@ class SwingERTrdOffSystem(SwingSystem):
             strat_slope=strat_slope,
             load_shift_fract_total_vol=load_shift_fract_total_vol,
         )
-        self._size_er_element(building)
+        was_annual = building.is_annual_load_shape()
+        if was_annual:
+            building.set_to_daily_load_shape()
+        try:
+            self._size_er_element(building)
+        finally:
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     def _size_er_element(self, building: Building) -> None:
         """
diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 5c46c07..620d1ea 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -99,6 +99,19 @@ class MultiPassRTPSystem(RTPSystem):
         ValueError
             If any on_sensor_fract in control_map falls inside the unusable zone.
         """
+        # Sizing, including its trial days, is always done on the daily load shape.
+        if building.is_annual_load_shape():
+            building.set_to_daily_load_shape()
+            try:
+                return cls.from_size(
+                    building, supply_temp_f, storage_temp_f, return_temp_f, return_flow_gpm,
+                    max_daily_run_hr, defrost_factor, control_schedule, control_map,
+                    strat_slope, percent_useable,
+                    capacity_boost_trial_days, capacity_boost_iterations,
+                )
+            finally:
+                building.set_to_annual_load_shape()
+
         if control_map and percent_useable < 1.0:
             cold_fract = 1.0 - percent_useable
             for key, ctrl in control_map.items():
-- 
2.43.0


From 5cbcd1613a34f6e14405f741edb3fb20b449866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:03 +0000
Subject: [PATCH 21/28] fix: an electric-resistance trade-off curve that fails
 leaves the building and system as they were

---
 .../recirc_systems/SwingERTrdOffSystem.py     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index dc5ca7f..bc55350 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -593,10 +593,16 @@ class SwingERTrdOffSystem(SwingSystem):
                 self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
                 self._er_capacity_kbtuh            = None
                 self.er_safety_factor              = additional_er_safety
-                self._size_er_element(building)
-                self.er_safety_factor              = original_er_safety
-                total_tm_i = self._minimum_tm_capacity_kbtuh
-                er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
+                try:
+                    self._size_er_element(building)
+                    total_tm_i = self._minimum_tm_capacity_kbtuh
+                    er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
+                finally:
+                    # Restore mutated state
+                    building.daily_dhw_use_supplyT_gal = original_daily_gal
+                    self._minimum_tm_capacity_kbtuh    = original_total_tm
+                    self._er_capacity_kbtuh            = original_er_kbtuh
+                    self.er_safety_factor              = original_er_safety
 
             er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
             fract_covered.append(i)
@@ -605,11 +611,6 @@ class SwingERTrdOffSystem(SwingSystem):
             if not er_needed:
                 break  # no ER at this fraction; lower fractions won't need it either
 
-        # Restore mutated state
-        building.daily_dhw_use_supplyT_gal = original_daily_gal
-        self._minimum_tm_capacity_kbtuh    = original_total_tm
-        self._er_capacity_kbtuh            = original_er_kbtuh
-
         # Lists were built high-to-low; reverse so x is ascending
         fract_covered.reverse()
         er_cap_kw.reverse()
-- 
2.43.0


From 232698a13d4effdf93ddf5125a043cdb9f527820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 22/28] fix: electric-resistance sizing ignores the annual load
 shape on every path

---
 .../recirc_systems/SwingERTrdOffSystem.py       | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index bc55350..4fe72cd 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -292,14 +292,7 @@ class SwingERTrdOffSystem(SwingSystem):
             strat_slope=strat_slope,
             load_shift_fract_total_vol=load_shift_fract_total_vol,
         )
-        was_annual = building.is_annual_load_shape()
-        if was_annual:
-            building.set_to_daily_load_shape()
-        try:
-            self._size_er_element(building)
-        finally:
-            if was_annual:
-                building.set_to_annual_load_shape()
+        self._size_er_element(building)
 
     def _size_er_element(self, building: Building) -> None:
         """
@@ -337,6 +330,14 @@ class SwingERTrdOffSystem(SwingSystem):
         ----------
         building : Building
         """
+        # Sizing is always performed on the 24-hour daily load shape.
+        if building.is_annual_load_shape():
+            building.set_to_daily_load_shape()
+            try:
+                return self._size_er_element(building)
+            finally:
+                building.set_to_annual_load_shape()
+
         inlet_t_f = self._require_design_inlet_temp(building)
 
         # Primary HPWH capacity at design conditions.
-- 
2.43.0


From 1e6d1ff744ca1c98b08d90af55b2e301902e3a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 23/28] fix: swing sizing curves no longer depend on, or
 change, the mix left by earlier queries

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py        |  2 ++
 .../objects/dhwsystems/recirc_systems/SwingSystem.py | 12 +++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index f53e6e2..f4d92a5 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -597,6 +597,8 @@ class DHWSystem:
             # Pre-compute quantities that don't vary with fract_total_vol.
             cap_normal     = self._calc_required_capacity(building)
             run_vol_normal = self._calc_running_volume_supplyT_gal(building, cap_normal)
+            # The running volume may update what capacity depends on (swing tank mix).
+            cap_normal     = self._calc_required_capacity(building)
             strat_normal   = self._calc_stratification_factor(
                 control_map, _strat_slope, design_inlet
             )
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index f450161..a05f3a0 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -310,6 +310,7 @@ class SwingSystem(RecircSystem):
             storage_out:    list[float] = []
 
             original_run_hr = self.max_daily_run_hr
+            original_mix    = self._eff_mix_fraction
             try:
                 for h in heat_hours:
                     self.max_daily_run_hr = float(h)
@@ -328,7 +329,8 @@ class SwingSystem(RecircSystem):
                     capacity_out.append(cap)
                     storage_out.append(storage_vol)
             finally:
-                self.max_daily_run_hr = original_run_hr
+                self.max_daily_run_hr  = original_run_hr
+                self._eff_mix_fraction = original_mix
 
             rec_index = min(rec_index, max(0, len(heat_hours_out) - 1))
 
@@ -342,6 +344,14 @@ class SwingSystem(RecircSystem):
             if was_annual:
                 building.set_to_annual_load_shape()
 
+    def get_ls_sizing_curve(self, *args, **kwargs) -> dict:
+        """Leave ``_eff_mix_fraction`` as size() set it; see DHWSystem for the curve."""
+        original_mix = self._eff_mix_fraction
+        try:
+            return super().get_ls_sizing_curve(*args, **kwargs)
+        finally:
+            self._eff_mix_fraction = original_mix
+
     # ------------------------------------------------------------------
     # TM sizing
     # ------------------------------------------------------------------
-- 
2.43.0


From be9503ac02165c418280c8f92e4314c3084f3791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:43 +0000
Subject: [PATCH 24/28] fix: swing ER sizing curves use the element before the
 ER addition, so they agree with size()

---
 .../recirc_systems/SwingERTrdOffSystem.py       | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 4fe72cd..acc65ed 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -294,6 +294,23 @@ class SwingERTrdOffSystem(SwingSystem):
         )
         self._size_er_element(building)
 
+    def get_sizing_curve(self, *args, **kwargs) -> dict:
+        """Primary sizing curve; like size(), it sees the TM element before the ER addition."""
+        return self._without_er(super().get_sizing_curve, *args, **kwargs)
+
+    def get_ls_sizing_curve(self, *args, **kwargs) -> dict:
+        """Load-shift curve; like size(), it sees the TM element before the ER addition."""
+        return self._without_er(super().get_ls_sizing_curve, *args, **kwargs)
+
+    def _without_er(self, query, *args, **kwargs) -> dict:
+        total_tm_kbtuh = self._minimum_tm_capacity_kbtuh
+        if self._er_capacity_kbtuh:
+            self._minimum_tm_capacity_kbtuh = total_tm_kbtuh - self._er_capacity_kbtuh
+        try:
+            return query(*args, **kwargs)
+        finally:
+            self._minimum_tm_capacity_kbtuh = total_tm_kbtuh
+
     def _size_er_element(self, building: Building) -> None:
         """
         Determine additional ER capacity for the swing tank TM element by
-- 
2.43.0


From 94a2d48d22cd3d1aef0715222c2e72bcc7fc35d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:24 +0000
Subject: [PATCH 25/28] fix: assign each period's demand charge to the month of
 its peak in the monthly cost breakdowns

---
 .../objects/simulation/SimulationRun.py       | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 21b1197..d1f5ac7 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -612,6 +612,7 @@ class SimulationRun:
         hours_per_step  = self.timestep_min / 60.0
         energy_by_month = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        month_by_period: dict[int, int] = {}
 
         for i in range(len(self.heater_power_in_kw)):
             kw   = self._total_power_in_kw(i)
@@ -622,15 +623,13 @@ class SimulationRun:
             period = uc.get_demand_period_at_step(i, self.timestep_min)
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
+                month_by_period[period]  = _step_to_month(i, self.timestep_min)
 
-        # Assign each period's demand charge to its calendar month.
-        # Period key = month * num_periods + offset → month = key // num_periods.
-        num_periods     = 3 if uc.include_discount else 2
+        # Assign each period's demand charge to the calendar month of its peak.
+        # (Period labels of a CSV tariff do not encode the month.)
         demand_by_month = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                demand_by_month[m] += uc.get_demand_charge_for_period(period, max_kw)
+            demand_by_month[month_by_period[period]] += uc.get_demand_charge_for_period(period, max_kw)
 
         return {
             "energy": energy_by_month,
@@ -653,6 +652,7 @@ class SimulationRun:
         energy_peak         = [0.0] * 12
         energy_off_peak     = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        month_by_period: dict[int, int] = {}
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw = kw_raw or 0.0
@@ -668,18 +668,17 @@ class SimulationRun:
                 energy_off_peak[month] += cost
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
+                month_by_period[period]  = month
 
-        num_periods    = 3 if uc.include_discount else 2
         demand_peak    = [0.0] * 12
         demand_off_peak = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                charge = uc.get_demand_charge_for_period(period, max_kw)
-                if uc.is_peak_map.get(period, False):
-                    demand_peak[m] += charge
-                else:
-                    demand_off_peak[m] += charge
+            m      = month_by_period[period]
+            charge = uc.get_demand_charge_for_period(period, max_kw)
+            if uc.is_peak_map.get(period, False):
+                demand_peak[m] += charge
+            else:
+                demand_off_peak[m] += charge
 
         return {
             "energy_peak":     energy_peak,
-- 
2.43.0


From 429954fab93990a7f1f9e5e217986282cc24db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:23 +0000
Subject: [PATCH 26/28] fix: usable volume of stratified and energy tanks is
 zero above the hottest stored water

A supply temperature above the outlet/storage temperature extrapolated the
thermocline ramp past its cap, so a full tank at 150 F reported usable gallons
at 160 F.
---
 src/ecoengine/objects/components/storage/EnergyTank.py     | 3 +++
 src/ecoengine/objects/components/storage/StratifiedTank.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ecoengine/objects/components/storage/EnergyTank.py b/src/ecoengine/objects/components/storage/EnergyTank.py
index c0f6e13..e995663 100644
--- a/src/ecoengine/objects/components/storage/EnergyTank.py
+++ b/src/ecoengine/objects/components/storage/EnergyTank.py
@@ -183,6 +183,9 @@ class EnergyTank(StorageTank):
 
     def get_usable_volume_supplyT_gal(self, supply_temp_f: float) -> float:
         """Return gallons currently at or above ``supply_temp_f``."""
+        # No layer is hotter than storage temperature, whatever the ramp extrapolates to.
+        if supply_temp_f > self._storage_temp_f:
+            return 0.0
         shift_pct    = self._shift_pct_from_energy()
         x_supply_pct = (supply_temp_f - self._cold_temp_f) / self.strat_slope - shift_pct
         x_supply_pct = max(0.0, min(100.0, x_supply_pct))
diff --git a/src/ecoengine/objects/components/storage/StratifiedTank.py b/src/ecoengine/objects/components/storage/StratifiedTank.py
index 6e51197..7d4da02 100644
--- a/src/ecoengine/objects/components/storage/StratifiedTank.py
+++ b/src/ecoengine/objects/components/storage/StratifiedTank.py
@@ -132,6 +132,9 @@ class StratifiedTank(StorageTank):
         -------
         float
         """
+        # No layer is hotter than the outlet cap, whatever the ramp extrapolates to.
+        if supply_temp_f > self._outlet_temp_f:
+            return 0.0
         # Solve for x_pct where T = supply_temp_f (lower boundary of usable zone):
         #   strat_slope * (x_pct + shift_pct) + strat_inter = supply_temp_f
         #   x_pct = (supply_temp_f - strat_inter) / strat_slope - shift_pct
-- 
2.43.0


From c96cb17d38b02f9300e28dd5507e01e4d3df2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:27 +0000
Subject: [PATCH 27/28] fix: refuse tariffs with missing or impossible discount
 settings

---
 .../objects/building/UtilityCostTracker.py    | 44 +++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index 612198a..ffa5dc7 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -151,6 +151,45 @@ def _validate_params(
             raise ValueError("Error: final end_month must be 12.")
 
 
+def _validate_discount(
+    n: int,
+    dscnt_start_hour: list,
+    dscnt_end_hour: list,
+    discnt_demand_charge: list,
+    discnt_energy_charge: list,
+) -> None:
+    """
+    Validate list-normalised discount parameters of a tariff with *n* rate blocks.
+
+    A block's start and end hour may be None (no discount hours in that block).
+
+    Raises
+    ------
+    ValueError
+        If a list has the wrong length, a charge is not a number, or an hour
+        is neither None nor a number between 0 and 24.
+    """
+    if not (
+        len(dscnt_start_hour) == len(dscnt_end_hour)
+        == len(discnt_demand_charge) == len(discnt_energy_charge) == n
+    ):
+        raise ValueError(
+            "Error: dscnt_start_hour, dscnt_end_hour, discnt_demand_charge, and "
+            "discnt_energy_charge must be the same length as pk_start_hour."
+        )
+    for hour in dscnt_start_hour + dscnt_end_hour:
+        if hour is not None and (
+            not isinstance(hour, (int, float)) or hour < 0 or hour > 24
+        ):
+            raise ValueError("Error: discount hours must be numbers between 0 and 24.")
+    for charge in discnt_demand_charge:
+        if not isinstance(charge, (int, float)):
+            raise ValueError("Error: discount demand charge must be a number.")
+    for charge in discnt_energy_charge:
+        if not isinstance(charge, (int, float)):
+            raise ValueError("Error: discount energy charge must be a number.")
+
+
 def _fill_period_maps(
     demand_period_chart: list[int],
     demand_charge_map: dict[int, float],
@@ -384,6 +423,11 @@ class UtilityCostTracker:
             off_pk_demand_charge, off_pk_energy_charge,
             start_month, end_month,
         )
+        if include_discount:
+            _validate_discount(
+                n, dscnt_start_hour, dscnt_end_hour,
+                discnt_demand_charge, discnt_energy_charge,
+            )
 
         num_periods         = 3 if include_discount else 2
         demand_period_chart = [0] * 8760
-- 
2.43.0


From 21e8ba3c3d9033b4ab806b7848256eac5cbc2f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:22 +0000
Subject: [PATCH 28/28] fix: switching a building to its daily profile when it
 is already on it keeps the profile

---
 src/ecoengine/objects/building/Building.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoengine/objects/building/Building.py b/src/ecoengine/objects/building/Building.py
index f75c52e..59f0edf 100644
--- a/src/ecoengine/objects/building/Building.py
+++ b/src/ecoengine/objects/building/Building.py
@@ -463,6 +463,8 @@ class Building:
                 "set_to_daily_load_shape() is only available for multi_family buildings. "
                 f"This building is type '{self.building_type}'."
             )
+        if not self.is_annual_load_shape():
+            return  # already on its daily shapes
         if self._daily_load_shapes is not None:
             self.peak_load_shape, self.avg_load_shape = self._daily_load_shapes
             return
-- 
2.43.0

