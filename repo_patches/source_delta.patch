From 9cb041268418fa63b57adbe2f9280342c9e4daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:22 +0000
Subject: [PATCH 01/43] fix: hops write each endpoint's own species codes

State.apply_event swapped raw state codes between the endpoints. State codes
are local to a site's species list, so hopping between sites with different
lists stored the wrong species (e.g. Na arriving on a [K, Na, X] site became
K). Take the new codes from the event's hop_state_codes instead, and announce
the same changes to external site-energy evaluators.
---
 kmcpy/event/hop.py          | 15 +++++++++++++++
 kmcpy/models/site_energy.py | 24 ++++++++++++++++++++----
 kmcpy/simulator/state.py    |  9 +++++----
 3 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/kmcpy/event/hop.py b/kmcpy/event/hop.py
index a5d2c18..6328648 100644
--- a/kmcpy/event/hop.py
+++ b/kmcpy/event/hop.py
@@ -89,6 +89,21 @@ def endpoint_direction_from_codes(
     return 0
 
 
+def hopped_endpoint_states(occupations: Any, event: Any) -> tuple[int, int] | None:
+    """Return the endpoint state codes after a hop, or None if no hop is possible.
+
+    State codes are local to a site, so the codes written by a hop must be taken
+    from the destination site's own species list, not from the other endpoint.
+    """
+    codes = getattr(event, "hop_state_codes", DEFAULT_HOP_STATE_CODES)
+    direction = event_direction(occupations, event)
+    if direction == 0 or INVALID_STATE in codes:
+        return None
+    if direction == 1:
+        return codes[2], codes[3]
+    return codes[0], codes[1]
+
+
 def _is_mobile_label(specie_label: str, mobile_ion_specie: str) -> bool:
     return str(specie_label) == str(mobile_ion_specie)
 
diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 59a27f6..cebfb3c 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -14,6 +14,7 @@ from typing import Any, Optional
 import numpy as np
 from monty.serialization import loadfn
 
+from kmcpy.event.hop import hopped_endpoint_states
 from kmcpy.models.base import BaseModel, MODEL_FILETYPE, require_model_type
 from kmcpy.structure.active_site_order import ActiveSiteOrder
 
@@ -310,21 +311,36 @@ class SiteEnergyModel(BaseModel):
         from_site, to_site = (int(site) for site in event.mobile_ion_indices)
         from_state = int(occupations[from_site])
         to_state = int(occupations[to_site])
+        new_from, new_to = self._other_endpoint_states(event, occupations)
         return self._mapped_changes(
             (
-                (from_site, from_state, to_state),
-                (to_site, to_state, from_state),
+                (from_site, from_state, new_from),
+                (to_site, to_state, new_to),
             )
         )
 
+    @staticmethod
+    def _other_endpoint_states(event, occupations) -> tuple[int, int]:
+        """Return the endpoint states on the other side of the event's hop."""
+        states = hopped_endpoint_states(occupations, event)
+        if states is not None:
+            return states
+        from_site, to_site = (int(site) for site in event.mobile_ion_indices)
+        from_state, to_state = int(occupations[from_site]), int(occupations[to_site])
+        if hasattr(event, "hop_state_codes"):
+            # The hop is impossible from these endpoint states: nothing changes.
+            return from_state, to_state
+        return to_state, from_state
+
     def _changes_from_post_state(self, event, occupations) -> list[MappedOccupationChange]:
         from_site, to_site = (int(site) for site in event.mobile_ion_indices)
         from_state = int(occupations[from_site])
         to_state = int(occupations[to_site])
+        old_from, old_to = self._other_endpoint_states(event, occupations)
         return self._mapped_changes(
             (
-                (from_site, to_state, from_state),
-                (to_site, from_state, to_state),
+                (from_site, old_from, from_state),
+                (to_site, old_to, to_state),
             )
         )
 
diff --git a/kmcpy/simulator/state.py b/kmcpy/simulator/state.py
index cb1f52f..5f89629 100644
--- a/kmcpy/simulator/state.py
+++ b/kmcpy/simulator/state.py
@@ -12,6 +12,7 @@ from monty.json import MSONable
 from monty.serialization import dumpfn, loadfn
 
 from ..event.base import Event
+from ..event.hop import hopped_endpoint_states
 
 logger = logging.getLogger(__name__)
 
@@ -147,10 +148,10 @@ class State(MSONable):
     def apply_event(self, event: Event, dt: float) -> None:
         """Apply one event transition and advance simulation counters."""
         from_site, to_site = event.mobile_ion_indices
-        self.occupations[from_site], self.occupations[to_site] = (
-            self.occupations[to_site],
-            self.occupations[from_site],
-        )
+        new_states = hopped_endpoint_states(self.occupations, event)
+        if new_states is None:
+            new_states = (self.occupations[to_site], self.occupations[from_site])
+        self.occupations[from_site], self.occupations[to_site] = new_states
         self.time += dt
         self.step += 1
 
-- 
2.43.0


From d92ff6fc58afb6918e9b74be32afc7641f809012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 02/43] fix: refresh all rates when local-barrier rules read
 non-local sites

Rules with sites="all" or an explicit site list depend on sites outside the
event's endpoints and local environment, which the event dependency matrix does
not cover, so hops elsewhere left stale rates behind.
---
 kmcpy/models/local_barrier_model.py | 8 ++++++++
 kmcpy/simulator/kmc.py              | 9 +++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/kmcpy/models/local_barrier_model.py b/kmcpy/models/local_barrier_model.py
index 58e1760..1589c09 100644
--- a/kmcpy/models/local_barrier_model.py
+++ b/kmcpy/models/local_barrier_model.py
@@ -840,6 +840,14 @@ class LocalBarrierModel(BaseModel):
         for rule in rules:
             self.add_rule(rule)
 
+    @property
+    def has_non_local_rules(self) -> bool:
+        """Whether any rule reads sites that need not belong to the event."""
+        return any(
+            rule.get("sites") == "all" or isinstance(rule.get("sites"), tuple)
+            for rule in self.rules
+        )
+
     def _selected_sites(
         self,
         sites: str | tuple[int, ...],
diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 99fc643..6ef9009 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -442,8 +442,13 @@ class KMC:
         # Find event index automatically from event library
         event_index = self.event_lib.events.index(event)
         
-        # Use EventLib to get dependent events
-        events_to_be_updated = self.event_lib.get_dependent_events(event_index)
+        if getattr(self.model, "has_non_local_rules", False) is True:
+            # The event dependency matrix only covers endpoint and
+            # local-environment sites, so any rate may have changed.
+            events_to_be_updated = range(len(self.event_lib))
+        else:
+            # Use EventLib to get dependent events
+            events_to_be_updated = self.event_lib.get_dependent_events(event_index)
         
         # Update probabilities for dependent events using configured model
         for e_index in events_to_be_updated:
-- 
2.43.0


From 7cbbbd839f145708ccc56603ee0f64a2575eba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:46 +0000
Subject: [PATCH 03/43] fix: match the mobile species exactly when counting its
 sites

Substring matching counted Fe sites as F sites (Co as C, ...), which made every
pass too long and shifted the default sampling interval.
---
 kmcpy/simulator/kmc.py     | 2 +-
 kmcpy/simulator/tracker.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 6ef9009..1e56b88 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -506,7 +506,7 @@ class KMC:
         pass_length = len([
             el.symbol
             for el in self.structure.species
-            if config.mobile_ion_specie in el.symbol
+            if el.symbol == config.mobile_ion_specie
         ])
         
         logger.info("============================================================")
diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 763ab09..06de3e6 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -127,7 +127,7 @@ class Tracker:
         """Initialize mobile ion tracking arrays."""
         if self.hop_state_lookup is None:
             self.n_mobile_ion_specie_site = len(
-                [el.symbol for el in self.structure.species if self.mobile_ion_specie in el.symbol]
+                [el.symbol for el in self.structure.species if el.symbol == self.mobile_ion_specie]
             )
             initial_active_occ = np.array(initial_occ[0 : self.n_mobile_ion_specie_site])
             mobile_state_mask = initial_active_occ == 0
-- 
2.43.0


From 16770fa8a53e14270176fa0f06d70db2d657d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:35 +0000
Subject: [PATCH 04/43] fix: track the true minimum-image hop vector in oblique
 cells

Rounding fractional differences does not give the nearest periodic image when
the cell is skewed, so displacements (and every transport property) of such
hops were too long.
---
 kmcpy/simulator/tracker.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 06de3e6..228db55 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -474,11 +474,33 @@ class Tracker:
     def _wrapped_hop_displacement(self, event, direction: int) -> np.ndarray:
         """Return the minimum-image Cartesian displacement for one accepted hop."""
         from_site, to_site = event.mobile_ion_indices
-        displacement_frac = direction * (
-            self.frac_coords[to_site] - self.frac_coords[from_site]
+        if from_site > to_site:
+            # Equally near images: a hop and its reverse must use the same one.
+            from_site, to_site, direction = to_site, from_site, -direction
+        displacement_frac = self.frac_coords[to_site] - self.frac_coords[from_site]
+        displacement_frac = displacement_frac - np.round(displacement_frac)
+        return direction * self._nearest_image_vector(displacement_frac)
+
+    def _nearest_image_vector(self, displacement_frac: np.ndarray) -> np.ndarray:
+        """Return the shortest Cartesian vector equivalent to a fractional one.
+
+        Rounding the fractional coordinates alone is not enough in oblique cells,
+        so search every image that can be shorter than the rounded vector.
+        """
+        wrapped = np.array(self.latt.get_cartesian_coords(displacement_frac))
+        reach = np.linalg.norm(wrapped) * np.linalg.norm(
+            np.linalg.inv(self.latt.matrix), axis=0
+        )
+        ranges = [np.arange(-n, n + 1) for n in np.floor(reach + 0.5).astype(int)]
+        images = np.stack(np.meshgrid(*ranges, indexing="ij"), axis=-1).reshape(-1, 3)
+        candidates = np.array(
+            self.latt.get_cartesian_coords(displacement_frac + images)
         )
-        displacement_frac -= np.round(displacement_frac).astype(int)
-        return np.array(self.latt.get_cartesian_coords(displacement_frac))
+        lengths = np.linalg.norm(candidates, axis=1)
+        nearest = int(np.argmin(lengths))
+        if lengths[nearest] < np.linalg.norm(wrapped) - 1e-8:
+            return candidates[nearest]
+        return wrapped
 
     def update_current_pass(self, current_pass: int) -> None:
         """Update current pass index used in logging/output."""
-- 
2.43.0


From ec6699ef5165d2ca722b8a59d95fda3951fc310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:35 +0000
Subject: [PATCH 05/43] fix: measure transport over the time since tracking
 began

A tracker created for a continued or reloaded state starts from zero
displacement but divided by the absolute simulation time.
---
 kmcpy/simulator/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 228db55..272072f 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -93,6 +93,8 @@ class Tracker:
         self.config = config
         self.structure = structure
         self.state = initial_state
+        # Displacements start at zero here, also when the state is a continued one.
+        self._tracking_start_time = float(initial_state.time)
         self.hop_state_lookup = hop_state_lookup
 
         self._initialize_mobile_ion_tracking(initial_state.occupations)
@@ -318,7 +320,7 @@ class Tracker:
         return compute_transport_properties(
             self.displacement,
             self.hop_counter,
-            sim_time=float(self.time),
+            sim_time=float(self.time) - self._tracking_start_time,
             dimension=self.dimension,
             n_mobile_ion_specie=self.n_mobile_ion_specie,
             elementary_hop_distance=self.elem_hop_distance,
-- 
2.43.0


From 7d7b59769d6617e3548171a2d1eb5ad7ac2e3522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:54 +0000
Subject: [PATCH 06/43] fix: keep periodic images of an excluded center site in
 local environments

---
 kmcpy/structure/local_lattice_structure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kmcpy/structure/local_lattice_structure.py b/kmcpy/structure/local_lattice_structure.py
index 5f5d260..bff817e 100644
--- a/kmcpy/structure/local_lattice_structure.py
+++ b/kmcpy/structure/local_lattice_structure.py
@@ -136,11 +136,11 @@ class LocalLatticeStructure(LatticeStructure):
         return list(dict.fromkeys(tokens))
 
     def _is_center_site(self, site_info) -> bool:
-        """Return whether a sphere result corresponds to the center site."""
+        """Return whether a sphere result is the center site itself.
+
+        Periodic images of the center site are ordinary neighbors.
+        """
         site = site_info[0]
-        site_index = site_info[2]
-        if self.center_index is not None and int(site_index) == int(self.center_index):
-            return True
         return (
             np.linalg.norm(site.coords - self.center_site.coords)
             <= self.local_site_order.center_match_tolerance
-- 
2.43.0


From c97b4145ea7d8b29a10fcfe07ebe1598bd896218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:21 +0000
Subject: [PATCH 07/43] fix: filter structures whose active sites are all
 vacant

---
 kmcpy/structure/active_site_order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 5dec1a0..12cf4ef 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -319,6 +319,8 @@ class ActiveSiteOrder(MSONable):
             kept_by_active_index[index]
             for index in sorted(kept_by_active_index)
         ]
+        if not active_sites:
+            return type(structure)(structure.lattice, [], [])
         active_structure = type(structure).from_sites(active_sites)
         active_structure.add_site_property(
             ACTIVE_SITE_PROPERTY, sorted(kept_by_active_index)
-- 
2.43.0


From daf441ba5f2f3605b5cf6b0c7f50fee72fd55074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:43 +0000
Subject: [PATCH 08/43] fix: find active sites of a complete structure by
 position, not list order

---
 kmcpy/structure/active_site_order.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 12cf4ef..5d21a7f 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -285,7 +285,10 @@ class ActiveSiteOrder(MSONable):
             return structure.copy()
 
         if len(structure) == self.original_site_count:
-            active_sites = [structure[index] for index in self.active_to_original]
+            positions = self._full_site_positions(structure)
+            active_sites = [
+                structure[positions[index]] for index in self.active_to_original
+            ]
             active_structure = type(structure).from_sites(active_sites)
             active_structure.add_site_property(
                 ACTIVE_SITE_PROPERTY, list(range(self.active_site_count))
@@ -327,6 +330,24 @@ class ActiveSiteOrder(MSONable):
         )
         return active_structure
 
+    def _full_site_positions(self, structure: Structure) -> list[int]:
+        """Return where each full-template site is listed in a complete structure.
+
+        Sites are assigned to the nearest template site, so the atoms may come in
+        any order. Without an unambiguous assignment the template order is assumed.
+        """
+        identity = list(range(len(structure)))
+        if self.template_structure is None:
+            return identity
+        reference = self.full_structure_with_properties()
+        distances = reference.lattice.get_all_distances(
+            structure.frac_coords, reference.frac_coords
+        )
+        nearest = [int(index) for index in np.argmin(distances, axis=1)]
+        if sorted(nearest) != identity:
+            return identity
+        return [int(index) for index in np.argsort(nearest)]
+
 
 def _normalize_supercell_shape(
     supercell_shape: Sequence[int] | None,
-- 
2.43.0


From 78b17964cf2df73cea2e8d5631165612107b782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 09/43] fix: reject negative site indices in local-barrier
 rules

---
 kmcpy/models/local_barrier_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/models/local_barrier_model.py b/kmcpy/models/local_barrier_model.py
index 1589c09..2f1dc6f 100644
--- a/kmcpy/models/local_barrier_model.py
+++ b/kmcpy/models/local_barrier_model.py
@@ -103,6 +103,8 @@ def _normalize_index_sequence(
     for value in values:
         if isinstance(value, bool) or not isinstance(value, int):
             raise TypeError(f"'{field_name}' must contain integers only")
+        if value < 0:
+            raise ValueError(f"'{field_name}' must contain nonnegative site indices")
         normalized.append(int(value))
     return tuple(normalized)
 
-- 
2.43.0


From 07910ff26159d5997a480f8682397f27b26ce184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:11 +0000
Subject: [PATCH 10/43] fix: write and read fitted parameters as YAML

---
 kmcpy/models/parameters.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 496dbc9..b486482 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -83,7 +83,7 @@ class LCEModelParameters(MSONable):
         filename = Path(filename)
         if filename.suffix == ".h5":
             return cls.from_dict(_read_hdf5_parameter_group(filename))
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_parameter_file(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted parameters to JSON/YAML or HDF5."""
@@ -91,7 +91,7 @@ class LCEModelParameters(MSONable):
         if filename.suffix == ".h5":
             _write_hdf5_parameter_group(filename, self.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_parameter_file(self.as_dict(), filename, indent=indent)
 
     def __str__(self) -> str:
         values = ", ".join(
@@ -149,7 +149,7 @@ class LCEModelParamHistory(MSONable):
                 for key in sorted(h5file.keys()):
                     records.append(_read_hdf5_group(h5file[key]))
             return cls.from_dict(records)
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_parameter_file(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted-parameter history to JSON/YAML or HDF5."""
@@ -164,7 +164,26 @@ class LCEModelParamHistory(MSONable):
                     group = h5file.create_group(f"parameter_set_{index}")
                     _write_hdf5_group(group, parameters.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_parameter_file(self.as_dict(), filename, indent=indent)
+
+
+def _is_yaml(filename: Path) -> bool:
+    return filename.suffix in {".yaml", ".yml"}
+
+
+def _load_parameter_file(filename: Path):
+    """Load a JSON/YAML payload without reconstructing Monty objects."""
+    if _is_yaml(filename):
+        return loadfn(filename)
+    return loadfn(filename, cls=None)
+
+
+def _dump_parameter_file(data: dict[str, Any], filename: Path, indent: int) -> None:
+    """Write a JSON/YAML payload; indentation only applies to JSON."""
+    if _is_yaml(filename):
+        dumpfn(data, filename)
+        return
+    dumpfn(data, filename, indent=indent)
 
 
 def _read_hdf5_parameter_group(filename: Path) -> dict[str, Any]:
-- 
2.43.0


From 6d170aca5e31fb3944f3c6fe5f83e13b77ab96e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:14 +0000
Subject: [PATCH 11/43] fix: keep local_site_order when saving fitted
 parameters

---
 kmcpy/models/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index b486482..6aed0b8 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -49,6 +49,8 @@ class LCEModelParameters(MSONable):
             data["orbit_fingerprints"] = self.orbit_fingerprints
         if self.local_environment_hash is not None:
             data["local_environment_hash"] = self.local_environment_hash
+        if self.local_site_order is not None:
+            data["local_site_order"] = self.local_site_order
         return data
 
     @classmethod
-- 
2.43.0


From accd1f33283d76e34406f881f64f2b40884338b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:28 +0000
Subject: [PATCH 12/43] fix: give every supercell site the species of its own
 template site

---
 kmcpy/structure/lattice_structure.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/kmcpy/structure/lattice_structure.py b/kmcpy/structure/lattice_structure.py
index a5f0c3b..6973b62 100644
--- a/kmcpy/structure/lattice_structure.py
+++ b/kmcpy/structure/lattice_structure.py
@@ -379,14 +379,21 @@ class LatticeStructure(ABC):
     
     def make_supercell(self, sc_matrix: np.ndarray):
         '''Create a supercell of the template structure'''
+        self.template_structure.add_site_property(
+            "_kmcpy_template_index",
+            list(range(len(self.template_structure))),
+        )
         self.template_structure.make_supercell(sc_matrix)
+        template_indices = self.template_structure.site_properties[
+            "_kmcpy_template_index"
+        ]
+        self.template_structure.remove_site_property("_kmcpy_template_index")
         # Update allowed_species accordingly
-        original_allowed_species = self.allowed_species.copy()
-        self.allowed_species = []
-        for i in range(sc_matrix[0,0]):
-            for j in range(sc_matrix[1,1]):
-                for k in range(sc_matrix[2,2]):
-                    self.allowed_species.extend(original_allowed_species)
+        original_allowed_species = self.allowed_species
+        self.allowed_species = [
+            original_allowed_species[int(template_index)]
+            for template_index in template_indices
+        ]
         if len(self.allowed_species) != len(self.template_structure):
             raise ValueError(f"After supercell, species length {len(self.allowed_species)} does not match template structure length {len(self.template_structure)}!")
         
-- 
2.43.0


From c2d0c49d9086b1fed5bd295af7f669b284adc190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:56 +0000
Subject: [PATCH 13/43] fix: reject supercell shapes that are not three
 positive integers

---
 kmcpy/simulator/config.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kmcpy/simulator/config.py b/kmcpy/simulator/config.py
index d9be365..f5ee6fa 100644
--- a/kmcpy/simulator/config.py
+++ b/kmcpy/simulator/config.py
@@ -176,6 +176,15 @@ class SystemConfig:
         
         if len(self.supercell_shape) != 3:
             raise ValueError("Supercell shape must have 3 components")
+        if any(
+            int(value) != value or value <= 0 for value in self.supercell_shape
+        ):
+            raise ValueError("Supercell shape must contain positive integers")
+        object.__setattr__(
+            self,
+            "supercell_shape",
+            tuple(int(value) for value in self.supercell_shape),
+        )
         
         # Temporarily disabled for testing
         # if not Path(self.structure_file).exists():
-- 
2.43.0


From 38632cd0ae3b708b13c5f713cf8dd128d44b1379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:26 +0000
Subject: [PATCH 14/43] fix: reject undefined occupation values before storing
 or truncating them

---
 kmcpy/structure/basis.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index cbf265c..bc77328 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -372,11 +372,13 @@ class Occupation:
         self._data = np.array(data, dtype=type(self._basis_obj.match_value))
         
         if validate:
-            self._validate()
+            # Check the values as given: the cast above truncates fractions.
+            self._validate(data)
     
-    def _validate(self):
+    def _validate(self, values=None):
         """Validate occupation values against the specified basis."""
-        invalid = set(self._data) - self._basis_obj.valid_values
+        values = self._data if values is None else np.asarray(values)
+        invalid = set(values.ravel().tolist()) - self._basis_obj.valid_values
         if invalid:
             raise ValueError(f"Invalid values {invalid} for {self._basis_name} basis. "
                            f"Must be in {self._basis_obj.valid_values}")
@@ -418,9 +420,9 @@ class Occupation:
     
     def __setitem__(self, index: Union[int, slice], value: Union[int, List[int]]):
         """Set occupation value(s) at index."""
+        # Validate first so that a rejected value leaves the data unchanged.
+        self._validate(value)
         self._data[index] = value
-        if hasattr(self, '_validate'):  # Only validate if not in constructor
-            self._validate()
     
     def __iter__(self) -> Iterator[int]:
         """Iterate over occupation values."""
-- 
2.43.0


From 64cfc2571e550b18e3ba688e76dcd7aad75b2ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:26 +0000
Subject: [PATCH 15/43] fix: tell apart occupations that differ in states
 beyond the second

---
 kmcpy/structure/basis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index bc77328..ea0af7f 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -455,6 +455,10 @@ class Occupation:
         if not isinstance(other, Occupation):
             return False
         
+        if self._basis_obj.__class__ == other._basis_obj.__class__:
+            # Also distinguishes states that the occupation basis merges.
+            return np.array_equal(self._data, other._data)
+
         # Convert both to occupation basis for comparison
         self_occ = self.to_basis('occupation')
         other_occ = other.to_basis('occupation')
-- 
2.43.0


From 3705f15826cc37bf18a8239dd1d784527e3285e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:48 +0000
Subject: [PATCH 16/43] fix: write NumPy complex callback values to the
 property file

---
 kmcpy/simulator/results.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kmcpy/simulator/results.py b/kmcpy/simulator/results.py
index ad42f6a..55c809a 100644
--- a/kmcpy/simulator/results.py
+++ b/kmcpy/simulator/results.py
@@ -160,6 +160,10 @@ def _to_json_safe(value: Any) -> Any:
     if isinstance(value, (list, tuple)):
         return [_to_json_safe(v) for v in value]
 
+    if isinstance(value, np.complexfloating):
+        # jsanitize only makes Python complex numbers JSON-safe.
+        value = complex(value)
+
     try:
         return jsanitize(value)
     except TypeError:
-- 
2.43.0


From fa1025d5b18741be6385be790c61dac7bb1221ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:53 +0000
Subject: [PATCH 17/43] fix: external occupations can hold every value their
 state mapping declares

---
 kmcpy/models/site_energy.py | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index cebfb3c..090af8a 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -272,7 +272,8 @@ class SiteEnergyModel(BaseModel):
         ]
         dtype = _resolve_external_dtype(
             self.external_dtype,
-            mapped_values=mapped_values,
+            # Later hops may write any mapped value, not only the current ones.
+            mapped_values=mapped_values + self._declared_state_values(),
             fill_value=self.external_fill_value,
             initial_occupation=self.initial_occupation,
         )
@@ -294,6 +295,17 @@ class SiteEnergyModel(BaseModel):
             external[int(self._site_lookup[kmcpy_site])] = mapped_value
         return external
 
+    def _declared_state_values(self) -> list[Any]:
+        """Return every external value the state mappings can produce."""
+        lookups = [self._state_lookup, *(self._state_lookup_by_site or ())]
+        return [
+            value
+            for lookup in lookups
+            if lookup is not None
+            for value in lookup.values
+            if value is not _MISSING_STATE_VALUE
+        ]
+
     def _external_site(self, kmcpy_site: int) -> int:
         if self._site_lookup is None:
             raise RuntimeError("SiteEnergyModel has not been initialized")
@@ -814,16 +826,29 @@ def _resolve_external_dtype(
         return np.dtype(external_dtype)
     values = list(mapped_values)
     if initial_occupation is not None:
-        return initial_occupation.dtype
-    if values and all(isinstance(value, (int, np.integer)) for value in values):
+        if all(_dtype_holds(initial_occupation.dtype, value) for value in values):
+            return initial_occupation.dtype
+        values.extend(initial_occupation.tolist())
+    else:
+        values.append(fill_value)
+    if all(isinstance(value, (int, np.integer)) for value in values):
         return np.int64
-    if values and all(isinstance(value, (int, float, np.number)) for value in values):
+    if all(isinstance(value, (int, float, np.number)) for value in values):
         return float
-    if isinstance(fill_value, (int, np.integer)) and not values:
-        return np.int64
     return object
 
 
+def _dtype_holds(dtype: np.dtype, value: Any) -> bool:
+    """Return whether ``value`` can be stored with ``dtype`` without changing."""
+    if isinstance(value, str) and dtype.kind not in "UO":
+        return False
+    try:
+        stored = np.array([value], dtype=object).astype(dtype)[0]
+    except (TypeError, ValueError, OverflowError):
+        return False
+    return bool(stored == value)
+
+
 def _optional_array_copy(value):
     if value is None:
         return None
-- 
2.43.0


From 96a41f91d57847220d2d1fc8e64577aadb8500be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:53 +0000
Subject: [PATCH 18/43] fix: reject site mappings that merge two sites into one
 external site

---
 kmcpy/models/site_energy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 090af8a..42adbba 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -713,6 +713,8 @@ def _build_site_lookup(
 
     if np.any(lookup < 0):
         raise ValueError("External site indices must be nonnegative")
+    if len(np.unique(lookup)) != len(lookup):
+        raise ValueError("site_mapping maps two kMCpy sites to one external site")
     upper_bound = external_size
     if initial_occupation is not None:
         upper_bound = len(initial_occupation)
-- 
2.43.0


From ddfa6d400b8ff9f5da1c0014af74f555809d9531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:49 +0000
Subject: [PATCH 19/43] fix: check the mapped states of both hop directions
 before a simulation starts

---
 kmcpy/models/site_energy.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 42adbba..5b4eb18 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -14,7 +14,7 @@ from typing import Any, Optional
 import numpy as np
 from monty.serialization import loadfn
 
-from kmcpy.event.hop import hopped_endpoint_states
+from kmcpy.event.hop import INVALID_STATE, hopped_endpoint_states
 from kmcpy.models.base import BaseModel, MODEL_FILETYPE, require_model_type
 from kmcpy.structure.active_site_order import ActiveSiteOrder
 
@@ -385,12 +385,22 @@ class SiteEnergyModel(BaseModel):
         for event_index, event in enumerate(events):
             try:
                 self._changes_from_pre_state(event, occupations)
+                self._validate_hop_states(event)
             except (IndexError, KeyError, ValueError) as exc:
                 raise ValueError(
                     "SiteEnergyModel occupation mapping is incompatible "
                     f"with event {event_index}"
                 ) from exc
 
+    def _validate_hop_states(self, event) -> None:
+        """Check that both hop directions of an event have mapped states."""
+        codes = getattr(event, "hop_state_codes", None)
+        if codes is None or INVALID_STATE in codes:
+            return
+        from_site, to_site = event.mobile_ion_indices
+        for site, state in zip((from_site, to_site, from_site, to_site), codes):
+            self._external_value(site, state)
+
     def compute(self, event, simulation_state) -> float:
         """Return ``E_after_hop - E_before_hop`` in meV."""
         self._ensure_initialized(simulation_state)
-- 
2.43.0


From c02f6f11e7bb1151b93edd79bfb274317925043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:49 +0000
Subject: [PATCH 20/43] fix: fit data sets with a single correlation feature

---
 kmcpy/models/fitting/fitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kmcpy/models/fitting/fitter.py b/kmcpy/models/fitting/fitter.py
index a8346a3..eec020d 100644
--- a/kmcpy/models/fitting/fitter.py
+++ b/kmcpy/models/fitting/fitter.py
@@ -308,10 +308,10 @@ class LCEFitter(BaseFitter):
         import numpy as np
 
         logger.info("Loading E_KRA from %s ...", ekra_fname)
-        e_kra = np.loadtxt(ekra_fname)
-        weight = np.loadtxt(weight_fname)
+        e_kra = np.loadtxt(ekra_fname, ndmin=1)
+        weight = np.loadtxt(weight_fname, ndmin=1)
         weight_copy = copy(weight)
-        correlation_matrix = np.loadtxt(corr_fname)
+        correlation_matrix = np.loadtxt(corr_fname, ndmin=2)
 
         keci, empty_cluster, y_pred = self._fit_lasso_values(
             correlation_matrix=correlation_matrix,
-- 
2.43.0


From 242ff9b11b4bbc97c55c77e5ce1b40d385d1f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:43 +0000
Subject: [PATCH 21/43] fix: store fitted constants as plain numbers so YAML
 parameter files can be written

---
 kmcpy/models/fitting/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kmcpy/models/fitting/fitter.py b/kmcpy/models/fitting/fitter.py
index eec020d..5e6e22b 100644
--- a/kmcpy/models/fitting/fitter.py
+++ b/kmcpy/models/fitting/fitter.py
@@ -359,13 +359,13 @@ class LCEFitter(BaseFitter):
         time = now.strftime("%m/%d/%Y, %H:%M:%S")
         lce_model_params = LCEModelParameters(
             keci=keci.tolist(),
-            empty_cluster=empty_cluster,
+            empty_cluster=float(empty_cluster),
             cluster_site_indices=[],
             weight=weight_copy.tolist(),
             alpha=alpha,
             time_stamp=time_stamp,
             time=time,
-            rmse=rmse,
+            rmse=float(rmse),
             loocv=loocv,
             normalize=normalize,
             orbit_fingerprints=orbit_fingerprints,
-- 
2.43.0


From e800f6f06d0be952d01c61f6cfb649ee8a821bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:12 +0000
Subject: [PATCH 22/43] fix: build NEB endpoints with the vacancy state of each
 hop site

---
 kmcpy/structure/local_environment_enumerator.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index b4c66ea..10403a7 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -17,6 +17,7 @@ from kmcpy.structure.species import (
     is_vacancy_species,
     species_label,
     species_tokens,
+    vacancy_species,
 )
 
 
@@ -199,9 +200,17 @@ def generate_neb_endpoint_pair(
         raise ValueError("hop sites must have the same first allowed mobile species")
 
     initial_occupation = initial_occupation.copy()
-    initial_occupation[from_site] = active_lattice_structure.basis.match_value
-    initial_occupation[to_site] = active_lattice_structure.basis.mismatch_value
-    final_occupation = initial_occupation.flip([from_site, to_site])
+    final_occupation = initial_occupation.copy()
+    for occupation, occupied_site, empty_site in (
+        (initial_occupation, from_site, to_site),
+        (final_occupation, to_site, from_site),
+    ):
+        occupation[occupied_site] = _occupation_value_for_species(
+            active_lattice_structure, occupied_site, from_species
+        )
+        occupation[empty_site] = _occupation_value_for_species(
+            active_lattice_structure, empty_site, vacancy_species()
+        )
 
     initial, final = _ordered_endpoint_structures(
         lattice_structure,
-- 
2.43.0


From f2292965ab5cca388ff14f416e7c9feb8061b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:12 +0000
Subject: [PATCH 23/43] fix: enumerate environments in which every site is
 vacant

---
 kmcpy/structure/local_environment_enumerator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 10403a7..07738eb 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -683,6 +683,8 @@ def _structure_from_active_occupation(
         if _is_vacancy(species):
             continue
         sites.append(_periodic_site_from_site(template_site, species))
+    if not sites:
+        return Structure(full_structure.lattice, [], [])
     return Structure.from_sites(sites)
 
 
-- 
2.43.0


From bbae510731626230ab1f02220668602f60ca9594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:35 +0000
Subject: [PATCH 24/43] fix: enumerate a site once when several of its images
 are in the environment

---
 kmcpy/structure/local_environment_enumerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 07738eb..78ef133 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -412,7 +412,7 @@ def _resolve_variable_site_indices(
 ) -> tuple[int, ...]:
     local_sites = set(local_site_indices)
     if variable_site_indices is not None:
-        resolved = tuple(int(index) for index in variable_site_indices)
+        resolved = tuple(dict.fromkeys(int(index) for index in variable_site_indices))
         missing = [index for index in resolved if index not in local_sites]
         if missing:
             raise ValueError(
@@ -423,7 +423,8 @@ def _resolve_variable_site_indices(
         return resolved
 
     resolved_sites = []
-    for index in local_site_indices:
+    # Several periodic images of one site may lie within the cutoff.
+    for index in dict.fromkeys(local_site_indices):
         allowed = lattice_structure.allowed_species[index]
         if allowed is None or len(allowed) <= 1:
             continue
-- 
2.43.0


From d034cc7cad5b3cd973fa9872f24187b81db68f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:00 +0000
Subject: [PATCH 25/43] fix: accept species counts of zero when enumerating
 environments

---
 kmcpy/structure/local_environment_enumerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 78ef133..3f45641 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -778,7 +778,8 @@ def _matches_counts(
 ) -> bool:
     if species_counts is None:
         return True
-    return Counter(species_by_site.values()) == species_counts
+    # Comparing two Counters treats a listed count of zero like an absent species.
+    return Counter(species_by_site.values()) == Counter(species_counts)
 
 
 def _canonical_counts(species_counts: Mapping[Any, int] | None) -> dict[str, int] | None:
-- 
2.43.0


From 483e1fcf505bae677c09240e6faba52f37e7fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:13 +0000
Subject: [PATCH 26/43] fix: read CIF files in which two atom rows share one
 site

---
 kmcpy/io/cif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/io/cif.py b/kmcpy/io/cif.py
index 1bd2cd0..bce6f6c 100644
--- a/kmcpy/io/cif.py
+++ b/kmcpy/io/cif.py
@@ -141,7 +141,7 @@ class _LabeledCifParser(CifParser):
                     coord_to_species[match] += comp
                     # disordered magnetic not currently supported
                     coord_to_magmoms[match] = None
-                    coord_to_labels[coord] += data["_atom_site_label"][i]
+                    coord_to_labels[match] += data["_atom_site_label"][i]
 
         sum_occu = [
             sum(c.values())
-- 
2.43.0


From 771d3796b28bb23cdf528a905c1516b53d338d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:14 +0000
Subject: [PATCH 27/43] fix: refuse events whose local environment differs in
 size from the model's

---
 kmcpy/models/local_cluster_expansion.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kmcpy/models/local_cluster_expansion.py b/kmcpy/models/local_cluster_expansion.py
index 735fc6c..23d86f2 100644
--- a/kmcpy/models/local_cluster_expansion.py
+++ b/kmcpy/models/local_cluster_expansion.py
@@ -617,6 +617,15 @@ class LocalClusterExpansion(BaseModel):
         else:
             _calc_corr(corr, occupation, self.cluster_site_indices)
 
+    def _validate_event_local_environment(self, event: Event) -> None:
+        """Reject events whose local environment is not the model's own size."""
+        structure = getattr(self, "local_env_structure", None)
+        if structure is not None and len(event.local_env_indices) != len(structure):
+            raise ValueError(
+                f"Event local environment has {len(event.local_env_indices)} sites, "
+                f"but the LocalClusterExpansion was built for {len(structure)}."
+            )
+
     def compute(self, simulation_state:State, event:Event):
         """
         Compute the fitted scalar value for this event/local environment.
@@ -652,6 +661,8 @@ class LocalClusterExpansion(BaseModel):
         if event is None:
             raise ValueError("Event object is required for LocalClusterExpansion.compute() to determine local environment")
             
+        self._validate_event_local_environment(event)
+
         # Initialize correlation array using stored cluster_site_indices
         corr = np.empty(shape=len(self.cluster_site_indices))
         
-- 
2.43.0


From 8845649c80f704e17ef96e0d1fbae1916802a1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:56 +0000
Subject: [PATCH 28/43] fix: never simulate with missing or outdated event
 dependencies

A KMC object built on an event library without a dependency matrix (or with one
generated before further events were added) never refreshed the rates a hop
changed.
---
 kmcpy/event/base.py    | 2 ++
 kmcpy/simulator/kmc.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/kmcpy/event/base.py b/kmcpy/event/base.py
index a93822e..e281c40 100644
--- a/kmcpy/event/base.py
+++ b/kmcpy/event/base.py
@@ -167,6 +167,8 @@ class EventLib(ABC):
         """Add an event to the library and update site mappings."""
         event_index = len(self.events)
         self.events.append(event)
+        # Stored dependencies do not cover the new event.
+        self.event_dependencies = None
 
         # Update site to events mapping using active-site indices
         # mobile_ion_indices and local_env_indices
diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 1e56b88..6211d05 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -91,6 +91,9 @@ class KMC:
         
         # Store the event library (already loaded)
         self.event_lib = event_lib
+        if not self.event_lib.has_event_dependencies():
+            # Without dependencies no rate would ever be refreshed after a hop.
+            self.event_lib.generate_event_dependencies()
 
         # Store and apply precomputed hop-state metadata for fast direction checks.
         self.hop_state_lookup = hop_state_lookup
-- 
2.43.0


From ab5b31794c5e9dce9629d5cb53ba1ba92f3597e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:52 +0000
Subject: [PATCH 29/43] fix: local cluster expansion energies honour the basis
 value of each state

compute() evaluated the occupation basis on the raw species-state indices of
the simulation, in which 0 is the first species of a site and 1 the second.
The fitted features use the basis values of those states (1 and 0), so the
energies belonged to the configuration with both species exchanged.
---
 kmcpy/models/local_cluster_expansion.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/local_cluster_expansion.py b/kmcpy/models/local_cluster_expansion.py
index 23d86f2..89e1483 100644
--- a/kmcpy/models/local_cluster_expansion.py
+++ b/kmcpy/models/local_cluster_expansion.py
@@ -668,7 +668,12 @@ class LocalClusterExpansion(BaseModel):
         
         # Extract local occupation using event's local environment indices
         occ_sublat = deepcopy(occupations[list(event.local_env_indices)])
-            
+        if not getattr(self.basis, "uses_state_indices", False):
+            # The simulation state holds species-state indices.
+            occ_sublat = np.array(
+                [self.basis.state_value(state) for state in occ_sublat]
+            )
+
         self._calculate_correlation(corr, occ_sublat)
         
         # Compute energy using stored parameters
-- 
2.43.0


From b62592c06e99e322104af9955191a66a45b922c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:52 +0000
Subject: [PATCH 30/43] fix: event generation recognises every vacancy name of
 a site mapping

The mobile species are inferred from mapping entries with a vacancy state, but
'Va' and 'VA', vacancy names everywhere else, were not recognised: such entries
were refused, or silently left immobile next to an entry that uses 'X'.
---
 kmcpy/event/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/event/generators.py b/kmcpy/event/generators.py
index 0c93d2c..6af6f0d 100644
--- a/kmcpy/event/generators.py
+++ b/kmcpy/event/generators.py
@@ -85,7 +85,7 @@ class EventGenerator:
             allowed_tokens = {
                 token.upper() for token in cls._mapping_values(allowed_species)
             }
-            if "X" in allowed_tokens or "VACANCY" in allowed_tokens:
+            if not allowed_tokens.isdisjoint({"X", "VA", "VACANCY"}):
                 mobile_species.append(str(species))
         if not mobile_species:
             raise ValueError(
-- 
2.43.0


From 3647e86766af672f116848b1f9ff1bf10b5cfb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:24 +0000
Subject: [PATCH 31/43] fix: event generation numbers sites as the active-site
 order does

The primitive active sites were taken from a supercell round trip, which can
wrap a site on a cell boundary into the opposite image by rounding (common in
hexagonal cells). The supercell built from them then placed images differently
from the active-site order the events are stored for, so endpoint and
environment indices pointed to other sites.
---
 kmcpy/event/generators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kmcpy/event/generators.py b/kmcpy/event/generators.py
index 6af6f0d..648c219 100644
--- a/kmcpy/event/generators.py
+++ b/kmcpy/event/generators.py
@@ -393,8 +393,13 @@ class EventGenerator:
             site_mapping,
             supercell_shape=supercell_shape,
         )
+        # Use the template's own sites, as the event order does: a site on a cell
+        # boundary must not be wrapped into a neighboring image by rounding.
         primitive_cell = structure_from_sites(
-            primitive_active_site_order.active_structure().sites
+            [
+                full_primitive_cell[index]
+                for index in primitive_active_site_order.primitive_active_indices
+            ]
         )
 
         if local_env_cutoff_dict is None:
-- 
2.43.0


From 3147407be20bcca4e56bc7c95256d9ff747bcd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:06 +0000
Subject: [PATCH 32/43] fix: refuse model files whose feature names do not
 count the features

A model file without feature metadata (occupation basis) took over any stored
list of feature names whose length differs from the number of orbits, so names
of another model were accepted and coefficients of that length with them.
---
 kmcpy/models/local_cluster_expansion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kmcpy/models/local_cluster_expansion.py b/kmcpy/models/local_cluster_expansion.py
index 89e1483..e97cbd0 100644
--- a/kmcpy/models/local_cluster_expansion.py
+++ b/kmcpy/models/local_cluster_expansion.py
@@ -249,6 +249,9 @@ class LocalClusterExpansion(BaseModel):
                 not hasattr(obj, "correlation_fingerprints")
                 and stored_orbit_fingerprints is not None
                 and len(stored_orbit_fingerprints) != len(obj.orbits)
+                # One name per correlation feature; anything else is a mismatch.
+                and len(stored_orbit_fingerprints)
+                == len(getattr(obj, "cluster_site_indices", ()))
             ):
                 obj.correlation_fingerprints = [
                     str(value) for value in stored_orbit_fingerprints
-- 
2.43.0


From 637d927a347cd3c8321a1350b35fe8a686551acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:00 +0000
Subject: [PATCH 33/43] fix: constant features are not scaled by rounding noise
 in the fit

With normalize=True a feature that is constant over the (left-in) samples up to
rounding was divided by a norm of about 1e-16, which gave coefficients and
leave-one-out errors of the order of 1e17.
---
 kmcpy/models/fitting/fitter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/fitting/fitter.py b/kmcpy/models/fitting/fitter.py
index 5e6e22b..f743c6c 100644
--- a/kmcpy/models/fitting/fitter.py
+++ b/kmcpy/models/fitting/fitter.py
@@ -210,7 +210,10 @@ class LCEFitter(BaseFitter):
         # historical fitting workflow: center first, then divide each feature
         # by its unweighted L2 norm.
         x_scale = np.sqrt(np.sum(x_centered ** 2, axis=0))
-        x_scale[x_scale == 0.0] = 1.0
+        # A constant feature may differ from its mean by rounding; do not divide
+        # by that noise.
+        noise = 1e-12 * np.maximum(1.0, np.max(np.abs(x), axis=0))
+        x_scale[x_scale <= noise] = 1.0
         x_normalized = x_centered / x_scale
 
         estimator = Lasso(alpha=alpha, max_iter=max_iter, fit_intercept=False)
-- 
2.43.0


From d6988b1a96c21ec409de4437ac2f53c8b596d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:24 +0000
Subject: [PATCH 34/43] fix: a cluster without a recognisable point group no
 longer stops the model build

The point-group symbol is printed only, but pymatgen's analyzer raises for some
nearly linear clusters (its tolerance leaves no atom off the axis), so no local
cluster expansion could be built for such an environment.
---
 kmcpy/structure/cluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/cluster.py b/kmcpy/structure/cluster.py
index bba1410..0b7fd8e 100644
--- a/kmcpy/structure/cluster.py
+++ b/kmcpy/structure/cluster.py
@@ -260,7 +260,12 @@ class Cluster(MSONable):
         )
         self.sym = sym if sym is not None else ""
         if analyze_symmetry:
-            self.sym = self.point_group_symbol
+            try:
+                self.sym = self.point_group_symbol
+            except ValueError as exc:
+                # The symbol is descriptive only; pymatgen cannot classify some
+                # nearly linear clusters.
+                logger.warning("No point group for cluster %s: %s", site_indices, exc)
 
     @classmethod
     def from_sites(
-- 
2.43.0


From 3149ef0ff614d48b51397be569c78262162fa5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:12 +0000
Subject: [PATCH 35/43] fix: refuse structures of another cell when computing
 correlations

---
 kmcpy/models/local_cluster_expansion.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kmcpy/models/local_cluster_expansion.py b/kmcpy/models/local_cluster_expansion.py
index e97cbd0..c51d2da 100644
--- a/kmcpy/models/local_cluster_expansion.py
+++ b/kmcpy/models/local_cluster_expansion.py
@@ -434,6 +434,13 @@ class LocalClusterExpansion(BaseModel):
             tol=tol,
             angle_tol=angle_tol,
         )
+        if len(occ) != len(reference.allowed_species):
+            # A supercell has no unique counterpart of each local site.
+            raise ValueError(
+                "Structure must have the same cell as the reference local lattice: "
+                f"it has {len(occ)} sites, the reference has "
+                f"{len(reference.allowed_species)}."
+            )
         local_occ = occ[reference.site_indices]
         corr = np.empty(shape=len(self.cluster_site_indices))
         self._calculate_correlation(corr, local_occ.data)
-- 
2.43.0


From 77b1d94fdb7ecffd8c7dac1b544af55cfa0075a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:12 +0000
Subject: [PATCH 36/43] fix: rounding noise no longer decides the order of
 local-environment sites

---
 kmcpy/structure/local_site_order.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/local_site_order.py b/kmcpy/structure/local_site_order.py
index 8f28c41..7720593 100644
--- a/kmcpy/structure/local_site_order.py
+++ b/kmcpy/structure/local_site_order.py
@@ -133,6 +133,9 @@ class LocalSiteOrder(MSONable):
         return sorted(local_env_sites, key=lambda item: self._sort_key(item[0]))
 
     def _sort_key(self, site: Any) -> tuple[Any, ...]:
+        # Rounding noise must not decide between sites with the same coordinate:
+        # event environments and model environments have to agree on the order.
+        coords = [round(float(coord), 6) for coord in site.coords]
         values: list[Any] = []
         for key in self.sort_keys:
             if key == "species_string":
@@ -140,13 +143,15 @@ class LocalSiteOrder(MSONable):
             elif key == "species":
                 values.append(site.specie)
             elif key == "cartesian_x":
-                values.append(float(site.coords[0]))
+                values.append(coords[0])
             elif key == "cartesian_y":
-                values.append(float(site.coords[1]))
+                values.append(coords[1])
             elif key == "cartesian_z":
-                values.append(float(site.coords[2]))
+                values.append(coords[2])
             else:
                 raise ValueError(f"Unsupported local site order sort key: {key}")
+        if any(key.startswith("cartesian_") for key in self.sort_keys):
+            values.extend(coords)
         return tuple(values)
 
 
-- 
2.43.0


From c91319ff99348c248a9053e9ee09780f63afde01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:12 +0000
Subject: [PATCH 37/43] fix: enumerated environments keep periodic images of an
 excluded center, as models do

---
 kmcpy/structure/local_environment_enumerator.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 3f45641..50ff797 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -318,7 +318,6 @@ def _local_site_indices(
 
     if isinstance(center, int):
         center_site = structure[center]
-        center_index = center
     elif isinstance(center, (list, tuple, np.ndarray)):
         center_site = PeriodicSite(
             species=DummySpecies("X"),
@@ -326,7 +325,6 @@ def _local_site_indices(
             coords_are_cartesian=False,
             lattice=structure.lattice.copy(),
         )
-        center_index = None
     else:
         raise ValueError("Center must be an index or a list of fractional coordinates.")
 
@@ -347,7 +345,7 @@ def _local_site_indices(
         local_env_sites = [
             site_info
             for site_info in local_env_sites
-            if not _is_center_site(site_info, center_site, center_index, order)
+            if not _is_center_site(site_info, center_site, order)
         ]
     local_env_sites = order.sort_local_env_sites(local_env_sites)
     return tuple(int(site_info[2]) for site_info in local_env_sites)
@@ -356,13 +354,10 @@ def _local_site_indices(
 def _is_center_site(
     site_info,
     center_site: PeriodicSite,
-    center_index: int | None,
     order: LocalSiteOrder,
 ) -> bool:
+    """Return whether a sphere result is the center itself, not one of its images."""
     site = site_info[0]
-    site_index = site_info[2]
-    if center_index is not None and int(site_index) == int(center_index):
-        return True
     return np.linalg.norm(site.coords - center_site.coords) <= order.center_match_tolerance
 
 
-- 
2.43.0


From 10d292bbfabc65f10891469d2b572260f839d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:12 +0000
Subject: [PATCH 38/43] fix: structures with fixed sites are not taken for
 active-site structures

---
 kmcpy/structure/active_site_order.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 5d21a7f..be60657 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -281,6 +281,11 @@ class ActiveSiteOrder(MSONable):
         if (
             len(structure) == self.active_site_count
             and ACTIVE_SITE_PROPERTY in structure.site_properties
+            # Fixed sites carry a negative index: such a structure is not filtered yet.
+            and all(
+                index is not None and index >= 0
+                for index in structure.site_properties[ACTIVE_SITE_PROPERTY]
+            )
         ):
             return structure.copy()
 
-- 
2.43.0


From cf6833d37491fb222a0a8b267c03eedae79a5589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:49 +0000
Subject: [PATCH 39/43] fix: adding an entry to a second data set leaves the
 first one's row alone

---
 kmcpy/io/neb/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kmcpy/io/neb/data.py b/kmcpy/io/neb/data.py
index 20a8956..5ec54f3 100644
--- a/kmcpy/io/neb/data.py
+++ b/kmcpy/io/neb/data.py
@@ -11,7 +11,7 @@ import json
 from pathlib import Path
 import numpy as np
 from typing import Any, List, Dict, Optional, Sequence, TYPE_CHECKING
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 import logging
 from pymatgen.core import Structure
 from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
@@ -218,6 +218,10 @@ class NEBDataLoader:
             or self.reference_local_lattice_structure
         )
 
+        if neb_entry.correlation is not None:
+            # The entry may already be a row of a data set, which must not change.
+            neb_entry = replace(neb_entry)
+
         # Compute vectors
         neb_entry.compute_occ_corr(
             resolved_model,
-- 
2.43.0


From b566f9f29f93816464ed012e21b1e876b804828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:49 +0000
Subject: [PATCH 40/43] fix: refuse initial states a site does not define

---
 kmcpy/simulator/kmc.py               |  2 ++
 kmcpy/structure/active_site_order.py | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 6211d05..e229008 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -261,6 +261,8 @@ class KMC:
         else:
             raise ValueError("Initial occupations could not be determined.")
 
+        active_site_order.validate_states(simulation_state.occupations)
+
         return cls(
             structure=structure,
             model=model,
diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index be60657..dff4933 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -233,6 +233,18 @@ class ActiveSiteOrder(MSONable):
                 f"{field_name} contains indices outside the active-site range: {invalid}"
             )
 
+    def validate_states(self, states: Sequence[int]) -> None:
+        """Raise if an active site holds a state its site mapping does not define."""
+        for index, state in enumerate(states):
+            allowed = self.allowed_species_by_primitive_site[
+                int(self.active_to_primitive[index])
+            ]
+            if int(state) != state or not 0 <= state < len(allowed):
+                raise ValueError(
+                    f"State {state} of active site {index} is not defined: "
+                    f"allowed species are {list(allowed)}"
+                )
+
     def select_active_values(self, values: Sequence[Any]) -> list[Any]:
         """Return compact active-site values from active or full-supercell input."""
         values = list(values)
-- 
2.43.0


From 9675acbb39fcb1bb77337d0279c3defc840c2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:49 +0000
Subject: [PATCH 41/43] fix: cluster expansions refuse site states they have no
 basis values for

---
 kmcpy/models/local_cluster_expansion.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/local_cluster_expansion.py b/kmcpy/models/local_cluster_expansion.py
index c51d2da..5a31a4f 100644
--- a/kmcpy/models/local_cluster_expansion.py
+++ b/kmcpy/models/local_cluster_expansion.py
@@ -617,9 +617,11 @@ class LocalClusterExpansion(BaseModel):
             getattr(self, "correlation_basis_indices", None) is not None
             and getattr(self, "site_basis_values", None) is not None
         ):
+            states = occupation.astype(np.int64)
+            self._validate_site_states(states)
             _calc_corr_decorated(
                 corr,
-                occupation.astype(np.int64),
+                states,
                 self.cluster_site_indices,
                 self.correlation_basis_indices,
                 self.site_basis_values,
@@ -627,6 +629,18 @@ class LocalClusterExpansion(BaseModel):
         else:
             _calc_corr(corr, occupation, self.cluster_site_indices)
 
+    def _validate_site_states(self, states: np.ndarray) -> None:
+        """Reject state indices the model has no basis values for."""
+        state_counts = getattr(self, "basis_site_state_counts", None)
+        if state_counts is None or len(state_counts) != len(states):
+            state_counts = self.site_basis_values.shape[1]
+        if np.any(states < 0) or np.any(states >= np.asarray(state_counts)):
+            raise ValueError(
+                "Local environment holds a species state the LocalClusterExpansion "
+                f"does not define: states {states.tolist()}, state counts "
+                f"{np.asarray(state_counts).tolist()}."
+            )
+
     def _validate_event_local_environment(self, event: Event) -> None:
         """Reject events whose local environment is not the model's own size."""
         structure = getattr(self, "local_env_structure", None)
-- 
2.43.0


From 241101b97d0a3c2813723e6da8da57813c902cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:57 +0000
Subject: [PATCH 42/43] fix: let a callback be detached while it, or another
 one, is being sampled

Tracker.sample_properties looked up the record list of a callback after running
it, so a callback that detached itself (or one due later in the same step) ended
the run with a KeyError.
---
 kmcpy/simulator/tracker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 272072f..45edc34 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -382,7 +382,8 @@ class Tracker:
         self._sample_transport_summary(step=step, sim_time=sim_time)
 
         for spec in list(self._properties.values()):
-            if not spec.enabled:
+            # A callback that ran before may have detached or disabled this one.
+            if not spec.enabled or self._properties.get(spec.name) is not spec:
                 continue
 
             interval = spec.interval if spec.interval is not None else self._global_interval
@@ -409,7 +410,7 @@ class Tracker:
                 spec.last_trigger_time = sim_time
                 continue
 
-            if spec.store:
+            if spec.store and self._properties.get(spec.name) is spec:
                 append_record(
                     records=self._property_records[spec.name],
                     spec=spec,
-- 
2.43.0


From 6d5c3654b31dafc778efcf6e83fa3e5f4b7080da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:16 +0000
Subject: [PATCH 43/43] fix: refuse NaN temperatures, attempt frequencies and
 time intervals

---
 kmcpy/simulator/config.py   | 5 +++--
 kmcpy/simulator/property.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/kmcpy/simulator/config.py b/kmcpy/simulator/config.py
index f5ee6fa..caccb6f 100644
--- a/kmcpy/simulator/config.py
+++ b/kmcpy/simulator/config.py
@@ -237,10 +237,11 @@ class RuntimeConfig:
     
     def __post_init__(self):
         """Validate runtime fields."""
-        if self.temperature <= 0:
+        # Written so that NaN, which compares false to everything, is refused too.
+        if not self.temperature > 0:
             raise ValueError("Temperature must be positive")
         
-        if self.attempt_frequency <= 0:
+        if not self.attempt_frequency > 0:
             raise ValueError("Attempt frequency must be positive")
         
         if self.equilibration_passes < 0:
diff --git a/kmcpy/simulator/property.py b/kmcpy/simulator/property.py
index 4aee6b1..6a8f1f8 100644
--- a/kmcpy/simulator/property.py
+++ b/kmcpy/simulator/property.py
@@ -53,7 +53,7 @@ def validate_schedule(interval: Optional[int], time_interval: Optional[float]) -
         if interval <= 0:
             raise ValueError("interval must be a positive integer")
 
-    if time_interval is not None and time_interval <= 0:
+    if time_interval is not None and not time_interval > 0:
         raise ValueError("time_interval must be positive")
 
 
-- 
2.43.0

