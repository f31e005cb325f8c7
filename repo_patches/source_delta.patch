From aa8a6dfc4a4ca62017f51ad3e25244efec491a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 01/38] fix: Monte Carlo progress of multi-dimensional grids
 sums the task counts of the active sections

---
 hermespy/core/pymonte/actors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index f330fbe..b873d50 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -144,7 +144,7 @@ class MonteCarloQueueManager(object):
 
         return (
             (self.__num_grid_sections - self.__num_active_sections) * self.__num_samples
-            + np.sum(self.__grid_task_count[self.__active_section_coordinates])
+            + np.sum(self.__grid_task_count[tuple(self.__active_section_coordinates.T)])
         ) / self.__max_num_samples, self.__active_section_flags
 
 
-- 
2.43.0


From 050ab42eb18275bae2c521d8c0f256b87de282b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 02/38] fix: dispatch and collect Monte Carlo samples over the
 same dimension order the actors use

---
 hermespy/core/pymonte/monte_carlo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index bc61dc6..0126275 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -358,7 +358,7 @@ class MonteCarlo(Generic[MO]):
             remote_queue_manager_class = ray.remote(MonteCarloQueueManager)
             queue_manager = remote_queue_manager_class.options(
                 num_cpus=0, enable_task_events=self.__debug
-            ).remote(self.dimensions, self.num_samples)
+            ).remote(_dimensions, self.num_samples)
 
             # Initialize actor pool
             remote_actor_class = ray.remote(actor)
@@ -368,7 +368,7 @@ class MonteCarlo(Generic[MO]):
             remote_collector_class = ray.remote(MonteCarloCollector)
             collector = remote_collector_class.options(
                 num_cpus=0, max_concurrency=2, enable_task_events=self.__debug
-            ).remote(queue_manager, actors, self.dimensions, self.evaluators)
+            ).remote(queue_manager, actors, _dimensions, self.evaluators)
 
         # Initialize progress bar
         progress = Progress(
-- 
2.43.0


From efb105e46edf28df57c3ccfc48a0f7c2d76db88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 03/38] fix: Monte Carlo actors no longer drop results appended
 while being fetched

---
 hermespy/core/pymonte/actors.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index b873d50..9767f59 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -299,6 +299,7 @@ class MonteCarloActor(Generic[MO]):
         self.index = index
         self.__queue_manager = queue_manager
         self.__results = []
+        self.__results_lock = Lock()  # run and fetch_results are executed by concurrent threads
         self.catch_exceptions = catch_exceptions
         self.__investigated_object = investigated_object
         self.__grid = grid
@@ -352,7 +353,9 @@ class MonteCarloActor(Generic[MO]):
             result = self.__run_batch(batch)
 
             if len(result) > 0:
-                self.__results.append(put(result))
+                result_reference = put(result)
+                with self.__results_lock:
+                    self.__results.append(result_reference)
 
     def fetch_results(self) -> list[ObjectRef[list[MonteCarloSample]]]:
         """Fetch the results of the actor run.
@@ -360,9 +363,10 @@ class MonteCarloActor(Generic[MO]):
         Returns: list of results from the actor run.
         """
 
-        results = self.__results.copy()
-        self.__results.clear()  # Clear the results after fetching
-        return results
+        with self.__results_lock:
+            results = self.__results.copy()
+            self.__results.clear()  # Clear the results after fetching
+            return results
 
     def __run_batch(self, batch: list[tuple[int, ...]]) -> list[MonteCarloSample]:
         """Run the simulation actor.
-- 
2.43.0


From 0d621ef120c05f154b40998b5a22b12b0d21e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 04/38] fix: Monte Carlo collector processes every pending
 result exactly once when it is stopped

---
 hermespy/core/pymonte/actors.py | 44 ++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 9767f59..29df5b2 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 from abc import abstractmethod
+from threading import Lock
 from typing import Callable, Generic, Sequence
 
 import numpy as np
@@ -174,8 +175,9 @@ class MonteCarloCollector(object):
         self.__queue_manager = queue_manager
         self.__actors = actors
         self.__results = [e.initialize_result(grid) for e in evaluators]
-        self.__active = False
+        self.__active = True
         self.__future_map: dict[ObjectRef, MonteCarloActor] = {}
+        self.__lock = Lock()  # run and fetch_results are executed by concurrent threads
 
     def run(self) -> None:
         """Start up the collector, collecting samples from all actors.
@@ -183,19 +185,25 @@ class MonteCarloCollector(object):
         This method will block and keep running until :meth:`fetch_results` is called.
         """
 
-        self.__future_map = {a.fetch_results.remote(): a for a in self.__actors}  # type: ignore[attr-defined]
-        self.__active = True
+        while True:
+            with self.__lock:
+                # Abort if the results have been fetched already
+                if not self.__active:
+                    break
+
+                # Request the first result from each actor
+                if len(self.__future_map) < 1:
+                    self.__future_map = {a.fetch_results.remote(): a for a in self.__actors}  # type: ignore[attr-defined]
 
-        while self.__active:
-            # Wait for the next sample to be available
-            ready_future = wait(list(self.__future_map.keys()), num_returns=1)[0][0]
+                # Wait for the next sample to be available
+                ready_future = wait(list(self.__future_map.keys()), num_returns=1)[0][0]
 
-            # Process the samples received from the actor
-            self.__process_samples(ready_future, True)
+                # Process the samples received from the actor
+                actor = self.__future_map.pop(ready_future)
+                self.__process_samples(ready_future, True)
 
-            # Re-queue the request for the next result
-            actor = self.__future_map.pop(ready_future)
-            self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
+                # Re-queue the request for the next result
+                self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
 
     def __process_samples(
         self,
@@ -242,14 +250,16 @@ class MonteCarloCollector(object):
         # Stop the collector
         self.__active = False
 
-        # Process the last results within the queue
-        query_futures = list(self.__future_map.keys())
-        futures = wait(query_futures, num_returns=len(query_futures))[0]
+        with self.__lock:
+            # Process the pending requests and everything the actors computed since
+            futures = list(self.__future_map.keys())
+            self.__future_map = {}
+            futures.extend(a.fetch_results.remote() for a in self.__actors)  # type: ignore[attr-defined]
 
-        for future in futures:
-            self.__process_samples(future, False)
+            for future in futures:
+                self.__process_samples(future, False)
 
-        return self.__results
+            return self.__results
 
 
 class MonteCarloActor(Generic[MO]):
-- 
2.43.0


From 06f04444ee0a5a538c187ab235a4025b557f3b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 05/38] fix: Monte Carlo simulations await the actors instead
 of the dispatch before collecting results

---
 hermespy/core/pymonte/monte_carlo.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index 0126275..500e7bd 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -5,7 +5,7 @@ from collections.abc import Sequence
 from contextlib import nullcontext
 from logging import INFO, ERROR
 from os import path
-from time import perf_counter, sleep
+from time import perf_counter
 from typing import Generic, Type
 
 import numpy as np
@@ -382,8 +382,7 @@ class MonteCarlo(Generic[MO]):
         with Live(status_group, console=self.console) if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
             # Start running the actors
-            for a in actors:
-                _ = a.run.remote()  # type: ignore
+            run_futures = [a.run.remote() for a in actors]  # type: ignore
 
             # Start the collector
             _ = collector.run.remote()  # type: ignore
@@ -394,14 +393,18 @@ class MonteCarlo(Generic[MO]):
             num_pages = num_sections // max_num_entries_per_page + 1
             entries_per_page = num_sections // num_pages + 1
 
-            # Keep executing until all samples are computed
-            queue_progress: float = 0.0
-            while queue_progress < 1.0:
+            # Keep executing until all actors have computed all their samples
+            pending_futures = run_futures
+            while len(pending_futures) > 0:
 
                 page_index = page_counter % num_pages
                 page_counter += 1
 
-                sleep(self.__progress_log_interval)
+                _, pending_futures = ray.wait(
+                    run_futures,
+                    num_returns=len(run_futures),
+                    timeout=self.__progress_log_interval,
+                )
 
                 # Fetch a progress estimate from the queue manager
                 queue_progress, active_map = ray.get(queue_manager.query_progress.remote())  # type: ignore
@@ -464,6 +467,9 @@ class MonteCarlo(Generic[MO]):
                 elif self.__console_mode == ConsoleMode.LINEAR:
                     self.console.log(f"Progress: {100*queue_progress:.2f}%")
 
+            # Raise exceptions not caught by the actors
+            ray.get(run_futures)
+
             # Make the console pretty upon exit
             if self.__console_mode == ConsoleMode.INTERACTIVE:
                 progress.update(task1, completed=1.0)
-- 
2.43.0


From 84730a6d3b7d7e01e801b16914a902fe4855e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 06/38] fix: PAPR evaluations respect their configured minimum
 number of samples

---
 hermespy/core/evaluators.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/evaluators.py b/hermespy/core/evaluators.py
index 21c8b52..b226e34 100644
--- a/hermespy/core/evaluators.py
+++ b/hermespy/core/evaluators.py
@@ -465,7 +465,14 @@ class PAPR(ScalarEvaluator):
 
     @override
     def initialize_result(self, grid: Sequence[GridDimensionInfo]) -> ScalarEvaluationResult:
-        return ScalarEvaluationResult(grid, self, self.tolerance, self.confidence)
+        return ScalarEvaluationResult(
+            grid,
+            self,
+            self.tolerance,
+            self.confidence,
+            self.min_num_samples,
+            self.plot_surface,
+        )
 
     def __del__(self) -> None:
         if self.__output_hook is not None:
-- 
2.43.0


From 1bda2af4afb55ea9cc2d1160015832ac3a784375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 07/38] fix: rejected campaign names and changes leave scenario
 mode, counter and savefile untouched

---
 hermespy/core/scenario.py | 42 +++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 45de99d..8623c65 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -311,6 +311,24 @@ class Scenario(
 
         return num
 
+    @staticmethod
+    def __validate_campaign(value: str | None) -> None:
+        """Reject campaign names colliding with the internal structure of savefiles.
+
+        Args:
+
+            value: Requested campaign name.
+
+        Raises:
+
+            ValueError: If the campaign name is reserved.
+        """
+
+        if value in ("state", "drops", "arrays"):
+            raise ValueError(
+                f"The campaign name '{value}' is reserved for serialization purposes"
+            )
+
     @property
     def campaign(self) -> str:
         """Measurement campaign identifier.
@@ -329,23 +347,22 @@ class Scenario(
 
     @campaign.setter
     def campaign(self, value: str) -> None:
-        # For serialization compatibility, the campaign name 'state' is reserved
-        if value == "state":
-            raise ValueError("The campaign name 'state' is reserved for serialization purposes")
+        # For serialization compatibility, some campaign names are reserved
+        self.__validate_campaign(value)
 
         # Do nothing if value matches the current campaign
         if value == self.__campaign:
             return
 
-        # Setting the campaign will always reset the internal drop counter
-        self.__drop_counter = 0
-
-        # When in replay mode, changing the campaign changes the number of replayed drops
-        if self.mode == ScenarioMode.REPLAY:
+        # The file location of recorded and replayed drops is fixed when entering the mode
+        if self.mode != ScenarioMode.DEFAULT:
             raise NotImplementedError(
-                "Changing the campaign name during replay is currently not supported"
+                "Changing the campaign name during recording or replay is currently not supported"
             )
 
+        # Setting the campaign will always reset the internal drop counter
+        self.__drop_counter = 0
+
         # Update the campaign identifier
         self.__campaign = value
 
@@ -413,6 +430,9 @@ class Scenario(
                 "Initialize a recording is only possible in default mode. Please stop before starting a new recording."
             )
 
+        # Make sure the campaign name is valid before touching any file
+        self.__validate_campaign(campaign)
+
         # Check wether the specified file already exists within the filesystem
         file_exists = path.exists(file)
 
@@ -435,8 +455,8 @@ class Scenario(
         self.__mode = ScenarioMode.RECORD
         self.__drop_counter = 0
 
-        # Create the campaign if it doesn't exists
-        self.campaign = campaign
+        # Remember the recorded campaign
+        self.__campaign = campaign
 
     def replay(
         self,
-- 
2.43.0


From 1898c351533d199f09f859da65bd4c9287665648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 08/38] fix: scenario replay rejects negative drop offsets and
 closes rejected files

---
 hermespy/core/scenario.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 8623c65..539273d 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -506,8 +506,11 @@ class Scenario(
 
         # Get the overall number of drops
         num_available_drops = deserialization_process.sequence_length("drops")
-        if drop_offset >= num_available_drops:
-            raise ValueError("Drop offset is not smaller than the number of available drops")
+        if not 0 <= drop_offset < num_available_drops:
+            deserialization_process.finalize()
+            raise ValueError(
+                "Drop offset is negative or not smaller than the number of available drops"
+            )
 
         # Stop any action and close file handles if required
         self.stop()
-- 
2.43.0


From e4dc42e14edc236f59ce1fb4eed0830ae150074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 09/38] fix: recordings include drops generated at explicit
 timestamps and replay their channel realizations

---
 hermespy/core/scenario.py       | 16 +++++++++++++---
 hermespy/simulation/drop.py     |  2 +-
 hermespy/simulation/scenario.py |  5 ++++-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 539273d..945787f 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -870,12 +870,22 @@ class Scenario(
             drop = self._drop()
 
             # Serialize the drop to HDF if in record mode
-            if self.mode == ScenarioMode.RECORD:
-                self.__serialization_process.serialize_object_sequence([drop], "drops", True, True)
-                self.__drop_counter += 1
+            self._record_drop(drop)
 
         return drop
 
+    def _record_drop(self, drop: DropType) -> None:
+        """Serialize a generated drop if the scenario is in record mode.
+
+        Args:
+
+            drop: The generated drop.
+        """
+
+        if self.mode == ScenarioMode.RECORD:
+            self.__serialization_process.serialize_object_sequence([drop], "drops", True, True)
+            self.__drop_counter += 1
+
 
 ScenarioType = TypeVar("ScenarioType", bound="Scenario")
 """Type of scenario."""
diff --git a/hermespy/simulation/drop.py b/hermespy/simulation/drop.py
index 84750e5..7caa23e 100644
--- a/hermespy/simulation/drop.py
+++ b/hermespy/simulation/drop.py
@@ -59,7 +59,7 @@ class SimulatedDrop(Drop[SimulatedDeviceTransmission, SimulatedDeviceReception])
     def Deserialize(cls: Type[SimulatedDrop], process: DeserializationProcess) -> SimulatedDrop:
         drop = Drop.Deserialize(process)
         channel_realizations = process.deserialize_object_sequence(
-            "channel_realiations", ChannelRealization
+            "channel_realizations", ChannelRealization
         )
         return SimulatedDrop(
             drop.timestamp, drop.device_transmissions, channel_realizations, drop.device_receptions
diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index b7bd098..13789c4 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -742,7 +742,10 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         if timestamp is None:
             return Scenario.drop(self)
 
-        return self._drop(timestamp)
+        drop = self._drop(timestamp)
+        self._record_drop(drop)
+
+        return drop
 
     @overload
     def _drop(self, timestamps: float = 0.0) -> SimulatedDrop:
-- 
2.43.0


From 9f37a656c9ab79cf76ebb34c7064386c7c28d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 10/38] fix: multipath fading and delay channel realizations
 are restored from recordings

---
 hermespy/channel/__init__.py           |  9 ++++++++-
 hermespy/channel/delay/__init__.py     | 11 ++++++++---
 hermespy/channel/fading/correlation.py | 19 ++++++++++++++++++-
 hermespy/channel/fading/fading.py      |  9 +++++++--
 4 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/hermespy/channel/__init__.py b/hermespy/channel/__init__.py
index 747b77c..ac614ff 100644
--- a/hermespy/channel/__init__.py
+++ b/hermespy/channel/__init__.py
@@ -30,7 +30,12 @@ from .cdl import (
     UrbanMicrocells,
     UrbanMicrocellsRealization,
 )
-from .delay import SpatialDelayChannel, RandomDelayChannel
+from .delay import (
+    SpatialDelayChannel,
+    SpatialDelayChannelRealization,
+    RandomDelayChannel,
+    RandomDelayChannelRealization,
+)
 from .fading import (
     DeviceType,
     CorrelationType,
@@ -77,7 +82,9 @@ __all__ = [
     "CRT",
     "LinkState",
     "SpatialDelayChannel",
+    "SpatialDelayChannelRealization",
     "RandomDelayChannel",
+    "RandomDelayChannelRealization",
     "DeviceType",
     "CorrelationType",
     "StandardAntennaCorrelation",
diff --git a/hermespy/channel/delay/__init__.py b/hermespy/channel/delay/__init__.py
index d49a64e..3677259 100644
--- a/hermespy/channel/delay/__init__.py
+++ b/hermespy/channel/delay/__init__.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
-from .random import RandomDelayChannel
-from .spatial import SpatialDelayChannel
+from .random import RandomDelayChannel, RandomDelayChannelRealization
+from .spatial import SpatialDelayChannel, SpatialDelayChannelRealization
 
 __author__ = "Jan Adler"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
@@ -13,4 +13,9 @@ __email__ = "jan.adler@barkhauseninstitut.org"
 __status__ = "Prototype"
 
 
-__all__ = ["RandomDelayChannel", "SpatialDelayChannel"]
+__all__ = [
+    "RandomDelayChannel",
+    "RandomDelayChannelRealization",
+    "SpatialDelayChannel",
+    "SpatialDelayChannelRealization",
+]
diff --git a/hermespy/channel/fading/correlation.py b/hermespy/channel/fading/correlation.py
index e9b27cd..fc2f755 100644
--- a/hermespy/channel/fading/correlation.py
+++ b/hermespy/channel/fading/correlation.py
@@ -2,9 +2,17 @@
 
 from __future__ import annotations
 
+from typing_extensions import override
+
 import numpy as np
 
-from hermespy.core import AntennaArrayState, AntennaMode, SerializableEnum
+from hermespy.core import (
+    AntennaArrayState,
+    AntennaMode,
+    DeserializationProcess,
+    SerializableEnum,
+    SerializationProcess,
+)
 from .fading import AntennaCorrelation
 
 __author__ = "Tobias Kronauer"
@@ -104,3 +112,12 @@ class StandardAntennaCorrelation(AntennaCorrelation):
         raise RuntimeError(
             f"3GPP standard antenna covariance is only defined for 1, 2 and 4 antennas, device has {n} antennas"
         )
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_string(self.correlation.name, "correlation")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> StandardAntennaCorrelation:
+        return cls(process.deserialize_string("correlation"))
diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index befbf8a..25b9852 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -563,10 +563,15 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MultipathFadingRealization:
+        los_angles = process.deserialize_floating("los_angles_variable", None)
         return MultipathFadingRealization(
             process.deserialize_object("random_realization", ConsistentRealization),
             process.deserialize_object("antenna_correlation_variable", ConsistentUniform),
-            process.deserialize_object("los_angles_variable", ConsistentUniform),
+            (
+                los_angles
+                if los_angles is not None
+                else process.deserialize_object("los_angles_variable", ConsistentUniform)
+            ),
             process.deserialize_object("path_angles_variable", ConsistentUniform),
             process.deserialize_object("los_phases_variable", ConsistentUniform),
             process.deserialize_object("path_phases_variable", ConsistentUniform),
@@ -578,7 +583,7 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
             process.deserialize_floating("nlos_doppler"),
             process.deserialize_object("antenna_correlation", AntennaCorrelation, None),
             set(),
-            **Channel._DeserializeParameters(process),  # type: ignore[arg-type]
+            **ChannelRealization._DeserializeParameters(process),  # type: ignore[arg-type]
         )
 
 
-- 
2.43.0


From 295f63731bdfb18a75ac221c2f8f7efa6c0b1721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 11/38] fix: serialization never links to a different object
 reusing a released identity

---
 hermespy/core/factory.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index d1eb6e7..2662c06 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -840,16 +840,18 @@ class HDFSerializationProcess(SerializationProcess):
 
     __base_group: Group
     __group: Group
-    __arrays: MutableMapping[int, np.ndarray]
-    __objects: MutableMapping[int, str]  # Mapping of serialized objects to their HDF5 paths
+    # Mappings of identities to the serialized arrays / objects and their HDF5 paths
+    # References are kept since the identities of garbage collected objects may be reused
+    __arrays: MutableMapping[int, tuple[np.ndarray, str]]
+    __objects: MutableMapping[int, tuple[Serializable, str]]
 
     def __init__(
         self,
         tag_registry: Mapping[str, Type[Serializable]],
         base_group: Group,
         group: Group,
-        arrays: MutableMapping[int, np.ndarray],
-        objects: MutableMapping[int, str],
+        arrays: MutableMapping[int, tuple[np.ndarray, str]],
+        objects: MutableMapping[int, tuple[Serializable, str]],
     ) -> None:
         # Init base class
         SerializationProcess.__init__(self, tag_registry)
@@ -893,13 +895,13 @@ class HDFSerializationProcess(SerializationProcess):
 
         # If the array has already been serialized, just create a soft link to it
         if cache and uid in self.__arrays:
-            self.__group[name] = SoftLink(self.__arrays[uid])
+            self.__group[name] = SoftLink(self.__arrays[uid][1])
             return
 
         # Write the array to the group and record its exact location to the object cache
         new = self.__group.create_dataset(name, array.shape, array.dtype, array)
         if cache:
-            self.__arrays[uid] = new.name
+            self.__arrays[uid] = (array, new.name)
 
     @override
     def serialize_floating(self, value: float, name: str) -> None:
@@ -934,16 +936,16 @@ class HDFSerializationProcess(SerializationProcess):
         obj_key: int = id(obj)
 
         # If the object has already been serialized, just create a soft link to it
-        obj_path = self.__objects.get(obj_key, None)
-        if obj_path is not None:
-            self.__group[name] = SoftLink(obj_path)
+        cached_object = self.__objects.get(obj_key, None)
+        if cached_object is not None:
+            self.__group[name] = SoftLink(cached_object[1])
             return
 
         # Create a new group for the object
         new_group = self._create_group(self.__group, name)
 
         # Save the object's path for future reference
-        self.__objects[obj_key] = new_group.name
+        self.__objects[obj_key] = (obj, new_group.name)
 
         # Create a new serialization process
         process = HDFSerializationProcess(
-- 
2.43.0


From 48f712d9e6f328260cdd57a38a63d959cb9efac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 12/38] fix: simulated devices keep their antenna array when
 saved and loaded

---
 hermespy/core/antennas.py               | 4 ++--
 hermespy/simulation/simulated_device.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index cecea0e..86ce1ff 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1419,7 +1419,7 @@ class UniformArray(Generic[AT], AntennaArray[AT], Serializable):
     def Deserialize(cls, process: DeserializationProcess) -> UniformArray:
         pose = process.deserialize_array("pose", np.float64).view(Transformation)
         spacing = process.deserialize_floating("spacing")
-        dimensions = process.deserialize_array("dimensions", np.float64).flatten().tolist()
+        dimensions = process.deserialize_array("dimensions", np.int64).flatten().tolist()
         element = process.deserialize_object("element", Antenna)
         return cls(element, spacing, dimensions, pose)  # type: ignore[arg-type]
 
@@ -1479,7 +1479,7 @@ class CustomAntennaArray(Generic[AT], AntennaArray[AT], Serializable):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> CustomAntennaArray:
-        return CustomAntennaArray(
+        return cls(
             process.deserialize_object_sequence("antennas", Antenna),
             process.deserialize_array("pose", np.float64).view(Transformation),
         )
diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 40b4f87..0f67aae 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -2075,6 +2075,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         Device.serialize(self, process)
+        process.serialize_object(self.antennas, "antennas")
         process.serialize_object(self.rf, "rf")
         process.serialize_object(self.isolation, "isolation")
         process.serialize_object(self.coupling, "coupling")
-- 
2.43.0


From 0449b03a2e955f1e6476808a79f7ba2cced019e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 13/38] fix: radar realizations without targets, integer ranges
 and vector velocities survive serialization

---
 hermespy/channel/radar/single.py | 8 +++++---
 hermespy/core/factory.py         | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/hermespy/channel/radar/single.py b/hermespy/channel/radar/single.py
index 8432864..8624a2d 100644
--- a/hermespy/channel/radar/single.py
+++ b/hermespy/channel/radar/single.py
@@ -159,9 +159,11 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SingleTargetRadarChannelRealization:
         target_velocity = process.deserialize_array("target_velocity", np.float64).flatten()
-        _target_velocity: float | tuple[float, float]
+        _target_velocity: float | tuple[float, float] | np.ndarray
         if len(target_velocity) == 1:
             _target_velocity = float(target_velocity[0])
+        elif len(target_velocity) == 3:
+            _target_velocity = target_velocity
         else:
             _target_velocity = (float(target_velocity[0]), float(target_velocity[1]))
         return SingleTargetRadarChannelRealization(
@@ -171,7 +173,7 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
             process.deserialize_object("target_zenith_variable", ConsistentUniform),
             process.deserialize_object("target_velocity_variable", ConsistentUniform),
             process.deserialize_object("target_phase_variable", ConsistentUniform),
-            process.deserialize_range("target_range"),
+            process.deserialize_range("target_range", None),  # None indicates a missing target
             process.deserialize_range("target_azimuth"),
             process.deserialize_range("target_zenith"),
             process.deserialize_floating("target_cross_section"),
@@ -472,7 +474,7 @@ class SingleTargetRadarChannel(RadarChannelBase[SingleTargetRadarChannelRealizat
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SingleTargetRadarChannel:
         target_velocity: float | tuple[float, float] | np.ndarray
-        target_velocity = process.deserialize_array("target_velocity", np.float64)
+        target_velocity = process.deserialize_array("target_velocity", np.float64).flatten()
         if len(target_velocity) == 1:
             target_velocity = float(target_velocity[0])
         elif len(target_velocity) == 2:
diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index 2662c06..fd5d510 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -487,12 +487,12 @@ class SerializationProcess(ProcessBase):
             return
 
         # Serialize the range value
-        if isinstance(value, tuple):
+        if isinstance(value, (tuple, list)):
             self.serialize_floating(value[0], f"{name}_min")
             self.serialize_floating(value[1], f"{name}_max")
 
         # Serialize the scalar value
-        elif isinstance(value, (float, np.float64)):
+        elif isinstance(value, (int, float, np.integer, np.floating)):
             self.serialize_floating(value, name)
 
         else:
-- 
2.43.0


From 4ce24ae70da2b6802ac5524949e1b5d247a00dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 14/38] fix: the default channel stays available when an
 explicit link to it is replaced, active device channels are counted per link

---
 hermespy/channel/channel.py     |  1 +
 hermespy/simulation/scenario.py | 25 ++++++++++++-------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/hermespy/channel/channel.py b/hermespy/channel/channel.py
index d5e93c1..91bd01a 100644
--- a/hermespy/channel/channel.py
+++ b/hermespy/channel/channel.py
@@ -760,6 +760,7 @@ class Channel(ABC, RandomNode, Serializable, Generic[CRT, CST]):
         # Default parameters
         self.gain = gain
         self.__scenario = None
+        self.__last_realization = None
         self.__sample_hooks = set()
 
     @property
diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index 13789c4..5921347 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -299,17 +299,15 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         if device not in self.devices:
             raise ValueError("Provided device is not registered with this scenario")
 
-        device_channels: set[Channel] = set()
-        link_entries = 0
-        for linked_devices, channel in self.__links.items():
-            if device in linked_devices:
-                if not active_only or channel.gain > 0:
-                    device_channels.add(channel)
-                    link_entries += 1
-
-        # Append the default channel if required
-        if link_entries < self.num_devices:
-            device_channels.add(self.__default_channel)
+        # Collect the channels of all links originating in the device, including the self-link.
+        # Links without an explicitly assigned channel are served by the default channel.
+        device_channels = {
+            self.__links.get(frozenset((device, d)), self.__default_channel) for d in self.devices
+        }
+
+        # Drop inactive channels if requested
+        if active_only:
+            device_channels = {channel for channel in device_channels if channel.gain > 0}
 
         return device_channels
 
@@ -345,8 +343,9 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         self.__links[frozenset((alpha_device, beta_device))] = channel
 
         # Remove the old channel from the set of device channels and unique channel instances
-        # if it is not linked to any other device
-        if old_channel is not None:
+        # if it is not linked to any other device.
+        # The default channel always remains available for links without assignment.
+        if old_channel is not None and old_channel is not self.__default_channel:
             if old_channel not in self.__links.values():
                 self.__channels.remove(old_channel)
 
-- 
2.43.0


From 456d4729590abe4d300bfa84f973fa46d1e46b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:36 +0000
Subject: [PATCH 15/38] fix: superposition of signals aligns delays and stream
 selections without modifying its operands, sparse signals slice, append and
 measure power per stream

---
 hermespy/core/signal_model.py | 384 ++++++++++++++++++----------------
 1 file changed, 207 insertions(+), 177 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 9cc47e1..f8ecaa1 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -898,11 +898,12 @@ class Signal(ABC, Iterable, Serializable):
         if isinstance(samples, Sequence) and len(samples) != 1:
             return SparseSignal(samples, sampling_rate, carrier_frequency, noise_power, delay)
 
-        dense_delay = delay
-        dense_delay += offsets[0] / sampling_rate if offsets and len(offsets) > 0 else 0.0
+        block = samples[0] if isinstance(samples, Sequence) else samples
+        offset = offsets[0] if offsets and len(offsets) > 0 else getattr(block, "offset", 0)
+        dense_delay = delay + offset / sampling_rate
         return DenseSignal.FromNDArray(
             # For now, samples are cast to complex128 to avoid issues with deserialization
-            samples[0] if isinstance(samples, Sequence) else samples,
+            block,
             sampling_rate,
             carrier_frequency,
             noise_power,
@@ -1071,6 +1072,101 @@ class Signal(ABC, Iterable, Serializable):
         """
         ...  # pragma: no cover
 
+    def _align(
+        self,
+        added_signal: Signal,
+        resample: bool,
+        aliasing_filter: bool,
+        stream_indices: Sequence[int] | slice | None,
+        interpolation: InterpolationMode,
+    ) -> tuple[list[SignalBlock], np.ndarray]:
+        """Represent an added signal on the time grid of this signal.
+
+        Neither this signal nor the added signal are modified.
+
+        Args:
+            added_signal: The signal to be aligned.
+            resample: Allow for resampling.
+            aliasing_filter: Apply an anti-aliasing filter during resampling.
+            stream_indices:
+                Streams of this signal the added signal is assigned to.
+                If the added signal has as many streams as selected, they are assigned in order.
+                A single added stream is assigned to each selected stream.
+                Otherwise, the selected streams of the added signal are assigned.
+            interpolation: Interpolation strategy for differing delays.
+
+        Returns:
+            The aligned sample blocks, one row per selected stream, and the selected stream indices.
+
+        Raises:
+            RuntimeError: If resampling is required but not allowed.
+            NotImplementedError: For unsupported interpolations.
+            ValueError: If the selected streams do not exist.
+        """
+
+        # Resample the added signal, if required
+        blocks: Sequence[SignalBlock] = added_signal.blocks
+        if added_signal.sampling_rate != self.sampling_rate:
+            if not resample:
+                raise RuntimeError(
+                    "Resampling is required, but not allowed. "
+                    "Set resample=True to allow for resampling."
+                )
+            blocks = [
+                b.resample_block(added_signal.sampling_rate, self.sampling_rate, aliasing_filter)
+                for b in blocks
+            ]
+
+        # Account for the delay difference
+        if self.delay != added_signal.delay and interpolation is not InterpolationMode.NEAREST:
+            raise NotImplementedError(
+                f"Interpolation mode {interpolation} is not implemented yet."
+            )
+        num_shift = int(round((added_signal.delay - self.delay) * self.sampling_rate))
+
+        # Select the streams
+        num_added = added_signal.num_streams
+        if stream_indices is None:
+            targets = np.arange(max(self.num_streams, num_added) if num_added == 1 else num_added)
+        elif isinstance(stream_indices, slice):
+            targets = np.arange(self.num_streams)[stream_indices]
+        else:
+            targets = np.asarray(stream_indices, dtype=np.int64).flatten()
+        if num_added == targets.size:
+            sources = np.arange(num_added)
+        elif num_added == 1:
+            sources = np.zeros(targets.size, dtype=np.int64)
+        else:
+            sources = targets
+        if targets.size > 0 and (
+            targets.min() < 0
+            or sources.max() >= num_added
+            or (stream_indices is not None and targets.max() >= self.num_streams)
+        ):
+            raise ValueError(
+                f"Stream indices must be in the interval [0, {self.num_streams - 1}] and available in the added signal"
+            )
+
+        aligned_blocks: list[SignalBlock] = []
+        if targets.size > 0:
+            for block in blocks:
+                mixed_block = block.superimpose_to(
+                    self.sampling_rate,
+                    self.carrier_frequency,
+                    self.sampling_rate,
+                    added_signal.carrier_frequency,
+                )
+                offset = block.offset + num_shift
+                samples = mixed_block.view(np.ndarray)[sources, max(0, -offset) :]
+                if samples.shape[1] > 0:
+                    aligned_blocks.append(
+                        SignalBlock(
+                            samples.shape[0], samples.shape[1], max(0, offset), samples.tobytes()
+                        )
+                    )
+
+        return aligned_blocks, targets
+
     @abstractmethod
     def superimpose(
         self,
@@ -1092,7 +1188,9 @@ class Signal(ABC, Iterable, Serializable):
             added_signal: The signal to be superimposed onto this one.
             resample: Allow for dynamic resampling during superposition.
             aliasing_filter: Apply an anti-aliasing filter during mixing.
-            stream_indices: Indices of the streams to be mixed.
+            stream_indices:
+                Indices of this signal's streams `added_signal` is superimposed onto.
+                By default, the first streams of `added_signal` are superimposed onto the first streams of this signal.
             interpolation:
                 Interpolation strategy to be used for superimposed signals of different delays.
                 Required if the delays of this signal and `added_signal` differ and are not integer multiples of the sampling period.
@@ -1295,6 +1393,9 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
         dense_signal.noise_power = noise_power
         dense_signal.delay = delay
 
+        # Dense signals do not have an offset, leading samples are represented by the delay
+        dense_signal.offset = 0
+
         return dense_signal
 
     @property
@@ -1368,6 +1469,10 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
 
     @override
     def append_samples(self, value: Signal | np.ndarray) -> DenseSignal:
+        # Check if number of streams match
+        if self.num_streams != value.shape[0]:
+            raise ValueError("Number of streams do not match")
+
         # Resample the signal
         addedblocks_resampled: Sequence[SignalBlock]
         if isinstance(value, Signal):
@@ -1375,7 +1480,12 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
 
         else:
             addedblocks_resampled = [
-                SignalBlock(value.shape[0], value.shape[1], 0, value.tobytes())
+                SignalBlock(
+                    value.shape[0],
+                    value.shape[1],
+                    0,
+                    np.asarray(value, dtype=np.complex128).tobytes(),
+                )
             ]
 
         # Allocate new memory
@@ -1407,9 +1517,17 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
 
         else:
             addedblocks_resampled = [
-                SignalBlock(value.shape[0], value.shape[1], 0, value.tobytes())
+                SignalBlock(
+                    value.shape[0],
+                    value.shape[1],
+                    0,
+                    np.asarray(value, dtype=np.complex128).tobytes(),
+                )
             ]
 
+        if max(b.end for b in addedblocks_resampled) > self.num_samples:
+            raise ValueError("Appended streams contain more samples than the signal")
+
         # Allocate new memory
         new_num_streams = self.num_streams + max(b.num_streams for b in addedblocks_resampled)
         new_signal = DenseSignal.Zeros(
@@ -1451,87 +1569,38 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
         stream_indices: Sequence[int] | slice | None = None,
         interpolation: InterpolationMode = InterpolationMode.NEAREST,
     ) -> Signal:
-        if stream_indices is None:
-            stream_indices = slice(None)
-
-        # If this signal is empty, simply return the added signal
+        # An empty signal adopts the parameters of the added signal
         if self.size < 1:
-            return added_signal
-
-        # Resample the added signal to the target sampling rate
-        if added_signal.sampling_rate != self.sampling_rate:
-            if not resample:
-                raise RuntimeError(
-                    "Resampling is required, but not allowed. "
-                    "Set resample=True to allow for resampling."
-                )
-            _added_signal = added_signal.resample(
-                self.sampling_rate, aliasing_filter=aliasing_filter
+            reference = DenseSignal.Zeros(
+                self.num_streams,
+                0,
+                self.sampling_rate,
+                added_signal.carrier_frequency,
+                added_signal.noise_power,
+                added_signal.delay,
             )
-
-        # If no resampling is required, simply use the added signal
         else:
-            _added_signal = added_signal
-
-        # Account for possible delay differences
-        if self.delay != _added_signal.delay:
-            if interpolation == InterpolationMode.NEAREST:
-                if self.delay > _added_signal.delay:
-                    _added_signal = _added_signal[
-                        :,
-                        int(
-                            round((self.delay - _added_signal.delay) * _added_signal.sampling_rate)
-                        ) :,
-                    ]
-                else:
-                    _added_signal = _added_signal[
-                        :,
-                        : _added_signal.num_samples
-                        - int(
-                            round((_added_signal.delay - self.delay) * _added_signal.sampling_rate)
-                        ),
-                    ]
+            reference = self
 
-            else:
-                raise NotImplementedError(
-                    f"Interpolation mode {interpolation} is not implemented yet."
-                )
-
-        if (
-            _added_signal.num_streams <= self.num_streams
-            and _added_signal.num_samples <= self.num_samples
-        ):
-            return_signal = self
-
-        else:
-            # Generate a new dense signal with enough memory to hold both signals
-            new_num_streams = max(self.num_streams, _added_signal.num_streams)
-            new_num_samples = max(self.num_samples, _added_signal.num_samples)
-            dense_signal = DenseSignal.Zeros(
-                new_num_streams,
-                new_num_samples,
-                self.sampling_rate,
-                self.carrier_frequency,
-                self.noise_power,
-                self.delay,
-            )
+        added_blocks, streams = reference._align(
+            added_signal, resample, aliasing_filter, stream_indices, interpolation
+        )
 
-            # Add the current signal to the new dense signal
-            dense_signal[: self.num_streams, : self.num_samples] += self  # type: ignore
-            return_signal = dense_signal
-
-        # Add the added_signal to the new dense signal
-        _stream_indices = slice(None) if stream_indices is None else stream_indices
-        for b in _added_signal.blocks:
-            return_signal[_stream_indices, b.offset : b.end] += b[_stream_indices, :].superimpose_to(  # type: ignore
-                return_signal.sampling_rate,
-                return_signal.carrier_frequency,
-                _added_signal.sampling_rate,
-                _added_signal.carrier_frequency,
-            )
+        # Generate a new dense signal with enough memory to hold both signals
+        superimposed_signal = DenseSignal.Zeros(
+            max([reference.num_streams, *(streams + 1)]),
+            max([reference.num_samples, *(b.end for b in added_blocks)]),
+            reference.sampling_rate,
+            reference.carrier_frequency,
+            reference.noise_power,
+            reference.delay,
+        )
+        samples = superimposed_signal.view(np.ndarray)
+        samples[: reference.num_streams, : reference.num_samples] += reference.view(np.ndarray)
+        for b in added_blocks:
+            np.add.at(samples, (streams[:, None], np.arange(b.offset, b.end)), b.view(np.ndarray))
 
-        # Tadaaa
-        return return_signal
+        return superimposed_signal
 
     @override
     def to_dense(self) -> DenseSignal:
@@ -1715,12 +1784,12 @@ class SparseSignal(Signal):
     @property
     @override
     def energy(self) -> np.ndarray:
-        return np.sum([b.energy for b in self.blocks])
+        return np.sum([b.energy for b in self.blocks], axis=0)
 
     @property
     @override
     def power(self) -> np.ndarray:
-        return np.mean([b.power for b in self.blocks], axis=0)
+        return self.energy / self.num_samples
 
     @override
     def view(self, dtype: type[AT]) -> AT:
@@ -1760,15 +1829,13 @@ class SparseSignal(Signal):
         # Boundary dimensional cases
         if block.ndim == 1:  # a vector of a stream
             block = block.reshape((1, block.size))  # pragma: no cover
-        if block.shape[1] == 0 or len(block.nonzero()) == 0:  # an empty signal
-            return [SignalBlock(block.shape[0], block.shape[1], offset, block.tobytes())]
+        if block.shape[1] == 0 or not np.any(block.view(np.ndarray)):  # an empty signal
+            return [SignalBlock(block.shape[0], 0, offset)]
 
         # Find nonzero columns indices
-        nonzero_cols_idx = np.sum(block.view(np.ndarray), axis=0).nonzero()[
+        nonzero_cols_idx = np.any(block.view(np.ndarray), axis=0).nonzero()[
             0
         ]  # [3, 4, 5, 6, 12, 13, 14, 16, 17, ...]
-        if len(nonzero_cols_idx) == 0:
-            return []
         # Calculate nonzero windows offsets and stops
         nz_wins_idx = np.ediff1d(nonzero_cols_idx) - 1  # [0, 0, 0, 5, 0,  0,  1,  0,   ...]
         nz_wins_idx = np.array(nz_wins_idx.nonzero()) + 1  # [            4,          7,   ...]
@@ -2077,11 +2144,13 @@ class SparseSignal(Signal):
 
         # Handle the case in which samples are selcted by a slice, i.e. [..., a:b:c]
         if isinstance(sample_selector, slice):
-            samples_start: int = sample_selector.start if sample_selector.start is not None else 0
-            samples_end: int = (
-                sample_selector.stop if sample_selector.stop is not None else self.num_samples
-            )
-            samples_step: int = sample_selector.step if sample_selector.step is not None else 1
+            samples_start, samples_end, samples_step = sample_selector.indices(self.num_samples)
+            if samples_step < 1:
+                raise NotImplementedError("SparseSignal __getitem__ only supports positive steps")
+
+            # Never flatten the stream dimension
+            if isinstance(stream_selector, (int, np.integer)):
+                stream_selector = [stream_selector]
 
             for block in self.blocks:
 
@@ -2092,12 +2161,16 @@ class SparseSignal(Signal):
                 # Calculate the first index of the new block in the result
                 block_start_index = max(samples_start - block.offset, 0)
                 block_start_index += (
-                    block_start_index + block.offset - samples_start
+                    samples_start - block.offset - block_start_index
                 ) % samples_step
 
                 # Calculate the last index of the new block in the result
                 block_end_index = min(samples_end - block.offset, block.num_samples)
 
+                # Ignore blocks without a selected sample
+                if block_start_index >= block_end_index:
+                    continue
+
                 # Correctly slice the block
                 sliced_block_samples = block.view(np.ndarray)[
                     stream_selector, block_start_index:block_end_index:samples_step  # type: ignore
@@ -2153,6 +2226,11 @@ class SparseSignal(Signal):
                 self.delay,
             )
 
+        # Preserve the number of selected streams if no samples are selected
+        if len(selected_blocks) < 1:
+            num_selected_streams = np.empty((self.num_streams, 0))[stream_selector, :].shape[0]  # type: ignore
+            selected_blocks.append(SignalBlock(num_selected_streams, 0))
+
         # Allocate the result array
         return SparseSignal(
             selected_blocks,
@@ -2353,92 +2431,40 @@ class SparseSignal(Signal):
         stream_indices: Sequence[int] | None = None,
         interpolation: InterpolationMode = InterpolationMode.NEAREST,
     ) -> SparseSignal:
-        # Account for the delay difference (if any)
-
-        # If the superimposed signal's delay is smaller,
-        # cut its leading samples accordingly
-        added_blocks: Sequence[SignalBlock] = added_signal.blocks
-        if self.delay > added_signal.delay:
-            if interpolation is InterpolationMode.NEAREST:
-                added_signal_shift = int(
-                    round((self.delay - added_signal.delay) * added_signal.sampling_rate)
-                )
-                added_signal = added_signal[:, added_signal_shift:]
-
-                # Do nothing if the added signal is empty
-                if added_signal.num_samples == 0:
-                    return self
-
-                added_blocks = added_signal.blocks
-            else:
-                raise NotImplementedError("Only InterpolationMode.NEAREST is implemented")
-
-        # If the superimposed signal's delay is larger,
-        # shift its blocks accordingly
-        elif self.delay < added_signal.delay:
-            num_delay_samples = int(
-                round((added_signal.delay - self.delay) * added_signal.sampling_rate)
-            )
-            added_blocks = added_signal.blocks
-            if interpolation is InterpolationMode.NEAREST:
-                for b in added_blocks:
-                    b.offset += num_delay_samples
-
-            else:
-                raise NotImplementedError("Only InterpolationMode.NEAREST is implemented")
-
-        # Parse stream indices
-        num_streams = added_signal.num_streams if stream_indices is None else len(stream_indices)
-        _stream_indices: np.ndarray = (
-            np.arange(num_streams)
-            if stream_indices is None
-            else np.asarray(stream_indices, dtype=np.int64).flatten()
+        added_blocks, streams = self._align(
+            added_signal, resample, False, stream_indices, interpolation
         )
 
         # Abort if zero streams are selected
         # This case occurs frequently when devices transmit to devices without receiving antennas
-        if len(_stream_indices) < 1:
+        if len(streams) < 1:
             return self
 
         # Validate
-        if _stream_indices.max() >= self.num_streams:
+        if streams.max() >= self.num_streams:
             raise ValueError(f"Stream indices must be in the interval [0, {self.num_streams - 1}]")
 
-        if added_signal.sampling_rate != self.sampling_rate and not resample:
-            raise RuntimeError("Resampling required but not allowed")
-
-        # Generate superimposed signal blocks
-        added_resampled_blocks = [
-            b.resample_block(added_signal.sampling_rate, self.sampling_rate, False).superimpose_to(
-                self.sampling_rate,
-                self.carrier_frequency,
-                self.sampling_rate,
-                added_signal.carrier_frequency,
-            )
-            for b in added_blocks
-        ]
-
         # Create new blocks for the signals' intersections
         # and insert the mix results there
-        b_offs, b_stops = self._getblocks_union(self.blocks, added_resampled_blocks)
+        b_offs, b_stops = self._getblocks_union(self.blocks, added_blocks)
         unified_blocks: list[SignalBlock] = []
         for w_off, w_stop in zip(b_offs, b_stops):
             w_size = w_stop - w_off
 
             # Initialize a new block with zeros
-            unified_block = np.zeros((num_streams, w_size), np.complex128)
+            unified_block = np.zeros((self.num_streams, w_size), np.complex128)
 
-            # Sum the samples from self
-            for blocks in [self.blocks, added_resampled_blocks]:
+            # Sum the samples from both signals
+            for blocks, rows in [(self.blocks, np.arange(self.num_streams)), (added_blocks, streams)]:
                 for b in blocks:
 
                     # If the block ends before this window's start, skip it
-                    if b.end < w_off:
+                    if b.end <= w_off:
                         continue
 
                     # If the block starts after this window's end, stop processing blocks
                     # CAUTION: This assumes that blocks are sorted by their offsets
-                    if b.offset > w_stop:
+                    if b.offset >= w_stop:
                         break
 
                     # Find the section within the current window that overlaps with the current block
@@ -2450,7 +2476,11 @@ class SparseSignal(Signal):
                     b_stop_index = min(b.num_samples, w_off - b.offset + w_size)
 
                     # Add the overlapping sections
-                    unified_block[:, w_start_index:w_stop_index] += b[:, b_start_index:b_stop_index]
+                    np.add.at(
+                        unified_block,
+                        (rows[:, None], np.arange(w_start_index, w_stop_index)),
+                        b.view(np.ndarray)[:, b_start_index:b_stop_index],
+                    )
 
             unified_blocks.append(
                 SignalBlock(self.num_streams, w_size, w_off, unified_block.tobytes())
@@ -2588,7 +2618,12 @@ class SparseSignal(Signal):
                 added_blocks.append(resampled_block)
         else:
             added_blocks = [
-                SignalBlock(value.shape[0], value.shape[1], self.num_samples, value.tobytes())
+                SignalBlock(
+                    value.shape[0],
+                    value.shape[1],
+                    self.num_samples,
+                    np.asarray(value, dtype=np.complex128).tobytes(),
+                )
             ]
 
         # Attach new blocks to existing ones
@@ -2600,40 +2635,35 @@ class SparseSignal(Signal):
     @override
     def append_streams(self, value: Signal | np.ndarray) -> SparseSignal:
         # Resample the incoming signal
-        signal_blocks: Signal | list[np.ndarray]
+        appended: np.ndarray
         if isinstance(value, Signal):
-            signal_blocks = [
-                b.resample_block(value.sampling_rate, self.sampling_rate) for b in value.blocks
-            ]
+            appended = value.resample(self.sampling_rate).to_dense().view(np.ndarray)
         else:
-            signal_blocks = [value]
-
-        # Sparsify all blocks in the incoming signal
-        # and add them to this model
-        blocks_incoming = []
-        for b in signal_blocks:
-            for b_ in self.__from_dense(b):
-                blocks_incoming.append(b_)
+            appended = np.asarray(value, dtype=np.complex128)
 
         # Create new resulting blocks
-        new_num_streams = self.num_streams + value.shape[0]
-        b_offs, b_stops = self._getblocks_union(self.blocks, blocks_incoming)
+        new_num_streams = self.num_streams + appended.shape[0]
+        b_offs, b_stops = self._getblocks_union(self.blocks, self.__from_dense(appended))
 
+        initial = self.to_dense().view(np.ndarray)
         blocks_new = []
         for block_start, block_stop in zip(b_offs, b_stops):
 
-            # Select the respective blocks to be mergerd from both signal models
-            initial_block = self[:, block_start:block_stop].view(np.ndarray)
-            appended_block = value[:, block_start:block_stop].view(np.ndarray)
-
             # Merge the blocks into a new block with increased number of streams
-            new_block = np.concatenate((initial_block, appended_block), axis=0)
+            new_block = np.zeros((new_num_streams, block_stop - block_start), np.complex128)
+            initial_block = initial[:, block_start:block_stop]
+            new_block[: self.num_streams, : initial_block.shape[1]] = initial_block
+            appended_block = appended[:, block_start:block_stop]
+            new_block[self.num_streams :, : appended_block.shape[1]] = appended_block
             blocks_new.append(
                 SignalBlock(
                     new_num_streams, block_stop - block_start, block_start, new_block.tobytes()
                 )
             )
 
+        if len(blocks_new) < 1:
+            blocks_new.append(SignalBlock(new_num_streams, 0))
+
         return SparseSignal(
             blocks_new, self.sampling_rate, self.carrier_frequency, self.noise_power, self.delay
         )
-- 
2.43.0


From de30fb3e4b95fb3fb754f4efc02b6e2c92d59b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 16/38] fix: RF chains accumulate connections between blocks,
 keep open ports silent, reject doubly driven ports and serialize their
 connections

---
 hermespy/core/factory.py        |  4 +-
 hermespy/simulation/rf/chain.py | 68 ++++++++++++++++++++++++++++-----
 2 files changed, 61 insertions(+), 11 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index fd5d510..3bb28d2 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -730,7 +730,7 @@ class DeserializationProcess(ProcessBase):
             name, expected_type, UNDEF
         )
         if deserialized_object is UNDEF:
-            if default == UNDEF:
+            if default is UNDEF:
                 raise RuntimeError(
                     f"Object '{name}' does not exist and no default value was provided"
                 )
@@ -1073,7 +1073,7 @@ class HDFDeserializationProcess(DeserializationProcess):
 
         # If the array does not exist, attempt to return the default value
         if link is None:
-            if default == UNDEF:
+            if default is UNDEF:
                 raise RuntimeError(
                     f"Array '{name}' does not exist in the HDF5 file and no default value was provided"
                 )
diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 69bb7bb..32dbe93 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -6,6 +6,8 @@ from collections.abc import MutableMapping
 from typing import Generic, Iterable, SupportsIndex, SupportsInt
 from typing_extensions import override
 
+import numpy as np
+
 from hermespy.core import (
     DenseSignal,
     RandomNode,
@@ -166,6 +168,13 @@ class RFBlockReference(Generic[RFBT], Serializable):
 
         return port_indices
 
+    @property
+    def open_output_ports(self) -> list[int]:
+        """List of open output port indices."""
+
+        connected_ports = {p for v in self.__outgoing_connections.values() for p in v[0]}
+        return [p for p in range(self.block.num_output_ports) if p not in connected_ports]
+
     def incoming_block_index(self, block: RFBlockReference) -> int:
         """Get the index of the incoming block in the list of incoming connections.
 
@@ -200,7 +209,12 @@ class RFBlockReference(Generic[RFBT], Serializable):
         ):
             raise ValueError(f"Invalid input port index {_input_ports}")
 
-        self.__outgoing_connections[input] = (_output_ports, _input_ports)
+        # Multiple connections between the same two blocks accumulate
+        connected_ports = self.__outgoing_connections.get(input, ([], []))
+        self.__outgoing_connections[input] = (
+            connected_ports[0] + list(_output_ports),
+            connected_ports[1] + list(_input_ports),
+        )
 
     def connect_from(
         self, output: RFBlockReference, output_ports: int | list[int], input_ports: int | list[int]
@@ -224,7 +238,12 @@ class RFBlockReference(Generic[RFBT], Serializable):
         ):
             raise ValueError(f"Invalid input port index {_input_ports}")
 
-        self.__incoming_connections[output] = (_output_ports, _input_ports)
+        # Multiple connections between the same two blocks accumulate
+        connected_ports = self.__incoming_connections.get(output, ([], []))
+        self.__incoming_connections[output] = (
+            connected_ports[0] + list(_output_ports),
+            connected_ports[1] + list(_input_ports),
+        )
 
     def propagate(self, state: RFBlockRealization, input: RFSignal) -> RFSignal:
         """Propagate a signal through the referenced block.
@@ -488,6 +507,7 @@ class RFChain(RandomNode, Serializable):
 
         Raises:
             ValueError: If two ports of the same type are connected.
+            ValueError: If an input port is already connected.
         """
 
         # Ensure a connection from outputs to inputs
@@ -514,6 +534,12 @@ class RFChain(RandomNode, Serializable):
         output_block = output_port.block_reference
         input_block = input_port.block_reference
 
+        # An input port can only be driven by a single output port
+        if len(set(input_port.port_indices)) != input_port.num_ports or not set(
+            input_port.port_indices
+        ).issubset(input_block.open_input_ports):
+            raise ValueError("Cannot connect to an input port that is already connected")
+
         # Register connection from output block ports to input block ports
         output_block.connect_to(
             input_port.block_reference, output_port.port_indices, input_port.port_indices
@@ -526,10 +552,10 @@ class RFChain(RandomNode, Serializable):
 
         # Remove the involved block references from the input/output lists
         # if all their ports are connected
-        if output_block.num_connected_output_ports >= output_block.block.num_output_ports:
+        if len(output_block.open_output_ports) < 1:
             if output_block in self.__rf_output_blocks:
                 self.__rf_output_blocks.remove(output_block)
-        if input_block.num_connected_input_ports >= input_block.block.num_input_ports:
+        if len(input_block.open_input_ports) < 1:
             if input_block in self.__rf_input_blocks:
                 self.__rf_input_blocks.remove(input_block)
 
@@ -559,16 +585,19 @@ class RFChain(RandomNode, Serializable):
             p += num_input_ports
 
         # Propagate back from the DSP output through the chain
-        num_output_ports = sum(b.block.num_output_ports for b in self.__rf_output_blocks)
+        # Only ports not connected to other blocks are visible at the chain's output
+        num_output_ports = sum(len(b.open_output_ports) for b in self.__rf_output_blocks)
         output = RFSignal(num_output_ports, num_samples, realization.sampling_rate)
+        output.fill(0.0)
         k = 0
         block_outputs: MutableMapping[RFBlockReference, DenseSignal] = {}
         for block in self.__rf_output_blocks:
             block_output = self.__generate_output(
                 realization, num_samples, block, origin_inputs, block_outputs
             )
-            output[k : k + block_output.num_streams, :] = block_output
-            k += block_output.num_streams
+            open_output = block_output[block.open_output_ports, :]
+            output[k : k + open_output.num_streams, : open_output.num_samples] = open_output
+            k += open_output.num_streams
 
         return output
 
@@ -597,8 +626,9 @@ class RFChain(RandomNode, Serializable):
             p += num_block_input_ports
 
         # Propagate forward from the RF input through the chain
-        num_input_ports = sum(b.block.num_input_ports for b in self.__dsp_output_blocks)
-        output = RFSignal(num_input_ports, num_samples, realization.sampling_rate)
+        num_output_ports = sum(b.block.num_output_ports for b in self.__dsp_output_blocks)
+        output = RFSignal(num_output_ports, num_samples, realization.sampling_rate)
+        output.fill(0.0)
         k = 0
         block_outputs: MutableMapping[RFBlockReference, DenseSignal] = {}
         for block in self.__dsp_output_blocks:
@@ -641,6 +671,8 @@ class RFChain(RandomNode, Serializable):
         block_input = RFSignal(
             block.block.num_input_ports, num_samples, chain_realization.sampling_rate
         )
+        # Input ports not driven by any signal remain silent
+        block_input.fill(0.0)
         for impinging_signal, (output_ports, input_ports) in zip(
             connected_block_ouputs, block.incoming_connections.values()
         ):
@@ -670,6 +702,17 @@ class RFChain(RandomNode, Serializable):
         process.serialize_object_sequence(self.__rf_output_blocks, "rf_output_blocks")
         process.serialize_object_sequence(self.__rf_origin_blocks, "rf_origin_blocks")
 
+        # Serialize the connections between the block references
+        connections = [
+            (output_index, output_port, self.__block_references.index(input_block), input_port)
+            for output_index, output_block in enumerate(self.__block_references)
+            for input_block, ports in output_block.outgoing_connections.items()
+            for output_port, input_port in zip(*ports)
+        ]
+        process.serialize_array(
+            np.asarray(connections, dtype=np.int64).reshape((-1, 4)), "connections"
+        )
+
         # Serialize random seed if available
         if self.seed is not None:
             process.serialize_integer(self.seed, "seed")
@@ -699,4 +742,11 @@ class RFChain(RandomNode, Serializable):
             process.deserialize_object_sequence("rf_origin_blocks", RFBlockReference)
         )
 
+        # Restore the connections between the block references
+        references = chain_instance.__block_references
+        connections = process.deserialize_array("connections", np.int64, np.empty((0, 4), np.int64))
+        for output_index, output_port, input_index, input_port in connections.tolist():
+            references[output_index].connect_to(references[input_index], output_port, input_port)
+            references[input_index].connect_from(references[output_index], output_port, input_port)
+
         return chain_instance
-- 
2.43.0


From 039a53e805b6550e9e10bf3af4cb059133379507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 17/38] fix: devices route transmissions to the selected ports,
 apply trigger offsets without altering impinging signals and superimpose all
 of them

---
 hermespy/core/device.py                 |  2 +-
 hermespy/simulation/antennas.py         | 10 ++--
 hermespy/simulation/simulated_device.py | 62 +++++++++++++------------
 3 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index b8ec5e7..71f5aff 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -1520,7 +1520,7 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 carrier_frequency=self.carrier_frequency,
             )
             for signal in impinging_signals:
-                superimposed_signal.superimpose(signal)
+                superimposed_signal = superimposed_signal.superimpose(signal)
 
         else:
             superimposed_signal = impinging_signals[0]
diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index 7578bfa..374a895 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -295,8 +295,9 @@ class SimulatedAntennaArray(AntennaArray[SimulatedAntenna]):
             )
 
         # Simulate antenna transmission for all antennas
-        antenna_signals = signal.copy()
-        for idx, (stream, antenna) in enumerate(zip(signal, self.transmit_antennas)):
+        dense_signal = signal.to_dense()
+        antenna_signals = dense_signal.copy()
+        for idx, (stream, antenna) in enumerate(zip(dense_signal, self.transmit_antennas)):
             antenna_signals[idx, :] = antenna.transmit(stream)
 
         return antenna_signals
@@ -317,8 +318,9 @@ class SimulatedAntennaArray(AntennaArray[SimulatedAntenna]):
             )
 
         # Simulate antenna reception for all antennas
-        antenna_outputs = signal.copy()
-        for idx, (stream, antenna) in enumerate(zip(signal, self.receive_antennas)):
+        dense_signal = signal.to_dense()
+        antenna_outputs = dense_signal.copy()
+        for idx, (stream, antenna) in enumerate(zip(dense_signal, self.receive_antennas)):
             antenna_outputs[idx, :] = antenna.receive(stream)
 
         return antenna_outputs
diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 0f67aae..f6a884c 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -144,7 +144,8 @@ class TriggerRealization(Serializable):
                 f"Sampling rate must be greater or equal to zero (not {sampling_rate})"
             )
 
-        return int((self.trigger_delay - initial_delay) * sampling_rate)
+        # Avoid losing a sample to floating point inaccuracies
+        return int(round((self.trigger_delay - initial_delay) * sampling_rate))
 
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_integer(self.num_offset_samples, "num_offset_samples")
@@ -346,7 +347,11 @@ class TimeOffsetTrigger(TriggerModel):
             )
 
         sampling_rate = list(self.devices)[0].sampling_rate
-        num_offset_samples = int(self.offset * sampling_rate)
+        # Offsets representing an integer number of samples must not be truncated to the sample before
+        offset_samples = self.offset * sampling_rate
+        num_offset_samples = round(offset_samples)
+        if not np.isclose(num_offset_samples, offset_samples, rtol=1e-9, atol=1e-9):
+            num_offset_samples = int(offset_samples)
 
         return TriggerRealization(num_offset_samples, sampling_rate)
 
@@ -464,7 +469,8 @@ class NormalTrigger(TriggerModel):
         # Select the proper random number generator
         _rng = self._rng if rng is None else rng
 
-        trigger_delay = int(_rng.normal(loc=self.mean, scale=self.std) * sampling_rate)
+        # A trigger can not fire before the drop starts
+        trigger_delay = max(0, int(_rng.normal(loc=self.mean, scale=self.std) * sampling_rate))
         return TriggerRealization(trigger_delay, sampling_rate)
 
     @override
@@ -814,7 +820,7 @@ class ProcessedSimulatedDeviceInput(ProcessedDeviceInput, SimulatedDeviceReceive
 
                     _impinging_signals.append(superposition)  # type: ignore
 
-            elif not operator_separation and isinstance(impinging_signals[0], Signal):
+            elif isinstance(impinging_signals[0], Signal):
                 _impinging_signals = impinging_signals  # type: ignore
 
             else:
@@ -1640,24 +1646,22 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         # Represented by a tuple of the RF signal and the leaking signal
         emerging_signals: list[Signal] = []
         leaking_signals: list[Signal] = []
-        superimposed_dsp_output: Signal
 
         # If operator separation is enabled, each operator transmission is processed independetly
-        if self.operator_separation:
-            for t in operator_transmissions:
-                emerging_signal, leaking_signal = self._simulate_output(t.signal, _state)
-                emerging_signals.append(emerging_signal)
-                leaking_signals.append(leaking_signal)
+        # If it is disabled, the transmissions are superimposed to a single signal model
+        operator_outputs = list(zip(operator_transmissions, _operator_transmit_ports))
+        output_groups = (
+            [[operator_output] for operator_output in operator_outputs]
+            if self.operator_separation
+            else [operator_outputs]
+        )
 
-        # If operator separation is disable, the transmissions are superimposed to a single signal model
-        else:
-            superimposed_dsp_output = DenseSignal(
+        for output_group in output_groups:
+            superimposed_dsp_output: Signal = DenseSignal(
                 _state.num_transmit_dsp_ports, 0, _state.sampling_rate
             )
 
-            for transmission, stream_indices in zip(
-                operator_transmissions, _operator_transmit_ports
-            ):
+            for transmission, stream_indices in output_group:
                 if transmission:
                     superimposed_dsp_output = superimposed_dsp_output.superimpose(
                         transmission.signal, resample=resample, stream_indices=stream_indices
@@ -1878,6 +1882,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         )
         _impinging_signals: Sequence[Signal] = []
         mixed_signal: Signal
+        synchronized_signal: Signal
 
         if isinstance(impinging_signals, SimulatedDeviceOutput):
             mixed_signal = impinging_signals.mixed_signal
@@ -1910,24 +1915,23 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
                 mixed_signal = mixed_signal.to_dense()
 
         # Correct the trigger realization
-        synchronized_signal = mixed_signal
         num_trigger_offset_samples = _trigger_realization.compute_num_offset_samples(
             self.sampling_rate, mixed_signal.delay
         )
 
-        if num_trigger_offset_samples > 0:
-            synchronized_signal = mixed_signal[:, num_trigger_offset_samples:]
-        elif num_trigger_offset_samples < 0:
+        if num_trigger_offset_samples < 0:
             synchronized_signal = DenseSignal.Zeros(
-                signal.num_streams,
-                num_trigger_offset_samples,
-                signal.sampling_rate,
-                signal.carrier_frequency,
-                signal.noise_power,
-            ).append_samples(synchronized_signal)
-
-        synchronized_signal.delay = (
-            mixed_signal.delay - num_trigger_offset_samples * self.sampling_rate
+                mixed_signal.num_streams,
+                -num_trigger_offset_samples,
+                mixed_signal.sampling_rate,
+                mixed_signal.carrier_frequency,
+                mixed_signal.noise_power,
+            ).append_samples(mixed_signal)
+        else:
+            synchronized_signal = mixed_signal[:, num_trigger_offset_samples:]
+
+        synchronized_signal.delay = max(
+            0.0, mixed_signal.delay + num_trigger_offset_samples / self.sampling_rate
         )
 
         # Apply mutual coupling model during signal reception
-- 
2.43.0


From 3af6caa36484333b17ea59393636330281697312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 18/38] fix: devices route transmissions to the selected ports,
 apply trigger offsets without altering impinging signals and superimpose all
 of them (2)

---
 hermespy/simulation/rf/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/rf/signal.py b/hermespy/simulation/rf/signal.py
index 45728bf..a643ef0 100644
--- a/hermespy/simulation/rf/signal.py
+++ b/hermespy/simulation/rf/signal.py
@@ -126,13 +126,13 @@ class RFSignal(DenseSignal):
 
         # Recover additional attributes lost in numpy view/copy operations
         if hasattr(obj, "carrier_frequencies"):
-            self.carrier_frequencies = obj.carrier_frequencies[: self.num_streams].copy()  # type: ignore
+            self.carrier_frequencies = np.resize(obj.carrier_frequencies, self.num_streams)  # type: ignore
         else:
             self.carrier_frequencies = np.full(
                 (self.num_streams,), self.carrier_frequency, np.float64
             )
         if hasattr(obj, "noise_powers"):
-            self.noise_powers = obj.noise_powers[: self.num_streams].copy()  # type: ignore
+            self.noise_powers = np.resize(obj.noise_powers, self.num_streams)  # type: ignore
         else:
             self.noise_powers = np.full((self.num_streams,), self.noise_power, np.float64)
 
-- 
2.43.0


From c9404d28960c5fbd20936cd6af32261925224e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 19/38] fix: ideal channels leave the propagated signal
 unaltered, simulation stages sample channels at the drop's timestamp and
 campaigns honor the drop interval

---
 hermespy/channel/ideal.py         |  4 ++--
 hermespy/simulation/scenario.py   |  4 +++-
 hermespy/simulation/simulation.py | 12 +++++++++---
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/hermespy/channel/ideal.py b/hermespy/channel/ideal.py
index ce30de7..8735552 100644
--- a/hermespy/channel/ideal.py
+++ b/hermespy/channel/ideal.py
@@ -111,8 +111,8 @@ class IdealChannelSample(ChannelSample):
                     axis=0,
                 )
 
-        # Apply channel gain
-        propagated_samples *= np.sqrt(self.__gain)
+        # Apply channel gain without altering the propagated signal itself
+        propagated_samples = propagated_samples * np.sqrt(self.__gain)
         return SignalBlock(
             self.num_receive_antennas,
             signal.num_samples,
diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index 5921347..869768d 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -776,7 +776,9 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         # Generate drop timestamp
         drop_timestamp = time()
 
-        _timestamps: Sequence[float] = [timestamps] if isinstance(timestamps, float) else timestamps
+        _timestamps: Sequence[float] = (
+            [float(timestamps)] if np.isscalar(timestamps) else timestamps
+        )
         drops: list[SimulatedDrop] = []
 
         channel_realizations = self.realize_channels()
diff --git a/hermespy/simulation/simulation.py b/hermespy/simulation/simulation.py
index 139fe3f..83a418a 100644
--- a/hermespy/simulation/simulation.py
+++ b/hermespy/simulation/simulation.py
@@ -47,6 +47,7 @@ class SimulationRunner(object):
     __propagation: Sequence[Sequence[Signal]] | None
     __processed_inputs: Sequence[ProcessedSimulatedDeviceInput]
     __device_states: Sequence[SimulatedDeviceState] | None
+    __timestamp: float
     __operator_transmissions: Sequence[Sequence[Transmission]] | None
     __device_outputs: Sequence[SimulatedDeviceOutput] | None
     __channel_realizations: Sequence[ChannelRealization] | None
@@ -61,6 +62,7 @@ class SimulationRunner(object):
         self.__scenario = scenario
         self.__channel_realizations = None
         self.__device_states = None
+        self.__timestamp = 0.0
         self.__operator_transmissions = None
         self.__device_outputs = None
         self.__propagation = None
@@ -70,6 +72,7 @@ class SimulationRunner(object):
         self.__channel_realizations = self.__scenario.realize_channels()
 
     def sample_states(self, timestamp: float = 0.0) -> None:
+        self.__timestamp = timestamp
         self.__device_states = [d.state(timestamp) for d in self.__scenario.devices]
 
     def transmit_operators(self) -> None:
@@ -118,7 +121,10 @@ class SimulationRunner(object):
 
         # Propagate device outputs
         self.__propagation, _ = self.__scenario.propagate(
-            self.__device_outputs, self.__device_states, self.__channel_realizations
+            self.__device_outputs,
+            self.__device_states,
+            self.__channel_realizations,
+            self.__timestamp,
         )
 
     def process_inputs(self) -> None:
@@ -421,7 +427,7 @@ class Simulation(Pipeline[SimulationScenario, SimulatedDevice], MonteCarlo[Simul
         )
         stage_arguments = dict()
         if timestamps[-1] > 0.0:
-            stage_arguments["sample_trajectories"] = [(t,) for t in timestamps]
+            stage_arguments["sample_states"] = [(t,) for t in timestamps]
 
         if self.console_mode != ConsoleMode.SILENT:
             self.console.log(
@@ -429,7 +435,7 @@ class Simulation(Pipeline[SimulationScenario, SimulatedDevice], MonteCarlo[Simul
             )
 
         # Generate simulation result
-        result = self.simulate(SimulationActor)
+        result = self.simulate(SimulationActor, stage_arguments=stage_arguments)
 
         # Visualize results if the flag respective is enabled
         visualizations: Sequence[Visualization] = []
-- 
2.43.0


From 685ea1b8980f26a59083ff445f760bff8ddd5298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 20/38] fix: coordinate frames notify on lookat, quaternion
 readout scales its scalar component, custom arrays keep their antennas linked

---
 hermespy/core/transformation.py | 21 +++++++++++++--------
 hermespy/simulation/antennas.py |  2 +-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index d515f68..130b3bc 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -209,7 +209,7 @@ class Transformation(np.ndarray, Serializable):
             S = 2 * (tr + 1.0) ** 0.5
             return np.array(
                 [
-                    0.25 / S,
+                    0.25 * S,
                     (self[2, 1] - self[1, 2]) / S,
                     (self[0, 2] - self[2, 0]) / S,
                     (self[1, 0] - self[0, 1]) / S,
@@ -222,7 +222,7 @@ class Transformation(np.ndarray, Serializable):
             return np.array(
                 [
                     (self[2, 1] - self[1, 2]) / S,
-                    0.25 / S,
+                    0.25 * S,
                     (self[0, 1] + self[1, 0]) / S,
                     (self[0, 2] + self[2, 0]) / S,
                 ],
@@ -235,7 +235,7 @@ class Transformation(np.ndarray, Serializable):
                 [
                     (self[0, 2] - self[2, 0]) / S,
                     (self[0, 1] + self[1, 0]) / S,
-                    0.25 / S,
+                    0.25 * S,
                     (self[1, 2] + self[2, 1]) / S,
                 ],
                 dtype=np.float64,
@@ -247,7 +247,7 @@ class Transformation(np.ndarray, Serializable):
                 (self[1, 0] - self[0, 1]) / S,
                 (self[0, 2] + self[2, 0]) / S,
                 (self[1, 2] + self[2, 1]) / S,
-                0.25 / S,
+                0.25 * S,
             ],
             dtype=np.float64,
         )
@@ -468,18 +468,22 @@ class Transformation(np.ndarray, Serializable):
         up_ = np.asarray(up)
         if up_.shape != (3,):
             raise ValueError(f"Got up of an unexpected shape (expected (3,), got {up_.shape})")
-        up_ /= np.linalg.norm(up_)
+        up_ = up_ / np.linalg.norm(up_)
 
         # Calculate new orientation
         # forward vector
         pos = self.translation
         f = target_ - pos
         f_norm = np.linalg.norm(f)
-        f = f / f_norm if f_norm != 0.0 else pos  # normalize
+        if f_norm == 0.0:
+            return self  # There is no direction to look at
+        f = f / f_norm  # normalize
         # side/right vector
         s = np.cross(up_, f)
-        s_norm = np.linalg.norm(s)
-        s = s / s_norm if s_norm != 0.0 else up_  # normalize
+        if np.linalg.norm(s) < 1e-12:
+            # The sky vector does not define a side if it is parallel to the forward vector
+            s = np.cross(np.eye(3)[np.argmin(np.abs(f))], f)
+        s = s / np.linalg.norm(s)  # normalize
         # up vector
         u = np.cross(f, s)
         # Calcualte the new transformation matrix
@@ -771,6 +775,7 @@ class Transformable(Serializable, TransformableLink):
         """
 
         self.pose.lookat(target, up)
+        self._kinematics_updated()
 
     def _kinematics_updated(self) -> None:
         # Clear the cached forwards transformation if the base has been updated
diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index 374a895..ea52b0a 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -806,5 +806,5 @@ class SimulatedCustomArray(SimulatedAntennaArray, CustomAntennaArray[SimulatedAn
         """
 
         # Initialize base classes
-        CustomAntennaArray.__init__(self, ports, pose)
         SimulatedAntennaArray.__init__(self, pose)
+        CustomAntennaArray.__init__(self, ports, pose)
-- 
2.43.0


From 1319ae2872548a2b671264565731bf2023068d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 21/38] fix: array states account for the array's own pose,
 local locations are rotated into the global frame and simulated dipoles copy
 as simulated dipoles

---
 hermespy/core/antennas.py       | 9 +++++----
 hermespy/simulation/antennas.py | 4 ++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index 86ce1ff..ef47ea9 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -800,9 +800,10 @@ class AntennaArrayBase(ABC, Transformable):
 
         # Handle spherical parameters of function overload
         if not isinstance(arg_0, Direction):
-            global_direction = Direction.From_Cartesian(
-                arg_0 - self.global_position if frame == "global" else arg_0, True
-            )
+            if frame == "global":
+                global_direction = Direction.From_Cartesian(arg_0 - self.global_position, True)
+            else:
+                global_direction = self.forwards_transformation.transform_direction(arg_0, True)
 
         # Handle cartesian vector parameters of function overload
         else:
@@ -1293,7 +1294,7 @@ class AntennaArray(AntennaArrayBase, Generic[AT]):
 
         # Create a copy of the antenna elements
         antenna_copies: list[AT] = [a.copy() for a in self.antennas]
-        return AntennaArrayState(antenna_copies, base_pose)
+        return AntennaArrayState(antenna_copies, (base_pose @ self.pose).view(Transformation))
 
 
 class UniformArray(Generic[AT], AntennaArray[AT], Serializable):
diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index ea52b0a..51e2d4d 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -166,6 +166,10 @@ class SimulatedDipole(SimulatedAntenna, Dipole):
         Dipole.__init__(self, mode, pose)
         SimulatedAntenna.__init__(self, mode, pose, weight)
 
+    @override
+    def copy(self) -> SimulatedDipole:
+        return SimulatedDipole(self.mode, self.pose, self.weight)
+
 
 class SimulatedIdealAntenna(SimulatedAntenna, IdealAntenna):
     """Model of single ideal antenna within an antenna array."""
-- 
2.43.0


From 00e57d309406daff6133b386c5e5732062a34760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 22/38] fix: orientation readout at right pitch angles

---
 hermespy/core/transformation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index 130b3bc..2d5e537 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -147,13 +147,17 @@ class Transformation(np.ndarray, Serializable):
 
         c = (self[0, 0] ** 2 + self[1, 0] ** 2) ** 0.5
 
-        if c != 0:
+        # Roll and yaw describe the same axis if the pitch is a right angle
+        if c > 1e-9:
             rpy = np.arctan2(
                 [self[2, 1] / c, -self[2, 0], self[1, 0] / c], [self[2, 2] / c, c, self[0, 0] / c]
             )
 
         else:
-            rpy = np.array([np.arctan2(self[0, 1], self[1, 1]), 0.5 * np.pi, 0], dtype=np.float64)
+            rpy = np.array(
+                [np.arctan2(-self[1, 2], self[1, 1]), np.copysign(0.5 * np.pi, -self[2, 0]), 0],
+                dtype=np.float64,
+            )
 
         return rpy.view(np.ndarray)
 
-- 
2.43.0


From f792106104ee381fedcea81e45f8a4c0be05c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 23/38] fix: precoding stages keep their configured order,
 count decoded blocks, release removed stages and select streams for any
 transmit stream count

---
 hermespy/core/device.py                      |  4 ++--
 hermespy/core/precoding.py                   | 16 ++++++++++++++--
 hermespy/modem/modem.py                      | 20 ++++++++------------
 hermespy/modem/precoding/single_carrier.py   |  4 +++-
 hermespy/modem/precoding/symbol_precoding.py |  4 ++--
 5 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index 71f5aff..31c4a57 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -1169,7 +1169,7 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 else transmit_encoding
             )
             for encoder in _tx_encoders:
-                self.__transmit_coding[-1] = encoder
+                self.__transmit_coding[len(self.__transmit_coding)] = encoder
 
         # Initialize digital receive decoding layer
         self.__receive_coding = ReceiveSignalCoding()
@@ -1180,7 +1180,7 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 else receive_decoding
             )
             for decoder in _rx_decoders:
-                self.__receive_coding[-1] = decoder
+                self.__receive_coding[len(self.__receive_coding)] = decoder
 
         # Initialize other various class attributes
         self.__input_callbacks = Hookable()
diff --git a/hermespy/core/precoding.py b/hermespy/core/precoding.py
index f782074..6ebe859 100644
--- a/hermespy/core/precoding.py
+++ b/hermespy/core/precoding.py
@@ -162,10 +162,18 @@ class Precoding(Sequence[PrecoderType], Generic[PrecoderType], Serializable):
             self.__precoders.append(precoder)
 
         else:
+            replaced_precoder = self.__precoders[index]
             self.__precoders[index] = precoder
+            self.__release(replaced_precoder)
 
         precoder.precoding = self
 
+    def __release(self, precoder: PrecoderType) -> None:
+        """Detach a precoder from this configuration once it left the chain."""
+
+        if not any(p is precoder for p in self.__precoders):
+            precoder.precoding = None
+
     def __len__(self):
         """Length of the precoding is the number of precoding steps."""
 
@@ -181,7 +189,9 @@ class Precoding(Sequence[PrecoderType], Generic[PrecoderType], Serializable):
         Returns: Handle to the removed precoder.
         """
 
-        return self.__precoders.pop(index)
+        precoder = self.__precoders.pop(index)
+        self.__release(precoder)
+        return precoder
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
@@ -191,7 +201,9 @@ class Precoding(Sequence[PrecoderType], Generic[PrecoderType], Serializable):
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Precoding[PrecoderType]:
         precoding = cls()
-        precoding.__precoders = process.deserialize_object_sequence("precoders", Precoder)  # type: ignore
+        precoding.__precoders = list(process.deserialize_object_sequence("precoders", Precoder))  # type: ignore
+        for precoder in precoding.__precoders:
+            precoder.precoding = precoding
         return precoding
 
 
diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 5046aed..03632f9 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -694,18 +694,16 @@ class TransmittingModemBase(Generic[CWT], BaseModem[CWT]):
             self.__transmit_symbol_coding = transmit_symbol_coding
         else:
             self.__transmit_symbol_coding = TransmitSymbolCoding()
-        if transmit_symbol_coding is not None:
-            for transmit_symbol_encoder in transmit_symbol_coding:
-                self.__transmit_symbol_coding[-1] = transmit_symbol_encoder
+            for transmit_symbol_encoder in transmit_symbol_coding or []:
+                self.__transmit_symbol_coding[len(self.__transmit_symbol_coding)] = transmit_symbol_encoder
 
         # Initialize transmit signal coding configuration
         if isinstance(transmit_signal_coding, TransmitSignalCoding):
             self.__transmit_signal_coding = transmit_signal_coding
         else:
             self.__transmit_signal_coding = TransmitSignalCoding()
-        if transmit_signal_coding is not None:
-            for transmit_signal_encoder in transmit_signal_coding:
-                self.__transmit_signal_coding[-1] = transmit_signal_encoder
+            for transmit_signal_encoder in transmit_signal_coding or []:
+                self.__transmit_signal_coding[len(self.__transmit_signal_coding)] = transmit_signal_encoder
 
         # Initialize remaining attributes
         self.bits_source = RandomBitsSource() if bits_source is None else bits_source
@@ -1049,18 +1047,16 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
             self.__receive_symbol_coding = receive_symbol_coding
         else:
             self.__receive_symbol_coding = ReceiveSymbolCoding()
-        if receive_symbol_coding is not None:
-            for receive_symbol_decoder in receive_symbol_coding:
-                self.__receive_symbol_coding[-1] = receive_symbol_decoder
+            for receive_symbol_decoder in receive_symbol_coding or []:
+                self.__receive_symbol_coding[len(self.__receive_symbol_coding)] = receive_symbol_decoder
 
         # Initialize receive signal coding configuration
         if isinstance(receive_signal_coding, ReceiveSignalCoding):
             self.__receive_signal_coding = receive_signal_coding
         else:
             self.__receive_signal_coding = ReceiveSignalCoding()
-        if receive_signal_coding is not None:
-            for receive_signal_decoder in receive_signal_coding:
-                self.__receive_signal_coding[-1] = receive_signal_decoder
+            for receive_signal_decoder in receive_signal_coding or []:
+                self.__receive_signal_coding[len(self.__receive_signal_coding)] = receive_signal_decoder
 
     @property
     def receive_signal_coding(self) -> ReceiveSignalCoding:
diff --git a/hermespy/modem/precoding/single_carrier.py b/hermespy/modem/precoding/single_carrier.py
index 5287c95..7ec8a29 100644
--- a/hermespy/modem/precoding/single_carrier.py
+++ b/hermespy/modem/precoding/single_carrier.py
@@ -42,7 +42,9 @@ class SingleCarrier(ReceiveSymbolDecoder, Serializable):
         new_symbols = np.take_along_axis(symbols.raw, antenna_selection[np.newaxis, ::], axis=0)
         # stream_noises = np.take_along_axis(symbols, antenna_selection.T, axis=0)
 
-        channel_state_selection = antenna_selection[np.newaxis, np.newaxis, ::].repeat(2, axis=1)
+        channel_state_selection = antenna_selection[np.newaxis, np.newaxis, ::].repeat(
+            dense_states.shape[1], axis=1
+        )
         new_states = np.take_along_axis(dense_states, channel_state_selection, axis=0)
 
         symbols.raw = new_symbols
diff --git a/hermespy/modem/precoding/symbol_precoding.py b/hermespy/modem/precoding/symbol_precoding.py
index 2246002..59c1ff4 100644
--- a/hermespy/modem/precoding/symbol_precoding.py
+++ b/hermespy/modem/precoding/symbol_precoding.py
@@ -216,7 +216,7 @@ class ReceiveSymbolCoding(ReceivePrecoding[ReceiveSymbolDecoder], Serializable):
 
         num_blocks = Fraction(num_input_blocks, 1)
 
-        for precoder in reversed(self):
-            num_blocks /= precoder.decode_rate
+        for precoder in self:
+            num_blocks *= precoder.decode_rate
 
         return int(num_blocks)
-- 
2.43.0


From ed47070bbd26714518a044affd50dd592e02ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 24/38] fix: conventional beamformers steer within the array's
 local frame

---
 hermespy/beamforming/conventional.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/hermespy/beamforming/conventional.py b/hermespy/beamforming/conventional.py
index f462807..f672ca9 100644
--- a/hermespy/beamforming/conventional.py
+++ b/hermespy/beamforming/conventional.py
@@ -77,10 +77,7 @@ class ConventionalBeamformer(TransmitBeamformer, ReceiveBeamformer):
         """
 
         # Query topology of receiving antenna ports
-        topology = (
-            np.array([p.global_position for p in array.receive_antennas], dtype=np.float64)
-            - array.global_position
-        )
+        topology = array.receive_topology
 
         # Build receive beamforming codebook of steering vectors for each angle of interest
         book = np.empty((angles.shape[0], array.num_receive_antennas), dtype=complex)
@@ -102,10 +99,7 @@ class ConventionalBeamformer(TransmitBeamformer, ReceiveBeamformer):
         azimuth, zenith = focus_angles[0, :]
 
         # Compute conventional beamformer weights
-        topology = (
-            np.array([p.global_position for p in array.transmit_antennas], dtype=np.float64)
-            - array.global_position
-        )
+        topology = array.transmit_topology
         direction = Direction.From_Spherical(azimuth, zenith)
         # Conventional steering vector
         weights = np.exp(-2j * pi * carrier_frequency / speed_of_light * (topology @ direction))
-- 
2.43.0


From 02f47c2c12f179f5e8d002b7aa1779fadaba1d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 25/38] fix: appending longer streams to sparse signals is
 rejected

---
 hermespy/core/signal_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index f8ecaa1..88cef2c 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -2641,6 +2641,9 @@ class SparseSignal(Signal):
         else:
             appended = np.asarray(value, dtype=np.complex128)
 
+        if appended.shape[1] > self.num_samples:
+            raise ValueError("Appended streams contain more samples than the signal")
+
         # Create new resulting blocks
         new_num_streams = self.num_streams + appended.shape[0]
         b_offs, b_stops = self._getblocks_union(self.blocks, self.__from_dense(appended))
-- 
2.43.0


From ee64b9d8cec706f1d92058cd31895eeb00be84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 26/38] fix: radio-frequency blocks keep their configuration
 when serialized

---
 hermespy/simulation/rf/blocks/ad.py      |  9 +++++++++
 hermespy/simulation/rf/blocks/filters.py | 21 +++++++++++++++++++++
 hermespy/simulation/rf/blocks/ramp.py    |  4 ++++
 hermespy/simulation/rf/blocks/shift.py   | 23 +++++++++++++++++++++++
 hermespy/simulation/rf/blocks/source.py  | 23 +++++++++++++++++++++++
 hermespy/simulation/rf/blocks/split.py   | 15 +++++++++++++++
 hermespy/simulation/rf/blocks/sum.py     | 15 +++++++++++++++
 hermespy/simulation/rf/blocks/x4.py      | 13 +++++++++++++
 8 files changed, 123 insertions(+)

diff --git a/hermespy/simulation/rf/blocks/ad.py b/hermespy/simulation/rf/blocks/ad.py
index 18e2c90..98ef232 100644
--- a/hermespy/simulation/rf/blocks/ad.py
+++ b/hermespy/simulation/rf/blocks/ad.py
@@ -613,6 +613,11 @@ class ADC(ConverterBase, DSPOutputBlock):
             process.serialize_integer(self.num_quantization_bits, "num_quantization_bits")
         process.serialize_object(self.gain, "gain")
         process.serialize_object(self.quantizer_type, "quantizer_type")
+        process.serialize_integer(self.num_input_ports, "num_ports")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
 
     @override
     @classmethod
@@ -621,6 +626,10 @@ class ADC(ConverterBase, DSPOutputBlock):
             process.deserialize_integer("num_quantization_bits", None),
             process.deserialize_object("gain", GainControlBase, None),
             process.deserialize_object("quantizer_type", QuantizerType, QuantizerType.MID_RISER),
+            process.deserialize_integer("num_ports", 1),
+            process.deserialize_object("noise_model", NoiseModel, None),
+            process.deserialize_object("noise_level", NoiseLevel, None),
+            process.deserialize_integer("seed", None),
         )
 
 
diff --git a/hermespy/simulation/rf/blocks/filters.py b/hermespy/simulation/rf/blocks/filters.py
index 6541911..e3b066a 100644
--- a/hermespy/simulation/rf/blocks/filters.py
+++ b/hermespy/simulation/rf/blocks/filters.py
@@ -7,6 +7,7 @@ from typing_extensions import override
 import numpy as np
 from scipy.signal import butter, filtfilt
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 from ..noise import NoiseModel, NoiseLevel, NoiseRealization
@@ -232,3 +233,23 @@ class HPF(Filter):
             oversampling_factor,
             self.noise_model.realize(self.noise_level.get_power(bandwidth)),
         )
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.cutoff_frequency, "cutoff_frequency")
+        process.serialize_integer(self.filter_order, "filter_order")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> HPF:
+        return cls(
+            process.deserialize_floating("cutoff_frequency"),
+            process.deserialize_integer("filter_order"),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/ramp.py b/hermespy/simulation/rf/blocks/ramp.py
index fd28f6a..76bd4c2 100644
--- a/hermespy/simulation/rf/blocks/ramp.py
+++ b/hermespy/simulation/rf/blocks/ramp.py
@@ -216,6 +216,8 @@ class RampGenerator(RFBlock):
         process.serialize_floating(self.chirp_slope, "chirp_slope")
         process.serialize_floating(self.chirp_interval, "chirp_interval")
         process.serialize_integer(self.num_chirps, "num_chirps")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
         if self.seed is not None:
             process.serialize_integer(self.seed, "seed")
 
@@ -227,5 +229,7 @@ class RampGenerator(RFBlock):
             chirp_bandwidth=process.deserialize_floating("chirp_bandwidth"),
             chirp_slope=process.deserialize_floating("chirp_slope"),
             chirp_interval=process.deserialize_floating("chirp_interval"),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
             seed=process.deserialize_integer("seed", None),
         )
diff --git a/hermespy/simulation/rf/blocks/shift.py b/hermespy/simulation/rf/blocks/shift.py
index 8d81bb2..54f6ab4 100644
--- a/hermespy/simulation/rf/blocks/shift.py
+++ b/hermespy/simulation/rf/blocks/shift.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 from ..noise import NoiseModel, NoiseLevel
@@ -117,3 +118,25 @@ class Shift(RFBlock):
         """
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.phase, "phase")
+        process.serialize_integer(self.num_quantization_bits, "num_quantization_bits")
+        process.serialize_integer(self.num_input_ports, "num_ports")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Shift:
+        return cls(
+            process.deserialize_floating("phase"),
+            process.deserialize_integer("num_quantization_bits"),
+            process.deserialize_integer("num_ports"),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/source.py b/hermespy/simulation/rf/blocks/source.py
index 8da0522..37eb0e4 100644
--- a/hermespy/simulation/rf/blocks/source.py
+++ b/hermespy/simulation/rf/blocks/source.py
@@ -13,6 +13,7 @@ from ..noise import (
     PhaseNoise,
     PhaseNoiseRealization,
 )
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -212,3 +213,25 @@ class Source(RFBlock):
         # Add phase noise to the output signal
         noisy_output = realization.phase_noise.add_noise(output)
         return noisy_output
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.carrier_frequency, "carrier_frequency")
+        process.serialize_floating(self.amplitude, "amplitude")
+        process.serialize_object(self.phase_noise, "phase_noise")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Source:
+        return cls(
+            carrier_frequency=process.deserialize_floating("carrier_frequency"),
+            phase_noise=process.deserialize_object("phase_noise", PhaseNoise),
+            amplitude=process.deserialize_floating("amplitude"),
+            noise_model=process.deserialize_object("noise_model", NoiseModel, None),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel, None),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/split.py b/hermespy/simulation/rf/blocks/split.py
index 92c8e14..0cac475 100644
--- a/hermespy/simulation/rf/blocks/split.py
+++ b/hermespy/simulation/rf/blocks/split.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -73,3 +74,17 @@ class Split(RFBlock):
         """
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_integer(self.num_output_ports, "num_outputs")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Split:
+        return cls(
+            process.deserialize_integer("num_outputs"),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/sum.py b/hermespy/simulation/rf/blocks/sum.py
index 48821d1..ae66525 100644
--- a/hermespy/simulation/rf/blocks/sum.py
+++ b/hermespy/simulation/rf/blocks/sum.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -78,3 +79,17 @@ class Sum(RFBlock):
         """Output port of the summation block."""
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_integer(self.num_input_ports, "num_input_ports")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Sum:
+        return cls(
+            process.deserialize_integer("num_input_ports"),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/x4.py b/hermespy/simulation/rf/blocks/x4.py
index 3d994eb..50edcf2 100644
--- a/hermespy/simulation/rf/blocks/x4.py
+++ b/hermespy/simulation/rf/blocks/x4.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 from typing_extensions import override
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -71,3 +72,15 @@ class X4(RFBlock):
         output: RFSignal = input.copy()
         output.carrier_frequencies = input.carrier_frequencies * 4
         return output
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> X4:
+        return cls(
+            seed=process.deserialize_integer("seed", None),
+        )
-- 
2.43.0


From b9974e434735103e39879f9854bec5fef8fa5bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 27/38] fix: serialization keeps sharing, replaced sequences
 and missing fields consistent

---
 hermespy/core/factory.py | 61 +++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index 3bb28d2..d62c666 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -876,9 +876,6 @@ class HDFSerializationProcess(SerializationProcess):
         if campaign is not None:
             base_group = HDFSerializationProcess._create_group(base_group, campaign)
 
-        # Create the base group for caching arrays
-        HDFSerializationProcess._create_group(base_group, "arrays")
-
         # Initialize the serialization process
         return HDFSerializationProcess(tag_registry, base_group, base_group, dict(), dict())
 
@@ -979,9 +976,12 @@ class HDFSerializationProcess(SerializationProcess):
         # For diamond inheritance, the group objects might already be cached and must therefore be deleted
         # from the cache
         else:
-            existing_group: Group = self.__group[name]
-            for obj in existing_group.values():
-                self.__objects.pop(obj.name, None)
+            path: str = self.__group[name].name + "/"
+            for cache in (self.__objects, self.__arrays):
+                for key in [k for k, v in cache.items() if v[1].startswith(path)]:
+                    cache.pop(key)
+            del self.__group[name]
+            self.__group.create_group(name)
             offset = 0
 
         # Serialize each object in the sequence
@@ -1003,9 +1003,9 @@ class HDFSerializationProcess(SerializationProcess):
 
     @override
     def finalize(self) -> None:
-        # Close the base file handle
-        if isinstance(self.__base_group, File):
-            self.__base_group.close()
+        # Close the file handle, which may already be closed
+        if self.__base_group:
+            self.__base_group.file.close()
 
     @staticmethod
     def _create_group(group: Group, name: str) -> Group:
@@ -1082,23 +1082,25 @@ class HDFDeserializationProcess(DeserializationProcess):
 
         # If the array has already been deserialized, just return a reference to it
         if isinstance(link, SoftLink):
-            if link.path in self.__arrays:
-                return self.__arrays[link.path]
-            else:
-                array_dataset = self.__base_group[link.path]
+            array_dataset = self.__base_group[link.path]
         else:
             array_dataset = self.__group[name]
 
+        cached_array = self.__arrays.get(array_dataset.name, None)
+        if cached_array is not None and cached_array.dtype == np.dtype(dtype):
+            return cached_array
+
         deserialized_array = np.asarray(array_dataset, dtype=dtype)
         self.__arrays[array_dataset.name] = deserialized_array
         return deserialized_array
 
     def __fetch_attribute(self, name: str, default: _RT | UNDEF_TYPE) -> UNDEF_TYPE | _RT:
-        return (
-            self.__group.attrs.get(name)
-            if default is UNDEF
-            else self.__group.attrs.get(name, UNDEF)
-        )
+        if default is UNDEF and name not in self.__group.attrs:
+            raise RuntimeError(
+                f"Attribute '{name}' does not exist in the HDF5 file and no default value was provided"
+            )
+
+        return self.__group.attrs.get(name, UNDEF)
 
     @override
     def deserialize_floating(self, name: str, default: _RT | UNDEF_TYPE = UNDEF) -> float | _RT:
@@ -1144,18 +1146,13 @@ class HDFDeserializationProcess(DeserializationProcess):
             return default
 
         # A softlink indicates that the object is stored in a different group
-        if isinstance(link, SoftLink):
-
-            # If the object has already been deserialized, just return a reference to it
-            if link.path in self.__objects:
-                return self.__objects[link.path]  # type: ignore[return-value]
-
-            # Otherwise, load the object from the SoftLink's group
-            else:
-                object_group = self.__base_group[link.path]
+        object_group: Group = (
+            self.__base_group[link.path] if isinstance(link, SoftLink) else self.__group[name]
+        )
 
-        else:
-            object_group = self.__group[name]
+        # If the object has already been deserialized, just return a reference to it
+        if object_group.name in self.__objects:
+            return self.__objects[object_group.name]  # type: ignore[return-value]
 
         # Get the object's type
         object_type: str | None = object_group.attrs.get("type", default=None)
@@ -1238,6 +1235,6 @@ class HDFDeserializationProcess(DeserializationProcess):
 
     @override
     def finalize(self) -> None:
-        # Close the base file handle
-        if isinstance(self.__base_group, File):
-            self.__base_group.close()
+        # Close the file handle, which may already be closed
+        if self.__base_group:
+            self.__base_group.file.close()
-- 
2.43.0


From a786888bcec191a2589e10578f6957330313de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 28/38] fix: default channels and radio-frequency blocks belong
 to the seeded tree

Nodes constructed with a mother ignored it, the default channel of a
scenario was not attached to it, and blocks added to a chain were roots,
detaching the device's noise model handed to the default chain, so that
drops of a seeded scenario could not be reproduced.
---
 hermespy/core/random_node.py    | 3 +++
 hermespy/simulation/rf/chain.py | 4 ++++
 hermespy/simulation/scenario.py | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/hermespy/core/random_node.py b/hermespy/core/random_node.py
index 4447dd5..b79b2b5 100644
--- a/hermespy/core/random_node.py
+++ b/hermespy/core/random_node.py
@@ -83,8 +83,11 @@ class RandomNode(object):
                 Random seed used to initialize the pseudo-random number generator.
         """
 
+        # Nodes with a mother and without a dedicated seed draw from their mother's generator
         self.seed = seed
         self.__mother_node = mother_node
+        if mother_node is not None and seed is None:
+            self.__generator = None
 
     @property
     def _rng(self) -> Generator:
diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 32dbe93..70e4c36 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -433,6 +433,10 @@ class RFChain(RandomNode, Serializable):
         block_reference = RFBlockReference(block)
         self.__block_references.append(block_reference)
 
+        # Blocks without a dedicated seed draw from the chain's random generator
+        if block.seed is None and block.random_mother is None:
+            block.random_mother = self
+
         # Add blocks without RF input ports to the origin blocks list
         if block.num_input_ports < 1:
             self.__rf_origin_blocks.append(block_reference)
diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index 869768d..661cbec 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -222,6 +222,9 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         # Initialize base class
         Scenario.__init__(self, *args, **kwargs)
 
+        # Register the scenario at the default channel
+        self.__default_channel.scenario = self
+
         # Initialize class attributes
         self.noise_level = noise_level  # type: ignore[operator]
         self.noise_model = noise_model  # type: ignore[operator]
-- 
2.43.0


From 12e657b52e1478ba88db8acce5fc6c83ac2d4da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:20 +0000
Subject: [PATCH 29/38] fix: scramblers keep separate transmit and receive
 registers and their seed

---
 hermespy/fec/cyclic_redundancy_check.py |  2 +-
 hermespy/fec/scrambler.py               | 38 ++++++++++++++++---------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/hermespy/fec/cyclic_redundancy_check.py b/hermespy/fec/cyclic_redundancy_check.py
index 254b53d..435a33f 100644
--- a/hermespy/fec/cyclic_redundancy_check.py
+++ b/hermespy/fec/cyclic_redundancy_check.py
@@ -64,7 +64,7 @@ class CyclicRedundancyCheck(Encoder, RandomNode, Serializable):
         return np.append(data, self._rng.integers(0, 2, self.__check_block_size))
 
     def decode(self, code: np.ndarray) -> np.ndarray:
-        return code[: -self.__check_block_size]
+        return code[: self.__bit_block_size]
 
     @property
     def bit_block_size(self) -> int:
diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index 1ecda1c..7510c10 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -132,6 +132,7 @@ class Scrambler3GPP(Encoder, Serializable):
     See section 7.3.1.1 of the respective technical standard :footcite:t:`2018:ts138211` for details.
     """
 
+    __seed: np.ndarray
     __transmit_rng: PseudoRandomGenerator
     __receive_rng: PseudoRandomGenerator
     __default_seed = np.array([0, 1, 0, 1, 1, 0, 1], int)
@@ -151,6 +152,7 @@ class Scrambler3GPP(Encoder, Serializable):
         # Initialize the pseudo random number generator
         seed = self.__default_seed.copy() if seed is None else seed
 
+        self.__seed = seed
         self.__transmit_rng = PseudoRandomGenerator(seed)
         self.__receive_rng = PseudoRandomGenerator(seed)
 
@@ -176,12 +178,12 @@ class Scrambler3GPP(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        process.serialize_array(np.asarray(self.__seed, dtype=np.int64), "seed", cache=False)
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Scrambler3GPP:
-        return cls()
+        return cls(process.deserialize_array("seed", np.int64, None))
 
 
 class Scrambler80211a(Encoder, Serializable):
@@ -191,7 +193,8 @@ class Scrambler80211a(Encoder, Serializable):
     """
 
     __seed: np.ndarray
-    __queue: deque
+    __transmit_queue: deque
+    __receive_queue: deque
     __default_seed: np.ndarray = np.array([0, 1, 0, 1, 1, 0, 1], dtype=int)
 
     def __init__(self, seed: np.ndarray | None = None) -> None:
@@ -208,7 +211,8 @@ class Scrambler80211a(Encoder, Serializable):
 
         # The default seed is all zeros
         self.__seed = self.__default_seed.copy() if seed is None else seed
-        self.__queue = deque(self.__seed, 7)
+        self.__transmit_queue = deque(self.__seed, 7)
+        self.__receive_queue = deque(self.__seed, 7)
 
     @property
     def seed(self) -> np.ndarray:
@@ -238,42 +242,48 @@ class Scrambler80211a(Encoder, Serializable):
                 raise ValueError("Only bits (i.e. 0 or 1) represent valid seed fields")
 
         self.__seed = value
-        self.__queue = deque(self.__seed, 7)
+        self.__transmit_queue = deque(self.__seed, 7)
+        self.__receive_queue = deque(self.__seed, 7)
 
     def encode(self, data: np.ndarray) -> np.ndarray:
-        code = np.array([self.__scramble_bit(bit) for bit in data], dtype=int)
+        code = np.array([self.__scramble_bit(bit, self.__transmit_queue) for bit in data], dtype=int)
         return code
 
     def decode(self, code: np.ndarray) -> np.ndarray:
-        data = np.array([self.__scramble_bit(bit) for bit in code], dtype=int)
+        data = np.array([self.__scramble_bit(bit, self.__receive_queue) for bit in code], dtype=int)
         return data
 
-    def __forward_code_bit(self) -> int:
+    def __forward_code_bit(self, queue: deque | None = None) -> int:
         """Generate the next bit in the scrambling sequence.
 
         The sequence depends on the configured seed.
 
+        Args:
+            queue: Register to be forwarded. The transmit register by default.
+
         Returns:
             int:
                 The next bit within the scrambling sequence
         """
 
-        code_bit = (self.__queue[3] + self.__queue[6]) % 2
-        self.__queue.appendleft(code_bit)
+        queue = self.__transmit_queue if queue is None else queue
+        code_bit = (queue[3] + queue[6]) % 2
+        queue.appendleft(code_bit)
 
         return code_bit
 
-    def __scramble_bit(self, bit: int) -> int:
+    def __scramble_bit(self, bit: int, queue: deque | None = None) -> int:
         """Scramble a given bit.
 
         Args:
             bit(int):
                 The bit to be scrambled.
+            queue: Register generating the scrambling sequence. The transmit register by default.
 
         Returns:
             int: The scrambled bit."""
 
-        return (self.__forward_code_bit() + bit) % 2
+        return (self.__forward_code_bit(queue) + bit) % 2
 
     @property
     def bit_block_size(self) -> int:
@@ -285,9 +295,9 @@ class Scrambler80211a(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        process.serialize_array(np.asarray(self.__seed, dtype=np.int64), "seed", cache=False)
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Scrambler80211a:
-        return cls()
+        return cls(process.deserialize_array("seed", np.int64, None))
-- 
2.43.0


From f61e45d615e7b312d0b92a73dd35caa49f83fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:20 +0000
Subject: [PATCH 30/38] fix: error correction chains pad whole blocks and keep
 their configuration

---
 hermespy/fec/coding.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 7242f9f..fc148e0 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -240,6 +240,18 @@ class EncoderManager(RandomNode, Serializable):
 
         code_state = data_bits.copy()
 
+        # Pad to an integer number of blocks of the whole chain, since these are the blocks recovered by decoding.
+        # Otherwise, encoders with an internal state process different numbers of bits while encoding and decoding.
+        bit_block_size = self.bit_block_size
+        if bit_block_size > 0 and len(code_state) % bit_block_size:
+            if not self.allow_padding:
+                raise RuntimeError("Encoding would require padding, but padding is not allowed")
+
+            num_padding_bits = bit_block_size - len(code_state) % bit_block_size
+            code_state = np.append(
+                code_state, self._rng.integers(0, 2, num_padding_bits, dtype=bool)
+            )
+
         # Loop through the encoders and encode the data, using the output of the last encoder as input to the next
         for encoder in self._encoders:
             # Skip if the respective encoder is disabled
@@ -391,7 +403,7 @@ class EncoderManager(RandomNode, Serializable):
 
             repetitions = int(encoder.bit_block_size / num_bits)
             block_size *= repetitions
-            num_bits *= int(repetitions / encoder.rate)
+            num_bits = encoder.code_block_size
 
         return block_size
 
@@ -466,12 +478,25 @@ class EncoderManager(RandomNode, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object_sequence(self._encoders, "encoders")
+        process.serialize_integer(int(self.allow_padding), "allow_padding")
+        process.serialize_integer(int(self.allow_truncating), "allow_truncating")
+        process.serialize_array(
+            np.array([encoder.enabled for encoder in self._encoders], dtype=np.int64),
+            "enabled",
+            cache=False,
+        )
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> EncoderManager:
-        manager = cls()
+        manager = cls(
+            bool(process.deserialize_integer("allow_padding", 1)),
+            bool(process.deserialize_integer("allow_truncating", 1)),
+        )
         encoders = process.deserialize_object_sequence("encoders", Encoder)
-        for encoder in encoders:
+        enabled = process.deserialize_array("enabled", np.int64, None)
+        for e, encoder in enumerate(encoders):
+            if enabled is not None:
+                encoder.enabled = bool(enabled[e])
             manager.add_encoder(encoder)
         return manager
-- 
2.43.0


From 215fd0c5c46c7d1c9c12f0c1966af958a042a41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 31/38] fix: modem encoders are not duplicated, frames are
 timed and guard intervals silent

---
 hermespy/modem/modem.py              | 5 ++---
 hermespy/modem/waveform_chirp_fsk.py | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 03632f9..827b69c 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -541,8 +541,7 @@ class BaseModem(Generic[CWT], RandomNode, Serializable):
             self.encoder_manager = encoding
         else:
             self.encoder_manager = EncoderManager()
-        if encoding is not None:
-            for encoder in encoding.encoders if isinstance(encoding, EncoderManager) else encoding:
+            for encoder in encoding or []:
                 self.encoder_manager.add_encoder(encoder)
 
         # Initialize the remaining attributes
@@ -1249,7 +1248,7 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
                     decoded_signal=frame_signal,
                     symbols=symbols,
                     decoded_symbols=decoded_symbols,
-                    timestamp=frame_index * signal.sampling_rate,
+                    timestamp=frame_index / signal.sampling_rate,
                     equalized_symbols=equalized_symbols,
                     encoded_bits=encoded_bits,
                     code_block_size=self.encoder_manager.code_block_size,
diff --git a/hermespy/modem/waveform_chirp_fsk.py b/hermespy/modem/waveform_chirp_fsk.py
index b170ea5..e219df5 100644
--- a/hermespy/modem/waveform_chirp_fsk.py
+++ b/hermespy/modem/waveform_chirp_fsk.py
@@ -295,7 +295,7 @@ class ChirpFSKWaveform(PilotCommunicationWaveform):
             self.freq_difference,
             samples_in_chirp,
         )
-        frame_samples = np.empty(
+        frame_samples = np.zeros(
             self.samples_per_frame(bandwidth, oversampling_factor), dtype=complex
         )
 
-- 
2.43.0


From 092e100006bcae7e0053b2aa66ca98561a63ae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 32/38] fix: single carrier frames with odd filter lengths and
 chirps keep their timing

---
 hermespy/modem/evaluators.py              |  2 +-
 hermespy/modem/waveform_single_carrier.py | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index a0a42b7..29b156f 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -377,7 +377,7 @@ class FrameErrorEvaluator(CommunicationEvaluator, Serializable):
         # Compare the decoded bit streams of each communication frame
         # If they differ, increase the frame errror count
         for f, (tx_frame, rx_frame) in enumerate(zip(transmission.frames, reception.frames)):
-            frame_errors[f] = not np.array_equiv(tx_frame.bits, rx_frame.decoded_bits)
+            frame_errors[f] = not np.array_equal(tx_frame.bits, rx_frame.decoded_bits)
 
         return FrameErrorEvaluation(frame_errors)
 
diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 9f3ce05..5ea8d80 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -788,9 +788,9 @@ class RootRaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
         time = (
             np.linspace(
                 -int(0.5 * self.filter_length),
-                int(0.5 * self.filter_length),
+                self.filter_length - int(0.5 * self.filter_length),
                 self.filter_length * oversampling_factor,
-                endpoint=(self.filter_length % 2 == 1),
+                endpoint=False,
             )
             * self.relative_bandwidth
         )
@@ -836,9 +836,9 @@ class RaisedCosineWaveform(RolledOffSingleCarrierWaveform, Serializable):
         time = (
             np.linspace(
                 -int(0.5 * self.filter_length),
-                int(0.5 * self.filter_length),
+                self.filter_length - int(0.5 * self.filter_length),
                 self.filter_length * oversampling_factor,
-                endpoint=(self.filter_length % 2 == 1),
+                endpoint=False,
             )
             * self.relative_bandwidth
         )
@@ -931,6 +931,10 @@ class FMCWWaveform(FilteredSingleCarrierWaveform, Serializable):
 
         self.__num_samples_per_chirp = value
 
+    @override
+    def frame_duration(self, bandwidth: float) -> float:
+        return self._num_frame_symbols * self.num_samples_per_chirp / bandwidth
+
     @override
     def samples_per_frame(self, bandwidth: float, oversampling_factor: int) -> int:
         return self._num_frame_symbols * self.num_samples_per_chirp * oversampling_factor
-- 
2.43.0


From 41629b1bcd399dd626c93532eef9875f156dd51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 33/38] fix: resource grids announce their samples, correct
 every section's offset and keep their configuration

---
 hermespy/modem/waveform_single_carrier.py     | 10 +++++
 .../modem/waveforms/orthogonal/channel.py     | 12 +++--
 hermespy/modem/waveforms/orthogonal/ofdm.py   | 17 ++++---
 .../modem/waveforms/orthogonal/waveform.py    | 44 ++++++++-----------
 4 files changed, 49 insertions(+), 34 deletions(-)

diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 5ea8d80..d487064 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -454,6 +454,10 @@ class FilteredSingleCarrierWaveform(ConfigurablePilotWaveform):
         process.serialize_integer(self.num_postamble_symbols, "num_postamble_symbols")
         process.serialize_floating(self.guard_interval, "guard_interval")
         process.serialize_integer(self.pilot_rate, "pilot_rate")
+        process.serialize_object(self.pilot_symbol_sequence, "pilot_symbol_sequence")
+        process.serialize_integer(
+            int(self.repeat_pilot_symbol_sequence), "repeat_pilot_symbol_sequence"
+        )
 
     @override
     @classmethod
@@ -474,6 +478,12 @@ class FilteredSingleCarrierWaveform(ConfigurablePilotWaveform):
         parameters["pilot_rate"] = process.deserialize_integer(
             "pilot_rate", cls.__DEFAULT_PILOT_RATE
         )
+        parameters["pilot_symbol_sequence"] = process.deserialize_object(
+            "pilot_symbol_sequence", PilotSymbolSequence, None
+        )
+        parameters["repeat_pilot_symbol_sequence"] = bool(
+            process.deserialize_integer("repeat_pilot_symbol_sequence", 1)
+        )
         return parameters
 
     @override
diff --git a/hermespy/modem/waveforms/orthogonal/channel.py b/hermespy/modem/waveforms/orthogonal/channel.py
index 7ab23e3..14229ea 100644
--- a/hermespy/modem/waveforms/orthogonal/channel.py
+++ b/hermespy/modem/waveforms/orthogonal/channel.py
@@ -6,6 +6,7 @@ from typing_extensions import override
 
 import numpy as np
 from scipy.interpolate import griddata
+from scipy.spatial import QhullError
 
 from hermespy.core import Serializable
 from ...symbols import StatedSymbols, Symbols
@@ -51,9 +52,14 @@ class OrthogonalLeastSquaresChannelEstimation(ChannelEstimation[OrthogonalWavefo
         holes = np.where(np.invert(resource_mask[ElementType.REFERENCE.value, ::]))
         if holes[0].size != 0:
             interpolation_stems = np.where(resource_mask[ElementType.REFERENCE.value, ::])
-            interpolated_holes = griddata(
-                interpolation_stems, reference_channel_estimation, holes, method="linear"
-            )
+            try:
+                interpolated_holes = griddata(
+                    interpolation_stems, reference_channel_estimation, holes, method="linear"
+                )
+            except QhullError:
+                # The references don't span the grid, for instance if they're all within a single
+                # word, so that only the nearest neighbor interpolation is defined
+                interpolated_holes = np.full(holes[0].size, np.nan, dtype=complex)
             channel_estimation[0, 0, holes[0], holes[1]] = interpolated_holes
 
         # Fill nan values with nearest neighbor
diff --git a/hermespy/modem/waveforms/orthogonal/ofdm.py b/hermespy/modem/waveforms/orthogonal/ofdm.py
index 7a83659..e4ef521 100644
--- a/hermespy/modem/waveforms/orthogonal/ofdm.py
+++ b/hermespy/modem/waveforms/orthogonal/ofdm.py
@@ -9,7 +9,7 @@ import numpy as np
 from scipy.fft import fft, fftfreq, fftshift, ifft, ifftshift
 from scipy.signal import find_peaks
 
-from hermespy.core import Serializable, SerializationProcess
+from hermespy.core import DeserializationProcess, Serializable, SerializationProcess
 from ...waveform import Synchronization
 from ...waveform_correlation_synchronization import CorrelationSynchronization
 from .waveform import (
@@ -166,19 +166,26 @@ class OFDMWaveform(OrthogonalWaveform, Serializable):
         frame_start_idx = (
             oversampling_factor * self.num_subcarriers
         ) // 2 - self.num_subcarriers // 2
-        freqs = fftshift(fftfreq(oversampling_factor * self.num_subcarriers))[
-            frame_start_idx : frame_start_idx + self.num_subcarriers
-        ]
+        freqs = fftshift(fftfreq(oversampling_factor * self.num_subcarriers))
 
         if self.dc_suppression:
-            dc_index = int(0.5 * symbol_subgrid.shape[1])
+            dc_index = int(0.5 * self.num_subcarriers * oversampling_factor)
             freqs[dc_index:] = np.roll(freqs[dc_index:], -1)
 
+        freqs = freqs[frame_start_idx : frame_start_idx + self.num_subcarriers]
         return symbol_subgrid * np.exp(2j * np.pi * freqs * sample_offset)
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
         OrthogonalWaveform.serialize(self, process)
+        process.serialize_integer(int(self.dc_suppression), "dc_suppression")
+
+    @classmethod
+    @override
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, Any]:
+        params = OrthogonalWaveform._DeserializeParameters(process)
+        params["dc_suppression"] = bool(process.deserialize_integer("dc_suppression", 1))
+        return params
 
 
 class SchmidlCoxPilotSection(PilotSection[OFDMWaveform]):
diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index b37cb3e..312e6a4 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -631,7 +631,9 @@ class SymbolSection(GridSection["OrthogonalWaveform"]):
 
         # Add up the additional samples from cyclic prefixes
         for resource_idx in self.pattern:
-            num += int(num_samples_per_slot * self.wave.grid_resources[resource_idx].prefix_ratio)
+            resource = self.wave.grid_resources[resource_idx]
+            if resource.prefix_type != PrefixType.NONE:
+                num += int(num_samples_per_slot * resource.prefix_ratio)
 
         # Add up the base samples from each timeslot
         return num * self.num_repetitions
@@ -720,9 +722,6 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
     """Pilot symbol section within an resource grid."""
 
     __pilot_elements: Symbols | None
-    __cached_num_subcarriers: int
-    __cached_oversampling_factor: int
-    __cached_pilot: np.ndarray | None
 
     def __init__(self, pilot_elements: Symbols | None = None, wave: OWT | None = None) -> None:
         """
@@ -741,9 +740,6 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
 
         # Initialize class attributes
         self.__pilot_elements = pilot_elements
-        self.__cached_num_subcarriers = -1
-        self.__cached_oversampling_factor = -1
-        self.__cached_pilot = None
 
     @GridSection.num_repetitions.setter  # type: ignore
     def num_repetitions(self, value: int) -> None:
@@ -814,9 +810,6 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
         if value.num_symbols < 1:
             raise ValueError("Subsymbol pilot configuration must contain at least one symbol")
 
-        # Reset the cached pilot, since the subsymbols have changed
-        self.__cached_pilot = None
-
         self.__pilot_elements = value
 
     def _pilot_sequence(self, num_symbols: int | None = None) -> np.ndarray:
@@ -872,23 +865,10 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
         if self.wave is None:
             raise RuntimeError("Pilot section must be associated with a waveform")
 
-        # Return the cached pilot signal if available and the relevant frame parameters haven't changed
-        if (
-            self.__cached_pilot is not None
-            and self.__cached_num_subcarriers == self.wave.num_subcarriers
-            and self.__cached_oversampling_factor == oversampling_factor
-        ):
-            return self.__cached_pilot
-
+        # The pilot depends on the symbols, the symbol mapping and the waveform's transformation,
+        # all of which may have changed since the last call
         pilot_symbols = self._pilot_sequence(self.wave.num_subcarriers)
-        pilot = self.wave._forward_transformation(pilot_symbols[np.newaxis, :], oversampling_factor)
-
-        # Cache the pilot
-        self.__cached_pilot = pilot
-        self.__cached_num_subcarriers = self.wave.num_subcarriers
-        self.__cached_oversampling_factor = oversampling_factor
-
-        return pilot
+        return self.wave._forward_transformation(pilot_symbols[np.newaxis, :], oversampling_factor)
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
@@ -1361,6 +1341,8 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
                     )
                 )
 
+            block_idx += section.num_words
+
         return Symbols(symbol_grid[np.newaxis, :, :])
 
     @override
@@ -1371,6 +1353,10 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
         process.serialize_object_sequence(self.grid_structure, "grid_structure")
         if self.pilot_section is not None:
             process.serialize_object(self.pilot_section, "pilot_section")
+        process.serialize_object(self.pilot_symbol_sequence, "pilot_sequence")
+        process.serialize_integer(
+            int(self.repeat_pilot_symbol_sequence), "repeat_pilot_sequence"
+        )
 
     @classmethod
     @override
@@ -1386,6 +1372,12 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
                     "grid_structure", GridSection
                 ),
                 "pilot_section": process.deserialize_object("pilot_section", PilotSection, None),
+                "pilot_sequence": process.deserialize_object(
+                    "pilot_sequence", PilotSymbolSequence, None
+                ),
+                "repeat_pilot_sequence": bool(
+                    process.deserialize_integer("repeat_pilot_sequence", 1)
+                ),
             }
         )
         return params
-- 
2.43.0


From 6fb5cc6f546fd2bc9ef2ea64b40e74e685946fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 34/38] fix: radars report targets at their range and angle,
 operating characteristics contain their samples

---
 hermespy/jcas/matched_filtering.py |  2 +-
 hermespy/jcas/ofdm_radar.py        | 13 +++++++------
 hermespy/radar/detection.py        |  2 +-
 hermespy/radar/evaluators.py       | 12 +++++-------
 hermespy/radar/fmcw.py             | 27 +++++++++------------------
 5 files changed, 23 insertions(+), 33 deletions(-)

diff --git a/hermespy/jcas/matched_filtering.py b/hermespy/jcas/matched_filtering.py
index 4d245ec..da80aba 100644
--- a/hermespy/jcas/matched_filtering.py
+++ b/hermespy/jcas/matched_filtering.py
@@ -232,7 +232,7 @@ class MatchedFilterJcas(
         )
 
         # Filter range for the minimum range
-        min_range_bin = ceil(2 * self.min_range / resolution)
+        min_range_bin = ceil(self.min_range / resolution)
 
         # Create the cube object
         range_bins = lags[min_range_bin:num_propagated_samples] * resolution
diff --git a/hermespy/jcas/ofdm_radar.py b/hermespy/jcas/ofdm_radar.py
index d0578f9..914552c 100644
--- a/hermespy/jcas/ofdm_radar.py
+++ b/hermespy/jcas/ofdm_radar.py
@@ -7,7 +7,7 @@ from typing_extensions import override
 
 import numpy as np
 from scipy.constants import speed_of_light
-from scipy.fft import ifft, fft, ifftshift
+from scipy.fft import ifft, fft, fftshift
 
 from hermespy.beamforming import ReceiveBeamformer
 from hermespy.core import DeserializationProcess, Serializable, ReceiveState, Signal, TransmitState
@@ -200,7 +200,7 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
         )
 
         # Estimate range-power profile by equation (10)
-        power_profile = ifftshift(fft(ifft(normalized_symbols[0, ::], axis=1), axis=0), axes=0)
+        power_profile = fftshift(fft(ifft(normalized_symbols[0, ::], axis=1), axis=0), axes=0)
         return np.abs(power_profile)
 
     @override
@@ -219,9 +219,10 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
         range_bins = np.arange(self.waveform.num_subcarriers) * self.range_resolution(
             device.bandwidth
         )
-        doppler_bins = np.arange(self.waveform.words_per_frame) * self.relative_doppler_resolution(
-            device.bandwidth
-        ) - self.max_relative_doppler(device.bandwidth)
+        num_words = self.waveform.words_per_frame
+        doppler_bins = (
+            np.arange(num_words) - num_words // 2
+        ) * self.relative_doppler_resolution(device.bandwidth)
 
         # Filter range for the minimum range
         min_range_index = ceil(self.min_range / self.range_resolution(device.bandwidth))
@@ -236,7 +237,7 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
             line_estimate = self.__estimate_range(
                 transmitted_symbols, line, device.bandwidth, device.oversampling_factor
             )
-            cube_data[angle_idx, ::] = line_estimate[min_range_index:]
+            cube_data[angle_idx, ::] = line_estimate[:, min_range_index:]
 
         # Create radar cube object
         cube = RadarCube(
diff --git a/hermespy/radar/detection.py b/hermespy/radar/detection.py
index 128c90c..7370dbc 100644
--- a/hermespy/radar/detection.py
+++ b/hermespy/radar/detection.py
@@ -448,7 +448,7 @@ class MaxDetector(RadarDetector, Serializable):
         cloud = RadarPointCloud(cube.range_bins.max())
         cloud.add_point(
             PointDetection.FromSpherical(
-                angles_of_arrival[0], angles_of_arrival[1], range, velocity, point_power
+                angles_of_arrival[1], angles_of_arrival[0], range, velocity, point_power
             )
         )
 
diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index caa6717..2ab7589 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -615,8 +615,8 @@ class RocEvaluationResult(EvaluationResult[RocArtifact]):
         section_magnitudes = tuple(s.num_sample_points for s in self.grid)
         for section_indices, line in zip(np.ndindex(section_magnitudes), visualization.lines[0, 0]):
             # Select the graph line scalars
-            x_axis = probabilities[section_indices + (None, 1)]  # type: ignore[arg-type]
-            y_axis = probabilities[section_indices + (None, 0)]  # type: ignore[arg-type]
+            x_axis = probabilities[section_indices + (slice(None), 1)]
+            y_axis = probabilities[section_indices + (slice(None), 0)]
 
             # Update the respective line
             line.set_data(x_axis, y_axis)
@@ -1027,11 +1027,9 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
         result = RocEvaluationResult(
             [GridDimensionInfo([SamplePoint(0)], "Scenario", "linear", ValueType.LIN)], None
         )
-        artifacts = np.empty(1, dtype=object)
-        artifacts[0] = [
-            ReceiverOperatingCharacteristic.__evaluation_from_receptions(h0, h1).artifact()
-            for h0, h1 in zip(null_receptions, alt_receptions)
-        ]
+        for h0, h1 in zip(null_receptions, alt_receptions):
+            evaluation = ReceiverOperatingCharacteristic.__evaluation_from_receptions(h0, h1)
+            result.add_artifact((0,), evaluation.artifact(), False)
         return result
 
     @classmethod
diff --git a/hermespy/radar/fmcw.py b/hermespy/radar/fmcw.py
index 4a26a44..8c84234 100644
--- a/hermespy/radar/fmcw.py
+++ b/hermespy/radar/fmcw.py
@@ -6,7 +6,7 @@ from typing_extensions import override
 
 import numpy as np
 from scipy.constants import speed_of_light, pi
-from scipy.fft import fft2, ifftshift
+from scipy.fft import fft2, fftshift
 from scipy.signal import decimate, resample_poly
 
 from hermespy.core import ReceiveState, Signal, SerializationProcess, TransmitState
@@ -115,24 +115,22 @@ class FMCW(RadarWaveform):
         chirp_stack = chirp_stack[:, : len(chirp_prototype)]
         baseband_samples = chirp_stack.conj() * chirp_prototype
 
-        if self.adc_sampling_rate > 0 and self.adc_sampling_rate < state.sampling_rate:
+        if self.adc_sampling_rate > 0:
             downsampling_rate = Fraction(
                 self.adc_sampling_rate / state.sampling_rate
             ).limit_denominator(1000)
             baseband_samples = resample_poly(
                 baseband_samples, downsampling_rate.numerator, downsampling_rate.denominator, axis=1
             )
-            _adc_bandwidth = self.adc_sampling_rate
         else:
             baseband_samples = decimate(
                 baseband_samples, state.oversampling_factor, axis=1, zero_phase=False
             )
-            _adc_bandwidth = state.bandwidth
 
-        num_bins = int(self.max_range(_adc_bandwidth) / self.range_resolution(state.bandwidth))
+        num_bins = len(self.range_bins(state.bandwidth))
         transform = fft2(baseband_samples, (baseband_samples.shape[0], num_bins))
         # fft shift the Doppler components
-        transform = ifftshift(transform, axes=0)
+        transform = fftshift(transform, axes=0)
 
         return np.abs(transform) ** 2
 
@@ -164,9 +162,8 @@ class FMCW(RadarWaveform):
     @override
     def relative_doppler_bins(self) -> np.ndarray:
         return (
-            np.arange(self.num_chirps) * self.relative_doppler_resolution
-            - self.max_relative_doppler
-        )
+            np.arange(self.num_chirps) - self.num_chirps // 2
+        ) * self.relative_doppler_resolution
 
     @override
     def frame_duration(self, bandwidth: float) -> float:
@@ -178,15 +175,9 @@ class FMCW(RadarWaveform):
 
     @override
     def range_bins(self, bandwidth: float) -> np.ndarray:
-        # The actual bandwidth may be limited by the ADC assumptions
-        adc_bandwidth = (
-            bandwidth
-            if self.adc_sampling_rate <= FMCW.__DERIVE_SAMPLING_RATE
-            else self.adc_sampling_rate
-        )
-        max_range = self.max_range(adc_bandwidth)
-        num_bins = int(max_range / self.range_resolution(bandwidth))
-        return np.linspace(0, max_range, num_bins)
+        # The maximum range may be limited by the ADC assumptions
+        resolution = self.range_resolution(bandwidth)
+        return np.arange(round(self.max_range(bandwidth) / resolution)) * resolution
 
     @property
     def num_chirps(self) -> int:
-- 
2.43.0


From bb3bac7784026a511cd779f26b95862f543f03ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 35/38] fix: radio-frequency chains filter signals of any
 length

---
 hermespy/simulation/rf/block.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hermespy/simulation/rf/block.py b/hermespy/simulation/rf/block.py
index e04281c..c78259b 100644
--- a/hermespy/simulation/rf/block.py
+++ b/hermespy/simulation/rf/block.py
@@ -212,13 +212,14 @@ class RFBlock(ABC, Generic[RFBRT], RandomNode, Serializable):
             )
 
             # Append zeros to the propagated signal if it is too short to be filtered with the anti-aliasing filter
-            if propagated_signal.num_samples < (antialiasing_filter_sos.shape[1] + 1) * 4:
+            # The zero-phase filter requires more samples than it pads at each edge
+            num_required_samples = 3 * (2 * antialiasing_filter_sos.shape[0] + 1) + 1
+            if propagated_signal.num_samples < num_required_samples:
                 padded_samples = propagated_signal.append_samples(
                     np.zeros(
                         (
                             propagated_signal.num_streams,
-                            (antialiasing_filter_sos.shape[1] + 1) * 4
-                            - propagated_signal.num_samples,
+                            num_required_samples - propagated_signal.num_samples,
                         ),
                         dtype=np.complex128,
                     )
-- 
2.43.0


From 215b6afc51f4b29a7562b09b947fe57be5a93227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 36/38] fix: listeners are notified in order and may
 unregister, replays announce OFDM radar transmissions

---
 hermespy/core/hooks.py      | 17 +++++++++++------
 hermespy/jcas/ofdm_radar.py | 12 +++++++++---
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/hermespy/core/hooks.py b/hermespy/core/hooks.py
index 8002b5b..ca70683 100644
--- a/hermespy/core/hooks.py
+++ b/hermespy/core/hooks.py
@@ -58,11 +58,11 @@ class Hook(Generic[_RT]):
 class Hookable(Generic[_RT]):
     """Base class of DSP layers that can be hooked into by callbacks."""
 
-    __hooks: set[Hook[_RT]]  # Set of unique hooks representing callbacks
+    __hooks: dict[Hook[_RT], None]  # Unique hooks representing callbacks in order of registration
 
     def __init__(self) -> None:
         # Initialize attributes
-        self.__hooks = set()
+        self.__hooks = dict()
 
     def add_hook(self, hook: Hook[_RT]) -> None:
         """Add a callback to be called after processing the DSP layer.
@@ -73,7 +73,7 @@ class Hookable(Generic[_RT]):
                 Hook to be added.
         """
 
-        self.__hooks.add(hook)
+        self.__hooks[hook] = None
 
     def add_callback(self, callback: Callable[[_RT], None]) -> Hook[_RT]:
         """Add a callback to be called after processing the DSP layer.
@@ -105,16 +105,21 @@ class Hookable(Generic[_RT]):
                 Hook to be removed.
         """
 
-        self.__hooks.discard(hook)
+        self.__hooks.pop(hook, None)
 
     def notify(self, output: _RT) -> None:
         """Notify all registered callbacks of the DSP layer.
 
+        Callbacks are called in the order of their registration.
+        They may add and remove callbacks without effect on the current notification,
+        except that callbacks removed before being called are skipped.
+
         Args:
 
             output (_RT):
                 Output of the DSP layer.
         """
 
-        for hook in self.__hooks:
-            hook(output)
+        for hook in tuple(self.__hooks):
+            if hook in self.__hooks:
+                hook(output)
diff --git a/hermespy/jcas/ofdm_radar.py b/hermespy/jcas/ofdm_radar.py
index 914552c..353d35a 100644
--- a/hermespy/jcas/ofdm_radar.py
+++ b/hermespy/jcas/ofdm_radar.py
@@ -164,11 +164,17 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
     def power(self) -> float:
         return 0.0 if self.waveform is None else self.waveform.power
 
+    @override
+    def notify_transmit_callbacks(self, transmission: JCASTransmission) -> None:
+        # Remember the announced transmission, since its symbols are required during reception
+        self.__last_transmission = transmission
+
+        # Propagate to the base notify routine
+        super().notify_transmit_callbacks(transmission)
+
     @override
     def _transmit(self, device: TransmitState, duration: float) -> JCASTransmission:
-        communication_transmission = TransmittingModemBase._transmit(self, device, duration)
-        self.__last_transmission = JCASTransmission(communication_transmission)
-        return self.__last_transmission
+        return JCASTransmission(TransmittingModemBase._transmit(self, device, duration))
 
     def __estimate_range(
         self,
-- 
2.43.0


From 391cef02c5498e5a3e4c9eef097d0764cfb7dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 37/38] fix: signals of any length are decimated and filtered
 when resampled

---
 hermespy/core/signal_model.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 88cef2c..81ed1a9 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -23,7 +23,7 @@ from numba import jit
 from scipy.constants import pi
 from scipy.fft import fft, fftshift, fftfreq
 from scipy.ndimage import convolve1d
-from scipy.signal import butter, decimate, sosfiltfilt, firwin
+from scipy.signal import butter, cheby1, decimate, sosfiltfilt, firwin
 
 from .definitions import InterpolationMode
 from .factory import Serializable, SerializationProcess, DeserializationProcess
@@ -560,7 +560,7 @@ class SignalBlock(np.ndarray[tuple[int, int], np.dtype[np.complex128]], Serializ
         if sampling_rate_new < sampling_rate_old:
             decimation = sampling_rate_old / sampling_rate_new
             if decimation % 1.0 == 0.0:
-                samples_new = decimate(samples_new, int(decimation), axis=1)
+                samples_new = self._decimate(samples_new, int(decimation))
                 off_new = round(self.offset * sampling_rate_new / sampling_rate_old)
                 return SignalBlock(
                     samples_new.shape[0], samples_new.shape[1], off_new, samples_new.tobytes()
@@ -657,6 +657,25 @@ class SignalBlock(np.ndarray[tuple[int, int], np.dtype[np.complex128]], Serializ
             self.num_streams, self.num_samples, self.offset, bytearray(mixed_samples)
         )
 
+    @staticmethod
+    def _decimate(samples: np.ndarray, factor: int) -> np.ndarray:
+        """Internal subroutine for resampled method. Decimates the given samples.
+
+        Args:
+            samples: Samples to be decimated.
+            factor: Integer decimation factor.
+        """
+
+        decimation_filter = cheby1(8, 0.05, 0.8 / factor, output="sos")
+        padlen = 3 * (2 * decimation_filter.shape[0] + 1)
+        if samples.shape[1] > padlen:
+            return decimate(samples, factor, axis=1)
+
+        # The padding at each edge of the zero-phase filter can't exceed the number of available samples
+        return sosfiltfilt(decimation_filter, samples, axis=1, padlen=samples.shape[1] - 1)[
+            :, ::factor
+        ]
+
     @staticmethod
     def _resample_antialiasing(samples: np.ndarray, N: Any, Wn: Any) -> np.ndarray:
         """Internal subroutine for resampled method. Applies Butterworth filter to the given samples.
@@ -667,7 +686,17 @@ class SignalBlock(np.ndarray[tuple[int, int], np.dtype[np.complex128]], Serializ
         """
 
         aliasing_filter = butter(N, Wn, btype="low", output="sos")
-        return sosfiltfilt(aliasing_filter, samples, axis=1)
+
+        # The padding at each edge of the zero-phase filter can't exceed the number of available samples
+        if samples.shape[1] < 1:
+            return samples
+        padlen = 3 * (2 * aliasing_filter.shape[0] + 1)
+        return sosfiltfilt(
+            aliasing_filter,
+            samples,
+            axis=1,
+            padlen=None if samples.shape[1] > padlen else samples.shape[1] - 1,
+        )
 
     @staticmethod
     @jit(nopython=True)
-- 
2.43.0


From 8f490178a6338fdf61eb9d2a4e2e04ecaecfb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 38/38] fix: static and letter trajectories follow their path
 and gaze, radar targets are located at their pose

---
 hermespy/channel/radar/multi.py  |  4 ++--
 hermespy/simulation/animation.py | 23 +++++++++++++----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/hermespy/channel/radar/multi.py b/hermespy/channel/radar/multi.py
index 5c642cf..e88aa14 100644
--- a/hermespy/channel/radar/multi.py
+++ b/hermespy/channel/radar/multi.py
@@ -379,8 +379,8 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
 
         # Query target global coordiante system transformations
         trajectory_sample = target.sample_trajectory(state.time)
-        target_backwards_transform = trajectory_sample.pose
-        target_forwards_transform = trajectory_sample.pose.invert()
+        target_forwards_transform = trajectory_sample.pose
+        target_backwards_transform = trajectory_sample.pose.invert()
 
         # Make sure the transmitter / receiver positions don't collide with target locations
         # This implicitly violates the far-field assumption and leads to numeric instabilities
diff --git a/hermespy/simulation/animation.py b/hermespy/simulation/animation.py
index 94aa632..4db6efb 100644
--- a/hermespy/simulation/animation.py
+++ b/hermespy/simulation/animation.py
@@ -262,6 +262,10 @@ class StaticTrajectory(Trajectory):
         return self.__pose[:3, :3]
 
     def sample(self, timestamp: float) -> TrajectorySample:
+        # Static poses may still be oriented towards a moving target
+        if self._lookat_flag:
+            return Trajectory.sample(self, timestamp)
+
         return TrajectorySample(timestamp, self.__pose, self.__velocity)
 
     @staticmethod
@@ -370,19 +374,19 @@ class BITrajectoryB(Trajectory):
 
     def __start_end_point_time(self, timestamp: float) -> tuple:
         """Returns start start_point, end_point, start_time and end_time of the straight path section."""
-        if timestamp > self.__duration * 4 / 5:
+        if timestamp >= self.__duration * 4 / 5:
             start_point = self.__height * np.array([0.5, 0.5, 0], dtype=np.float64)
             end_point = self.__height * np.array([0, 0.5, 0], dtype=np.float64)
             start_time = self.__duration * 4 / 5
             end_time = self.__duration
 
-        elif timestamp > self.__duration * 3 / 5:
+        elif timestamp >= self.__duration * 3 / 5:
             start_point = self.__height * np.array([0.5, 0, 0], dtype=np.float64)
             end_point = self.__height * np.array([0.5, 0.5, 0], dtype=np.float64)
             start_time = self.__duration * 3 / 5
             end_time = self.__duration * 4 / 5
 
-        elif timestamp > self.__duration * 2 / 5:
+        elif timestamp >= self.__duration * 2 / 5:
             start_point = np.array([0, 0, 0], dtype=np.float64)
             end_point = self.__height * np.array([0.5, 0, 0], dtype=np.float64)
             start_time = self.__duration * 2 / 5
@@ -397,16 +401,15 @@ class BITrajectoryB(Trajectory):
         return start_point, end_point, start_time, end_time
 
     def sample_velocity(self, timestamp: float) -> np.ndarray:
-        start_point, end_point, start_time, end_time = self.__start_end_point_time(timestamp)
-        if timestamp <= start_time or timestamp >= end_time:
+        if timestamp < 0.0 or timestamp >= self.__duration:
             return np.zeros(3, np.float64)
-        return (end_point - start_point) / end_time - start_time
+        start_point, end_point, start_time, end_time = self.__start_end_point_time(timestamp)
+        return (end_point - start_point) / (end_time - start_time)
 
     def sample_translation(self, timestamp: float) -> np.ndarray:
-        start_point, _, start_time, end_time = self.__start_end_point_time(timestamp)
-        if timestamp <= start_time or timestamp >= end_time:
-            return np.array([0, 0.5 * self.__height, 0], np.float64)
-        return start_point + self.sample_velocity(timestamp) * (timestamp - start_time)
+        t = np.clip(timestamp, 0.0, self.__duration)
+        start_point, end_point, start_time, end_time = self.__start_end_point_time(t)
+        return start_point + (end_point - start_point) * (t - start_time) / (end_time - start_time)
 
     def sample_orientation(self, timestamp: float) -> np.ndarray:
         return np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], float)
-- 
2.43.0

