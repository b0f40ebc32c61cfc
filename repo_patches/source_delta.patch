From d43ebcd33e22055ac48ad7a395fb6c2c9b3d20c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 01/35] fix: dispatcher imports read_config from where it lives

forcepho.utils has no read_config, so importing forcepho.dispatcher raised
ImportError.
---
 forcepho/dispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 2c7a088..f007fd0 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -18,7 +18,7 @@ import numpy as np
 from astropy.io import fits
 
 from .superscene import SuperScene, LinkedSuperScene, rectify_catalog
-from .utils import read_config
+from .config import read_config
 #from .child import sampling_task, optimization_task
 
 
-- 
2.43.0


From c1d79739810bda188994a2e1c728e9bd6f607acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:57 +0000
Subject: [PATCH 02/35] fix: dispatcher names MPI and logger are defined
 however the module is entered

MPI was only bound when the module ran as __main__ and logger only once
do_parent had run, so MPIQueue, do_parent and do_child raised NameError when
used as an imported library.
---
 forcepho/dispatcher.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index f007fd0..a9e3a0a 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -25,6 +25,8 @@ from .config import read_config
 __all__ = ["MPIQueue",
            "do_child", "do_parent"]
 
+logger = logging.getLogger('dispatcher-parent')
+
 
 class MPIQueue:
     """Simple implementation of an MPI queue.  Work can be submitted to the queue
@@ -79,6 +81,8 @@ class MPIQueue:
         result : object
             The result generated and passed by the child.
         """
+        from mpi4py import MPI
+
         if blocking == 'all' and not self.irecv_handles:
             return []
 
@@ -115,6 +119,8 @@ class MPIQueue:
         child process at the top of the (idle) queue. If no children are idle,
         an error is raised.
         """
+        from mpi4py import MPI
+
         if tag == 'any':
             tag = MPI.ANY_TAG
 
@@ -157,10 +163,6 @@ def do_parent(comm, config=None):
     timer = time.perf_counter
     tstart = timer()
 
-    # TODO: not really sure if this is the "right" way to use logging
-    # but isn't the point that we don't have to pass around a logger object?
-    global logger
-    logger = logging.getLogger('dispatcher-parent')
     logger.info(f'Starting parent on {socket.gethostname()}')
 
     rank = comm.Get_rank()
@@ -247,6 +249,8 @@ def do_parent(comm, config=None):
 
 
 def do_child(comm, config=None):
+    from mpi4py import MPI
+
     rank = comm.Get_rank()
     logger = logging.getLogger(f'child-{rank}')
     parent = 0
@@ -319,6 +323,7 @@ def dummy_work(patcher, task, config, logger):
 
 def main(config=None):
     # Demo usage of the queue
+    from mpi4py import MPI
 
     # MPI communicator
     comm = MPI.COMM_WORLD
@@ -342,9 +347,6 @@ class ArgParseFormatter(argparse.RawDescriptionHelpFormatter, argparse.ArgumentD
 
 
 if __name__ == "__main__":
-    # Hide this MPI import in __main__ so one can import this module without MPI
-    from mpi4py import MPI
-
     parser = argparse.ArgumentParser(description='MPI dispatcher interface',
                                      formatter_class=ArgParseFormatter)
     # Any command line arguments can be added here
-- 
2.43.0


From e61193d6596741f7da241e2b6635626e145075b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:57 +0000
Subject: [PATCH 03/35] fix: MPIQueue works with no outstanding tasks and with
 the default tag

A non-blocking collect() with nothing outstanding iterated over the None that
MPI returns, and submit() without a tag sent with MPI.ANY_TAG, which MPI rejects.
---
 forcepho/dispatcher.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index a9e3a0a..dee0734 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -83,12 +83,11 @@ class MPIQueue:
         """
         from mpi4py import MPI
 
-        if blocking == 'all' and not self.irecv_handles:
+        if not self.irecv_handles:
+            if blocking and blocking != 'all':
+                raise RuntimeError('blocking collect() requested but there are no outstanding tasks')
             return []
 
-        if blocking and not self.irecv_handles:
-            raise RuntimeError('blocking collect() requested but there are no outstanding tasks')
-
         statuses = [MPI.Status() for _ in range(len(self.irecv_handles))]
         if blocking == 'all':
             results = MPI.Request.waitall(self.irecv_handles, statuses)
@@ -121,8 +120,8 @@ class MPIQueue:
         """
         from mpi4py import MPI
 
-        if tag == 'any':
-            tag = MPI.ANY_TAG
+        # ANY_TAG is only valid on the receiving side
+        send_tag, recv_tag = (0, MPI.ANY_TAG) if tag == 'any' else (tag, tag)
 
         # Why make this an error rather than queue it up for later?
         # Because we want to generate tasks with the freshest SuperScene info
@@ -137,10 +136,10 @@ class MPIQueue:
         logger.info(f'Sending task {tag} to child {child}')
         if child in self.busy:
             raise ValueError(f'About to send task to child {child} that is already busy!')
-        self.comm.send(task, dest=child, tag=tag)
+        self.comm.send(task, dest=child, tag=send_tag)
         # Queue up the eventual receive of the result
         irecv_bufsize = int(10e6)  # TODO: have to specify a max recv size. Better way to do this? The Jades demo payload is 50 KB.
-        rreq = self.comm.irecv(irecv_bufsize, source=child, tag=tag)
+        rreq = self.comm.irecv(irecv_bufsize, source=child, tag=recv_tag)
         self.irecv_handles += [rreq]
         self.busy += [child]
         return child
-- 
2.43.0


From fbbca5624ac39eb6dba75a1ff0ae17d5565792c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 04/35] fix: dispatcher children run the optimization or
 sampling task

The event loop was left calling dummy_work, which takes a different task
structure and returns a different result, so every child died on its first task.
---
 forcepho/dispatcher.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index dee0734..6a8579d 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -19,7 +19,6 @@ from astropy.io import fits
 
 from .superscene import SuperScene, LinkedSuperScene, rectify_catalog
 from .config import read_config
-#from .child import sampling_task, optimization_task
 
 
 __all__ = ["MPIQueue",
@@ -256,6 +255,7 @@ def do_child(comm, config=None):
 
     # --- Patch Maker (gets reused between patches) ---
     from .patches import JadesPatch
+    from .tasks import optimize, sample
     patcher = JadesPatch(metastore=config.metastorefile,
                          psfstore=config.psfstorefile,
                          pixelstore=config.pixelstorefile,
@@ -263,12 +263,12 @@ def do_child(comm, config=None):
                          return_residual=True)
 
     # --- What are we doing? ---
-    #if config.mode == "optimization":
-    #    work = optimize
-    #elif config.mode == "sampling":
-    #    work = sample
-    #else:
-    work = dummy_work
+    if config.mode == "optimization":
+        work = optimize
+    elif config.mode == "sampling":
+        work = sample
+    else:
+        raise ValueError(f"unknown mode {config.mode}")
 
     # --- Event Loop ---
     while True:
-- 
2.43.0


From e8b7e98d2021587eaee233adc98c9a140d7b9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 05/35] fix: dispatcher logs each result under the task that
 produced it

Results were checked in under the id of the most recently submitted task, so as
soon as two children were busy the source and patch logs named the wrong patch.
---
 forcepho/dispatcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 6a8579d..ee7bc82 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -227,7 +227,7 @@ def do_parent(comm, config=None):
                 sceneDB.checkin_region(result['final'], result['out'].fixed,
                                        config.sampling_draws,
                                        block_covs=result['covs'],
-                                       taskID=taskid)
+                                       taskID=result['out'].patchID)
 
         # Receive any stragglers
         results = queue.collect(blocking='all')
@@ -289,7 +289,7 @@ def do_child(comm, config=None):
         region, active, fixed, bounds = scene
         out, step, stats = fit
         final, covs = out.fill(region, active, fixed, model, bounds=bounds,
-                               step=step, stats=stats, patchID=0)
+                               step=step, stats=stats, patchID=status.tag)
 
         # --- write to disk? ---
 
-- 
2.43.0


From 48ecc62c79b5878eb41734d00b5f50da287bfd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 06/35] fix: dispatcher checks in the results of the last
 outstanding tasks

They were received and thrown away, which also left their sources marked active
and unavailable in the final state file.
---
 forcepho/dispatcher.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index ee7bc82..c36e89a 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -232,10 +232,11 @@ def do_parent(comm, config=None):
         # Receive any stragglers
         results = queue.collect(blocking='all')
         logger.info(f'Collected {len(results)} straggler result(s)')
-        # TODO: finalize the checkin args, then update this
-        #for result in results:
-        #    sceneDB.checkin_region(result.active, result.fixed,
-        #                           result.niter, mass_matrix=None)
+        for result in results:
+            sceneDB.checkin_region(result['final'], result['out'].fixed,
+                                   config.sampling_draws,
+                                   block_covs=result['covs'],
+                                   taskID=result['out'].patchID)
 
         ttotal = timer() - tstart
         logger.info(f"Finished in {ttotal:.1f}s")
-- 
2.43.0


From 78f9f5fcd7ea3b4d81568644b10a2ebf94e2647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:49 +0000
Subject: [PATCH 07/35] fix: SuperScene refuses regions that share sources with
 a checked-out region

Only active sources near the center were looked at.  A source held fixed in one
outstanding region could be active in another, and friends-of-friends growth
could reach past the boundary radius and activate a source that was already
active elsewhere.
---
 forcepho/superscene.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index ccab493..bd95b27 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -437,8 +437,17 @@ class SuperScene:
         # FIXME: make sure at least one source is fixed?
         if len(fixed_inds) == 0:
             fixed_inds = finds[:1]
+        # none of these may already belong to a region that is checked out
+        if not self._available(kinds[active_inds], kinds[fixed_inds]):
+            return None, None, None
         return radius, kinds[active_inds], kinds[fixed_inds]
 
+    def _available(self, *inds):
+        """Whether all the sources at the given indices are valid, i.e. neither
+        active nor fixed in any region that is currently checked out.
+        """
+        return all(np.all(self.sourcecat["is_valid"][i]) for i in inds)
+
     def draw_center(self, seed_index=-1):
         """Randomly draw a center for the proposed patch.  Currently this
         works by drawing an object at random, with weights given by the
@@ -623,6 +632,10 @@ class LinkedSuperScene(SuperScene):
         end = min(len(fixed_inds), max_fixed)
         fixed_inds = fixed_inds[:end]
 
+        # none of these may already belong to a region that is checked out
+        if not self._available(active_inds, fixed_inds):
+            return (seed["ra"], seed["dec"]), None, None
+
         return region, active_inds, fixed_inds
 
     def checkout_region(self, seed_index=-1, max_fixed=None):
-- 
2.43.0


From 5eaebbb85ec16af7aa698273b9a785cb3a4e5572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:49 +0000
Subject: [PATCH 08/35] fix: seeds are drawn among the valid sources, whatever
 the spread of n_iter

The weights used ~ on an integer column, so unavailable sources kept a finite
weight, and exponentiated about the mean, which overflowed (and made
np.random.choice raise) once the numbers of iterations differed by enough.
---
 forcepho/superscene.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index bd95b27..ce9f12e 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -477,13 +477,17 @@ class SuperScene:
         return self.exp_weight()
 
     def exp_weight(self):
-        # just one for inactive, zero if active
-        w = (~self.sourcecat["is_valid"]).astype(np.float64)
+        # just one for valid, zero if not
+        valid = self.sourcecat["is_valid"].astype(bool)
+        if not np.any(valid):
+            # nothing is available, so any seed will do (and be refused)
+            return np.ones(self.n_sources) / self.n_sources
         # multiply by exponential
         n = np.abs(self.sourcecat["n_iter"])
         #mu = min(n.min(), self.target_niter)
         sigma = 20
-        w *= np.exp((n.mean() - n) / sigma)
+        w = np.zeros(self.n_sources)
+        w[valid] = np.exp((n[valid].min() - n[valid]) / sigma)
         return w / w.sum()
 
     def sigmoid_weight(self):
-- 
2.43.0


From 0bea4be66621b0262228435031bf3a0710debba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:04 +0000
Subject: [PATCH 09/35] fix: a source larger than the maximum patch radius can
 be checked out

With no source inside the maximum radius checkout_region raised ValueError from
the max of an empty array, ending the run.
---
 forcepho/superscene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index ce9f12e..b356a01 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -416,8 +416,8 @@ class SuperScene:
 
         # How many sources have an outer distance within max patch size
         N_inside = (metric < self.maxradius).sum()
-        # restrict to <= maxactive.
-        N_active = min(self.maxactive, N_inside)
+        # restrict to <= maxactive, but always fit at least one.
+        N_active = min(self.maxactive, max(N_inside, 1))
 
         # set up to maxsources active, add them to active scene
         #active = candidates[order][:N_active]
-- 
2.43.0


From c05d8daaf92fff2978b40b48c50bfb3babb33651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 10/35] fix: SuperScene.writeout never leaves a missing or
 partial state on disk

The old catalog was removed before the new one was written and the log was
truncated in place, so an interruption or a full disk while writing lost the
state that the file exists to preserve.  Also do not overwrite the catalog with
the log when the file name lacks '.fits'.
---
 forcepho/superscene.py |  9 +++++++--
 forcepho/utils/io.py   | 24 +++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index b356a01..71a892a 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -19,6 +19,7 @@ from astropy.coordinates import SkyCoord
 
 from .region import CircularRegion
 from .sources import Galaxy
+from .utils import atomic_write
 
 
 __all__ = ["REQUIRED_COLUMNS",
@@ -90,8 +91,12 @@ class SuperScene:
     def writeout(self, filename=None):
         if filename is None:
             filename = self.statefilename
-        fits.writeto(filename, self.sourcecat, overwrite=True)
-        with open(filename.replace(".fits", "_log.json"), "w") as fobj:
+        logname = os.path.splitext(filename)[0] + "_log.json"
+        # Complete files are moved into place, so that a state (and log) is
+        # always available on disk, even if this is interrupted.
+        with atomic_write(filename) as tmp:
+            fits.writeto(tmp, self.sourcecat, overwrite=True)
+        with atomic_write(logname) as tmp, open(tmp, "w") as fobj:
             logs = dict(sourcelog=self.sourcelog, patchlog=self.patchlog)
             json.dump(logs, fobj)
 
diff --git a/forcepho/utils/io.py b/forcepho/utils/io.py
index 278c846..b51fa07 100644
--- a/forcepho/utils/io.py
+++ b/forcepho/utils/io.py
@@ -3,11 +3,33 @@
 """io.py - utilities for writing patch & chain data to disk
 """
 
+import os
+from contextlib import contextmanager
 import numpy as np
 import json
 import h5py
 
-__all__ = ["write_to_disk", "write_residuals"]
+__all__ = ["write_to_disk", "write_residuals", "atomic_write"]
+
+
+@contextmanager
+def atomic_write(filename):
+    """Context manager to replace a file on disk in a single step.  Yields the
+    name of a temporary file in the same directory; if the body completes, this
+    is synced and moved to `filename`, otherwise it is removed. Either way
+    `filename` never refers to an incomplete file.
+    """
+    head, tail = os.path.split(filename)
+    tmp = os.path.join(head, f".tmp{os.getpid()}_{tail}")
+    try:
+        yield tmp
+        with open(tmp, "rb") as f:
+            os.fsync(f.fileno())
+        os.replace(tmp, filename)
+    except BaseException:
+        if os.path.exists(tmp):
+            os.remove(tmp)
+        raise
 
 
 def write_to_disk(out, outroot, model, config, residual=None):
-- 
2.43.0


From 41dc6c2010c1870d716140d30c1b39fb08ce214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:28 +0000
Subject: [PATCH 11/35] fix: samples and residuals files are complete or
 absent, and write errors are raised

Both were written in place, so an interruption destroyed the results of an
earlier write and left an unreadable file, and bare excepts turned disk errors
on attributes and pixel data into files that silently lacked them.
---
 forcepho/fitting.py  | 7 ++++---
 forcepho/utils/io.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index f4e7481..2f111e9 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -13,6 +13,7 @@ import numpy as np
 
 from .model import ConstrainedTransformedPosterior as Posterior
 from .utils import make_statscat, make_chaincat, get_sample_cat, extract_block_diag
+from .utils import atomic_write
 from .region import CircularRegion
 
 
@@ -189,15 +190,15 @@ class Result(object):
         """
         msgs = []
         import h5py
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
-        with h5py.File(filename, "w") as out:
+        os.makedirs(os.path.dirname(filename) or ".", exist_ok=True)
+        with atomic_write(filename) as tmp, h5py.File(tmp, "w") as out:
             for name, value in vars(self).items():
                 if type(value) == np.ndarray:
                     out.create_dataset(name, data=value)
                 else:
                     try:
                         out.attrs[name] = value
-                    except:
+                    except(TypeError, ValueError):
                         msg = "could not save {} with value {} to {}".format(name, value, filename)
                         if verbose:
                             print(msg)
diff --git a/forcepho/utils/io.py b/forcepho/utils/io.py
index b51fa07..f0fa0f0 100644
--- a/forcepho/utils/io.py
+++ b/forcepho/utils/io.py
@@ -79,7 +79,7 @@ def write_residuals(patcher, filename, residuals=None):
     metas = ["D", "CW", "crpix", "crval"]
     epaths = patcher.epaths
 
-    with h5py.File(filename, "w") as out:
+    with atomic_write(filename) as tmp, h5py.File(tmp, "w") as out:
         out.create_dataset("epaths", data=np.array(epaths, dtype="S"))
         out.create_dataset("ebands", data=np.array(patcher.bands, dtype="S"))
         #out.create_dataset("exposure_start", data=patcher.exposure_start)
@@ -112,5 +112,5 @@ def make_imset(out, paths, name, arrs):
 
         try:
             g.create_dataset(name, data=np.array(arrs[i]))
-        except:
+        except(TypeError, ValueError, IndexError):
             print("Could not make {}/{} dataset from {}".format(epath, name, arrs[i]))
-- 
2.43.0


From b8386881803e836a02bf01d29591ce5087423ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:30 +0000
Subject: [PATCH 12/35] fix: an interrupted MetaStore.write_to_file keeps the
 previous metadata

---
 forcepho/patches/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 1e6b5c4..f30d952 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -14,6 +14,7 @@ from astropy.io import fits
 from astropy.wcs import WCS
 
 from ..region import polygon_contains
+from ..utils import atomic_write
 
 # astropy is very noisy
 import warnings
@@ -390,7 +391,7 @@ class MetaStore:
             hstrings[band] = {}
             for expID, hdr in exps.items():
                 hstrings[band][expID] = hdr.tostring()
-        with open(filename, "w") as f:
+        with atomic_write(filename) as tmp, open(tmp, "w") as f:
             json.dump(hstrings, f)
         if len(self.tree) > 0:
             import asdf
-- 
2.43.0


From e3accd526ec27b0f6ea65e392a5dfbaaec647829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 13/35] fix: PixelStore.add_exposure leaves the images it is
 given alone

Background subtraction, masking and calibration were done in place, so adding
the same images again, e.g. after a failed write, stored them with the
background and calibration applied twice.
---
 forcepho/patches/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index f30d952..ae5a27f 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -170,8 +170,9 @@ class PixelStore:
         hdr = imset.hdr
         band, expID = imset.band, imset.expID
 
-        im = imset.im
-        ierr = imset.ierr
+        # work on copies, so the same images can be added again
+        im = imset.im.copy()
+        ierr = imset.ierr.copy()
         # -- backgound subtract ---
         if imset.bkg is not None:
             bkg = imset.bkg
-- 
2.43.0


From 913cf06cfd1fe135b0484679aa620b3e4766ecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 14/35] fix: PixelStore does not reset the image geometry of a
 store it failed to read

Any OSError while opening an existing store for reading, e.g. a transient one on
a network filesystem, overwrote its stored nside_full and super_pixel_size.
---
 forcepho/patches/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index ae5a27f..3337ac4 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -104,7 +104,7 @@ class PixelStore:
             with h5py.File(self.h5file, "r") as h5:
                 self.nside_full = h5.attrs["nside_full"]
                 self.super_pixel_size = h5.attrs["super_pixel_size"]
-        except(KeyError, OSError):
+        except(KeyError, FileNotFoundError):
             # file or attrs do not exist, create them
             nside_full = np.array(nside_full)
             print(f"Adding nside_full={nside_full}, super_pixel_size={super_pixel_size} to attrs")
-- 
2.43.0


From 275c9479d19eae50309fc783318de0cb86c33e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 15/35] fix: StorePatch loads the WCSes it searches for
 exposures

MetaStore no longer builds them by default, so find_exposures never found any.
---
 forcepho/patches/pixel_patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index d0f3d58..c8bd3cc 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -250,7 +250,7 @@ class StorePatch(PixelPatch):
                          splinedata=splinedata,
                          spline_smoothing=spline_smoothing)
 
-        self.metastore = MetaStore(metastore)
+        self.metastore = MetaStore(metastore, load_all=True)
         self.pixelstore = PixelStore(pixelstore)
 
     def find_exposures(self, region, bandlist):
-- 
2.43.0


From 1d31d356c3d888f6a20a1f945f96635a85cbf455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 16/35] fix: cached ln-probabilities always belong to the
 position asked for

The cache kept a reference to the caller's z, so updating it in place returned
the values of the old position; it marked the new position as cached before the
volume correction (or only part of the values, if interrupted); and it ignored
changes of the sampling flag and of the prior made since it was filled.
---
 forcepho/model.py | 57 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 18f637e..c225995 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -97,6 +97,29 @@ class Posterior:
         self.ncall += 1
         raise(NotImplementedError)
 
+    _cached_settings = None
+
+    def _settings(self):
+        """Anything other than `z` that the cached values depend on
+        """
+        return (getattr(self, "sampling", None), getattr(self, "_lnpriorfn", None))
+
+    def _stale(self, z):
+        """Whether the cached values are for something other than `z`
+        """
+        return np.any(z != self._z) or (self._cached_settings != self._settings())
+
+    def _set_cache(self, z, q, lnp, lnp_grad):
+        """Cache the results of an evaluation.  The position is stored last, and
+        as a copy since the caller is free to update `z` in place.
+        """
+        self._z = np.nan
+        self._lnp = lnp
+        self._lnp_grad = lnp_grad
+        self._q = q
+        self._cached_settings = self._settings()
+        self._z = np.array(z)
+
     def lnprob(self, z):
         """Get the ln-probability at parameter position `z`.  This uses the
         cached value of the ln-probability if z has not changed, and otherwise
@@ -113,7 +136,7 @@ class Posterior:
         lnp : np.float
             The ln-probability at the parameter position `z`
         """
-        if np.any(z != self._z):
+        if self._stale(z):
             self.evaluate(z)
         return self._lnp
 
@@ -135,7 +158,7 @@ class Posterior:
             The gradient of the ln-probability with repsect to `z`, at the
             parameter position `z`
         """
-        if np.any(z != self._z):
+        if self._stale(z):
             self.evaluate(z)
         return self._lnp_grad
 
@@ -195,7 +218,7 @@ class Posterior:
         Note this *removes* the jacobian volume correction necessary for
         good sampling.
         """
-        if np.any(z != self._z):
+        if self._stale(z):
             self.evaluate(z)
         nll = -self._lnp
         nll_grad = -self._lnp_grad
@@ -207,7 +230,7 @@ class Posterior:
         Note this *removes* the jacobian volume correction necessary for
         good sampling, but that hinders optimization.
         """
-        if np.any(z != self._z):
+        if self._stale(z):
             self.evaluate(z)
         return -self._lnp / self.ndof
 
@@ -215,7 +238,7 @@ class Posterior:
         """Some samplers want a single function to return lnp, dlnp.
         This is that.
         """
-        if np.any(z != self._z):
+        if self._stale(z):
             self.evaluate(z)
         return self._lnp, self._lnp_grad
 
@@ -284,7 +307,7 @@ class FastPosterior(Posterior):
         # --- initialize some things ---
         self.sampling = sampling
         self.ncall = 0
-        self._z = -99
+        self._z = np.nan
         self._q = -99
         self.mhalf = np.array(-0.5, dtype=np.float64)
 
@@ -341,22 +364,21 @@ class FastPosterior(Posterior):
             self._lnprior = lpr
             self._lnprior_grad = lpr_grad
 
-        self._lnp = ll + lpr
+        lnp = ll + lpr
         # Assumes Jacobian is diagonal
-        self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian
-        self._q = q
-        self._z = z
+        lnp_grad = (ll_grad + lpr_grad) * self._jacobian
         # do volume correction when sampling
         if self.sampling:
-            self._lnp += self._lndetjac
-            self._lnp_grad += self._lndetjac_grad
+            lnp += self._lndetjac
+            lnp_grad += self._lndetjac_grad
+        self._set_cache(z, q, lnp, lnp_grad)
 
         # --- Logging/Debugging ---
         if self.debug:
             print("chi2: {}".format(chi2))
 
         if self.logging:
-            self.pos_history.append(z)
+            self.pos_history.append(np.array(z))
             self.lnp_history.append(ll)
             self.grad_history.append(ll_grad)
 
@@ -430,7 +452,7 @@ class SlowPosterior(Posterior):
 
         # --- initialize some things ---
         self.ncall = 0
-        self._z = -99
+        self._z = np.nan
         self._q = -99
 
     def evaluate(self, z):
@@ -457,12 +479,11 @@ class SlowPosterior(Posterior):
         self._lnprior = lpr
         self._lnprior_grad = lpr_grad
 
-        self._lnp = ll + lpr + self._lndetjac
+        lnp = ll + lpr + self._lndetjac
         # TODO: In the general case this should be a dot product of the
         # gradient vector with a Jacobian matrix, but for now the jacobian is diagonal so this works
-        self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian + self._lndetjac_grad
-        self._q = q
-        self._z = z
+        lnp_grad = (ll_grad + lpr_grad) * self._jacobian + self._lndetjac_grad
+        self._set_cache(z, q, lnp, lnp_grad)
 
     def residuals(self, Theta=None):
         """Construct model image (residuals) for the given parameter vecotrs.
-- 
2.43.0


From 36ce21b486a2187e9cd48f81762ce0a713383ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 17/35] fix: computing a design matrix leaves the prepared
 patch as it was

The metadata and reference coordinates of the last single source stayed in
place, so after the linear flux optimization the optimized positions were
reported relative to the wrong zero point and the model could not be evaluated.
---
 forcepho/patches/device_patch.py | 36 ++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 00e9a5f..a798ad6 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -217,24 +217,34 @@ class DevicePatchMixin:
         if not proposer:
             proposer = self.get_proposer()
 
+        # Packing single source scenes replaces the metadata of the prepared scene
+        to_restore = self.meta_names + ["patch_reference_coordinates", "scene", "return_residual"]
+        original = {name: getattr(self, name) for name in to_restore}
+
         # Pack first scene and send it with pixel data
         self.return_residual = True
-        # loop over scenes/sources
-        for i, scene in enumerate(scenes):
-            # get the metadata for this scene packed and sent (data pointers do not change)
-            self.pack_meta(scene)
+        try:
+            # loop over scenes/sources
+            for i, scene in enumerate(scenes):
+                # get the metadata for this scene packed and sent (data pointers do not change)
+                self.pack_meta(scene)
+                self.replace_device_meta_ptrs()
+                self.send_patchstruct_to_device()
+
+                # evaluate scene
+                proposal = scene.get_proposal()
+                _, _, residual = proposer.evaluate_proposal(proposal, patch=self, unpack=False)
+                # get model and split by band, normalize
+                model = y - residual
+                split = np.split(model, np.cumsum(self.band_N_pix[:-1]))
+                for j, b in enumerate(self.bandlist):
+                    Xes[j][i, :] = split[j] / active[i][b]
+        finally:
+            for name, value in original.items():
+                setattr(self, name, value)
             self.replace_device_meta_ptrs()
             self.send_patchstruct_to_device()
 
-            # evaluate scene
-            proposal = scene.get_proposal()
-            _, _, residual = proposer.evaluate_proposal(proposal, patch=self, unpack=False)
-            # get model and split by band, normalize
-            model = y - residual
-            split = np.split(model, np.cumsum(self.band_N_pix[:-1]))
-            for j, b in enumerate(self.bandlist):
-                Xes[j][i, :] = split[j] / active[i][b]
-
         return Xes, ys
 
     def render(self, catalog, splinedata=None):
-- 
2.43.0


From 7c1dcf03fda012c283b03ad625bd9b0c05443b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 18/35] fix: CPU patches notice that their data was already
 subtracted

As for GPU patches, preparing a second model without rebuilding the patch would
subtract fixed sources from data they had already been subtracted from.
---
 forcepho/patches/device_patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index a798ad6..560acfe 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -551,7 +551,7 @@ class CPUPatchMixin(DevicePatchMixin):
         self.data, self.residual = self.residual, self.data
         # Pack pointers into structure and send structure to device
         _ = self.send_patchstruct_to_device()
-        #self._dirty_data = True
+        self._dirty_data = True
 
         return self.device_patch
 
-- 
2.43.0


From c248c395ba6a3b69246f5b4cd5c33812ef705b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 19/35] fix: GPU patches forget device arrays before freeing
 them

If the replacement allocation failed, the freed pointer stayed registered and
was freed again when the patch was released.
---
 forcepho/patches/device_patch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 560acfe..5b44231 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -317,7 +317,7 @@ class GPUPatchMixin(DevicePatchMixin):
             arr = getattr(self, arrname)
             arr_dt = self.patch_struct_dtype[arrname]
             if arr_dt == self.ptr_dtype:
-                self.device_ptrs[arrname].free()
+                self.device_ptrs.pop(arrname).free()
                 self.device_ptrs[arrname] = cuda.to_device(arr)
 
     def send_patchstruct_to_device(self):
@@ -387,10 +387,10 @@ class GPUPatchMixin(DevicePatchMixin):
     def free(self):
         # Release ALL the device-side arrays
         try:
-            for cuda_ptr in self.device_ptrs.values():
+            while self.device_ptrs:
+                _, cuda_ptr = self.device_ptrs.popitem()
                 if cuda_ptr:
                     cuda_ptr.free()
-            self.device_ptrs = {}
         except(AttributeError):
             pass  # no cuda_ptrs
 
-- 
2.43.0


From 54f44f48919519578290a320df0b57f034c5615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:12 +0000
Subject: [PATCH 20/35] fix: seed weights stay finite whatever the spread of
 n_iter

Replaces the previous change to the seed weights: it also altered which seeds a
given random state draws, which the stable scene demo depends on.  Unavailable
seeds may be drawn, as before; such a checkout is refused.
---
 forcepho/superscene.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 71a892a..1403924 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -482,17 +482,13 @@ class SuperScene:
         return self.exp_weight()
 
     def exp_weight(self):
-        # just one for valid, zero if not
-        valid = self.sourcecat["is_valid"].astype(bool)
-        if not np.any(valid):
-            # nothing is available, so any seed will do (and be refused)
-            return np.ones(self.n_sources) / self.n_sources
+        # just one for inactive, zero if active
+        w = (~self.sourcecat["is_valid"]).astype(np.float64)
         # multiply by exponential
         n = np.abs(self.sourcecat["n_iter"])
         #mu = min(n.min(), self.target_niter)
         sigma = 20
-        w = np.zeros(self.n_sources)
-        w[valid] = np.exp((n[valid].min() - n[valid]) / sigma)
+        w *= np.exp((n.min() - n) / sigma)
         return w / w.sum()
 
     def sigmoid_weight(self):
-- 
2.43.0


From 2e294b7525bbb624fc229cb4f57164a722925e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:19 +0000
Subject: [PATCH 21/35] fix: regions may share fixed sources, which stay
 invalid until all are checked in

---
 forcepho/superscene.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 1403924..632b28a 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -161,6 +161,8 @@ class SuperScene:
         self.sourcecat["source_index"][:] = np.arange(self.n_sources)
         self.sourcecat["is_valid"][:] = True
         self.sourcecat["is_active"][:] = False
+        # number of checked out regions in which each source is fixed
+        self._nfixed_in = np.zeros(self.n_sources, dtype=int)
 
         # save the original catalog
         self.original = sourcecat.copy()
@@ -266,6 +268,7 @@ class SuperScene:
         self.sourcecat["is_active"][active_inds] = True
         self.sourcecat["is_valid"][active_inds] = False
         self.sourcecat["is_valid"][fixed_inds] = False
+        self._nfixed_in[fixed_inds] += 1
         self.n_active += len(active_inds)
         self.n_fixed += len(fixed_inds)
 
@@ -322,7 +325,9 @@ class SuperScene:
         self.sourcecat["is_active"][active_inds] = False
         self.sourcecat["n_patch"][active_inds] += int(niter > 0)
         self.sourcecat["is_valid"][active_inds] = True
-        self.sourcecat["is_valid"][fixed_inds] = True
+        # a fixed source is valid again once no region holds it
+        self._nfixed_in[fixed_inds] = np.maximum(self._nfixed_in[fixed_inds] - 1, 0)
+        self.sourcecat["is_valid"][fixed_inds] = self._nfixed_in[fixed_inds] == 0
 
         self.n_active -= len(active_inds)
         self.n_fixed -= len(fixed_inds)
@@ -371,6 +376,7 @@ class SuperScene:
         self.sourcecat["is_active"][:] = False
         self.sourcecat["n_iter"][:] = 0
         self.sourcecat["n_patch"][:] = 0
+        self._nfixed_in[:] = 0
         self.n_active = 0
         self.n_fixed = 0
 
@@ -442,16 +448,18 @@ class SuperScene:
         # FIXME: make sure at least one source is fixed?
         if len(fixed_inds) == 0:
             fixed_inds = finds[:1]
-        # none of these may already belong to a region that is checked out
+        # regions that are checked out may only have fixed sources in common
         if not self._available(kinds[active_inds], kinds[fixed_inds]):
             return None, None, None
         return radius, kinds[active_inds], kinds[fixed_inds]
 
-    def _available(self, *inds):
-        """Whether all the sources at the given indices are valid, i.e. neither
-        active nor fixed in any region that is currently checked out.
+    def _available(self, active_inds, fixed_inds):
+        """Whether a region with these active and fixed sources can be checked
+        out, i.e. the sources to be varied do not belong to any region that is
+        currently checked out, and those to be fixed are not being varied.
         """
-        return all(np.all(self.sourcecat["is_valid"][i]) for i in inds)
+        return (np.all(self.sourcecat["is_valid"][active_inds]) and
+                not np.any(self.sourcecat["is_active"][fixed_inds]))
 
     def draw_center(self, seed_index=-1):
         """Randomly draw a center for the proposed patch.  Currently this
@@ -637,7 +645,7 @@ class LinkedSuperScene(SuperScene):
         end = min(len(fixed_inds), max_fixed)
         fixed_inds = fixed_inds[:end]
 
-        # none of these may already belong to a region that is checked out
+        # regions that are checked out may only have fixed sources in common
         if not self._available(active_inds, fixed_inds):
             return (seed["ra"], seed["dec"]), None, None
 
@@ -687,6 +695,7 @@ class LinkedSuperScene(SuperScene):
         self.sourcecat["is_active"][active_inds] = True
         self.sourcecat["is_valid"][active_inds] = False
         self.sourcecat["is_valid"][fixed_inds] = False
+        self._nfixed_in[fixed_inds] += 1
         self.n_active += len(active_inds)
         self.n_fixed += len(fixed_inds)
 
-- 
2.43.0


From 7fcb2dacd22bd732f40718f59ad4c1031fb08b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:50 +0000
Subject: [PATCH 22/35] fix: find_multipatch looks chains up by patch ID, not
 by order of completion

---
 forcepho/postprocess.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 813888f..220f170 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -370,15 +370,16 @@ def find_multipatch(root):
         A list of the posterior sample chains for each source.
     """
     config, plog, slog, final = run_metadata(root)
-    samples = [Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog]
+    # patch IDs need not start at zero or be in order of completion
+    samples = {p: Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog}
     chains, sources, patches = [], [], []
     for sid, pids in slog.items():
         if len(pids) == 1:
             continue
         c = []
         for pid in pids:
-            ai = samples[int(pid)].active["source_index"].tolist().index(int(sid))
-            c.append(samples[int(pid)].chaincat[ai:ai+1])
+            ai = samples[pid].active["source_index"].tolist().index(int(sid))
+            c.append(samples[pid].chaincat[ai:ai+1])
         chains.append(np.concatenate(c))
         sources.append(sid)
         patches.append(pids)
-- 
2.43.0


From 4abd7de943f2b7ca33c284c75682a647579d2e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:12 +0000
Subject: [PATCH 23/35] fix: integer masks without a bitmask mask the flagged
 pixels

They were used as row indices, so whole rows of the image were masked
and the flagged pixels were not.
---
 forcepho/patches/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 3337ac4..9548e27 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -185,8 +185,9 @@ class PixelStore:
             pmask = imset.mask
             if bitmask:
                 # just check that any of the bad bits are set
-                pmask = np.bitwise_and(pmask, bitmask) != 0
-            mask = mask | pmask
+                pmask = np.bitwise_and(pmask, bitmask)
+            # any other nonzero value is masked
+            mask = mask | (pmask != 0)
         ierr[mask] = 0
         im[mask] = 0
         # let masked pixels provide a sampling of the subtracted background
-- 
2.43.0


From 7472d375cc72e117444925fe7cfc67a022e1142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:12 +0000
Subject: [PATCH 24/35] fix: an interrupted MetaStore.write_to_file keeps the
 previous gWCSes

---
 forcepho/patches/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 9548e27..fa71f8a 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -398,7 +398,8 @@ class MetaStore:
         if len(self.tree) > 0:
             import asdf
             gwcs_file = asdf.AsdfFile(self.tree)
-            gwcs_file.write_to(filename.replace(".json", ".asdf"))
+            with atomic_write(filename.replace(".json", ".asdf")) as tmp:
+                gwcs_file.write_to(tmp)
 
     def read_from_file(self, filename):
         """Read a json serialized dictionary of string headers
-- 
2.43.0


From 92c6ae4889d95b2294524f18362d1113b319c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:11 +0000
Subject: [PATCH 25/35] fix: errors when writing small HDF5 datasets are raised

HDF5 keeps the data of small datasets in memory until these are closed,
and h5py ignores errors at that point, leaving files with missing data.
---
 forcepho/fitting.py         |  4 +++-
 forcepho/patches/storage.py |  2 ++
 forcepho/utils/io.py        | 11 +++++++----
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index 2f111e9..f840a63 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -194,7 +194,9 @@ class Result(object):
         with atomic_write(filename) as tmp, h5py.File(tmp, "w") as out:
             for name, value in vars(self).items():
                 if type(value) == np.ndarray:
-                    out.create_dataset(name, data=value)
+                    # write errors are only raised here, they are ignored
+                    # when the dataset is closed
+                    out.create_dataset(name, data=value).flush()
                 else:
                     try:
                         out.attrs[name] = value
diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index fa71f8a..3435f4d 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -224,6 +224,8 @@ class PixelStore:
                 print(f"deleted existing data for {path}")
                 exp = h5.create_group(path)
             pdat = exp.create_dataset("data", data=superpixels)
+            # write errors are only raised here, they are ignored on closure
+            pdat.flush()
             pdat.attrs["counts_to_flux"] = fluxconv
             pdat.attrs["flux_units"] = unitname
             if bitmask:
diff --git a/forcepho/utils/io.py b/forcepho/utils/io.py
index f0fa0f0..9d8d864 100644
--- a/forcepho/utils/io.py
+++ b/forcepho/utils/io.py
@@ -80,10 +80,10 @@ def write_residuals(patcher, filename, residuals=None):
     epaths = patcher.epaths
 
     with atomic_write(filename) as tmp, h5py.File(tmp, "w") as out:
-        out.create_dataset("epaths", data=np.array(epaths, dtype="S"))
-        out.create_dataset("ebands", data=np.array(patcher.bands, dtype="S"))
+        out.create_dataset("epaths", data=np.array(epaths, dtype="S")).flush()
+        out.create_dataset("ebands", data=np.array(patcher.bands, dtype="S")).flush()
         #out.create_dataset("exposure_start", data=patcher.exposure_start)
-        out.create_dataset("reference_coordinates", data=patcher.patch_reference_coordinates)
+        out.create_dataset("reference_coordinates", data=patcher.patch_reference_coordinates).flush()
         #out.create_dataset("active", data=)
         #out.create_dataset("fixed", data=fixed)
 
@@ -111,6 +111,9 @@ def make_imset(out, paths, name, arrs):
             g = out.create_group(epath)
 
         try:
-            g.create_dataset(name, data=np.array(arrs[i]))
+            dset = g.create_dataset(name, data=np.array(arrs[i]))
         except(TypeError, ValueError, IndexError):
             print("Could not make {}/{} dataset from {}".format(epath, name, arrs[i]))
+            continue
+        # write errors are only raised here, they are ignored when the dataset is closed
+        dset.flush()
-- 
2.43.0


From 8349d257a0971e317c9be1e41133c595956f0129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:21 +0000
Subject: [PATCH 26/35] fix: free() of a GPU patch releases the device memory

PatchBase.free precedes the device mix-in in the MRO of JadesPatch and
SimplePatch, so that calling it released nothing.
---
 forcepho/patches/patch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/patch.py b/forcepho/patches/patch.py
index 58bf25f..d930459 100644
--- a/forcepho/patches/patch.py
+++ b/forcepho/patches/patch.py
@@ -112,7 +112,10 @@ class PatchBase:
                 pass
 
     def free(self):
-        pass
+        # let a device mix-in that follows in the MRO release its memory
+        free = getattr(super(), "free", None)
+        if free is not None:
+            free()
 
     def __del__(self):
         self.free()  # do we want to do this?
-- 
2.43.0


From 24abdfc71e81d3cd4a9763cba8122ea91445dbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:53 +0000
Subject: [PATCH 27/35] fix: a failed transfer never leaves a GPU patch struct
 pointing at freed arrays

---
 forcepho/patches/device_patch.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 5b44231..1d8e83e 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -288,6 +288,7 @@ class GPUPatchMixin(DevicePatchMixin):
         device_patch: pycuda.driver.DeviceAllocation
             A host-side pointer to the Patch struct on the GPU device.
         """
+        self._drop_patchstruct()
         # use names of struct dtype fields to transfer all arrays to the GPU
         self.device_ptrs = {}
         for arrname in self.patch_struct_dtype.names:
@@ -313,13 +314,24 @@ class GPUPatchMixin(DevicePatchMixin):
         """Replace the metadata on the GPU, as well as the Cuda pointers. This
         also releases the device side arrays corresponding to old metadata.
         """
+        self._drop_patchstruct()
         for arrname in self.meta_names:
             arr = getattr(self, arrname)
             arr_dt = self.patch_struct_dtype[arrname]
             if arr_dt == self.ptr_dtype:
-                self.device_ptrs.pop(arrname).free()
+                # missing if a previous attempt failed
+                if arrname in self.device_ptrs:
+                    self.device_ptrs.pop(arrname).free()
                 self.device_ptrs[arrname] = cuda.to_device(arr)
 
+    def _drop_patchstruct(self):
+        """Release the device-side patch struct before the arrays it points to
+        are replaced, so that it can not be used if replacing them fails.
+        """
+        device_patch = self.__dict__.pop("device_patch", None)
+        if device_patch:
+            device_patch.free()
+
     def send_patchstruct_to_device(self):
         """Create new patch_struct and fill with values and with CUDA pointers
         to GPU arrays, and send the patch_struct to the GPU.
-- 
2.43.0


From 11084881fe92ddbf931686196ce5efdc920d5be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:25 +0000
Subject: [PATCH 28/35] fix: an interrupted sampling only returns the samples
 that were drawn

---
 forcepho/fitting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index f840a63..75236f2 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -330,6 +330,12 @@ def run_lmc(model, q, n_draws, adapt=False, full=False, weight=10,
                               chain=0, random_seed=random_seed)
     tsample = time.time() - t
 
+    # if interrupted the sampler returns what it has, the rest of the trace is
+    # not filled.
+    if (stats is None) or (len(stats) == 0 and n_draws > 0):
+        raise KeyboardInterrupt("interrupted before the first sample")
+    trace = trace[:, :len(stats)]
+
     if model.transform is not None:
         chain = model.transform.transform(trace.T)
     else:
-- 
2.43.0


From b22758c91c0cea01f713a49e936f0a7ef80f3a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:29 +0000
Subject: [PATCH 29/35] fix: postop_catalog works however the patches are
 numbered

---
 forcepho/postprocess.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 220f170..4b33323 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -215,7 +215,9 @@ def postop_catalog(root, bands=None, catname=None):
     catname : string
         Name of the output catalog
     """
-    samples = Samples(f"{root}/patches/patch0_samples.h5")
+    # patches need not be numbered from 0
+    rconfig, plog, slog, final = run_metadata(root)
+    samples = Samples(f"{root}/patches/patch{plog[0]}_samples.h5")
     if catname is None:
         config = json.loads(samples.config)
         raw = config["raw_catalog"]
@@ -223,8 +225,8 @@ def postop_catalog(root, bands=None, catname=None):
     if bands is None:
         bands = samples.bands
 
-    catalog = glob.glob(f"{root}/*fits")[0]
-    hdus = fits.open(catalog)
+    catalog = rconfig.get("scene_catalog", "superscene.fits")
+    hdus = fits.open(f"{root}/{catalog}")
     cat = hdus[1].data
     cat["n_iter"] = 0
     cat["n_patch"] = 0
-- 
2.43.0


From 60ce9ac3242fbd5caa49224e9af0b4bf177192d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:53 +0000
Subject: [PATCH 30/35] fix: padding pixels are not written into the corner of
 assembled images

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 4b33323..dbbd80a 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -141,7 +141,9 @@ class Residuals:
             # Fill array with values for this patch
             xpix, ypix = self.handle[e]["xpix"][:].astype(int), self.handle[e]["ypix"][:].astype(int)
             arr = self.handle[e][fill_type][:]
-            images[e][xpix, ypix] = arr
+            # padding pixels have x, y = -1
+            g = (xpix >= 0) & (ypix >= 0)
+            images[e][xpix[g], ypix[g]] = arr[g]
 
         return images, headers
 
-- 
2.43.0


From 091cd9a7a81549f59101da2d7a4d1c441fe5ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:53 +0000
Subject: [PATCH 31/35] fix: write_images shows the most recently completed
 patch in each pixel

---
 forcepho/postprocess.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index dbbd80a..be04440 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -450,7 +450,13 @@ def write_images(root, subdir="image", metafile=None, show_model=False, show_chi
 
     files = glob.glob(os.path.join(root, "patches/*residuals.h5"))
     assert len(files) > 0
-    files.sort()
+    # in order of completion, so each pixel shows the most recent patch
+    try:
+        plog = run_metadata(root)[1]
+    except(FileNotFoundError):
+        plog = []
+    order = {f"patch{p}_residuals.h5": i for i, p in enumerate(plog)}
+    files.sort(key=lambda f: (order.get(os.path.basename(f), -1), f))
 
     print(f"Writing to {root}/{subdir}")
     os.makedirs(f"{root}/{subdir}", exist_ok=True)
-- 
2.43.0


From 00e03fd4c92b8a234d6177ccd51de83835a500d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:53 +0000
Subject: [PATCH 32/35] fix: fill_images without a dictionary starts from no
 images

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index be04440..65740c6 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -121,10 +121,12 @@ class Residuals:
         pix = sky_to_pix(ra, dec, ee, ref_coords=self.reference_coordinates)
         return pix
 
-    def fill_images(self, images={}, headers={}, fill_type="residual",
+    def fill_images(self, images=None, headers=None, fill_type="residual",
                     metastore=None, imshape=(2048, 2048)):
         """Add the stored pixel data to the images in the supplied `images` dictionary.
         """
+        images = {} if images is None else images
+        headers = {} if headers is None else headers
         for e in self.exposures:
             # create the empty array
             if e not in images:
-- 
2.43.0


From ed9678a70f0a3b812c015f5d44f1949d5684c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:53 +0000
Subject: [PATCH 33/35] fix: postsample_catalog of selected patches has a row
 for each source

---
 forcepho/postprocess.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 65740c6..26ba0a5 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -269,11 +269,9 @@ def postsample_catalog(root, catname=None, patches=None):
         parameters of that source each with shape (n_sample,)
     """
     # get summary info
+    config, plog, slog, final = run_metadata(root)
     if patches is None:
-        config, plog, slog, final = run_metadata(root)
         patches = plog
-    else:
-        final = patches
 
     # Get catalog data type
     s = Samples(f"{root}/patches/patch{patches[0]}_samples.h5")
-- 
2.43.0


From b34804cf53326088f8bb967a03a6ecfce829e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:17 +0000
Subject: [PATCH 34/35] fix: spline data that cannot be read is an error

---
 forcepho/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 7b7545e..d684657 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -538,11 +538,11 @@ class Galaxy(Source):
         self.flux = np.zeros(len(self.filternames))
         if radii is not None:
             self.radii = radii
-        try:
+        if splinedata:
             self.initialize_splines(splinedata, spline_smoothing=spline_smoothing,
                                     spline_type=spline_type)
-        except:
-            message = ("Could not load `splinedata`. "
+        else:
+            message = ("No `splinedata`. "
                        "Galaxies must have `splinedata` information "
                        "to make A(r, n) bivariate splines")
             warnings.warn(message)
-- 
2.43.0


From 4f90e5cdb502925d0dfde3aeb6ccee42afa035c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:17 +0000
Subject: [PATCH 35/35] fix: PSF locations that cannot be read are an error

---
 forcepho/patches/storage.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 3435f4d..ff8738d 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -550,13 +550,12 @@ class PSFStore:
     def lookup(self, band, xy=None):
         """Returns a array of shape (nradii x ngauss,) with dtype
         """
-        try:
+        choose = 0
+        if xy is not None and "detector_locations" in self.data[band]:
             x, y = xy
             xp, yp = self.data[band]["detector_locations"][:]
             dist = np.hypot(x - xp, y - yp)
             choose = dist.argmin()
-        except:
-            choose = 0
         pars = self.data[band]["parameters"][choose]
         # TODO: assert data dtype is what's required for JadesPatch
         #assert pars.dtype.descr
-- 
2.43.0

