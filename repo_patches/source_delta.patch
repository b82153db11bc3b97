From 0d27f98e374c08e57cb854b7e8e671fb554e484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:57 +0000
Subject: [PATCH 01/20] fix: keep directivity finite when a microphone
 coincides with an image source

---
 src/torchrir/sim/ism/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/sim/ism/helpers.py b/src/torchrir/sim/ism/helpers.py
index 7a8a4ad..61c08c4 100644
--- a/src/torchrir/sim/ism/helpers.py
+++ b/src/torchrir/sim/ism/helpers.py
@@ -76,5 +76,5 @@ def _select_orientation(orientation: Tensor, idx: int, count: int, dim: int) ->
 def _cos_between(vec: Tensor, orientation: Tensor) -> Tensor:
     """Compute cosine between direction vectors and orientation."""
     orientation = normalize_orientation(orientation)
-    unit = vec / torch.linalg.norm(vec, dim=-1, keepdim=True)
+    unit = normalize_orientation(vec)
     return torch.sum(unit * orientation, dim=-1)
-- 
2.43.0


From 25dc6083f7732e575dd01fb3e87d29572c085a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 02/20] fix: use the configured directivity when none is given
 explicitly

---
 src/torchrir/sim/ism/api.py    | 4 ++--
 src/torchrir/sim/simulators.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/sim/ism/api.py b/src/torchrir/sim/ism/api.py
index b10ea98..a166bad 100644
--- a/src/torchrir/sim/ism/api.py
+++ b/src/torchrir/sim/ism/api.py
@@ -40,7 +40,7 @@ def simulate_rir(
     nsample: Optional[int] = None,
     tmax: Optional[float] = None,
     tdiff: Optional[float] = None,
-    directivity: str | tuple[str, str] | None = "omni",
+    directivity: str | tuple[str, str] | None = None,
     orientation: Optional[Tensor | tuple[Tensor, Tensor]] = None,
     config: Optional[SimulationConfig] = None,
     device: Optional[torch.device | str] = None,
@@ -142,7 +142,7 @@ def simulate_dynamic_rir(
     nb_img: Optional[Tensor | Tuple[int, ...]] = None,
     nsample: Optional[int] = None,
     tmax: Optional[float] = None,
-    directivity: str | tuple[str, str] | None = "omni",
+    directivity: str | tuple[str, str] | None = None,
     orientation: Optional[Tensor | tuple[Tensor, Tensor]] = None,
     config: Optional[SimulationConfig] = None,
     device: Optional[torch.device | str] = None,
diff --git a/src/torchrir/sim/simulators.py b/src/torchrir/sim/simulators.py
index c48ecd7..234f3be 100644
--- a/src/torchrir/sim/simulators.py
+++ b/src/torchrir/sim/simulators.py
@@ -35,7 +35,7 @@ class ISMSimulator:
     max_order: int
     tmax: float | None = None
     nsample: int | None = None
-    directivity: str | tuple[str, str] | None = "omni"
+    directivity: str | tuple[str, str] | None = None
     nb_img: torch.Tensor | tuple[int, ...] | None = None
     device: torch.device | str | None = None
     dtype: torch.dtype | None = None
-- 
2.43.0


From d971a28b984666f35f4d1c46983812515f5066ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:14 +0000
Subject: [PATCH 03/20] fix: treat the omnidirectional aliases and letter cases
 alike in simulations

---
 src/torchrir/sim/directivity.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/sim/directivity.py b/src/torchrir/sim/directivity.py
index ab44109..17d2cb3 100644
--- a/src/torchrir/sim/directivity.py
+++ b/src/torchrir/sim/directivity.py
@@ -29,5 +29,12 @@ def split_directivity(directivity: str | tuple[str, str]) -> tuple[str, str]:
     if isinstance(directivity, (list, tuple)):
         if len(directivity) != 2:
             raise ValueError("directivity tuple must have length 2")
-        return directivity[0], directivity[1]
-    return directivity, directivity
+        return _canonical_pattern(directivity[0]), _canonical_pattern(directivity[1])
+    pattern = _canonical_pattern(directivity)
+    return pattern, pattern
+
+
+def _canonical_pattern(pattern: str) -> str:
+    """Lower-case a pattern name and resolve the omnidirectional alias."""
+    name = pattern.lower()
+    return "omni" if name == "omnidirectional" else name
-- 
2.43.0


From 8e8e09815b5d1e4f213c600f307c97c4e2b7dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:11 +0000
Subject: [PATCH 04/20] fix: keep whole-number room sizes, positions and
 coefficients exact

---
 src/torchrir/models/room.py | 6 +++---
 src/torchrir/util/tensor.py | 9 ++++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index 3dec243..af08ab0 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -8,7 +8,7 @@ from typing import Optional, Sequence
 import torch
 from torch import Tensor
 
-from ..util.tensor import as_tensor, ensure_dim
+from ..util.tensor import as_tensor, ensure_dim, ensure_floating
 
 
 @dataclass(frozen=True)
@@ -212,7 +212,7 @@ def _validate_orientation(
 
 
 def _normalize_entity_positions(positions: Tensor, *, name: str) -> Tensor:
-    pos = as_tensor(positions)
+    pos = ensure_floating(as_tensor(positions))
     if pos.ndim == 1:
         pos = pos.unsqueeze(0)
     if pos.ndim != 2 or pos.shape[1] not in (2, 3):
@@ -231,6 +231,6 @@ def _normalize_entity_orientation(
 ) -> Optional[Tensor]:
     if orientation is None:
         return None
-    ori = as_tensor(orientation)
+    ori = ensure_floating(as_tensor(orientation))
     _validate_orientation(ori, n_entities=n_entities, dim=dim, name=name)
     return ori
diff --git a/src/torchrir/util/tensor.py b/src/torchrir/util/tensor.py
index 4e7da48..e124bad 100644
--- a/src/torchrir/util/tensor.py
+++ b/src/torchrir/util/tensor.py
@@ -33,7 +33,14 @@ def ensure_dim(size: Tensor) -> Tensor:
     """Validate room size dimensionality (2D or 3D)."""
     if size.ndim != 1 or size.numel() not in (2, 3):
         raise ValueError("room size must be a 1D tensor of length 2 or 3")
-    return size
+    return ensure_floating(size)
+
+
+def ensure_floating(value: Tensor) -> Tensor:
+    """Convert integer tensors to the default floating dtype."""
+    if torch.is_floating_point(value):
+        return value
+    return value.to(torch.get_default_dtype())
 
 
 def extend_size(size: Tensor, dim: int) -> Tensor:
-- 
2.43.0


From 191a53a7f51a26d77565526e46fc94ff943cf88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 05/20] fix: reject non-finite room parameters

---
 src/torchrir/models/room.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index af08ab0..b3ab382 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import math
 from dataclasses import dataclass, replace
 from typing import Optional, Sequence
 
@@ -35,14 +36,14 @@ class Room:
         if torch.any(size <= 0):
             raise ValueError("room size must be strictly positive")
         object.__setattr__(self, "size", size)
-        if self.fs <= 0:
-            raise ValueError("fs must be positive")
-        if self.c <= 0:
-            raise ValueError("c must be positive")
+        if not math.isfinite(self.fs) or self.fs <= 0:
+            raise ValueError("fs must be positive and finite")
+        if not math.isfinite(self.c) or self.c <= 0:
+            raise ValueError("c must be positive and finite")
         if self.beta is not None and self.t60 is not None:
             raise ValueError("beta and t60 are mutually exclusive")
-        if self.t60 is not None and self.t60 <= 0:
-            raise ValueError("t60 must be positive")
+        if self.t60 is not None and (not math.isfinite(self.t60) or self.t60 <= 0):
+            raise ValueError("t60 must be positive and finite")
         if self.beta is not None:
             beta = as_tensor(self.beta, dtype=size.dtype).view(-1)
             expected = 4 if size.numel() == 2 else 6
-- 
2.43.0


From 3b9351e4d448038126f3382461c762d4339bc2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:55 +0000
Subject: [PATCH 06/20] fix: place arrays exactly around whole-number centres

---
 src/torchrir/geometry/arrays.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index 9c8f75f..bfb60af 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -8,7 +8,7 @@ from typing import Sequence
 import torch
 from torch import Tensor
 
-from ..util.tensor import as_tensor
+from ..util.tensor import as_tensor, ensure_floating
 
 
 def binaural_array(
@@ -19,7 +19,7 @@ def binaural_array(
     dtype: torch.dtype | None = None,
 ) -> Tensor:
     """Create a two-mic binaural layout around a center point."""
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     dim = center_t.numel()
     offset_vec = torch.zeros((dim,), device=center_t.device, dtype=center_t.dtype)
     offset_vec[0] = offset
@@ -43,7 +43,7 @@ def linear_array(
         raise ValueError("num must be positive")
     if spacing <= 0:
         raise ValueError("spacing must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     dim = center_t.numel()
     if direction is None:
         if axis < 0 or axis >= dim:
@@ -82,7 +82,7 @@ def circular_array(
         raise ValueError("num must be positive")
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     dim = center_t.numel()
 
     angles = torch.linspace(
@@ -139,7 +139,7 @@ def polyhedron_array(
     """Create a regular polyhedron microphone array (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     if center_t.numel() != 3:
         raise ValueError("polyhedron arrays require 3D centers")
     vertices = _polyhedron_vertices(kind, device=center_t.device, dtype=center_t.dtype)
@@ -159,7 +159,7 @@ def eigenmike_em32(
     """Create the mh acoustics Eigenmike em32 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em32 requires a 3D center")
     theta_deg = torch.tensor(
@@ -257,7 +257,7 @@ def eigenmike_em64(
     """Create the mh acoustics Eigenmike em64 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em64 requires a 3D center")
     theta_deg = torch.tensor(
-- 
2.43.0


From d521f801772e889abebdc3c7af50c15a2b15dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:55 +0000
Subject: [PATCH 07/20] fix: build a circular array whose normal points along
 -x

---
 src/torchrir/geometry/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index bfb60af..5151447 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -413,7 +413,7 @@ def _basis_from_normal(normal: Tensor) -> tuple[Tensor, Tensor]:
         raise ValueError("normal must be a 3D vector")
     n = normal / torch.linalg.norm(normal)
     ref = torch.tensor([1.0, 0.0, 0.0], device=normal.device, dtype=normal.dtype)
-    if torch.allclose(n, ref):
+    if torch.allclose(n.abs(), ref):
         ref = torch.tensor([0.0, 1.0, 0.0], device=normal.device, dtype=normal.dtype)
     basis_x = torch.cross(n, ref)
     basis_x = basis_x / torch.linalg.norm(basis_x)
-- 
2.43.0


From 09c453e5ef48bea150babbb81da6b6de4f53ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:55 +0000
Subject: [PATCH 08/20] fix: return the start position for a single-step
 trajectory

---
 src/torchrir/geometry/trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/trajectories.py b/src/torchrir/geometry/trajectories.py
index 1affd23..31cf3ce 100644
--- a/src/torchrir/geometry/trajectories.py
+++ b/src/torchrir/geometry/trajectories.py
@@ -9,6 +9,6 @@ from torch import Tensor
 def linear_trajectory(start: Tensor, end: Tensor, steps: int) -> Tensor:
     """Create a linear trajectory between start and end."""
     return torch.stack(
-        [start + (end - start) * t / (steps - 1) for t in range(steps)],
+        [start + (end - start) * t / max(steps - 1, 1) for t in range(steps)],
         dim=0,
     )
-- 
2.43.0


From 7f13ca9988eef9015ba5c77bb0569297f1e854d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:01 +0000
Subject: [PATCH 09/20] fix: keep fractional margins when clamping into
 whole-number rooms

---
 src/torchrir/geometry/sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 2725621..3d9cf0b 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -8,6 +8,8 @@ from typing import List
 import torch
 from torch import Tensor
 
+from ..util.tensor import ensure_floating
+
 
 def sample_positions(
     *,
@@ -90,6 +92,7 @@ def clamp_positions(
     positions: Tensor, room_size: Tensor, margin: float = 0.1
 ) -> Tensor:
     """Clamp positions to remain inside the room with a margin."""
+    room_size = ensure_floating(room_size)
     min_v = torch.full_like(room_size, margin)
     max_v = room_size - margin
     return torch.max(torch.min(positions, max_v), min_v)
-- 
2.43.0


From c8344c8c8a00dc22eb940beda269f7aa3c36d523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:45 +0000
Subject: [PATCH 10/20] fix: start trajectory segments at exactly floor(k*N/T)

---
 src/torchrir/signal/dynamic.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 2b8da0d..6daceb6 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -121,11 +121,8 @@ def _convolve_dynamic_rir_trajectory(
             raise ValueError("first timestamp must be 0")
         w_ini = (ts * fs).to(torch.long)
     else:
-        step_fs = n_samples / t_steps
-        ts_dtype = torch.float32 if signal.device.type == "mps" else torch.float64
-        w_ini = (
-            torch.arange(t_steps, device=signal.device, dtype=ts_dtype) * step_fs
-        ).to(torch.long)
+        steps = torch.arange(t_steps, device=signal.device, dtype=torch.long)
+        w_ini = (steps * n_samples) // t_steps
 
     w_ini = torch.cat(
         [w_ini, torch.tensor([n_samples], device=signal.device, dtype=torch.long)]
-- 
2.43.0


From fa6281725aa489e5a4b65ed148068a333f11f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:45 +0000
Subject: [PATCH 11/20] fix: reject non-positive hop sizes

---
 src/torchrir/signal/dynamic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 6daceb6..15e0c5d 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -49,6 +49,8 @@ class DynamicConvolver:
         if self.mode == "hop":
             if self.hop is None:
                 raise ValueError("hop must be provided for hop mode")
+            if self.hop <= 0:
+                raise ValueError("hop must be positive")
             return _convolve_dynamic_hop(signal, rirs, self.hop)
         return _convolve_dynamic_trajectory(
             signal, rirs, timestamps=self.timestamps, fs=self.fs
-- 
2.43.0


From 3b1a6cbb4ca6bb80e9bd9f8a9f199e13ef9f08d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 12/20] fix: match signals and sources in dynamic convolution

---
 src/torchrir/signal/dynamic.py  |  4 +++-
 src/torchrir/signal/internal.py | 10 ++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 15e0c5d..4830302 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -13,7 +13,7 @@ from typing import Optional
 import torch
 from torch import Tensor
 
-from .internal import _ensure_dynamic_rirs, _ensure_signal
+from .internal import _ensure_dynamic_rirs, _ensure_signal, _match_sources
 from .static import fft_convolve
 
 
@@ -60,6 +60,7 @@ class DynamicConvolver:
 def _convolve_dynamic_hop(signal: Tensor, rirs: Tensor, hop: int) -> Tensor:
     signal = _ensure_signal(signal)
     rirs = _ensure_dynamic_rirs(rirs, signal)
+    signal = _match_sources(signal, rirs)
     return _convolve_dynamic_rir_hop(signal, rirs, hop)
 
 
@@ -72,6 +73,7 @@ def _convolve_dynamic_trajectory(
 ) -> Tensor:
     signal = _ensure_signal(signal)
     rirs = _ensure_dynamic_rirs(rirs, signal)
+    signal = _match_sources(signal, rirs)
     return _convolve_dynamic_rir_trajectory(signal, rirs, timestamps=timestamps, fs=fs)
 
 
diff --git a/src/torchrir/signal/internal.py b/src/torchrir/signal/internal.py
index faca6e5..f0b2aec 100644
--- a/src/torchrir/signal/internal.py
+++ b/src/torchrir/signal/internal.py
@@ -45,3 +45,13 @@ def _ensure_dynamic_rirs(rirs: Tensor, signal: Tensor) -> Tensor:
         "rirs must have shape (T, rir_len), (T, n_mic, rir_len), "
         "or (T, n_src, n_mic, rir_len)"
     )
+
+
+def _match_sources(signal: Tensor, rirs: Tensor) -> Tensor:
+    """Give every source of (T, n_src, n_mic, rir_len) RIRs its signal row."""
+    n_src = rirs.shape[1]
+    if signal.shape[0] == n_src:
+        return signal
+    if signal.shape[0] != 1:
+        raise ValueError("signal source count does not match rirs")
+    return signal.expand(n_src, -1)
-- 
2.43.0


From 53e8a2b4ce94aa13946e43f5f8709c468a8e58d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 13/20] fix: resolve indexed and upper-case accelerator names
 like the plain ones

---
 src/torchrir/util/device.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/util/device.py b/src/torchrir/util/device.py
index 4df5f00..4bce2af 100644
--- a/src/torchrir/util/device.py
+++ b/src/torchrir/util/device.py
@@ -40,13 +40,15 @@ def resolve_device(
         return torch.device("cpu")
 
     if dev.startswith("cuda"):
+        requested = torch.device(dev)
         if torch.cuda.is_available():
-            return torch.device(device)
+            return requested
         warnings.warn("CUDA not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
-    if dev == "mps":
+    if dev.startswith("mps"):
+        requested = torch.device(dev)
         if torch.backends.mps.is_available():
-            return torch.device("mps")
+            return requested
         warnings.warn("MPS not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
     if dev == "cpu":
-- 
2.43.0


From 9c78e0f884a65a9074b241fa88400e67ceb885ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 14/20] fix: compute exact microphone distances for large
 arrays

---
 src/torchrir/io/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/io/metadata.py b/src/torchrir/io/metadata.py
index e851224..c313f6e 100644
--- a/src/torchrir/io/metadata.py
+++ b/src/torchrir/io/metadata.py
@@ -192,7 +192,7 @@ def _array_attributes(mics: MicrophoneArray) -> ArrayAttributes:
     center = pos.mean(dim=0)
     spacing = None
     if n_mic >= 2:
-        dists = torch.cdist(pos, pos)
+        dists = torch.cdist(pos, pos, compute_mode="donot_use_mm_for_euclid_dist")
         dists = dists[dists > 0]
         if dists.numel() > 0:
             spacing = float(dists.min().item())
-- 
2.43.0


From 0dd306aa3b910728f8175562040e1a837e24173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 15/20] fix: honour a tensor's stored sample subtype when
 saving (detach() dropped it)

---
 src/torchrir/io/audio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 2a9ea63..50f0582 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -108,6 +108,9 @@ def _save_audio(
     """Save a mono or multi-channel audio file to disk."""
     import soundfile as sf
 
+    if subtype is None:
+        # Backward-compatible fallback for tensors that carry custom attrs.
+        subtype = getattr(audio, "_torchrir_subtype", None)
     audio = audio.detach().cpu().to(torch.float32)
     if normalize:
         if peak <= 0:
@@ -117,9 +120,6 @@ def _save_audio(
             audio = audio / max_val * peak
     if audio.ndim == 2 and audio.shape[0] <= 8:
         audio = audio.transpose(0, 1)
-    if subtype is None:
-        # Backward-compatible fallback for tensors that carry custom attrs.
-        subtype = getattr(audio, "_torchrir_subtype", None)
     sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype)
 
 
-- 
2.43.0


From fcac11541c897628e515a1a9c5de39a7ade432c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 16/20] fix: re-download a LibriSpeech archive whose compressed
 data is damaged (zlib.error was not caught)

---
 src/torchrir/datasets/librispeech.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index ee10fbd..cc25df9 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import logging
 import tarfile
 import urllib.request
+import zlib
 from dataclasses import dataclass
 from pathlib import Path
 from typing import List, Tuple
@@ -143,7 +144,7 @@ class LibriSpeechDataset(BaseDataset):
             try:
                 with tarfile.open(archive_path, "r:gz") as tar:
                     safe_extractall(tar, self.root)
-            except (tarfile.ReadError, EOFError, OSError) as exc:
+            except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
-- 
2.43.0


From 09409b87ba602b68764d068505c564962f7b18a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 17/20] fix: list LibriSpeech utterances in a fixed order
 instead of the file system's

---
 src/torchrir/datasets/librispeech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index cc25df9..25f4187 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -102,7 +102,7 @@ class LibriSpeechDataset(BaseDataset):
         search_root = (
             self._speaker_dir if self._speaker_dir is not None else self._subset_dir
         )
-        for trans_path in search_root.rglob("*.trans.txt"):
+        for trans_path in sorted(search_root.rglob("*.trans.txt")):
             chapter_dir = trans_path.parent
             speaker_id = chapter_dir.parent.name
             chapter_id = chapter_dir.name
-- 
2.43.0


From f4230f42ed1de50a32783c72d18eee3d8e14d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 18/20] fix: give LibriSpeech items their speaker when the
 dataset is not restricted to one

---
 src/torchrir/datasets/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/datasets/base.py b/src/torchrir/datasets/base.py
index 7d646d5..b1c8ff1 100644
--- a/src/torchrir/datasets/base.py
+++ b/src/torchrir/datasets/base.py
@@ -60,6 +60,8 @@ class BaseDataset(Dataset[DatasetItem]):
         sentence = sentences[idx]
         audio, sample_rate = self.load_audio(sentence.utterance_id)
         speaker = getattr(self, "speaker", None)
+        if speaker is None:
+            speaker = getattr(sentence, "speaker_id", None)
         text = getattr(sentence, "text", None)
         return DatasetItem(
             audio=audio,
-- 
2.43.0


From 9b2bd20eff43e08091b0535d37765187162c4367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 19/20] fix: include the mixture peak when scaling generated
 CMU ARCTIC scenes

Stems that stay below the limit can add up beyond full scale, so
mixture.wav was clipped when written and no longer equalled the sum of
the source files.
---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index ac3c1b6..33a1fbd 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -407,7 +407,9 @@ def _load_fixed_length_signal(
 def _normalize_sources(
     stems: list[np.ndarray], *, peak_limit: float = 0.99
 ) -> list[np.ndarray]:
-    peak = max(float(np.max(np.abs(stem))) for stem in stems)
+    # The mixture is written next to the stems, so its peak counts as well.
+    mix = np.sum(np.stack(stems, axis=0), axis=0)
+    peak = max(float(np.max(np.abs(signal))) for signal in [*stems, mix])
     if peak <= 0.0 or peak <= peak_limit:
         return stems
     scale = peak_limit / peak
-- 
2.43.0


From 87de4d5a57944da38b2ac155dcdd1fa2aeb6eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 20/20] fix: label sources in 3-D animations

Axes3D.text takes x, y, z and the text, so every 3-D animation with
annotate_sources (the default) failed with a TypeError.
---
 src/torchrir/viz/animation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index c333e6f..dcecb00 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -217,7 +217,8 @@ def _build_scene_animation(
     source_texts = []
     if annotate_sources:
         for idx in range(view_src_traj.shape[1]):
-            text = ax.text(0.0, 0.0, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
+            origin = (0.0,) * view_dim  # 3D axes also take a z coordinate
+            text = ax.text(*origin, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
             source_texts.append(text)
 
     ax.legend(loc="best", fontsize=_VIDEO_FONT_SIZE_PT)
-- 
2.43.0

