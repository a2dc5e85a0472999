From 621a9ba39df7ab81acdaefad22f493e825014b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 1/7] fix: let logical_all and logical_any reduce arrays along
 any axis

The return annotation shared the '*batch' shape variable with the inputs, so
every call whose result has another shape than its arguments - e.g. reducing an
array with the default (flattening) axis - raised a TypeCheckError.
---
 differt2d/logic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 2cc0ac3..3afab3b 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -64,6 +64,9 @@ _LOCK = RLock()
 Truthy = Union[Bool[Array, " *batch"], Float[Array, " *batch"]]
 """An array of truthy values, either booleans or floats between 0 and 1."""
 
+_ReducedTruthy = Union[Bool[Array, " *reduced_batch"], Float[Array, " *reduced_batch"]]
+"""An array of truthy values, whose shape may differ from the inputs'."""
+
 
 def set_approx(enable: bool) -> None:
     """
@@ -493,7 +496,7 @@ def logical_all(
     *x: Union[Truthy, float, bool],
     axis: Optional[Union[int, tuple[int, ...]]] = None,
     approx: Optional[bool] = None,
-) -> Truthy:
+) -> _ReducedTruthy:
     """
     Returns whether all values in ``x`` are true.
 
@@ -518,7 +521,7 @@ def logical_any(
     *x: Union[Truthy, float, bool],
     axis: Optional[Union[int, tuple[int, ...]]] = None,
     approx: Optional[bool] = None,
-) -> Truthy:
+) -> _ReducedTruthy:
     """
     Returns whether any value in ``x`` is true.
 
-- 
2.43.0


From 83f6c35d03654346fe7f993f527a470e55534290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 2/7] fix: accumulate over every transmitter-receiver pair

Scene.accumulate_over_paths skipped all (transmitter, receiver) pairs when there
was no path candidate, instead of producing their (zero) total.
---
 differt2d/scene.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 90769dc..d82cb11 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1303,24 +1303,31 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
             fun_kwargs = {}
 
         def results() -> Iterator[tuple[str, str, Float[Array, " "]]]:
-            for (tx_key, rx_key), paths_group in groupby(
-                self.all_paths(**kwargs),
-                operator.itemgetter(slice(2)),
-            ):
+            groups = groupby(self.all_paths(**kwargs), operator.itemgetter(slice(2)))
+            # There is no group at all if there is no path candidate
+            pair, paths_group = next(groups, (None, ()))
+
+            for (tx_key, transmitter), (
+                rx_key,
+                receiver,
+            ) in self.all_transmitter_receiver_pairs():
                 acc = jnp.array(0.0)
-                transmitter = self.transmitters[tx_key]
-                receiver = self.receivers[rx_key]
-
-                for _, _, valid, path, path_candidate in paths_group:
-                    interacting_objects = self.get_interacting_objects(path_candidate)
-                    acc = acc + valid * fun(
-                        transmitter,
-                        receiver,
-                        path,
-                        interacting_objects,  # type: ignore[arg-type]
-                        *fun_args,
-                        **fun_kwargs,
-                    )
+
+                if pair == (tx_key, rx_key):
+                    for _, _, valid, path, path_candidate in paths_group:
+                        interacting_objects = self.get_interacting_objects(
+                            path_candidate
+                        )
+                        acc = acc + valid * fun(
+                            transmitter,
+                            receiver,
+                            path,
+                            interacting_objects,  # type: ignore[arg-type]
+                            *fun_args,
+                            **fun_kwargs,
+                        )
+
+                    pair, paths_group = next(groups, (None, ()))
 
                 yield tx_key, rx_key, acc
 
-- 
2.43.0


From 444df10f603dfd6dc7dae29d95d634d4e8ead843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 3/7] fix: return the loss of the solution found by minimize

The returned loss was the one evaluated before the last update, i.e., not the
objective at the returned point.
---
 differt2d/optimize.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index 91c1c9d..d20229c 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -82,19 +82,19 @@ def minimize(
     """
     optimizer = optimizer or optax.adam(learning_rate=0.1)
 
-    f_and_df = jax.value_and_grad(fun)
+    df = jax.grad(fun)
     opt_state = optimizer.init(x0)
 
     def f(carry, _):
         x, opt_state = carry
-        loss, grads = f_and_df(x, *args)
+        grads = df(x, *args)
         updates, opt_state = optimizer.update(grads, opt_state)
         x = x + updates
         carry = (x, opt_state)
-        return carry, loss
+        return carry, None
 
-    (x, _), losses = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
-    return x, losses[-1]
+    (x, _), _ = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
+    return x, fun(x, *args)
 
 
 @eqx.filter_jit
-- 
2.43.0


From 3330723c4ddab6358911c9a3fe8e669ffc173bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 4/7] fix: read the mode to be restored by enable_approx inside
 the lock

Otherwise, a thread waiting for the lock could restore the (temporary) mode of
another thread's context once all contexts are closed.
---
 differt2d/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 3afab3b..78e6123 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -190,8 +190,8 @@ def enable_approx(enable: bool = True):
         0.0
     """
     global ENABLE_APPROX
-    state = ENABLE_APPROX
     with _LOCK:
+        state = ENABLE_APPROX
         try:
             ENABLE_APPROX = enable
             yield
-- 
2.43.0


From f173a7ad42ce68263528aa927264c00eacfd8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 5/7] fix: ignore non-polygon geometries in Scene.from_geojson

Point geometries (coordinates are numbers) and geometry collections (no
coordinates) raised an error instead of being ignored.
---
 differt2d/scene.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index d82cb11..02082ef 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -639,10 +639,11 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         for feature in features:
             if geometry := feature.get("geometry", None):
                 _type = geometry["type"]
-                coordinates = geometry["coordinates"][0]
-                n = len(coordinates)
 
                 if _type == "Polygon":
+                    coordinates = geometry["coordinates"][0]
+                    n = len(coordinates)
+
                     for i in range(n):
                         xys = jnp.array(
                             [coordinates[i - 1], coordinates[i]],
-- 
2.43.0


From e5ddd5ae65b15d019c9855484179b5392eaa9f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:43 +0000
Subject: [PATCH 6/7] fix: finite gradient when an image ray is parallel to the
 wall

In ImagePath's backward pass the guarded division was only guarded in the
forward direction, so its gradient was NaN when the point-image segment was
parallel to the wall. Use the same double where as in segments_intersect.
---
 differt2d/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index d65e811..3e36acb 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -1101,8 +1101,8 @@ class ImagePath(Path):
             v = p - point
             un = jnp.dot(u, n)
             vn = jnp.dot(v, n)
-            # Avoid division by zero
-            inc = jnp.where(un == 0.0, 0.0, vn * u / un)
+            # Avoid division by zero, also in the gradient
+            inc = jnp.where(un == 0.0, 0.0, vn * u / jnp.where(un == 0.0, 1.0, un))
             point = point + inc
             return point, point
 
-- 
2.43.0


From 51ff05374e2b98f119b87ee46b709bfb1318a788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:39 +0000
Subject: [PATCH 7/7] fix: finite gradient when normalizing a null vector

The value of normalize is well defined for null vectors (they are returned
as they are, with length 1), but its gradient was NaN because the square root
was still differentiated at zero.
---
 differt2d/geometry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 3e36acb..23205c0 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -224,8 +224,11 @@ def normalize(vector: Float[Array, "2"]) -> tuple[Float[Array, "2"], Float[Array
     >>> normalize(zero)  # Special behavior at 0.
     (Array([0., 0.], dtype=float32), Array(1., dtype=float32))
     """
-    length = jnp.linalg.norm(vector)
-    length: Float[Array, " "] = jnp.where(length == 0.0, jnp.ones_like(length), length)
+    squared_length = jnp.sum(vector * vector)
+    # The gradient of the square root is not finite at 0
+    length: Float[Array, " "] = jnp.sqrt(
+        jnp.where(squared_length == 0.0, 1.0, squared_length)
+    )
 
     return vector / length, length
 
-- 
2.43.0

