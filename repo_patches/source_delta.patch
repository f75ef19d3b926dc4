From 6de71082322a81b0bfd1a8d17ee5dd29377479e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 01/90] fix: access_data masks whole observations of
 multi-dimensional buffered streams

---
 src/wax/stream.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index f45c037..6946e2c 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -357,11 +357,15 @@ def access_data(step: int, x: Any, idx: Any):
         idx : predifined access index.
     """
     step_idx = idx[step]
-    # output = x[step_idx]
+    values = jnp.atleast_1d(x)[step_idx]
+    # align the mask on the leading axes, so that it applies to whole observations.
+    missing = jnp.reshape(
+        step_idx < 0, jnp.shape(step_idx) + (1,) * (jnp.ndim(values) - jnp.ndim(step_idx))
+    )
     output = jnp.where(
-        step_idx < 0,
-        jnp.full_like(jnp.atleast_1d(x)[step_idx], DTYPE_INIT_VALUES[x.dtype.type]),
-        jnp.atleast_1d(x)[step_idx],
+        missing,
+        jnp.full_like(values, DTYPE_INIT_VALUES[x.dtype.type]),
+        values,
     )
     return output
 
-- 
2.43.0


From 1589101cfb675693fc5df05bc2d5a0e061815a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 02/90] fix: Stream.merge reads the first observation of
 secondary streams only once

---
 src/wax/stream.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 6946e2c..34cfe22 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -638,6 +638,13 @@ class Stream:
 
         original_streams = streams.copy()
         local_time = self.get_local_time(streams)
+
+        # The first item of each stream only serves the initialization and is repeated
+        # by its generator: skip it, so that no observation is read twice.
+        for time_dim, stream in streams.items():
+            if time_dim != local_time:
+                stream_obs[time_dim] = next(stream, stream_obs[time_dim])
+
         while True:
             # local loop
             streams = original_streams.copy()
-- 
2.43.0


From d9065ad78864c963e4c4921165cb8e53d1ff3a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 03/90] fix: get_dataset_index gives constant arrays unchanged
 to every step

---
 src/wax/stream.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 34cfe22..d5f4c9a 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -224,11 +224,11 @@ def get_dataset_index(dataset: xr.Dataset, time_dataset_index: xr.Dataset) -> xr
                 dataset_index[dim] = xr.DataArray(onp.arange(n_steps), dims=("step",))
             else:
                 values_atleast_1d = onp.atleast_1d(var.values)
-                # grid = onp.indices(values_atleast_1d.shape)
-                flat_idx = onp.arange(len(values_atleast_1d.ravel()))
+                # constant data: every step accesses the whole array along its first axis.
+                idx = onp.arange(len(values_atleast_1d))
                 dataset_index[dim] = xr.DataArray(
-                    onp.outer(onp.arange(n_steps), flat_idx),
-                    dims=("step", cast(str, dim) + "_flat_idx"),
+                    onp.tile(idx, (n_steps, 1)),
+                    dims=("step", cast(str, dim) + "_idx"),
                 )
     return dataset_index
 
-- 
2.43.0


From 587bf6df57ac025e6f620c52c923d3cc6a4ceb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 04/90] fix: unroll_stream(skip_first=True) collects each leaf
 in its own list

---
 src/wax/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index d5f4c9a..73b1b40 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -303,7 +303,7 @@ def unroll_stream(
     # stream_scan
     def _init_outputs():
         if skip_first:
-            return [[]] * num_leaves
+            return [[] for _ in range(num_leaves)]
         else:
             return [[x] for x in obs_flat]
 
-- 
2.43.0


From 89b48be1cf1c4bf072ce8a63c16195d649c7ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 05/90] fix: gym_static_unroll keeps the output of the first
 step when it is not skipped

---
 src/wax/unroll.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index b7f7dec..9d06e47 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -417,8 +417,7 @@ def gym_static_unroll(gym_fun, params, state, seq, skip_first, data_generator, p
     if not skip_first:
         y, state = gym_fun.apply(params, state, next(seq), obs)
         y, treedef = tree_flatten(y)
-        if ys is None:
-            ys = tuple([] for _ in y)
+        ys = tuple([y_] for y_ in y)
 
     if pbar:
         data_generator = tqdm(data_generator, desc="gym_static_unroll")
-- 
2.43.0


From 30dc6af79049678ddb768f25ba48e45fa1114835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 06/90] fix: transform_batch_with_state uses the rng key given
 to apply

---
 src/wax/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/transform.py b/src/wax/transform.py
index dd8037a..588c8aa 100644
--- a/src/wax/transform.py
+++ b/src/wax/transform.py
@@ -54,10 +54,11 @@ def transform_batch_with_state(fun, skip_first=False):
     def apply(params, state, key, xs):
         # params is not used ... (and is empty)
         # replace state rng_key by given rng_key
+        init_state = BatchState(state.fun_params, state.fun_state, key)
         # we drop the first observation because it has been used in initialization....
         if skip_first:
             xs = tree_map(lambda x: x[1:], xs)
-        final_state, output_sequence = jax.lax.scan(scan_f, init=state, xs=xs)
+        final_state, output_sequence = jax.lax.scan(scan_f, init=init_state, xs=xs)
         assert isinstance(final_state, BatchState)
         return output_sequence, final_state
 
-- 
2.43.0


From 558a869a3e70a6853be5a2fe597f9eb29dab8093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 07/90] fix: Counter and OnlineOptimizer do not modify a saved
 numpy state in place

---
 src/wax/modules/counter.py          | 2 +-
 src/wax/modules/online_optimizer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wax/modules/counter.py b/src/wax/modules/counter.py
index e5b9f5d..d594e65 100644
--- a/src/wax/modules/counter.py
+++ b/src/wax/modules/counter.py
@@ -19,6 +19,6 @@ from jax.numpy import uint32
 class Counter(hk.Module):
     def __call__(self):
         count = hk.get_state("count", [], init=lambda shape, dtype: DeviceArray(0, dtype=uint32))
-        count += 1
+        count = count + 1
         hk.set_state("count", count)
         return count
diff --git a/src/wax/modules/online_optimizer.py b/src/wax/modules/online_optimizer.py
index ab165a9..ea80daf 100644
--- a/src/wax/modules/online_optimizer.py
+++ b/src/wax/modules/online_optimizer.py
@@ -143,7 +143,7 @@ class OnlineOptimizer(hk.Module):
             updated_trainable_params = self.project_params(updated_trainable_params, self.opt)
 
         updated_params = hk.data_structures.merge(updated_trainable_params, non_trainable_params)
-        step += 1
+        step = step + 1
         hk.set_state("step", step)
         hk.set_state(
             "model_params_and_state",
-- 
2.43.0


From f985ac2ecc7daf4eacc43b7ba726bebcf93818cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 08/90] fix: the state of GymFeedback can be pickled

---
 src/wax/modules/gym_feedback.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wax/modules/gym_feedback.py b/src/wax/modules/gym_feedback.py
index 34e012a..b0f0730 100644
--- a/src/wax/modules/gym_feedback.py
+++ b/src/wax/modules/gym_feedback.py
@@ -55,10 +55,14 @@ class GymInfo(NamedTuple):
     agent: Any
 
 
+class GymState(NamedTuple):
+    action: Any
+
+
 class GymFeedback(hk.Module):
     """Gym feedback between an agent and a Gym environment."""
 
-    GymState = namedtuple("GymState", "action")
+    GymState = GymState
 
     def __init__(
         self,
-- 
2.43.0


From e5be109613b6ba58848a406751718632652cd579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 09/90] fix: Flax OnlineOptimizer, FuncOptimizer and
 UpdateParams work without a params_predicate

---
 src/wax/flax/modules/online_optimizer.py |  9 ++++++---
 src/wax/flax/modules/update_params.py    | 11 +++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index b09e228..24e1433 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -51,11 +51,14 @@ class OnlineOptimizer(nn.Module):
 
     def setup(self):
         """Setup the OnlineOptimizer module."""
-        # Set default predicate if none provided
+        # Set default predicate if none provided. Module attributes are frozen, so the
+        # default is kept under its own name.
         if self.params_predicate is None:
             from wax.predicate import pass_all_predicate
 
-            self.params_predicate = pass_all_predicate
+            self.is_trainable = pass_all_predicate
+        else:
+            self.is_trainable = self.params_predicate
 
         # Wrap optimizer if it's not already an OptaxOptimizer
         if not isinstance(self.opt, OptaxOptimizer):
@@ -134,7 +137,7 @@ class OnlineOptimizer(nn.Module):
 
             for key, value in flat_params.items():
                 path = key.split("/")
-                if self.params_predicate(path[0] if path else "", path[-1] if path else "", value):
+                if self.is_trainable(path[0] if path else "", path[-1] if path else "", value):
                     trainable[key] = value
                 else:
                     non_trainable[key] = value
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 7d39d2e..503712d 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -33,11 +33,14 @@ class UpdateParams(nn.Module):
 
     def setup(self):
         """Setup the UpdateParams module."""
-        # Set default predicate if none provided
+        # Set default predicate if none provided. Module attributes are frozen, so the
+        # default is kept under its own name.
         if self.predicate is None:
             from wax.predicate import pass_all_predicate
 
-            self.predicate = pass_all_predicate
+            self.is_trainable = pass_all_predicate
+        else:
+            self.is_trainable = self.predicate
 
     @nn.compact
     def __call__(self, *args, **kwargs) -> Any:
@@ -80,7 +83,7 @@ class UpdateParams(nn.Module):
         """
         if not isinstance(params, dict):
             # If params is not a dict, treat as single parameter
-            if self.predicate("", "", params):
+            if self.is_trainable("", "", params):
                 return params, {}
             else:
                 return {}, params
@@ -98,7 +101,7 @@ class UpdateParams(nn.Module):
             param_name = path_parts[-1] if len(path_parts) > 0 else ""
 
             # Apply predicate to determine if parameter is trainable
-            if self.predicate(module_name, param_name, value):
+            if self.is_trainable(module_name, param_name, value):
                 trainable[key] = value
             else:
                 non_trainable[key] = value
-- 
2.43.0


From 76557e3db229c25ae14a99c728fef3037d1c5b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 10/90] fix: Flax Buffer accepts a state restored as NumPy
 arrays

---
 src/wax/flax/modules/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/buffer.py b/src/wax/flax/modules/buffer.py
index 643062f..dfe7004 100644
--- a/src/wax/flax/modules/buffer.py
+++ b/src/wax/flax/modules/buffer.py
@@ -70,7 +70,8 @@ class Buffer(nn.Module):
             "state", "write_idx", lambda: jnp.array(0, dtype=jnp.int32)
         )
 
-        current_buffer = buffer.value
+        # A state restored from disk holds NumPy arrays.
+        current_buffer = jnp.asarray(buffer.value)
         current_len = len_buffer.value
         current_write_idx = write_idx.value
 
-- 
2.43.0


From 4ae9e00d00f8e107872c45cd3595487bc1c1db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 11/90] fix: compressed buffers return their contents, in
 order, on steps without an update

---
 src/wax/flax/modules/buffer.py            |  9 +++++++
 src/wax/flax/modules/compressed_buffer.py | 31 +++++++++++++----------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/wax/flax/modules/buffer.py b/src/wax/flax/modules/buffer.py
index dfe7004..2bb45e6 100644
--- a/src/wax/flax/modules/buffer.py
+++ b/src/wax/flax/modules/buffer.py
@@ -99,6 +99,15 @@ class Buffer(nn.Module):
         else:
             return ordered
 
+    def contents(self) -> jnp.ndarray:
+        """Return the recorded data in logical order (oldest first), recording nothing.
+
+        Data must have been recorded before.
+        """
+        start = self.get_variable("state", "write_idx")
+        indices = (jnp.arange(self.maxlen) + start) % self.maxlen
+        return jnp.asarray(self.get_variable("state", "buffer"))[indices]
+
 
 def create_buffer(maxlen: int, fill_value: float = jnp.nan, return_state: bool = False) -> Buffer:
     """Factory function to create Buffer module with given parameters.
diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index b43effa..6909560 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -253,9 +253,7 @@ class CompressedBuffer(nn.Module):
             downsampled_data = cast(jnp.ndarray, self.downsampled_buffer(x))
         else:
             # Return current buffer state without update
-            downsampled_data = cast(
-                jnp.ndarray, self.downsampled_buffer.variables["state"]["buffer"]
-            )
+            downsampled_data = self.downsampled_buffer.contents()
 
         self.sample_counter.value = counter + 1
         return downsampled_data
@@ -284,6 +282,19 @@ class CompressedBuffer(nn.Module):
         """Update without compression."""
         return cast(jnp.ndarray, self.uncompressed_buffer(x))
 
+    def current(self) -> jnp.ndarray:
+        """Return the compressed representation without adding an element."""
+        if self.compression == "ewma":
+            return jnp.asarray(self.compressed_state.value)
+        elif self.compression == "quantile":
+            return self.quantile_estimates.value
+        elif self.compression == "downsample":
+            return self.downsampled_buffer.contents()
+        elif self.compression == "sketching":
+            return jnp.min(self.sketch.value, axis=0)
+        else:
+            return self.uncompressed_buffer.contents()
+
     def get_memory_usage(self) -> dict[str, int]:
         """Get estimated memory usage in bytes."""
         # Use compression params or defaults for calculations
@@ -398,12 +409,9 @@ class HierarchicalBuffer(nn.Module):
             medium_data = self.medium_buffer(x)
         else:
             # Return current medium buffer state
-            # Step 0 always updates (0 % 5 == 0), so the stored state is an array
-            # by the time this branch is reached, never the initial Python scalar.
-            if hasattr(self.medium_buffer, "compressed_state"):
-                medium_data = cast(jnp.ndarray, self.medium_buffer.compressed_state.value)
-            else:
-                medium_data = jnp.array(0.0)
+            # Step 0 always updates (0 % 5 == 0), so there is a stored state by the
+            # time this branch is reached.
+            medium_data = self.medium_buffer.current()
 
         # Update long buffer every many steps
         long_counter = self.long_update_counter.value
@@ -412,10 +420,7 @@ class HierarchicalBuffer(nn.Module):
         else:
             # Return current long buffer state
             # Same reasoning as the medium level: step 0 always updates.
-            if hasattr(self.long_buffer, "compressed_state"):
-                long_data = cast(jnp.ndarray, self.long_buffer.compressed_state.value)
-            else:
-                long_data = jnp.array(0.0)
+            long_data = self.long_buffer.current()
 
         # Update counters
         self.medium_update_counter.value = medium_counter + 1
-- 
2.43.0


From 3570bd6021eb43548e59a4f80f29ccfb5b7c6468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 12/90] fix: Haiku Lag(return_state=True) and PctChange without
 fill method

---
 src/wax/modules/lag.py        | 6 ++++--
 src/wax/modules/pct_change.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wax/modules/lag.py b/src/wax/modules/lag.py
index 36c724f..b48b88a 100644
--- a/src/wax/modules/lag.py
+++ b/src/wax/modules/lag.py
@@ -29,8 +29,10 @@ class Lag(Buffer):
         self.lag = lag
 
     def __call__(self, x):
-        buffer = super().__call__(x)
-        return buffer[0]
+        if self.return_state:
+            buffer, state = super().__call__(x)
+            return buffer[0], state
+        return super().__call__(x)[0]
 
 
 # Helper functions
diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 7525485..11259fb 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -54,7 +54,7 @@ class PctChange(hk.Module):
         if self.fill_method in ["ffill", "pad"]:
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
-            previous_x = Lag(self.periods)()
+            previous_x = Lag(self.periods)(x)
         pct_change = x / previous_x - 1.0
         if self.fillna_zero:
             pct_change = jnp.where(jnp.isnan(x) & ~jnp.isnan(previous_x), 0.0, pct_change)
-- 
2.43.0


From 667fd1752bd1aa9f00a9b62b1bd825d1ee90b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 13/90] fix: Flax Buffer keeps its order after 2**31
 observations

---
 src/wax/flax/modules/buffer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/buffer.py b/src/wax/flax/modules/buffer.py
index 2bb45e6..89e7d12 100644
--- a/src/wax/flax/modules/buffer.py
+++ b/src/wax/flax/modules/buffer.py
@@ -80,7 +80,10 @@ class Buffer(nn.Module):
         updated_buffer = current_buffer.at[write_pos].set(input)
 
         updated_len = jnp.minimum(current_len + 1, self.maxlen)
-        new_write_idx = current_write_idx + 1
+        # Start again before the counter overflows, at the same position of the buffer.
+        new_write_idx = (current_write_idx + 1) % (
+            jnp.iinfo(jnp.int32).max // self.maxlen * self.maxlen
+        )
 
         # Persist internal state
         buffer.value = updated_buffer
-- 
2.43.0


From 72a93ca97678954973ba57a4b40ac36987261f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 14/90] fix: sketching CompressedBuffer accepts a state
 restored as NumPy arrays

---
 src/wax/flax/modules/compressed_buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index 6909560..47271f3 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -260,7 +260,8 @@ class CompressedBuffer(nn.Module):
 
     def _sketching_update(self, x: jnp.ndarray) -> jnp.ndarray:
         """Update Count-Min sketch."""
-        sketch = self.sketch.value
+        # A state restored from disk holds NumPy arrays.
+        sketch = jnp.asarray(self.sketch.value)
         hash_params = self.hash_params.value
 
         # Hash the input value to multiple buckets
-- 
2.43.0


From 65f1228fbf89b510e2ffa5139e836f1af1d31299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 15/90] fix: Flax OHLC ignores missing inputs

---
 src/wax/flax/modules/ohlc.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/wax/flax/modules/ohlc.py b/src/wax/flax/modules/ohlc.py
index 6786b26..d7fd90a 100644
--- a/src/wax/flax/modules/ohlc.py
+++ b/src/wax/flax/modules/ohlc.py
@@ -75,22 +75,24 @@ class OHLC(nn.Module):
         current_open = open_val.value
         current_high = high_val.value
         current_low = low_val.value
-        # The previous close is never needed: CLOSE is always the latest input.
+        current_close = close_val.value
 
         # Determine if this is the first valid input or a reset
         is_first_or_reset = should_reset | jnp.isnan(current_open)
 
-        # Update OPEN: set to input if first/reset, otherwise keep current
-        new_open = jnp.where(is_first_or_reset, input, current_open)
+        # Update CLOSE: the latest valid input of the bin, missing inputs are ignored
+        no_close = jnp.full(input.shape, jnp.nan, input.dtype)
+        previous_close = jnp.where(should_reset, no_close, current_close)
+        new_close = jnp.where(jnp.isnan(input), previous_close, input)
 
-        # Update HIGH: max of current high and input, or input if first/reset
-        new_high = jnp.where(is_first_or_reset, input, jnp.maximum(current_high, input))
+        # Update OPEN: set to close if first/reset, otherwise keep current
+        new_open = jnp.where(is_first_or_reset, new_close, current_open)
 
-        # Update LOW: min of current low and input, or input if first/reset
-        new_low = jnp.where(is_first_or_reset, input, jnp.minimum(current_low, input))
+        # Update HIGH: max of current high and close, or close if first/reset
+        new_high = jnp.where(is_first_or_reset, new_close, jnp.fmax(current_high, new_close))
 
-        # Update CLOSE: always set to current input
-        new_close = input
+        # Update LOW: min of current low and close, or close if first/reset
+        new_low = jnp.where(is_first_or_reset, new_close, jnp.fmin(current_low, new_close))
 
         # Update state variables
         open_val.value = new_open
-- 
2.43.0


From fc35a2e5a906ebc85223399a32cd2821826db290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 16/90] fix: StreamingScan with a reset function works under
 jit

---
 src/wax/flax/core/streaming_transforms.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 6583ab4..3bd537f 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -603,15 +603,14 @@ class StreamingScan(nn.Module):
         def scan_fn(carry, x):
             """Inner scan function with reset logic."""
 
-            # Check if we should reset state
-            should_reset = False
-            if self.reset_fn is not None:
+            # Reset to the initial state if needed (JAX-compatible)
+            if self.reset_fn is not None and self.preserve_state:
                 should_reset = self.reset_fn(x)
-
-            # Reset state if needed
-            if should_reset and self.preserve_state:
-                # Reset to initial state
-                carry = initial_state
+                carry = jax.tree_util.tree_map(
+                    lambda init_val, val: jnp.where(should_reset, init_val, val),
+                    initial_state,
+                    carry,
+                )
 
             # Apply the streaming function
             # For now, we'll implement a simple pass-through that maintains carry structure
-- 
2.43.0


From e3993d4f139713957a45ee262f1fdb9435a4aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 17/90] fix: streaming_scan accepts a rng key

---
 src/wax/flax/core/streaming_transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 3bd537f..a353eb9 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -670,7 +670,8 @@ def streaming_scan(
             if params is None or state is None:
                 # Initialize if needed
                 sample_input = jax.tree_util.tree_map(lambda x: x[0], inputs)
-                params, state = streaming_fn.init(rng or jax.random.PRNGKey(0), sample_input)
+                init_rng = jax.random.PRNGKey(0) if rng is None else rng
+                params, state = streaming_fn.init(init_rng, sample_input)
 
             # Create scan function that applies streaming function element by element
             def scan_body(carry_state, x):
-- 
2.43.0


From d7c6d437988d47ac7a2f0c2bb2b2db4e1f4b2bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 18/90] fix: streaming_scan can reset a resumed run to its
 first state

---
 src/wax/flax/core/streaming_transforms.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index a353eb9..7bff92f 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -665,13 +665,19 @@ def streaming_scan(
         # First transform the function into a streaming function
         streaming_fn = streaming_transform_with_state(scan_fn)
 
-        def scan_apply(inputs, params=None, state=None, rng=None):
-            """Apply scan directly to inputs."""
+        def scan_apply(inputs, params=None, state=None, rng=None, initial_state=None):
+            """Apply scan directly to inputs.
+
+            A reset restores `initial_state`, which is `state` if it is not given. Pass it to
+            continue a run from a later state.
+            """
             if params is None or state is None:
                 # Initialize if needed
                 sample_input = jax.tree_util.tree_map(lambda x: x[0], inputs)
                 init_rng = jax.random.PRNGKey(0) if rng is None else rng
                 params, state = streaming_fn.init(init_rng, sample_input)
+            if initial_state is None:
+                initial_state = state
 
             # Create scan function that applies streaming function element by element
             def scan_body(carry_state, x):
@@ -688,7 +694,7 @@ def streaming_scan(
                                 should_reset, init_val, new_val
                             ),
                             new_state,
-                            state,
+                            initial_state,
                         )
 
                 return new_state, output
-- 
2.43.0


From d094b58c54d88cd3b40f180256800977d5a76fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 19/90] fix: masked deviations and normalisation along the last
 axis use each row's own statistics

---
 src/wax/flax/modules/mask_normalize.py | 2 ++
 src/wax/modules/mask_normalize.py      | 3 +++
 src/wax/modules/mask_std.py            | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/src/wax/flax/modules/mask_normalize.py b/src/wax/flax/modules/mask_normalize.py
index f8a8498..4c8221e 100644
--- a/src/wax/flax/modules/mask_normalize.py
+++ b/src/wax/flax/modules/mask_normalize.py
@@ -54,6 +54,8 @@ class MaskNormalize(nn.Module):
             x_std = self.mask_std(mask, x)
 
             # Normalize by dividing by standard deviation
+            if self.axis is not None:
+                x_std = jnp.expand_dims(x_std, self.axis)
             x_normalized = x / x_std
 
             # Handle NaN and infinity values that may result from division
diff --git a/src/wax/modules/mask_normalize.py b/src/wax/modules/mask_normalize.py
index e7067df..f7d6fd1 100644
--- a/src/wax/modules/mask_normalize.py
+++ b/src/wax/modules/mask_normalize.py
@@ -14,6 +14,7 @@
 """Normalize data by its standard deviation computed with a mask."""
 
 import haiku as hk
+import jax.numpy as jnp
 from jax.tree_util import tree_map
 
 from wax.modules.fill_nan_inf import FillNanInf
@@ -45,6 +46,8 @@ class MaskNormalize(hk.Module):
 
         def normalize(x):
             x_std = MaskStd(axis=self.axis, assume_centered=self.assume_centered)(mask, x)
+            if self.axis is not None:
+                x_std = jnp.expand_dims(x_std, self.axis)
             x_normalized = FillNanInf()(x / x_std)
             return x_normalized
 
diff --git a/src/wax/modules/mask_std.py b/src/wax/modules/mask_std.py
index 8d32888..3bfcf98 100644
--- a/src/wax/modules/mask_std.py
+++ b/src/wax/modules/mask_std.py
@@ -56,6 +56,8 @@ class MaskStd(hk.Module):
             if self.assume_centered:
                 diff = x
             else:
+                if self.axis is not None:
+                    mean = jnp.expand_dims(mean, self.axis)
                 diff = x - mean
 
             diff = ApplyMask()(mask, diff)
-- 
2.43.0


From 8a340c21f134c9bda89d3d8723bdbe1bc1bf1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 20/90] fix: profile_streaming records every execution once

---
 src/wax/flax/debug/profiler.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index f229222..417497c 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -480,6 +480,8 @@ class ProfilerContext:
         self.module_name = module_name
         self.start_time = None
         self.jit_compilation = False
+        self.input_data: Any = None
+        self.output_data: Any = None
 
     def __enter__(self):
         self.start_time = time.time()
@@ -491,6 +493,8 @@ class ProfilerContext:
             self.profiler.record_metrics(
                 module_name=self.module_name,
                 execution_time=execution_time,
+                input_data=self.input_data,
+                output_data=self.output_data,
                 jit_compilation=self.jit_compilation,
             )
 
@@ -543,21 +547,15 @@ def profile_streaming(
                 def profile_apply(params, state, rng, *args, **kwargs):
                     with profiler.start_step(actual_module_name) as ctx:
                         # Track input data if detailed tracking enabled
-                        input_data = args[0] if args and enable_detailed_tracking else None
+                        if args and enable_detailed_tracking:
+                            ctx.input_data = args[0]
 
                         # Execute function
                         result = original_apply(params, state, rng, *args, **kwargs)
 
                         # Track output data if detailed tracking enabled
-                        output_data = result if enable_detailed_tracking else None
-
-                        # Record additional context
-                        ctx.profiler.record_metrics(
-                            module_name=actual_module_name,
-                            execution_time=0,  # Will be set by context manager
-                            input_data=input_data,
-                            output_data=output_data,
-                        )
+                        if enable_detailed_tracking:
+                            ctx.output_data = result
 
                         return result
 
-- 
2.43.0


From 2a1e61588209116a8620924fd701e4e815d9e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 21/90] fix: profiled durations do not depend on the wall clock

---
 src/wax/flax/debug/profiler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index 417497c..aa35846 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -147,6 +147,7 @@ class StreamingProfiler:
 
         # Session tracking
         self.session_start_time = time.time()
+        self._session_start = time.perf_counter()
         self.step_count = 0
         self.enabled = True
 
@@ -408,7 +409,7 @@ class StreamingProfiler:
     def finalize(self) -> ProfileResult:
         """Finalize profiling and return complete results."""
         with self._lock:
-            session_duration = time.time() - self.session_start_time
+            session_duration = time.perf_counter() - self._session_start
 
             # Generate comprehensive statistics
             if self.metrics:
@@ -457,6 +458,7 @@ class StreamingProfiler:
             self.module_stats.clear()
             self.step_count = 0
             self.session_start_time = time.time()
+            self._session_start = time.perf_counter()
             self.last_memory_usage = 0.0
             self.jit_cache.clear()
             self.compilation_events.clear()
@@ -484,12 +486,12 @@ class ProfilerContext:
         self.output_data: Any = None
 
     def __enter__(self):
-        self.start_time = time.time()
+        self.start_time = time.perf_counter()
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if self.start_time is not None:
-            execution_time = time.time() - self.start_time
+            execution_time = time.perf_counter() - self.start_time
             self.profiler.record_metrics(
                 module_name=self.module_name,
                 execution_time=execution_time,
-- 
2.43.0


From b44eb5366c523aa8faf98c3c60571a08261e7fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 22/90] fix: unreadable process metrics do not break profiling

---
 src/wax/flax/debug/profiler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index aa35846..0638171 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -227,14 +227,21 @@ class StreamingProfiler:
             cpu_percent = 0.0
 
             if self.process:
+                # A process whose metrics cannot be read is still profiled
                 if self.enable_memory_tracking:
-                    memory_info = self.process.memory_info()
-                    memory_usage = memory_info.rss / 1024 / 1024  # MB
+                    try:
+                        memory_info = self.process.memory_info()
+                        memory_usage = memory_info.rss / 1024 / 1024  # MB
+                    except (psutil.Error, OSError):
+                        memory_usage = self.last_memory_usage
                     memory_delta = memory_usage - self.last_memory_usage
                     self.last_memory_usage = memory_usage
 
                 if self.enable_cpu_tracking:
-                    cpu_percent = self.process.cpu_percent()
+                    try:
+                        cpu_percent = self.process.cpu_percent()
+                    except (psutil.Error, OSError):
+                        cpu_percent = 0.0
 
             # Calculate data sizes
             input_size = self._calculate_data_size(input_data)
-- 
2.43.0


From 79cd69c4effa8d3f484bae7d5bdf0e54941b152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 23/90] fix: the profiler bounds all its histories and its
 results are independent of it

---
 src/wax/flax/debug/profiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index 0638171..a998402 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -143,7 +143,7 @@ class StreamingProfiler:
 
         # Profiling data
         self.metrics: deque[PerformanceMetrics] = deque(maxlen=max_history)
-        self.module_stats: dict[str, list[float]] = defaultdict(list)
+        self.module_stats: dict[str, deque[float]] = defaultdict(lambda: deque(maxlen=max_history))
 
         # Session tracking
         self.session_start_time = time.time()
@@ -303,7 +303,7 @@ class StreamingProfiler:
 
         # Store in result (we'll add this to ProfileResult later)
         if not hasattr(self, "_bottlenecks"):
-            self._bottlenecks = []
+            self._bottlenecks = deque(maxlen=self.max_history)
         self._bottlenecks.append(bottleneck)
 
     def get_module_summary(self, module_name: str) -> dict[str, Any]:
@@ -443,7 +443,7 @@ class StreamingProfiler:
                 memory_stats = {}
 
             # Collect bottlenecks
-            bottlenecks = getattr(self, "_bottlenecks", [])
+            bottlenecks = list(getattr(self, "_bottlenecks", []))
 
             # Generate recommendations
             recommendations = self.generate_optimization_recommendations()
-- 
2.43.0


From 3d881a90b364ab1e4381b9175862db609bb0c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 24/90] fix: the performance report of an empty session

---
 src/wax/flax/debug/profiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index a998402..2575579 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -586,6 +586,11 @@ def create_performance_report(profile_result: ProfileResult) -> str:
     report.append("🔍 WAX-ML Streaming Performance Report")
     report.append("=" * 50)
 
+    if "error" in summary:
+        report.append(f"\n{summary['error']}")
+        report.append("\n" + "=" * 50)
+        return "\n".join(report)
+
     # Session overview
     report.append("\n📊 Session Overview:")
     report.append(f"  Duration: {summary['session']['duration_seconds']:.2f} seconds")
-- 
2.43.0


From 8e8804a95096963551d6e4735768249794cfa734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 25/90] fix: debug snapshots do not share mutable data with the
 inspected computation

---
 src/wax/flax/debug/debugger.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 85de486..05ff4d9 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -41,6 +41,7 @@ from typing import Any, Protocol
 
 import jax
 import jax.numpy as jnp
+import numpy as np
 
 
 class DebugCondition(Protocol):
@@ -131,10 +132,10 @@ class DebugHook:
     def _deep_copy_state(self, state: Any) -> Any:
         """Create a deep copy of state for debugging."""
         try:
-            if hasattr(state, "copy"):
+            if isinstance(state, (dict, list, tuple)):
+                return self._safe_copy(state)
+            elif hasattr(state, "copy"):
                 return state.copy()
-            elif isinstance(state, dict):
-                return {k: self._safe_copy(v) for k, v in state.items()}
             else:
                 return state
         except Exception:
@@ -145,6 +146,10 @@ class DebugHook:
         try:
             if isinstance(data, jnp.ndarray):
                 return jnp.copy(data)
+            elif isinstance(data, np.ndarray):
+                return data.copy()
+            elif isinstance(data, tuple) and hasattr(data, "_fields"):
+                return type(data)(*(self._safe_copy(item) for item in data))
             elif isinstance(data, (list, tuple)):
                 return type(data)(self._safe_copy(item) for item in data)
             elif isinstance(data, dict):
@@ -327,6 +332,10 @@ class StreamingDebugger:
         try:
             if isinstance(tree, jnp.ndarray):
                 return jnp.copy(tree)
+            elif isinstance(tree, np.ndarray):
+                return tree.copy()
+            elif isinstance(tree, tuple) and hasattr(tree, "_fields"):
+                return type(tree)(*(self._safe_copy_tree(item) for item in tree))
             elif isinstance(tree, dict):
                 return {k: self._safe_copy_tree(v) for k, v in tree.items()}
             elif isinstance(tree, (list, tuple)):
-- 
2.43.0


From 854a66fbdca8590ee4341e2880fc1972a96693ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 26/90] fix: a debug condition without a truth value does not
 break the inspected computation

---
 src/wax/flax/debug/debugger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 05ff4d9..456d2d8 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -91,7 +91,7 @@ class DebugHook:
             return False
 
         try:
-            return self.condition(step, state, input_data, output)
+            return bool(self.condition(step, state, input_data, output))
         except Exception as e:
             print(f"Warning: Debug condition error in hook '{self.name}': {e}")
             return False
-- 
2.43.0


From f99f90b5f810ce5c8a4470fc3bf488715688c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 27/90] fix: debug conditions can add and remove hooks

---
 src/wax/flax/debug/debugger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 456d2d8..e958aa9 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -289,7 +289,7 @@ class StreamingDebugger:
                 self.performance_data["step"].append(self.current_step)
 
             # Check all hooks
-            for hook in self.hooks.values():
+            for hook in list(self.hooks.values()):
                 if hook.check_condition(self.current_step, state, input_data, output):
                     metadata = {
                         "execution_time_ms": execution_time * 1000 if execution_time else None,
-- 
2.43.0


From e69e81a0c2d48bd7631acf2f8cc0200ef7fca60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 28/90] fix: a breakpoint without a readable console continues

---
 src/wax/flax/debug/debugger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index e958aa9..0401d74 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -191,7 +191,8 @@ class DebugHook:
                     raise KeyboardInterrupt("Debug session terminated")
                 else:
                     print(f"Unknown command: {cmd}. Type 'h' for help.")
-            except EOFError:
+            except (EOFError, OSError, RuntimeError):
+                # There is no console to read from
                 break
             except KeyboardInterrupt:
                 raise
-- 
2.43.0


From 25bf28e9365893909858fa3b43d1dfcacdc0dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 29/90] fix: performance monitors do not alert on steps without
 a measured time

---
 src/wax/flax/debug/debugger.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 0401d74..c215070 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -260,7 +260,11 @@ class StreamingDebugger:
 
         def slow_condition(step, state, input_data, output):
             execution_times = self.performance_data.get("execution_time", [])
-            return execution_times and execution_times[-1] * 1000 > threshold_ms
+            steps = self.performance_data.get("step", [])
+            # Steps without a measured time are neither slow nor fast
+            if not execution_times or steps[-1] != step:
+                return False
+            return execution_times[-1] * 1000 > threshold_ms
 
         hook = DebugHook(name=f"perf_{name}", condition=slow_condition, action="alert")
         return self.add_hook(hook)
-- 
2.43.0


From 1842c71a6ca2393c3cac28632f8868c233fd478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 30/90] fix: the debugger bounds its performance data and
 exports a copy of it

---
 src/wax/flax/debug/debugger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index c215070..b9b6d1d 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -219,7 +219,9 @@ class StreamingDebugger:
         self.hooks: dict[str, DebugHook] = {}
         self.global_events: deque[DebugEvent] = deque(maxlen=max_history)
         self.state_history: deque[Any] = deque(maxlen=max_history)
-        self.performance_data: dict[str, list[float]] = defaultdict(list)
+        self.performance_data: dict[str, deque[float]] = defaultdict(
+            lambda: deque(maxlen=max_history)
+        )
 
         # Tracking state
         self.current_step = 0
@@ -417,7 +419,7 @@ class StreamingDebugger:
                         ]
                         for name, hook in self.hooks.items()
                     },
-                    "performance_data": dict(self.performance_data),
+                    "performance_data": {k: list(v) for k, v in self.performance_data.items()},
                 }
             else:
                 raise ValueError(f"Unsupported export format: {format}")
-- 
2.43.0


From 765259c73302955b05d7e58b25c869b14517754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 31/90] fix: debugged durations do not depend on the wall clock

---
 src/wax/flax/debug/debugger.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index b9b6d1d..a9ea9bf 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -226,6 +226,7 @@ class StreamingDebugger:
         # Tracking state
         self.current_step = 0
         self.session_start_time = time.time()
+        self._session_start = time.perf_counter()
         self.enabled = True
 
         # Thread safety
@@ -299,8 +300,10 @@ class StreamingDebugger:
             for hook in list(self.hooks.values()):
                 if hook.check_condition(self.current_step, state, input_data, output):
                     metadata = {
-                        "execution_time_ms": execution_time * 1000 if execution_time else None,
-                        "session_time": time.time() - self.session_start_time,
+                        "execution_time_ms": execution_time * 1000
+                        if execution_time is not None
+                        else None,
+                        "session_time": time.perf_counter() - self._session_start,
                     }
                     hook.trigger(
                         self.current_step, module_name, state, input_data, output, metadata
@@ -375,7 +378,7 @@ class StreamingDebugger:
                 }
 
             return {
-                "session_duration": time.time() - self.session_start_time,
+                "session_duration": time.perf_counter() - self._session_start,
                 "total_steps": self.current_step,
                 "hooks": hook_stats,
                 "performance": perf_summary,
@@ -463,11 +466,11 @@ def debug_streaming(
 
             def _create_debug_apply(self, original_apply):
                 def debug_apply(params, state, rng, *args, **kwargs):
-                    start_time = time.time() if enable_timing else None
+                    start_time = time.perf_counter() if enable_timing else None
 
                     result = original_apply(params, state, rng, *args, **kwargs)
 
-                    execution_time = (time.time() - start_time) if enable_timing else None
+                    execution_time = (time.perf_counter() - start_time) if enable_timing else None
 
                     # Extract input data (first argument after params/state/rng)
                     input_data = args[0] if args else None
-- 
2.43.0


From cbdb922976d92a362ec7e50b08567f9f897b286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 32/90] fix: state_change_detector sees changes made in place

---
 src/wax/flax/debug/debugger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index a9ea9bf..67ee30c 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -536,6 +536,8 @@ def state_change_detector(field: str, tolerance: float = 1e-6) -> DebugCondition
         try:
             if isinstance(state, dict) and field in state:
                 current_value = state[field]
+                if isinstance(current_value, np.ndarray):
+                    current_value = current_value.copy()
             else:
                 return False
 
-- 
2.43.0


From efc573da5c375dccc4a90b5c853e61a193b20937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 33/90] fix: unreadable process metrics do not break memory
 tracking

---
 src/wax/flax/debug/memory_tracker.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 2ec8a9d..86886c4 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -232,10 +232,12 @@ class MemoryTracker:
                 process_memory_mb = memory_info.rss / 1024 / 1024
                 system_memory_mb = system_memory.total / 1024 / 1024
                 available_memory_mb = system_memory.available / 1024 / 1024
-            except ImportError:
-                process_memory_mb = 0.0
-                system_memory_mb = 0.0
-                available_memory_mb = 0.0
+            except Exception:
+                # The readings are not available: keep the last known ones
+                last = self.last_snapshot
+                process_memory_mb = last.process_memory_mb if last else 0.0
+                system_memory_mb = last.system_memory_mb if last else 0.0
+                available_memory_mb = last.available_memory_mb if last else 0.0
 
             # JAX arrays tracking
             jax_arrays_count = len(self.tracked_arrays)
@@ -273,7 +275,8 @@ class MemoryTracker:
             memory_delta_mb = 0.0
             arrays_delta_count = 0
             if self.last_snapshot:
-                memory_delta_mb = process_memory_mb - self.last_snapshot.process_memory_mb
+                if self.last_snapshot.process_memory_mb > 0:
+                    memory_delta_mb = process_memory_mb - self.last_snapshot.process_memory_mb
                 arrays_delta_count = jax_arrays_count - self.last_snapshot.jax_arrays_count
 
             # Create snapshot
@@ -385,8 +388,9 @@ class MemoryTracker:
 
         recent_snapshots = list(self.snapshots)[-10:]  # Last 10 snapshots
 
-        # Check for consistent memory growth
-        memory_values = [s.process_memory_mb for s in recent_snapshots]
+        # Check for consistent memory growth, where the memory usage is known
+        known_snapshots = [s for s in recent_snapshots if s.process_memory_mb > 0]
+        memory_values = [s.process_memory_mb for s in known_snapshots]
 
         if len(memory_values) >= 3:
             # Simple linear regression to detect trend
@@ -412,9 +416,9 @@ class MemoryTracker:
                             leak_type="growing_memory",
                             growth_rate=growth_rate,
                             total_leaked=total_growth,
-                            first_step=recent_snapshots[0].step,
-                            last_step=recent_snapshots[-1].step,
-                            affected_modules=list(set(s.module_name for s in recent_snapshots)),
+                            first_step=known_snapshots[0].step,
+                            last_step=known_snapshots[-1].step,
+                            affected_modules=list(set(s.module_name for s in known_snapshots)),
                         )
 
         # Check for growing JAX arrays
-- 
2.43.0


From cb9af221d4bc8834edda70f684c021fa8c4b3a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 34/90] fix: memory growth rates are per step

---
 src/wax/flax/debug/memory_tracker.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 86886c4..416a8c6 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -394,7 +394,7 @@ class MemoryTracker:
 
         if len(memory_values) >= 3:
             # Simple linear regression to detect trend
-            x_values = list(range(len(memory_values)))
+            x_values = [s.step for s in known_snapshots]
             n = len(memory_values)
 
             # Calculate slope (growth rate)
@@ -405,8 +405,7 @@ class MemoryTracker:
             denominator = sum((x_values[i] - x_mean) ** 2 for i in range(n))
 
             if denominator > 0:
-                slope = numerator / denominator  # MB per snapshot
-                growth_rate = slope * self.snapshot_interval  # MB per step
+                growth_rate = numerator / denominator  # MB per step
 
                 if growth_rate > self.leak_detection_threshold_mb / 100:  # Threshold per step
                     total_growth = memory_values[-1] - memory_values[0]
-- 
2.43.0


From 4a6d967824d96857eccaebdf60dd3cce0aad2241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 35/90] fix: the memory tracker bounds all its histories

---
 src/wax/flax/debug/memory_tracker.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 416a8c6..5b992dd 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -120,15 +120,19 @@ class MemoryTracker:
 
         # Memory tracking data
         self.snapshots: deque[MemorySnapshot] = deque(maxlen=max_snapshots)
-        self.detected_leaks: list[MemoryLeak] = []
+        self.detected_leaks: deque[MemoryLeak] = deque(maxlen=max_snapshots)
 
         # JAX array tracking
         self.tracked_arrays: dict[int, dict[str, Any]] = {}
         self.array_lifecycle: defaultdict[str, list[dict]] = defaultdict(list)
 
         # State tracking
-        self.state_memory_history: defaultdict[str, list[float]] = defaultdict(list)
-        self.module_memory_usage: defaultdict[str, list[float]] = defaultdict(list)
+        self.state_memory_history: defaultdict[str, deque[float]] = defaultdict(
+            lambda: deque(maxlen=max_snapshots)
+        )
+        self.module_memory_usage: defaultdict[str, deque[float]] = defaultdict(
+            lambda: deque(maxlen=max_snapshots)
+        )
 
         # Session tracking
         self.session_start_time = time.time()
@@ -604,7 +608,10 @@ class MemoryTracker:
             report.append(f"  High Priority: {leaks['high_leaks']}")
 
             # Show details of critical leaks
-            critical_leaks = [leak for leak in self.detected_leaks if leak.severity == "critical"]
+            with self._lock:
+                critical_leaks = [
+                    leak for leak in self.detected_leaks if leak.severity == "critical"
+                ]
             for leak in critical_leaks[:3]:  # Show up to 3 critical leaks
                 report.append(f"\n  🔴 Critical Leak ({leak.leak_type}):")
                 report.append(f"     Total Leaked: {leak.total_leaked_mb:.1f} MB")
-- 
2.43.0


From ce0dfd51eb11a3aa6d31fcb4d98ed2db715bd227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 36/90] fix: the duration of a memory tracking session does not
 depend on the wall clock

---
 src/wax/flax/debug/memory_tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 5b992dd..4170d06 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -136,6 +136,7 @@ class MemoryTracker:
 
         # Session tracking
         self.session_start_time = time.time()
+        self._session_start = time.perf_counter()
         self.step_count = 0
         self.enabled = True
 
@@ -506,7 +507,7 @@ class MemoryTracker:
 
             return {
                 "session": {
-                    "duration_seconds": time.time() - self.session_start_time,
+                    "duration_seconds": time.perf_counter() - self._session_start,
                     "total_snapshots": len(self.snapshots),
                     "total_steps": self.step_count,
                 },
@@ -635,6 +636,7 @@ class MemoryTracker:
             self.module_memory_usage.clear()
             self.step_count = 0
             self.session_start_time = time.time()
+            self._session_start = time.perf_counter()
             self.baseline_memory = None
             self.last_snapshot = None
 
-- 
2.43.0


From df417b804892595648f755056ff999e5d26a788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 37/90] fix: the data flow tracker is thread safe and keeps its
 own copies

Concurrent records lost steps and points, reading a module's history
created it, get_recent_data(0) returned everything, and recorded values and
times changed with later mutations and wall clock jumps.
---
 .../visualization/data_flow_visualizer.py     | 64 +++++++++++++------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 26becc9..770e4ce 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -31,6 +31,8 @@ Key features:
 
 from __future__ import annotations
 
+import copy
+import threading
 import time
 import warnings
 from collections import defaultdict, deque
@@ -38,6 +40,7 @@ from dataclasses import dataclass, field
 from typing import Any
 
 import jax.numpy as jnp
+import numpy as onp
 
 # Optional dependencies for visualization
 try:
@@ -91,6 +94,18 @@ class DataPoint:
             self.shape = ()
 
 
+def _own(value: Any) -> Any:
+    """Return value with all its mutable parts copied."""
+    if isinstance(value, dict):
+        return {k: _own(v) for k, v in value.items()}
+    elif type(value) in (list, tuple):
+        return type(value)(_own(v) for v in value)
+    elif isinstance(value, onp.ndarray):
+        return copy.deepcopy(value)
+    else:
+        return value
+
+
 @dataclass
 class DataFlowTracker:
     """Tracks data flow through streaming pipeline for visualization."""
@@ -109,6 +124,8 @@ class DataFlowTracker:
         )
         self.step_count = 0
         self.start_time = time.time()
+        self._start_counter = time.perf_counter()
+        self._lock = threading.RLock()
 
     def record_data(
         self, module_name: str, data_type: str, value: Any, metadata: dict[str, Any] | None = None
@@ -121,22 +138,27 @@ class DataFlowTracker:
             value: The actual data value
             metadata: Optional metadata about the data
         """
-        data_point = DataPoint(
-            timestamp=time.time() - self.start_time,
-            step=self.step_count,
-            module_name=module_name,
-            data_type=data_type,
-            value=value,
-            shape=(),  # Will be set in __post_init__
-            metadata=metadata or {},
-        )
+        value = _own(value)
+        metadata = _own(metadata or {})
+
+        with self._lock:
+            data_point = DataPoint(
+                timestamp=time.perf_counter() - self._start_counter,
+                step=self.step_count,
+                module_name=module_name,
+                data_type=data_type,
+                value=value,
+                shape=(),  # Will be set in __post_init__
+                metadata=metadata,
+            )
 
-        self.data_history.append(data_point)
-        self.module_data[module_name].append(data_point)
+            self.data_history.append(data_point)
+            self.module_data[module_name].append(data_point)
 
     def step(self) -> None:
         """Increment step counter."""
-        self.step_count += 1
+        with self._lock:
+            self.step_count += 1
 
     def get_module_history(self, module_name: str, data_type: str | None = None) -> list[DataPoint]:
         """Get data history for a specific module.
@@ -148,7 +170,8 @@ class DataFlowTracker:
         Returns:
             List of data points for the module
         """
-        history = list(self.module_data[module_name])
+        with self._lock:
+            history = list(self.module_data.get(module_name, ()))
 
         if data_type:
             history = [dp for dp in history if dp.data_type == data_type]
@@ -157,14 +180,19 @@ class DataFlowTracker:
 
     def get_recent_data(self, n_points: int = 100) -> list[DataPoint]:
         """Get the most recent n data points."""
-        return list(self.data_history)[-n_points:]
+        with self._lock:
+            history = list(self.data_history)
+
+        return history[max(len(history) - n_points, 0) :]
 
     def clear_history(self) -> None:
         """Clear all tracking history."""
-        self.data_history.clear()
-        self.module_data.clear()
-        self.step_count = 0
-        self.start_time = time.time()
+        with self._lock:
+            self.data_history.clear()
+            self.module_data.clear()
+            self.step_count = 0
+            self.start_time = time.time()
+            self._start_counter = time.perf_counter()
 
 
 class DataFlowVisualizer:
-- 
2.43.0


From d729d50d1b462fc597a61eb4cd08fdb09c8acb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 38/90] fix: the dashboard counts calls and metrics exactly
 under concurrency

---
 .../flax/visualization/interactive_dashboard.py  | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/wax/flax/visualization/interactive_dashboard.py b/src/wax/flax/visualization/interactive_dashboard.py
index 142f3be..62e2784 100644
--- a/src/wax/flax/visualization/interactive_dashboard.py
+++ b/src/wax/flax/visualization/interactive_dashboard.py
@@ -134,6 +134,7 @@ class InteractiveDashboard:
         """
         self.config = config or DashboardConfig()
         self.state = DashboardState()
+        self._lock = threading.RLock()
 
         # Web framework setup
         self.app: Flask | None = None
@@ -240,9 +241,14 @@ class InteractiveDashboard:
             """Get overall performance metrics."""
             metrics = {}
 
-            for metric_name, metric_data in self.state.performance_metrics.items():
+            with self._lock:
+                performance_metrics = {
+                    name: list(data) for name, data in self.state.performance_metrics.items()
+                }
+
+            for metric_name, metric_data in performance_metrics.items():
                 if metric_data:
-                    recent_values = list(metric_data)[-50:]  # Last 50 points
+                    recent_values = metric_data[-50:]  # Last 50 points
                     metrics[metric_name] = {
                         "values": recent_values,
                         "current": recent_values[-1] if recent_values else 0,
@@ -347,7 +353,8 @@ class InteractiveDashboard:
         tracker.record_data(module_name, data_type, value, metadata)
 
         # Update performance metrics
-        self._update_performance_metrics(pipeline_id, metadata or {})
+        with self._lock:
+            self._update_performance_metrics(pipeline_id, metadata or {})
 
         # Broadcast update to connected clients
         if self.socketio and self.state.connected_clients:
@@ -367,7 +374,8 @@ class InteractiveDashboard:
             self.state.data_trackers[pipeline_id].step()
 
         if pipeline_id in self.state.active_pipelines:
-            self.state.active_pipelines[pipeline_id]["total_calls"] += 1
+            with self._lock:
+                self.state.active_pipelines[pipeline_id]["total_calls"] += 1
 
     def _update_performance_metrics(self, pipeline_id: str, metadata: dict[str, Any]) -> None:
         """Update performance metrics from pipeline execution."""
-- 
2.43.0


From 0092c8d83c22b4146986152385a460adfd10744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 39/90] fix: streaming plots lose no points under concurrent
 updates

---
 src/wax/flax/visualization/bokeh_viz.py   | 27 +++++++++++++----------
 src/wax/flax/visualization/jupyter_viz.py | 18 ++++++++-------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/wax/flax/visualization/bokeh_viz.py b/src/wax/flax/visualization/bokeh_viz.py
index fb4661a..331b07c 100644
--- a/src/wax/flax/visualization/bokeh_viz.py
+++ b/src/wax/flax/visualization/bokeh_viz.py
@@ -32,6 +32,7 @@ Key features:
 
 from __future__ import annotations
 
+import threading
 import warnings
 from collections import defaultdict
 from dataclasses import dataclass, field
@@ -146,6 +147,7 @@ class BokehStreamingPlot:
         self.data_sources: dict[str, ColumnDataSource] = {}
         self.is_streaming = False
         self._update_thread = None
+        self._lock = threading.RLock()
 
         if not HAS_BOKEH:
             warnings.warn("Bokeh not available. Install with: pip install bokeh", stacklevel=2)
@@ -250,21 +252,22 @@ class BokehStreamingPlot:
 
         source = self.data_sources[stream_name]
 
-        # Get current data
-        current_data = source.data
+        with self._lock:
+            # Get current data
+            current_data = source.data
 
-        # Add new point
-        new_data = dict(current_data)
-        new_data["x"] = list(current_data["x"]) + [x_value]
-        new_data["y"] = list(current_data["y"]) + [y_value]
+            # Add new point
+            new_data = dict(current_data)
+            new_data["x"] = list(current_data["x"]) + [x_value]
+            new_data["y"] = list(current_data["y"]) + [y_value]
 
-        # Limit data points
-        if len(new_data["x"]) > self.config.max_points:
-            new_data["x"] = new_data["x"][-self.config.max_points :]
-            new_data["y"] = new_data["y"][-self.config.max_points :]
+            # Limit data points
+            if len(new_data["x"]) > self.config.max_points:
+                new_data["x"] = new_data["x"][-self.config.max_points :]
+                new_data["y"] = new_data["y"][-self.config.max_points :]
 
-        # Update source
-        source.data = new_data
+            # Update source
+            source.data = new_data
 
 
 class BokehHeatmapVisualizer:
diff --git a/src/wax/flax/visualization/jupyter_viz.py b/src/wax/flax/visualization/jupyter_viz.py
index 7616787..8471ac3 100644
--- a/src/wax/flax/visualization/jupyter_viz.py
+++ b/src/wax/flax/visualization/jupyter_viz.py
@@ -293,6 +293,7 @@ class StreamingDataVisualizer:
         )
         self.is_streaming = False
         self._update_thread = None
+        self._lock = threading.RLock()
 
         if not HAS_PLOTLY:
             warnings.warn("Plotly not available. Install with: pip install plotly", stacklevel=2)
@@ -379,15 +380,16 @@ class StreamingDataVisualizer:
             warnings.warn(f"Stream '{stream_name}' not found in figure", stacklevel=2)
             return
 
-        # Update buffers
-        buffer_key = f"{id(fig)}_{stream_name}"
-        self.data_buffers[buffer_key].append(value)
-        self.time_buffers[buffer_key].append(timestamp)
+        with self._lock:
+            # Update buffers
+            buffer_key = f"{id(fig)}_{stream_name}"
+            self.data_buffers[buffer_key].append(value)
+            self.time_buffers[buffer_key].append(timestamp)
 
-        # Update trace
-        with fig.batch_update():
-            fig.data[trace_idx].x = list(self.time_buffers[buffer_key])
-            fig.data[trace_idx].y = list(self.data_buffers[buffer_key])
+            # Update trace
+            with fig.batch_update():
+                fig.data[trace_idx].x = list(self.time_buffers[buffer_key])
+                fig.data[trace_idx].y = list(self.data_buffers[buffer_key])
 
 
 class InteractiveParameterControls:
-- 
2.43.0


From ba1caa15ecabbccbaeda902de9c4c35e47801818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 40/90] fix: a flow animation runs in one thread that survives
 failing updates

Starting twice left a second thread behind, a failing update ended the
animation silently, and a forgotten animation kept the process alive.
---
 src/wax/flax/visualization/jupyter_viz.py | 79 ++++++++++++++---------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/src/wax/flax/visualization/jupyter_viz.py b/src/wax/flax/visualization/jupyter_viz.py
index 8471ac3..4279748 100644
--- a/src/wax/flax/visualization/jupyter_viz.py
+++ b/src/wax/flax/visualization/jupyter_viz.py
@@ -498,6 +498,7 @@ class AnimatedPipelineFlow:
         self.animation_fig: FigureWidget | None = None
         self.is_animating = False
         self._animation_thread: threading.Thread | None = None
+        self._animation_lock = threading.RLock()
 
         if not HAS_PLOTLY:
             warnings.warn("Plotly not available. Install with: pip install plotly", stacklevel=2)
@@ -551,45 +552,65 @@ class AnimatedPipelineFlow:
         if not self.animation_fig:
             raise ValueError("Create flow animation first")
 
-        self.is_animating = True
-        self._animation_thread = threading.Thread(target=self._animate_flow, args=(data_tracker,))
-        self._animation_thread.start()
+        with self._animation_lock:
+            # Never run two animations of the same figure
+            self.stop_animation()
+
+            thread = threading.Thread(target=self._animate_flow, args=(data_tracker,), daemon=True)
+            self.is_animating = True
+            self._animation_thread = thread
+            try:
+                thread.start()
+            except BaseException:
+                self.is_animating = False
+                self._animation_thread = None
+                raise
 
     def stop_animation(self) -> None:
         """Stop the flow animation."""
-        self.is_animating = False
-        if self._animation_thread:
-            self._animation_thread.join()
+        if self._animation_thread is threading.current_thread():
+            # Called from an update: the animation ends after it
+            self.is_animating = False
+            return
+
+        with self._animation_lock:
+            self.is_animating = False
+            if self._animation_thread:
+                self._animation_thread.join()
+                self._animation_thread = None
 
     def _animate_flow(self, data_tracker: DataFlowTracker) -> None:
         """Animation loop for data flow."""
-        step_count = 0
-
         while self.is_animating:
-            # Get recent data points
-            recent_data = data_tracker.get_recent_data(50)
-
-            if not recent_data:
-                time.sleep(self.config.animation_interval_ms / 1000)
-                continue
+            try:
+                self._update_flow(data_tracker)
+            except Exception as e:
+                warnings.warn(f"Error in flow animation: {e}", stacklevel=2)
 
-            # Group data by module
-            module_data = defaultdict(list)
-            for point in recent_data:
-                module_data[point.module_name].append((point.step, point.value))
-
-            # Update traces
-            with self.animation_fig.batch_update():
-                for _i, trace in enumerate(self.animation_fig.data):
-                    module_name = trace.name.replace(" Data", "")
-                    if module_name in module_data:
-                        steps, values = zip(*module_data[module_name], strict=False)
-                        trace.x = steps
-                        trace.y = values
-
-            step_count += 1
             time.sleep(self.config.animation_interval_ms / 1000)
 
+    def _update_flow(self, data_tracker: DataFlowTracker) -> None:
+        """Show the recent data of the tracker."""
+        # Get recent data points
+        recent_data = data_tracker.get_recent_data(50)
+
+        if not recent_data:
+            return
+
+        # Group data by module
+        module_data = defaultdict(list)
+        for point in recent_data:
+            module_data[point.module_name].append((point.step, point.value))
+
+        # Update traces
+        with self.animation_fig.batch_update():
+            for _i, trace in enumerate(self.animation_fig.data):
+                module_name = trace.name.replace(" Data", "")
+                if module_name in module_data:
+                    steps, values = zip(*module_data[module_name], strict=False)
+                    trace.x = steps
+                    trace.y = values
+
 
 def create_pipeline_dashboard(
     pipeline_fn: Any, input_example: Any, config: JupyterVizConfig = None
-- 
2.43.0


From dd25e764366af3a5ea4890e43c144d6cf20c70d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 41/90] fix: real-time monitoring runs once, can be stopped and
 survives failing updates

---
 .../visualization/data_flow_visualizer.py     | 44 +++++++++++++++----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 770e4ce..45ec3a1 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -224,6 +224,9 @@ class DataFlowVisualizer:
         self.tracker: DataFlowTracker | None = None
         self.active_plots: dict[str, Any] = {}
         self.plot_config: dict[str, Any] = {}
+        self._monitor_lock = threading.RLock()
+        self._monitor_thread: threading.Thread | None = None
+        self._monitor_stop: threading.Event | None = None
 
         # Validate backend availability
         if backend == "matplotlib" and not HAS_MATPLOTLIB:
@@ -543,11 +546,27 @@ class DataFlowVisualizer:
                 f"Real-time monitoring not implemented for backend: {self.backend}", stacklevel=2
             )
 
+    def stop_real_time_monitoring(self) -> None:
+        """Stop real-time data flow monitoring."""
+        self._stop_matplotlib_animation()
+        with self._monitor_lock:
+            if self._monitor_thread is not None:
+                self._monitor_stop.set()
+                self._monitor_thread.join()
+                self._monitor_thread = None
+
+    def _stop_matplotlib_animation(self) -> None:
+        """Stop the running matplotlib animation, if any."""
+        anim = self.active_plots.get("matplotlib", {}).pop("animation", None)
+        if anim is not None and anim.event_source is not None:
+            anim.event_source.stop()
+
     def _start_matplotlib_animation(self) -> None:
         """Start matplotlib animation for real-time updates."""
         if "matplotlib" not in self.active_plots:
             self.create_streaming_plot()
 
+        self._stop_matplotlib_animation()
         plot_info = self.active_plots["matplotlib"]
         fig = plot_info["fig"]
 
@@ -569,16 +588,25 @@ class DataFlowVisualizer:
     def _start_text_monitoring(self) -> None:
         """Start text-based monitoring loop."""
         import os
-        import threading
 
-        def monitor_loop():
-            while True:
-                os.system("clear" if os.name == "posix" else "cls")
-                print(self._create_text_plot(None, None, "summary"))
-                time.sleep(self.update_interval)
+        stop = threading.Event()
 
-        monitor_thread = threading.Thread(target=monitor_loop, daemon=True)
-        monitor_thread.start()
+        def monitor_loop():
+            while not stop.is_set():
+                try:
+                    os.system("clear" if os.name == "posix" else "cls")
+                    print(self._create_text_plot(None, None, "summary"))
+                except Exception as e:
+                    warnings.warn(f"Error in data flow monitoring: {e}", stacklevel=2)
+                stop.wait(self.update_interval)
+
+        with self._monitor_lock:
+            if self._monitor_thread is not None:
+                return
+            monitor_thread = threading.Thread(target=monitor_loop, daemon=True)
+            monitor_thread.start()
+            self._monitor_thread = monitor_thread
+            self._monitor_stop = stop
 
     def save_plot(self, output_path: str, format: str = "png") -> str:
         """Save the current plot to file.
-- 
2.43.0


From 3a6c52555362d4535c68d4c9eab9acca3dfd5bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 42/90] fix: a flow animation does not change the tracked data

The tracker's history was replaced while a frame was drawn: points recorded
meanwhile were lost, and a failing frame left it cut.
---
 .../visualization/data_flow_visualizer.py     | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 45ec3a1..4d06b66 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -684,7 +684,8 @@ def create_flow_animation(
         raise ImportError("Matplotlib required for animation")
 
     visualizer = DataFlowVisualizer(backend="matplotlib", update_interval=1.0 / fps)
-    visualizer.attach_tracker(tracker)
+    view = DataFlowTracker(max_history=tracker.max_history)
+    visualizer.attach_tracker(view)
 
     fig = visualizer.create_streaming_plot()
 
@@ -693,24 +694,17 @@ def create_flow_animation(
 
     def animate(frame):
         # Simulate time progression through data
-        max_step = max((dp.step for dp in tracker.data_history), default=0)
+        data = tracker.get_recent_data(tracker.max_history)
+        max_step = max((dp.step for dp in data), default=0)
         current_step = int((frame / frames) * max_step)
 
-        # Filter data up to current step
-        filtered_data = [dp for dp in tracker.data_history if dp.step <= current_step]
-
-        # Temporarily replace tracker data
-        original_data = tracker.data_history.copy()
-        tracker.data_history.clear()
-        tracker.data_history.extend(filtered_data)
+        # Show data up to current step
+        view.data_history.clear()
+        view.data_history.extend(dp for dp in data if dp.step <= current_step)
 
         # Update plot
         visualizer.update_plot()
 
-        # Restore original data
-        tracker.data_history.clear()
-        tracker.data_history.extend(original_data)
-
         return []
 
     anim = animation.FuncAnimation(fig, animate, frames=frames, interval=1000 // fps, blit=False)
-- 
2.43.0


From 63a269c09b993361c2505be743dc761fa76530e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 43/90] fix: the dashboard server starts at most once

---
 .../visualization/interactive_dashboard.py     | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/wax/flax/visualization/interactive_dashboard.py b/src/wax/flax/visualization/interactive_dashboard.py
index 62e2784..9c61105 100644
--- a/src/wax/flax/visualization/interactive_dashboard.py
+++ b/src/wax/flax/visualization/interactive_dashboard.py
@@ -141,6 +141,7 @@ class InteractiveDashboard:
         self.socketio: SocketIO | None = None
         self.server_thread: threading.Thread | None = None
         self.running = False
+        self._serving = False
 
         # Initialize web framework
         if HAS_FLASK:
@@ -728,14 +729,15 @@ class InteractiveDashboard:
             print("❌ Flask not available. Install with: pip install flask flask-socketio")
             return
 
-        if self.running:
-            print("⚠️ Dashboard server already running")
-            return
+        with self._lock:
+            if self._serving:
+                print("⚠️ Dashboard server already running")
+                return
+            self._serving = self.running = True
 
         print(f"🚀 Starting WAX-ML Dashboard on http://{self.config.host}:{self.config.port}")
 
         def run_server():
-            self.running = True
             try:
                 self.socketio.run(
                     self.app,
@@ -747,13 +749,17 @@ class InteractiveDashboard:
             except Exception as e:
                 print(f"❌ Dashboard server error: {e}")
             finally:
-                self.running = False
+                self._serving = self.running = False
 
         if blocking:
             run_server()
         else:
             self.server_thread = threading.Thread(target=run_server, daemon=True)
-            self.server_thread.start()
+            try:
+                self.server_thread.start()
+            except BaseException:
+                self._serving = self.running = False
+                raise
             time.sleep(1)  # Give server time to start
 
     def stop_server(self) -> None:
-- 
2.43.0


From 9fd6cf151f50be6ee2e0e6aa51a14f475cc86efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 44/90] fix: exported graphs can be read whatever the names in
 them are

---
 .../flax/visualization/computation_graph.py   | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/wax/flax/visualization/computation_graph.py b/src/wax/flax/visualization/computation_graph.py
index 136e6e2..a9ffe40 100644
--- a/src/wax/flax/visualization/computation_graph.py
+++ b/src/wax/flax/visualization/computation_graph.py
@@ -30,6 +30,7 @@ Key features:
 
 from __future__ import annotations
 
+import html as html_lib
 import os
 import tempfile
 import warnings
@@ -62,6 +63,11 @@ except ImportError:
     HAS_MATPLOTLIB = False
 
 
+def _dot_escape(text: Any) -> str:
+    """Escape a text for a quoted string of the DOT language."""
+    return str(text).replace("\\", "\\\\").replace('"', '\\"')
+
+
 @dataclass
 class PipelineNode:
     """Represents a node in the computation pipeline."""
@@ -516,7 +522,7 @@ class ComputationGraphRenderer:
         for node_id, node in self.nodes.items():
             label = self._create_node_label(node)
             lines.append(
-                f'  "{node_id}" [label="{label}", '
+                f'  "{_dot_escape(node_id)}" [label="{label}", '
                 f'color="{node.color}", style="{node.style}", '
                 f'shape="{node.shape}"];'
             )
@@ -527,14 +533,15 @@ class ComputationGraphRenderer:
         for edge in self.edges:
             edge_attrs = []
             if edge.label:
-                edge_attrs.append(f'label="{edge.label}"')
+                edge_attrs.append(f'label="{_dot_escape(edge.label)}"')
             if edge.color != "#424242":
                 edge_attrs.append(f'color="{edge.color}"')
             if edge.style != "solid":
                 edge_attrs.append(f'style="{edge.style}"')
 
             attrs_str = f" [{', '.join(edge_attrs)}]" if edge_attrs else ""
-            lines.append(f'  "{edge.source}" -> "{edge.target}"{attrs_str};')
+            source, target = _dot_escape(edge.source), _dot_escape(edge.target)
+            lines.append(f'  "{source}" -> "{target}"{attrs_str};')
 
         lines.append("}")
 
@@ -542,26 +549,26 @@ class ComputationGraphRenderer:
 
     def _create_node_label(self, node: PipelineNode) -> str:
         """Create label for a node."""
-        label_parts = [node.name]
+        label_parts = [_dot_escape(node.name)]
 
         if len(node.name) > self.max_label_length:
-            label_parts = [node.name[: self.max_label_length] + "..."]
+            label_parts = [_dot_escape(node.name[: self.max_label_length]) + "..."]
 
         if node.module_type != node.name:
-            label_parts.append(f"({node.module_type})")
+            label_parts.append(f"({_dot_escape(node.module_type)})")
 
         if self.include_shapes and node.input_shapes:
             shape_strs = []
             for key, shape in node.input_shapes.items():
                 if isinstance(shape, tuple) and len(shape) > 0:
-                    shape_strs.append(f"{key}: {shape}")
+                    shape_strs.append(_dot_escape(f"{key}: {shape}"))
             if shape_strs:
                 label_parts.append("\\n" + "\\n".join(shape_strs))
 
         if self.include_parameters and node.parameters:
             param_strs = []
             for key, value in list(node.parameters.items())[:3]:  # Limit to first 3
-                param_strs.append(f"{key}={value}")
+                param_strs.append(_dot_escape(f"{key}={value}"))
             if param_strs:
                 label_parts.append("\\n" + "\\n".join(param_strs))
 
@@ -571,10 +578,14 @@ class ComputationGraphRenderer:
         """Generate interactive HTML content."""
         # This would create a web-based interactive visualization
         # For now, return a simple HTML representation
+        def esc(text: Any) -> str:
+            return html_lib.escape(str(text))
+
         html = f"""
 <!DOCTYPE html>
 <html>
 <head>
+    <meta charset="utf-8">
     <title>WAX-ML Pipeline Visualization</title>
     <style>
         body {{ font-family: Arial, sans-serif; margin: 20px; }}
@@ -601,13 +612,13 @@ class ComputationGraphRenderer:
         for node_id, node in self.nodes.items():
             html += f"""
         <div class="node" style="background-color: {node.color}20;">
-            <strong>{node.name}</strong> ({node.module_type})
-            <br>ID: {node_id}
+            <strong>{esc(node.name)}</strong> ({esc(node.module_type)})
+            <br>ID: {esc(node_id)}
 """
             if self.include_shapes and node.input_shapes:
-                html += f"<br>Input shapes: {node.input_shapes}"
+                html += f"<br>Input shapes: {esc(node.input_shapes)}"
             if self.include_parameters and node.parameters:
-                html += f"<br>Parameters: {node.parameters}"
+                html += f"<br>Parameters: {esc(node.parameters)}"
             html += "</div>"
 
         html += f"""
@@ -619,7 +630,8 @@ class ComputationGraphRenderer:
 
         for edge in self.edges:
             label = f" [{edge.label}]" if edge.label else ""
-            html += f'<div class="edge">{edge.source} → {edge.target}{label}</div>'
+            text = f"{edge.source} → {edge.target}{label}"
+            html += f'<div class="edge">{esc(text)}</div>'
 
         html += """
     </div>
-- 
2.43.0


From ea3fe52ec9e5228c5d76b4467551820b43306fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 45/90] fix: exports do not depend on the encoding of the
 locale

---
 src/wax/flax/visualization/computation_graph.py    | 6 +++---
 src/wax/flax/visualization/data_flow_visualizer.py | 2 +-
 src/wax/flax/visualization/nested_graph_viz.py     | 8 +++++---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/wax/flax/visualization/computation_graph.py b/src/wax/flax/visualization/computation_graph.py
index a9ffe40..4ee2620 100644
--- a/src/wax/flax/visualization/computation_graph.py
+++ b/src/wax/flax/visualization/computation_graph.py
@@ -366,7 +366,7 @@ class ComputationGraphRenderer:
         dot_content = self._generate_dot_content()
 
         if output_path:
-            with open(output_path, "w") as f:
+            with open(output_path, "w", encoding="utf-8") as f:
                 f.write(dot_content)
             return output_path
         else:
@@ -472,7 +472,7 @@ class ComputationGraphRenderer:
         html_content = self._generate_html_content()
 
         if output_path:
-            with open(output_path, "w") as f:
+            with open(output_path, "w", encoding="utf-8") as f:
                 f.write(html_content)
             return output_path
         else:
@@ -502,7 +502,7 @@ class ComputationGraphRenderer:
         content = "\n".join(lines)
 
         if output_path:
-            with open(output_path, "w") as f:
+            with open(output_path, "w", encoding="utf-8") as f:
                 f.write(content)
             return output_path
         else:
diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 4d06b66..c719528 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -632,7 +632,7 @@ class DataFlowVisualizer:
         else:
             # Save text output
             content = self._create_text_plot(None, None, "summary")
-            with open(output_path, "w") as f:
+            with open(output_path, "w", encoding="utf-8") as f:
                 f.write(content)
             return output_path
 
diff --git a/src/wax/flax/visualization/nested_graph_viz.py b/src/wax/flax/visualization/nested_graph_viz.py
index a41c9fd..befb76c 100644
--- a/src/wax/flax/visualization/nested_graph_viz.py
+++ b/src/wax/flax/visualization/nested_graph_viz.py
@@ -462,6 +462,7 @@ class CytoscapeNestedRenderer:
 <!DOCTYPE html>
 <html>
 <head>
+    <meta charset="utf-8">
     <title>WAX-ML Nested Graph Visualization</title>
     <script src="https://unpkg.com/cytoscape@3.21.0/dist/cytoscape.min.js"></script>
     <script src="https://unpkg.com/cytoscape-compound-drag-and-drop@1.0.0/cytoscape-compound-drag-and-drop.js"></script>
@@ -716,6 +717,7 @@ class D3NestedRenderer:
 <!DOCTYPE html>
 <html>
 <head>
+    <meta charset="utf-8">
     <title>WAX-ML D3 Nested Graph</title>
     <script src="https://d3js.org/d3.v7.min.js"></script>
     <style>
@@ -940,14 +942,14 @@ class NestedGraphVisualizer:
         elif backend == "cytoscape":
             html_content = self.cytoscape_renderer.render_interactive_graph(hierarchy)
             if output_path:
-                with open(output_path, "w") as f:
+                with open(output_path, "w", encoding="utf-8") as f:
                     f.write(html_content)
                 return output_path
             return html_content
         elif backend == "d3":
             html_content = self.d3_renderer.render_d3_graph(hierarchy)
             if output_path:
-                with open(output_path, "w") as f:
+                with open(output_path, "w", encoding="utf-8") as f:
                     f.write(html_content)
                 return output_path
             return html_content
@@ -972,7 +974,7 @@ class NestedGraphVisualizer:
 
         if backend == "graphviz" and result.endswith(".svg"):
             # Display SVG directly
-            with open(result) as f:
+            with open(result, encoding="utf-8") as f:
                 svg_content = f.read()
             ipython_display.display(ipython_display.SVG(svg_content))
         else:
-- 
2.43.0


From 2bbbbeb3d63384a3c32dae5deef03b5772fc5c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 46/90] fix: graph analyses do not change each other's results

---
 .../flax/visualization/nested_graph_viz.py    | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/wax/flax/visualization/nested_graph_viz.py b/src/wax/flax/visualization/nested_graph_viz.py
index befb76c..a398985 100644
--- a/src/wax/flax/visualization/nested_graph_viz.py
+++ b/src/wax/flax/visualization/nested_graph_viz.py
@@ -35,6 +35,7 @@ Key features:
 from __future__ import annotations
 
 import json
+import threading
 import uuid
 import warnings
 from collections import defaultdict
@@ -152,6 +153,7 @@ class HierarchicalGraphAnalyzer:
         self.config = config or NestedGraphConfig()
         self.hierarchy: dict[str, GraphHierarchy] = {}
         self.levels: dict[int, list[str]] = defaultdict(list)
+        self._lock = threading.RLock()
 
     def analyze_streaming_function(
         self, streaming_fn: Any, input_example: Any
@@ -169,21 +171,22 @@ class HierarchicalGraphAnalyzer:
         renderer = ComputationGraphRenderer()
         renderer.analyze_streaming_function(streaming_fn, input_example)
 
-        # Clear previous analysis
-        self.hierarchy.clear()
-        self.levels.clear()
+        with self._lock:
+            # Start a new analysis, results of previous ones stay as they are
+            self.hierarchy = {}
+            self.levels = defaultdict(list)
 
-        # Extract hierarchical structure from nodes
-        self._extract_hierarchy_from_nodes(renderer.nodes, renderer.edges)
+            # Extract hierarchical structure from nodes
+            self._extract_hierarchy_from_nodes(renderer.nodes, renderer.edges)
 
-        # Auto-cluster related nodes if enabled
-        if self.config.auto_cluster:
-            self._auto_cluster_nodes()
+            # Auto-cluster related nodes if enabled
+            if self.config.auto_cluster:
+                self._auto_cluster_nodes()
 
-        # Assign levels based on hierarchy
-        self._assign_hierarchy_levels()
+            # Assign levels based on hierarchy
+            self._assign_hierarchy_levels()
 
-        return self.hierarchy
+            return self.hierarchy
 
     def _extract_hierarchy_from_nodes(
         self, nodes: dict[str, PipelineNode], edges: list[PipelineEdge]
@@ -995,7 +998,7 @@ class NestedGraphVisualizer:
 
         # Calculate statistics
         total_nodes = len(hierarchy)
-        max_level = self.analyzer.get_max_level()
+        max_level = max((node.level for node in hierarchy.values()), default=0)
         node_types: defaultdict[str, int] = defaultdict(int)
         nodes_per_level: defaultdict[int, int] = defaultdict(int)
 
-- 
2.43.0


From 8f69fbeb2032b9f301c5f846a38bc9817897d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 47/90] fix: an output that cannot be written does not stop the
 debugged code

---
 src/wax/flax/debug/debugger.py | 35 +++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 67ee30c..e5b1f06 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -67,6 +67,15 @@ class DebugEvent:
     stack_trace: list[str] | None = None
 
 
+def _show(*values: Any) -> None:
+    """Print values, if there is an output that can take them."""
+    try:
+        print(*values)
+    except Exception:
+        # Debugging goes on without output
+        pass
+
+
 class DebugHook:
     """Debug hook for monitoring streaming computations."""
 
@@ -93,7 +102,7 @@ class DebugHook:
         try:
             return bool(self.condition(step, state, input_data, output))
         except Exception as e:
-            print(f"Warning: Debug condition error in hook '{self.name}': {e}")
+            _show(f"Warning: Debug condition error in hook '{self.name}':", e)
             return False
 
     def trigger(
@@ -161,17 +170,17 @@ class DebugHook:
 
     def _log_event(self, event: DebugEvent):
         """Log debug event."""
-        print(f"[DEBUG {event.step:>6}] {event.module_name}: {event.event_type}")
+        _show(f"[DEBUG {event.step:>6}] {event.module_name}: {event.event_type}")
         if event.metadata:
             for key, value in event.metadata.items():
-                print(f"  {key}: {value}")
+                _show(f"  {key}: {value}")
 
     def _interactive_break(self, event: DebugEvent):
         """Enter interactive debugging mode."""
-        print(f"\n🛑 BREAKPOINT HIT: {self.name}")
-        print(f"   Step: {event.step}")
-        print(f"   Module: {event.module_name}")
-        print(f"   Time: {time.strftime('%H:%M:%S', time.localtime(event.timestamp))}")
+        _show(f"\n🛑 BREAKPOINT HIT: {self.name}")
+        _show(f"   Step: {event.step}")
+        _show(f"   Module: {event.module_name}")
+        _show(f"   Time: {time.strftime('%H:%M:%S', time.localtime(event.timestamp))}")
 
         # Simple interactive inspection
         while True:
@@ -180,17 +189,17 @@ class DebugHook:
                 if cmd in ["c", "continue"]:
                     break
                 elif cmd in ["s", "state"]:
-                    print(f"State: {event.state_snapshot}")
+                    _show("State:", event.state_snapshot)
                 elif cmd in ["i", "input"]:
-                    print(f"Input: {event.input_data}")
+                    _show("Input:", event.input_data)
                 elif cmd in ["o", "output"]:
-                    print(f"Output: {event.output_data}")
+                    _show("Output:", event.output_data)
                 elif cmd in ["h", "help"]:
-                    print("Commands: (c)ontinue, (s)tate, (i)nput, (o)utput, (h)elp, (q)uit")
+                    _show("Commands: (c)ontinue, (s)tate, (i)nput, (o)utput, (h)elp, (q)uit")
                 elif cmd in ["q", "quit"]:
                     raise KeyboardInterrupt("Debug session terminated")
                 else:
-                    print(f"Unknown command: {cmd}. Type 'h' for help.")
+                    _show(f"Unknown command: {cmd}. Type 'h' for help.")
             except (EOFError, OSError, RuntimeError):
                 # There is no console to read from
                 break
@@ -199,7 +208,7 @@ class DebugHook:
 
     def _alert_event(self, event: DebugEvent):
         """Alert for important events."""
-        print(f"🚨 ALERT: {self.name} triggered at step {event.step}")
+        _show(f"🚨 ALERT: {self.name} triggered at step {event.step}")
 
 
 class StreamingDebugger:
-- 
2.43.0


From 204b9c1b0b86800127d44d3b3abcc1100e737e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 48/90] fix: the data flow tracker accepts values that cannot
 be copied

---
 src/wax/flax/visualization/data_flow_visualizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index c719528..9b034c3 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -138,7 +138,11 @@ class DataFlowTracker:
             value: The actual data value
             metadata: Optional metadata about the data
         """
-        value = _own(value)
+        try:
+            value = _own(value)
+        except Exception:
+            # A value that cannot be copied is kept as it is
+            pass
         metadata = _own(metadata or {})
 
         with self._lock:
-- 
2.43.0


From 366882c7094f605713d274aa8075a4db5290f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 49/90] fix: the data flow tracker accepts values that do not
 tell their shape

---
 .../flax/visualization/data_flow_visualizer.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 9b034c3..d241cbc 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -84,13 +84,17 @@ class DataPoint:
 
     def __post_init__(self):
         """Extract shape and metadata from value."""
-        if hasattr(self.value, "shape"):
-            self.shape = self.value.shape
-        elif isinstance(self.value, list | tuple):
-            self.shape = (len(self.value),)
-        elif isinstance(self.value, dict):
-            self.shape = (len(self.value),)
-        else:
+        try:
+            if hasattr(self.value, "shape"):
+                self.shape = self.value.shape
+            elif isinstance(self.value, list | tuple):
+                self.shape = (len(self.value),)
+            elif isinstance(self.value, dict):
+                self.shape = (len(self.value),)
+            else:
+                self.shape = ()
+        except Exception:
+            # The value does not tell its shape
             self.shape = ()
 
 
-- 
2.43.0


From 2c403ff51bfe9fd60605142e9c43ee994828ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 50/90] fix: values that cannot be printed do not stop the
 debugged code

---
 src/wax/flax/debug/debugger.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index e5b1f06..76270ae 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -76,6 +76,14 @@ def _show(*values: Any) -> None:
         pass
 
 
+def _describe(value: Any) -> str:
+    """String representation of a value, of any value."""
+    try:
+        return str(value)
+    except Exception:
+        return f"<{type(value).__name__}>"
+
+
 class DebugHook:
     """Debug hook for monitoring streaming computations."""
 
@@ -148,7 +156,7 @@ class DebugHook:
             else:
                 return state
         except Exception:
-            return str(state)  # Fallback to string representation
+            return _describe(state)  # Fallback to string representation
 
     def _safe_copy(self, data: Any) -> Any:
         """Safely copy data for event storage."""
@@ -166,7 +174,7 @@ class DebugHook:
             else:
                 return data
         except Exception:
-            return str(data)
+            return _describe(data)
 
     def _log_event(self, event: DebugEvent):
         """Log debug event."""
@@ -362,7 +370,7 @@ class StreamingDebugger:
             else:
                 return tree
         except Exception:
-            return str(tree)
+            return _describe(tree)
 
     def get_summary(self) -> dict[str, Any]:
         """Get debugging session summary."""
-- 
2.43.0


From ca6a83179b9969edfb6f947e63750eed4e143769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 51/90] fix: transformed functions can be monitored without
 naming them

---
 src/wax/flax/debug/debugger.py       | 2 +-
 src/wax/flax/debug/memory_tracker.py | 2 +-
 src/wax/flax/debug/profiler.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 76270ae..1d985f0 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -465,7 +465,7 @@ def debug_streaming(
         debugger = StreamingDebugger()
 
     def decorator(fn: Callable) -> Callable:
-        actual_module_name = module_name or fn.__name__
+        actual_module_name = module_name or getattr(fn, "__name__", "debug_wrapped")
 
         # Create a wrapper that preserves the original function interface
         class DebugWrapper:
diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 4170d06..529bfe6 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -672,7 +672,7 @@ def track_memory_usage(
         tracker = MemoryTracker()
 
     def decorator(fn: Callable) -> Callable:
-        actual_module_name = module_name or fn.__name__
+        actual_module_name = module_name or getattr(fn, "__name__", "memory_wrapped")
 
         # Create a wrapper that preserves the original function interface
         class MemoryWrapper:
diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index 2575579..644a45f 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -536,7 +536,7 @@ def profile_streaming(
         profiler = StreamingProfiler()
 
     def decorator(fn: Callable) -> Callable:
-        actual_module_name = module_name or fn.__name__
+        actual_module_name = module_name or getattr(fn, "__name__", "profile_wrapped")
 
         # Create a wrapper that preserves the original function interface
         class ProfileWrapper:
-- 
2.43.0


From 458b4a6e145ee213495df597024275d9c41007e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 52/90] fix: callbacks run in the order they were registered

---
 src/wax/gym/callbacks/callbacks.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/wax/gym/callbacks/callbacks.py b/src/wax/gym/callbacks/callbacks.py
index 0d6ea68..cac0de7 100644
--- a/src/wax/gym/callbacks/callbacks.py
+++ b/src/wax/gym/callbacks/callbacks.py
@@ -77,7 +77,8 @@ class Callback:
     ...     gym_train(agent, env)     # doctest: +SKIP
     """
 
-    active: set = set()
+    # keys: active callbacks, in the order they were registered
+    active: dict = {}
 
     def __init__(self, on_train_start=None, on_act=None, on_step=None, on_train_end=None):
         if on_train_start:
@@ -103,10 +104,10 @@ class Callback:
         self._cm.__exit__(*args)
 
     def register(self):
-        Callback.active.add(self._callback)
+        Callback.active[self._callback] = None
 
     def unregister(self):
-        Callback.active.remove(self._callback)
+        del Callback.active[self._callback]
 
 
 def unpack_callbacks(cbs):
@@ -125,7 +126,7 @@ def local_callbacks(callbacks=None):
     This means that only the outermost scheduler will use global callbacks."""
     global_callbacks = callbacks is None
     if global_callbacks:
-        callbacks, Callback.active = Callback.active, set()
+        callbacks, Callback.active = Callback.active, {}
     try:
         yield callbacks or ()
     finally:
@@ -161,11 +162,11 @@ class add_callbacks:
 
     def __init__(self, *callbacks):
         self.callbacks = [normalize_callback(c) for c in callbacks]
-        Callback.active.update(self.callbacks)
+        Callback.active.update(dict.fromkeys(self.callbacks))
 
     def __enter__(self):
         return
 
     def __exit__(self, type, value, traceback):
         for c in self.callbacks:
-            Callback.active.discard(c)
+            Callback.active.pop(c, None)
-- 
2.43.0


From 0338196cc4ef26718d6fce272d03602f4b17bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 53/90] fix: entering a registered callback does not unregister
 it

---
 src/wax/gym/callbacks/callbacks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/gym/callbacks/callbacks.py b/src/wax/gym/callbacks/callbacks.py
index cac0de7..1b87721 100644
--- a/src/wax/gym/callbacks/callbacks.py
+++ b/src/wax/gym/callbacks/callbacks.py
@@ -161,7 +161,9 @@ class add_callbacks:
     """
 
     def __init__(self, *callbacks):
-        self.callbacks = [normalize_callback(c) for c in callbacks]
+        callbacks = [normalize_callback(c) for c in callbacks]
+        # callbacks that are active already stay active afterwards
+        self.callbacks = [c for c in callbacks if c not in Callback.active]
         Callback.active.update(dict.fromkeys(self.callbacks))
 
     def __enter__(self):
-- 
2.43.0


From fd36308f38168c7d121a5eae6fb701dd00dc07c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 54/90] fix: concurrent unrolls and changes during an unroll do
 not lose active callbacks

---
 src/wax/gym/callbacks/callbacks.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/wax/gym/callbacks/callbacks.py b/src/wax/gym/callbacks/callbacks.py
index 1b87721..8ed454f 100644
--- a/src/wax/gym/callbacks/callbacks.py
+++ b/src/wax/gym/callbacks/callbacks.py
@@ -28,6 +28,10 @@ library `dask` (see for ex `ProgressBar` callback).
 """
 
 from contextlib import contextmanager
+from contextvars import ContextVar
+
+# Global callbacks used by the schedulers that are running
+_used_callbacks: ContextVar[frozenset] = ContextVar("used_callbacks", default=frozenset())
 
 
 class Callback:
@@ -124,14 +128,18 @@ def local_callbacks(callbacks=None):
 
     Callbacks will only be used by the first started scheduler they encounter.
     This means that only the outermost scheduler will use global callbacks."""
-    global_callbacks = callbacks is None
-    if global_callbacks:
-        callbacks, Callback.active = Callback.active, {}
+    used = _used_callbacks.get()
+    token = None
+    if callbacks is None:
+        callbacks = [c for c in tuple(Callback.active) if c not in used]
+        token = _used_callbacks.set(used.union(callbacks))
+    else:
+        callbacks = [normalize_callback(c) for c in callbacks]
     try:
-        yield callbacks or ()
+        yield callbacks
     finally:
-        if global_callbacks:
-            Callback.active = callbacks
+        if token is not None:
+            _used_callbacks.reset(token)
 
 
 def normalize_callback(cb):
-- 
2.43.0


From 23e9e5710c11c7ef0362fd3d2215bfed8d66dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 55/90] fix: an unroll that fails closes its environment

---
 src/wax/gym/gym_unroll.py | 51 ++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/wax/gym/gym_unroll.py b/src/wax/gym/gym_unroll.py
index 142e576..f377019 100644
--- a/src/wax/gym/gym_unroll.py
+++ b/src/wax/gym/gym_unroll.py
@@ -51,38 +51,39 @@ def gym_unroll(agent, env, obs=None, callbacks=None):
             on_train_end_cbs,
         ) = unpack_callbacks(callbacks)
 
-        obs = env.reset() if obs is None else obs
+        try:
+            obs = env.reset() if obs is None else obs
 
-        # call "on_train_start" callbacks
-        for on_train_start in on_train_start_cbs:
-            on_train_start(env, agent, obs)
+            # call "on_train_start" callbacks
+            for on_train_start in on_train_start_cbs:
+                on_train_start(env, agent, obs)
 
-        while True:
-            # agent act
-            action = agent(obs)
+            while True:
+                # agent act
+                action = agent(obs)
 
-            # call "on_act" callbacks
-            for on_act in on_act_cbs:
-                on_act(env, agent, obs, action)
+                # call "on_act" callbacks
+                for on_act in on_act_cbs:
+                    on_act(env, agent, obs, action)
 
-            # env step
-            obs, rw, done, info = env.step(action)
+                # env step
+                obs, rw, done, info = env.step(action)
 
-            # set loop state
-            gym_state = GymUnrollState(rw, obs, action, done, info)
+                # set loop state
+                gym_state = GymUnrollState(rw, obs, action, done, info)
 
-            # call "on_step" callbacks
-            for on_step in on_step_cbs:
-                step_done = on_step(env, agent, gym_state)
-                done = done or step_done
+                # call "on_step" callbacks
+                for on_step in on_step_cbs:
+                    step_done = on_step(env, agent, gym_state)
+                    done = done or step_done
 
-            if done:
-                break
+                if done:
+                    break
 
-        # call "on_train_end" callbacks
-        for on_train_end in on_train_end_cbs:
-            on_train_end(env, agent)
-
-        env.close()
+            # call "on_train_end" callbacks
+            for on_train_end in on_train_end_cbs:
+                on_train_end(env, agent)
+        finally:
+            env.close()
 
     return gym_state
-- 
2.43.0


From a8da09c1d9be2eb6d8648e092036af8403d383e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 56/90] fix: Stop counts the steps of each run

---
 src/wax/gym/callbacks/stop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/gym/callbacks/stop.py b/src/wax/gym/callbacks/stop.py
index 42e066f..c4d60c0 100644
--- a/src/wax/gym/callbacks/stop.py
+++ b/src/wax/gym/callbacks/stop.py
@@ -21,6 +21,9 @@ class Stop(Callback):
         # state
         self._t = 0
 
+    def _on_train_start(self, env, agent, obs):
+        self._t = 0
+
     def _on_step(self, env, agent, gym_state):
         self._t += 1
 
-- 
2.43.0


From f54e0eaaf671d3a0ce64df01c1cf55a87f9e872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 57/90] fix: ProgressBar can be entered and used for several
 runs

---
 src/wax/gym/callbacks/progressbar.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/wax/gym/callbacks/progressbar.py b/src/wax/gym/callbacks/progressbar.py
index 598c7c8..b61dee2 100644
--- a/src/wax/gym/callbacks/progressbar.py
+++ b/src/wax/gym/callbacks/progressbar.py
@@ -22,18 +22,26 @@ class ProgressBar(Callback):
         self._pbar = None
 
     def __enter__(self):
-        super().__enter__()
+        return super().__enter__()
+
+    def __exit__(self, *args):
+        self._close()
+        super().__exit__(*args)
+
+    def _close(self):
+        if self._pbar is not None:
+            self._pbar.close()
+            self._pbar = None
 
     def _on_train_start(self, env, agent, obs):
-        if self._pbar is None:
-            try:
-                self._pbar = tqdm(total=len(env))
-            except TypeError:
-                self._pbar = tqdm()
+        self._close()
+        try:
+            self._pbar = tqdm(total=len(env))
+        except TypeError:
+            self._pbar = tqdm()
 
     def _on_step(self, env, agent, gym_state):
         self._pbar.update()
 
     def _on_train_end(self, env, agent):
-        if self._pbar is not None:
-            self._pbar.close()
+        self._close()
-- 
2.43.0


From adeabada7b160e5f5f7f3189a9e79ecbfdbc4abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 58/90] fix: Record keeps what happened when environments reuse
 their arrays

---
 src/wax/gym/callbacks/record.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wax/gym/callbacks/record.py b/src/wax/gym/callbacks/record.py
index d00f86d..acc68ae 100644
--- a/src/wax/gym/callbacks/record.py
+++ b/src/wax/gym/callbacks/record.py
@@ -13,8 +13,10 @@
 # limitations under the License.
 """TODO refactor this module"""
 
+from copy import deepcopy
 from typing import Any
 
+import jax
 import numpy as np
 import pandas as pd
 import xarray as xr
@@ -94,7 +96,8 @@ class Record(Callback):
                 self._sequence = tuple([] for _ in outputs)
 
             for seq_, output_ in zip(self._sequence, outputs, strict=False):
-                seq_.append(output_)
+                # the environment or the agent may change it at the next step
+                seq_.append(output_ if isinstance(output_, jax.Array) else deepcopy(output_))
 
         self._env = env
 
-- 
2.43.0


From 4d57b950b48d6ee6e6e631a28d4adf84456ad8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 59/90] fix: the Flax GymFeedback calls its agent once and lets
 its errors pass

---
 src/wax/flax/modules/gym_feedback.py | 29 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/wax/flax/modules/gym_feedback.py b/src/wax/flax/modules/gym_feedback.py
index a40fdd5..13aaa8d 100644
--- a/src/wax/flax/modules/gym_feedback.py
+++ b/src/wax/flax/modules/gym_feedback.py
@@ -13,12 +13,25 @@
 # limitations under the License.
 """Flax-based GymFeedback module for RL agent-environment interaction."""
 
+import inspect
 from typing import Any
 
 import flax.linen as nn
 import jax.numpy as jnp
 
 
+def _takes_reward(agent: Any) -> bool:
+    """Whether an agent takes a reward after the observation."""
+    try:
+        inspect.signature(agent).bind(None, None)
+    except TypeError:
+        return False
+    except ValueError:
+        # The agent has no signature
+        pass
+    return True
+
+
 class GymFeedback(nn.Module):
     """Flax-based module for agent-environment interaction in RL settings.
 
@@ -42,23 +55,12 @@ class GymFeedback(nn.Module):
         # Ensure observation is an array
         obs = jnp.asarray(obs)
 
-        # Initialize previous action state
-        prev_action = self.variable(
-            "state",
-            "prev_action",
-            lambda: jnp.zeros_like(obs),  # Initialize with zero action
-        )
-
         # Get agent's action based on current observation
         # The agent can be a function or a module
         if callable(self.agent):
-            if reward is not None:
+            if reward is not None and _takes_reward(self.agent):
                 # Agent that takes both observation and reward
-                try:
-                    action = self.agent(obs, reward)
-                except TypeError:
-                    # Agent only takes observation
-                    action = self.agent(obs)
+                action = self.agent(obs, reward)
             else:
                 # Agent only takes observation
                 action = self.agent(obs)
@@ -69,6 +71,7 @@ class GymFeedback(nn.Module):
         action = jnp.asarray(action)
 
         # Store current action for next timestep
+        prev_action = self.variable("state", "prev_action", jnp.zeros_like, action)
         prev_action.value = action
 
         # Return the action (can be extended to return more info if needed)
-- 
2.43.0


From 7b1d4c8e5a57ef9ac290938dcfe5d9266f200b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:59 +0000
Subject: [PATCH 60/90] fix: a callback can be entered while it is entered

---
 src/wax/gym/callbacks/callbacks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wax/gym/callbacks/callbacks.py b/src/wax/gym/callbacks/callbacks.py
index 8ed454f..ecb48a7 100644
--- a/src/wax/gym/callbacks/callbacks.py
+++ b/src/wax/gym/callbacks/callbacks.py
@@ -100,12 +100,13 @@ class Callback:
         return tuple(getattr(self, i, None) for i in fields)
 
     def __enter__(self):
-        self._cm = add_callbacks(self)
-        self._cm.__enter__()
+        cm = add_callbacks(self)
+        cm.__enter__()
+        self._cm = [*getattr(self, "_cm", ()), cm]
         return self
 
     def __exit__(self, *args):
-        self._cm.__exit__(*args)
+        self._cm.pop().__exit__(*args)
 
     def register(self):
         Callback.active[self._callback] = None
-- 
2.43.0


From b4ac8dc90ec5f7213d5ec49be01b2e72d59247b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 61/90] fix: coordinates that hold dates but are no dimension
 are not streams

---
 src/wax/stream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 73b1b40..0b5a12a 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -163,13 +163,18 @@ def get_dataset_index_from_stream_index(
 
 
 def _get_unique_time_dim(dataset):
-    time_coords = {dim for dim, vals in dataset.coords.items() if vals.dtype.type is onp.datetime64}
+    time_coords = get_dataset_time_coords(dataset)
     assert len(time_coords) == 1
     return time_coords.pop()
 
 
 def get_dataset_time_coords(dataset):
-    time_coords = {dim for dim, vals in dataset.coords.items() if vals.dtype.type is onp.datetime64}
+    # other coordinates can hold dates too, but nothing is streamed along them
+    time_coords = {
+        dim
+        for dim, vals in dataset.coords.items()
+        if vals.dtype.type is onp.datetime64 and vals.dims == (dim,)
+    }
     assert len(time_coords), "No time coordinate found"
     return time_coords
 
-- 
2.43.0


From f5d6c47a8cebbe8607c7328a1cd0b24e81a49616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 62/90] fix: data of all numeric dtypes can be streamed

---
 src/wax/stream.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 0b5a12a..d041a29 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -64,12 +64,19 @@ DTYPE_INIT_VALUES = {
     jnp.uint64: 0,
     jnp.uint32: 0,
     # numpy
+    onp.float16: onp.nan,
     onp.float32: onp.nan,
     onp.float64: onp.nan,
+    onp.complex64: onp.nan,
+    onp.complex128: onp.nan,
+    onp.int8: onp.iinfo(onp.int8).min,
+    onp.int16: onp.iinfo(onp.int16).min,
     onp.int64: -99999,
     onp.int32: -99999,
     onp.uint64: 0,
     onp.uint32: 0,
+    onp.uint16: 0,
+    onp.uint8: 0,
     bool: False,
     onp.bool_: False,
 }
-- 
2.43.0


From 7f64fe4b00ef93347706437f9aafeaee17b66b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 63/90] fix: outputs of applications that skip the first step
 are labelled

---
 src/wax/accessors.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index b11eb73..9fdbe8c 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -24,12 +24,20 @@ import xarray as xr
 from jax.tree_util import tree_map
 
 from wax.format import format_dataarray, format_dataframe, format_dataset, format_series
-from wax.stream import Stream
+from wax.stream import Stream, get_dataset_time_coords
 
 # DTypeLike = TypeVar("DTypeLike")
 DTypeLike = str
 
 
+def _get_output_coords(stream: Stream, dataset: xr.Dataset, skip_first: bool):
+    """Coordinates of the steps that are returned."""
+    if not skip_first:
+        return dataset.coords
+    local_time = stream.get_local_time(dict.fromkeys(get_dataset_time_coords(dataset)))
+    return dataset.isel({local_time: slice(1, None)}).coords
+
+
 @dataclass(frozen=True)
 class StreamDataset(Stream):
     """
@@ -74,12 +82,13 @@ class StreamDataset(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = _get_output_coords(self, dataset, skip_first)
             try:
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataset(schema.coords, outputs, format_dims)
+                outputs = format_dataset(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -137,15 +146,16 @@ class StreamDataArray(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = _get_output_coords(self, dataset, skip_first)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_dataarray(schema.coords, outputs, format_dims)
+                outputs = format_dataarray(coords, outputs, format_dims)
 
         if self.return_state:
             return outputs, state
@@ -215,13 +225,14 @@ class StreamDataFrame(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = _get_output_coords(self, dataset, skip_first)
 
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -230,7 +241,7 @@ class StreamDataFrame(Stream):
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_dataframe(
-                    schema.coords,
+                    coords,
                     outputs,
                     format_dims,
                     index_nlevels=dataframe.index.nlevels,
@@ -292,15 +303,16 @@ class StreamSeries(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
+            coords = _get_output_coords(self, dataset, skip_first)
             if format_dims is None:
                 format_dims = dataarray.dims
 
             try:
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
                 format_dims = (format_dims[0],)
-                outputs = format_series(schema.coords, outputs, format_dims)
+                outputs = format_series(coords, outputs, format_dims)
         if self.return_state:
             return outputs, state
         else:
-- 
2.43.0


From 40d92f4b159ee1d03e25a8096ce4354695ead72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:58 +0000
Subject: [PATCH 64/90] fix: steps without any value of frames with several
 levels are not dropped

---
 src/wax/accessors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index 9fdbe8c..6514d51 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -207,7 +207,10 @@ class StreamDataFrame(Stream):
             # avoid to stack the dataframe : its faster!
             dataarray = xr.DataArray(dataframe)
         else:
-            dataarray = dataframe.stack(list(range(dataframe.columns.nlevels))).to_xarray()
+            # missing values are data: a step or a column without any value is still there
+            dataarray = dataframe.stack(
+                list(range(dataframe.columns.nlevels)), dropna=False
+            ).to_xarray()
         dataset = dataarray.to_dataset(name="dataarray")
         schema = self.get_dataset_schema(dataset)
 
-- 
2.43.0


From c4da69f7bc8e5dd51638b9a3ee8ed6f0c53fd8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 65/90] fix: several outputs of a module are not labelled with
 one dimension each

---
 src/wax/accessors.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index 6514d51..8973b7e 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -30,6 +30,11 @@ from wax.stream import Stream, get_dataset_time_coords
 DTypeLike = str
 
 
+def _dims(dims):
+    """One dims specification, which is not taken for a tuple of outputs."""
+    return onp.array(dims, dtype=object)
+
+
 def _get_output_coords(stream: Stream, dataset: xr.Dataset, skip_first: bool):
     """Coordinates of the steps that are returned."""
     if not skip_first:
@@ -87,7 +92,7 @@ class StreamDataset(Stream):
                 outputs = format_dataset(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
-                format_dims = (format_dims[0],)
+                format_dims = _dims(format_dims[:1])
                 outputs = format_dataset(coords, outputs, format_dims)
 
         if self.return_state:
@@ -148,13 +153,13 @@ class StreamDataArray(Stream):
             outputs = tree_map(lambda x: onp.array(x), outputs)
             coords = _get_output_coords(self, dataset, skip_first)
             if format_dims is None:
-                format_dims = dataarray.dims
+                format_dims = _dims(dataarray.dims)
 
             try:
                 outputs = format_dataarray(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
-                format_dims = (format_dims[0],)
+                format_dims = _dims(format_dims[:1])
                 outputs = format_dataarray(coords, outputs, format_dims)
 
         if self.return_state:
@@ -231,7 +236,7 @@ class StreamDataFrame(Stream):
             coords = _get_output_coords(self, dataset, skip_first)
 
             if format_dims is None:
-                format_dims = dataarray.dims
+                format_dims = _dims(dataarray.dims)
 
             try:
                 outputs = format_dataframe(
@@ -242,7 +247,7 @@ class StreamDataFrame(Stream):
                 )
             except ValueError:
                 # try with reduced dims
-                format_dims = (format_dims[0],)
+                format_dims = _dims(format_dims[:1])
                 outputs = format_dataframe(
                     coords,
                     outputs,
@@ -308,13 +313,13 @@ class StreamSeries(Stream):
             outputs = tree_map(lambda x: onp.array(x), outputs)
             coords = _get_output_coords(self, dataset, skip_first)
             if format_dims is None:
-                format_dims = dataarray.dims
+                format_dims = _dims(dataarray.dims)
 
             try:
                 outputs = format_series(coords, outputs, format_dims)
             except ValueError:
                 # try with reduced dims
-                format_dims = (format_dims[0],)
+                format_dims = _dims(format_dims[:1])
                 outputs = format_series(coords, outputs, format_dims)
         if self.return_state:
             return outputs, state
-- 
2.43.0


From 75f5154624b669833c9502297568963ff886fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 66/90] fix: exponential means of integers are not integers

---
 src/wax/accessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index 8973b7e..e5cb8c1 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -349,7 +349,7 @@ class ExponentialMovingWindow:
 
         def _apply_ema(*, accessor, return_state, format_outputs, **kwargs):
             return accessor.stream(return_state=return_state, format_outputs=format_outputs).apply(
-                lambda x: EWMA(**kwargs)(x),
+                lambda x: EWMA(**kwargs)(x.astype(jnp.result_type(x, float))),
             )
 
         return _apply_ema(**self.__dict__)
-- 
2.43.0


From 257378d79b2c047d9423794627369e608cc7d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 67/90] fix: frames can be formatted with an array of
 dimensions

---
 src/wax/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/format.py b/src/wax/format.py
index 88ad843..70d192d 100644
--- a/src/wax/format.py
+++ b/src/wax/format.py
@@ -136,7 +136,7 @@ def format_dataframe(
             for dataarray, dims in zip(data_flat, format_dims_flat, strict=False)
         )
     else:
-        if not format_dims:
+        if format_dims is None or not len(format_dims):
             format_dims = _get_dims_from_data(data_flat[0])
         vals = tuple(
             _to_dataframe(ref_coords, dataarray, format_dims, index_nlevels)
-- 
2.43.0


From e7acfbaf00c3e2311536b23eaac3801918b5369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 68/90] fix: HierarchicalState can be constructed and runs
 modules after their dependencies

---
 src/wax/flax/core/streaming_transforms.py | 49 ++++++++++-------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 7bff92f..860291e 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -18,7 +18,7 @@ programming with JAX/Flax's functional paradigms, similar to how Haiku's
 transform functions worked.
 """
 
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from typing import Any, TypeVar
 
 import jax
@@ -72,33 +72,26 @@ class HierarchicalState(StreamingStatePattern):
     with proper state management and composition.
     """
 
-    modules: dict[str, nn.Module]
-    dependencies: dict[str, list[str]]  # Module dependency graph
-
-    def __init__(
-        self, modules: dict[str, nn.Module], dependencies: dict[str, list[str]] | None = None
-    ):
-        """Initialize hierarchical state manager.
-
-        Args:
-            modules: Dictionary mapping module names to module instances
-            dependencies: Optional dependency graph for execution order
-        """
-        super().__init__()
-        self.modules = modules
-        self.dependencies = dependencies or {}
-
-    def setup(self):
-        """Register all modules for proper state management."""
-        for name, module in self.modules.items():
-            setattr(self, f"module_{name}", module)
+    # Module names and module instances
+    modules: Mapping[str, nn.Module]
+    # Module dependency graph, for execution order
+    dependencies: Mapping[str, list[str]] | None = None
 
     def execute_in_order(self, inputs: dict[str, Any]) -> dict[str, Any]:
         """Execute modules in dependency order."""
         outputs: dict[str, Any] = {}
 
-        # Simple topological execution - can be enhanced with proper sorting
-        for name, module in self.modules.items():
+        remaining = sorted(self.modules)
+        while remaining:
+            # The first module all of whose dependencies have been executed
+            name = next(
+                (n for n in remaining if outputs.keys() >= set(self._get_dependencies(n))), None
+            )
+            if name is None:
+                raise ValueError(f"Circular or unknown dependency of modules {remaining}")
+            remaining.remove(name)
+            module = self.modules[name]
+
             # Get inputs for this module
             module_inputs = self._get_module_inputs(name, inputs, outputs)
 
@@ -108,6 +101,10 @@ class HierarchicalState(StreamingStatePattern):
 
         return outputs
 
+    def _get_dependencies(self, module_name: str) -> list[str]:
+        """Get the modules a module depends on."""
+        return list((self.dependencies or {}).get(module_name, []))
+
     def _get_module_inputs(
         self, module_name: str, initial_inputs: dict[str, Any], computed_outputs: dict[str, Any]
     ) -> dict[str, Any]:
@@ -115,10 +112,8 @@ class HierarchicalState(StreamingStatePattern):
         module_inputs = {}
 
         # Add dependencies from other modules
-        if module_name in self.dependencies:
-            for dep in self.dependencies[module_name]:
-                if dep in computed_outputs:
-                    module_inputs[dep] = computed_outputs[dep]
+        for dep in self._get_dependencies(module_name):
+            module_inputs[dep] = computed_outputs[dep]
 
         # Add initial inputs that match parameter names
         # This is a simplified approach - can be enhanced
-- 
2.43.0


From db0d80284574b3c05721dc408ffa927aa055bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 69/90] fix: hierarchical state machines run in dependency
 order and reject bad dependencies

---
 src/wax/flax/core/advanced_state_patterns.py | 28 +++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/wax/flax/core/advanced_state_patterns.py b/src/wax/flax/core/advanced_state_patterns.py
index d769df6..9234d43 100644
--- a/src/wax/flax/core/advanced_state_patterns.py
+++ b/src/wax/flax/core/advanced_state_patterns.py
@@ -34,6 +34,16 @@ StateName = str
 StateValue = Any
 
 
+def _check_dependencies(
+    states: Mapping[StateName, Any], dependencies: Mapping[StateName, list[StateName]]
+) -> None:
+    """Raise ValueError if a dependency does not exist."""
+    for name, deps in dependencies.items():
+        unknown = [state for state in (name, *deps) if state not in states]
+        if unknown:
+            raise ValueError(f"Unknown states in dependencies of {name!r}: {unknown}")
+
+
 class HierarchicalStateMachine(nn.Module):
     """Hierarchical state machine for coordinated multi-level state management.
 
@@ -55,10 +65,8 @@ class HierarchicalStateMachine(nn.Module):
     coordination_strategy: str = "sequential"  # or "parallel", "hierarchical"
 
     def setup(self):
-        """Register all state modules and coordination mechanisms."""
-        # Register state modules
-        for name, module in self.state_modules.items():
-            setattr(self, f"state_{name}", module)
+        """Check the dependencies and register coordination mechanisms."""
+        _check_dependencies(self.state_modules, self.dependencies or {})
 
         # Initialize coordination state (JAX-compatible)
         # Use numeric indices instead of strings for JAX compatibility
@@ -86,16 +94,16 @@ class HierarchicalStateMachine(nn.Module):
         remaining = set(active_states)
 
         while remaining:
-            # Find states with no unfulfilled dependencies
+            # Find states with no unfulfilled dependencies, in an order that
+            # depends neither on the registration nor on hashing
             ready = []
-            for state in remaining:
+            for state in sorted(remaining):
                 deps = dependencies.get(state, [])
                 if all(dep in ordered or dep not in remaining for dep in deps):
                     ready.append(state)
 
             if not ready:
-                # Circular dependency or invalid - use arbitrary order
-                ready = [next(iter(remaining))]
+                raise ValueError(f"Circular dependency between states {sorted(remaining)}")
 
             # Add ready states to execution order
             ordered.extend(ready)
@@ -156,7 +164,7 @@ class HierarchicalStateMachine(nn.Module):
             max_dep_depth = max(get_depth(dep, visited.copy()) for dep in deps)
             return max_dep_depth + 1
 
-        for state_name in self.state_modules.keys():
+        for state_name in sorted(self.state_modules):
             depth = get_depth(state_name, set())
             if depth not in levels:
                 levels[depth] = []
@@ -217,7 +225,7 @@ class HierarchicalStateMachine(nn.Module):
 
         for state_name in execution_order:
             if state_name in self.state_modules:
-                state_module = getattr(self, f"state_{state_name}")
+                state_module = self.state_modules[state_name]
 
                 # Execute state module with original arguments only
                 try:
-- 
2.43.0


From 1e1576a2ef09b0a5acf8f70c1058b14ecc10ecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 70/90] fix: a failing component of a state machine leaves no
 trace in the state

---
 src/wax/flax/core/advanced_state_patterns.py | 34 ++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/core/advanced_state_patterns.py b/src/wax/flax/core/advanced_state_patterns.py
index 9234d43..df3f1f5 100644
--- a/src/wax/flax/core/advanced_state_patterns.py
+++ b/src/wax/flax/core/advanced_state_patterns.py
@@ -44,6 +44,31 @@ def _check_dependencies(
             raise ValueError(f"Unknown states in dependencies of {name!r}: {unknown}")
 
 
+def _save_variables(scope: Any) -> list[tuple[dict, dict]]:
+    """Remember all mutable variables of a scope."""
+    saved: list[tuple[dict, dict]] = []
+
+    def save(tree):
+        if isinstance(tree, dict):
+            saved.append((tree, dict(tree)))
+            for value in tree.values():
+                save(value)
+
+    variables = scope.root._variables
+    saved.append((variables, dict(variables)))
+    for collection, tree in variables.items():
+        if scope.is_mutable_collection(collection):
+            save(tree)
+    return saved
+
+
+def _restore_variables(saved: list[tuple[dict, dict]]) -> None:
+    """Undo all changes made since the variables were saved."""
+    for tree, values in saved:
+        tree.clear()
+        tree.update(values)
+
+
 class HierarchicalStateMachine(nn.Module):
     """Hierarchical state machine for coordinated multi-level state management.
 
@@ -200,7 +225,9 @@ class HierarchicalStateMachine(nn.Module):
 
             influenced = lower_output.copy()
             for key in influenced:
-                if key in higher_output and isinstance(influenced[key], int | float | jnp.ndarray):
+                if isinstance(influenced[key], int | float | jnp.ndarray) and isinstance(
+                    higher_output.get(key), int | float | jnp.ndarray
+                ):
                     # Blend with higher-level signal
                     influenced[key] = (1 - influence_factor) * influenced[
                         key
@@ -226,6 +253,7 @@ class HierarchicalStateMachine(nn.Module):
         for state_name in execution_order:
             if state_name in self.state_modules:
                 state_module = self.state_modules[state_name]
+                saved = _save_variables(self.scope)
 
                 # Execute state module with original arguments only
                 try:
@@ -233,7 +261,9 @@ class HierarchicalStateMachine(nn.Module):
                     state_outputs[state_name] = output
 
                 except Exception as e:
-                    # Handle state execution errors gracefully
+                    # Handle state execution errors gracefully: the step of the
+                    # failed module leaves no trace in the state
+                    _restore_variables(saved)
                     state_outputs[state_name] = {"error": str(e), "status": "failed"}
 
         # Coordinate state outputs
-- 
2.43.0


From 398210e89341f3f84ca251862e36889c0e1f3cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 71/90] fix: optimisers that need the parameters can be used
 for online learning

---
 src/wax/modules/optax_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/optax_optimizer.py b/src/wax/modules/optax_optimizer.py
index d342bf6..1917cc4 100644
--- a/src/wax/modules/optax_optimizer.py
+++ b/src/wax/modules/optax_optimizer.py
@@ -29,7 +29,7 @@ class OptaxOptimizer(hk.Module):
 
     def __call__(self, params, grads):
         opt_state = hk.get_state("opt_state", [], init=lambda *_: self.opt.init(params))
-        updates, opt_state = self.opt.update(grads, opt_state)
+        updates, opt_state = self.opt.update(grads, opt_state, params)
         params = optax.apply_updates(params, updates)
         hk.set_state("opt_state", opt_state)
         return params
-- 
2.43.0


From cf74c169922b26c418ac7cff9e272f1165d682a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 72/90] fix: functions with a state or without a predicate can
 be optimised

---
 src/wax/modules/func_optimizer.py | 3 +--
 src/wax/modules/update_params.py  | 8 ++++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/wax/modules/func_optimizer.py b/src/wax/modules/func_optimizer.py
index 309b82d..fe18ba6 100644
--- a/src/wax/modules/func_optimizer.py
+++ b/src/wax/modules/func_optimizer.py
@@ -14,7 +14,6 @@
 from collections.abc import Callable
 
 import haiku as hk
-import jax
 import jax.numpy as jnp
 
 from wax.modules import FillNanInf
@@ -64,7 +63,7 @@ class FuncOptimizer(hk.Module):
             ),
         )
         func = UpdateParams(self.func, params_predicate=self.params_predicate)
-        results, grads = jax.value_and_grad(func, has_aux=self.has_aux)(
+        results, grads = hk.value_and_grad(func, has_aux=self.has_aux)(
             trainable_params, *args, **kwargs
         )
         if self.grads_fill_nan_inf:
diff --git a/src/wax/modules/update_params.py b/src/wax/modules/update_params.py
index d7397f2..e2f6d5e 100644
--- a/src/wax/modules/update_params.py
+++ b/src/wax/modules/update_params.py
@@ -46,8 +46,8 @@ class UpdateParams(hk.Module):
             """Set state from trainable params and state of the model."""
             params, state = init(rng, *args, **kwargs)
 
-            trainable_params, non_trainable_params = partition(self.params_predicate, params)
-            trainable_params = hk.data_structures.to_mutable_dict(trainable_params)
+            params_predicate = self.params_predicate or pass_all_predicate
+            _, non_trainable_params = partition(params_predicate, params)
             return (non_trainable_params, state)
 
         non_trainable_params, state = hk.get_state(
@@ -71,8 +71,8 @@ def get_init_params(
     **kwargs,
 ):
     init_rng = hk.next_rng_key() if hk.running_init() else None
-    init, _ = hk.transform(func)
-    params = init(init_rng, *args, **kwargs)
+    init, _ = hk.transform_with_state(func)
+    params, _ = init(init_rng, *args, **kwargs)
 
     if params_predicate:
         trainable_params: Any
-- 
2.43.0


From 27c672309464590293dd42519c77c94ddd9c29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 73/90] fix: infinite gradients do not throw parameters of
 online optimisers away

---
 src/wax/flax/modules/online_optimizer.py | 4 ++--
 src/wax/modules/online_optimizer.py      | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index 24e1433..1fbcd65 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -176,8 +176,8 @@ class OnlineOptimizer(nn.Module):
         # Compute gradients
         (loss, aux), grads = jax.value_and_grad(loss_fn, has_aux=True)(trainable_params)
 
-        # Handle NaN gradients
-        grads = tree_map(lambda x: jnp.nan_to_num(x), grads)
+        # Handle non-finite gradients (fill with zeros)
+        grads = tree_map(lambda x: jnp.nan_to_num(x, nan=0.0, posinf=0.0, neginf=0.0), grads)
 
         # Apply optimizer update
         updated_trainable_params, opt_info = self.optimizer(trainable_params, grads)
diff --git a/src/wax/modules/online_optimizer.py b/src/wax/modules/online_optimizer.py
index ea80daf..163c66f 100644
--- a/src/wax/modules/online_optimizer.py
+++ b/src/wax/modules/online_optimizer.py
@@ -134,7 +134,9 @@ class OnlineOptimizer(hk.Module):
         )
 
         # update optimizer state
-        filled_grads = tree_map(jnp.nan_to_num, grads)
+        filled_grads = tree_map(
+            lambda grad: jnp.nan_to_num(grad, nan=0.0, posinf=0.0, neginf=0.0), grads
+        )
 
         # update params
         updated_trainable_params = self.opt(trainable_params, filled_grads)
-- 
2.43.0


From 97dbed96a36b46d9cdc5703243fc2342d5ce4e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 74/90] fix: parameters of one module can be trainable and not
 trainable

---
 src/wax/flax/modules/online_optimizer.py | 22 ++++++++++++----------
 src/wax/flax/modules/update_params.py    | 19 ++++++++-----------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index 1fbcd65..e7d5cb1 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -133,25 +133,29 @@ class OnlineOptimizer(nn.Module):
 
             from flax.traverse_util import flatten_dict, unflatten_dict
 
-            flat_params = flatten_dict(params, sep="/")
+            flat_params = flatten_dict(params)
 
             for key, value in flat_params.items():
-                path = key.split("/")
-                if self.is_trainable(path[0] if path else "", path[-1] if path else "", value):
+                if self.is_trainable(key[0], key[-1], value):
                     trainable[key] = value
                 else:
                     non_trainable[key] = value
 
-            return unflatten_dict(trainable, sep="/"), unflatten_dict(non_trainable, sep="/")
+            return unflatten_dict(trainable), unflatten_dict(non_trainable)
+
+        def merge_params(trainable_params, non_trainable_params):
+            from flax.traverse_util import flatten_dict, unflatten_dict
+
+            return unflatten_dict(
+                {**flatten_dict(non_trainable_params), **flatten_dict(trainable_params)}
+            )
 
         trainable_params, non_trainable_params = partition_params(params)
 
         # Define loss function for gradient computation
         def loss_fn(trainable_params):
             # Merge trainable and non-trainable params
-            merged_params = {}
-            merged_params.update(non_trainable_params)
-            merged_params.update(trainable_params)
+            merged_params = merge_params(trainable_params, non_trainable_params)
 
             # Compute model output
             result = model_fn(merged_params, state, *args, **kwargs)
@@ -187,9 +191,7 @@ class OnlineOptimizer(nn.Module):
             updated_trainable_params = self.project_params(updated_trainable_params)
 
         # Merge back updated parameters
-        updated_params = {}
-        updated_params.update(non_trainable_params)
-        updated_params.update(updated_trainable_params)
+        updated_params = merge_params(updated_trainable_params, non_trainable_params)
 
         # Update model variables
         if "params" in current_vars:
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 503712d..c1975ac 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -89,16 +89,15 @@ class UpdateParams(nn.Module):
                 return {}, params
 
         # Flatten parameters for easier processing
-        flat_params = flatten_dict(params, sep="/")
+        flat_params = flatten_dict(params)
 
         trainable = {}
         non_trainable = {}
 
         for key, value in flat_params.items():
-            # Parse the key to extract module and parameter names
-            path_parts = key.split("/")
-            module_name = path_parts[0] if len(path_parts) > 0 else ""
-            param_name = path_parts[-1] if len(path_parts) > 0 else ""
+            # Extract module and parameter names
+            module_name = key[0]
+            param_name = key[-1]
 
             # Apply predicate to determine if parameter is trainable
             if self.is_trainable(module_name, param_name, value):
@@ -107,8 +106,8 @@ class UpdateParams(nn.Module):
                 non_trainable[key] = value
 
         # Unflatten the dictionaries
-        trainable_params = unflatten_dict(trainable, sep="/")
-        non_trainable_params = unflatten_dict(non_trainable, sep="/")
+        trainable_params = unflatten_dict(trainable)
+        non_trainable_params = unflatten_dict(non_trainable)
 
         return trainable_params, non_trainable_params
 
@@ -133,10 +132,8 @@ class UpdateParams(nn.Module):
 
         # For dictionaries, merge recursively
         if isinstance(trainable_params, dict) and isinstance(non_trainable_params, dict):
-            result = {}
-            result.update(non_trainable_params)
-            result.update(trainable_params)
-            return result
+            flat_params = {**flatten_dict(non_trainable_params), **flatten_dict(trainable_params)}
+            return unflatten_dict(flat_params)
 
         # For other types, prefer trainable parameters
         return trainable_params
-- 
2.43.0


From 8c5f46d2cc8ee16844cf3d2b3041df0d1180145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 75/90] fix: models with a state and plain functions can be
 optimised online

---
 src/wax/flax/modules/online_optimizer.py | 30 ++++++++++--------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index e7d5cb1..e6c2d31 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -97,8 +97,7 @@ class OnlineOptimizer(nn.Module):
 
             def model_fn(params, state, *args, **kwargs):
                 vars_dict = {"params": params, **state}
-                result = self.model.apply(vars_dict, *args, **kwargs)
-                return result
+                return self.model.apply(vars_dict, *args, mutable=list(state), **kwargs)
 
         else:
             # It's a regular function - need to transform it
@@ -114,17 +113,15 @@ class OnlineOptimizer(nn.Module):
                 model_vars.value = {"params": params, "state": state}
 
             def model_fn(params, state, *args, **kwargs):
-                return wrapped_model.apply(params, state, jax.random.PRNGKey(0), *args, **kwargs)
+                result, new_state = wrapped_model.apply(
+                    params, state["state"], jax.random.PRNGKey(0), *args, **kwargs
+                )
+                return result, {"state": new_state}
 
         # Extract current parameters and state
         current_vars = model_vars.value
-        if "params" in current_vars:
-            params = current_vars["params"]
-            state = {k: v for k, v in current_vars.items() if k != "params"}
-        else:
-            # Assume everything is parameters for now
-            params = current_vars
-            state = {}
+        params = current_vars.get("params", {})
+        state = {k: v for k, v in current_vars.items() if k != "params"}
 
         # Partition parameters into trainable and non-trainable
         def partition_params(params):
@@ -158,7 +155,7 @@ class OnlineOptimizer(nn.Module):
             merged_params = merge_params(trainable_params, non_trainable_params)
 
             # Compute model output
-            result = model_fn(merged_params, state, *args, **kwargs)
+            result, new_state = model_fn(merged_params, state, *args, **kwargs)
 
             # Handle different return types
             if isinstance(result, tuple):
@@ -166,7 +163,7 @@ class OnlineOptimizer(nn.Module):
                     loss, aux = result
                 else:
                     loss = result[0]
-                    aux = result[1:] if len(result) > 2 else result[1]
+                    aux = result[1:]
             else:
                 loss = result
                 aux = None
@@ -175,10 +172,10 @@ class OnlineOptimizer(nn.Module):
             if self.regularize_loss is not None:
                 loss = self.regularize_loss(loss, merged_params, aux)
 
-            return loss, aux
+            return loss, (aux, new_state)
 
         # Compute gradients
-        (loss, aux), grads = jax.value_and_grad(loss_fn, has_aux=True)(trainable_params)
+        (loss, (aux, new_state)), grads = jax.value_and_grad(loss_fn, has_aux=True)(trainable_params)
 
         # Handle non-finite gradients (fill with zeros)
         grads = tree_map(lambda x: jnp.nan_to_num(x, nan=0.0, posinf=0.0, neginf=0.0), grads)
@@ -194,10 +191,7 @@ class OnlineOptimizer(nn.Module):
         updated_params = merge_params(updated_trainable_params, non_trainable_params)
 
         # Update model variables
-        if "params" in current_vars:
-            model_vars.value = {"params": updated_params, **state}
-        else:
-            model_vars.value = updated_params
+        model_vars.value = {"params": updated_params, **new_state}
 
         return OptInfo(loss=loss, aux=aux, grads=grads, params=updated_params)
 
-- 
2.43.0


From a9d741c231cda58f608873e69e824371ca0d13eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 76/90] fix: functions with a state or parameters not to train
 can be optimised

---
 src/wax/flax/modules/func_optimizer.py | 69 ++++++++++++++++++--------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/src/wax/flax/modules/func_optimizer.py b/src/wax/flax/modules/func_optimizer.py
index 9106873..e127f01 100644
--- a/src/wax/flax/modules/func_optimizer.py
+++ b/src/wax/flax/modules/func_optimizer.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 """Flax-based FuncOptimizer module for function optimization."""
 
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from typing import Any
 
 import flax.linen as nn
@@ -25,6 +25,18 @@ from .optax_optimizer import OptaxOptimizer
 from .update_params import UpdateParams
 
 
+class VariablesFunction:
+    """A function of variables, with the init and apply of a Flax module."""
+
+    def init(self, rng: Any, *args, **kwargs) -> Mapping[str, Any]:
+        """Initialize the variables."""
+        raise NotImplementedError
+
+    def apply(self, variables: Mapping[str, Any], *args, mutable: Any = False, **kwargs) -> Any:
+        """Apply the function."""
+        raise NotImplementedError
+
+
 class FuncOptimizer(nn.Module):
     """Flax-based function optimizer using iterative solvers.
 
@@ -66,46 +78,61 @@ class FuncOptimizer(nn.Module):
         Returns:
             Function output and optimization info
         """
-        # Initialize trainable parameters
+        initialized = self.has_variable("trainable_params", "params")
+
+        # Functions with the variables of Flax modules: the parameters are optimized,
+        # the other collections are the state of the function
+        has_variables = isinstance(self.fun, nn.Module | VariablesFunction)
+
+        # Initialize trainable parameters, the other parameters and the state
         trainable_params: nn.Variable[dict[str, Any]] = self.variable(
             "trainable_params", "params", lambda: {}
         )
+        non_trainable_params: nn.Variable[dict[str, Any]] = self.variable(
+            "non_trainable_params", "params", lambda: {}
+        )
+        function_state: nn.Variable[dict[str, Any]] = self.variable(
+            "function_state", "vars", lambda: {}
+        )
 
         # Initialize function if needed
-        if not trainable_params.value:
+        if not initialized:
             # Try to initialize parameters from the function
             if hasattr(self.fun, "init"):
                 # Function is a Flax module
                 rng = jax.random.PRNGKey(0)
                 init_params = self.fun.init(rng, *args, **kwargs)
 
+                if has_variables:
+                    function_state.value = {k: v for k, v in init_params.items() if k != "params"}
+                    init_params = init_params.get("params", {})
+
                 # Partition parameters
                 train_params, non_train_params = self.update_params.partition_params(init_params)
+                if has_variables:
+                    train_params = {"params": train_params} if train_params else {}
+                    non_train_params = {"params": non_train_params} if non_train_params else {}
                 trainable_params.value = train_params
-
-                # Store non-trainable parameters separately. The call is made for
-                # its side effect: it registers the collection on the module, which
-                # is later read back through ``self.variables``.
-                self.variable("non_trainable_params", "params", lambda: non_train_params)
-            else:
-                # Function doesn't have parameters, create dummy parameters
-                trainable_params.value = {}
+                non_trainable_params.value = non_train_params
 
         # Get current parameters
         current_trainable = trainable_params.value
+        current_state = function_state.value
 
         # Define loss function for gradient computation
         def loss_fn(params):
             # Merge trainable and non-trainable parameters if needed
-            if hasattr(self, "variable") and "non_trainable_params" in self.variables:
-                non_trainable = self.variables["non_trainable_params"]["params"]
-                merged_params = self.update_params.merge_params(params, non_trainable)
-            else:
-                merged_params = params
+            merged_params = self.update_params.merge_params(params, non_trainable_params.value)
 
             # Apply function
-            if hasattr(self.fun, "apply"):
+            new_state = current_state
+            if has_variables:
                 # Function is a Flax module
+                result, new_state = self.fun.apply(
+                    {**merged_params, **current_state}, *args, mutable=list(current_state), **kwargs
+                )
+            elif hasattr(self.fun, "apply"):
+                # Function has its own init and apply
                 result = self.fun.apply(merged_params, *args, **kwargs)
             else:
                 # Function is a regular callable
@@ -123,11 +150,11 @@ class FuncOptimizer(nn.Module):
                 loss = result
                 aux = None
 
-            return loss, aux
+            return loss, (aux, new_state)
 
         # Compute gradients
         if current_trainable:
-            (loss, aux), grads = jax.value_and_grad(loss_fn, has_aux=True)(current_trainable)
+            (loss, (aux, new_state)), grads = jax.value_and_grad(loss_fn, has_aux=True)(current_trainable)
 
             # Handle NaN/Inf gradients (fill with zeros)
             grads = tree_map(lambda x: self.fill_nan_inf(x), grads)
@@ -139,10 +166,12 @@ class FuncOptimizer(nn.Module):
             trainable_params.value = updated_params
         else:
             # No trainable parameters, just evaluate function
-            loss, aux = loss_fn({})
+            loss, (aux, new_state) = loss_fn({})
             grads = {}
             opt_info = None
 
+        function_state.value = new_state
+
         # Return function output and optimization info
         if self.has_aux:
             return (loss, aux), grads, opt_info
-- 
2.43.0


From 947faf188ef98986e3614b4b14de407363699b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 77/90] fix: the Flax OnlineSupervisedLearner learns

---
 .../flax/modules/online_supervised_learner.py | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/modules/online_supervised_learner.py b/src/wax/flax/modules/online_supervised_learner.py
index 38651a7..3325768 100644
--- a/src/wax/flax/modules/online_supervised_learner.py
+++ b/src/wax/flax/modules/online_supervised_learner.py
@@ -19,7 +19,24 @@ from typing import Any
 import flax.linen as nn
 import jax.numpy as jnp
 
-from .func_optimizer import FuncOptimizer
+from .func_optimizer import FuncOptimizer, VariablesFunction
+
+
+class _ModelLoss(VariablesFunction):
+    """The loss of a Flax module, as a function of the variables of the module."""
+
+    def __init__(self, model: nn.Module, loss_fn: Callable):
+        self.model = model
+        self.loss_fn = loss_fn
+
+    def init(self, rng, x, y):
+        """Initialize the variables of the model."""
+        return self.model.init(rng, x)
+
+    def apply(self, variables, x, y, mutable=False):
+        """Apply the model and compute the loss."""
+        predictions, new_variables = self.model.apply(variables, x, mutable=mutable)
+        return (self.loss_fn(predictions, y), predictions), new_variables
 
 
 class OnlineSupervisedLearner(nn.Module):
@@ -49,9 +66,14 @@ class OnlineSupervisedLearner(nn.Module):
             # Return loss and predictions as auxiliary data
             return loss, predictions
 
+        # The parameters of a module are the ones to learn
+        fun: Any = model_loss_fn
+        if isinstance(self.model, nn.Module):
+            fun = _ModelLoss(self.model, self.loss_fn)
+
         # Create function optimizer
         self.func_optimizer = FuncOptimizer(
-            fun=model_loss_fn,
+            fun=fun,
             opt=self.opt,
             has_aux=True,  # Returns predictions as auxiliary data
             params_predicate=self.params_predicate,
-- 
2.43.0


From 06d62551f478771cc643c4614e751f9ee358f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 78/90] fix: the results of the Flax OnlineOptimizer can leave
 compiled code

---
 src/wax/flax/modules/online_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index e6c2d31..a78a5ed 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -25,6 +25,7 @@ from jax.tree_util import tree_map
 from .optax_optimizer import OptaxOptimizer
 
 
+@jax.tree_util.register_dataclass
 @dataclass
 class OptInfo:
     """Information returned by online optimizer."""
-- 
2.43.0


From a8a6d70e8889057b24b9ca4a98257e1435318d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 79/90] fix: the Flax ARMA filters with its previous outputs
 and inputs

---
 src/wax/flax/modules/arma.py | 52 ++++++++++++++----------------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/src/wax/flax/modules/arma.py b/src/wax/flax/modules/arma.py
index 777aa23..b19f86b 100644
--- a/src/wax/flax/modules/arma.py
+++ b/src/wax/flax/modules/arma.py
@@ -13,12 +13,9 @@
 # limitations under the License.
 """Flax-based ARMA module for Autoregressive Moving Average filtering."""
 
-from typing import cast
-
 import flax.linen as nn
 import jax.numpy as jnp
 
-from .buffer import Buffer
 from .fill_nan_inf import FillNanInf
 
 
@@ -48,18 +45,10 @@ class ARMA(nn.Module):
         if self.beta.ndim != 1:
             raise ValueError("beta must be a 1-D array")
 
-        # Create buffers for AR and MA components
-        # AR buffer stores previous outputs
-        if len(self.alpha) > 0:
-            self.ar_buffer = Buffer(maxlen=len(self.alpha), fill_value=0.0)
-
-        # MA buffer stores previous inputs (noise terms)
-        if len(self.beta) > 0:
-            self.ma_buffer = Buffer(maxlen=len(self.beta), fill_value=0.0)
-
         # Module for handling NaN/Inf values
         self.fill_nan_inf = FillNanInf()
 
+    @nn.compact
     def __call__(self, eps: jnp.ndarray) -> jnp.ndarray:
         """Apply ARMA filter to input noise term.
 
@@ -75,35 +64,34 @@ class ARMA(nn.Module):
         # Initialize output with current input (eps term)
         output = eps
 
-        # Autoregressive component: sum(alpha[i] * y[t-i])
-        if len(self.alpha) > 0:
-            # Get previous outputs from AR buffer (placeholder initialization)
-            # Get current state; the buffer is built with return_state left at
-            # its default (False), so the call yields the array alone.
-            ar_history = cast(jnp.ndarray, self.ar_buffer(jnp.zeros_like(output)))
+        # Previous outputs and previous inputs, the last ones last
+        ar_history: nn.Variable[jnp.ndarray] = self.variable(
+            "state", "ar_history", lambda: jnp.zeros((len(self.alpha),) + eps.shape, eps.dtype)
+        )
+        ma_history: nn.Variable[jnp.ndarray] = self.variable(
+            "state", "ma_history", lambda: jnp.zeros((len(self.beta),) + eps.shape, eps.dtype)
+        )
 
-            # Compute AR contribution
-            ar_contribution = jnp.sum(self.alpha * ar_history)
-            output = output + ar_contribution
+        # Autoregressive component: sum(alpha[i] * y[t-i])
+        output = output + jnp.tensordot(self.alpha, ar_history.value, 1)
 
         # Moving average component: sum(beta[j] * eps[t-j])
-        if len(self.beta) > 0:
-            # Get previous inputs from MA buffer
-            ma_history = cast(jnp.ndarray, self.ma_buffer(eps))
-
-            # Compute MA contribution
-            ma_contribution = jnp.sum(self.beta * ma_history)
-            output = output + ma_contribution
-
-        # Update AR buffer with current output
-        if len(self.alpha) > 0:
-            self.ar_buffer(output)  # Store current output for next iteration
+        output = output + jnp.tensordot(self.beta, ma_history.value, 1)
 
         # Handle NaN/Inf values
         output = self.fill_nan_inf(output)
 
+        # Store the current output and input for the next iterations
+        ar_history.value = self._push(ar_history.value, output)
+        ma_history.value = self._push(ma_history.value, eps)
+
         return output
 
+    @staticmethod
+    def _push(history: jnp.ndarray, value: jnp.ndarray) -> jnp.ndarray:
+        """Append a value to a history and drop the oldest one."""
+        return jnp.concatenate([history, value[None].astype(history.dtype)])[1:]
+
 
 def create_arma(alpha: jnp.ndarray, beta: jnp.ndarray) -> ARMA:
     """Factory function to create ARMA module.
-- 
2.43.0


From c36a44b5735bcda89dccc440ef35f2154041471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:17 +0000
Subject: [PATCH 80/90] fix: UpdateOnEvent holds the state of modules handed
 over to the gated module

---
 src/wax/modules/update_on_event.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/wax/modules/update_on_event.py b/src/wax/modules/update_on_event.py
index c7d619c..17bcc6e 100644
--- a/src/wax/modules/update_on_event.py
+++ b/src/wax/modules/update_on_event.py
@@ -80,9 +80,13 @@ class UpdateOnEvent(hk.Module):
         self.initial_output_value = initial_output_value
 
     def __call__(self, on_event, *args, **kwargs):
-        # state_dict = self.state_dict()
-
-        prev_state_dict = self.module.state_dict()
+        # The module only knows the modules that were handed to it once it has called
+        # them, so that the state before the call is that of the whole frame.
+        frame_state_dict = {
+            f"{module_name}/{name}": value.current
+            for module_name, bundle in base.current_frame().state.items()
+            for name, value in bundle.items()
+        }
 
         output = self.module(*args, **kwargs)
 
@@ -95,7 +99,13 @@ class UpdateOnEvent(hk.Module):
             ),
         )
 
-        next_state_dict = self.module.state_dict() if prev_state_dict else {}
+        module_state_dict = self.module.state_dict()
+        prev_state_dict = {
+            name: frame_state_dict[name]
+            for name in module_state_dict
+            if name in frame_state_dict
+        }
+        next_state_dict = {name: module_state_dict[name] for name in prev_state_dict}
 
         def true_fun(operand):
             output, next_state, _, _ = operand
@@ -115,7 +125,7 @@ class UpdateOnEvent(hk.Module):
         )
 
         if next_state_dict:
-            self.module.set_state_from_dict(next_state_dict)
+            self.module.set_state_from_dict({**module_state_dict, **next_state_dict})
 
         hk.set_state("prev_output", output)
         return output
-- 
2.43.0


From 15def492f12af9ed998606d6fd8d48ff3e852a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:17 +0000
Subject: [PATCH 81/90] fix: outputs of the Haiku OnlineOptimizer are of one
 type in separate traces

---
 src/wax/modules/online_optimizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/wax/modules/online_optimizer.py b/src/wax/modules/online_optimizer.py
index 163c66f..6322b98 100644
--- a/src/wax/modules/online_optimizer.py
+++ b/src/wax/modules/online_optimizer.py
@@ -16,6 +16,7 @@
 from collections import namedtuple
 from collections.abc import Callable
 from dataclasses import dataclass
+from functools import lru_cache
 from typing import Any, NamedTuple
 
 import haiku as hk
@@ -35,6 +36,12 @@ class ParamsState(NamedTuple):
     state: Any
 
 
+@lru_cache(maxsize=None)
+def _opt_info_struct(*outputs):
+    # The same structure every time: outputs of separate traces must be of one type.
+    return namedtuple("OptInfo", outputs)
+
+
 @dataclass
 class OptInfo:
     """Dynamically define OptimizerInfo namedtuple structure.
@@ -49,7 +56,7 @@ class OptInfo:
         outputs = ["loss", "model_info"]
         if self.return_params:
             outputs += ["params"]
-        self.opt_info_struct_ = namedtuple("OptInfo", outputs)
+        self.opt_info_struct_ = _opt_info_struct(*outputs)
 
     def __call__(
         self,
-- 
2.43.0


From 45a2c67f70df9b1f4d7f0e43ecaf3e463337c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:17 +0000
Subject: [PATCH 82/90] fix: outputs of the Haiku GymFeedback are of one type
 in separate traces

---
 src/wax/modules/gym_feedback.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/wax/modules/gym_feedback.py b/src/wax/modules/gym_feedback.py
index b0f0730..29df629 100644
--- a/src/wax/modules/gym_feedback.py
+++ b/src/wax/modules/gym_feedback.py
@@ -15,11 +15,18 @@
 
 from collections import namedtuple
 from dataclasses import dataclass, field
+from functools import lru_cache
 from typing import Any, NamedTuple
 
 import haiku as hk
 
 
+@lru_cache(maxsize=None)
+def _gym_output_struct(*outputs):
+    # The same structure every time: outputs of separate traces must be of one type.
+    return namedtuple("GymOutput", outputs)
+
+
 @dataclass
 class GymOutput:
     """Dynamically define GymOutput namedtuple structure.
@@ -39,7 +46,7 @@ class GymOutput:
             outputs += ["obs"]
         if self.return_action:
             outputs += ["action"]
-        self.gym_output_struct = namedtuple("GymOutput", outputs)
+        self.gym_output_struct = _gym_output_struct(*outputs)
 
     def format(self, reward, obs=None, action=None):
         outputs = [reward]
-- 
2.43.0


From 9623a80f9bf0281da9c393502310584c2a9cda6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:17 +0000
Subject: [PATCH 83/90] fix: apply_with_state keeps the state that modules hold
 in other collections

---
 src/wax/flax/core/state_utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/wax/flax/core/state_utils.py b/src/wax/flax/core/state_utils.py
index 1470bed..8e6a55e 100644
--- a/src/wax/flax/core/state_utils.py
+++ b/src/wax/flax/core/state_utils.py
@@ -40,12 +40,9 @@ def apply_with_state(
         ``FrozenDict`` or a plain ``dict`` depending on the Flax version --
         or the ``variables`` passed in when nothing is mutable.
     """
-    # Determine which collections are mutable
-    mutable_collections = []
-    if "state" in variables:
-        mutable_collections.append("state")
-    if "cache" in variables:
-        mutable_collections.append("cache")
+    # Everything but the parameters is mutable: modules keep their state in
+    # collections of various names
+    mutable_collections = [name for name in variables if name != "params"]
 
     if mutable_collections:
         output, new_variables = module.apply(
-- 
2.43.0


From 9fa2d50101a9fe9cf1ebf1d92c2b03b62315cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:17 +0000
Subject: [PATCH 84/90] fix: the numba exponential mean leaves the saved state
 it is given alone

---
 src/wax/numba/ewma_numba.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 4bdca13..add6aad 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -115,9 +115,10 @@ def ewma(
 
         if state is None:
             state = init_ewma_state(values)
-        mean = state.mean
-        old_wt = state.old_wt
-        nobs = state.nobs
+        # the state is updated in place: work on copies, it belongs to the caller
+        mean = np.array(state.mean)
+        old_wt = np.array(state.old_wt)
+        nobs = np.array(state.nobs)
 
         res, mean, old_wt, nobs = numba_apply(values, mean, old_wt, nobs)
         state = EWMAState(mean, old_wt, nobs)
-- 
2.43.0


From 9134282cfa9b62a88ce0ff821e8cb41e33a36897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:17 +0000
Subject: [PATCH 85/90] fix: columns unknown to the saved state of the numba
 exponential mean start anew

---
 src/wax/numba/ewma_numba.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index add6aad..34d1cc2 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -218,11 +218,13 @@ class NumbaExponentialMovingWindow:
             return_state,
         ):
             if state is not None:
+                # columns that the state does not know yet start from the initial state
+                known = obj.columns.isin(state.index)
                 state = state.reindex(obj.columns)
                 state = EWMAState(
-                    mean=state["mean"].values,
-                    old_wt=state["old_wt"].values,
-                    nobs=state["nobs"].values,
+                    mean=np.where(known, state["mean"], initial_value),
+                    old_wt=np.where(known, state["old_wt"], 1.0),
+                    nobs=np.where(known, state["nobs"], 0).astype(np.int64),
                 )
 
             res, state = ewma(
-- 
2.43.0


From 734f5a138b7a744550a4696f90aa4943a5b20563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:17 +0000
Subject: [PATCH 86/90] fix: the numba exponential mean of integer values

---
 src/wax/numba/ewma_numba.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 34d1cc2..34c66e8 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -109,6 +109,9 @@ def ewma(
 
     def apply(values: np.ndarray, state: Optional[EWMAState] = None):
         is_1d = False
+        if not np.issubdtype(values.dtype, np.floating):
+            # means and missing values need a floating type
+            values = values.astype(np.float64)
         if values.ndim == 1:
             values = values.reshape(-1, 1)
             is_1d = True
-- 
2.43.0


From f0429d7fc374ef71547651a59c2ec1d2139c988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:55 +0000
Subject: [PATCH 87/90] fix: text monitoring may be stopped from within an
 update

---
 .../visualization/data_flow_visualizer.py     | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index d241cbc..116df55 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -557,6 +557,11 @@ class DataFlowVisualizer:
     def stop_real_time_monitoring(self) -> None:
         """Stop real-time data flow monitoring."""
         self._stop_matplotlib_animation()
+        if self._monitor_thread is threading.current_thread():
+            # Called from an update: the monitoring ends after it
+            self._monitor_stop.set()
+            return
+
         with self._monitor_lock:
             if self._monitor_thread is not None:
                 self._monitor_stop.set()
@@ -610,11 +615,19 @@ class DataFlowVisualizer:
 
         with self._monitor_lock:
             if self._monitor_thread is not None:
-                return
+                if not self._monitor_stop.is_set():
+                    return
+                # Stopped from an update
+                self._monitor_thread.join()
+                self._monitor_thread = None
             monitor_thread = threading.Thread(target=monitor_loop, daemon=True)
-            monitor_thread.start()
-            self._monitor_thread = monitor_thread
             self._monitor_stop = stop
+            self._monitor_thread = monitor_thread
+            try:
+                monitor_thread.start()
+            except BaseException:
+                self._monitor_thread = None
+                raise
 
     def save_plot(self, output_path: str, format: str = "png") -> str:
         """Save the current plot to file.
-- 
2.43.0


From b2f447b0f80a0b039e66a2aa8dc00cf84e380f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:55 +0000
Subject: [PATCH 88/90] fix: the flow animation updates stages whose names
 contain ' Data'

---
 src/wax/flax/visualization/jupyter_viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/visualization/jupyter_viz.py b/src/wax/flax/visualization/jupyter_viz.py
index 4279748..1ae6378 100644
--- a/src/wax/flax/visualization/jupyter_viz.py
+++ b/src/wax/flax/visualization/jupyter_viz.py
@@ -605,7 +605,7 @@ class AnimatedPipelineFlow:
         # Update traces
         with self.animation_fig.batch_update():
             for _i, trace in enumerate(self.animation_fig.data):
-                module_name = trace.name.replace(" Data", "")
+                module_name = trace.name.removesuffix(" Data")
                 if module_name in module_data:
                     steps, values = zip(*module_data[module_name], strict=False)
                     trace.x = steps
-- 
2.43.0


From 7d64da4868b68983a82a23010b3804efc329caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:36 +0000
Subject: [PATCH 89/90] fix: names in nested graph pages cannot end the script
 element

---
 src/wax/flax/visualization/nested_graph_viz.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/visualization/nested_graph_viz.py b/src/wax/flax/visualization/nested_graph_viz.py
index a398985..54bbd1d 100644
--- a/src/wax/flax/visualization/nested_graph_viz.py
+++ b/src/wax/flax/visualization/nested_graph_viz.py
@@ -83,6 +83,11 @@ except ImportError:
 from .computation_graph import ComputationGraphRenderer, PipelineEdge, PipelineNode
 
 
+def _script_json(data: Any) -> str:
+    """JSON for a script element: no text in it may end the element."""
+    return json.dumps(data, indent=2).replace("<", "\\u003c")
+
+
 @dataclass
 class GraphHierarchy:
     """Represents hierarchical structure of computation graph."""
@@ -510,7 +515,7 @@ class CytoscapeNestedRenderer:
         const cy = cytoscape({{
             container: document.getElementById('{container_id}'),
 
-            elements: {json.dumps(cytoscape_data, indent=2)},
+            elements: {_script_json(cytoscape_data)},
 
             style: [
                 {{
@@ -763,7 +768,7 @@ class D3NestedRenderer:
     <div id="{container_id}"></div>
 
     <script>
-        const data = {json.dumps(d3_data, indent=2)};
+        const data = {_script_json(d3_data)};
 
         const width = 800;
         const height = 600;
-- 
2.43.0


From 3743b9c85b152d2fd8499649162871086b4dc343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:00 +0000
Subject: [PATCH 90/90] fix: nested graphs keep modules named like the function
 or a cluster

---
 src/wax/flax/visualization/computation_graph.py | 11 ++++++++---
 src/wax/flax/visualization/nested_graph_viz.py  |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/visualization/computation_graph.py b/src/wax/flax/visualization/computation_graph.py
index 4ee2620..f3c51dc 100644
--- a/src/wax/flax/visualization/computation_graph.py
+++ b/src/wax/flax/visualization/computation_graph.py
@@ -222,15 +222,20 @@ class ComputationGraphRenderer:
             if "params" in variables and variables["params"]:
                 self._extract_modules_from_params(variables["params"])
 
-            # Create main function node
+            # Create main function node, whose name a module may have
+            main_id = "main"
+            while (
+                main_id in self.nodes and self.nodes[main_id].module_type != "StreamingFunction"
+            ):
+                main_id += "_"
             main_node = PipelineNode(
-                id="main",
+                id=main_id,
                 name=getattr(streaming_fn, "__name__", "streaming_function"),
                 module_type="StreamingFunction",
                 input_shapes={"input": self._get_shape(input_example)},
                 parameters=self._simplify_params(variables.get("params", {})),
             )
-            self.nodes["main"] = main_node
+            self.nodes[main_id] = main_node
 
         except Exception as e:
             warnings.warn(f"Error analyzing Flax function: {e}", stacklevel=2)
diff --git a/src/wax/flax/visualization/nested_graph_viz.py b/src/wax/flax/visualization/nested_graph_viz.py
index 54bbd1d..3bdab3b 100644
--- a/src/wax/flax/visualization/nested_graph_viz.py
+++ b/src/wax/flax/visualization/nested_graph_viz.py
@@ -276,6 +276,8 @@ class HierarchicalGraphAnalyzer:
         for node_type, node_ids in type_groups.items():
             if len(node_ids) >= self.config.cluster_min_nodes:
                 cluster_name = f"cluster_{node_type}_{cluster_id}"
+                while cluster_name in self.hierarchy:
+                    cluster_name += "_"
 
                 # Create cluster node
                 cluster_node = GraphHierarchy(
-- 
2.43.0

