From 919b9fd0c81587ff902f90acd6fbfd65d83f8614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 01/82] fix: index snapshots relative to their data set in the
 1-stage reader

A request that starts after the first data set (as the streaming SPOD makes)
read the wrong snapshot of a later data set, or nothing.
---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 0138429..8ceb1f8 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -97,7 +97,7 @@ class reader_1stage():
                     data_idx[-1] = 0
 
                 d_idx = [np.s_[:]]*len(d.shape)
-                d_idx[0] = np.s_[read_js-cum_read:read_je-cum_read]
+                d_idx[0] = np.s_[read_js-file_ts_start:read_je-file_ts_start]
                 data[tuple(data_idx)] = d[tuple(d_idx)]
 
                 cum_read += read_je-read_js
-- 
2.43.0


From 42f3aa387dc6f1a5c32c1fb44dc9456f0bc2d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 02/82] fix: keep the imaginary part of complex data sets

The 1-stage reader cast complex records to a real array (dropping the
imaginary part) and judged real/complex on the first snapshot only; the
longtime mean was accumulated in a real array.
---
 pyspod/spod/base.py    |  6 ++++--
 pyspod/utils/reader.py | 11 ++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 6ccf2fa..2c89bc7 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -593,7 +593,8 @@ class Base():
             last_val = data[last_key]["v"]
 
             shape_sxv = last_val[0,...].size
-            t_sum = np.zeros(last_val[0,...].shape)
+            t_sum = np.zeros(last_val[0,...].shape,
+                dtype=np.result_type(last_val.dtype, float))
 
             for k,v in data.items():
                 val = v["v"]
@@ -602,7 +603,8 @@ class Base():
             split_block = self.nt // self._n_blocks
             split_res = self.nt % self._n_blocks
             shape_sxv = data[0,...].size
-            t_sum = np.zeros(data[0,...].shape)
+            t_sum = np.zeros(data[0,...].shape,
+                dtype=np.result_type(data.dtype, float))
             for i_blk in range(0, self._n_blocks):
                 lb = i_blk * split_block
                 ub = lb + split_block
diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 8ceb1f8..d9b4377 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -57,7 +57,9 @@ class reader_1stage():
         self._shape = x_tmp.shape
         self._xdim = x_tmp[0,...,0].ndim
         self._xshape = x_tmp[0,...,0].shape
-        self._is_real = np.isreal(x_tmp).all()
+        self._is_real = all(
+            np.isreal(np.asarray(d)).all() for d in data_list
+            if np.iscomplexobj(d))
         self._max_axis = np.argmax(self._shape[1:])
         del x_tmp
         del data
@@ -89,7 +91,9 @@ class reader_1stage():
                     shape = (te-ts,) + d.shape[1:]
                     if len(shape) < len(self.shape):
                         shape = (te-ts,) + d.shape[1:] + (1,)
-                    data = np.zeros(shape, dtype=self._dtype)
+                    dtype = self._dtype if self._is_real else \
+                        np.result_type(self._dtype, np.complex64)
+                    data = np.zeros(shape, dtype=dtype)
 
                 data_idx = [np.s_[:]]*len(self.shape)
                 data_idx[0] = np.s_[cum_read:cum_read+read_je-read_js]
@@ -98,7 +102,8 @@ class reader_1stage():
 
                 d_idx = [np.s_[:]]*len(d.shape)
                 d_idx[0] = np.s_[read_js-file_ts_start:read_je-file_ts_start]
-                data[tuple(data_idx)] = d[tuple(d_idx)]
+                vals = d[tuple(d_idx)]
+                data[tuple(data_idx)] = vals.real if self._is_real else vals
 
                 cum_read += read_je-read_js
             tmp_nt += d.shape[0]
-- 
2.43.0


From 526300f5584157e3b8a2063d59ddefcbbdc0ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 03/82] fix: do not normalise the caller's weights in place

define_weights aliased the user's array, which normalize_weights then divided
by the variance in place: a second fit normalised twice.
---
 pyspod/pod/base.py  | 3 ++-
 pyspod/spod/base.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 4438624..568867d 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -319,7 +319,8 @@ class Base():
         '''Define and check weights.'''
         self._pr0('- checking weight dimensions')
         if isinstance(self._weights_tmp, dict):
-            self._weights = self._weights_tmp['weights']
+            self._weights = np.array(
+                self._weights_tmp['weights'], dtype=float)
             self._weights_name = self._weights_tmp['weights_name']
             if np.size(self._weights) != int(self.nx * self.nv):
                 raise ValueError(
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 2c89bc7..c6e3333 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -555,7 +555,8 @@ class Base():
         '''Define and check weights.'''
         self._pr0('- checking weight dimensions')
         if isinstance(self._weights_tmp, dict):
-            self._weights = self._weights_tmp['weights']
+            self._weights = np.array(
+                self._weights_tmp['weights'], dtype=float)
             self._weights_name = self._weights_tmp['weights_name']
             if np.size(self._weights) != int(self.nx * self.nv):
                 raise ValueError(
-- 
2.43.0


From 4041c5356d0a44d9f82a5a0c6aa2b02be753a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 04/82] fix: store the lower confidence bound as lower and the
 upper as upper

---
 pyspod/spod/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index c6e3333..3f45576 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -693,8 +693,8 @@ class Base():
             with open(path_params, 'w') as f: yaml.dump(self._params, f)
             ## save eigs and freq
             if hasattr(self, '_eigs_c'):
-                self._eigs_c_u = self._eigs_c[:,:,0]
-                self._eigs_c_l = self._eigs_c[:,:,1]
+                self._eigs_c_l = self._eigs_c[:,:,0]
+                self._eigs_c_u = self._eigs_c[:,:,1]
                 np.savez(path_eigs, eigs=self._eigs,
                     eigs_c_u=self._eigs_c_u, eigs_c_l=self._eigs_c_l,
                     freq=self._freq)
-- 
2.43.0


From 33c69923d31a828f804bd52b575525e71ccbea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 05/82] fix: return the index of the nearest coordinate along
 its own axis

---
 pyspod/utils/postproc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index b072ade..5e9d5e4 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -76,12 +76,11 @@ def find_nearest_coords(coords, x, data_space_dim):
     idx = tuple()
     xi  = tuple()
     for i, coord in enumerate(coords):
-        cnt = len(grid[i,::].shape) - i - 1
         tmp = np.abs(grid[i,::] - coord)
         tmp_idx = np.unravel_index(np.argmin(tmp), tmp.shape)
         tuple_idx = (i,) + tmp_idx
         xi += (grid[tuple_idx],)
-        idx += (tmp_idx[cnt],)
+        idx += (tmp_idx[i],)
     return xi, idx
 
 
-- 
2.43.0


From 12cdc5cc25a1c8dbad2e7f3e17ef93733ffe2b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 06/82] fix: operator precedence in the default count of
 npy_load

---
 pyspod/utils/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 229686c..bd86acc 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -285,7 +285,7 @@ def npy_load(comm, filename, axis=0, count=None):
             count = sizes[axis]
             size = comm.Get_size()
             rank = comm.Get_rank()
-            count = count // size + count % size > rank
+            count = count // size + (count % size > rank)
         count = np.array(count, dtype=np.int64)
         displ = np.empty_like(count)
         comm.Scan(count, displ, op=MPI.SUM)
-- 
2.43.0


From a46eeeb48c9d13f3495156a83e28ce727c91ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 07/82] fix: read_data of a .npy file called an undefined
 function

---
 pyspod/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 11afbb6..3b4eeb9 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -27,7 +27,7 @@ def read_data(data_file, format=None, comm=None):
         if comm.rank == 0: print(f'reading data with format: {format}')
     format = format.lower()
     if format == '.npy' or format == 'npy':
-        d = npy_load(data_file)
+        d = np.load(data_file)
     elif format == '.nc' or format == 'nc':
         d = xr.open_dataset(data_file)
     elif format == '.mat' or format == 'mat':
-- 
2.43.0


From a7f5137a5d7e5a2a87eb0afcf41a984a15c576b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 08/82] fix: error norms that cancelled or changed sign

The h1 error squared the sum of the differences instead of summing their
squares; relative errors were negative for a negative reference.
---
 pyspod/utils/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index dbd952a..672c9d1 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -17,7 +17,7 @@ def compute_l_errors(data, data_ref, norm_type='l2'):
     n = data.size
     e = np.abs(data - data_ref)
     ef = e.flatten('C')
-    e_rel = ef / data_ref.flatten('C')
+    e_rel = ef / np.abs(data_ref.flatten('C'))
     if   norm_type == 'l1'  : error_norm = np.linalg.norm(ef, 1) / n
     elif norm_type == 'l2'  : error_norm = np.linalg.norm(ef) / n
     elif norm_type == 'linf': error_norm = np.amax(ef)
@@ -51,7 +51,7 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
             else:
                 uprime = (data[i,...] - data[i-1,...]) / dt
                 utrueprime = (data_ref[i,...] - data_ref[i-1,...]) / dt
-            err_h1 = err_h1 + (dt * (np.sum(uprime - utrueprime)**2))
+            err_h1 = err_h1 + (dt * np.sum(np.abs(uprime - utrueprime)**2))
         error_norm = np.sqrt(err_h1)
 
     else:
-- 
2.43.0


From 67b65d11566d222c4cb80886b37912509e162d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 09/82] fix: POD rejected data with an explicit variable axis

---
 pyspod/pod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 568867d..585b765 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -232,7 +232,7 @@ class Base():
         self._xshape = x_tmp[0,...,0].shape
         self._nt = 0
         for d in data_list:
-            assert d[0,...].shape == self._xshape
+            assert d[0,...].shape == data_list[0][0,...].shape
             self._nt += d.shape[0]
 
         # # Determine whether data is real-valued or complex-valued-valued
-- 
2.43.0


From 0b9d66caea371afe733ca07ecdd02cf32b4e02be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 10/82] fix: POD with more modes requested (or the default)
 than snapshots

---
 pyspod/pod/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 585b765..4b42fd6 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -296,6 +296,10 @@ class Base():
         ## set dtype for weights
         self._weights = self._set_dtype(self._weights)
 
+        # set number of modes to save
+        if self._n_modes_save > self._nt:
+            self._n_modes_save = self._nt
+
         # create folder to save results
         self._savedir_sim = os.path.join(
             self._savedir, 'modes'+str(self._n_modes_save))
-- 
2.43.0


From 3b97770aaa7657285e009a03b7ff213427b5d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 11/82] fix: order POD eigenvalues and keep modes finite

scipy.linalg.eig returns eigenvalues in no particular order and complex, so
truncation could keep the wrong modes; energy-free modes were divided by zero.
---
 pyspod/pod/standard.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/standard.py b/pyspod/pod/standard.py
index e37b1dd..a5e6c74 100644
--- a/pyspod/pod/standard.py
+++ b/pyspod/pod/standard.py
@@ -49,13 +49,18 @@ class Standard(Base):
         ## eigendecomposition
         Q = d.conj().T @ (d * self._weights)
         Q = utils_par.allreduce(Q, comm=self._comm)
-        w, v = scipy.linalg.eig(Q)
+        w, v = scipy.linalg.eigh(Q)
+        w, v = w[::-1], v[:,::-1]
+        w = np.maximum(w, 0)
 
         # bases
         self._pr0(f' ')
         self._pr0(f'Calculating standard POD ...')
         st = time.time()
-        phi = np.real(d @ v) / np.sqrt(w[:])
+        ## (a mode without energy is stored as zero)
+        null = w <= w[0] * w.size * np.finfo(w.dtype).eps
+        phi = np.real(d @ v) / np.sqrt(np.where(null, 1, w))
+        phi[:,null] = 0
 
         # truncation and save
         phi_r = phi[:,0:self._n_modes_save]
-- 
2.43.0


From 81e122ee9e9f8495fa49cbfdcdd1b9f900d106c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 12/82] fix: batch SPOD on a rank that owns a single grid point

---
 pyspod/spod/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index c11a980..856af5e 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -195,7 +195,7 @@ class Standard(Base):
         st = time.time()
         M = [None]*self._n_freq
         for f in range(0,self._n_freq):
-            Q_hat_f = np.squeeze(Q_hats[f])
+            Q_hat_f = Q_hats[f]
             M[f] = Q_hat_f.conj().T @ (Q_hat_f * self._weights) / self._n_blocks
         del Q_hat_f
         M = np.stack(M)
-- 
2.43.0


From 1937e3f61b6abc6ba35444fdee311d74ac21abe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 13/82] fix: save and reuse FFT blocks with several variables
 or without savefft

Blocks were shaped like space alone, so savefft failed for more than one
variable or flattened readers; reuse_blocks without savefft used an
undefined folder.
---
 pyspod/spod/base.py     |  2 +-
 pyspod/spod/standard.py | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 3f45576..8baf77f 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -529,8 +529,8 @@ class Base():
                 os.makedirs(self._modes_dir)
 
         ## create folder to save fft blocks
+        self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
         if self._savefft:
-            self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
             if self._rank == 0:
                 if not os.path.exists(self._blocks_folder):
                     os.makedirs(self._blocks_folder)
diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 856af5e..53f4ade 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -63,7 +63,9 @@ class Standard(Base):
         if blocks_present:
             # load blocks if present
             Q_hats = {}
-            size_qhat = [*self._xshape, self._n_blocks]
+            size_blk = [*self._xshape, self._nv]
+            if self._reader._flattened: size_blk = [self._nx, self._nv]
+            size_qhat = [*size_blk, self._n_blocks]
             for f in range(self._n_freq):
                 Q_hats[f] = np.empty(size_qhat, dtype=self._complex)
 
@@ -72,7 +74,8 @@ class Standard(Base):
                 for i_freq in range(0, self._n_freq):
                     file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                     path = os.path.join(self._blocks_folder, file)
-                    Q_hats[i_freq][...,i_blk] = np.load(path)
+                    Q_hats[i_freq][...,i_blk] = \
+                        np.load(path).reshape(size_blk)
             for f in range(self._n_freq):
                 Q_hats[f] = utils_par.distribute_dimension(
                     data=Q_hats[f], max_axis=self._max_axis, comm=self._comm)
@@ -107,8 +110,11 @@ class Standard(Base):
                         Q_blk_hat_fr = Q_blk_hat[i_freq,:]
                         file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                         path = os.path.join(self._blocks_folder, file)
-                        shape = [*self._xshape]
-                        if self._comm: shape[self._max_axis] = -1
+                        if self._reader._flattened:
+                            shape = [self._local_shape, self._nv]
+                        else:
+                            shape = [*self._xshape, self._nv]
+                            if self._comm: shape[self._max_axis] = -1
                         Q_blk_hat_fr.shape = shape
                         utils_par.npy_save(
                             self._comm, path, Q_blk_hat_fr,
-- 
2.43.0


From a6e8ee1963259d0f40c2a46188ccf941d9fe9a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 14/82] fix: np.product is gone from numpy 2 (MATLAB reader)

---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index d9b4377..7829342 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -527,7 +527,7 @@ class reader_mat():
 
         self._nchunks = comm.bcast(nchunks, root=0)
 
-        self._nx = np.product(self._shape[1:-1])
+        self._nx = np.prod(self._shape[1:-1])
         self._dim = len(self._shape)
         self._xdim = self._dim-2
         self._xshape = self._shape[1:-1]
-- 
2.43.0


From 48fc88d883cc1f33b107a7d23ea2cedb5ded1559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 15/82] fix: select snapshots by position in the 2-stage reader

Selection by time value was wrong for files without a time coordinate (one
snapshot too few) or with repeated time values (too many).
---
 pyspod/utils/reader.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 7829342..bdbc250 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -275,10 +275,8 @@ class reader_2stage():
             if read_cnt > 0:
                 with xr.open_dataset(k, cache=False, decode_times=False) as d:
                     first_var = list(d[self._variables[0]].dims)[0]
-                    time_from = d[first_var].values[read_js-cum_t]
-                    time_to = d[first_var].values[read_je-cum_t-1] # .sel uses inclusive indexing on both ends!
 
-                    with d.sel({first_var: slice(time_from,time_to)},drop=True) as dvars:
+                    with d.isel({first_var: slice(read_js-cum_t,read_je-cum_t)},drop=True) as dvars:
                         for idx, var in enumerate(self._variables):
                             vals = dvars[var].values
                             input_data[cum_read:cum_read+read_cnt,:,idx] = vals.reshape(vals.shape[0],-1)#.copy()
-- 
2.43.0


From 4bfdfa570918a90af25798d0f41c0cefd27a8302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 16/82] fix: collective variance with empty ranks and complex
 data

A rank without points contributed NaN to everybody's variance; complex data
gave a complex value that is not the variance.
---
 pyspod/utils/parallel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index bd86acc..bd93454 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -29,17 +29,18 @@ def pvar(data, comm):
     Parallel computation of mean and variance.
     """
     n = np.size(data)
-    m = np.mean(data)
-    d = data - m
+    m = np.mean(data) if n > 0 else 0.
+    d = np.abs(data - m)
     d *= d
-    v = np.sum(d)/n
+    v = np.sum(d)/n if n > 0 else 0.
 
     def op_stat(a, b):
         na, ma, va = a
         nb, mb, vb = b
         n = na + nb
+        if n == 0: return ((0, 0., 0.))
         m = (na*ma + nb*mb)/n
-        v = (na*va + nb*vb + na*nb*(ma-mb)**2/n)/n
+        v = (na*va + nb*vb + na*nb*np.abs(ma-mb)**2/n)/n
         return ((n, m, v))
 
     (n, m, v) = comm.allreduce((n, m, v), op=op_stat)
-- 
2.43.0


From 13c35bb716054da620497c1e472faeb33edd37f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 17/82] fix: convert, not reinterpret, arrays of the other byte
 order

npy_save and allreduce viewed non-native data as native, scrambling values.
---
 pyspod/utils/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index bd93454..c0e9b57 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -162,7 +162,7 @@ def _blockdist(N, size, rank):
 def allreduce(data, comm):
     if comm is not None:
         MPI = _get_module_MPI(comm)
-        data = data.view(data.dtype.newbyteorder('='))
+        data = data.astype(data.dtype.newbyteorder('='), copy=False)
         data_reduced = np.zeros_like(data)
         comm.Barrier()
         comm.Allreduce(data, data_reduced, op=MPI.SUM)
@@ -188,8 +188,8 @@ def npy_save(comm, filename, array, axis=0):
     if comm is not None:
         MPI = _get_module_MPI(comm)
         dtlib = _get_module_dtlib(comm)
-        array = array.view(array.dtype.newbyteorder('='))
         array = np.asarray(array)
+        array = array.astype(array.dtype.newbyteorder('='), copy=False)
         dtype = array.dtype
         shape = array.shape
         lcount = np.array(shape[axis], dtype=np.int64)
-- 
2.43.0


From 25a8658ae7ca3d0e8147439986b82e7c666623c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 18/82] fix: reading modes must not change directory or write
 to the results

get_all_modes left the process in the modes folder (a second relative call
failed); modes were mapped read-write, so changing a returned array silently
changed the stored results.
---
 pyspod/utils/postproc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 5e9d5e4..9ae9984 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -132,9 +132,8 @@ def get_all_modes(results_path):
     if isinstance(results_path, str):
         import glob, os
         modes_path = os.path.join(results_path, 'modes')
-        os.chdir(modes_path)
         flist = []
-        for filename in glob.glob("*.npy"):
+        for filename in glob.glob(os.path.join(modes_path, "*.npy")):
             flist.append(filename)
         flist.sort()
         m = [None] * len(flist)
@@ -159,7 +158,7 @@ def get_data_from_file(filename):
 
     if ext.lower() == '.npy':
         # m = np.load(filename)
-        m = np.lib.format.open_memmap(filename)
+        m = np.lib.format.open_memmap(filename, mode='c')
         # mode='r+', dtype=None, shape=None, fortran_order=False, version=None)
     # elif ext.lower() == '.mat':
     #     pass
-- 
2.43.0


From 784d2bd4c5afa9219a1664b067bb62ed9b5fb64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 19/82] fix: modes of an earlier fit survived in the results
 folder

A fit into a used folder left modes of frequencies or storage formats it does
not write itself, and they were read back as its own.
---
 pyspod/spod/base.py      | 4 ++++
 pyspod/utils/postproc.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 8baf77f..196490d 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -527,6 +527,10 @@ class Base():
         if self._rank == 0:
             if not os.path.exists(self._modes_dir):
                 os.makedirs(self._modes_dir)
+            ## modes of an earlier fit would be read as this one's
+            for f in os.listdir(self._modes_dir):
+                if f.startswith('freq_idx_') and f.endswith('.npy'):
+                    os.remove(os.path.join(self._modes_dir, f))
 
         ## create folder to save fft blocks
         self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 9ae9984..f6a23a7 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -117,6 +117,9 @@ def get_modes_at_freq(results_path, freq_idx):
                 if idx == 0:
                     m = np.zeros((mode.shape)+(nmodes,), dtype=mode.dtype)
                 m[...,idx] = mode
+        else:
+            raise FileNotFoundError(
+                f'no modes for frequency {freq_idx} in {results_path}')
     return m
 
 
-- 
2.43.0


From b3d56ca73b717a311902b6d971e1164984d13de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 20/82] fix: do not write derived values into the caller's
 parameters

A fit stored its clipped n_modes_save in the dictionary passed by the user,
limiting later analyses that use the same dictionary.
---
 pyspod/pod/base.py  | 2 +-
 pyspod/spod/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 4b42fd6..c946f80 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -46,7 +46,7 @@ class Base():
         params['savedir'] = self._savedir
 
         ## parse other inputs
-        self._params = params
+        self._params = dict(params)
         self._weights_tmp = weights
         self._comm = comm
         if self._dtype == 'double':
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 196490d..afed72b 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -83,7 +83,7 @@ class Base():
         params['savedir'] = self._savedir
 
         ## parse other inputs
-        self._params = params
+        self._params = dict(params)
         self._weights_tmp = weights
         self._comm = comm
         if self._dtype == 'double':
-- 
2.43.0


From a81ea73e927b0e657ba7162699f7274f1057dcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 21/82] fix: coefficients of an explicit list of frequencies

freq_idx without periods divided by None, and the number of frequencies was
taken from the period band instead of the list.
---
 pyspod/spod/utils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 073f7a1..6887437 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -118,7 +118,10 @@ def compute_coeffs_op(
     weights = _set_dtype(weights, dtype)
 
     ## initialize frequencies
-    if ((T_lb is None) or (T_ub is None)) and (freq_idx is None):
+    if freq_idx is not None:
+        f_idx_lb, f_idx_ub = min(freq_idx), max(freq_idx)
+        f_lb, f_ub = freq[f_idx_lb], freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
         f_idx_lb = 0
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
@@ -126,9 +129,9 @@ def compute_coeffs_op(
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
-    n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -277,7 +280,10 @@ def compute_coeffs_conv(
     window = window.reshape(window.shape[0], 1)
 
     ## initialize frequencies
-    if ((T_lb is None) or (T_ub is None)) and (freq_idx is None):
+    if freq_idx is not None:
+        f_idx_lb, f_idx_ub = min(freq_idx), max(freq_idx)
+        f_lb, f_ub = freq[f_idx_lb], freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
         f_idx_lb = 0
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
@@ -285,9 +291,9 @@ def compute_coeffs_conv(
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
-    n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
-- 
2.43.0


From 46bb6016b93c45cc6cb8c253037cca76c92928e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 22/82] fix: convolution coefficients in parallel and for a
 band of frequencies

Rank 0 saved only its own partial sums, the saved modes were reshaped instead
of transposed, and a band that does not start at zero indexed out of step.
---
 pyspod/spod/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 6887437..85b7f7a 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -325,12 +325,12 @@ def compute_coeffs_conv(
     ## get modes
     # phir = _get_modes(results_dir, n_freq_r,
     #     freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
-    phir = np.empty([n_freq, xsize, n_modes_save], dtype=dt_complex)
-    for i_freq in freq_idx:
+    phir = np.empty([n_freq_r, xsize, n_modes_save], dtype=dt_complex)
+    for cnt_freq, i_freq in enumerate(freq_idx):
         phi = post.get_modes_at_freq(results_dir, freq_idx=i_freq)
         phi = utils_par.distribute_dimension(phi, max_axis, comm)
         phi = np.reshape(phi,[xsize,n_modes_save])
-        phir[i_freq,...] = phi
+        phir[cnt_freq,...] = phi
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -384,8 +384,8 @@ def compute_coeffs_conv(
         #         print(f'{Q_blk.shape = :}')
 
         ## loop over freqs and modes
-        p_tmp = np.squeeze(phir).conj().T
-        x_tmp = (Q_blk * np.squeeze(weights))
+        p_tmp = phir.conj().T
+        x_tmp = (Q_blk * weights[:,0])
         # p_tmp = p_tmp[None,...]
         # x_tmp = x_tmp[...]
         # print(f'{coeffs.shape = :}')
@@ -394,6 +394,7 @@ def compute_coeffs_conv(
         # print(f'{phir.shape = :}')
         # print(f'{Q_blk.shape = :}')
         coeffs[:,i,:] = corr * np.einsum('ij,kji->ik', x_tmp, p_tmp)
+    coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- calculation expansion coeffs done: '
                   f'{time.time() - st} s.', comm)
     st = time.time()
@@ -410,7 +411,7 @@ def compute_coeffs_conv(
     if comm:
         shape_phir[max_axis] = -1
         shape_lt_mean[max_axis] = -1
-    phir.shape = shape_tmp
+    phir = np.moveaxis(phir, 0, 1).reshape(shape_tmp)
     lt_mean.shape = xshape_nv
     utils_par.npy_save(comm, file_phir, phir, axis=max_axis)
     utils_par.npy_save(comm, file_lt_mean, lt_mean, axis=max_axis)
-- 
2.43.0


From 0adf001d476f17811e71515ce8186eaee3077fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 23/82] fix: the default reconstruction times are first, middle
 and last

---
 pyspod/pod/utils.py  | 2 +-
 pyspod/spod/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index e6614e7..4eec49d 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -172,7 +172,7 @@ def compute_reconstruction(
     # get time snapshots to be reconstructed
     nt = coeffs.shape[1]
     if time_idx is None:
-        time_idx = [0,nt%2,nt-1]
+        time_idx = [0,nt//2,nt-1]
     elif isinstance(time_idx, str):
         if time_idx.lower() == 'all': time_idx = np.arange(0, nt)
         elif time_idx.lower() == 'half': time_idx = np.arange(0, nt, 2)
diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 85b7f7a..0c7ad6c 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -498,7 +498,7 @@ def compute_reconstruction(
     # get time snapshots to be reconstructed
     nt = coeffs.shape[1]
     if time_idx is None:
-        time_idx = [0,nt%2,nt-1]
+        time_idx = [0,nt//2,nt-1]
     elif isinstance(time_idx, str):
         if   time_idx.lower() == 'all'      : time_idx = np.arange(0, nt)
         elif time_idx.lower() == 'half'     : time_idx = np.arange(0, nt, 2)
-- 
2.43.0


From d2e3a061fd5aa7f887c99616297cc8dc73b625a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 24/82] fix: streaming SPOD with one mode or a single grid
 point per rank

---
 pyspod/spod/streaming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 9fd9e8f..11c14e0 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -160,10 +160,10 @@ class Streaming(Base):
                         x = x_hat[:,[i_freq]] * sqrt_w[:]
 
                         ## old basis
-                        U = np.squeeze(u_hat[:,i_freq,:])
+                        U = u_hat[:,i_freq,:]
 
                         ## old singular values
-                        S = np.diag(np.squeeze(self._eigs[:,i_freq]))
+                        S = np.diag(self._eigs[:,i_freq])
 
                         ## product U^H*x needed in eqns. (27,32)
                         Ux = np.matmul(U.conj().T, x)
-- 
2.43.0


From 53f9f2f50e8cadcf2c073885d2bdd43924a89e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 25/82] fix: streaming SPOD stored a fraction of the first
 snapshot as time mean

---
 pyspod/spod/streaming.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 11c14e0..df1cae4 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -251,6 +251,9 @@ class Streaming(Base):
         ## transpose eigs
         self._eigs = self._eigs.T
 
+        ## longtime mean of all snapshots seen
+        self._lt_mean = self._set_dtype(mu.real if self._isrealx else mu)
+
         # store and save results
         self._store_and_save()
         self._pr0(f'------------------------------------')
-- 
2.43.0


From 347e64e19ece863be44544c6125e960768a6ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 26/82] fix: block variance of complex data

---
 pyspod/spod/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 53f4ade..811adca 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -179,7 +179,7 @@ class Standard(Base):
         # normalize by pointwise variance
         if self._normalize_data:
             den = self._n_dft - 1
-            Q_var = np.sum((Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
+            Q_var = np.sum(np.abs(Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
             # address division-by-0 problem with NaNs
             Q_var[Q_var < 4 * np.finfo(float).eps] = 1
             Q_blk /= Q_var
-- 
2.43.0


From 86d09b31a1706a9d758cf44c6d35b6ca56e1f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 27/82] fix: scaling of rows that are zero or purely real gave
 NaN

---
 pyspod/emulation/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyspod/emulation/base.py b/pyspod/emulation/base.py
index 2ee8c22..a48a82e 100644
--- a/pyspod/emulation/base.py
+++ b/pyspod/emulation/base.py
@@ -47,7 +47,7 @@ class Base():
             else:
                 for i in range (data.shape[0]):
                     vec[i] = 1.0
-        elif self._data_type == 'complex':
+        elif self._data_type.lower() == 'complex':
             vec = np.zeros(data.shape[0], dtype=complex)
             if self._normalization.lower() == 'localmax':
                 max_re = np.amax(data[:,:].real,axis=1) * 10
@@ -83,13 +83,16 @@ class Base():
             print('No normalization performed')
             return
         data_out = np.zeros_like(data)
+        ## a zero scale belongs to data that are zero
+        vec_re = np.where(vec.real == 0, 1, vec.real)
+        vec_im = np.where(vec.imag == 0, 1, vec.imag)
         if self._data_type.lower() == 'real':
             for j in range(data.shape[1]):
-                data_out[:,j]= data[:,j] / vec.real
+                data_out[:,j]= data[:,j] / vec_re
         elif self._data_type.lower() == 'complex':
             for j in range(data.shape[1]):
-                data_out.real[:,j] = data[:,j].real / vec.real
-                data_out.imag[:,j] = data[:,j].imag / vec.imag
+                data_out.real[:,j] = data[:,j].real / vec_re
+                data_out.imag[:,j] = data[:,j].imag / vec_im
         else:
             raise TypeError('You need to specify data_type; real or complex.')
         return data_out
-- 
2.43.0


From e6d31df7514310f76c41a50668e69c186c197fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 28/82] fix: inference over a length that is not a multiple of
 n_seq_out

---
 pyspod/emulation/neural_nets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyspod/emulation/neural_nets.py b/pyspod/emulation/neural_nets.py
index 84ca594..d62b590 100644
--- a/pyspod/emulation/neural_nets.py
+++ b/pyspod/emulation/neural_nets.py
@@ -155,7 +155,7 @@ class Neural_Nets(Base):
         nt = data_in.shape[1]
         # check the size of the input array
         if nt < n_seq_in:
-            raise ValueError(network.lower(), 'data input error.')
+            raise ValueError(self._network.lower(), 'data input error.')
 
         # initialization of variables and vectors
         input_batch = np.zeros([1, n_seq_in, n_features])
@@ -197,8 +197,8 @@ class Neural_Nets(Base):
         coeffs[:,:n_seq_in] = data_in[:,:n_seq_in]
         for i in range(cnt):
             lb = (n_seq_out * i) + n_seq_in
-            ub =  n_seq_in + (n_seq_out * (i + 1))
-            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:,i,:])
+            ub =  min(n_seq_in + (n_seq_out * (i + 1)), nt)
+            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:ub-lb,i,:])
         return coeffs
 
 
-- 
2.43.0


From e2dfcfeb3c35e433bd06a3c1ac4c496c9b9d7b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 29/82] fix: check_orthogonality ignored the imaginary part of
 the product

---
 pyspod/spod/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 0c7ad6c..4301df7 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -69,9 +69,9 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     O = utils_par.allreduce(data=O, comm=comm)
     tol = 2e-6
     if mode_idx1 == mode_idx2:
-        ortho_check = ((O < 1+tol) and (O>1-tol))
+        ortho_check = np.abs(O - 1) < tol
     else:
-        ortho_check = ((O < 0+tol) and (O>0-tol))
+        ortho_check = np.abs(O) < tol
     utils_par.barrier(comm)
     return ortho_check, O
 
-- 
2.43.0


From efc0d3171c9abf522fac2abf0a1c4ec788a74baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 30/82] fix: integer netCDF and MATLAB data are real-valued

---
 pyspod/utils/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index bdbc250..9eba3b9 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -209,7 +209,7 @@ class reader_2stage():
                 shape = d.shape
                 self._file_time[f] = (nt, nt+shape[0])
                 nt += shape[0]
-                if d.dtype != 'float32' and d.dtype != 'float64':
+                if d.dtype.kind not in 'fiu':
                     self._is_real = False
                 d.close()
                 self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
@@ -504,7 +504,7 @@ class reader_mat():
             f = h5py.File(data_list[0], "r")
             group_key = list(f.keys())[0]
             data = f.get(group_key)
-            if data.dtype != 'float32' and data.dtype != 'float64':
+            if data.dtype.kind not in 'fiu':
                 self._is_real = False
 
             self._shape = (nt, data.shape[1], data.shape[2], data.shape[3], data.shape[0])
-- 
2.43.0


From 09ad74e670b80d2981bc0a8dc34af2b0048458e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 31/82] fix: normalize_weights with data read from files

---
 pyspod/spod/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index afed72b..5e43965 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -473,9 +473,13 @@ class Base():
         ## normalize weights if required
         if self._normalize_weights:
             self._pr0('- normalizing weights')
+            data = self.data
+            if isinstance(data, dict):
+                data = np.concatenate([v['v'] for v in data.values()])
             self._weights = utils_weights.apply_normalization(
-                data=self.data, weights=self._weights,
+                data=data, weights=self._weights,
                 n_vars=self._nv, comm=self._comm, method='variance')
+            del data
 
         ## flatten weights to number of space x variables points
         try:
-- 
2.43.0


From 333360647561d6ae13cae04d158a0e6d19c8beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 32/82] fix: sign of the first negative frequency for odd block
 lengths

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 5e43965..2731bf6 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -638,7 +638,7 @@ class Base():
                 if (self._n_dft % 2 == 0):
                     self._freq[self._n_dft//2+1:] = self._freq[self._n_dft//2+1:] - 1 / self._dt
                 else:
-                    self._freq[(self._n_dft+1)//2+1:] = self._freq[(self._n_dft+1)//2+1:] - 1 / self._dt
+                    self._freq[(self._n_dft+1)//2:] = self._freq[(self._n_dft+1)//2:] - 1 / self._dt
         self._n_freq = len(self._freq)
 
 
-- 
2.43.0


From ff16fa123708225c69c7ee5f4a29ac2d382233ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 33/82] fix: double the interior frequencies of one-sided
 spectra only

---
 pyspod/spod/standard.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 811adca..1b9a96d 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -359,8 +359,9 @@ class Standard(Base):
             self._pr0(f'- Modes computation {cum_cctime} s. Saving: {cum_sstime} s.')
 
         ## correct Fourier for one-sided spectrum
-        if self._isrealx:
-            L[1:-1,:] = 2 * L[1:-1,:]
+        if self._isrealx and not self._fullspectrum:
+            nyq = -1 if self._n_dft % 2 == 0 else None
+            L[1:nyq,:] = 2 * L[1:nyq,:]
 
         # get eigenvalues and confidence intervals
         self._eigs = np.abs(L)
-- 
2.43.0


From d9adb02670dd13f1e4bf76d96de589a17782120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 34/82] fix: streaming SPOD of data that lies in the basis
 already

---
 pyspod/spod/streaming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index df1cae4..4b2f96a 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -178,7 +178,7 @@ class Streaming(Base):
                         abs_up = np.sqrt(abs_up)
 
                         ## normalized orthogonal complement
-                        u_new = u_p / abs_up
+                        u_new = u_p / np.where(abs_up == 0, 1, abs_up)
                         del u_p
 
                         ## build K matrix and compute its SVD, eqn. (32)
-- 
2.43.0


From 5acd0bac1187ca5d47774df97e624d40656a7643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 35/82] fix: end of the stream on a rank with a single grid
 point

---
 pyspod/spod/streaming.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 4b2f96a..f211605 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -97,13 +97,12 @@ class Streaming(Base):
             ti = ti + 1
 
             ## get new snapshot and abort if data stream runs dry
+            if ti >= self._nt:
+                self._pr0(f'--> Data stream ended.')
+                break
             if ti > 0:
-                try:
-                    x_new = self._reader.get_data(ti)
-                    x_new = np.reshape(x_new,(flat_dim,1))
-                except:
-                    self._pr0(f'--> Data stream ended.')
-                    break
+                x_new = self._reader.get_data(ti)
+                x_new = np.reshape(x_new,(flat_dim,1))
 
             ## update sample mean
             mu_old = mu
-- 
2.43.0


From ce6300cb8eeebc3b01b8f2e609b44d89c26dacba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 36/82] fix: padded redistribution of large records in the
 2-stage and MATLAB readers

---
 pyspod/utils/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 9eba3b9..7b46254 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -299,7 +299,7 @@ class reader_2stage():
         use_padding = False if MPI.VERSION >= 4 or max_dist_time*mpi_size*max_dist_xyz*self._nv < np.iinfo(np.int32).max else True
 
         nreqs = 1024
-        recvcounts = np.zeros(mpi_size)
+        recvcounts = np.zeros(mpi_size, dtype=int)
         reqs = []
 
         # mpi4py with MPI >= 4 does not have the limitation of INT32_MAX elements
@@ -354,6 +354,7 @@ class reader_2stage():
 
             data_padded = np.zeros((te-ts,max_dist_xyz,self._nv),dtype=self._dtype)
             ftype = mpi_dtype.Create_contiguous(max_dist_xyz).Commit()
+            t_waitall = 0
 
             for irank in range(mpi_size):
                 s_msg = [s_msgs[irank], ftype]
@@ -592,7 +593,7 @@ class reader_mat():
         use_padding = False if MPI.VERSION >= 4 or max_dist_time*mpi_size*max_dist_xyz*self._nv < np.iinfo(np.int32).max else True
 
         nreqs = 1024
-        recvcounts = np.zeros(mpi_size)
+        recvcounts = np.zeros(mpi_size, dtype=int)
         reqs = []
 
         # mpi4py with MPI >= 4 does not have the limitation of INT32_MAX elements
@@ -647,6 +648,7 @@ class reader_mat():
 
             data_padded = np.zeros((te-ts,max_dist_xyz,self._nv),dtype=self._dtype)
             ftype = mpi_dtype.Create_contiguous(max_dist_xyz).Commit()
+            t_waitall = 0
 
             for irank in range(mpi_size):
                 s_msg = [s_msgs[irank], ftype]
-- 
2.43.0


From 5bbda8be5c4a99dc316bbf42156f1327f58b08a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 37/82] fix: refitting an object with a longer record is not
 limited to the number of modes of the shorter one

---
 pyspod/pod/base.py  | 6 +++---
 pyspod/spod/base.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index c946f80..9e0bcb3 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -39,7 +39,8 @@ class Base():
         self._mean_type = params.get('mean_type', 'longtime')
         self._normalize_data = params.get('normalize_data', False)
         self._normalize_weights = params.get('normalize_weights', False)
-        self._n_modes_save = params.get('n_modes_save', 1e10)
+        self._n_modes_save_max = params.get('n_modes_save', 1e10)
+        self._n_modes_save = self._n_modes_save_max
         self._dtype = params.get('dtype', 'double')
         self._savedir = params.get('savedir', os.path.join(CWD,'pod_results'))
         self._savedir = os.path.join(CWD, self._savedir)
@@ -297,8 +298,7 @@ class Base():
         self._weights = self._set_dtype(self._weights)
 
         # set number of modes to save
-        if self._n_modes_save > self._nt:
-            self._n_modes_save = self._nt
+        self._n_modes_save = min(self._n_modes_save_max, self._nt)
 
         # create folder to save results
         self._savedir_sim = os.path.join(
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 2731bf6..ce77484 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -74,7 +74,8 @@ class Base():
         # normalize data by variance if required
         self._normalize_data = params.get('normalize_data', False)
         # default is all (large number)
-        self._n_modes_save = params.get('n_modes_save', 1e10)
+        self._n_modes_save_max = params.get('n_modes_save', 1e10)
+        self._n_modes_save = self._n_modes_save_max
         # default datatype is double
         self._dtype = params.get('dtype', 'double')
         # where to save data
@@ -501,8 +502,7 @@ class Base():
         self._weights = self._set_dtype(self._weights)
 
         # set number of modes to save
-        if self._n_modes_save > self._n_blocks:
-            self._n_modes_save = self._n_blocks
+        self._n_modes_save = min(self._n_modes_save_max, self._n_blocks)
 
         # determine correction for FFT window gain
         self._win_weight = 1 / np.mean(self._window)
-- 
2.43.0


From 2b2abd0013d4f2908a3e1ee4cc2213342b8f0e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 38/82] fix: all ranks take the same decision on reusing FFT
 blocks

---
 pyspod/spod/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index ce77484..0d8c73f 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -858,7 +858,11 @@ class Base():
                 blk = (i_blk + 1) / n_blocks
                 utils_par.pr0(f'block {blk} present in: {savedir}', comm)
                 all_blocks_exist = all_blocks_exist + 1
-        if all_blocks_exist == n_blocks:
+        all_blocks_present = all_blocks_exist == n_blocks
+        ## one decision for all ranks (files may appear meanwhile)
+        if comm is not None:
+            all_blocks_present = comm.bcast(all_blocks_present, root=0)
+        if all_blocks_present:
             utils_par.pr0(f'all blocks present; loading from storage.', comm)
             return True
         else:
-- 
2.43.0


From 06c7389b31eae9d70e3000179d0e1a02026f8475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 39/82] fix: FFT blocks of an interrupted run are never taken
 for complete ones

---
 pyspod/spod/standard.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 1b9a96d..165f896 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -92,6 +92,14 @@ class Standard(Base):
             else:
                 xvsize = self.data[0,...].size
 
+            ## an interrupted save must not leave blocks of an earlier record
+            if self._savefft:
+                if self._rank == 0:
+                    for f in os.listdir(self._blocks_folder):
+                        if 'fft_block' in f:
+                            os.remove(os.path.join(self._blocks_folder, f))
+                utils_par.barrier(self._comm)
+
             Q_hats = {}
             for i_blk in range(0,self._n_blocks):
                 st = time.time()
@@ -116,9 +124,14 @@ class Standard(Base):
                             shape = [*self._xshape, self._nv]
                             if self._comm: shape[self._max_axis] = -1
                         Q_blk_hat_fr.shape = shape
+                        ## a file with its final name is complete
+                        path_tmp = os.path.join(
+                            self._blocks_folder, 'tmp_' + file)
                         utils_par.npy_save(
-                            self._comm, path, Q_blk_hat_fr,
+                            self._comm, path_tmp, Q_blk_hat_fr,
                             axis=self._max_axis)
+                        utils_par.barrier(self._comm)
+                        if self._rank == 0: os.replace(path_tmp, path)
 
                 # print info file
                 self._pr0(f'block {(i_blk+1)}/{(self._n_blocks)}'
-- 
2.43.0


From 57ae720910c0d27f2bc2f2b94e3aa57461ad4ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 40/82] fix: check_orthogonality with integer mode ids

---
 pyspod/spod/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 4301df7..d7c760a 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -58,8 +58,8 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     ## get modes
     phir = _get_modes(results_dir, n_freq,
         freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
-    phir1 = phir[:,mode_idx1]
-    phir2 = phir[:,mode_idx2]
+    phir1 = phir[:,np.atleast_1d(mode_idx1)]
+    phir2 = phir[:,np.atleast_1d(mode_idx2)]
     del phir
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
-- 
2.43.0


From d57dd049bcefa385be17d77b0b9b7bd68b177fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 41/82] fix: projection and orthogonality check after fits with
 flattened data

---
 pyspod/spod/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index d7c760a..8151cb6 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -50,6 +50,11 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     n_modes_save = params['n_modes_save']
     weights = _set_dtype(weights, dtype)
 
+    ## weights of a fit with flattened data have one spatial axis
+    modes = post.get_modes_at_freq(results_dir, freq_idx=freq_idx[0])
+    weights = np.reshape(weights, modes.shape[:-1])
+    del modes
+
     ## distribute weights and reshape
     weights, max_axis, _ = utils_par.distribute(data=weights, comm=comm)
     xsize = weights.size
@@ -139,6 +144,9 @@ def compute_coeffs_op(
     shape_tmp = (n_freq_r*n_modes_save, nt)
     coeffs = np.zeros(shape_tmp, dtype=dt_complex)
 
+    ## weights of a fit with flattened data have one spatial axis
+    weights = np.reshape(weights, (*data.shape[1:1+xdim], nv))
+
     ## distribute data and weights if parallel
     data, max_axis, _ = utils_par.distribute_data(data, comm)
     weights = utils_par.distribute_dimension(weights, max_axis, comm)
@@ -301,6 +309,9 @@ def compute_coeffs_conv(
     shape_tmp = (n_freq_r, nt, n_modes_save)
     coeffs = np.zeros(shape_tmp, dtype=dt_complex)
 
+    ## weights of a fit with flattened data have one spatial axis
+    weights = np.reshape(weights, (*data.shape[1:1+xdim], nv))
+
     ## distribute data and weights if parallel
     data, max_axis, _ = utils_par.distribute_data(data, comm)
     weights = utils_par.distribute_dimension(weights, max_axis, comm)
-- 
2.43.0


From cc930006a0697ae8794409f582edc8756ad289de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 42/82] fix: orthonormal modes for repeated eigenvalues

---
 pyspod/spod/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 165f896..76504bd 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -223,7 +223,7 @@ class Standard(Base):
         st = time.time()
 
         ## compute eigenvalues and eigenvectors
-        L, V = la.eig(M)
+        L, V = la.eigh(M)
         L = np.real_if_close(L, tol=1000000)
         del M
 
-- 
2.43.0


From b1f84beb3a9f3eff41a47fb2b711d970e72e31cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 43/82] fix: modes of null eigenvalues are finite

---
 pyspod/spod/standard.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 76504bd..9dd88ef 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -240,8 +240,10 @@ class Standard(Base):
         st = time.time()
 
         # compute spatial modes for given frequency
-        L_diag = np.sqrt(self._n_blocks) * np.sqrt(L)
-        L_diag_inv = 1. / L_diag
+        ## (null eigenvalues may be negative up to rounding)
+        L_diag = np.sqrt(self._n_blocks) * np.sqrt(np.maximum(L, 0))
+        L_diag_inv = np.divide(
+            1., L_diag, out=np.zeros_like(L_diag), where=L_diag > 0)
 
         if not self._savefreq_disk2:
             for f in range(0,self._n_freq):
-- 
2.43.0


From 34cb7925d39d9bd78f8fdf57c052ce4a6e9d087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 44/82] fix: get_all_modes of results with one file per mode

---
 pyspod/utils/postproc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index f6a23a7..436b1b0 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -135,6 +135,12 @@ def get_all_modes(results_path):
     if isinstance(results_path, str):
         import glob, os
         modes_path = os.path.join(results_path, 'modes')
+        ## one file per mode: first modes of all frequencies
+        fmode0 = glob.glob(
+            os.path.join(modes_path, 'freq_idx_f*_m00000000.npy'))
+        if len(fmode0) > 0:
+            return np.stack([get_modes_at_freq(results_path, f)
+                for f in range(len(fmode0))])
         flist = []
         for filename in glob.glob(os.path.join(modes_path, "*.npy")):
             flist.append(filename)
-- 
2.43.0


From 508b18f1418d2e735bf8e805e1570e12d64c900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 45/82] fix: time mean of complex data in the convolution
 coefficients

---
 pyspod/spod/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 8151cb6..616ed89 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -328,7 +328,8 @@ def compute_coeffs_conv(
     weights = np.reshape(weights, [xsize, 1])
 
     ## compute time mean and subtract from data (reuse the one from fit?)
-    lt_mean = np.mean(data, axis=0, dtype=np.float64)
+    lt_mean = np.mean(
+        data, axis=0, dtype=np.result_type(data.dtype, np.float64))
     data = data - lt_mean
     utils_par.pr0(f'- data and time mean: {time.time() - st} s.', comm)
     st = time.time()
-- 
2.43.0


From 12fa638898743224f0bf8a894a5e6cfd9cde6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 46/82] fix: POD coefficients are projections in the weighted
 inner product of the modes

---
 pyspod/pod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index 4eec49d..c2104b3 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -81,7 +81,7 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     st = time.time()
 
     # compute coefficients
-    coeffs = np.transpose(phir) @ np.transpose(data)
+    coeffs = np.transpose(phir) @ (np.transpose(data) * weights)
     coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- phir x data: {time.time() - s0} s.', comm)
     st = time.time()
-- 
2.43.0


From 6aa42b695c6e106889a754938f0e779916ab6cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 47/82] fix: 2-stage reader fails on all ranks for invalid
 files

---
 pyspod/utils/reader.py | 56 +++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 7b46254..94ce5fd 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -191,37 +191,23 @@ class reader_2stage():
         assert variables is not None, 'Variable(s) has to be provided for the 2-stage reader'
         assert isinstance(variables,list), 'Variable(s) has to be provided as a list'
 
-        # data_list should be a list of filenames
-        if comm.rank == 0:
-            for f in data_list:
-                # check if file exists
-                assert os.path.isfile(f), f'File {f} does not exist'
-
         self._max_axes = np.array([1,0]) # time is the first dimension (not listed), then nvar, then the spatial dimension
-        nt = 0
-        shape = None
+        # rank 0 looks at the files; if it fails, all ranks fail
+        error = None
         if comm.rank == 0:
-            for f in data_list:
-                d = xr.open_dataset(f,cache=False)[variables[0]]
-                # make sure that all files have the same spatial shape
-                if shape is not None:
-                    assert d.shape[1:] == shape[1:], f'File {f} has different shape than the previous ones'
-                shape = d.shape
-                self._file_time[f] = (nt, nt+shape[0])
-                nt += shape[0]
-                if d.dtype.kind not in 'fiu':
-                    self._is_real = False
-                d.close()
-                self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
-
-            self._shape = (nt,) + shape[1:] + (self._nv,)
+            try:
+                self._check_files(data_list, variables)
+            except Exception as e:
+                error = e
+        error = comm.bcast(error, root=0)
+        if error is not None: raise error
 
         self._shape     = comm.bcast(self._shape,     root=0)
         self._is_real   = comm.bcast(self._is_real,   root=0)
         self._file_time = comm.bcast(self._file_time, root=0)
 
         if comm.rank == 0:
-            assert nt >= self._nchunks*self._nblocks, f'Number of chunks {self._nchunks} and blocks {self._nblocks} is too large for the nt ({nt}) (nt must be equal at least self._nchunks*self._nblocks)'
+            nt = self._shape[0]
             mb_per_chunk_per_reader = 256
             item_size = np.dtype(self._dtype).itemsize
             size_per_ts = np.prod(self._shape[1:])*item_size/1024/1024
@@ -238,6 +224,30 @@ class reader_2stage():
         self._local_shape = None
         utils_par.pr0(f'--- init finished in {time.time()-st:.2f} s', comm)
 
+    def _check_files(self, data_list, variables):
+        # data_list should be a list of filenames
+        for f in data_list:
+            # check if file exists
+            assert os.path.isfile(f), f'File {f} does not exist'
+
+        nt = 0
+        shape = None
+        for f in data_list:
+            d = xr.open_dataset(f,cache=False)[variables[0]]
+            # make sure that all files have the same spatial shape
+            if shape is not None:
+                assert d.shape[1:] == shape[1:], f'File {f} has different shape than the previous ones'
+            shape = d.shape
+            self._file_time[f] = (nt, nt+shape[0])
+            nt += shape[0]
+            if d.dtype.kind not in 'fiu':
+                self._is_real = False
+            d.close()
+            self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
+
+        self._shape = (nt,) + shape[1:] + (self._nv,)
+        assert nt >= self._nchunks*self._nblocks, f'Number of chunks {self._nchunks} and blocks {self._nblocks} is too large for the nt ({nt}) (nt must be equal at least self._nchunks*self._nblocks)'
+
     def get_data_for_time(self, ts, te):
         stime = time.time()
 
-- 
2.43.0


From 8de46c69be5a725ad5fbb7e190e792dd7f1e9623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 48/82] fix: MATLAB reader fails on all ranks for invalid files

---
 pyspod/utils/reader.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 94ce5fd..c1a1513 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -503,14 +503,16 @@ class reader_mat():
         nt = len(data_list)
 
         # data_list should be a list of filenames
+        missing = None
+        if comm.rank == 0:
+            missing = [f for f in sorted(data_list) if not os.path.isfile(f)]
+        missing = comm.bcast(missing, root=0)
+        assert not missing, f'File {missing[0]} does not exist'
+
         if comm.rank == 0:
             for f in sorted(data_list):
-                # check if file exists
-                assert os.path.isfile(f), f'File {f} does not exist'
-                #print(f'file {f} exists')
                 self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
 
-
             # check the first file to find dimensions
             f = h5py.File(data_list[0], "r")
             group_key = list(f.keys())[0]
@@ -567,6 +569,7 @@ class reader_mat():
         cum_read = 0
 
         input_data = np.zeros((n_dist_time,n_all_xyz,self._nv),dtype=self._dtype)
+        error = None
 
         for f in self._files:
             d_js = cum_t
@@ -582,15 +585,22 @@ class reader_mat():
                     data = np.array(data)
                     data = np.transpose(data, axes=[1, 2, 3, 0])
 
-                    assert np.isfinite(data).all(), f'non-finite data in {f}'
-
-                    input_data[cum_read,...] = data.reshape(-1,self._nv)
+                    if data.shape != self._shape[1:]:
+                        error = f'File {f} has different shape than the first one'
+                    elif not np.isfinite(data).all():
+                        error = f'non-finite data in {f}'
+                    else:
+                        input_data[cum_read,...] = data.reshape(-1,self._nv)
 
                     del data
                     cum_read += 1
 
             cum_t = cum_t + 1 # one step per file
 
+        # if one rank fails, all ranks fail
+        errors = [e for e in comm.allgather(error) if e is not None]
+        assert not errors, errors[0]
+
         # redistribute the data using MPI - gather all times for a spatial slice
         #
         # size of data to receive (only used by the root rank)
-- 
2.43.0


From 108ddfa5c49ae3e96d5494caba219c1e012a179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 49/82] fix: empty sections and items with several keys in
 configuration files

---
 pyspod/utils/io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 3b4eeb9..4a8a411 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -78,10 +78,8 @@ def read_config(parsed_file=None):
 
 def _parse_yaml(l):
     params = dict()
-    for i,d in enumerate(l):
-        k = list(d.keys())[0]
-        v = d[k]
-        params[k] = v
+    for d in (l or []):
+        params.update(d)
     return params
 
 
-- 
2.43.0


From da2908f3bf2f342c6986c5b0b2162c5c975b9bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 50/82] fix: streaming SPOD keeps its basis orthonormal when
 new data lie in its span up to rounding

---
 pyspod/spod/streaming.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index f211605..95d2bd1 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -171,10 +171,25 @@ class Streaming(Base):
                         ## orthogonal complement to U, eqn. (27)
                         u_p = x - np.matmul(U, Ux)
 
-                        ## norm of orthogonal complement
+                        ## remove what rounding left in the span of U
+                        Uu = np.matmul(U.conj().T, u_p)
+                        Uu = utils_par.allreduce(Uu, comm=self._comm)
+                        u_p = u_p - np.matmul(U, Uu)
+                        del Uu
+
+                        ## norms of orthogonal complement and new data
                         abs_up = np.matmul(u_p.conj().T, u_p)
                         abs_up = utils_par.allreduce(abs_up, comm=self._comm)
                         abs_up = np.sqrt(abs_up)
+                        abs_x = np.matmul(x.conj().T, x)
+                        abs_x = utils_par.allreduce(abs_x, comm=self._comm)
+                        abs_x = np.sqrt(abs_x)
+
+                        ## a complement at rounding level has no direction
+                        tol = 100 * np.finfo(self._float).eps * abs_x.real
+                        if abs_up.real <= tol:
+                            abs_up = np.zeros_like(abs_up)
+                            u_p = np.zeros_like(u_p)
 
                         ## normalized orthogonal complement
                         u_new = u_p / np.where(abs_up == 0, 1, abs_up)
-- 
2.43.0


From 7da52fea2358696f49a7fdf7cc38155838221877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 51/82] fix: only rank 0 looks for FFT blocks, which it may be
 removing

---
 pyspod/spod/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 0d8c73f..62a6905 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -848,7 +848,9 @@ class Base():
     def _are_blocks_present(n_blocks, n_freq, savedir, comm):
         utils_par.pr0(f'Checking if blocks are already present ...', comm)
         all_blocks_exist = 0
-        for i_blk in range(0,n_blocks):
+        ## only the rank that also removes blocks looks at the files
+        n_look = n_blocks if comm is None or comm.rank == 0 else 0
+        for i_blk in range(0,n_look):
             all_freq_exist = 0
             for i_freq in range(0,n_freq):
                 tmp_name = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
-- 
2.43.0


From c7724765518ffc13ff5f630995d62a1a591e456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 52/82] fix: coefficient parameters are written by rank 0 only

---
 pyspod/pod/utils.py  | 3 ++-
 pyspod/spod/utils.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index c2104b3..cf4fc3d 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -120,7 +120,8 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     params['modes_idx'  ] = modes_idx
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    if rank == 0:
+        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.', comm)
     utils_par.pr0(f'---------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in: {file_coeffs}'     , comm)
diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 616ed89..dfaf580 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -222,7 +222,8 @@ def compute_coeffs_op(
     params['freq_idx_ub'] = int(f_idx_ub)
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    if rank == 0:
+        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.'  , comm)
     utils_par.pr0(f'-----------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in folder: {file_coeffs}', comm)
@@ -448,7 +449,8 @@ def compute_coeffs_conv(
     params['freq_idx_ub'] = int(f_idx_ub)
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    if rank == 0:
+        with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.'  , comm)
     utils_par.pr0(f'-----------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in folder: {file_coeffs}', comm)
-- 
2.43.0


From bb40af6c79fda09c970768e384c260749d7caa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:31 +0000
Subject: [PATCH 53/82] fix: lay out weights given in any accepted shape like
 the data

---
 pyspod/pod/base.py  | 5 +++++
 pyspod/spod/base.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 9e0bcb3..d8ba66e 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -331,6 +331,11 @@ class Base():
                     'parameter ``weights`` must have the '
                     'same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
+            ## lay the weights out like the data (the axis of
+            ## a single variable may be missing)
+            if self._weights.shape != self._xshape:
+                self._weights = np.reshape(
+                    self._weights, self._xshape+(self._nv,))
         else:
             self._weights = np.ones(self._xshape+(self._nv,))
             self._weights_name = 'uniform'
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 62a6905..8eaee4f 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -571,6 +571,11 @@ class Base():
                     'parameter ``weights``', np.size(self._weights),
                     'must have the same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
+            ## lay the weights out like the data (the axis of
+            ## a single variable may be missing)
+            if self._weights.shape != self._xshape:
+                self._weights = np.reshape(
+                    self._weights, self._xshape+(self._nv,))
         else:
             self._weights = np.ones(self._xshape+(self._nv,))
             self._weights_name = 'uniform'
-- 
2.43.0


From b4b5108aa3b3c77229584d0ed485b41f9fd58cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:31 +0000
Subject: [PATCH 54/82] fix: geo_trapz_3D lays out the weights of several
 variables like the data

---
 pyspod/utils/weights.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 7b4be7c..4520cd5 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -80,7 +80,8 @@ def geo_trapz_3D(x1_dim, x2_dim, x3_dim, n_vars, **kwargs):
     dA = np.abs(R**2 * np.cos(lat_rad) * d_lon.T * d_lat).T
     dA = np.tile(dA, [x3_dim, 1, 1])
     dA = np.einsum('ijk->jki', dA)
-    dA = np.tile(dA, [n_vars, 1, 1])
+    if n_vars > 1:
+        dA = np.tile(dA[...,np.newaxis], [1, 1, 1, n_vars])
     w = { 'weights_name': 'geo_trapz_3D', 'weights': dA }
     return w
 
-- 
2.43.0


From ade76452b1e4315a87b31a7bdd278078b0e05f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 55/82] fix: geospatial weights of grids with three latitudes

---
 pyspod/utils/weights.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 4520cd5..db7d5f4 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -28,7 +28,7 @@ def geo_trapz_2D(x1_dim, x2_dim, n_vars, **kwargs):
 
     diff_lat = np.diff(lat_rad)
     diff_lat = diff_lat[0:-1]
-    d_lat = np.hstack([diff_lat[1]/2, diff_lat, diff_lat[-1]/2])
+    d_lat = np.hstack([diff_lat[0]/2, diff_lat, diff_lat[-1]/2])
 
     tmp = np.diff(lon_rad, axis=0)
     d_lon = np.hstack([lon_rad[0]/2, tmp])
@@ -68,7 +68,7 @@ def geo_trapz_3D(x1_dim, x2_dim, x3_dim, n_vars, **kwargs):
 
     diff_lat = np.diff(lat_rad)
     diff_lat = diff_lat[0:-1]
-    d_lat = np.hstack([diff_lat[1]/2, diff_lat, diff_lat[-1]/2])
+    d_lat = np.hstack([diff_lat[0]/2, diff_lat, diff_lat[-1]/2])
 
     tmp = np.diff(lon_rad, axis=0)
     d_lon = np.hstack([lon_rad[0]/2, tmp])
-- 
2.43.0


From 263bbccfcc6d94577bb09ddfb9a19ded306e2b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:54 +0000
Subject: [PATCH 56/82] fix: energy spectrum keeps the imaginary part of the
 transform

---
 pyspod/utils/postproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 436b1b0..9708219 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1535,7 +1535,7 @@ def _apply_2d_vertical_lines(ax, x1, x2, idx1, idx2):
 
 def compute_energy_spectrum(u):
     # transform to Fourier space
-    array_hat = np.real(np.fft.fft(u))
+    array_hat = np.fft.fft(u)
     # normalizing data
     nx = u.size
     array_new = np.copy(array_hat / float(nx))
-- 
2.43.0


From 8d3b40b8d522c49d9077ef6d27fd1c62917e37c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:54 +0000
Subject: [PATCH 57/82] fix: mark the maximum of a plotted mode where it is

---
 pyspod/utils/postproc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 9708219..f940361 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -864,9 +864,9 @@ def plot_3d_modes_slice_at_frequency(
                     idx_x1,idx_x2 = \
                         np.where(np.abs(mode) == np.amax(np.abs(mode)))
                     real_ax = _apply_2d_vertical_lines(
-                        real_ax, x1, x2, idx_x1, idx_x2)
+                        real_ax, xx, yy, idx_x1, idx_x2)
                     imag_ax = _apply_2d_vertical_lines(
-                        imag_ax, x1, x2, idx_x1, idx_x2)
+                        imag_ax, xx, yy, idx_x1, idx_x2)
                 real_divider = make_axes_locatable(real_ax)
                 imag_divider = make_axes_locatable(imag_ax)
                 real_cax = real_divider.append_axes("right",size="5%",pad=0.05)
@@ -909,7 +909,7 @@ def plot_3d_modes_slice_at_frequency(
                     idx_x1,idx_x2 = \
                         np.where(np.abs(mode) == np.amax(np.abs(mode)))
                     real_ax = _apply_2d_vertical_lines(
-                        real_ax, x1, x2, idx_x1, idx_x2)
+                        real_ax, xx, yy, idx_x1, idx_x2)
                 real_divider = make_axes_locatable(real_ax)
                 real_cax = real_divider.append_axes("right",size="5%",pad=0.05)
                 plt.colorbar(real, cax=real_cax)
@@ -1521,8 +1521,9 @@ def _apply_2d_coastlines(coastlines, ax):
     return ax
 
 def _apply_2d_vertical_lines(ax, x1, x2, idx1, idx2):
-    ax.axhline(x1[idx1], xmin=0, xmax=1,color='k',linestyle='--')
-    ax.axvline(x2[idx2], ymin=0, ymax=1,color='k',linestyle='--')
+    for i1, i2 in zip(idx1, idx2):
+        ax.axvline(x1[i1], ymin=0, ymax=1,color='k',linestyle='--')
+        ax.axhline(x2[i2], xmin=0, xmax=1,color='k',linestyle='--')
     return ax
 
 # ---------------------------------------------------------------------------
-- 
2.43.0


From 7124926510852fde2bf006236c4425a823c0b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 58/82] fix: default slice of a 3D mode goes through its
 maximum, as documented

---
 pyspod/utils/postproc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index f940361..4893636 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -822,10 +822,13 @@ def plot_3d_modes_slice_at_frequency(
             if mode_3d.ndim != 3:
                 raise ValueError('Dimension of the modes is not 3D.')
 
-            if slice_id is None: slice_id = 0
-            if slice_dim == 0: mode = mode_3d[slice_id,:,:]
-            elif slice_dim == 1: mode = mode_3d[:,slice_id,:]
-            elif slice_dim == 2: mode = mode_3d[:,:,slice_id]
+            idx = slice_id
+            if idx is None:
+                idx = np.unravel_index(
+                    np.argmax(np.abs(mode_3d)), mode_3d.shape)[slice_dim]
+            if slice_dim == 0: mode = mode_3d[idx,:,:]
+            elif slice_dim == 1: mode = mode_3d[:,idx,:]
+            elif slice_dim == 2: mode = mode_3d[:,:,idx]
             # coord 1
             if mode.shape[0] == x1.shape[0]: xx = x1; flag1 = 'x1'
             elif mode.shape[0] == x2.shape[0]: xx = x2; flag1 = 'x2'
-- 
2.43.0


From a848889974dce142d284ee6f72a9d43822603d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 59/82] fix: slices of 3D modes are drawn on the coordinates of
 their own axes

---
 pyspod/utils/postproc.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 4893636..83a3b3e 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -14,6 +14,7 @@ import matplotlib.font_manager
 from matplotlib import animation
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 mpl.rc('figure', max_open_warning = 0)
+from itertools import permutations
 from os.path import splitext
 from scipy.io import loadmat
 
@@ -829,17 +830,14 @@ def plot_3d_modes_slice_at_frequency(
             if slice_dim == 0: mode = mode_3d[idx,:,:]
             elif slice_dim == 1: mode = mode_3d[:,idx,:]
             elif slice_dim == 2: mode = mode_3d[:,:,idx]
-            # coord 1
-            if mode.shape[0] == x1.shape[0]: xx = x1; flag1 = 'x1'
-            elif mode.shape[0] == x2.shape[0]: xx = x2; flag1 = 'x2'
-            elif mode.shape[0] == x3.shape[0]: xx = x3; flag1 = 'x3'
-            # coord 2
-            if (mode.shape[1] == x1.shape[0]) and (flag1 != 'x1'):
-                yy = x1; flag2 = 'x1'
-            elif (mode.shape[1] == x2.shape[0]) and (flag1 != 'x2'):
-                yy = x2; flag2 = 'x2'
-            elif (mode.shape[1] == x3.shape[0]) and (flag1 != 'x3'):
-                yy = x3; flag2 = 'x3'
+            # coordinates of the axes of the mode (in order, if they fit)
+            for axes in permutations([('x1',x1), ('x2',x2), ('x3',x3)]):
+                if mode_3d.shape == tuple(c.shape[0] for _, c in axes): break
+            else:
+                raise ValueError(
+                    'Mode dimension does not match coordinates dimensions.')
+            (flag1, xx), (flag2, yy) = \
+                [c for i, c in enumerate(axes) if i != slice_dim]
 
             # perform fft shift if required
             if fftshift:
-- 
2.43.0


From 007ffe99eb7e24cc63167e2581ef0fe050467dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 60/82] fix: mode tracers oscillate at the frequency of the
 mode

---
 pyspod/utils/postproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 83a3b3e..02c82e1 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1005,10 +1005,10 @@ def plot_mode_tracers(
     # calculate period and time vector
     n_points = 100
     period = 1. / freq_req
-    t = np.linspace(0,period,n_points)
+    t = np.linspace(0,5*period,n_points)
 
     # pre-compute auxiliary phase vector and shape it accordingly
-    phase = np.exp(complex(0,1) * np.linspace(0,10*np.pi,n_points))
+    phase = np.exp(complex(0,1) * 2*np.pi*freq_val * t)
 
     # loop over coordinates requested
     for coords in coords_list:
-- 
2.43.0


From 3eff5e677f099e6cf3666e9179ebf1c8d26122cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 61/82] fix: mode tracers of several variables get a figure
 each

---
 pyspod/utils/postproc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 02c82e1..a614380 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1015,12 +1015,12 @@ def plot_mode_tracers(
         if not isinstance(coords, tuple):
             raise TypeError('each element of `coords` must be a tuple.')
         coords, idx_coords = find_nearest_coords(coords, x, xdim)
-        fig, spec = plt.subplots(
-            ncols=1, nrows=len(modes_idx),
-            figsize=(wsize,1.5*len(modes_idx)),
-            squeeze=False, sharex=True)
-        cnt = 0
         for var_id in vars_idx:
+            fig, spec = plt.subplots(
+                ncols=1, nrows=len(modes_idx),
+                figsize=(wsize,1.5*len(modes_idx)),
+                squeeze=False, sharex=True)
+            cnt = 0
             for mode_id in modes_idx:
                 mode = np.squeeze(modes[...,var_id,mode_id])
                 if fftshift:
-- 
2.43.0


From ea6b7175f460b05511e7f90f5e923f086d12752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 62/82] fix: data tracers and videos of a time window that does
 not start at zero

---
 pyspod/spod/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 8eaee4f..56db865 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -1001,8 +1001,7 @@ class Base():
         '''
         See method implementation in the postproc module.
         '''
-        data = self.get_data(
-            data, t_0=time_limits[0], t_end=time_limits[-1])
+        data = self.get_data(data, t_0=0, t_end=time_limits[-1])
         post.plot_data_tracers(
             X=data, coords_list=coords_list, x=x, time_limits=time_limits,
             vars_idx=vars_idx, title=title, figsize=figsize,
@@ -1114,7 +1113,7 @@ class Base():
         data = self.get_data(
             data, t_0=time_limits[0], t_end=time_limits[-1])
         post.generate_2d_data_video(
-            X=data, time_limits=[0,time_limits[-1]], vars_idx=vars_idx,
+            X=data, time_limits=[0,data.shape[0]], vars_idx=vars_idx,
             sampling=sampling, x1=x1, x2=x2, coastlines=coastlines,
             figsize=figsize, path=self.savedir_sim, filename=filename)
 
-- 
2.43.0


From d23819cce0285c115ce020151215c20f15ccead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:47 +0000
Subject: [PATCH 63/82] fix: streaming SPOD with points of zero weight

---
 pyspod/spod/streaming.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 95d2bd1..04685ad 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -236,7 +236,10 @@ class Streaming(Base):
                 #     self._eigs**2)**2) / (S_hat_prev**2)
 
         ## rescale such that <U_i,U_j>_E = U_i^H * W * U_j = delta_ij
-        phi = u_hat[:,:,0:n_m_save] * (1 / sqrt_w[:,:,np.newaxis])
+        ## (a point without weight is not seen, its modes are zero)
+        inv_w = np.divide(
+            1, sqrt_w, out=np.zeros_like(sqrt_w), where=sqrt_w > 0)
+        phi = u_hat[:,:,0:n_m_save] * inv_w[:,:,np.newaxis]
 
         # ## shuffle and reshape
         phi = np.einsum('ijk->jik', phi)
-- 
2.43.0


From 220cc2be0b028b37937c8cc58d3c2fc19079ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:30 +0000
Subject: [PATCH 64/82] fix: methods that project and reconstruct use the
 directory they are given

---
 pyspod/pod/base.py  | 4 ++--
 pyspod/spod/base.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index d8ba66e..6d7558d 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -386,7 +386,7 @@ class Base():
         See method implementation in the pod.utils module.
         '''
         file_coeffs, coeffs_dir = utils_pod.compute_coeffs_op(\
-            data, results_dir=self._savedir_sim, modes_idx=modes_idx,
+            data, results_dir=results_dir, modes_idx=modes_idx,
             comm=self._comm)
         self._file_coeffs = file_coeffs
         self._coeffs_dir = coeffs_dir
@@ -402,7 +402,7 @@ class Base():
                 'Coeffs not computed; you need to run `compute_coeffs_op`.')
         else:
             file_recons, coeffs_dir = utils_pod.compute_reconstruction(\
-                coeffs_dir=self._coeffs_dir, coeffs=coeffs, time_idx=time_idx,
+                coeffs_dir=coeffs_dir, coeffs=coeffs, time_idx=time_idx,
                 comm=self._comm)
         self._file_recons = file_recons
         self._coeffs_dir = coeffs_dir
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 56db865..cd80feb 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -653,7 +653,7 @@ class Base():
         See method implementation in the spod.utils module.
         '''
         file_coeffs, coeffs_dir = utils_spod.compute_coeffs_op(\
-            data, results_dir=self._savedir_sim, modes_idx=modes_idx,
+            data, results_dir=results_dir, modes_idx=modes_idx,
             tol=tol, svd=svd, T_lb=T_lb, T_ub=T_ub, comm=self._comm)
         self._file_coeffs = file_coeffs
         self._coeffs_dir = coeffs_dir
@@ -669,7 +669,7 @@ class Base():
                 'Coeffs not computed; you need to run `compute_coeffs_op`.')
         else:
             file_recons, coeffs_dir = utils_spod.compute_reconstruction(\
-                coeffs_dir=self._coeffs_dir, time_idx=time_idx, comm=self._comm)
+                coeffs_dir=coeffs_dir, time_idx=time_idx, comm=self._comm)
         self._file_recons = file_recons
         self._coeffs_dir = coeffs_dir
         return file_recons, coeffs_dir
-- 
2.43.0


From b932aff5b9ffc2e31748af3b376eaa3518fbe708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:30 +0000
Subject: [PATCH 65/82] fix: errors of integer data

---
 pyspod/utils/errors.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index 672c9d1..4c1337e 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -3,6 +3,14 @@ import numpy as np
 from numpy import linalg
 
 
+def _inexact(data):
+    '''
+    Integers may not hold differences: use floating point instead.
+    '''
+    data = np.asarray(data)
+    return data if np.issubdtype(data.dtype, np.inexact) else data.astype(float)
+
+
 def compute_l_errors(data, data_ref, norm_type='l2'):
     '''
     Compute error l norms of data with respect to a reference data
@@ -14,6 +22,7 @@ def compute_l_errors(data, data_ref, norm_type='l2'):
     :return: the computed error.
     :rtype: numpy.ndarray
     '''
+    data, data_ref = _inexact(data), _inexact(data_ref)
     n = data.size
     e = np.abs(data - data_ref)
     ef = e.flatten('C')
@@ -41,6 +50,7 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
     :return: the computed error.
     :rtype: numpy.ndarray
     '''
+    data, data_ref = _inexact(data), _inexact(data_ref)
     # warnings.warn("warning: for h1 calculation, dim0 must be time.")
     if norm_type == 'h1':
         err_h1 = 0
-- 
2.43.0


From 97a3cc1aaa63414cbd110e0e9e97c0a165dd0df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:48 +0000
Subject: [PATCH 66/82] fix: plots with shift180 leave the coordinates alone

---
 pyspod/utils/postproc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index a614380..46440c3 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -415,7 +415,7 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
     x2 = x2[limits_x2]
 
     if shift180:
-        x1 -= 180
+        x1 = x1 - 180
 
     ## loop over variables and modes
     for var_id in vars_idx:
@@ -539,8 +539,6 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
                 basename, ext = splitext(filename)
                 tmp_name = f'{basename}_var{var_id}_mode{mode_id}{ext}'
             _save_show_plots(tmp_name, path, plt, pdf=pdf)
-    if shift180:
-        x1 += 180
 
 # def plot_2d_mode_slice_vs_time(results_path, freq_req, freq,
 #     vars_idx=[0], modes_idx=[0], x1=None, x2=None, max_each_mode=False,
-- 
2.43.0


From de7524d43d97a4d703a512cd60bf446aa181c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:48 +0000
Subject: [PATCH 67/82] fix: methods without a directory use that of the
 analysis

---
 pyspod/pod/base.py  | 4 ++++
 pyspod/spod/base.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 6d7558d..9f2be56 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -385,6 +385,8 @@ class Base():
         '''
         See method implementation in the pod.utils module.
         '''
+        if results_dir is None:
+            results_dir = self._savedir_sim
         file_coeffs, coeffs_dir = utils_pod.compute_coeffs_op(\
             data, results_dir=results_dir, modes_idx=modes_idx,
             comm=self._comm)
@@ -401,6 +403,8 @@ class Base():
             raise ValueError(
                 'Coeffs not computed; you need to run `compute_coeffs_op`.')
         else:
+            if coeffs_dir is None:
+                coeffs_dir = self._coeffs_dir
             file_recons, coeffs_dir = utils_pod.compute_reconstruction(\
                 coeffs_dir=coeffs_dir, coeffs=coeffs, time_idx=time_idx,
                 comm=self._comm)
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index cd80feb..8d94025 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -652,6 +652,8 @@ class Base():
         '''
         See method implementation in the spod.utils module.
         '''
+        if results_dir is None:
+            results_dir = self._savedir_sim
         file_coeffs, coeffs_dir = utils_spod.compute_coeffs_op(\
             data, results_dir=results_dir, modes_idx=modes_idx,
             tol=tol, svd=svd, T_lb=T_lb, T_ub=T_ub, comm=self._comm)
@@ -668,6 +670,8 @@ class Base():
             raise ValueError(
                 'Coeffs not computed; you need to run `compute_coeffs_op`.')
         else:
+            if coeffs_dir is None:
+                coeffs_dir = self._coeffs_dir
             file_recons, coeffs_dir = utils_spod.compute_reconstruction(\
                 coeffs_dir=coeffs_dir, time_idx=time_idx, comm=self._comm)
         self._file_recons = file_recons
-- 
2.43.0


From 65129ddb6b8759bfdf28760a2d13c7df41d9a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:42 +0000
Subject: [PATCH 68/82] fix: shift180 moves the longitudes also when they come
 first in the data

---
 pyspod/utils/postproc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 46440c3..56612bb 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -433,9 +433,6 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
             ## extract mode
             mode = np.squeeze(modes[:,:,var_id,mode_id])
 
-            if shift180:
-                mode = np.hstack((mode[:,mode.shape[1]//2:], mode[:,:mode.shape[1]//2]))
-
             ## check dimensions
             if mode.ndim != 2:
                 raise ValueError('Dimension of the modes is not 2D.')
@@ -448,6 +445,11 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
             if x1_tmp.shape[0] != mode.shape[1] or \
                x2_tmp.shape[0] != mode.shape[0]:
                 mode = mode.T
+
+            ## shift the horizontal axis by half of its length if required
+            if shift180:
+                mode = np.hstack((mode[:,mode.shape[1]//2:], mode[:,:mode.shape[1]//2]))
+
             mode = mode[limits_x2,limits_x1]
 
             # check dimension axes and data
-- 
2.43.0


From 93f4ba265d36d18094ea709b76aab485aeff6336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 69/82] fix: reports of two-sided spectra, and of parallel runs

---
 pyspod/spod/base.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 8d94025..c78bd7c 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -1012,6 +1012,9 @@ class Base():
             path=self.savedir_sim, filename=filename)
 
     def plot_report(self, x1, x2, topN=5, unit='hours', path='CWD', filename=None, shift180=False):
+        # one process writes the report
+        if self._comm is not None and self._comm.rank != 0: return
+
         if path == 'CWD': path = os.getcwd()
 
         def find_peaks(vals,freq,nbr=5):
@@ -1026,16 +1029,13 @@ class Base():
                 nbr_mean = np.mean(vals[xfrom:xto])
 
                 freq_val = freq[i]
-                freq_low = freq[i]*0.90
-                freq_high = freq[i]*1.1
-
-                freq_from = max(freq.searchsorted(freq_low, 'left') ,0)
-                freq_to = min(freq.searchsorted(freq_high, 'right') ,len(vals))
+                # the frequencies may be two-sided, i.e. not in order
+                near = np.abs(freq - freq_val) <= 0.1*np.abs(freq_val)
 
                 going_up = val > vals[i-1] if i>0 else True
                 going_down = val > vals[i+1] if i<len(vals)-1 else True
 
-                if val > 1.5*nbr_mean and going_up and going_down and val == np.max(vals[freq_from:freq_to]):
+                if val > 1.5*nbr_mean and going_up and going_down and val == np.max(vals[near]):
                     indices.append(i)
 
             return indices
@@ -1071,16 +1071,16 @@ class Base():
                     newunit = unit
 
                     if unit == 'hours':
-                        if period < 1:
+                        if abs(period) < 1:
                             period *= 60
                             newunit = 'minutes'
-                        elif period >= 24 and period < 24*30.437:
+                        elif abs(period) >= 24 and abs(period) < 24*30.437:
                             period /= 24
                             newunit = 'days'
-                        elif period >= 24*30.437 and period < 24*365.25:
+                        elif abs(period) >= 24*30.437 and abs(period) < 24*365.25:
                             period /= 24*30.437
                             newunit = 'months'
-                        elif period >= 24*365.25:
+                        elif abs(period) >= 24*365.25:
                             period /= 24*365.25
                             newunit = 'years'
 
-- 
2.43.0


From b7ec5a5ed70a397101ece09352c760532632454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:34 +0000
Subject: [PATCH 70/82] fix: orthogonality check of several modes

---
 pyspod/spod/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index dfaf580..c8a675d 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -73,10 +73,8 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     O = phir1.conj().T @ (weights * phir2)
     O = utils_par.allreduce(data=O, comm=comm)
     tol = 2e-6
-    if mode_idx1 == mode_idx2:
-        ortho_check = np.abs(O - 1) < tol
-    else:
-        ortho_check = np.abs(O) < tol
+    same = np.atleast_1d(mode_idx1)[:,None] == np.atleast_1d(mode_idx2)[None,:]
+    ortho_check = np.abs(O - same) < tol
     utils_par.barrier(comm)
     return ortho_check, O
 
-- 
2.43.0


From 6436ae53458317db955aec2838b9f5c342e61a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:34 +0000
Subject: [PATCH 71/82] fix: variables of a dataset may have their dimensions
 in different orders

---
 pyspod/utils/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index c1a1513..b5267e6 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -284,11 +284,13 @@ class reader_2stage():
 
             if read_cnt > 0:
                 with xr.open_dataset(k, cache=False, decode_times=False) as d:
-                    first_var = list(d[self._variables[0]].dims)[0]
+                    dims = d[self._variables[0]].dims
+                    first_var = list(dims)[0]
 
                     with d.isel({first_var: slice(read_js-cum_t,read_je-cum_t)},drop=True) as dvars:
                         for idx, var in enumerate(self._variables):
-                            vals = dvars[var].values
+                            # same order of dimensions for all variables
+                            vals = dvars[var].transpose(*dims).values
                             input_data[cum_read:cum_read+read_cnt,:,idx] = vals.reshape(vals.shape[0],-1)#.copy()
                             del vals
                         cum_read = cum_read + read_cnt
-- 
2.43.0


From 6034eb54bda7649c82dcd1cb5bafc9da9a85c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:43 +0000
Subject: [PATCH 72/82] fix: a MATLAB file that cannot be read stops all ranks

---
 pyspod/utils/reader.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index b5267e6..f959e2a 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -511,18 +511,15 @@ class reader_mat():
         missing = comm.bcast(missing, root=0)
         assert not missing, f'File {missing[0]} does not exist'
 
+        # rank 0 looks at the first file; if it fails, all ranks fail
+        error = None
         if comm.rank == 0:
-            for f in sorted(data_list):
-                self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
-
-            # check the first file to find dimensions
-            f = h5py.File(data_list[0], "r")
-            group_key = list(f.keys())[0]
-            data = f.get(group_key)
-            if data.dtype.kind not in 'fiu':
-                self._is_real = False
-
-            self._shape = (nt, data.shape[1], data.shape[2], data.shape[3], data.shape[0])
+            try:
+                self._check_files(self._files)
+            except Exception as e:
+                error = e
+        error = comm.bcast(error, root=0)
+        if error is not None: raise error
 
         self._shape     = comm.bcast(self._shape,    root=0)
         self._is_real   = comm.bcast(self._is_real,  root=0)
@@ -547,6 +544,19 @@ class reader_mat():
         self._local_shape = None
         utils_par.pr0(f'--- init finished in {time.time()-st:.2f} s', comm)
 
+    def _check_files(self, files):
+        for f in files:
+            self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
+
+        # check the first file to find dimensions
+        with h5py.File(files[0], "r") as f:
+            group_key = list(f.keys())[0]
+            data = f.get(group_key)
+            if data.dtype.kind not in 'fiu':
+                self._is_real = False
+
+            self._shape = (len(files), data.shape[1], data.shape[2], data.shape[3], data.shape[0])
+
     # in this case, "time" is "step" (one file per step)
     def get_data_for_time(self, ts, te):
         stime = time.time()
-- 
2.43.0


From db2c549517af2ca9b0da5ecfa227eacf6c748388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:15 +0000
Subject: [PATCH 73/82] fix: a rank that fails to read its part of the files
 stops all ranks

---
 pyspod/utils/reader.py | 63 ++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index f959e2a..67a0702 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -271,6 +271,7 @@ class reader_2stage():
         cum_read = 0
 
         input_data = np.zeros((n_dist_time,n_all_xyz,self._nv),dtype=self._dtype)
+        error = None
 
         for k, v in self._file_time.items():
             d_js = cum_t
@@ -282,21 +283,28 @@ class reader_2stage():
             read_je = min(d_je, je)
             read_cnt = read_je - read_js
 
-            if read_cnt > 0:
-                with xr.open_dataset(k, cache=False, decode_times=False) as d:
-                    dims = d[self._variables[0]].dims
-                    first_var = list(dims)[0]
-
-                    with d.isel({first_var: slice(read_js-cum_t,read_je-cum_t)},drop=True) as dvars:
-                        for idx, var in enumerate(self._variables):
-                            # same order of dimensions for all variables
-                            vals = dvars[var].transpose(*dims).values
-                            input_data[cum_read:cum_read+read_cnt,:,idx] = vals.reshape(vals.shape[0],-1)#.copy()
-                            del vals
-                        cum_read = cum_read + read_cnt
+            if read_cnt > 0 and error is None:
+                try:
+                    with xr.open_dataset(k, cache=False, decode_times=False) as d:
+                        dims = d[self._variables[0]].dims
+                        first_var = list(dims)[0]
+
+                        with d.isel({first_var: slice(read_js-cum_t,read_je-cum_t)},drop=True) as dvars:
+                            for idx, var in enumerate(self._variables):
+                                # same order of dimensions for all variables
+                                vals = dvars[var].transpose(*dims).values
+                                input_data[cum_read:cum_read+read_cnt,:,idx] = vals.reshape(vals.shape[0],-1)#.copy()
+                                del vals
+                            cum_read = cum_read + read_cnt
+                except Exception as e:
+                    error = e
 
             cum_t = cum_t + (v[1]-v[0])
 
+        # if one rank fails, all ranks fail
+        errors = [e for e in comm.allgather(error) if e is not None]
+        if errors: raise errors[0]
+
         utils_par.pr0(f'\t\t I/O took {time.time()-stime} seconds', comm)
 
         # redistribute the data using MPI - gather all times for a spatial slice
@@ -590,28 +598,29 @@ class reader_mat():
             read_js = max(d_js, js)
             read_je = min(d_je, je)
 
-            if read_je > read_js:
-                with h5py.File(f, "r") as ff:
-                    group_key = list(ff.keys())[0]
-                    data = ff.get(group_key)
-                    data = np.array(data)
-                    data = np.transpose(data, axes=[1, 2, 3, 0])
-
-                    if data.shape != self._shape[1:]:
-                        error = f'File {f} has different shape than the first one'
-                    elif not np.isfinite(data).all():
-                        error = f'non-finite data in {f}'
-                    else:
+            if read_je > read_js and error is None:
+                try:
+                    with h5py.File(f, "r") as ff:
+                        group_key = list(ff.keys())[0]
+                        data = ff.get(group_key)
+                        data = np.array(data)
+                        data = np.transpose(data, axes=[1, 2, 3, 0])
+
+                        assert data.shape == self._shape[1:], f'File {f} has different shape than the first one'
+                        assert np.isfinite(data).all(), f'non-finite data in {f}'
+
                         input_data[cum_read,...] = data.reshape(-1,self._nv)
 
-                    del data
-                    cum_read += 1
+                        del data
+                        cum_read += 1
+                except Exception as e:
+                    error = e
 
             cum_t = cum_t + 1 # one step per file
 
         # if one rank fails, all ranks fail
         errors = [e for e in comm.allgather(error) if e is not None]
-        assert not errors, errors[0]
+        if errors: raise errors[0]
 
         # redistribute the data using MPI - gather all times for a spatial slice
         #
-- 
2.43.0


From af797d94bf80c34d206528f22b6e1be14fcca3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:52 +0000
Subject: [PATCH 74/82] fix: directories whose names contain pattern characters

---
 pyspod/utils/postproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 56612bb..78ba2b9 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -107,7 +107,7 @@ def get_modes_at_freq(results_path, freq_idx):
         m = get_data_from_file(filename)
     else:
         tmp_str = f'freq_idx_f{freq_idx:08d}_m*.npy'
-        filename = os.path.join(results_path, 'modes', tmp_str)
+        filename = os.path.join(glob.escape(results_path), 'modes', tmp_str)
         modes = sorted(glob.glob(os.path.join(filename)))
         nmodes = len(modes)
 
@@ -135,7 +135,7 @@ def get_all_modes(results_path):
     '''
     if isinstance(results_path, str):
         import glob, os
-        modes_path = os.path.join(results_path, 'modes')
+        modes_path = os.path.join(glob.escape(results_path), 'modes')
         ## one file per mode: first modes of all frequencies
         fmode0 = glob.glob(
             os.path.join(modes_path, 'freq_idx_f*_m00000000.npy'))
-- 
2.43.0


From a37ef5a7ec2836e815f716f54ebf0f3c159a5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:51 +0000
Subject: [PATCH 75/82] fix: the shape of a data matrix has the length of the
 record

---
 pyspod/pod/base.py     | 2 +-
 pyspod/utils/reader.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 9f2be56..e0a9f85 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -228,13 +228,13 @@ class Base():
         self._pr0('- getting data dimensions')
         self._nx     = x_tmp[0,...,0].size
         self._dim    = x_tmp.ndim
-        self._shape  = x_tmp.shape
         self._xdim   = x_tmp[0,...,0].ndim
         self._xshape = x_tmp[0,...,0].shape
         self._nt = 0
         for d in data_list:
             assert d[0,...].shape == data_list[0][0,...].shape
             self._nt += d.shape[0]
+        self._shape  = (self._nt,) + x_tmp.shape[1:]
 
         # # Determine whether data is real-valued or complex-valued-valued
         # # to decide on one- or two-sided spectrum from data
diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 67a0702..bf4ed94 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -54,7 +54,7 @@ class reader_1stage():
 
         self._nx = x_tmp[0,...,0].size
         self._dim = x_tmp.ndim
-        self._shape = x_tmp.shape
+        self._shape = (self._nt,) + x_tmp.shape[1:]
         self._xdim = x_tmp[0,...,0].ndim
         self._xshape = x_tmp[0,...,0].shape
         self._is_real = all(
-- 
2.43.0


From 18e18c6d80f729d860dfea90376520a3a0055123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:36 +0000
Subject: [PATCH 76/82] fix: file_dynamics names the reconstruction

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index c78bd7c..4fcc2fa 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -674,7 +674,7 @@ class Base():
                 coeffs_dir = self._coeffs_dir
             file_recons, coeffs_dir = utils_spod.compute_reconstruction(\
                 coeffs_dir=coeffs_dir, time_idx=time_idx, comm=self._comm)
-        self._file_recons = file_recons
+        self._file_dynamics = file_recons
         self._coeffs_dir = coeffs_dir
         return file_recons, coeffs_dir
 
-- 
2.43.0


From 71b248cd3e556404d0c2130aef2c215756b72c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 77/82] fix: plots show the whole domain when a coordinate does
 not change sign

---
 pyspod/utils/postproc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 78ba2b9..16a53a1 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -880,10 +880,8 @@ def plot_3d_modes_slice_at_frequency(
                 imag_ax = _apply_2d_coastlines(coastlines, imag_ax)
 
                 # axis management
-                real_ax.set_xlim(np.nanmin(xx)*1.05,np.nanmax(xx)*1.05)
-                real_ax.set_ylim(np.nanmin(yy)*1.05,np.nanmax(yy)*1.05)
-                imag_ax.set_xlim(np.nanmin(xx)*1.05,np.nanmax(xx)*1.05)
-                imag_ax.set_ylim(np.nanmin(yy)*1.05,np.nanmax(yy)*1.05)
+                real_ax = _set_2d_axes_limits(real_ax, xx, yy)
+                imag_ax = _set_2d_axes_limits(imag_ax, xx, yy)
                 real_ax, xticks, yticks = _format_axes(real_ax, xticks, yticks)
                 imag_ax, xticks, yticks = _format_axes(imag_ax, xticks, yticks)
                 if equal_axes:
@@ -922,8 +920,7 @@ def plot_3d_modes_slice_at_frequency(
                 if equal_axes:
                     real_ax.set_aspect('equal')
                 real_ax, xticks, yticks = _format_axes(real_ax, xticks, yticks)
-                real_ax.set_xlim(np.nanmin(xx)*1.05,np.nanmax(xx)*1.05)
-                real_ax.set_ylim(np.nanmin(yy)*1.05,np.nanmax(yy)*1.05)
+                real_ax = _set_2d_axes_limits(real_ax, xx, yy)
                 real_ax.set_xlabel(flag1)
                 real_ax.set_ylabel(flag2)
                 if len(title) > 1:
@@ -1506,8 +1503,11 @@ def _save_show_plots(filename, path, plt, pdf = None):
         plt.show()
 
 def _set_2d_axes_limits(ax, x1, x2):
-    ax.set_xlim(np.nanmin(x1)*1.05,np.nanmax(x1)*1.05)
-    ax.set_ylim(np.nanmin(x2)*1.05,np.nanmax(x2)*1.05)
+    ## widened, whatever the signs of the coordinates
+    lim = lambda x: (np.nanmin(x) - 0.05 * np.abs(np.nanmin(x)),
+                     np.nanmax(x) + 0.05 * np.abs(np.nanmax(x)))
+    ax.set_xlim(*lim(x1))
+    ax.set_ylim(*lim(x2))
     return ax
 
 def _apply_2d_coastlines(coastlines, ax):
-- 
2.43.0


From a38f7aa7dc0d5d4026b2b7e48bb9dd7fcf1c5d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:10 +0000
Subject: [PATCH 78/82] fix: subplots share a range of colours that holds all
 of them

---
 pyspod/utils/postproc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 16a53a1..090793c 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1252,8 +1252,11 @@ def generate_2d_subplot(
     '''
     csfont = {'fontname':get_font()}
     multiplier = 10 ** N_round
-    max_val = np.ceil (np.max(var1.real) * multiplier) / multiplier
-    min_val = np.floor(np.min(var1.real) * multiplier) / multiplier
+    ## one range of colours for all subplots
+    all_var = [v.real for v in (var1, var2, var3) if v is not None]
+    max_val = np.ceil (max(np.max(v) for v in all_var) * multiplier) / multiplier
+    min_val = np.floor(min(np.min(v) for v in all_var) * multiplier) / multiplier
+    if max_val == min_val: max_val = min_val + 1 / multiplier
     ticks_range = np.linspace(min_val, max_val, num=5)
     n_subplots = 1
     if var2 is not None: n_subplots = 2
-- 
2.43.0


From 0c1736497b24b0172e3d2b46b9f76c0adcde7d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:46 +0000
Subject: [PATCH 79/82] fix: parallel npy_load reads files of the other byte
 order

---
 pyspod/utils/parallel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index c0e9b57..d142e58 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -300,7 +300,9 @@ def npy_load(comm, filename, axis=0, count=None):
             mpi_order = MPI.ORDER_C
         else:
             mpi_order = MPI.ORDER_FORTRAN
-        datatype = dtlib.from_numpy_dtype(dtype)
+        ## MPI knows the native byte order only; the bytes are the same
+        native = dtype.newbyteorder('=')
+        datatype = dtlib.from_numpy_dtype(native)
 
         if shape[axis] > 0:
             subarray = datatype.Create_subarray(
@@ -318,7 +320,7 @@ def npy_load(comm, filename, axis=0, count=None):
         datatype.Free()
         subarray.Free()
         array = np.empty(shape, dtype, npy_order)
-        file.Read_all(array)
+        file.Read_all(array.view(native))
         file.Close()
     else:
         array = np.load(filename)
-- 
2.43.0


From bda991e09f6dd58107097e927eeb821b4790bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:13 +0000
Subject: [PATCH 80/82] fix: integer and real matrices are scaled as any other

---
 pyspod/emulation/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyspod/emulation/base.py b/pyspod/emulation/base.py
index a48a82e..508103f 100644
--- a/pyspod/emulation/base.py
+++ b/pyspod/emulation/base.py
@@ -82,7 +82,7 @@ class Base():
         if vec.shape[0] == 0:
             print('No normalization performed')
             return
-        data_out = np.zeros_like(data)
+        data_out = np.zeros(data.shape, dtype=self._get_dtype(data))
         ## a zero scale belongs to data that are zero
         vec_re = np.where(vec.real == 0, 1, vec.real)
         vec_im = np.where(vec.imag == 0, 1, vec.imag)
@@ -98,11 +98,17 @@ class Base():
         return data_out
 
 
+    def _get_dtype(self, data):
+        '''Smallest type that holds the scaled data (data may be integers)'''
+        cplx = self._data_type.lower() == 'complex'
+        return np.result_type(data.dtype, np.complex64 if cplx else np.float32)
+
+
     def descale_data(self, data, vec=None):
         if vec.shape[0] == 0:
             print('No denormalization is performed')
             return
-        data_out = np.zeros_like(data)
+        data_out = np.zeros(data.shape, dtype=self._get_dtype(data))
         if self._data_type.lower() == 'real':
             for j in range(data.shape[1]):
                 data_out[:,j]= data[:,j].real * vec.real
-- 
2.43.0


From 9e25e5984bcc6145598c273d91c6d64b8ade510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:13 +0000
Subject: [PATCH 81/82] fix: collective npy files hold arrays without elements

---
 pyspod/utils/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index d142e58..b8b1a02 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -229,7 +229,7 @@ def npy_save(comm, filename, array, axis=0):
         comm.Bcast(offset, root=0)
         datatype = dtlib.from_numpy_dtype(dtype)
 
-        if shape[axis] > 0:
+        if min(shape) > 0:
             subarray = datatype.Create_subarray(
                 sizes=sizes,
                 subsizes=shape,
@@ -304,7 +304,7 @@ def npy_load(comm, filename, axis=0, count=None):
         native = dtype.newbyteorder('=')
         datatype = dtlib.from_numpy_dtype(native)
 
-        if shape[axis] > 0:
+        if min(shape) > 0:
             subarray = datatype.Create_subarray(
                 sizes=sizes,
                 subsizes=shape,
-- 
2.43.0


From 6a9e2aef73d5ab39b486120985fd95038b0379d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:36 +0000
Subject: [PATCH 82/82] fix: nearest entries of integer axes

---
 pyspod/utils/postproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 090793c..7c63a9d 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -51,7 +51,8 @@ def find_nearest_freq(freq_req, freq):
     :rtype: tuple[float, int]
     '''
     freq = np.asarray(freq)
-    idx = (np.abs(freq - freq_req)).argmin()
+    ## (differences of small or unsigned integers may not be such)
+    idx = (np.abs(freq.astype(float) - freq_req)).argmin()
     return freq[idx], idx
 
 
@@ -77,7 +78,7 @@ def find_nearest_coords(coords, x, data_space_dim):
     idx = tuple()
     xi  = tuple()
     for i, coord in enumerate(coords):
-        tmp = np.abs(grid[i,::] - coord)
+        tmp = np.abs(grid[i,::].astype(float) - coord)
         tmp_idx = np.unravel_index(np.argmin(tmp), tmp.shape)
         tuple_idx = (i,) + tmp_idx
         xi += (grid[tuple_idx],)
-- 
2.43.0

