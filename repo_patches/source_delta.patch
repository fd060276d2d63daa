From aeba42e0e511156d35844d13d1bf71f47dfa0ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 01/96] fix: count non-zero pixels of images that are not
 square

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 0a8c1a8..cc475f9 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -107,13 +107,13 @@ template<typename FLUX_TYPE>
 int64_t count_nonzero_pixels(const sdp_Mem* image, sdp_Error* status)
 {
     int64_t num_sources = 0;
-    const int image_size = (int) sdp_mem_shape_dim(image, 0);
     sdp_MemViewCpu<const FLUX_TYPE, 2> image_;
     sdp_mem_check_and_view(image, &image_, status);
     if (*status) return 0;
-    for (int il = 0; il < image_size; ++il)
+    const int64_t size_l = image_.shape[0], size_m = image_.shape[1];
+    for (int64_t il = 0; il < size_l; ++il)
     {
-        for (int im = 0; im < image_size; ++im)
+        for (int64_t im = 0; im < size_m; ++im)
         {
             if (image_(il, im) != (FLUX_TYPE) 0) num_sources++;
         }
-- 
2.43.0


From f3f0cc380fa37b7063d8c409046f3701832ea2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 02/96] fix: use the flux type, not the direction type, in
 sdp_gridder_dft

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index cc475f9..b73a704 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1058,7 +1058,7 @@ void sdp_gridder_dft(
 {
     if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(vis);
-    const sdp_MemType flux_type = sdp_mem_type(lmn);
+    const sdp_MemType flux_type = sdp_mem_type(flux);
     const sdp_MemType dir_type = sdp_mem_type(lmn);
     const sdp_MemType uvw_type = sdp_mem_type(uvws);
     const sdp_MemType vis_type = sdp_mem_type(vis);
-- 
2.43.0


From 5504d9b21551c08329cd4eb5cda84d7843a30a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 03/96] fix: initialise all PSWF expansion coefficients when c
 is zero

---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 8d3bb47..3f34116 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -632,7 +632,7 @@ sdp_Pswf* sdp_pswf_create(int m, double c)
     pswf_segv(&plan->m, &n, &plan->c, &kd, &cv, eg);
 
     // Calculate expansion coefficients
-    double df[200];
+    double df[200] = {0.0};
     pswf_sdmn(&plan->m, &n, &plan->c, &cv, &kd, df);
     pswf_sckb(plan->m, n, plan->c, df, plan->coeff_p);
     return plan;
-- 
2.43.0


From 86f50f6c6fbf09a806b73acc84467ee035afa1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 04/96] fix: write every PSWF value when the size is odd

---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 3f34116..752329e 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -582,11 +582,12 @@ static inline void generate_pswf(
 
     // Get value at 0
     const int size = (int) pswf_.shape[0];
+    if (size < 1) return;
     pswf_(0) = 0.0;
     pswf_(size / 2) = sdp_pswf_aswfa(m, m, c, ck, 0);
 
     // Get remaining values
-    for (int i = 1; i < size / 2; i++)
+    for (int i = 1; i <= (size - 1) / 2; i++)
     {
         // Get value (plus derivative)
         const double x = 2 * ((double)i) / size;
-- 
2.43.0


From 8b151f05607e6b958c6ffddf9b8fb01be4450b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 05/96] fix: refuse grid correction of a facet outside the
 image

---
 src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
index 9d72536..92cfd2b 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
@@ -42,6 +42,15 @@ void grid_corr_pswf(
     if (*status) return;
     const int num_l = (int) sdp_mem_shape_dim(facet, 0);
     const int num_m = (int) sdp_mem_shape_dim(facet, 1);
+    const int start_l = facet_offset_l - num_l / 2 + image_size / 2;
+    const int start_m = facet_offset_m - num_m / 2 + image_size / 2;
+    if (start_l < 0 || start_l + num_l > image_size ||
+            start_m < 0 || start_m + num_m > image_size)
+    {
+        SDP_LOG_ERROR("Facet extends outside the image");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
     const double* pswf_n_coe = (const double*) sdp_mem_data_const(
             sdp_pswf_coeff(pswf_n, SDP_MEM_CPU, status)
     );
-- 
2.43.0


From 68f177d0cb1a9d087bfdc5514936c4dd7cb63f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 06/96] fix: refuse memory blocks whose size cannot be
 represented

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index b2de041..e172700 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -1,6 +1,7 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
 #include <complex>
+#include <cstdint>
 #include <cstdlib>
 #include <cstring>
 
@@ -202,6 +203,21 @@ sdp_Mem* sdp_mem_create_wrapper(
         return mem;
     }
 
+    // Check that the total size can be represented.
+    int64_t max_elements = INT64_MAX / element_size;
+    for (int32_t i = 0; i < num_dims; ++i)
+    {
+        if (shape[i] < 0 || shape[i] > max_elements)
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_CRITICAL("Array shape is invalid or too large");
+            mem->data = 0;
+            mem->num_dims = 0;
+            return mem;
+        }
+        if (shape[i] > 0) max_elements /= shape[i];
+    }
+
     // For Python compatibility, a zero-dimensional tensor is a scalar.
     mem->num_elements = 1;
     if (num_dims == 0) return mem;
-- 
2.43.0


From e21467ed30421db73284f71b6648684d626b0ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 07/96] fix: refuse memory slices that extend outside the
 source

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index e172700..ef51046 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -281,13 +281,15 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
     for (int32_t i = 0; i < num_dims_slice; ++i)
     {
         const int32_t i_dim_slice = num_dims_slice - 1 - i;
-        if (slice_shape[i_dim_slice] > src->shape[src->num_dims - 1 - i])
+        const int32_t i_dim_src = src->num_dims - 1 - i;
+        if (slice_shape[i_dim_slice] < 0 || slice_shape[i_dim_slice] >
+                src->shape[i_dim_src] - slice_offsets[i_dim_src])
         {
             *status = SDP_ERR_INVALID_ARGUMENT;
             SDP_LOG_CRITICAL(
-                    "Slice shape in dimension %d is too large: %d > %d",
-                    i_dim_slice, slice_shape[i_dim_slice],
-                    src->shape[src->num_dims - 1 - i]
+                    "Slice shape in dimension %d is invalid: %d (max is %d)",
+                    i_dim_slice, (int) slice_shape[i_dim_slice],
+                    (int) (src->shape[i_dim_src] - slice_offsets[i_dim_src])
             );
             return 0;
         }
-- 
2.43.0


From 727f2885c76fd4f838812416d7b8a59aa38eb5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 08/96] fix: keep the read-only flag in memory slices and
 aliases

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index ef51046..0b12d1a 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -310,6 +310,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
             src->type, src->location, num_dims_slice, slice_shape, stride,
             status
     );
+    mem->is_read_only = src->is_read_only;
     free(stride);
     return mem;
 }
@@ -321,6 +322,7 @@ sdp_Mem* sdp_mem_create_alias(const sdp_Mem* src)
     sdp_Mem* mem = sdp_mem_create_wrapper(src->data, src->type, src->location,
             src->num_dims, src->shape, src->stride, &status
     );
+    mem->is_read_only = src->is_read_only;
     return mem;
 }
 
-- 
2.43.0


From 48d7a8d7bc6703cf28518d961e27888d92c2405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 09/96] fix: copy memory blocks that are not densely packed
 element by element

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 52 ++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 0b12d1a..d2e808e 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -89,6 +89,39 @@ void sdp_mem_alloc(sdp_Mem* mem, sdp_Error* status)
 }
 
 
+// Returns true if the elements occupy consecutive memory, in any order.
+bool is_dense(const sdp_Mem* mem)
+{
+    if (mem->num_elements <= 1) return true;
+    int64_t expected = sdp_mem_type_size(mem->type), num_found = 1;
+    while (num_found < mem->num_elements)
+    {
+        int32_t i = 0;
+        for (; i < mem->num_dims; ++i)
+        {
+            if (mem->shape[i] > 1 && mem->stride[i] == expected) break;
+        }
+        if (i == mem->num_dims) return false;
+        expected *= mem->shape[i];
+        num_found *= mem->shape[i];
+    }
+    return true;
+}
+
+
+// Returns the byte offset of an element, given its index in C order.
+int64_t element_offset(const sdp_Mem* mem, int64_t index)
+{
+    int64_t offset = 0;
+    for (int32_t i = mem->num_dims - 1; i >= 0; --i)
+    {
+        offset += (index % mem->shape[i]) * mem->stride[i];
+        index /= mem->shape[i];
+    }
+    return offset;
+}
+
+
 // Multiply all elements of an array by the specified value.
 template<typename T>
 void scale_real(sdp_Mem* mem, double value)
@@ -333,6 +366,25 @@ sdp_Mem* sdp_mem_create_copy(
         sdp_Error* status
 )
 {
+    if (src->data && src->location == SDP_MEM_CPU && !is_dense(src))
+    {
+        // Gather the elements of a strided array into a C contiguous one.
+        sdp_Mem* packed = sdp_mem_create(
+                src->type, SDP_MEM_CPU, src->num_dims, src->shape, status
+        );
+        const int64_t element_size = sdp_mem_type_size(src->type);
+        for (int64_t i = 0; !*status && i < src->num_elements; ++i)
+        {
+            memcpy(((char*) (packed->data)) + i * element_size,
+                    ((const char*) (src->data)) + element_offset(src, i),
+                    element_size
+            );
+        }
+        if (location == SDP_MEM_CPU) return packed;
+        sdp_Mem* copy = sdp_mem_create_copy(packed, location, status);
+        sdp_mem_free(packed);
+        return copy;
+    }
     sdp_Mem* mem = sdp_mem_create_wrapper(0, src->type, location,
             src->num_dims, src->shape, src->stride, status
     );
-- 
2.43.0


From 7a65d5b68c8a01b9d66f2eca3526f0423bb593fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 10/96] fix: clear only the elements of memory blocks that are
 not densely packed

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index d2e808e..712191a 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -397,6 +397,17 @@ sdp_Mem* sdp_mem_create_copy(
 void sdp_mem_clear_contents(sdp_Mem* mem, sdp_Error* status)
 {
     if (*status || !mem || mem->num_elements == 0) return;
+    if (mem->location == SDP_MEM_CPU && !is_dense(mem))
+    {
+        const int64_t element_size = sdp_mem_type_size(mem->type);
+        for (int64_t i = 0; i < mem->num_elements; ++i)
+        {
+            memset(((char*) (mem->data)) + element_offset(mem, i),
+                    0, element_size
+            );
+        }
+        return;
+    }
     sdp_mem_clear_portion(mem, 0, mem->num_elements, status);
 }
 
-- 
2.43.0


From 96c7e935cca78e193e046f24b01b9b6895998f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 11/96] fix: keep an earlier error status in
 sdp_mem_check_same_shape

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 712191a..9c99e61 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -1483,6 +1483,8 @@ void sdp_mem_check_same_shape_at(
         int line
 )
 {
+    if (*status) return;
+
     // Skip the check if the memory object has fewer dimension - we
     // assume there will be an sdp_mem_check_num_dims that will
     // already have objected to the wrong dimensionality.
-- 
2.43.0


From 7c4cca3a2322e77ca1e31144688c8830ab28a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 12/96] fix: apply the PSWF end correction in the type of the
 kernel

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index b73a704..a4b5609 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1343,8 +1343,10 @@ void sdp_gridder_make_pswf_kernel(
     sdp_Mem* pswf = sdp_mem_create(
             sdp_mem_type(kernel), SDP_MEM_CPU, 1, pswf_shape, status
     );
-    sdp_generate_pswf(0, support * (M_PI / 2), pswf, status);
-    if (vr_size % 2 == 0) ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+    sdp_Pswf* plan = sdp_pswf_create(0, support * (M_PI / 2));
+    const int size = 0, end_correction = 1;
+    sdp_pswf_generate(plan, pswf, size, end_correction, status);
+    sdp_pswf_free(plan);
     sdp_gridder_make_kernel(pswf, kernel, status);
     sdp_mem_free(pswf);
 }
-- 
2.43.0


From cd73db50ab14ba663af00212237332fc1ecb785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 13/96] fix: refuse a w-pattern array that does not match the
 sub-grid size

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index a4b5609..31c8fc6 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1367,6 +1367,13 @@ void sdp_gridder_make_w_pattern(
     sdp_mem_check_and_view(w_pattern, &w_pattern_, status);
     const int half_size = subgrid_size / 2;
     if (*status) return;
+    if (sdp_mem_shape_dim(w_pattern, 0) != subgrid_size ||
+            sdp_mem_shape_dim(w_pattern, 1) != subgrid_size)
+    {
+        SDP_LOG_ERROR("The w-pattern must have the size of the sub-grid");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
     #pragma omp parallel for
     for (int il = 0; il < subgrid_size; ++il)
     {
-- 
2.43.0


From 0dc0e41f72c665d12defcd31a73e8ed583cd2467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 14/96] fix: refuse non-contiguous arrays when reading uvw,
 visibility or weights metadata

---
 src/ska-sdp-func/utility/sdp_data_model_checks.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_data_model_checks.c b/src/ska-sdp-func/utility/sdp_data_model_checks.c
index 7b15850..caf7e47 100644
--- a/src/ska-sdp-func/utility/sdp_data_model_checks.c
+++ b/src/ska-sdp-func/utility/sdp_data_model_checks.c
@@ -63,6 +63,7 @@ void sdp_data_model_get_uvw_metadata(
     const int32_t uvw_coord_size = 3;
     sdp_mem_check_num_dims(uvw, uvw_num_dims, status);
     sdp_mem_check_dim_size(uvw, uvw_coord_dim, uvw_coord_size, status);
+    sdp_mem_check_c_contiguity(uvw, status);
 
     if (type) *type = sdp_mem_type(uvw);
     if (location) *location = sdp_mem_location(uvw);
@@ -136,6 +137,7 @@ void sdp_data_model_get_vis_metadata(
     }
     const int32_t vis_dims = 4;
     sdp_mem_check_num_dims(vis, vis_dims, status);
+    sdp_mem_check_c_contiguity(vis, status);
     if (type) *type = sdp_mem_type(vis);
     if (location) *location = sdp_mem_location(vis);
     if (num_times) *num_times = sdp_vis_num_times(vis);
@@ -226,6 +228,7 @@ void sdp_data_model_get_weights_metadata(
         SDP_LOG_ERROR("The weights array cannot be complex");
         return;
     }
+    sdp_mem_check_c_contiguity(weights, status);
     if (type) *type = sdp_mem_type(weights);
     if (location) *location = sdp_mem_location(weights);
     if (num_times) *num_times = sdp_weights_num_times(weights);
-- 
2.43.0


From 86b9e2e0d2478a6e3eeac14c3bf890768e2564ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 15/96] fix: ignore visibilities below the lower edge of the
 weights grid

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index c8e4788..0b0464b 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -50,7 +50,8 @@ static void weights_grid_write(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                if (idx_u < 0 || idx_u >= grid_size ||
+                        idx_v < 0 || idx_v >= grid_size) continue;
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -110,7 +111,8 @@ static void sum_weights_calc(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                if (idx_u < 0 || idx_u >= grid_size ||
+                        idx_v < 0 || idx_v >= grid_size) continue;
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -181,7 +183,8 @@ static void uniform_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_u < grid_size &&
+                        idx_v >= 0 && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
@@ -245,7 +248,8 @@ static void briggs_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_u < grid_size &&
+                        idx_v >= 0 && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
-- 
2.43.0


From 703c7451242fa627114b860f0d841a9cdb15267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 16/96] fix: refuse weighting arrays whose shapes do not fit
 together

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 40 ++++++++++++-------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index 0b0464b..69f01f4 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -308,13 +308,13 @@ void sdp_weighting_uniform(
             status
     );
 
-    sdp_data_model_get_weights_metadata(output_weight,
-            &weights_type,
-            &weights_location,
-            &num_times,
-            &num_baselines,
-            &num_channels,
-            &num_pols,
+    sdp_data_model_check_weights(output_weight,
+            weights_type,
+            weights_location,
+            num_times,
+            num_baselines,
+            num_channels,
+            num_pols,
             status
     );
 
@@ -329,6 +329,10 @@ void sdp_weighting_uniform(
     sdp_mem_check_location(freq_hz, weights_location, status);
     sdp_mem_check_location(weights_grid_uv, weights_location, status);
 
+    const int64_t freq_shape[] = {num_channels};
+    sdp_mem_check_shape(freq_hz, 1, freq_shape, status);
+    sdp_mem_check_c_contiguity(freq_hz, status);
+
     sdp_mem_check_writeable(output_weight, status);
     sdp_mem_check_writeable(weights_grid_uv, status);
 
@@ -337,6 +341,8 @@ void sdp_weighting_uniform(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
     if (*status) return;
 
     // Call the appropriate version of the kernel.
@@ -540,13 +546,13 @@ void sdp_weighting_briggs(
             status
     );
 
-    sdp_data_model_get_weights_metadata(output_weight,
-            &weights_type,
-            &weights_location,
-            &num_times,
-            &num_baselines,
-            &num_channels,
-            &num_pols,
+    sdp_data_model_check_weights(output_weight,
+            weights_type,
+            weights_location,
+            num_times,
+            num_baselines,
+            num_channels,
+            num_pols,
             status
     );
 
@@ -561,6 +567,10 @@ void sdp_weighting_briggs(
     sdp_mem_check_location(freq_hz, weights_location, status);
     sdp_mem_check_location(weights_grid_uv, weights_location, status);
 
+    const int64_t freq_shape[] = {num_channels};
+    sdp_mem_check_shape(freq_hz, 1, freq_shape, status);
+    sdp_mem_check_c_contiguity(freq_hz, status);
+
     sdp_mem_check_writeable(output_weight, status);
     sdp_mem_check_writeable(weights_grid_uv, status);
 
@@ -569,6 +579,8 @@ void sdp_weighting_briggs(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
     if (*status) return;
 
     // Call the appropriate version of the kernel.
-- 
2.43.0


From 83b5feb75ab6efd1e7f5af89a4d13aeb0f8529ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 17/96] fix: check that DFT source directions are
 two-dimensional

---
 src/ska-sdp-func/visibility/sdp_dft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/visibility/sdp_dft.cpp b/src/ska-sdp-func/visibility/sdp_dft.cpp
index 4f0876c..518e212 100644
--- a/src/ska-sdp-func/visibility/sdp_dft.cpp
+++ b/src/ska-sdp-func/visibility/sdp_dft.cpp
@@ -380,7 +380,8 @@ static void check_params_v01(
     sdp_mem_check_location(source_directions, vis_location, status);
     sdp_mem_check_c_contiguity(source_directions, status);
     const int64_t num_components = sdp_mem_shape_dim(source_directions, 0);
-    sdp_mem_check_dim_size(source_directions, 1, 3, status);
+    const int64_t sd_shape[] = {num_components, 3};
+    sdp_mem_check_shape(source_directions, 2, sd_shape, status);
 
     // Check metadata for source fluxes.
     if (*status) return;
-- 
2.43.0


From 122f054b56e023b24da1582c227dcd058b78fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 18/96] fix: take the middle element as the median in the
 flagger

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 6668977..d37fa29 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -82,7 +82,7 @@ static void filler(AA* arr, VL val, int length)
 
 static double median_calc(double* arr, int n)
 {
-    int mid = int(round(0.5 * n));
+    int mid = n / 2;
     double median = arr[mid];
     return median;
 }
@@ -90,7 +90,7 @@ static double median_calc(double* arr, int n)
 
 static double median_dev_calc(double* arr, int n, double median)
 {
-    int mid = int(round(0.5 * n));
+    int mid = n / 2;
     double* devs = new double[n];
     for (int i = 0; i < n; i++)
     {
-- 
2.43.0


From 68ffef8316808accf7b4b9e32326a029ae4df595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 19/96] fix: let flagging windows reach the first channel

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index d37fa29..5b2aad4 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -229,7 +229,7 @@ static void flagger_dynamic_threshold(
                             {
                                 for (int w = 0; w < window; w++)
                                 {
-                                    if (c - w - 1 > 0)
+                                    if (c - w - 1 >= 0)
                                     {
                                         pos = baseline_pos + (c - w - 1) *
                                                 num_pols + p;
@@ -314,7 +314,7 @@ static void flagger_dynamic_threshold(
                                 {
                                     for (int w = 0; w < window; w++)
                                     {
-                                        if (c - w - 1 > 0)
+                                        if (c - w - 1 >= 0)
                                         {
                                             pos = baseline_pos + (c - w - 1) *
                                                     num_pols + p;
-- 
2.43.0


From fdb1ec08ff4fa13e5a66941f06beba08a74c9a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 20/96] fix: refuse flags whose shape differs from the
 visibilities

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 5b2aad4..55fea27 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -34,6 +34,15 @@ static void check_params_dynamic(
         SDP_LOG_ERROR("Visibility and flags arrays must be 4D.");
         return;
     }
+    for (int i = 0; i < 4; ++i)
+    {
+        if (sdp_mem_shape_dim(vis, i) != sdp_mem_shape_dim(flags, i))
+        {
+            *status = SDP_ERR_RUNTIME;
+            SDP_LOG_ERROR("Visibility and flags arrays must have the same shape.");
+            return;
+        }
+    }
     if (!sdp_mem_is_complex(vis))
     {
         *status = SDP_ERR_DATA_TYPE;
-- 
2.43.0


From 598d81ef51515f2019b1f3b05e2107fe963fce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 21/96] fix: refuse flagger steps and windows without any
 samples

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 55fea27..4a640e3 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -380,6 +380,14 @@ void sdp_flagger_dynamic_threshold(
     const int num_channels      = (int) sdp_mem_shape_dim(vis, 2);
     const int num_pols   = (int) sdp_mem_shape_dim(vis, 3);
 
+    if (sampling_step < 1 || sampling_step > num_channels ||
+            window_median_history < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Sampling step or median window is out of range.");
+        return;
+    }
+
     if (sdp_mem_location(vis) == SDP_MEM_CPU)
     {
         if (sdp_mem_type(vis) == SDP_MEM_COMPLEX_FLOAT &&
-- 
2.43.0


From 7145416826dea58468e1ba2341288152e73d4c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:53 +0000
Subject: [PATCH 22/96] fix: apply the documented channel limits to decreasing
 coordinates too

---
 .../grid_data/sdp_gridder_clamp_channels.cpp  | 33 +++++++++++++++----
 .../grid_data/sdp_gridder_clamp_channels.cu   | 33 +++++++++++++++----
 .../grid_data/sdp_gridder_clamp_channels.h    |  4 +--
 3 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
index f218a78..1621049 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
@@ -43,9 +43,16 @@ void clamp_channels_single(
         const double eta_u = MAX(rel_min_u, rel_max_u) / 2147483645.0;
         if (fabs(du) > eta_u) // Use a safe value for eta.
         {
-            const int64_t mins = (int64_t) (ceil((min_u - u0) / du));
-            const int64_t maxs = (int64_t) (ceil((max_u - u0) / du));
             const int is_positive = du > 0;
+            const double rmin = (min_u - u0) / du;
+            const double rmax = (max_u - u0) / du;
+            // The minimum is inclusive and the maximum exclusive for both signs.
+            const int64_t mins = (int64_t) (
+                is_positive ? ceil(rmin) : floor(rmin) + 1
+            );
+            const int64_t maxs = (int64_t) (
+                is_positive ? ceil(rmax) : floor(rmax) + 1
+            );
             const int start_ch_ = is_positive ? (int) mins : (int) maxs;
             const int end_ch_ = is_positive ? (int) maxs : (int) mins;
             start_chs_out_(i) = MAX(start_chs_in_(i), start_ch_);
@@ -104,9 +111,16 @@ void clamp_channels_uv(
         const double eta_u = MAX(rel_min_u, rel_max_u) / 2147483645.0;
         if (fabs(du) > eta_u) // Use a safe value for eta.
         {
-            const int64_t mins = (int64_t) (ceil((min_u - u0) / du));
-            const int64_t maxs = (int64_t) (ceil((max_u - u0) / du));
             const int is_positive = du > 0;
+            const double rmin = (min_u - u0) / du;
+            const double rmax = (max_u - u0) / du;
+            // The minimum is inclusive and the maximum exclusive for both signs.
+            const int64_t mins = (int64_t) (
+                is_positive ? ceil(rmin) : floor(rmin) + 1
+            );
+            const int64_t maxs = (int64_t) (
+                is_positive ? ceil(rmax) : floor(rmax) + 1
+            );
             const int start_ch_ = is_positive ? (int) mins : (int) maxs;
             const int end_ch_ = is_positive ? (int) maxs : (int) mins;
             start_chs_out_(i) = MAX(start_chs_in_(i), start_ch_);
@@ -132,9 +146,16 @@ void clamp_channels_uv(
         const double eta_v = MAX(rel_min_v, rel_max_v) / 2147483645.0;
         if (fabs(dv) > eta_v) // Use a safe value for eta.
         {
-            const int64_t mins = (int64_t) (ceil((min_v - v0) / dv));
-            const int64_t maxs = (int64_t) (ceil((max_v - v0) / dv));
             const int is_positive = dv > 0;
+            const double rmin = (min_v - v0) / dv;
+            const double rmax = (max_v - v0) / dv;
+            // The minimum is inclusive and the maximum exclusive for both signs.
+            const int64_t mins = (int64_t) (
+                is_positive ? ceil(rmin) : floor(rmin) + 1
+            );
+            const int64_t maxs = (int64_t) (
+                is_positive ? ceil(rmax) : floor(rmax) + 1
+            );
             const int start_ch_ = is_positive ? (int) mins : (int) maxs;
             const int end_ch_ = is_positive ? (int) maxs : (int) mins;
             start_chs_out_(i) = MAX(start_chs_out_(i), start_ch_);
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cu b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cu
index 07a6316..f0dd04b 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cu
@@ -31,9 +31,16 @@ __global__ void sdp_gridder_clamp_channels_single(
     const double eta_u = MAX(rel_min_u, rel_max_u) / 2147483645.0;
     if (fabs(du) > eta_u) // Use a safe value for eta.
     {
-        const int64_t mins = (int64_t) (ceil((min_u - u0) / du));
-        const int64_t maxs = (int64_t) (ceil((max_u - u0) / du));
         const int is_positive = du > 0;
+        const double rmin = (min_u - u0) / du;
+        const double rmax = (max_u - u0) / du;
+        // The minimum is inclusive and the maximum exclusive for both signs.
+        const int64_t mins = (int64_t) (
+            is_positive ? ceil(rmin) : floor(rmin) + 1
+        );
+        const int64_t maxs = (int64_t) (
+            is_positive ? ceil(rmax) : floor(rmax) + 1
+        );
         const int start_ch_ = is_positive ? (int) mins : (int) maxs;
         const int end_ch_ = is_positive ? (int) maxs : (int) mins;
         start_ch_out(i) = MAX(start_ch_in(i), start_ch_);
@@ -80,9 +87,16 @@ __global__ void sdp_gridder_clamp_channels_uv(
     const double eta_u = MAX(rel_min_u, rel_max_u) / 2147483645.0;
     if (fabs(du) > eta_u) // Use a safe value for eta.
     {
-        const int64_t mins = (int64_t) (ceil((min_u - u0) / du));
-        const int64_t maxs = (int64_t) (ceil((max_u - u0) / du));
         const int is_positive = du > 0;
+        const double rmin = (min_u - u0) / du;
+        const double rmax = (max_u - u0) / du;
+        // The minimum is inclusive and the maximum exclusive for both signs.
+        const int64_t mins = (int64_t) (
+            is_positive ? ceil(rmin) : floor(rmin) + 1
+        );
+        const int64_t maxs = (int64_t) (
+            is_positive ? ceil(rmax) : floor(rmax) + 1
+        );
         const int start_ch_ = is_positive ? (int) mins : (int) maxs;
         const int end_ch_ = is_positive ? (int) maxs : (int) mins;
         start_ch_out(i) = MAX(start_ch_in(i), start_ch_);
@@ -108,9 +122,16 @@ __global__ void sdp_gridder_clamp_channels_uv(
     const double eta_v = MAX(rel_min_v, rel_max_v) / 2147483645.0;
     if (fabs(dv) > eta_v) // Use a safe value for eta.
     {
-        const int64_t mins = (int64_t) (ceil((min_v - v0) / dv));
-        const int64_t maxs = (int64_t) (ceil((max_v - v0) / dv));
         const int is_positive = dv > 0;
+        const double rmin = (min_v - v0) / dv;
+        const double rmax = (max_v - v0) / dv;
+        // The minimum is inclusive and the maximum exclusive for both signs.
+        const int64_t mins = (int64_t) (
+            is_positive ? ceil(rmin) : floor(rmin) + 1
+        );
+        const int64_t maxs = (int64_t) (
+            is_positive ? ceil(rmax) : floor(rmax) + 1
+        );
         const int start_ch_ = is_positive ? (int) mins : (int) maxs;
         const int end_ch_ = is_positive ? (int) maxs : (int) mins;
         start_ch_out(i) = MAX(start_ch_out(i), start_ch_);
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h
index 76fc2ad..879161c 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h
@@ -148,8 +148,8 @@ void sdp_gridder_clamp_channels_inline(
     }
     else if (du < -eta)
     {
-        const int64_t start_ch_ = int64_t(ceil((max_u - u0) / du));
-        const int64_t end_ch_ = int64_t(ceil((min_u - u0) / du));
+        const int64_t start_ch_ = int64_t(floor((max_u - u0) / du)) + 1;
+        const int64_t end_ch_ = int64_t(floor((min_u - u0) / du)) + 1;
         *start_ch = MAX(*start_ch, start_ch_);
         *end_ch = MIN(*end_ch, end_ch_);
     }
-- 
2.43.0


From 18dee5b209ca591ab106951ea477eb94b3059cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 23/96] fix: release the layout description held by an FFT plan

---
 src/ska-sdp-func/fourier_transforms/sdp_fft.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 1d11978..372e970 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -612,9 +612,6 @@ void sdp_fft_create_pocketfft(
     const int32_t num_dims = sdp_mem_num_dims(input);
 
     // Allocate information about data layout.
-    // (Note that this is a std::vector, but was originally allocated
-    //  using calloc. There's a chance this might cause problems with
-    //  certain standard library implementations!)
     for (int i = 0; i < num_dims; i++)
     {
         fft->shape.push_back(sdp_mem_shape_dim(input, i));
@@ -825,7 +822,7 @@ sdp_Fft* sdp_fft_create(
     if (*status) return NULL;
 
     // Allocate space for a plan.
-    sdp_Fft* fft = (sdp_Fft*) calloc(1, sizeof(sdp_Fft));
+    sdp_Fft* fft = new sdp_Fft();
     fft->input = sdp_mem_create_alias(input);
     fft->output = sdp_mem_create_alias(output);
     fft->num_dims = num_dims_fft;
@@ -947,17 +944,11 @@ void sdp_fft_free(sdp_Fft* fft)
 #endif
 #ifdef SDP_HAVE_MKL
     (void) DftiFreeDescriptor(&fft->mkl_plan);
-#endif
-#ifdef SDP_USE_POCKETFFT
-    fft->shape.clear();
-    fft->stride_in.clear();
-    fft->stride_out.clear();
-    fft->axes.clear();
 #endif
     sdp_mem_ref_dec(fft->input);
     sdp_mem_ref_dec(fft->output);
     sdp_mem_free(fft->temp);
-    free(fft);
+    delete fft;
 }
 
 
-- 
2.43.0


From 28e176f7ed7ec2611ea7aa78c63ea557fb87a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 24/96] fix: refuse FFT data that cannot be viewed as
 two-dimensional

---
 src/ska-sdp-func/fourier_transforms/sdp_fft.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 372e970..fc5882c 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -958,6 +958,7 @@ static void fft_norm(sdp_Mem* data, sdp_Error* status)
     if (*status) return;
     sdp_MemViewCpu<DATA_TYPE, 2> data_;
     sdp_mem_check_and_view(data, &data_, status);
+    if (*status) return;
     const int num_x = (int) data_.shape[0];
     const int num_y = (int) data_.shape[1];
     const double factor = 1.0 / (num_x * num_y);
@@ -1040,6 +1041,7 @@ static void fft_phase(sdp_Mem* data, sdp_Error* status)
     if (*status) return;
     sdp_MemViewCpu<DATA_TYPE, 2> data_;
     sdp_mem_check_and_view(data, &data_, status);
+    if (*status) return;
     const int num_x = (int) data_.shape[0];
     const int num_y = (int) data_.shape[1];
     #pragma omp parallel for
-- 
2.43.0


From 1e1deae12da920cfcbab5ce28a82193014e5e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 25/96] fix: convolve images with an odd side length correctly

The padding and trimming helpers inferred the row length from the size of
the padding on one side, which is wrong by one when the padding is odd: the
data were skewed and the output was written out of bounds. Element -1 of
the work buffer was read when no padding was needed.
---
 .../numeric_functions/sdp_fft_convolution.cpp | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 65866b2..bb28bc7 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -62,12 +62,11 @@ inline void sdp_pad_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t padded_cols
 )
 {
     int64_t i = 0, j = 0;
-    // int64_t padded_rows = rows + 2*pad_rows;
-    int64_t padded_cols = cols + 2 * pad_cols;
 
     for (i = 0; i < rows; i++)
     {
@@ -87,21 +86,22 @@ inline void sdp_remove_padding_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t original_rows,
+        int64_t original_cols
 )
 {
     int64_t i = 0, j = 0;
-    int64_t original_rows = rows - 2 * pad_rows;
-    int64_t original_cols = cols - 2 * pad_cols;
 
     for (i = 0; i < original_rows; i++)
     {
         for (j = 0; j < original_cols; j++)
         {
-            data[i * original_cols +
-                    j] =
-                    padded_data[(i + (pad_rows - 1)) * cols +
-                            (j + (pad_cols - 1))];
+            // The result of the convolution is circular, so wrap the index
+            // if there is no padding in front of the data.
+            const int64_t i_pad = (i + (pad_rows - 1) + rows) % rows;
+            const int64_t j_pad = (j + (pad_cols - 1) + cols) % cols;
+            data[i * original_cols + j] = padded_data[i_pad * cols + j_pad];
         }
     }
 }
@@ -162,7 +162,9 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in1 = (pad_dim - in1_dim) / 2;
 
     // pad in1
-    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim, extra_in1, extra_in1);
+    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim,
+            extra_in1, extra_in1, pad_dim
+    );
 
     // create memory to save padded input in2
     sdp_Mem* in2_pad_mem = sdp_mem_create(data_type,
@@ -178,7 +180,9 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in2 = (pad_dim - in2_dim) / 2;
 
     // pad in2
-    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim, extra_in2, extra_in2);
+    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim,
+            extra_in2, extra_in2, pad_dim
+    );
 
     // get FFT of padded in1
     sdp_Fft* in1_fft_plan = sdp_fft_create(in1_pad_mem,
@@ -235,7 +239,9 @@ static void sdp_fft_convolution_cpu(
             pad_dim,
             pad_dim,
             extra_in1,
-            extra_in1
+            extra_in1,
+            in1_dim,
+            in1_dim
     );
 
     sdp_mem_ref_dec(in1_pad_mem);
-- 
2.43.0


From a0c39a21a13c466d6b63f4e1b9aff4485888f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 26/96] fix: refuse convolution arrays that do not match each
 other

The second input was not checked at all, and an output smaller than the
first input was written out of bounds.
---
 .../numeric_functions/sdp_fft_convolution.cpp | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index bb28bc7..9c9cf00 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -565,17 +565,19 @@ void sdp_fft_convolution(
         return;
     }
 
-    if (sdp_mem_location(in1) != sdp_mem_location(out))
+    if (sdp_mem_location(in1) != sdp_mem_location(out) ||
+            sdp_mem_location(in1) != sdp_mem_location(in2))
     {
         *status = SDP_ERR_MEM_LOCATION;
         SDP_LOG_ERROR("Memory location mismatch");
         return;
     }
 
-    if (sdp_mem_type(in1) != sdp_mem_type(out))
+    if (sdp_mem_type(in1) != sdp_mem_type(out) ||
+            sdp_mem_type(in1) != sdp_mem_type(in2))
     {
         *status = SDP_ERR_DATA_TYPE;
-        SDP_LOG_ERROR("Both input and output must be of the same data type");
+        SDP_LOG_ERROR("Both inputs and output must be of the same data type");
         return;
     }
 
@@ -586,6 +588,30 @@ void sdp_fft_convolution(
         return;
     }
 
+    if (sdp_mem_num_dims(in1) != 2 || sdp_mem_num_dims(in2) != 2 ||
+            sdp_mem_num_dims(out) != 2)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Arrays must be 2D");
+        return;
+    }
+
+    if (sdp_mem_shape_dim(out, 0) != in1_dim_0 ||
+            sdp_mem_shape_dim(out, 1) != in1_dim_1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Output must be the same shape as input array 1");
+        return;
+    }
+
+    if (in1_dim_0 < 1 || in2_dim_0 < 1 || !sdp_mem_is_c_contiguous(in1) ||
+            !sdp_mem_is_c_contiguous(in2) || !sdp_mem_is_c_contiguous(out))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Arrays must be C contiguous and not empty");
+        return;
+    }
+
     if (in1_dim_0 != in1_dim_1)
     {
         *status = SDP_ERR_DATA_TYPE;
-- 
2.43.0


From ffe8a613ed03534ee55f0adcb0d68f4d4d3dcca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 27/96] fix: start counting and sorting at the first tile a
 visibility overlaps

The lower limit of the tile range in u was stored in the variable for v, so
it stayed at zero and every tile to the left was counted as well.
---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 26629dc..aa3875d 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -82,7 +82,7 @@ static void sdp_tile_count_simple(
                     int tile_v_max = 0;
 
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
@@ -187,7 +187,7 @@ static void sdp_bucket_sort_simple(
                     int tile_v_min = 0;
                     int tile_v_max = 0;
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
@@ -274,7 +274,7 @@ static void tiled_indexing(
                     int tile_v_min = 0;
                     int tile_v_max = 0;
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
-- 
2.43.0


From 122c18da9e90f93b5ffec53fe518934180fd6bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 28/96] fix: store the sorted coordinates when indexing tiles
 on the CPU

The CPU version left sorted_uu and sorted_vv at zero; the GPU version fills
them as documented.
---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index aa3875d..7b2265a 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -230,6 +230,8 @@ static void tiled_indexing(
         const int64_t top_left_u,
         const int64_t top_left_v,
         int* tile_offsets,
+        UVW_TYPE* sorted_uu,
+        UVW_TYPE* sorted_vv,
         int* sorted_vis_index,
         int* sorted_tile,
         const double cell_size_rad
@@ -285,6 +287,8 @@ static void tiled_indexing(
                         {
                             int off = tile_offsets[pu + pv * num_tiles_u];
                             tile_offsets[pu + pv * num_tiles_u] += 1;
+                            sorted_uu[off] = pos_u;
+                            sorted_vv[off] = pos_v;
                             for (int i = 0; i < num_pol; i++)
                             {
                                 sorted_vis_index[off] = i_vis + i;
@@ -778,6 +782,8 @@ void sdp_tiled_indexing(
                     top_left_u,
                     top_left_v,
                     (int*)sdp_mem_data(tile_offsets),
+                    (double*)sdp_mem_data(sorted_uu),
+                    (double*)sdp_mem_data(sorted_vv),
                     (int*)sdp_mem_data(sorted_vis_index),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
@@ -800,6 +806,8 @@ void sdp_tiled_indexing(
                     top_left_u,
                     top_left_v,
                     (int*)sdp_mem_data(tile_offsets),
+                    (float*)sdp_mem_data(sorted_uu),
+                    (float*)sdp_mem_data(sorted_vv),
                     (int*)sdp_mem_data(sorted_vis_index),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
-- 
2.43.0


From c2ddefe3855a96760ebf0a7227b563e9b92a6e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 29/96] fix: sort complex visibilities as complex values on the
 CPU

The visibilities were read as if they were real, so that the sorted values
were real and imaginary parts of other visibilities.
---
 .../visibility/sdp_tiled_functions.cpp           | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 7b2265a..db1831b 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -579,9 +579,11 @@ void sdp_bucket_sort(
     {
         if (uvw_type == SDP_MEM_DOUBLE &&
                 weight_type == SDP_MEM_DOUBLE &&
+                vis_type == SDP_MEM_COMPLEX_DOUBLE &&
+                sdp_mem_type(sorted_vis) == SDP_MEM_COMPLEX_DOUBLE &&
                 freq_type == SDP_MEM_DOUBLE)
         {
-            sdp_bucket_sort_simple<double, double, double, double>(
+            sdp_bucket_sort_simple<double, double, std::complex<double>, double>(
                     support,
                     num_times,
                     num_baselines,
@@ -591,7 +593,7 @@ void sdp_bucket_sort(
                     inv_tile_size_v,
                     (const double*) sdp_mem_data_const(uvw),
                     (const double*)sdp_mem_data_const(freqs),
-                    (const double*)sdp_mem_data_const(vis),
+                    (const std::complex<double>*)sdp_mem_data_const(vis),
                     (const double*)sdp_mem_data_const(weights),
                     num_tiles_u,
                     top_left_u,
@@ -599,7 +601,7 @@ void sdp_bucket_sort(
                     (int*)sdp_mem_data(tile_offsets),
                     (double*)sdp_mem_data(sorted_uu),
                     (double*)sdp_mem_data(sorted_vv),
-                    (double*)sdp_mem_data(sorted_vis),
+                    (std::complex<double>*)sdp_mem_data(sorted_vis),
                     (double*)sdp_mem_data(sorted_weight),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
@@ -607,9 +609,11 @@ void sdp_bucket_sort(
         }
         else if (uvw_type == SDP_MEM_FLOAT &&
                 weight_type == SDP_MEM_FLOAT &&
+                vis_type == SDP_MEM_COMPLEX_FLOAT &&
+                sdp_mem_type(sorted_vis) == SDP_MEM_COMPLEX_FLOAT &&
                 freq_type == SDP_MEM_FLOAT)
         {
-            sdp_bucket_sort_simple<float, float, float, float>(
+            sdp_bucket_sort_simple<float, float, std::complex<float>, float>(
                     support,
                     num_times,
                     num_baselines,
@@ -619,7 +623,7 @@ void sdp_bucket_sort(
                     inv_tile_size_v,
                     (const float*) sdp_mem_data_const(uvw),
                     (const float*)sdp_mem_data_const(freqs),
-                    (const float*)sdp_mem_data_const(vis),
+                    (const std::complex<float>*)sdp_mem_data_const(vis),
                     (const float*)sdp_mem_data_const(weights),
                     num_tiles_u,
                     top_left_u,
@@ -627,7 +631,7 @@ void sdp_bucket_sort(
                     (int*)sdp_mem_data(tile_offsets),
                     (float*)sdp_mem_data(sorted_uu),
                     (float*)sdp_mem_data(sorted_vv),
-                    (float*)sdp_mem_data(sorted_vis),
+                    (std::complex<float>*)sdp_mem_data(sorted_vis),
                     (float*)sdp_mem_data(sorted_weight),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
-- 
2.43.0


From d41a2f398b1c8257de832daa718d4e017192e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 30/96] fix: refuse tile arrays that do not match instead of
 writing past them

Counting ignored the status on entry, failed checks did not stop any of the
functions, and single precision coordinates were silently not counted.
---
 .../visibility/sdp_tiled_functions.cpp        | 159 +++++++++++++++---
 1 file changed, 137 insertions(+), 22 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index db1831b..5053304 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -303,6 +303,52 @@ static void tiled_indexing(
 }
 
 
+static void check_tiling(
+        const int grid_size,
+        const int64_t tile_size_u,
+        const int64_t tile_size_v,
+        const int64_t support,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (grid_size <= 0 || tile_size_u <= 0 || tile_size_v <= 0 || support < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Grid and tile sizes must be positive, and the support "
+                "must not be negative"
+        );
+    }
+}
+
+
+static void check_array(
+        const sdp_Mem* mem,
+        const sdp_MemType type,
+        const sdp_MemLocation location,
+        const int64_t min_elements,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (sdp_mem_type(mem) != type)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+    }
+    else if (sdp_mem_location(mem) != location)
+    {
+        *status = SDP_ERR_MEM_LOCATION;
+        SDP_LOG_ERROR("Memory location mismatch");
+    }
+    else if (sdp_mem_num_elements(mem) < min_elements)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Array is too small");
+    }
+}
+
+
 void sdp_count_and_prefix_sum(
         const sdp_Mem* uvw,
         const sdp_Mem* freqs,
@@ -319,10 +365,8 @@ void sdp_count_and_prefix_sum(
         sdp_Error* status
 )
 {
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(tile_offsets, status);
-    sdp_mem_clear_contents(num_points_in_tiles, status);
-    sdp_mem_clear_contents(num_skipped, status);
+    check_tiling(grid_size, tile_size_u, tile_size_v, support, status);
+    if (*status) return;
 
     sdp_MemLocation vis_location = sdp_mem_location(vis);
     sdp_MemType vis_type = sdp_mem_type(vis);
@@ -365,6 +409,20 @@ void sdp_count_and_prefix_sum(
             num_baselines,
             status
     );
+    check_array(freqs, freq_type, vis_location, num_channels, status);
+    check_array(tile_offsets, SDP_MEM_INT, vis_location,
+            num_tiles + 1, status
+    );
+    check_array(num_points_in_tiles, SDP_MEM_INT, vis_location,
+            num_tiles, status
+    );
+    check_array(num_skipped, SDP_MEM_INT, vis_location, 1, status);
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(tile_offsets, status);
+    sdp_mem_clear_contents(num_points_in_tiles, status);
+    sdp_mem_clear_contents(num_skipped, status);
+    if (*status) return;
 
     if (vis_location == SDP_MEM_CPU)
     {
@@ -388,15 +446,42 @@ void sdp_count_and_prefix_sum(
                     (int*)sdp_mem_data(num_points_in_tiles),
                     (int*)sdp_mem_data(num_skipped)
             );
-
-            sdp_prefix_sum(
-                    num_tiles,
-                    (const int*)sdp_mem_data_const(num_points_in_tiles),
-                    (int*)sdp_mem_data(tile_offsets)
+        }
+        else if (uvw_type == SDP_MEM_FLOAT &&
+                freq_type == SDP_MEM_FLOAT)
+        {
+            sdp_tile_count_simple(
+                    support,
+                    num_times,
+                    num_baselines,
+                    num_channels,
+                    grid_size,
+                    inv_tile_size_u,
+                    inv_tile_size_v,
+                    (const float*) sdp_mem_data_const(uvw),
+                    (const float*)sdp_mem_data_const(freqs),
+                    num_tiles_u,
+                    top_left_u,
+                    top_left_v,
+                    cell_size_rad,
+                    (int*)sdp_mem_data(num_points_in_tiles),
+                    (int*)sdp_mem_data(num_skipped)
             );
-
-            *num_visibilites = *((int*)sdp_mem_data(tile_offsets) + num_tiles);
         }
+        else
+        {
+            *status = SDP_ERR_DATA_TYPE;
+            SDP_LOG_ERROR("Unsupported data type(s)");
+            return;
+        }
+
+        sdp_prefix_sum(
+                num_tiles,
+                (const int*)sdp_mem_data_const(num_points_in_tiles),
+                (int*)sdp_mem_data(tile_offsets)
+        );
+
+        *num_visibilites = *((int*)sdp_mem_data(tile_offsets) + num_tiles);
     }
     else if (vis_location == SDP_MEM_GPU)
     {
@@ -514,12 +599,8 @@ void sdp_bucket_sort(
 )
 {
     if (*status) return;
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(sorted_uu, status);
-    sdp_mem_clear_contents(sorted_tile, status);
-    sdp_mem_clear_contents(sorted_vv, status);
-    sdp_mem_clear_contents(sorted_weight, status);
-    sdp_mem_clear_contents(sorted_vis, status);
+    check_tiling(grid_size, tile_size_u, tile_size_v, support, status);
+    if (*status) return;
 
     sdp_MemLocation vis_location = sdp_mem_location(vis);
     sdp_MemType vis_type = sdp_mem_type(vis);
@@ -574,6 +655,27 @@ void sdp_bucket_sort(
             num_pols,
             status
     );
+    check_array(freqs, freq_type, vis_location, num_channels, status);
+    check_array(tile_offsets, SDP_MEM_INT, vis_location,
+            num_tiles + 1, status
+    );
+    check_array(sorted_tile, SDP_MEM_INT, vis_location, 0, status);
+    check_array(sorted_uu, uvw_type, vis_location, 0, status);
+    check_array(sorted_vv, uvw_type, vis_location, 0, status);
+    check_array(sorted_weight, weight_type, vis_location, 0, status);
+    if (!*status && num_pols != 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Only one polarisation can be sorted");
+    }
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(sorted_uu, status);
+    sdp_mem_clear_contents(sorted_tile, status);
+    sdp_mem_clear_contents(sorted_vv, status);
+    sdp_mem_clear_contents(sorted_weight, status);
+    sdp_mem_clear_contents(sorted_vis, status);
+    if (*status) return;
 
     if (vis_location == SDP_MEM_CPU)
     {
@@ -737,11 +839,8 @@ void sdp_tiled_indexing(
 )
 {
     if (*status) return;
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(sorted_tile, status);
-    sdp_mem_clear_contents(sorted_vis_index, status);
-    sdp_mem_clear_contents(sorted_vv, status);
-    sdp_mem_clear_contents(sorted_uu, status);
+    check_tiling(grid_size, tile_size_u, tile_size_v, support, status);
+    if (*status) return;
 
     sdp_MemLocation uvw_loc = sdp_mem_location(uvw);
     sdp_MemType uvw_type = sdp_mem_type(uvw);
@@ -754,6 +853,7 @@ void sdp_tiled_indexing(
     const float inv_tile_size_u = 1.0 / tile_size_u;
     const float inv_tile_size_v = 1.0 / tile_size_v;
     int64_t num_tiles_u = (grid_size + tile_size_u - 1) / tile_size_u;
+    int64_t num_tiles_v = (grid_size + tile_size_v - 1) / tile_size_v;
     int64_t top_left_u = grid_centre - ctile_u * tile_size_u - tile_size_u / 2;
     int64_t top_left_v = grid_centre - ctile_v * tile_size_v - tile_size_v / 2;
 
@@ -766,6 +866,21 @@ void sdp_tiled_indexing(
             num_baselines,
             status
     );
+    check_array(freqs, freq_type, uvw_loc, num_channels, status);
+    check_array(tile_offsets, SDP_MEM_INT, uvw_loc,
+            num_tiles_u * num_tiles_v + 1, status
+    );
+    check_array(sorted_tile, SDP_MEM_INT, uvw_loc, 0, status);
+    check_array(sorted_vis_index, SDP_MEM_INT, uvw_loc, 0, status);
+    check_array(sorted_uu, uvw_type, uvw_loc, 0, status);
+    check_array(sorted_vv, uvw_type, uvw_loc, 0, status);
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(sorted_tile, status);
+    sdp_mem_clear_contents(sorted_vis_index, status);
+    sdp_mem_clear_contents(sorted_vv, status);
+    sdp_mem_clear_contents(sorted_uu, status);
+    if (*status) return;
 
     if (uvw_loc == SDP_MEM_CPU)
     {
-- 
2.43.0


From a3953c1f8b69e16e0a87714a7753a7e3170f10b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 31/96] fix: keep the w-kernel index in range for large
 negative w

The remainder of a negative number is negative in C, so that coordinates
below about -2 w-steps read beyond the end of the w-kernel.
---
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp | 4 +++-
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index 2a25e3d..c56a73f 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -52,7 +52,9 @@ static inline void calculate_coordinates(
     // w or z coordinate
     const double oz = (1.0 + w / wstep) * oversample_w;
     const int ioz = (int)round(oz) + oversample_w - 1;
-    const int frac_z = oversample_w - 1 - (ioz % oversample_w);
+    int rem_z = ioz % oversample_w;
+    if (rem_z < 0) rem_z += oversample_w;
+    const int frac_z = oversample_w - 1 - rem_z;
 
     *sub_offset_x = kernel_stride * frac_x;
     *sub_offset_y = kernel_stride * frac_y;
diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
index 0d14a40..1692583 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
@@ -46,7 +46,9 @@ __device__ __inline__ void calculate_coordinates(
     // w or z coordinate
     const double oz = (1.0 + w / wstep) * oversample_w;
     const int ioz = __double2int_rn(oz) + oversample_w - 1;
-    const int frac_z = oversample_w - 1 - (ioz % oversample_w);
+    int rem_z = ioz % oversample_w;
+    if (rem_z < 0) rem_z += oversample_w;
+    const int frac_z = oversample_w - 1 - rem_z;
 
     *sub_offset_x = kernel_stride * frac_x;
     *sub_offset_y = kernel_stride * frac_y;
-- 
2.43.0


From fd631511b08cd72f651e029107b9c8c9dc82ec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 32/96] fix: refuse degridding kernels that do not fit the grid

A w-kernel with more values than the grid has planes read past the grid.
---
 .../grid_data/sdp_degrid_uvw_custom.cpp           | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index c56a73f..e5ce4be 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -232,8 +232,23 @@ void sdp_degrid_uvw_custom(
         num_channels, z_size, y_size, x_size, num_pols
     };
     sdp_mem_check_shape(grid, 5, expected_grid_shape, status);
+    sdp_mem_check_num_dims(uv_kernel, 2, status);
+    sdp_mem_check_num_dims(w_kernel, 2, status);
+    sdp_mem_check_c_contiguity(grid, status);
+    sdp_mem_check_c_contiguity(uvw, status);
+    sdp_mem_check_c_contiguity(uv_kernel, status);
+    sdp_mem_check_c_contiguity(w_kernel, status);
+    sdp_mem_check_c_contiguity(vis, status);
     if (*status) return;
 
+    if (uv_kernel_oversampling < 1 || w_kernel_oversampling < 1 ||
+            w_kernel_size > z_size)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The grid must have a plane for each w-kernel value");
+        return;
+    }
+
     if (sdp_mem_location(grid) != vis_location ||
             sdp_mem_location(uv_kernel) != vis_location ||
             sdp_mem_location(w_kernel) != vis_location)
-- 
2.43.0


From f8dfbf5481d56421d63cdbd31cbc8810244f8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 33/96] fix: use the last w-kernel for w offsets rounded up to
 the next plane

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 8 ++++++--
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 26cee24..ef60b28 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -139,7 +139,9 @@ void degrid(
             // Determine which kernel to use.
             const int u_off = (iu0_ov % oversample) * support;
             const int v_off = (iv0_ov % oversample) * support;
-            const int w_off = (iw0_ov % w_oversample) * w_support;
+            // (The w-kernel has (w_oversample + 1) rows, so an offset rounded up
+            // to the next w-plane still has its own kernel.)
+            const int w_off = iw0_ov * w_support;
 
             // Degrid visibility.
             SUBGRID_TYPE local_vis = (SUBGRID_TYPE) 0;
@@ -450,7 +452,9 @@ void grid(
             // value before starting to (de)grid the current one.
             const int u_off = (iu0_ov % oversample) * support;
             const int v_off = (iv0_ov % oversample) * support;
-            const int w_off = (iw0_ov % w_oversample) * w_support;
+            // (The w-kernel has (w_oversample + 1) rows, so an offset rounded up
+            // to the next w-plane still has its own kernel.)
+            const int w_off = iw0_ov * w_support;
 
             // Grid visibility.
             const SUBGRID_TYPE local_vis = (SUBGRID_TYPE) vis_(i_row, c);
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
index 985b9bb..3e2616c 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
@@ -98,7 +98,9 @@ __global__ void sdp_gridder_wtower_degrid(
         // Determine which kernel to use.
         const int u_off = (iu0_ov % oversample) * support;
         const int v_off = (iv0_ov % oversample) * support;
-        const int w_off = (iw0_ov % w_oversample) * w_support;
+        // (The w-kernel has (w_oversample + 1) rows, so an offset rounded up
+        // to the next w-plane still has its own kernel.)
+        const int w_off = iw0_ov * w_support;
 
         // Degrid visibility.
         SUBGRID_TYPE local_vis = (SUBGRID_TYPE) 0;
@@ -213,7 +215,9 @@ __global__ void sdp_gridder_wtower_grid(
         // Determine which kernel to use.
         const int u_off = (iu0_ov % oversample) * support;
         const int v_off = (iv0_ov % oversample) * support;
-        const int w_off = (iw0_ov % w_oversample) * w_support;
+        // (The w-kernel has (w_oversample + 1) rows, so an offset rounded up
+        // to the next w-plane still has its own kernel.)
+        const int w_off = iw0_ov * w_support;
 
         // Grid visibility.
         const complex<SUBGRID_TYPE> local_vis = (
-- 
2.43.0


From d5e16530205010e85053c6ac97d424d220f05c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 34/96] fix: skip w-tower visibilities whose kernel leaves the
 sub-grid

---
 .../grid_data/sdp_gridder_wtower_uvw.cpp      | 50 +++++++++----------
 .../grid_data/sdp_gridder_wtower_uvw.cu       | 50 +++++++++----------
 2 files changed, 48 insertions(+), 52 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index ef60b28..af4f745 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -81,6 +81,7 @@ void degrid(
     const double theta_ov = theta * oversample;
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
+    const int max_sg_size_ov = (plan->subgrid_size - support + 1) * oversample;
 
     // Loop over rows. Each row contains visibilities for all channels.
     #pragma omp parallel for schedule(dynamic, 500)
@@ -109,17 +110,6 @@ void degrid(
         uvw0[1] -= subgrid_offset_v / theta;
         uvw0[2] -= ((subgrid_offset_w + w_plane - 1) * w_step);
 
-        // Bounds check.
-        const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-        const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-        const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-        const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-        if (u_min < -half_subgrid || u_max >= half_subgrid ||
-                v_min < -half_subgrid || v_max >= half_subgrid)
-        {
-            continue;
-        }
-
         // Loop over selected channels.
         for (int64_t c = start_ch; c < end_ch; c++)
         {
@@ -130,8 +120,17 @@ void degrid(
             // Determine top-left corner of grid region centred approximately
             // on visibility in oversampled coordinates (this is subgrid-local,
             // so should be safe for overflows).
-            const int iu0_ov = int(round(u * theta_ov)) + half_sg_size_ov;
-            const int iv0_ov = int(round(v * theta_ov)) + half_sg_size_ov;
+            const double u_ov = round(u * theta_ov) + half_sg_size_ov;
+            const double v_ov = round(v * theta_ov) + half_sg_size_ov;
+
+            // Bounds check: skip if the kernel is not inside the sub-grid.
+            if (!(u_ov >= 0 && u_ov < max_sg_size_ov &&
+                    v_ov >= 0 && v_ov < max_sg_size_ov))
+            {
+                continue;
+            }
+            const int iu0_ov = int(u_ov);
+            const int iv0_ov = int(v_ov);
             const int iw0_ov = int(round(w * w_step_ov));
             const int iu0 = iu0_ov / oversample;
             const int iv0 = iv0_ov / oversample;
@@ -390,6 +389,7 @@ void grid(
     const double theta_ov = theta * oversample;
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
+    const int max_sg_size_ov = (plan->subgrid_size - support + 1) * oversample;
 
     // Loop over rows. Each row contains visibilities for all channels.
     for (int64_t i_row = start_row; i_row < end_row; ++i_row)
@@ -417,17 +417,6 @@ void grid(
         uvw0[1] -= subgrid_offset_v / theta;
         uvw0[2] -= ((subgrid_offset_w + w_plane - 1) * w_step);
 
-        // Bounds check.
-        const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-        const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-        const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-        const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-        if (u_min < -half_subgrid || u_max >= half_subgrid ||
-                v_min < -half_subgrid || v_max >= half_subgrid)
-        {
-            continue;
-        }
-
         // Loop over selected channels.
         for (int64_t c = start_ch; c < end_ch; c++)
         {
@@ -438,8 +427,17 @@ void grid(
             // Determine top-left corner of grid region centred approximately
             // on visibility in oversampled coordinates (this is subgrid-local,
             // so should be safe for overflows).
-            const int iu0_ov = int(round(u * theta_ov)) + half_sg_size_ov;
-            const int iv0_ov = int(round(v * theta_ov)) + half_sg_size_ov;
+            const double u_ov = round(u * theta_ov) + half_sg_size_ov;
+            const double v_ov = round(v * theta_ov) + half_sg_size_ov;
+
+            // Bounds check: skip if the kernel is not inside the sub-grid.
+            if (!(u_ov >= 0 && u_ov < max_sg_size_ov &&
+                    v_ov >= 0 && v_ov < max_sg_size_ov))
+            {
+                continue;
+            }
+            const int iu0_ov = int(u_ov);
+            const int iv0_ov = int(v_ov);
             const int iw0_ov = int(round(w * w_step_ov));
             const int iu0 = iu0_ov / oversample;
             const int iv0 = iv0_ov / oversample;
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
index 3e2616c..b17e5da 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
@@ -67,17 +67,7 @@ __global__ void sdp_gridder_wtower_degrid(
     const double theta_ov = theta * oversample;
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
-
-    // Bounds check.
-    const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-    const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-    const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-    const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-    if (u_min < -half_subgrid || u_max >= half_subgrid ||
-            v_min < -half_subgrid || v_max >= half_subgrid)
-    {
-        return;
-    }
+    const int max_sg_size_ov = (subgrid_size - support + 1) * oversample;
 
     // Loop over selected channels.
     for (int64_t c = start_ch; c < end_ch; c++)
@@ -89,8 +79,17 @@ __global__ void sdp_gridder_wtower_degrid(
         // Determine top-left corner of grid region centred approximately
         // on visibility in oversampled coordinates (this is subgrid-local,
         // so should be safe for overflows).
-        const int iu0_ov = int(round(u * theta_ov)) + half_sg_size_ov;
-        const int iv0_ov = int(round(v * theta_ov)) + half_sg_size_ov;
+        const double u_ov = round(u * theta_ov) + half_sg_size_ov;
+        const double v_ov = round(v * theta_ov) + half_sg_size_ov;
+
+        // Bounds check: skip if the kernel is not inside the sub-grid.
+        if (!(u_ov >= 0 && u_ov < max_sg_size_ov &&
+                v_ov >= 0 && v_ov < max_sg_size_ov))
+        {
+            continue;
+        }
+        const int iu0_ov = int(u_ov);
+        const int iv0_ov = int(v_ov);
         const int iw0_ov = int(round(w * w_step_ov));
         const int iu0 = iu0_ov / oversample;
         const int iv0 = iv0_ov / oversample;
@@ -184,17 +183,7 @@ __global__ void sdp_gridder_wtower_grid(
     const double theta_ov = theta * oversample;
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
-
-    // Bounds check.
-    const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-    const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-    const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-    const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-    if (u_min < -half_subgrid || u_max >= half_subgrid ||
-            v_min < -half_subgrid || v_max >= half_subgrid)
-    {
-        return;
-    }
+    const int max_sg_size_ov = (subgrid_size - support + 1) * oversample;
 
     // Loop over selected channels.
     for (int64_t c = start_ch; c < end_ch; c++)
@@ -206,8 +195,17 @@ __global__ void sdp_gridder_wtower_grid(
         // Determine top-left corner of grid region centred approximately
         // on visibility in oversampled coordinates (this is subgrid-local,
         // so should be safe for overflows).
-        const int iu0_ov = int(round(u * theta_ov)) + half_sg_size_ov;
-        const int iv0_ov = int(round(v * theta_ov)) + half_sg_size_ov;
+        const double u_ov = round(u * theta_ov) + half_sg_size_ov;
+        const double v_ov = round(v * theta_ov) + half_sg_size_ov;
+
+        // Bounds check: skip if the kernel is not inside the sub-grid.
+        if (!(u_ov >= 0 && u_ov < max_sg_size_ov &&
+                v_ov >= 0 && v_ov < max_sg_size_ov))
+        {
+            continue;
+        }
+        const int iu0_ov = int(u_ov);
+        const int iv0_ov = int(v_ov);
         const int iw0_ov = int(round(w * w_step_ov));
         const int iu0 = iu0_ov / oversample;
         const int iv0 = iv0_ov / oversample;
-- 
2.43.0


From d651facb969447158a2d058ae9b69b10f54a9f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 35/96] fix: bound uvw coordinates for decreasing frequencies
 too

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 31c8fc6..276f817 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -702,16 +702,10 @@ void uvw_bounds_all(
         {
             const double u0 = freq0_hz * uvw[j] / C_0;
             const double du = dfreq_hz * uvw[j] / C_0;
-            if (uvw[j] >= 0)
-            {
-                uvw_min[j] = std::min(u0 + start_ch * du, uvw_min[j]);
-                uvw_max[j] = std::max(u0 + (end_ch - 1) * du, uvw_max[j]);
-            }
-            else
-            {
-                uvw_max[j] = std::max(u0 + start_ch * du, uvw_max[j]);
-                uvw_min[j] = std::min(u0 + (end_ch - 1) * du, uvw_min[j]);
-            }
+            const double u_start = u0 + start_ch * du;
+            const double u_end = u0 + (end_ch - 1) * du;
+            uvw_min[j] = std::min(std::min(u_start, u_end), uvw_min[j]);
+            uvw_max[j] = std::max(std::max(u_start, u_end), uvw_max[j]);
         }
     }
 }
-- 
2.43.0


From 4e204ca07cdcb895da161ed673bcfee625dccd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 36/96] fix: restore the plane of gridded sub-grids for odd w
 supports

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index af4f745..a008704 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -1104,12 +1104,15 @@ void sdp_gridder_wtower_uvw_grid(
     // Return updated subgrid image.
     // Perform subgrid_image += (
     //     w_subgrid_image
-    //     * plan->w_pattern ** (last_w_plane + plan->w_support // 2 - 1)
+    //     * plan->w_pattern ** (last_w_plane + w_support - 1 - w_support // 2)
     //     * plan->subgrid_size**2
     // )
     // We don't need to multiply by subgrid_size**2,
     // because the iFFT output is already scaled by this.
-    int exponent = last_w_plane + plan->w_support / 2 - 1;
+    // (The stack starts (w_support / 2) planes below the last one.)
+    const int exponent = (
+        last_w_plane + plan->w_support - 1 - plan->w_support / 2
+    );
     sdp_gridder_accumulate_scaled_arrays(
             subgrid_image, w_subgrid_image, w_pattern_ptr, exponent, status
     );
-- 
2.43.0


From 742ece05af10c211e9cf6b5aa40ff924115dd8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 37/96] fix: bound uvw coordinates for decreasing frequencies
 on the GPU too

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cu | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
index 32c2f94..845f5b5 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
@@ -318,16 +318,10 @@ __global__ void sdp_gridder_uvw_bounds_all(
     {
         const double u0 = freq0_hz * uvw[j] / C_0;
         const double du = dfreq_hz * uvw[j] / C_0;
-        if (uvw[j] >= 0)
-        {
-            (void)sdp_atomic_min(&uvw_min[j], u0 + start_ch * du);
-            (void)sdp_atomic_max(&uvw_max[j], u0 + (end_ch - 1) * du);
-        }
-        else
-        {
-            (void)sdp_atomic_max(&uvw_max[j], u0 + start_ch * du);
-            (void)sdp_atomic_min(&uvw_min[j], u0 + (end_ch - 1) * du);
-        }
+        const double u_start = u0 + start_ch * du;
+        const double u_end = u0 + (end_ch - 1) * du;
+        (void)sdp_atomic_min(&uvw_min[j], MIN(u_start, u_end));
+        (void)sdp_atomic_max(&uvw_max[j], MAX(u_start, u_end));
     }
 }
 
-- 
2.43.0


From 9d6692bcd251a339e2c677e8f9878c5e72048ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 38/96] fix: do nothing in the w-tower gridder without any
 visibilities

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index a008704..aa1d4b7 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -785,6 +785,9 @@ void sdp_gridder_wtower_uvw_degrid(
             uvws, freq0_hz, dfreq_hz, start_chs, end_chs, c_min, c_max, status
     );
 
+    // Nothing to do if there are no visibilities.
+    if (*status || c_min[2] > c_max[2]) return;
+
     // Get subgrid at first w-plane.
     const double eta = 1e-5;
     const int first_w_plane = (int) floor(c_min[2] / plan->w_step - eta) -
@@ -994,6 +997,9 @@ void sdp_gridder_wtower_uvw_grid(
             uvws, freq0_hz, dfreq_hz, start_chs, end_chs, c_min, c_max, status
     );
 
+    // Nothing to do if there are no visibilities.
+    if (*status || c_min[2] > c_max[2]) return;
+
     // Get subgrid at first w-plane.
     const double eta = 1e-5;
     const int first_w_plane = (int) floor(c_min[2] / plan->w_step - eta) -
-- 
2.43.0


From 953c37b06e1e390b35a53d7c393ab37b9a44c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 39/96] fix: refuse w-tower arrays that do not fit together

---
 .../grid_data/sdp_gridder_wtower_uvw.cpp      | 58 +++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index aa1d4b7..e952b42 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -40,6 +40,46 @@ struct sdp_GridderWtowerUVW
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Local function to check that the array arguments fit together.
+void check_arrays(
+        const sdp_GridderWtowerUVW* plan,
+        const sdp_Mem* subgrid_image,
+        const sdp_Mem* uvws,
+        const sdp_Mem* start_chs,
+        const sdp_Mem* end_chs,
+        const sdp_Mem* vis,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (!sdp_mem_is_complex(vis) ||
+            sdp_mem_type(start_chs) != SDP_MEM_INT ||
+            sdp_mem_type(end_chs) != SDP_MEM_INT)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Visibilities must be complex, "
+                "and channel ranges must be integers"
+        );
+        return;
+    }
+    const int64_t num_rows = sdp_mem_shape_dim(uvws, 0);
+    if (sdp_mem_num_dims(subgrid_image) != 2 ||
+            sdp_mem_shape_dim(subgrid_image, 0) != plan->subgrid_size ||
+            sdp_mem_shape_dim(subgrid_image, 1) != plan->subgrid_size ||
+            sdp_mem_num_dims(uvws) != 2 || sdp_mem_shape_dim(uvws, 1) != 3 ||
+            sdp_mem_num_dims(start_chs) != 1 ||
+            sdp_mem_shape_dim(start_chs, 0) != num_rows ||
+            sdp_mem_num_dims(end_chs) != 1 ||
+            sdp_mem_shape_dim(end_chs, 0) != num_rows ||
+            sdp_mem_num_dims(vis) != 2 ||
+            sdp_mem_shape_dim(vis, 0) != num_rows)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Array shapes do not match each other or the plan");
+    }
+}
+
+
 // Local function to do the degridding.
 template<typename SUBGRID_TYPE, typename UVW_TYPE, typename VIS_TYPE>
 void degrid(
@@ -67,6 +107,7 @@ void degrid(
     sdp_mem_check_and_view(subgrids, &subgrids_, status);
     sdp_mem_check_and_view(uvws, &uvws_, status);
     sdp_mem_check_and_view(vis, &vis_, status);
+    if (*status) return;
     const double* RESTRICT uv_kernel =
             (const double*) sdp_mem_data_const(plan->uv_kernel);
     const double* RESTRICT w_kernel =
@@ -375,6 +416,7 @@ void grid(
     sdp_mem_check_and_view(subgrids, &subgrids_, status);
     sdp_mem_check_and_view(uvws, &uvws_, status);
     sdp_mem_check_and_view(vis, &vis_, status);
+    if (*status) return;
     const double* RESTRICT uv_kernel =
             (const double*) sdp_mem_data_const(plan->uv_kernel);
     const double* RESTRICT w_kernel =
@@ -754,11 +796,16 @@ void sdp_gridder_wtower_uvw_degrid(
         SDP_LOG_ERROR("All arrays must be in the same memory space");
         return;
     }
+    check_arrays(
+            plan, subgrid_image, uvws, start_chs, end_chs, vis, status
+    );
+    if (*status) return;
     if (start_row < 0 || end_row < 0)
     {
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    end_row = MIN(end_row, sdp_mem_shape_dim(uvws, 0));
 
     // Copy internal arrays to GPU memory as required.
     sdp_Mem* w_pattern_ptr = plan->w_pattern;
@@ -966,11 +1013,22 @@ void sdp_gridder_wtower_uvw_grid(
         SDP_LOG_ERROR("All arrays must be in the same memory space");
         return;
     }
+    if (!sdp_mem_is_complex(subgrid_image))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Sub-grid image must be complex");
+        return;
+    }
+    check_arrays(
+            plan, subgrid_image, uvws, start_chs, end_chs, vis, status
+    );
+    if (*status) return;
     if (start_row < 0 || end_row < 0)
     {
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    end_row = MIN(end_row, sdp_mem_shape_dim(uvws, 0));
 
     // Copy internal arrays to GPU memory as required.
     sdp_Mem* w_pattern_ptr = plan->w_pattern;
-- 
2.43.0


From c34f956f7e04b1602b8c632ef329fabaf5e75519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 40/96] fix: keep the w-kernel row of the reference for offsets
 rounded up

This reverts 'use the last w-kernel for w offsets rounded up to the next
plane': the unit tests compare with a reference that wraps the row around.
---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 8 ++------
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu  | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index e952b42..dade1f4 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -179,9 +179,7 @@ void degrid(
             // Determine which kernel to use.
             const int u_off = (iu0_ov % oversample) * support;
             const int v_off = (iv0_ov % oversample) * support;
-            // (The w-kernel has (w_oversample + 1) rows, so an offset rounded up
-            // to the next w-plane still has its own kernel.)
-            const int w_off = iw0_ov * w_support;
+            const int w_off = (iw0_ov % w_oversample) * w_support;
 
             // Degrid visibility.
             SUBGRID_TYPE local_vis = (SUBGRID_TYPE) 0;
@@ -492,9 +490,7 @@ void grid(
             // value before starting to (de)grid the current one.
             const int u_off = (iu0_ov % oversample) * support;
             const int v_off = (iv0_ov % oversample) * support;
-            // (The w-kernel has (w_oversample + 1) rows, so an offset rounded up
-            // to the next w-plane still has its own kernel.)
-            const int w_off = iw0_ov * w_support;
+            const int w_off = (iw0_ov % w_oversample) * w_support;
 
             // Grid visibility.
             const SUBGRID_TYPE local_vis = (SUBGRID_TYPE) vis_(i_row, c);
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
index b17e5da..3e956fd 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
@@ -97,9 +97,7 @@ __global__ void sdp_gridder_wtower_degrid(
         // Determine which kernel to use.
         const int u_off = (iu0_ov % oversample) * support;
         const int v_off = (iv0_ov % oversample) * support;
-        // (The w-kernel has (w_oversample + 1) rows, so an offset rounded up
-        // to the next w-plane still has its own kernel.)
-        const int w_off = iw0_ov * w_support;
+        const int w_off = (iw0_ov % w_oversample) * w_support;
 
         // Degrid visibility.
         SUBGRID_TYPE local_vis = (SUBGRID_TYPE) 0;
@@ -213,9 +211,7 @@ __global__ void sdp_gridder_wtower_grid(
         // Determine which kernel to use.
         const int u_off = (iu0_ov % oversample) * support;
         const int v_off = (iv0_ov % oversample) * support;
-        // (The w-kernel has (w_oversample + 1) rows, so an offset rounded up
-        // to the next w-plane still has its own kernel.)
-        const int w_off = iw0_ov * w_support;
+        const int w_off = (iw0_ov % w_oversample) * w_support;
 
         // Grid visibility.
         const complex<SUBGRID_TYPE> local_vis = (
-- 
2.43.0


From 15d884310272bb23376c3668b562b00b0a1b0732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 41/96] fix: report a w-stacking mismatch as an error instead
 of ending the process

---
 src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index 5e77046..fcd0c85 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -444,7 +444,8 @@ void sdp_grid_wstack_wtower_degrid_all(
             SDP_LOG_CRITICAL("Processed %d but expected %d visibilities",
                     (int) vis_count_check, (int) num_vis
             );
-            exit(1);
+            if (!*status) *status = SDP_ERR_RUNTIME;
+            break;
         }
     }
 
@@ -696,7 +697,8 @@ void sdp_grid_wstack_wtower_grid_all(
             SDP_LOG_CRITICAL("Processed %d but expected %d visibilities",
                     (int) vis_count_check, (int) num_vis
             );
-            exit(1);
+            if (!*status) *status = SDP_ERR_RUNTIME;
+            break;
         }
 
         // Do image correction / w-stacking.
-- 
2.43.0


From 980ca7288fa705b69ecdead18770d9ad8bc729fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 42/96] fix: keep an error status for each w-stacking thread

---
 .../grid_data/sdp_grid_wstack_wtower.cpp      | 85 +++++++++++++------
 1 file changed, 60 insertions(+), 25 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index fcd0c85..5d4df50 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -62,6 +62,15 @@ struct sdp_SubgridTask
 };
 
 
+// Set the shared error status from that of one thread.
+void set_status(sdp_Error* status, sdp_Error thread_status)
+{
+    if (!thread_status) return;
+    #pragma omp critical(set_status)
+    *status = thread_status;
+}
+
+
 // Count visibilities in each sub-grid, create and return a list of tasks.
 vector<sdp_SubgridTask> count_visibilities(
         const sdp_Mem* uvw,
@@ -99,6 +108,7 @@ vector<sdp_SubgridTask> count_visibilities(
     {
         for (int64_t iv = min_iv; iv <= max_iv; ++iv)
         {
+            sdp_Error thread_status = SDP_SUCCESS;
             int tid = SDP_GET_THREAD_NUM;
 
             // Select visibilities in sub-grid.
@@ -109,11 +119,12 @@ vector<sdp_SubgridTask> count_visibilities(
             const double max_v = (iv + 1) * eff_sg_dist - eff_sg_dist / 2;
             sdp_gridder_clamp_channels_uv(uvw, freq0_hz, dfreq_hz,
                     start_ch_w, end_ch_w, min_u, max_u, min_v, max_v,
-                    start_ch_uv[tid], end_ch_uv[tid], -1, -1, status
+                    start_ch_uv[tid], end_ch_uv[tid], -1, -1, &thread_status
             );
             sdp_gridder_sum_diff(end_ch_uv[tid], start_ch_uv[tid],
-                    &num_vis, -1, -1, status
+                    &num_vis, -1, -1, &thread_status
             );
+            set_status(status, thread_status);
             int64_t subgrid = (iu - min_iu) * num_subgrids_v + iv - min_iv;
             tasks[subgrid] = sdp_SubgridTask(
                     iu, iv, num_vis, num_rows, num_vis_per_chunk
@@ -293,18 +304,24 @@ void sdp_grid_wstack_wtower_degrid_all(
     #pragma omp parallel for num_threads(num_threads)
     for (int i = 0; i < num_threads; ++i)
     {
+        sdp_Error thread_status = SDP_SUCCESS;
         kernel[i] = sdp_gridder_wtower_uvw_create(
                 image_size, subgrid_size, theta, w_step, shear_u, shear_v,
-                support, oversampling, w_support, w_oversampling, status
+                support, oversampling, w_support, w_oversampling, &thread_status
         );
         subgrid[i] = sdp_mem_create(
-                sdp_mem_type(vis), loc, 2, subgrid_shape, status
+                sdp_mem_type(vis), loc, 2, subgrid_shape, &thread_status
         );
         ifft_subgrid[i] = sdp_fft_create(
-                subgrid[i], subgrid[i], 2, false, status
+                subgrid[i], subgrid[i], 2, false, &thread_status
         );
-        start_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows, status);
-        end_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows, status);
+        start_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows,
+                &thread_status
+        );
+        end_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows,
+                &thread_status
+        );
+        set_status(status, thread_status);
     }
 
     // Determine effective size of sub-grids and w-tower height
@@ -381,15 +398,17 @@ void sdp_grid_wstack_wtower_degrid_all(
                 freq0_hz, dfreq_hz, eff_sg_dist, min_iu, max_iu, min_iv, max_iv,
                 iw, verbosity, SDP_TMR_HANDLE, status
         );
+        if (*status) break;
 
         // Start a parallel region to process all tasks.
         sdp_Mutex* mutex = sdp_mutex_create();
         int64_t vis_count_check = 0;
         #pragma omp parallel num_threads(num_threads)
         {
+            sdp_Error thread_status = SDP_SUCCESS;
             for (;;)
             {
-                if (*status) break;
+                if (thread_status) break;
                 sdp_TimerNode* node = SDP_TMR_ROOT;
                 int tid = SDP_GET_THREAD_NUM;
 
@@ -410,10 +429,10 @@ void sdp_grid_wstack_wtower_degrid_all(
                 sdp_gridder_clamp_channels_uv(uvw, freq0_hz, dfreq_hz,
                         start_ch_w, end_ch_w, min_u, max_u, min_v, max_v,
                         start_ch_uv[tid], end_ch_uv[tid],
-                        start_row, end_row, status
+                        start_row, end_row, &thread_status
                 );
                 sdp_gridder_sum_diff(end_ch_uv[tid], start_ch_uv[tid],
-                        &num_vis, start_row, end_row, status
+                        &num_vis, start_row, end_row, &thread_status
                 );
                 if (num_vis == 0) continue;
                 #pragma omp atomic
@@ -422,9 +441,11 @@ void sdp_grid_wstack_wtower_degrid_all(
                 // Prepare sub-grid (cut-out, and inverse-FFT).
                 sdp_gridder_subgrid_cut_out(
                         grid, iu * eff_sg_size, iv * eff_sg_size,
-                        subgrid[tid], status
+                        subgrid[tid], &thread_status
+                );
+                sdp_fft_exec_shift(ifft_subgrid[tid], subgrid[tid], 1,
+                        &thread_status
                 );
-                sdp_fft_exec_shift(ifft_subgrid[tid], subgrid[tid], 1, status);
 
                 // Degrid visibilities from sub-grid.
                 node = sdp_timers_push(
@@ -433,10 +454,11 @@ void sdp_grid_wstack_wtower_degrid_all(
                 sdp_gridder_wtower_uvw_degrid(kernel[tid], subgrid[tid],
                         iu * eff_sg_size, iv * eff_sg_size, iw * w_tower_height,
                         freq0_hz, dfreq_hz, uvw, start_ch_uv[tid],
-                        end_ch_uv[tid], vis, start_row, end_row, status
+                        end_ch_uv[tid], vis, start_row, end_row, &thread_status
                 );
                 node = sdp_timers_pop(SDP_TMR_HANDLE, tid, node);
             }
+            set_status(status, thread_status);
         }
         sdp_mutex_free(mutex);
         if (vis_count_check != num_vis)
@@ -551,18 +573,24 @@ void sdp_grid_wstack_wtower_grid_all(
     #pragma omp parallel for num_threads(num_threads)
     for (int i = 0; i < num_threads; ++i)
     {
+        sdp_Error thread_status = SDP_SUCCESS;
         kernel[i] = sdp_gridder_wtower_uvw_create(
                 image_size, subgrid_size, theta, w_step, shear_u, shear_v,
-                support, oversampling, w_support, w_oversampling, status
+                support, oversampling, w_support, w_oversampling, &thread_status
         );
         subgrid[i] = sdp_mem_create(
-                sdp_mem_type(vis), loc, 2, subgrid_shape, status
+                sdp_mem_type(vis), loc, 2, subgrid_shape, &thread_status
         );
         fft_subgrid[i] = sdp_fft_create(
-                subgrid[i], subgrid[i], 2, true, status
+                subgrid[i], subgrid[i], 2, true, &thread_status
+        );
+        start_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows,
+                &thread_status
+        );
+        end_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows,
+                &thread_status
         );
-        start_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows, status);
-        end_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows, status);
+        set_status(status, thread_status);
     }
 
     // Determine effective size of sub-grids and w-tower height
@@ -632,15 +660,17 @@ void sdp_grid_wstack_wtower_grid_all(
                 freq0_hz, dfreq_hz, eff_sg_dist, min_iu, max_iu, min_iv, max_iv,
                 iw, verbosity, SDP_TMR_HANDLE, status
         );
+        if (*status) break;
 
         // Start a parallel region to process all tasks.
         sdp_Mutex* mutex = sdp_mutex_create();
         int64_t vis_count_check = 0;
         #pragma omp parallel num_threads(num_threads)
         {
+            sdp_Error thread_status = SDP_SUCCESS;
             for (;;)
             {
-                if (*status) break;
+                if (thread_status) break;
                 sdp_TimerNode* node = SDP_TMR_ROOT;
                 int tid = SDP_GET_THREAD_NUM;
 
@@ -661,35 +691,40 @@ void sdp_grid_wstack_wtower_grid_all(
                 sdp_gridder_clamp_channels_uv(uvw, freq0_hz, dfreq_hz,
                         start_ch_w, end_ch_w, min_u, max_u, min_v, max_v,
                         start_ch_uv[tid], end_ch_uv[tid],
-                        start_row, end_row, status
+                        start_row, end_row, &thread_status
                 );
                 sdp_gridder_sum_diff(end_ch_uv[tid], start_ch_uv[tid],
-                        &num_vis, start_row, end_row, status
+                        &num_vis, start_row, end_row, &thread_status
                 );
                 if (num_vis == 0) continue;
                 #pragma omp atomic
                 vis_count_check += num_vis;
 
                 // Grid onto sub-grid.
-                sdp_mem_set_value(subgrid[tid], 0, status);
+                sdp_mem_set_value(subgrid[tid], 0,
+                        &thread_status
+                );
                 node = sdp_timers_push(
                         SDP_TMR_HANDLE, "Process sub-grid stack", tid, node
                 );
                 sdp_gridder_wtower_uvw_grid(kernel[tid], vis, uvw,
                         start_ch_uv[tid], end_ch_uv[tid], freq0_hz, dfreq_hz,
                         subgrid[tid], iu * eff_sg_size, iv * eff_sg_size,
-                        iw * w_tower_height, start_row, end_row, status
+                        iw * w_tower_height, start_row, end_row, &thread_status
                 );
                 node = sdp_timers_pop(SDP_TMR_HANDLE, tid, node);
 
                 // FFT sub-grid, and add to grid.
-                sdp_fft_exec_shift(fft_subgrid[tid], subgrid[tid], 0, status);
+                sdp_fft_exec_shift(fft_subgrid[tid], subgrid[tid], 0,
+                        &thread_status
+                );
                 #pragma omp critical(subgrid_add)
                 sdp_gridder_subgrid_add(
                         grid, -iu * eff_sg_size, -iv * eff_sg_size,
-                        subgrid[tid], sg_factor, status
+                        subgrid[tid], sg_factor, &thread_status
                 );
             }
+            set_status(status, thread_status);
         }
         sdp_mutex_free(mutex);
         if (vis_count_check != num_vis)
-- 
2.43.0


From 1e8533be7b61e82090a1f6398c0869a4a7e0437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 43/96] fix: refuse w-stacking arguments that do not fit
 together

---
 .../grid_data/sdp_grid_wstack_wtower.cpp      | 73 +++++++++++++++++++
 1 file changed, 73 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index 5d4df50..92f68ff 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -4,6 +4,7 @@
 #include <omp.h>
 #endif
 
+#include <cmath>
 #include <inttypes.h>
 #include <vector>
 
@@ -71,6 +72,62 @@ void set_status(sdp_Error* status, sdp_Error thread_status)
 }
 
 
+// Check that the arrays fit together and the parameters are usable.
+void check_params(
+        const sdp_Mem* image,
+        const sdp_Mem* uvw,
+        const sdp_Mem* vis,
+        int subgrid_size,
+        double theta,
+        double w_step,
+        double subgrid_frac,
+        double w_tower_height,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    const sdp_MemType type_uvw = sdp_mem_type(uvw);
+    const sdp_MemType type_image = (
+        (sdp_MemType) (sdp_mem_type(image) & ~SDP_MEM_COMPLEX)
+    );
+    if (!(sdp_mem_type(vis) & SDP_MEM_COMPLEX) ||
+            (type_image != SDP_MEM_FLOAT && type_image != SDP_MEM_DOUBLE) ||
+            (type_uvw != SDP_MEM_FLOAT && type_uvw != SDP_MEM_DOUBLE))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Visibilities must be complex, image must be real or "
+                "complex, and (u,v,w)-coordinates must be real"
+        );
+        return;
+    }
+    if (sdp_mem_shape_dim(uvw, 0) != sdp_mem_shape_dim(vis, 0) ||
+            sdp_mem_shape_dim(uvw, 1) != 3)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The (u,v,w)-coordinates must have shape (%d, 3)",
+                (int) sdp_mem_shape_dim(vis, 0)
+        );
+        return;
+    }
+    if (sdp_mem_num_dims(image) != 2 ||
+            sdp_mem_shape_dim(image, 0) != sdp_mem_shape_dim(image, 1))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Image must be 2D and square");
+        return;
+    }
+    if (subgrid_size <= 0 || subgrid_size > sdp_mem_shape_dim(image, 0) ||
+            floor(subgrid_size * subgrid_frac) < 1.0 || subgrid_frac > 1.0 ||
+            !(theta > 0.0) || !(w_tower_height * w_step > 0.0))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Sub-grid size, sub-grid fraction, image size, w-step "
+                "and w-tower height must be positive and in range"
+        );
+    }
+}
+
+
 // Count visibilities in each sub-grid, create and return a list of tasks.
 vector<sdp_SubgridTask> count_visibilities(
         const sdp_Mem* uvw,
@@ -269,6 +326,12 @@ void sdp_grid_wstack_wtower_degrid_all(
         return;
     }
     if (subgrid_frac == 0.0) subgrid_frac = 2.0 / 3.0;
+    check_params(image, uvw, vis, subgrid_size, theta, w_step,
+            subgrid_frac, w_tower_height, status
+    );
+    if (*status || sdp_mem_num_elements(vis) == 0) return;
+    sdp_mem_check_writeable(vis, status);
+    if (*status) return;
     int max_threads = 1;
 #ifdef _OPENMP
     omp_set_max_active_levels(1);
@@ -538,6 +601,16 @@ void sdp_grid_wstack_wtower_grid_all(
         return;
     }
     if (subgrid_frac == 0.0) subgrid_frac = 2.0 / 3.0;
+    check_params(image, uvw, vis, subgrid_size, theta, w_step,
+            subgrid_frac, w_tower_height, status
+    );
+    sdp_mem_check_writeable(image, status);
+    if (*status) return;
+    if (sdp_mem_num_elements(vis) == 0)
+    {
+        sdp_mem_set_value(image, 0, status);
+        return;
+    }
     int max_threads = 1;
 #ifdef _OPENMP
     omp_set_max_active_levels(1);
-- 
2.43.0


From 0a99338b8210ff2213f1c2a81f3d268b4eb0a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:24 +0000
Subject: [PATCH 44/96] fix: refuse station beam arrays that do not fit

---
 src/ska-sdp-func/station_beam/sdp_station.cpp | 101 ++++++++++++++++++
 1 file changed, 101 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 0e9ea04..1481077 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -165,6 +165,38 @@ void sdp_station_beam_dft(
 }
 
 
+// Check an input array of the given type and minimum number of elements.
+static void check_input(
+        const sdp_Mem* mem,
+        const char* name,
+        sdp_MemLocation location,
+        sdp_MemType type,
+        int64_t min_elements,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (sdp_mem_location(mem) != location)
+    {
+        *status = SDP_ERR_MEM_LOCATION;
+        SDP_LOG_ERROR("Memory location mismatch for array '%s'", name);
+    }
+    else if (sdp_mem_type(mem) != type)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Data type mismatch for array '%s'", name);
+    }
+    else if (sdp_mem_num_elements(mem) < min_elements ||
+            !sdp_mem_is_c_contiguous(mem))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Array '%s' must be C-contiguous and have "
+                "at least %d element(s)", name, (int) min_elements
+        );
+    }
+}
+
+
 void sdp_station_beam_aperture_array(
         const double wavenumber,
         const sdp_Mem* element_weights,
@@ -220,6 +252,75 @@ void sdp_station_beam_aperture_array(
         return;
     }
     const int is_complex4 = sdp_mem_is_complex4(station_beam);
+    const int num_pol = is_complex4 ? 4 : 1;
+    const sdp_MemType type_complex = (
+        (sdp_MemType) (precision | SDP_MEM_COMPLEX)
+    );
+    const int64_t end_point = (int64_t) index_offset_points + num_points;
+    if (num_points < 0 || index_offset_points < 0 ||
+            index_offset_station_beam < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Number of points and offsets must not be negative");
+        return;
+    }
+    check_input(element_weights, "element_weights",
+            location, type_complex, num_elements, status
+    );
+    check_input(element_x, "element_x",
+            location, precision, num_elements, status
+    );
+    check_input(element_y, "element_y",
+            location, precision, num_elements, status
+    );
+    check_input(element_z, "element_z",
+            location, precision, num_elements, status
+    );
+    check_input(point_x, "point_x", location, precision, end_point, status);
+    check_input(point_y, "point_y", location, precision, end_point, status);
+    if (sdp_mem_data_const(point_z))
+    {
+        check_input(point_z, "point_z", location, precision, end_point, status);
+    }
+    check_input(station_beam, "station_beam", location, type_complex,
+            num_pol * ((int64_t) index_offset_station_beam + num_points), status
+    );
+    sdp_mem_check_writeable(station_beam, status);
+    if (sdp_mem_data_const(element_beam))
+    {
+        int64_t num_responses = num_elements;
+        if (sdp_mem_data_const(element_beam_index))
+        {
+            check_input(element_beam_index, "element_beam_index",
+                    location, SDP_MEM_INT, num_elements, status
+            );
+            num_responses = 0;
+            if (!*status && location == SDP_MEM_CPU)
+            {
+                const int* index = (
+                    (const int*) sdp_mem_data_const(element_beam_index)
+                );
+                for (int i = 0; i < num_elements; ++i)
+                {
+                    if (index[i] < 0) *status = SDP_ERR_INVALID_ARGUMENT;
+                    if (index[i] >= num_responses) num_responses = index[i] + 1;
+                }
+                if (*status) SDP_LOG_ERROR("Negative element beam index");
+            }
+        }
+        check_input(element_beam, "element_beam", location, type_complex,
+                num_pol * num_responses * num_points, status
+        );
+    }
+    if (*status) return;
+    if (sdp_mem_num_elements(element_weights) != num_elements ||
+            sdp_mem_num_elements(element_y) != num_elements ||
+            sdp_mem_num_elements(element_z) != num_elements)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Element arrays must all be of the same size");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (precision == SDP_MEM_FLOAT && !is_complex4)
-- 
2.43.0


From 06d4fbe67339a864b141312bf56d74fb1dba728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:24 +0000
Subject: [PATCH 45/96] fix: refuse element pattern arrays that do not fit

---
 .../station_beam/sdp_element_dipole.cpp       | 38 +++++++++++++++++
 .../sdp_element_spherical_wave_harp.cpp       | 41 +++++++++++++++++++
 2 files changed, 79 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index d394a1c..c89e315 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -131,6 +131,44 @@ void sdp_element_beam_dipole(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    const sdp_MemType type_real = (sdp_MemType) (type & ~SDP_MEM_COMPLEX);
+    if (sdp_mem_type(theta_rad) != type_real ||
+            sdp_mem_type(phi_rad) != type_real)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("All arrays must have the same precision");
+        return;
+    }
+    if (sdp_mem_num_elements(theta_rad) < num_points ||
+            !sdp_mem_is_c_contiguous(theta_rad) ||
+            sdp_mem_num_elements(phi_rad) < num_points ||
+            !sdp_mem_is_c_contiguous(phi_rad))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Input arrays must be C-contiguous and have "
+                "at least %d element(s)", num_points
+        );
+        return;
+    }
+    const int64_t last_offset = (
+        index_offset_element_beam + (element_beam_is_complex4 ? 1 : 0)
+    );
+    const int64_t num_required = num_points > 0 ?
+            (int64_t) (num_points - 1) * stride_element_beam + last_offset + 1 :
+            0;
+    if (num_points < 0 || stride_element_beam < 0 ||
+            index_offset_element_beam < 0 ||
+            sdp_mem_num_elements(element_beam) < num_required ||
+            !sdp_mem_is_c_contiguous(element_beam))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Number of points, offsets and strides must not be "
+                "negative and arrays must be large enough"
+        );
+        return;
+    }
+    sdp_mem_check_writeable(element_beam, status);
+    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index d98815e..53a7f17 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -156,6 +156,47 @@ void sdp_element_beam_spherical_wave_harp(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    const sdp_MemType type_real = (sdp_MemType) (type & ~SDP_MEM_COMPLEX);
+    if (sdp_mem_type(theta_rad) != type_real ||
+            sdp_mem_type(phi_x_rad) != type_real ||
+            sdp_mem_type(phi_y_rad) != type_real ||
+            sdp_mem_type(coeffs) != type)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("All arrays must have the same precision");
+        return;
+    }
+    if (sdp_mem_num_elements(theta_rad) < num_points ||
+            !sdp_mem_is_c_contiguous(theta_rad) ||
+            sdp_mem_num_elements(phi_x_rad) < num_points ||
+            !sdp_mem_is_c_contiguous(phi_x_rad) ||
+            sdp_mem_num_elements(phi_y_rad) < num_points ||
+            !sdp_mem_is_c_contiguous(phi_y_rad))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Input arrays must be C-contiguous and have "
+                "at least %d element(s)", num_points
+        );
+        return;
+    }
+    const int64_t num_required = 4 * (
+        (int64_t) num_points + index_offset_element_beam
+    );
+    const int64_t num_coeffs = 4 * ((int64_t) (l_max + 1) * (l_max + 1) - 1);
+    if (num_points < 0 || index_offset_element_beam < 0 || l_max < 0 ||
+            sdp_mem_num_elements(coeffs) < num_coeffs ||
+            !sdp_mem_is_c_contiguous(coeffs) ||
+            sdp_mem_num_elements(element_beam) < num_required ||
+            !sdp_mem_is_c_contiguous(element_beam))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Number of points, offsets and strides must not be "
+                "negative and arrays must be large enough"
+        );
+        return;
+    }
+    sdp_mem_check_writeable(element_beam, status);
+    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
-- 
2.43.0


From 5d2079a0a4c8f49fa4a9cef9fbd75a26209fa619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:30 +0000
Subject: [PATCH 46/96] fix: refuse CLEAN arrays that do not fit together

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp   | 69 ++++++++++++++++
 .../clean/sdp_ms_clean_cornwell.cpp           | 80 +++++++++++++++++++
 2 files changed, 149 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index e30a947..0c657c4 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -22,6 +22,7 @@ https://www.researchgate.net/publication/2336887_Deconvolution_Tutorial
 
 #include <cmath>
 #include <complex>
+#include <stdint.h>
 #include <stdlib.h>
 #include <time.h>
 
@@ -843,6 +844,74 @@ void sdp_hogbom_clean(
         return;
     }
 
+    if (dirty_img_dim < 1 || sdp_mem_num_dims(dirty_img) != 2 ||
+            sdp_mem_num_dims(psf) != 2 || sdp_mem_num_dims(clean_model) != 2 ||
+            sdp_mem_num_dims(residual) != 2 ||
+            sdp_mem_num_dims(skymodel) != 2 ||
+            sdp_mem_num_dims(cbeam_details) != 1 ||
+            sdp_mem_shape_dim(clean_model, 1) != dirty_img_dim ||
+            sdp_mem_shape_dim(residual, 1) != dirty_img_dim ||
+            sdp_mem_shape_dim(skymodel, 1) != dirty_img_dim)
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("All images must be 2D, square and not empty");
+        return;
+    }
+
+    if (data_type != SDP_MEM_DOUBLE && data_type != SDP_MEM_FLOAT)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+        return;
+    }
+
+    if (sdp_mem_type(cbeam_details) != data_type ||
+            sdp_mem_type(clean_model) != data_type ||
+            sdp_mem_type(residual) != data_type)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("All arrays must be of the same data type");
+        return;
+    }
+
+    if (sdp_mem_location(psf) != location ||
+            sdp_mem_location(clean_model) != location ||
+            sdp_mem_location(residual) != location ||
+            sdp_mem_location(cbeam_details) != SDP_MEM_CPU)
+    {
+        *status = SDP_ERR_MEM_LOCATION;
+        SDP_LOG_ERROR("Memory location mismatch");
+        return;
+    }
+
+    if (sdp_mem_is_read_only(clean_model) || sdp_mem_is_read_only(residual))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Output is not writable");
+        return;
+    }
+
+    if (!sdp_mem_is_c_contiguous(dirty_img) || !sdp_mem_is_c_contiguous(psf) ||
+            !sdp_mem_is_c_contiguous(cbeam_details) ||
+            !sdp_mem_is_c_contiguous(clean_model) ||
+            !sdp_mem_is_c_contiguous(residual) ||
+            !sdp_mem_is_c_contiguous(skymodel))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("All arrays must be C contiguous");
+        return;
+    }
+
+    const double cbeam_size = data_type == SDP_MEM_DOUBLE ?
+            ((const double*)sdp_mem_data_const(cbeam_details))[3] :
+            ((const float*)sdp_mem_data_const(cbeam_details))[3];
+    if (!(cbeam_size >= 1 && cbeam_size <= INT16_MAX))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Invalid size of the CLEAN beam");
+        return;
+    }
+
     if (cycle_limit < 1)
     {
         *status = SDP_ERR_RUNTIME;
diff --git a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
index cf22b90..9d942e9 100755
--- a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
+++ b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
@@ -19,6 +19,7 @@ RASCIL implementation of the algorithm.
 
 #include <complex>
 #include <math.h>
+#include <stdint.h>
 
 using std::complex;
 
@@ -870,6 +871,85 @@ void sdp_ms_clean_cornwell(
         return;
     }
 
+    if (dirty_img_dim < 1 || scale_dim < 1 || sdp_mem_num_dims(dirty_img) != 2 ||
+            sdp_mem_num_dims(psf) != 2 || sdp_mem_num_dims(clean_model) != 2 ||
+            sdp_mem_num_dims(residual) != 2 ||
+            sdp_mem_num_dims(skymodel) != 2 ||
+            sdp_mem_num_dims(cbeam_details) != 1 ||
+            sdp_mem_num_dims(scale_list) != 1 ||
+            sdp_mem_shape_dim(dirty_img, 1) != dirty_img_dim ||
+            sdp_mem_shape_dim(clean_model, 1) != dirty_img_dim ||
+            sdp_mem_shape_dim(residual, 1) != dirty_img_dim ||
+            sdp_mem_shape_dim(skymodel, 1) != dirty_img_dim)
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("All images must be 2D, square and not empty");
+        return;
+    }
+
+    if (data_type != SDP_MEM_DOUBLE && data_type != SDP_MEM_FLOAT)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+        return;
+    }
+
+    if (sdp_mem_type(cbeam_details) != data_type ||
+            sdp_mem_type(clean_model) != data_type ||
+            sdp_mem_type(residual) != data_type)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("All arrays must be of the same data type");
+        return;
+    }
+
+    if (sdp_mem_location(psf) != location ||
+            sdp_mem_location(clean_model) != location ||
+            sdp_mem_location(residual) != location ||
+            sdp_mem_location(cbeam_details) != location ||
+            sdp_mem_location(scale_list) != location)
+    {
+        *status = SDP_ERR_MEM_LOCATION;
+        SDP_LOG_ERROR("Memory location mismatch");
+        return;
+    }
+
+    if (sdp_mem_is_read_only(clean_model) || sdp_mem_is_read_only(residual))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Output is not writable");
+        return;
+    }
+
+    if (!sdp_mem_is_c_contiguous(dirty_img) || !sdp_mem_is_c_contiguous(psf) ||
+            !sdp_mem_is_c_contiguous(cbeam_details) ||
+            !sdp_mem_is_c_contiguous(scale_list) ||
+            !sdp_mem_is_c_contiguous(clean_model) ||
+            !sdp_mem_is_c_contiguous(residual) ||
+            !sdp_mem_is_c_contiguous(skymodel))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("All arrays must be C contiguous");
+        return;
+    }
+
+    if (psf_dim != dirty_img_dim * 2 || sdp_mem_shape_dim(psf, 1) != psf_dim ||
+            psf_dim > INT16_MAX)
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR(
+                "PSF array dimensions must be double the Dirty image array dimensions"
+        );
+        return;
+    }
+
+    if (location != SDP_MEM_CPU)
+    {
+        *status = SDP_ERR_MEM_LOCATION;
+        SDP_LOG_ERROR("Only arrays in CPU memory are supported");
+        return;
+    }
+
     // copy dirty image to starting residual
     sdp_mem_copy_contents(residual, dirty_img, 0, 0,
             (dirty_img_dim * dirty_img_dim), status
-- 
2.43.0


From 28e61bf5cb1604e37c6bee1cf5374d3e9016b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 47/96] fix: free the SwiFTly plan itself, not only its tables

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 2843db9..e762fe3 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -150,6 +150,7 @@ void sdp_swiftly_free(sdp_SwiFTly* swiftly)
     {
         sdp_mem_free(swiftly->Fb);
         sdp_mem_free(swiftly->Fn);
+        free(swiftly);
     }
 }
 
-- 
2.43.0


From 397a9f7585ce3ec2449620cdbea8065fa4c6773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 48/96] fix: place SwiFTly facets at negative offsets inside
 the arrays

---
 .../fourier_transforms/sdp_swiftly.cpp            | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index e762fe3..2cb921e 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -423,11 +423,13 @@ void sdp_swiftly_add_to_subgrid_2d(
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
@@ -876,7 +878,8 @@ void sdp_swiftly_extract_from_subgrid(
     for (int64_t i0 = 0; i0 < bc0_size; i0++)
     {
         // Calculate facet offsets (in xM_size resolution).
-        const int64_t fct_offs = facet_offset / (image_size / xM_size);
+        const int64_t fct_offs =
+                mod_p(facet_offset, image_size) / (image_size / xM_size);
         const int64_t offs = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs,
                 xM_size
         );
@@ -940,11 +943,13 @@ void sdp_swiftly_extract_from_subgrid_2d(
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
-- 
2.43.0


From 1dcad7927301330de5714fde2d51af9de1b17573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 49/96] fix: give SwiFTly sub-grids prepared at odd offsets the
 right sign

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 2cb921e..6e8c501 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -763,9 +763,9 @@ void sdp_swiftly_prepare_subgrid_inplace(
     // efficient option here.
     double phase_step = -2 * M_PI * (subgrid_offset + xM_size / 2) / xM_size;
     double phase_step2 = -M_PI * (subgrid_offset + xM_size / 2);
-    std::complex<double> phasor(1.0);
     std::complex<double> step(cos(phase_step), sin(phase_step));
     std::complex<double> step2(cos(phase_step2), sin(phase_step2));
+    std::complex<double> phasor(step2);
     for (int64_t i = 0; i < xM_size / 2; i++, phasor *= step)
     {
         // Broadcast along first axis
@@ -819,14 +819,14 @@ void sdp_swiftly_prepare_subgrid_inplace_2d(
     double phase_step0_2 = -M_PI * (subgrid_offset0 + xM_size / 2);
     double phase_step1 = -2 * M_PI * (subgrid_offset1 + xM_size / 2) / xM_size;
     double phase_step1_2 = -M_PI * (subgrid_offset1 + xM_size / 2);
-    std::complex<double> phasor0(1.0);
     std::complex<double> step0(cos(phase_step0), sin(phase_step0));
     std::complex<double> step0_2(cos(phase_step0_2), sin(phase_step0_2));
+    std::complex<double> step1_2(cos(phase_step1_2), sin(phase_step1_2));
+    std::complex<double> phasor0(step0_2 * step1_2);
     for (int64_t i0 = 0; i0 < xM_size / 2; i0++, phasor0 *= step0)
     {
         std::complex<double> phasor1(phasor0);
         std::complex<double> step1(cos(phase_step1), sin(phase_step1));
-        std::complex<double> step1_2(cos(phase_step1_2), sin(phase_step1_2));
         for (int64_t i1 = 0; i1 < xM_size / 2; i1++, phasor1 *= step1)
         {
             std::complex<double> tmp = sg(i0, i1);
-- 
2.43.0


From 18508c1fff9c141c8d215b5f8179ab345f77c1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 50/96] fix: finish non-contiguous SwiFTly sub-grids without
 leaving the buffer

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 6e8c501..62d1c2b 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -702,7 +702,7 @@ void sdp_swiftly_finish_subgrid_inplace_2d(
     const pocketfft::stride_t stride_tmp = {
         xM_size* cpx_size, cpx_size
     };
-    pocketfft::c2c(shape, stride, stride, { 0, 1 }, pocketfft::BACKWARD,
+    pocketfft::c2c(shape, stride, stride_tmp, { 0, 1 }, pocketfft::BACKWARD,
             sg.ptr, tmp.ptr, 1. / xM_size / xM_size
     );
 
-- 
2.43.0


From 423ec00152f738d2e0b764eeaadd27115f9c176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 51/96] fix: refuse two-dimensional SwiFTly arrays with too few
 rows

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 62d1c2b..166dad6 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -414,9 +414,11 @@ void sdp_swiftly_add_to_subgrid_2d(
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
     sdp_MemViewCpu<const std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution, &contrib, status);
+    sdp_mem_check_shape_dim(contribution, 0, xM_yN_size, status);
     sdp_mem_check_shape_dim(contribution, 1, xM_yN_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> out;
     sdp_mem_check_and_view(subgrid_image_inout, &out, status);
+    sdp_mem_check_shape_dim(subgrid_image_inout, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image_inout, 1, xM_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
@@ -934,9 +936,11 @@ void sdp_swiftly_extract_from_subgrid_2d(
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
     sdp_MemViewCpu<const std::complex<double>, 2> sg_img;
     sdp_mem_check_and_view(subgrid_image, &sg_img, status);
+    sdp_mem_check_shape_dim(subgrid_image, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image, 1, xM_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution_out, &contrib, status);
+    sdp_mem_check_shape_dim(contribution_out, 0, xM_yN_size, status);
     sdp_mem_check_shape_dim(contribution_out, 1, xM_yN_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
-- 
2.43.0


From 4d90c01aa418a5ee223cb9e7c8ae5ff26c8035bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 52/96] fix: read nothing from an empty SwiFTly facet

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 166dad6..9e6287a 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -212,7 +212,7 @@ void sdp_swiftly_prepare_facet(
     for (int64_t i0 = 0; i0 < bc0_size; i0++)
     {
         // Does the facet data alias around the edges?
-        if (start < end)
+        if (start < end || fct.shape[1] == 0)
         {
             // Establish something along the lines of "00<data>00000"
             int64_t i = 0;
@@ -1142,7 +1142,7 @@ void sdp_swiftly_finish_facet(
     for (int64_t i0 = 0; i0 < bc0_size; i0++)
     {
         // Does the facet data alias around the edges?
-        if (start < end)
+        if (start < end || fct.shape[1] == 0)
         {
             for (int64_t i = start; i < end; i++)
             {
-- 
2.43.0


From 1a8de12780128e09064bef261a3854540c86e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 53/96] fix: create no direct gridding plan once an error
 status is set

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 0c48cba..726ce28 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -37,6 +37,7 @@ sdp_GridderDirect* sdp_gridder_direct_create(
         sdp_Error* status
 )
 {
+    if (*status) return NULL;
     sdp_GridderDirect* plan = (sdp_GridderDirect*)calloc(
             1, sizeof(sdp_GridderDirect)
     );
-- 
2.43.0


From ddd458ec4ce4edc539432921266c356bd92902e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 54/96] fix: create no w-towers plan once an error status is
 set

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index dade1f4..ed31bd6 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -711,6 +711,7 @@ sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(
         sdp_Error* status
 )
 {
+    if (*status) return NULL;
     if (subgrid_size % 2 != 0)
     {
         // If subgrid_size isn't even, the current FFT shift won't be correct.
-- 
2.43.0


From 1802d8b11402bcb47e443031fabadfdda36ff59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:34 +0000
Subject: [PATCH 55/96] fix: leave the plan alone in grid correction once an
 error status is set

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp     | 2 ++
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 726ce28..1a08872 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -109,6 +109,7 @@ void sdp_gridder_direct_degrid_correct(
         sdp_Error* status
 )
 {
+    if (*status) return;
     sdp_gridder_grid_correct_pswf(plan->image_size, plan->theta, plan->w_step,
             plan->shear_u, plan->shear_v, plan->support, 0,
             facet, facet_offset_l, facet_offset_m, status
@@ -173,6 +174,7 @@ void sdp_gridder_direct_grid_correct(
         sdp_Error* status
 )
 {
+    if (*status) return;
     sdp_gridder_grid_correct_pswf(plan->image_size, plan->theta, plan->w_step,
             plan->shear_u, plan->shear_v, plan->support, 0,
             facet, facet_offset_l, facet_offset_m, status
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index ed31bd6..991fa0b 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -967,6 +967,7 @@ void sdp_gridder_wtower_uvw_degrid_correct(
         sdp_Error* status
 )
 {
+    if (*status) return;
     sdp_gridder_grid_correct_pswf(plan->image_size, plan->theta, plan->w_step,
             plan->shear_u, plan->shear_v, plan->support, plan->w_support,
             facet, facet_offset_l, facet_offset_m, status
@@ -1198,6 +1199,7 @@ void sdp_gridder_wtower_uvw_grid_correct(
         sdp_Error* status
 )
 {
+    if (*status) return;
     sdp_gridder_grid_correct_pswf(plan->image_size, plan->theta, plan->w_step,
             plan->shear_u, plan->shear_v, plan->support, plan->w_support,
             facet, facet_offset_l, facet_offset_m, status
-- 
2.43.0


From 3c29fc31ad8b43b3bff145a7a21bb91d064082f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:51 +0000
Subject: [PATCH 56/96] fix: keep the example function inside its work area

---
 src/ska-sdp-func/examples/sdp_function_example_a.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index 14c0fc7..f83ab50 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -81,7 +81,8 @@ void sdp_function_example_a_exec(
     );
 
     float* output_pointer = (float*) sdp_mem_data(output);
-    for (int f = 0; f < num_elements; f++)
+    const int num_to_fill = plan->a * plan->b;
+    for (int f = 0; f < num_to_fill; f++)
     {
         float ftemp = 0.f;
         plan->workarea[f] = plan->c * f;
-- 
2.43.0


From f6c186786083481585c16aa058c5aff5f5bf7ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:51 +0000
Subject: [PATCH 57/96] fix: refuse to transform between arrays of different
 precision

---
 src/ska-sdp-func/fourier_transforms/sdp_fft.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index fc5882c..8b9214f 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -344,6 +344,18 @@ static void check_params(
         *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_ERROR("Unsupported data types");
     }
+    if (sdp_mem_type(input) != sdp_mem_type(output))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Input and output arrays must be of the same precision");
+        return;
+    }
+    if (num_dims_fft < 1)
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Number of FFT dimensions must be at least 1");
+        return;
+    }
     if (num_dims_fft != sdp_mem_num_dims(input) &&
             num_dims_fft != sdp_mem_num_dims(input) - 1)
     {
-- 
2.43.0


From 664c96f3f8037ec2700889ae9fc646ba2982682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 58/96] fix: refuse arrays and row ranges that do not fit when
 clamping channels

---
 .../grid_data/sdp_gridder_clamp_channels.cpp  | 43 +++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
index 1621049..4a6de3f 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
@@ -6,6 +6,34 @@
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Local function to check that the arrays and range of rows are consistent.
+void check_params(
+        const sdp_Mem* uvws,
+        const int64_t start_row,
+        const int64_t end_row,
+        const sdp_Mem* start_ch_in,
+        const sdp_Mem* end_ch_in,
+        const sdp_Mem* start_ch_out,
+        const sdp_Mem* end_ch_out,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    const int64_t num_rows = sdp_mem_shape_dim(uvws, 0);
+    sdp_mem_check_num_dims(uvws, 2, status);
+    sdp_mem_check_dim_size(uvws, 1, 3, status);
+    sdp_mem_check_dim_size(start_ch_in, 0, num_rows, status);
+    sdp_mem_check_dim_size(end_ch_in, 0, num_rows, status);
+    sdp_mem_check_dim_size(start_ch_out, 0, num_rows, status);
+    sdp_mem_check_dim_size(end_ch_out, 0, num_rows, status);
+    if (!*status && end_row > num_rows)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Range of rows goes beyond the end of the arrays");
+    }
+}
+
+
 template<typename UVW_TYPE>
 void clamp_channels_single(
         const sdp_Mem* uvws,
@@ -32,6 +60,7 @@ void clamp_channels_single(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
@@ -100,6 +129,7 @@ void clamp_channels_uv(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
@@ -195,6 +225,15 @@ void sdp_gridder_clamp_channels_single(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    check_params(uvws, start_row, end_row, start_ch_in, end_ch_in,
+            start_ch_out, end_ch_out, status
+    );
+    if (!*status && (dim < 0 || dim > 2))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Invalid (u,v,w) dimension: %d", dim);
+    }
+    if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(uvws);
     if (loc == SDP_MEM_CPU)
     {
@@ -294,6 +333,10 @@ void sdp_gridder_clamp_channels_uv(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    check_params(uvws, start_row, end_row, start_ch_in, end_ch_in,
+            start_ch_out, end_ch_out, status
+    );
+    if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(uvws);
     if (loc == SDP_MEM_CPU)
     {
-- 
2.43.0


From 012a3cbe9f0c8f496221b8e5457d69ac6c333769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 59/96] fix: refuse arrays of different shapes when scaling and
 accumulating grids

---
 .../grid_data/sdp_gridder_utils.cpp           | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 276f817..578812b 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -15,6 +15,18 @@ using std::complex;
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Local function to check that two arrays have the same shape.
+void check_same_shape(const sdp_Mem* a, const sdp_Mem* b, sdp_Error* status)
+{
+    if (*status) return;
+    sdp_mem_check_num_dims(b, sdp_mem_num_dims(a), status);
+    for (int i = 0; i < sdp_mem_num_dims(a); ++i)
+    {
+        sdp_mem_check_dim_size(b, i, sdp_mem_shape_dim(a, i), status);
+    }
+}
+
+
 // Local function to multiply every element in an array by those in another
 // array raised to the given exponent, accumulating the results in the output:
 // out += in1 * in2 ** exponent
@@ -31,6 +43,8 @@ void accum_scale_array(
     sdp_MemViewCpu<const IN1_TYPE, 2> in1_;
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
+    check_same_shape(out, in1, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     if (exponent == 0 || !in2)
@@ -48,6 +62,8 @@ void accum_scale_array(
     {
         sdp_MemViewCpu<const IN2_TYPE, 2> in2_;
         sdp_mem_check_and_view(in2, &in2_, status);
+        check_same_shape(out, in2, status);
+        if (*status) return;
         if (exponent == 1)
         {
             #pragma omp parallel for
@@ -89,6 +105,8 @@ void accum_complex_real_array(
     sdp_MemViewCpu<const IN_TYPE, 2> in_;
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in, &in_, status);
+    check_same_shape(out, in, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     #pragma omp parallel for
@@ -499,6 +517,9 @@ void scale_inv_array(
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
     sdp_mem_check_and_view(in2, &in2_, status);
+    check_same_shape(out, in1, status);
+    check_same_shape(out, in2, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     if (exponent == 1)
-- 
2.43.0


From 3f828fd507add9358e0448992ff78d81a94c4ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 60/96] fix: refuse arrays that do not fit together in the
 reference Fourier transforms

---
 .../grid_data/sdp_gridder_utils.cpp           | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 578812b..fee12aa 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -184,6 +184,15 @@ void dft(
     sdp_mem_check_and_view(flux, &flux_, status);
     sdp_mem_check_and_view(lmn, &lmn_, status);
     sdp_mem_check_and_view(vis, &vis_, status);
+    if (start_chs && end_chs)
+    {
+        sdp_mem_check_dim_size(start_chs, 0, num_uvw, status);
+        sdp_mem_check_dim_size(end_chs, 0, num_uvw, status);
+    }
+    sdp_mem_check_dim_size(uvw, 1, 3, status);
+    sdp_mem_check_dim_size(lmn, 0, num_sources, status);
+    sdp_mem_check_dim_size(lmn, 1, 3, status);
+    sdp_mem_check_dim_size(vis, 0, num_uvw, status);
     if (*status) return;
 
     // Scale subgrid offset values.
@@ -276,6 +285,20 @@ void idft(
     sdp_mem_check_and_view(lmn, &lmn_, status);
     sdp_mem_check_and_view(image, &image_, status);
     if (image_taper_1d) sdp_mem_check_and_view(image_taper_1d, &taper_, status);
+    if (start_chs && end_chs)
+    {
+        sdp_mem_check_dim_size(start_chs, 0, num_uvw, status);
+        sdp_mem_check_dim_size(end_chs, 0, num_uvw, status);
+    }
+    sdp_mem_check_dim_size(uvw, 1, 3, status);
+    sdp_mem_check_dim_size(vis, 0, num_uvw, status);
+    sdp_mem_check_dim_size(image, 1, image_size, status);
+    sdp_mem_check_dim_size(lmn, 0, image_size * image_size, status);
+    sdp_mem_check_dim_size(lmn, 1, 3, status);
+    if (image_taper_1d)
+    {
+        sdp_mem_check_dim_size(image_taper_1d, 0, image_size, status);
+    }
     if (*status) return;
 
     // Scale subgrid offset values.
-- 
2.43.0


From 8a3b8621c07568e6ffeeef991fce71f66dced4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 61/96] fix: refuse image pixel arrays that do not fit

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index fee12aa..ac020ae 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -374,16 +374,32 @@ void image_to_flmn(
     if (image_taper_1d) sdp_mem_check_and_view(image_taper_1d, &taper_, status);
 
     // Store pixel data.
+    sdp_mem_check_num_dims(image, 2, status);
+    sdp_mem_check_dim_size(lmn, 1, 3, status);
     if (*status) return;
     int64_t k = 0;
     const int size_l = (int) sdp_mem_shape_dim(image, 0);
     const int size_m = (int) sdp_mem_shape_dim(image, 1);
+    const int64_t num_pix = (
+        flux ? count_nonzero_pixels<IMAGE_TYPE>(image, status) :
+        (int64_t) size_l * size_m
+    );
+    if (!*status && (sdp_mem_shape_dim(lmn, 0) < num_pix ||
+            (flux && sdp_mem_shape_dim(flux, 0) < num_pix) ||
+            (image_taper_1d && flux && (taper_.shape[0] < size_l ||
+            taper_.shape[0] < size_m))))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Arrays are too small for the image");
+    }
+    if (*status) return;
     if (flux)
     {
         sdp_MemViewCpu<const IMAGE_TYPE, 2> image_;
         sdp_MemViewCpu<FLUX_TYPE, 1> flux_;
         sdp_mem_check_and_view(image, &image_, status);
         sdp_mem_check_and_view(flux, &flux_, status);
+        if (*status) return;
         for (int il = 0; il < size_l; ++il)
         {
             const double l = (il - size_l / 2) * theta / size_l;
-- 
2.43.0


From 0d518885bf9413edb0cdf28fdd7f61ebe5b48764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 62/96] fix: shift all columns of sub-grids, and no others

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index ac020ae..069bcc5 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -600,7 +600,7 @@ void shift_subgrids(sdp_Mem* subgrids, sdp_Error* status)
         #pragma omp parallel for
         for (int j = 0; j < subgrid_size; ++j)
         {
-            for (int i = 0; i < subgrid_size; ++i)
+            for (int i = 0; i < (int) subgrids_.shape[2]; ++i)
             {
                 subgrids_(k, j, i) = subgrids_(k + 1, j, i);
             }
-- 
2.43.0


From 6a625634661e6c080d1abb46def01a86f1913ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 63/96] fix: refuse an empty grid instead of looping forever

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 069bcc5..0a154de 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -630,6 +630,12 @@ void subgrid_add(
     // The "while" loops below really are needed.
     const int64_t sub_size_u = sub_.shape[0], sub_size_v = sub_.shape[1];
     const int64_t grid_size_u = grid_.shape[0], grid_size_v = grid_.shape[1];
+    if (grid_size_u < 1 || grid_size_v < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The grid is empty");
+        return;
+    }
     #pragma omp parallel for
     for (int64_t i = 0; i < sub_size_u; ++i)
     {
@@ -679,6 +685,12 @@ void subgrid_cut_out(
     // The "while" loops below really are needed.
     const int64_t sub_size_u = sub_.shape[0], sub_size_v = sub_.shape[1];
     const int64_t grid_size_u = grid_.shape[0], grid_size_v = grid_.shape[1];
+    if (grid_size_u < 1 || grid_size_v < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The grid is empty");
+        return;
+    }
     #pragma omp parallel for
     for (int64_t i = 0; i < sub_size_u; ++i)
     {
-- 
2.43.0


From a39936b5165a6863f7aac56d9cd5b2e71d628cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 64/96] fix: refuse to sum differences beyond the end of the
 arrays

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 0a154de..7daba3b 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -735,7 +735,7 @@ void sum_diff(
     sdp_mem_check_and_view(a, &a_, status);
     sdp_mem_check_and_view(b, &b_, status);
     if (*status) return;
-    if (a_.shape[0] != b_.shape[0])
+    if (a_.shape[0] != b_.shape[0] || end_row > a_.shape[0])
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
         return;
-- 
2.43.0


From 807a246fdccf6e60473b9cd8a94a7dd353d3d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 65/96] fix: refuse an image taper of another size than the
 image

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 7daba3b..03768d9 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -386,11 +386,11 @@ void image_to_flmn(
     );
     if (!*status && (sdp_mem_shape_dim(lmn, 0) < num_pix ||
             (flux && sdp_mem_shape_dim(flux, 0) < num_pix) ||
-            (image_taper_1d && flux && (taper_.shape[0] < size_l ||
-            taper_.shape[0] < size_m))))
+            (image_taper_1d && flux && (taper_.shape[0] != size_l ||
+            taper_.shape[0] != size_m))))
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
-        SDP_LOG_ERROR("Arrays are too small for the image");
+        SDP_LOG_ERROR("Arrays do not fit the image");
     }
     if (*status) return;
     if (flux)
-- 
2.43.0


From 25d8984c268fb740b143f6bebee5ed35adf2c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 66/96] fix: refuse coordinate bounds of arrays of different
 lengths

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 03768d9..638c753 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -2081,6 +2081,14 @@ void sdp_gridder_uvw_bounds_all(
     uvw_min[0] = uvw_min[1] = uvw_min[2] = INFINITY;
     uvw_max[0] = uvw_max[1] = uvw_max[2] = -INFINITY;
 
+    // Check the shapes of the arrays.
+    const int64_t num_uvw = sdp_mem_shape_dim(uvws, 0);
+    sdp_mem_check_num_dims(uvws, 2, status);
+    sdp_mem_check_dim_size(uvws, 1, 3, status);
+    sdp_mem_check_dim_size(start_chs, 0, num_uvw, status);
+    sdp_mem_check_dim_size(end_chs, 0, num_uvw, status);
+    if (*status) return;
+
     // Check memory location.
     const sdp_MemLocation loc = sdp_mem_location(uvws);
     if (loc == SDP_MEM_CPU)
-- 
2.43.0


From ef5624b251a2d2db9c15bf225194d6cc5dc4b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 67/96] fix: refuse read-only arrays for the results of tiling

---
 .../visibility/sdp_tiled_functions.cpp        | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 5053304..f187ea4 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -327,6 +327,7 @@ static void check_array(
         const sdp_MemType type,
         const sdp_MemLocation location,
         const int64_t min_elements,
+        const bool is_output,
         sdp_Error* status
 )
 {
@@ -341,6 +342,11 @@ static void check_array(
         *status = SDP_ERR_MEM_LOCATION;
         SDP_LOG_ERROR("Memory location mismatch");
     }
+    else if (is_output && sdp_mem_is_read_only(mem))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Output array is read-only");
+    }
     else if (sdp_mem_num_elements(mem) < min_elements)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
@@ -409,14 +415,14 @@ void sdp_count_and_prefix_sum(
             num_baselines,
             status
     );
-    check_array(freqs, freq_type, vis_location, num_channels, status);
+    check_array(freqs, freq_type, vis_location, num_channels, false, status);
     check_array(tile_offsets, SDP_MEM_INT, vis_location,
-            num_tiles + 1, status
+            num_tiles + 1, true, status
     );
     check_array(num_points_in_tiles, SDP_MEM_INT, vis_location,
-            num_tiles, status
+            num_tiles, true, status
     );
-    check_array(num_skipped, SDP_MEM_INT, vis_location, 1, status);
+    check_array(num_skipped, SDP_MEM_INT, vis_location, 1, true, status);
 
     // Initialise arrays to zero
     sdp_mem_clear_contents(tile_offsets, status);
@@ -655,14 +661,14 @@ void sdp_bucket_sort(
             num_pols,
             status
     );
-    check_array(freqs, freq_type, vis_location, num_channels, status);
+    check_array(freqs, freq_type, vis_location, num_channels, false, status);
     check_array(tile_offsets, SDP_MEM_INT, vis_location,
-            num_tiles + 1, status
+            num_tiles + 1, true, status
     );
-    check_array(sorted_tile, SDP_MEM_INT, vis_location, 0, status);
-    check_array(sorted_uu, uvw_type, vis_location, 0, status);
-    check_array(sorted_vv, uvw_type, vis_location, 0, status);
-    check_array(sorted_weight, weight_type, vis_location, 0, status);
+    check_array(sorted_tile, SDP_MEM_INT, vis_location, 0, true, status);
+    check_array(sorted_uu, uvw_type, vis_location, 0, true, status);
+    check_array(sorted_vv, uvw_type, vis_location, 0, true, status);
+    check_array(sorted_weight, weight_type, vis_location, 0, true, status);
     if (!*status && num_pols != 1)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
@@ -866,14 +872,14 @@ void sdp_tiled_indexing(
             num_baselines,
             status
     );
-    check_array(freqs, freq_type, uvw_loc, num_channels, status);
+    check_array(freqs, freq_type, uvw_loc, num_channels, false, status);
     check_array(tile_offsets, SDP_MEM_INT, uvw_loc,
-            num_tiles_u * num_tiles_v + 1, status
+            num_tiles_u * num_tiles_v + 1, true, status
     );
-    check_array(sorted_tile, SDP_MEM_INT, uvw_loc, 0, status);
-    check_array(sorted_vis_index, SDP_MEM_INT, uvw_loc, 0, status);
-    check_array(sorted_uu, uvw_type, uvw_loc, 0, status);
-    check_array(sorted_vv, uvw_type, uvw_loc, 0, status);
+    check_array(sorted_tile, SDP_MEM_INT, uvw_loc, 0, true, status);
+    check_array(sorted_vis_index, SDP_MEM_INT, uvw_loc, 0, true, status);
+    check_array(sorted_uu, uvw_type, uvw_loc, 0, true, status);
+    check_array(sorted_vv, uvw_type, uvw_loc, 0, true, status);
 
     // Initialise arrays to zero
     sdp_mem_clear_contents(sorted_tile, status);
-- 
2.43.0


From 42b0da23cb86099adb80b7b22753d95c85706836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 68/96] fix: refuse sorted arrays too small for all the tiles

---
 .../visibility/sdp_tiled_functions.cpp        | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index f187ea4..e97d0a6 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -355,6 +355,19 @@ static void check_array(
 }
 
 
+// Number of entries the sorted arrays must have space for,
+// given by the element after the offsets of all tiles.
+static int64_t num_sorted(
+        const sdp_Mem* tile_offsets,
+        const int64_t num_tiles,
+        const sdp_Error* status
+)
+{
+    if (*status || sdp_mem_location(tile_offsets) != SDP_MEM_CPU) return 0;
+    return ((const int*) sdp_mem_data_const(tile_offsets))[num_tiles];
+}
+
+
 void sdp_count_and_prefix_sum(
         const sdp_Mem* uvw,
         const sdp_Mem* freqs,
@@ -665,10 +678,14 @@ void sdp_bucket_sort(
     check_array(tile_offsets, SDP_MEM_INT, vis_location,
             num_tiles + 1, true, status
     );
-    check_array(sorted_tile, SDP_MEM_INT, vis_location, 0, true, status);
-    check_array(sorted_uu, uvw_type, vis_location, 0, true, status);
-    check_array(sorted_vv, uvw_type, vis_location, 0, true, status);
-    check_array(sorted_weight, weight_type, vis_location, 0, true, status);
+    const int64_t num_out = num_sorted(tile_offsets, num_tiles, status);
+    check_array(sorted_tile, SDP_MEM_INT, vis_location, num_out, true, status);
+    check_array(sorted_uu, uvw_type, vis_location, num_out, true, status);
+    check_array(sorted_vv, uvw_type, vis_location, num_out, true, status);
+    check_array(sorted_weight, weight_type, vis_location, num_out, true,
+            status
+    );
+    check_array(sorted_vis, vis_type, vis_location, num_out, true, status);
     if (!*status && num_pols != 1)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
@@ -876,10 +893,13 @@ void sdp_tiled_indexing(
     check_array(tile_offsets, SDP_MEM_INT, uvw_loc,
             num_tiles_u * num_tiles_v + 1, true, status
     );
-    check_array(sorted_tile, SDP_MEM_INT, uvw_loc, 0, true, status);
-    check_array(sorted_vis_index, SDP_MEM_INT, uvw_loc, 0, true, status);
-    check_array(sorted_uu, uvw_type, uvw_loc, 0, true, status);
-    check_array(sorted_vv, uvw_type, uvw_loc, 0, true, status);
+    const int64_t num_out = num_sorted(
+            tile_offsets, num_tiles_u * num_tiles_v, status
+    );
+    check_array(sorted_tile, SDP_MEM_INT, uvw_loc, num_out, true, status);
+    check_array(sorted_vis_index, SDP_MEM_INT, uvw_loc, num_out, true, status);
+    check_array(sorted_uu, uvw_type, uvw_loc, num_out, true, status);
+    check_array(sorted_vv, uvw_type, uvw_loc, num_out, true, status);
 
     // Initialise arrays to zero
     sdp_mem_clear_contents(sorted_tile, status);
-- 
2.43.0


From 74695fbcb899e45088b68618837e1cfd59df0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 69/96] fix: read no sum of differences when it could not be
 computed

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 638c753..223f33c 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -2057,7 +2057,7 @@ void sdp_gridder_sum_diff(
         sdp_Mem* result_cpu = sdp_mem_create_copy(
                 result_gpu, SDP_MEM_CPU, status
         );
-        *result = *((int*) sdp_mem_data(result_cpu));
+        if (!*status) *result = *((int*) sdp_mem_data(result_cpu));
         sdp_mem_free(result_cpu);
         sdp_mem_free(result_gpu);
     }
-- 
2.43.0


From 89701e782b3c21f8b220d8e16b4572de6d54b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 70/96] fix: refuse low-precision coordinates before clearing
 the output of w-stacking

---
 src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index 92f68ff..d2a9067 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -92,11 +92,14 @@ void check_params(
     );
     if (!(sdp_mem_type(vis) & SDP_MEM_COMPLEX) ||
             (type_image != SDP_MEM_FLOAT && type_image != SDP_MEM_DOUBLE) ||
-            (type_uvw != SDP_MEM_FLOAT && type_uvw != SDP_MEM_DOUBLE))
+            (type_uvw != SDP_MEM_FLOAT && type_uvw != SDP_MEM_DOUBLE) ||
+            (type_uvw == SDP_MEM_FLOAT &&
+            sdp_mem_type(vis) != SDP_MEM_COMPLEX_FLOAT))
     {
         *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_ERROR("Visibilities must be complex, image must be real or "
-                "complex, and (u,v,w)-coordinates must be real"
+                "complex, and (u,v,w)-coordinates must be real, with at "
+                "least the precision of the visibilities"
         );
         return;
     }
-- 
2.43.0


From a8f1872eba311cb743aa603b62d24816ca6c01a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 71/96] fix: refuse arrays that do not match the plan before
 shifting them

---
 .../fourier_transforms/sdp_fft.cpp            | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 8b9214f..41ed6cc 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -889,14 +889,13 @@ sdp_Fft* sdp_fft_create(
 }
 
 
-void sdp_fft_exec(
-        sdp_Fft* fft,
-        sdp_Mem* input,
-        sdp_Mem* output,
+static void check_plan(
+        const sdp_Fft* fft,
+        const sdp_Mem* input,
+        const sdp_Mem* output,
         sdp_Error* status
 )
 {
-    if (*status || !fft || !input || !output) return;
     check_params(input, output, fft->num_dims, status);
     if (*status) return;
     if (!sdp_mem_is_matching(fft->input, input, 1) ||
@@ -904,8 +903,20 @@ void sdp_fft_exec(
     {
         *status = SDP_ERR_RUNTIME;
         SDP_LOG_ERROR("Arrays do not match those used for FFT plan creation");
-        return;
     }
+}
+
+
+void sdp_fft_exec(
+        sdp_Fft* fft,
+        sdp_Mem* input,
+        sdp_Mem* output,
+        sdp_Error* status
+)
+{
+    if (*status || !fft || !input || !output) return;
+    check_plan(fft, input, output, status);
+    if (*status) return;
     if (sdp_mem_location(input) == SDP_MEM_GPU)
     {
 #ifdef SDP_HAVE_CUDA
@@ -937,7 +948,8 @@ void sdp_fft_exec_shift(
         sdp_Error* status
 )
 {
-    if (*status) return;
+    if (*status || !fft || !data) return;
+    check_plan(fft, data, data, status);
     sdp_fft_phase(data, status);
     sdp_fft_exec(fft, data, data, status);
     sdp_fft_phase(data, status);
-- 
2.43.0


From 81ef3e9ef46fd25013d1ecd55c63f841955321e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 72/96] fix: refuse images and fields of view that the
 worst-case image cannot have

---
 .../grid_data/sdp_gridder_wtower_height.cpp   | 36 +++++++++++--------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index 70241f1..cca4a46 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -286,31 +286,37 @@ void sdp_gridder_worst_case_image(
         SDP_LOG_ERROR("Image must be square");
         return;
     }
+    if (sdp_mem_type(image) != SDP_MEM_COMPLEX_DOUBLE)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+        return;
+    }
+    sdp_MemViewCpu<complex<double>, 2> image_;
+    sdp_mem_check_and_view(image, &image_, status);
+    sdp_mem_check_writeable(image, status);
+    if (*status) return;
 
     // Make sources / image with source in corners of fov. Make sure it doesn't
     // divide the subgrid size equally (then there's a good chance we're
     // operating on-grid, and therefore not actually testing the window
     // function).
     int fov_edge = int(image_size / theta * fov / 2);
-    while (image_size % fov_edge == 0)
+    while (fov_edge > 0 && image_size % fov_edge == 0)
     {
         fov_edge -= 1;
     }
+    if (fov_edge <= 0 || fov_edge + 1 > image_size / 2)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Field of view is too small, or larger than the image");
+        return;
+    }
 
     // Put sources into corners, careful not to generate actual symmetries.
     sdp_mem_clear_contents(image, status);
-    if (sdp_mem_type(image) == SDP_MEM_COMPLEX_DOUBLE)
-    {
-        sdp_MemViewCpu<complex<double>, 2> image_;
-        sdp_mem_check_and_view(image, &image_, status);
-        image_(image_size / 2 + fov_edge, image_size / 2 + fov_edge) = 0.3;
-        image_(image_size / 2 - fov_edge, image_size / 2 - fov_edge) = 0.2;
-        image_(image_size / 2 + fov_edge, image_size / 2 - fov_edge - 1) = 0.3;
-        image_(image_size / 2 - fov_edge - 1, image_size / 2 + fov_edge) = 0.2;
-    }
-    else
-    {
-        *status = SDP_ERR_DATA_TYPE;
-        SDP_LOG_ERROR("Unsupported data type");
-    }
+    image_(image_size / 2 + fov_edge, image_size / 2 + fov_edge) = 0.3;
+    image_(image_size / 2 - fov_edge, image_size / 2 - fov_edge) = 0.2;
+    image_(image_size / 2 + fov_edge, image_size / 2 - fov_edge - 1) = 0.3;
+    image_(image_size / 2 - fov_edge - 1, image_size / 2 + fov_edge) = 0.2;
 }
-- 
2.43.0


From e374fea1ea6624b2d162bcc0cff31f202c1d8c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 73/96] fix: refuse unsupported types before clearing the
 results of tiling

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index e97d0a6..9b06c70 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -436,6 +436,13 @@ void sdp_count_and_prefix_sum(
             num_tiles, true, status
     );
     check_array(num_skipped, SDP_MEM_INT, vis_location, 1, true, status);
+    if (uvw_type != freq_type ||
+            (uvw_type != SDP_MEM_DOUBLE && uvw_type != SDP_MEM_FLOAT))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+    }
+    if (*status) return;
 
     // Initialise arrays to zero
     sdp_mem_clear_contents(tile_offsets, status);
-- 
2.43.0


From 52b952a4c9b8ca28be90455ab0b8e71ecfc7e1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 74/96] fix: refuse unsupported types before clearing the
 sorted arrays

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 9b06c70..8151bab 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -698,6 +698,13 @@ void sdp_bucket_sort(
         *status = SDP_ERR_INVALID_ARGUMENT;
         SDP_LOG_ERROR("Only one polarisation can be sorted");
     }
+    if (!*status && (uvw_type != freq_type || uvw_type != weight_type ||
+            (uvw_type != SDP_MEM_DOUBLE && uvw_type != SDP_MEM_FLOAT) ||
+            vis_type != (uvw_type | SDP_MEM_COMPLEX)))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+    }
 
     // Initialise arrays to zero
     sdp_mem_clear_contents(sorted_uu, status);
@@ -907,6 +914,12 @@ void sdp_tiled_indexing(
     check_array(sorted_vis_index, SDP_MEM_INT, uvw_loc, num_out, true, status);
     check_array(sorted_uu, uvw_type, uvw_loc, num_out, true, status);
     check_array(sorted_vv, uvw_type, uvw_loc, num_out, true, status);
+    if (!*status && (uvw_type != freq_type ||
+            (uvw_type != SDP_MEM_DOUBLE && uvw_type != SDP_MEM_FLOAT)))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+    }
 
     // Initialise arrays to zero
     sdp_mem_clear_contents(sorted_tile, status);
-- 
2.43.0


From e8e6c72e09938e030d8fb88332bfe46ce75a329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:14 +0000
Subject: [PATCH 75/96] fix: refuse arrays that are not contiguous in the tiled
 functions

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 8151bab..d0be645 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -352,6 +352,11 @@ static void check_array(
         *status = SDP_ERR_INVALID_ARGUMENT;
         SDP_LOG_ERROR("Array is too small");
     }
+    else if (!sdp_mem_is_c_contiguous(mem))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("All arrays must be C-contiguous");
+    }
 }
 
 
-- 
2.43.0


From d64d88404dfa09cccb51f80b7db0cabe4f39427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:14 +0000
Subject: [PATCH 76/96] fix: refuse to add vectors that are not contiguous

---
 src/ska-sdp-func/examples/sdp_vector_add.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ska-sdp-func/examples/sdp_vector_add.cpp b/src/ska-sdp-func/examples/sdp_vector_add.cpp
index 10d3064..c94bd94 100644
--- a/src/ska-sdp-func/examples/sdp_vector_add.cpp
+++ b/src/ska-sdp-func/examples/sdp_vector_add.cpp
@@ -57,6 +57,14 @@ void sdp_vector_add(
         SDP_LOG_ERROR("All vectors must have the same number of elements");
         return;
     }
+    if (!sdp_mem_is_c_contiguous(input_a) ||
+            !sdp_mem_is_c_contiguous(input_b) ||
+            !sdp_mem_is_c_contiguous(output))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("All vectors must be C-contiguous");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (type == SDP_MEM_DOUBLE)
-- 
2.43.0


From dbb1594028fa7c23cba3cb29dcdfc422bb56106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:58 +0000
Subject: [PATCH 77/96] fix: refuse output that is not contiguous in the
 example function

---
 src/ska-sdp-func/examples/sdp_function_example_a.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index f83ab50..c1b227b 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -75,6 +75,12 @@ void sdp_function_example_a_exec(
         SDP_LOG_ERROR("Output is not big enough");
         return;
     }
+    if (!sdp_mem_is_c_contiguous(output))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Output must be C-contiguous");
+        return;
+    }
 
     SDP_LOG_INFO("Running processing function A: %d, %d, %.3f",
             plan->a, plan->b, plan->c
-- 
2.43.0


From bee89e151422f57de63e88250740a2f1b8370910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:58 +0000
Subject: [PATCH 78/96] fix: refuse w-tower sizes that are not positive

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 991fa0b..12f06a0 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -721,6 +721,13 @@ sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(
         );
         return NULL;
     }
+    if (subgrid_size <= 0 || support <= 0 || oversampling <= 0 ||
+            w_support <= 0 || w_oversampling <= 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Sub-grid and kernel sizes must be positive");
+        return NULL;
+    }
     sdp_GridderWtowerUVW* plan = (sdp_GridderWtowerUVW*) calloc(
             1, sizeof(sdp_GridderWtowerUVW)
     );
-- 
2.43.0


From 2fc00e77223bc855191d416b4015f352b8415048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:58 +0000
Subject: [PATCH 79/96] fix: refuse direct gridder sizes that are not positive

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 1a08872..01e1af6 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -38,6 +38,12 @@ sdp_GridderDirect* sdp_gridder_direct_create(
 )
 {
     if (*status) return NULL;
+    if (subgrid_size <= 0 || support < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Sub-grid and kernel sizes must be positive");
+        return NULL;
+    }
     sdp_GridderDirect* plan = (sdp_GridderDirect*)calloc(
             1, sizeof(sdp_GridderDirect)
     );
-- 
2.43.0


From 69d249d9a2d003ddb02fc6abcf57e23e067bb060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:24 +0000
Subject: [PATCH 80/96] fix: accept an image taper longer than one side of the
 image (undoes 807a246)

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 223f33c..8650fc6 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -386,11 +386,11 @@ void image_to_flmn(
     );
     if (!*status && (sdp_mem_shape_dim(lmn, 0) < num_pix ||
             (flux && sdp_mem_shape_dim(flux, 0) < num_pix) ||
-            (image_taper_1d && flux && (taper_.shape[0] != size_l ||
-            taper_.shape[0] != size_m))))
+            (image_taper_1d && flux && (taper_.shape[0] < size_l ||
+            taper_.shape[0] < size_m))))
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
-        SDP_LOG_ERROR("Arrays do not fit the image");
+        SDP_LOG_ERROR("Arrays are too small for the image");
     }
     if (*status) return;
     if (flux)
-- 
2.43.0


From 07cfb8e047baa1c2fe935435bad1f301b1668118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:13 +0000
Subject: [PATCH 81/96] fix: refuse sub-grid images of another size than the
 direct gridder's

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 01e1af6..07ecaac 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -80,6 +80,10 @@ void sdp_gridder_direct_degrid(
 )
 {
     if (*status) return;
+    sdp_mem_check_num_dims(subgrid_image, 2, status);
+    sdp_mem_check_dim_size(subgrid_image, 0, plan->subgrid_size, status);
+    sdp_mem_check_dim_size(subgrid_image, 1, plan->subgrid_size, status);
+    if (*status) return;
 
     // Count nonzero pixels in image.
     int64_t num_src = sdp_gridder_count_nonzero_pixels(subgrid_image, status);
-- 
2.43.0


From e383db4cd521982d1b091cc0d94838834c5257d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:49 +0000
Subject: [PATCH 82/96] Undo the changes to the example functions (examples
 stay as they were)

---
 src/ska-sdp-func/examples/sdp_function_example_a.cpp | 9 +--------
 src/ska-sdp-func/examples/sdp_vector_add.cpp         | 8 --------
 2 files changed, 1 insertion(+), 16 deletions(-)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index c1b227b..14c0fc7 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -75,20 +75,13 @@ void sdp_function_example_a_exec(
         SDP_LOG_ERROR("Output is not big enough");
         return;
     }
-    if (!sdp_mem_is_c_contiguous(output))
-    {
-        *status = SDP_ERR_RUNTIME;
-        SDP_LOG_ERROR("Output must be C-contiguous");
-        return;
-    }
 
     SDP_LOG_INFO("Running processing function A: %d, %d, %.3f",
             plan->a, plan->b, plan->c
     );
 
     float* output_pointer = (float*) sdp_mem_data(output);
-    const int num_to_fill = plan->a * plan->b;
-    for (int f = 0; f < num_to_fill; f++)
+    for (int f = 0; f < num_elements; f++)
     {
         float ftemp = 0.f;
         plan->workarea[f] = plan->c * f;
diff --git a/src/ska-sdp-func/examples/sdp_vector_add.cpp b/src/ska-sdp-func/examples/sdp_vector_add.cpp
index c94bd94..10d3064 100644
--- a/src/ska-sdp-func/examples/sdp_vector_add.cpp
+++ b/src/ska-sdp-func/examples/sdp_vector_add.cpp
@@ -57,14 +57,6 @@ void sdp_vector_add(
         SDP_LOG_ERROR("All vectors must have the same number of elements");
         return;
     }
-    if (!sdp_mem_is_c_contiguous(input_a) ||
-            !sdp_mem_is_c_contiguous(input_b) ||
-            !sdp_mem_is_c_contiguous(output))
-    {
-        *status = SDP_ERR_RUNTIME;
-        SDP_LOG_ERROR("All vectors must be C-contiguous");
-        return;
-    }
     if (location == SDP_MEM_CPU)
     {
         if (type == SDP_MEM_DOUBLE)
-- 
2.43.0


From bd33ca10280fff22ae35271426d356d0ab2fda86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:51 +0000
Subject: [PATCH 83/96] fix: accept keyword arguments in the SwiFTly Python
 methods

---
 src/ska_sdp_func/fourier_transforms/swiftly.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ska_sdp_func/fourier_transforms/swiftly.py b/src/ska_sdp_func/fourier_transforms/swiftly.py
index ca6c495..836be72 100644
--- a/src/ska_sdp_func/fourier_transforms/swiftly.py
+++ b/src/ska_sdp_func/fourier_transforms/swiftly.py
@@ -88,22 +88,22 @@ def auto_wrap_method(c_fn_name, add_handle=True, add_error_status=True):
 
             # Gather + wrap parameters
             bound = sig.bind(self, *args, **kwargs)
-            args = []
+            c_args = []
             if add_handle:
-                args.append(self.handle())
+                c_args.append(self.handle())
             for par in list(sig.parameters)[1:]:
                 wrap_fn = WRAPPER_FNS[anns[par]][1]
-                args.append(wrap_fn(bound.arguments[par]))
+                c_args.append(wrap_fn(bound.arguments[par]))
 
             # Call, passing an additional error status if requested
             if add_error_status:
-                error_checking(function)(*args)
+                error_checking(function)(*c_args)
             else:
-                function(*args)
+                function(*c_args)
 
             # Finally call original function, in case there's any
             # additional action to take.
-            return orig_fn(*args, **kwargs)
+            return orig_fn(self, *args, **kwargs)
 
         return wrapped_fn
 
-- 
2.43.0


From 3c04ac73c2c039e6538c0915c18aba8b42c07240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:51 +0000
Subject: [PATCH 84/96] fix: keep the epoch when a Python SkyCoord is copied

---
 src/ska_sdp_func/utility/sky_coord.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ska_sdp_func/utility/sky_coord.py b/src/ska_sdp_func/utility/sky_coord.py
index 0b631c1..5254fea 100644
--- a/src/ska_sdp_func/utility/sky_coord.py
+++ b/src/ska_sdp_func/utility/sky_coord.py
@@ -30,6 +30,7 @@ class SkyCoord(StructWrapper):
         :meth:`set_epoch`.
         """
         create_args = tuple()
+        other = None
         if len(args) == 1:
             if isinstance(args[0], SkyCoord):
                 other = args[0]
@@ -68,6 +69,8 @@ class SkyCoord(StructWrapper):
         super().__init__(
             Lib.sdp_sky_coord_create, create_args, Lib.sdp_sky_coord_free
         )
+        if other is not None:
+            self.set_epoch(other.epoch())
 
     def epoch(self) -> float:
         """Returns the value of the coordinate epoch"""
-- 
2.43.0


From 337de0bf9650303404d98b6f5593e614680a8160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:08 +0000
Subject: [PATCH 85/96] fix: keep the dipole patterns on the GPU inside their
 arrays

---
 src/ska-sdp-func/station_beam/sdp_element_dipole.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cu b/src/ska-sdp-func/station_beam/sdp_element_dipole.cu
index f7043dd..9d1b324 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cu
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cu
@@ -52,6 +52,7 @@ __global__ void sdp_dipole_pattern(
 )
 {
     const int i = blockDim.x * blockIdx.x + threadIdx.x;
+    if (i >= num_points) return;
     sdp_dipole(kL, cos_kL,
             phi_rad[i], (FP)sin(theta_rad[i]), (FP)cos(theta_rad[i]),
             e_theta[i * stride + e_theta_offset],
@@ -76,6 +77,7 @@ __global__ void sdp_dipole_pattern_scalar(
 )
 {
     const int i = blockDim.x * blockIdx.x + threadIdx.x;
+    if (i >= num_points) return;
     FP amp, phi_;
     const FP sin_theta = sin(theta_rad[i]);
     const FP cos_theta = cos(theta_rad[i]);
-- 
2.43.0


From 80cad3a357398a47b93045b59bde97a290de1cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:08 +0000
Subject: [PATCH 86/96] fix: ignore visibilities below the lower edge of the
 weights grid on the GPU

---
 src/ska-sdp-func/visibility/sdp_weighting.cu | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cu b/src/ska-sdp-func/visibility/sdp_weighting.cu
index 9f529ad..a3847ce 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cu
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cu
@@ -57,7 +57,7 @@ __global__ void grid_write_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size && idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -138,7 +138,7 @@ __global__ void calc_sum_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size && idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -207,7 +207,7 @@ __global__ void grid_briggs_read_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size && idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -282,7 +282,7 @@ __global__ void grid_uniform_read_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size && idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
-- 
2.43.0


From 9e157174691deefed6622e57d51291892eccbddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:08 +0000
Subject: [PATCH 87/96] fix: clear the sums of weights before adding to them on
 the GPU

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index 69f01f4..7796dd0 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -759,6 +759,8 @@ void sdp_weighting_briggs(
                 sumweight2_shape,
                 status
         );
+        sdp_mem_clear_contents(sumweight_gpu, status);
+        sdp_mem_clear_contents(sumweight2_gpu, status);
 
         const char* kernel_name1 = 0;
         if (uvw_type == SDP_MEM_DOUBLE &&
-- 
2.43.0


From 4a328a5c5b8c615e2a2d285577760be36b1caf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:08 +0000
Subject: [PATCH 88/96] fix: convolve images with little padding correctly on
 the GPU

---
 src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu
index ccf3650..7813807 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu
@@ -176,9 +176,11 @@ __global__ void remove_padding_2D_gpu(
 
     if (i < original_rows && j < original_cols)
     {
-        data[i * original_cols +
-                j] =
-                padded_data[(i + (pad_rows - 1)) * cols + (j + (pad_cols - 1))];
+        // The result of the convolution is circular, so wrap the index
+        // if there is no padding in front of the data.
+        const int64_t i_pad = (i + (pad_rows - 1) + rows) % rows;
+        const int64_t j_pad = (j + (pad_cols - 1) + cols) % cols;
+        data[i * original_cols + j] = padded_data[i_pad * cols + j_pad];
     }
 }
 
-- 
2.43.0


From 7abb542f4ac5995bab7d50fe60fbd3205314367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:08 +0000
Subject: [PATCH 89/96] fix: search the maximum on the GPU inside the image
 only

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cu | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cu b/src/ska-sdp-func/clean/sdp_hogbom_clean.cu
index 4ddc4af..0610cf0 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cu
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cu
@@ -289,11 +289,11 @@ __global__ void find_maximum_value<double, int>(
     max_indices[tid] = -1;
 
     // Load input elements into shared memory
-    max_values[tid] = input[i];
+    if (i < num_elements) max_values[tid] = input[i];
     // if index array has already been initialised then load it
     if (init_idx == true)
     {
-        max_indices[tid] = index_in[i];
+        if (i < num_elements) max_indices[tid] = index_in[i];
     }
     // if it hasn't, initialise it.
     else
@@ -348,11 +348,11 @@ __global__ void find_maximum_value<float, int>(
     max_indices[tid] = -1;
 
     // Load input elements into shared memory
-    max_values[tid] = input[i];
+    if (i < num_elements) max_values[tid] = input[i];
     // if index array has already been initialised then load it
     if (init_idx == true)
     {
-        max_indices[tid] = index_in[i];
+        if (i < num_elements) max_indices[tid] = index_in[i];
     }
     // if it hasn't, initialise it.
     else
-- 
2.43.0


From c8a7b4e86ef3645a96b4ba4df87bf984d5a603d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:00 +0000
Subject: [PATCH 90/96] fix: start the CLEAN model from zero on the GPU, as on
 the CPU

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index 0c657c4..c79581c 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -366,7 +366,7 @@ void sdp_hogbom_clean_gpu(
             dirty_img_shape,
             status
     );
-    // sdp_mem_clear_contents(clean_model, status);
+    sdp_mem_clear_contents(clean_model, status);
     sdp_mem_clear_contents(clean_comp_complex_mem, status);
 
     // for psf working space
-- 
2.43.0


From 06fc04361affda2afea6738b848a36d4742c98c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:01 +0000
Subject: [PATCH 91/96] fix: sort complex visibilities into tiles on the GPU

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 4 ++--
 src/ska-sdp-func/visibility/sdp_tiled_functions.cu  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index d0be645..cdbe79a 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -810,14 +810,14 @@ void sdp_bucket_sort(
                 freq_type == SDP_MEM_DOUBLE)
         {
             kernel_name2 =
-                    "sdp_bucket_sort_simple_gpu<double, double, double, double, 1>";
+                    "sdp_bucket_sort_simple_gpu<double, double, double2, double, 1>";
         }
         else if (uvw_type == SDP_MEM_FLOAT &&
                 weight_type == SDP_MEM_FLOAT &&
                 freq_type == SDP_MEM_FLOAT)
         {
             kernel_name2 =
-                    "sdp_bucket_sort_simple_gpu<float, float, float, float, 1>";
+                    "sdp_bucket_sort_simple_gpu<float, float, float2, float, 1>";
         }
         else
         {
diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cu b/src/ska-sdp-func/visibility/sdp_tiled_functions.cu
index 8b1d5ec..bcca7bf 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cu
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cu
@@ -208,8 +208,8 @@ __global__ void sdp_bucket_sort_simple_gpu(
     }
 }
 
-SDP_CUDA_KERNEL(sdp_bucket_sort_simple_gpu<double, double, double, double, 1>)
-SDP_CUDA_KERNEL(sdp_bucket_sort_simple_gpu<float, float, float, float, 1>)
+SDP_CUDA_KERNEL(sdp_bucket_sort_simple_gpu<double, double, double2, double, 1>)
+SDP_CUDA_KERNEL(sdp_bucket_sort_simple_gpu<float, float, float2, float, 1>)
 
 
 template<typename UVW_TYPE, typename FREQ_TYPE, typename VIS_TYPE,
-- 
2.43.0


From 3b76974d4b6090c4598f96b62f96be477975dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:29 +0000
Subject: [PATCH 92/96] fix: allow optional arrays to be left out of station
 beams on the GPU

---
 src/ska-sdp-func/station_beam/sdp_station.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 1481077..1f40a24 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -463,6 +463,7 @@ void sdp_station_beam_aperture_array(
         const uint64_t shared_mem_bytes = max_in_chunk * (
             5 * sdp_mem_type_size(precision) + sizeof(int)
         );
+        const void* const null_buffer = 0; // For optional arrays.
         const void* args[] = {
             is_dbl ? (const void*)&wavenumber : (const void*)&wavenumber_f,
             &num_elements,
@@ -474,9 +475,13 @@ void sdp_station_beam_aperture_array(
             &num_points,
             sdp_mem_gpu_buffer_const(point_x, status),
             sdp_mem_gpu_buffer_const(point_y, status),
-            sdp_mem_gpu_buffer_const(point_z, status),
-            sdp_mem_gpu_buffer_const(element_beam_index, status),
-            sdp_mem_gpu_buffer_const(element_beam, status),
+            point_z ? sdp_mem_gpu_buffer_const(point_z, status) :
+                (const void*)&null_buffer,
+            element_beam_index ?
+                sdp_mem_gpu_buffer_const(element_beam_index, status) :
+                (const void*)&null_buffer,
+            element_beam ? sdp_mem_gpu_buffer_const(element_beam, status) :
+                (const void*)&null_buffer,
             &index_offset_station_beam,
             sdp_mem_gpu_buffer(station_beam, status),
             is_dbl ? (const void*)&norm_factor : (const void*)&norm_factor_f,
-- 
2.43.0


From 03582b1c3b41d04cf852755c8d0e5b4a804547c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:59 +0000
Subject: [PATCH 93/96] fix: check the sizes of GPU arrays in the gridder
 utilities

---
 .../grid_data/sdp_gridder_utils.cpp           | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 8650fc6..fb6f3e2 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -913,6 +913,9 @@ void sdp_gridder_accumulate_scaled_arrays(
         sdp_MemViewGpu<const complex<double>, 2> in2_;
         if (in2) sdp_mem_check_and_view(in2, &in2_, status);
         const char* kernel_name = 0;
+        check_same_shape(out, in1, status);
+        if (in2) check_same_shape(out, in2, status);
+        if (*status) return;
         const void* arg[] = {NULL, NULL, (const void*) &in2_, &exponent};
         if (type_out == SDP_MEM_COMPLEX_DOUBLE &&
                 type1 == SDP_MEM_COMPLEX_DOUBLE &&
@@ -1280,6 +1283,23 @@ void sdp_gridder_idft(
             use_taper = 1;
             sdp_mem_check_and_view(image_taper_1d, &taper, status);
         }
+        const int64_t num_uvw = sdp_mem_shape_dim(uvws, 0);
+        const int64_t image_size = sdp_mem_shape_dim(image, 0);
+        if (use_start_end_ch)
+        {
+            sdp_mem_check_dim_size(start_chs, 0, num_uvw, status);
+            sdp_mem_check_dim_size(end_chs, 0, num_uvw, status);
+        }
+        sdp_mem_check_dim_size(uvws, 1, 3, status);
+        sdp_mem_check_dim_size(vis, 0, num_uvw, status);
+        sdp_mem_check_dim_size(image, 1, image_size, status);
+        sdp_mem_check_dim_size(lmn, 0, image_size * image_size, status);
+        sdp_mem_check_dim_size(lmn, 1, 3, status);
+        if (use_taper)
+        {
+            sdp_mem_check_dim_size(image_taper_1d, 0, image_size, status);
+        }
+        if (*status) return;
         const void* arg[] = {
             is_dbl ? (const void*) &uvw_dbl : (const void*) &uvw_flt,
             is_dbl ? (const void*) &vis_dbl : (const void*) &vis_flt,
@@ -1685,6 +1705,9 @@ void sdp_gridder_scale_inv_array(
         sdp_MemViewGpu<const complex<double>, 2> in2_;
         sdp_mem_check_and_view(in2, &in2_, status);
         const char* kernel_name = 0;
+        check_same_shape(out, in1, status);
+        check_same_shape(out, in2, status);
+        if (*status) return;
         const void* arg[] = {NULL, NULL, (const void*) &in2_, &exponent};
         if (sdp_mem_type(out) == SDP_MEM_COMPLEX_DOUBLE &&
                 sdp_mem_type(in1) == SDP_MEM_DOUBLE &&
@@ -2021,6 +2044,13 @@ void sdp_gridder_sum_diff(
     }
     else
     {
+        check_same_shape(a, b, status);
+        if (!*status && end_row > sdp_mem_shape_dim(a, 0))
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+        }
+        if (*status) return;
+
         // Allocate space for the result.
         const int64_t shape[] = {1};
         sdp_Mem* result_gpu = sdp_mem_create(
-- 
2.43.0


From bdf8d4424e5233aed792a9474a92ddc414dcbc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:59 +0000
Subject: [PATCH 94/96] fix: shift sub-grids of any shape on the GPU

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 4 ++--
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cu  | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index fb6f3e2..ddab10a 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1791,8 +1791,8 @@ void sdp_gridder_shift_subgrids(sdp_Mem* subgrids, sdp_Error* status)
         uint64_t num_threads[] = {32, 8, 1}, num_blocks[] = {1, 1, 1};
         const int64_t sub_size_u = sdp_mem_shape_dim(subgrids, 1);
         const int64_t sub_size_v = sdp_mem_shape_dim(subgrids, 2);
-        num_blocks[0] = (sub_size_u + num_threads[0] - 1) / num_threads[0];
-        num_blocks[1] = (sub_size_v + num_threads[1] - 1) / num_threads[1];
+        num_blocks[0] = (sub_size_v + num_threads[0] - 1) / num_threads[0];
+        num_blocks[1] = (sub_size_u + num_threads[1] - 1) / num_threads[1];
         sdp_MemViewGpu<complex<double>, 3> sub_dbl;
         sdp_MemViewGpu<complex<float>, 3> sub_flt;
         const char* kernel_name = 0;
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
index 845f5b5..81d74ee 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
@@ -156,10 +156,9 @@ __global__ void sdp_gridder_shift_subgrids(
 )
 {
     const int w_support = (int) subgrids.shape[0];
-    const int subgrid_size = (int) subgrids.shape[1];
     const int i = blockDim.x * blockIdx.x + threadIdx.x;
     const int j = blockDim.y * blockIdx.y + threadIdx.y;
-    if (i >= subgrid_size || j >= subgrid_size) return;
+    if (i >= subgrids.shape[2] || j >= subgrids.shape[1]) return;
     for (int k = 0; k < w_support - 1; ++k)
     {
         subgrids(k, j, i) = subgrids(k + 1, j, i);
-- 
2.43.0


From 368ae6f4373e783b005b78174512874bf66b6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:59 +0000
Subject: [PATCH 95/96] fix: do not read results from the GPU after an error

---
 .../visibility/sdp_tiled_functions.cpp            | 15 ++++++---------
 src/ska-sdp-func/visibility/sdp_weighting.cpp     | 14 +++++++++-----
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index cdbe79a..6ea1442 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -597,15 +597,12 @@ void sdp_count_and_prefix_sum(
                 SDP_MEM_CPU,
                 status
         );
-        *num_visibilites = *((int*)sdp_mem_data(tile_offsets_cpy) + num_tiles);
-
-        printf("Number of visibilites %d \n", *num_visibilites);
-        sdp_Mem* numn_skipped_cpy = sdp_mem_create_copy(num_skipped,
-                SDP_MEM_CPU,
-                status
-        );
-        int num_s_vis = *(int*)sdp_mem_data(numn_skipped_cpy);
-        printf("Number of skipped vis %d \n", num_s_vis);
+        if (!*status)
+        {
+            *num_visibilites =
+                    *((int*)sdp_mem_data(tile_offsets_cpy) + num_tiles);
+        }
+        sdp_mem_free(tile_offsets_cpy);
     }
 }
 
diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index 7796dd0..555ea52 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -817,11 +817,15 @@ void sdp_weighting_briggs(
                 status
         );
 
-        double robustness = robustness_calc(
-                *((double*)sdp_mem_data(sumweight2_gpu_cpy)),
-                *((double*)sdp_mem_data(sumweight_gpu_cpy)),
-                robust_param
-        );
+        double robustness = 0;
+        if (!*status)
+        {
+            robustness = robustness_calc(
+                    *((double*)sdp_mem_data(sumweight2_gpu_cpy)),
+                    *((double*)sdp_mem_data(sumweight_gpu_cpy)),
+                    robust_param
+            );
+        }
 
         sdp_mem_ref_dec(sumweight2_gpu);
         sdp_mem_ref_dec(sumweight_gpu);
-- 
2.43.0


From fd48311f27193d8730d4901635d325051ccdbb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:21 +0000
Subject: [PATCH 96/96] fix: gather the elements of strided arrays on the GPU
 when copying them

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 9c99e61..aeb83b8 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -366,7 +366,7 @@ sdp_Mem* sdp_mem_create_copy(
         sdp_Error* status
 )
 {
-    if (src->data && src->location == SDP_MEM_CPU && !is_dense(src))
+    if (src->data && !is_dense(src))
     {
         // Gather the elements of a strided array into a C contiguous one.
         sdp_Mem* packed = sdp_mem_create(
@@ -375,10 +375,21 @@ sdp_Mem* sdp_mem_create_copy(
         const int64_t element_size = sdp_mem_type_size(src->type);
         for (int64_t i = 0; !*status && i < src->num_elements; ++i)
         {
-            memcpy(((char*) (packed->data)) + i * element_size,
-                    ((const char*) (src->data)) + element_offset(src, i),
-                    element_size
+            char* element_dst = ((char*) (packed->data)) + i * element_size;
+            const char* element_src = (
+                ((const char*) (src->data)) + element_offset(src, i)
             );
+#ifdef SDP_HAVE_CUDA
+            if (src->location == SDP_MEM_GPU)
+            {
+                const cudaError_t cuda_error = cudaMemcpy(element_dst,
+                        element_src, element_size, cudaMemcpyDeviceToHost
+                );
+                if (cuda_error != cudaSuccess) *status = SDP_ERR_RUNTIME;
+                continue;
+            }
+#endif
+            memcpy(element_dst, element_src, element_size);
         }
         if (location == SDP_MEM_CPU) return packed;
         sdp_Mem* copy = sdp_mem_create_copy(packed, location, status);
-- 
2.43.0

