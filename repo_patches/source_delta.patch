From 58a10984010203a5038032443ddd2d07cfd429d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:30 +0000
Subject: [PATCH 01/27] fix: soa_grid::swap must exchange all dimensions and
 extents

swap() exchanged the X dimension and extent three times and left the Y and Z
ones behind, so swapping grids of different shape left both inconsistent with
their storage.
---
 include/libflatarray/soa_grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 65ce0d7..14fa180 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -120,11 +120,11 @@ public:
     {
         using std::swap;
         swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_extent_x, other.my_extent_x);
-        swap(my_extent_x, other.my_extent_x);
+        swap(my_dim_y, other.my_dim_y);
+        swap(my_dim_z, other.my_dim_z);
         swap(my_extent_x, other.my_extent_x);
+        swap(my_extent_y, other.my_extent_y);
+        swap(my_extent_z, other.my_extent_z);
         swap(my_byte_size, other.my_byte_size);
         swap(my_data, other.my_data);
         swap(cell_staging_buffer, other.cell_staging_buffer);
-- 
2.43.0


From d812fd9b910c0c79c92bfca6260a762324ebef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:10 +0000
Subject: [PATCH 02/27] fix: keep extents and byte size of soa_grid consistent
 for copied and empty grids

The copy constructor left the extents uninitialized (growing a copied
soa_vector then read garbage), a default constructed grid had an
indeterminate byte size (copying it allocated a garbage amount of memory)
and resize(0, 0, 0) or assigning an empty grid threw out_of_range after the
old storage had been released.
---
 include/libflatarray/soa_grid.hpp | 43 ++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 14fa180..7212933 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -88,19 +88,26 @@ public:
         my_dim_x(0),
         my_dim_y(0),
         my_dim_z(0),
+        my_extent_x(0),
+        my_extent_y(0),
+        my_extent_z(0),
+        my_byte_size(0),
         my_data(0)
     {
         resize(dim_x, dim_y, dim_z);
     }
 
     soa_grid(const soa_grid& other) :
-        my_dim_x(other.my_dim_x),
-        my_dim_y(other.my_dim_y),
-        my_dim_z(other.my_dim_z),
-        my_byte_size(other.byte_size()),
-        my_data(ALLOCATOR().allocate(other.byte_size()))
+        my_dim_x(0),
+        my_dim_y(0),
+        my_dim_z(0),
+        my_extent_x(0),
+        my_extent_y(0),
+        my_extent_z(0),
+        my_byte_size(0),
+        my_data(0)
     {
-        init();
+        resize(other.my_dim_x, other.my_dim_y, other.my_dim_z);
         copy_in(other);
     }
 
@@ -144,6 +151,11 @@ public:
 
         destroy_and_deallocate();
 
+        if ((new_dim_x == 0) && (new_dim_y == 0) && (new_dim_z == 0)) {
+            // no storage needed, equivalent to a default constructed grid
+            return;
+        }
+
         my_dim_x = new_dim_x;
         my_dim_y = new_dim_y;
         my_dim_z = new_dim_z;
@@ -457,16 +469,27 @@ private:
 
     void destroy_and_deallocate()
     {
-        if (my_data == 0) {
-            return;
+        if (my_data != 0) {
+            callback(detail::flat_array::destroy_functor<value_type, USE_CUDA_FUNCTORS>(my_dim_x, my_dim_y, my_dim_z));
+            ALLOCATOR().deallocate(my_data, byte_size());
         }
 
-        callback(detail::flat_array::destroy_functor<value_type, USE_CUDA_FUNCTORS>(my_dim_x, my_dim_y, my_dim_z));
-        ALLOCATOR().deallocate(my_data, byte_size());
+        my_dim_x = 0;
+        my_dim_y = 0;
+        my_dim_z = 0;
+        my_extent_x = 0;
+        my_extent_y = 0;
+        my_extent_z = 0;
+        my_byte_size = 0;
+        my_data = 0;
     }
 
     void copy_in(const soa_grid& other)
     {
+        if (other.my_data == 0) {
+            return;
+        }
+
         other.callback(this, detail::flat_array::copy_functor<value_type>(my_dim_x, my_dim_y, my_dim_z));
     }
 
-- 
2.43.0


From 89fdd464d1d1cf6d4ac97cdfcc2c563e20d1fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:10 +0000
Subject: [PATCH 03/27] fix: soa_grid::resize must not leave dangling storage
 behind if it fails

resize() released the old storage first and then let exceptions (size not
supported, out of memory, throwing c-tor of a member) escape with my_data
still pointing to it, so the d-tor destroyed and freed it a second time.
Unsupported sizes are now rejected up front, and if the allocation or
construction fails, then the grid is empty.
---
 include/libflatarray/soa_grid.hpp | 48 +++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 7212933..37f923a 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -149,24 +149,47 @@ public:
             return;
         }
 
-        destroy_and_deallocate();
-
         if ((new_dim_x == 0) && (new_dim_y == 0) && (new_dim_z == 0)) {
             // no storage needed, equivalent to a default constructed grid
+            destroy_and_deallocate();
             return;
         }
 
+        // select_sizes rounds up our grid size. Unsupported sizes are
+        // rejected here, before any of the old state is given up:
+        std::size_t new_byte_size = 0;
+        std::size_t new_extent_x = 0;
+        std::size_t new_extent_y = 0;
+        std::size_t new_extent_z = 0;
+        detail::flat_array::set_byte_size_functor<value_type> functor(
+            &new_byte_size,
+            &new_extent_x,
+            &new_extent_y,
+            &new_extent_z);
+        api_traits::select_sizes<value_type>()(my_data, functor, new_dim_x, new_dim_y, new_dim_z);
+
+        destroy_and_deallocate();
+
+        // from here on the grid is empty until everything succeeded:
+        char *new_data = ALLOCATOR().allocate(new_byte_size);
+
+        try {
+            detail::flat_array::construct_functor<value_type, USE_CUDA_FUNCTORS> init_functor(
+                new_dim_x, new_dim_y, new_dim_z);
+            api_traits::select_sizes<value_type>()(new_data, init_functor, new_dim_x, new_dim_y, new_dim_z);
+        } catch (...) {
+            ALLOCATOR().deallocate(new_data, new_byte_size);
+            throw;
+        }
+
         my_dim_x = new_dim_x;
         my_dim_y = new_dim_y;
         my_dim_z = new_dim_z;
-        // we need callback() to round up our grid size
-        callback(detail::flat_array::set_byte_size_functor<value_type>(
-                     &my_byte_size,
-                     &my_extent_x,
-                     &my_extent_y,
-                     &my_extent_z));
-        my_data = ALLOCATOR().allocate(byte_size());
-        init();
+        my_extent_x = new_extent_x;
+        my_extent_y = new_extent_y;
+        my_extent_z = new_extent_z;
+        my_byte_size = new_byte_size;
+        my_data = new_data;
     }
 
     template<typename FUNCTOR>
@@ -462,11 +485,6 @@ private:
             my_dim_z);
     }
 
-    void init()
-    {
-        callback(detail::flat_array::construct_functor<value_type, USE_CUDA_FUNCTORS>(my_dim_x, my_dim_y, my_dim_z));
-    }
-
     void destroy_and_deallocate()
     {
         if (my_data != 0) {
-- 
2.43.0


From fa677f2a002d8747b7ebbf717e3fa57898c7d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:25 +0000
Subject: [PATCH 04/27] fix: release all resources if copying a soa_grid fails

If the copy assignment of an element threw inside the copy c-tor, then the
storage and all members of the half-built copy were leaked. Assigning a grid
of different size now keeps the old content if it fails, too (otherwise
containers built on top, e.g. soa_vector, lose track of their element count).
---
 include/libflatarray/soa_grid.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 37f923a..730575e 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -107,8 +107,10 @@ public:
         my_byte_size(0),
         my_data(0)
     {
-        resize(other.my_dim_x, other.my_dim_y, other.my_dim_z);
-        copy_in(other);
+        // the temporary will clean up if copying any element fails
+        soa_grid temp(other.my_dim_x, other.my_dim_y, other.my_dim_z);
+        temp.copy_in(other);
+        swap(temp);
     }
 
     ~soa_grid()
@@ -118,8 +120,15 @@ public:
 
     soa_grid& operator=(const soa_grid& other)
     {
-        resize(other.my_dim_x, other.my_dim_y, other.my_dim_z);
-        copy_in(other);
+        if ((my_dim_x == other.my_dim_x) &&
+            (my_dim_y == other.my_dim_y) &&
+            (my_dim_z == other.my_dim_z)) {
+            copy_in(other);
+        } else {
+            soa_grid temp(other);
+            swap(temp);
+        }
+
         return *this;
     }
 
-- 
2.43.0


From e824f3e4626473f2950451189b37c5d95c48286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:58 +0000
Subject: [PATCH 05/27] fix: don't share a staging pointer between concurrent
 accesses to a soa_grid

set(), get(), broadcast(), load() and save() parked the address of the
caller's buffer in a member of the grid before invoking the functors. Two
threads reading from the same (const) grid, or updating disjoint cells, would
overwrite each other's pointer and so read from/write to the wrong buffer.
---
 .../libflatarray/detail/staging_buffer.hpp    | 44 +++++++------------
 include/libflatarray/soa_grid.hpp             | 36 +++++++--------
 2 files changed, 33 insertions(+), 47 deletions(-)

diff --git a/include/libflatarray/detail/staging_buffer.hpp b/include/libflatarray/detail/staging_buffer.hpp
index 4407fcf..fda0b9d 100644
--- a/include/libflatarray/detail/staging_buffer.hpp
+++ b/include/libflatarray/detail/staging_buffer.hpp
@@ -20,7 +20,8 @@ namespace flat_array {
  * Dummy class which presents the same interface as cuda_array,
  * but won't actually buffer the data. Instead the pointers are
  * forwarded directly so no additional copies of the data need to
- * be made.
+ * be made. It's stateless, so concurrent accesses to different cells
+ * of a grid don't interfere.
  */
 template<typename CELL, bool ENABLE_CUDA = false>
 class staging_buffer
@@ -31,9 +32,12 @@ public:
         // intentionally left blank
     }
 
-    void load(const CELL *new_data)
+    /**
+     * returns a pointer from which the functors can read
+     */
+    const CELL *load(const CELL *new_data)
     {
-        data_pointer = const_cast<CELL*>(new_data);
+        return new_data;
     }
 
     void save(CELL* /* new_data */) const
@@ -41,22 +45,13 @@ public:
         // intentionally left blank
     }
 
-    const CELL *data() const
+    /**
+     * returns a pointer to which the functors can write
+     */
+    CELL *prep(CELL *new_data)
     {
-        return data_pointer;
+        return new_data;
     }
-
-    CELL *data()
-    {
-        return data_pointer;
-    }
-
-    void prep(CELL *new_data)
-    {
-        data_pointer = new_data;
-    }
-private:
-    CELL *data_pointer;
 };
 
 #ifdef __CUDACC__
@@ -70,9 +65,10 @@ public:
         delegate.resize(n);
     }
 
-    void load(const CELL *new_data)
+    const CELL *load(const CELL *new_data)
     {
         delegate.load(new_data);
+        return delegate.data();
     }
 
     void save(CELL *new_data) const
@@ -80,21 +76,11 @@ public:
         delegate.save(new_data);
     }
 
-    const CELL *data() const
+    CELL *prep(CELL* /* new_data */)
     {
         return delegate.data();
     }
 
-    CELL *data()
-    {
-        return delegate.data();
-    }
-
-    void prep(CELL* /* new_data */)
-    {
-        // intentionally left blank
-    }
-
 private:
     cuda_array<CELL> delegate;
 };
diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 730575e..9002b4c 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -231,10 +231,10 @@ public:
     void set(std::size_t x, std::size_t y, std::size_t z, const value_type& cell)
     {
         cell_staging_buffer.resize(1);
-        cell_staging_buffer.load(&cell);
+        const value_type *source = cell_staging_buffer.load(&cell);
 
         callback(detail::flat_array::set_instance_functor<value_type, 1, USE_CUDA_FUNCTORS>(
-                     cell_staging_buffer.data(),
+                     source,
                      x,
                      y,
                      z,
@@ -244,10 +244,10 @@ public:
     void set(std::size_t x, std::size_t y, std::size_t z, const value_type *cells, std::size_t count)
     {
         cell_staging_buffer.resize(count);
-        cell_staging_buffer.load(cells);
+        const value_type *source = cell_staging_buffer.load(cells);
 
         callback(detail::flat_array::set_instance_functor<value_type, 1, USE_CUDA_FUNCTORS>(
-                     cell_staging_buffer.data(),
+                     source,
                      x,
                      y,
                      z,
@@ -259,10 +259,10 @@ public:
     {
         value_type cell;
         const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(1);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(&cell);
+        value_type *target = const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(&cell);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     target,
                      x,
                      y,
                      z,
@@ -275,10 +275,10 @@ public:
     void get(std::size_t x, std::size_t y, std::size_t z, value_type *cells, std::size_t count) const
     {
         const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(count);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(cells);
+        value_type *target = const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(cells);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     target,
                      x,
                      y,
                      z,
@@ -293,10 +293,10 @@ public:
     void broadcast(std::size_t x, std::size_t y, std::size_t z, const value_type& cell, std::size_t count)
     {
         cell_staging_buffer.resize(1);
-        cell_staging_buffer.load(&cell);
+        const value_type *source = cell_staging_buffer.load(&cell);
 
         callback(detail::flat_array::set_instance_functor<value_type, 0, USE_CUDA_FUNCTORS>(
-                     cell_staging_buffer.data(),
+                     source,
                      x,
                      y,
                      z,
@@ -316,12 +316,12 @@ public:
         };
 
         raw_staging_buffer.resize(count * aggregated_member_size<value_type>::VALUE);
-        raw_staging_buffer.load(source);
+        const char *staged_source = raw_staging_buffer.load(source);
 
         callback(detail::flat_array::load_functor<value_type, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
                      iter,
                      iter + 1,
-                     raw_staging_buffer.data(),
+                     staged_source,
                      count));
     }
 
@@ -333,12 +333,12 @@ public:
         std::size_t count)
     {
         raw_staging_buffer.resize(count * aggregated_member_size<value_type>::VALUE);
-        raw_staging_buffer.load(source);
+        const char *staged_source = raw_staging_buffer.load(source);
 
         callback(detail::flat_array::load_functor<value_type, ITERATOR, USE_CUDA_FUNCTORS>(
                      begin,
                      end,
-                     raw_staging_buffer.data(),
+                     staged_source,
                      count));
     }
 
@@ -357,12 +357,12 @@ public:
         const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        char *staged_target = const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
 
         callback(detail::flat_array::save_functor<value_type, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
                      iter,
                      iter + 1,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     staged_target,
                      count));
 
         raw_staging_buffer.save(target);
@@ -378,12 +378,12 @@ public:
         const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        char *staged_target = const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
 
         callback(detail::flat_array::save_functor<value_type, ITERATOR, USE_CUDA_FUNCTORS>(
                      begin,
                      end,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     staged_target,
                      count));
 
         raw_staging_buffer.save(target);
-- 
2.43.0


From 74b99f832d95a48f80db80d27ec5aeb819ec5954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:04 +0000
Subject: [PATCH 06/27] fix: make copying, swapping and dual callbacks work for
 grids with custom allocators

These only accepted grids with the default allocator, so copying a soa_grid
or growing a soa_vector with any other host allocator didn't compile.
---
 include/libflatarray/soa_grid.hpp | 43 +++++++++++++++++--------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 9002b4c..8d388f0 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -213,15 +213,15 @@ public:
         api_traits::select_sizes<value_type>()(my_data, functor, my_dim_x, my_dim_y, my_dim_z);
     }
 
-    template<typename FUNCTOR>
-    void callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor)
+    template<typename OTHER_ALLOCATOR, typename FUNCTOR>
+    void callback(soa_grid<value_type, OTHER_ALLOCATOR> *other_grid, const FUNCTOR& functor)
     {
         typedef typename api_traits::select_asymmetric_dual_callback<value_type>::value value;
         dual_callback(other_grid, functor, value());
     }
 
-    template<typename FUNCTOR>
-    void callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor) const
+    template<typename OTHER_ALLOCATOR, typename FUNCTOR>
+    void callback(soa_grid<value_type, OTHER_ALLOCATOR> *other_grid, const FUNCTOR& functor) const
     {
         typedef typename api_traits::select_asymmetric_dual_callback<value_type>::value value;
         dual_callback(other_grid, functor, value());
@@ -452,23 +452,23 @@ private:
     cell_staging_buffer_type cell_staging_buffer;
     char_staging_buffer_type raw_staging_buffer;
 
-    template<typename FUNCTOR>
-    void dual_callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor, api_traits::true_type)
+    template<typename OTHER_ALLOCATOR, typename FUNCTOR>
+    void dual_callback(soa_grid<value_type, OTHER_ALLOCATOR> *other_grid, const FUNCTOR& functor, api_traits::true_type)
     {
         detail::flat_array::dual_callback_helper()(this, other_grid, functor);
     }
 
-    template<typename FUNCTOR>
-    void dual_callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor, api_traits::true_type) const
+    template<typename OTHER_ALLOCATOR, typename FUNCTOR>
+    void dual_callback(soa_grid<value_type, OTHER_ALLOCATOR> *other_grid, const FUNCTOR& functor, api_traits::true_type) const
     {
         detail::flat_array::dual_callback_helper()(this, other_grid, functor);
     }
 
-    template<typename FUNCTOR>
-    void dual_callback(soa_grid<value_type> *other_grid, FUNCTOR& functor, api_traits::false_type) const
+    template<typename OTHER_ALLOCATOR, typename FUNCTOR>
+    void dual_callback(soa_grid<value_type, OTHER_ALLOCATOR> *other_grid, FUNCTOR& functor, api_traits::false_type) const
     {
         assert_same_grid_sizes(other_grid);
-        detail::flat_array::dual_callback_helper_symmetric<soa_grid<value_type>, FUNCTOR> helper(
+        detail::flat_array::dual_callback_helper_symmetric<soa_grid<value_type, OTHER_ALLOCATOR>, FUNCTOR> helper(
             other_grid, functor);
 
         api_traits::select_sizes<value_type>()(
@@ -479,11 +479,11 @@ private:
             my_dim_z);
     }
 
-    template<typename FUNCTOR>
-    void dual_callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor, api_traits::false_type) const
+    template<typename OTHER_ALLOCATOR, typename FUNCTOR>
+    void dual_callback(soa_grid<value_type, OTHER_ALLOCATOR> *other_grid, const FUNCTOR& functor, api_traits::false_type) const
     {
         assert_same_grid_sizes(other_grid);
-        detail::flat_array::const_dual_callback_helper_symmetric<soa_grid<value_type>, FUNCTOR> helper(
+        detail::flat_array::const_dual_callback_helper_symmetric<soa_grid<value_type, OTHER_ALLOCATOR>, FUNCTOR> helper(
             other_grid, functor);
 
         api_traits::select_sizes<value_type>()(
@@ -520,11 +520,12 @@ private:
         other.callback(this, detail::flat_array::copy_functor<value_type>(my_dim_x, my_dim_y, my_dim_z));
     }
 
-    void assert_same_grid_sizes(const soa_grid<value_type> *other_grid) const
+    template<typename OTHER_ALLOCATOR>
+    void assert_same_grid_sizes(const soa_grid<value_type, OTHER_ALLOCATOR> *other_grid) const
     {
-        if ((my_dim_x != other_grid->my_dim_x) ||
-            (my_dim_y != other_grid->my_dim_y) ||
-            (my_dim_z != other_grid->my_dim_z)) {
+        if ((my_dim_x != other_grid->dim_x()) ||
+            (my_dim_y != other_grid->dim_y()) ||
+            (my_dim_z != other_grid->dim_z())) {
             throw std::invalid_argument("grid dimensions of both grids must match");
         }
     }
@@ -536,8 +537,10 @@ private:
 #pragma warning( disable : 4711 )
 #endif
 
-template<typename value_type>
-void swap(soa_grid<value_type>& a, soa_grid<value_type>& b)
+template<typename value_type, typename ALLOCATOR, bool USE_CUDA_FUNCTORS>
+void swap(
+    soa_grid<value_type, ALLOCATOR, USE_CUDA_FUNCTORS>& a,
+    soa_grid<value_type, ALLOCATOR, USE_CUDA_FUNCTORS>& b)
 {
     a.swap(b);
 }
-- 
2.43.0


From e310a39ba503b406c6a62851c328c1e1d5c6436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:26 +0000
Subject: [PATCH 07/27] fix: soa_vector must not use elements beyond its
 capacity

push_back() filled the slots between the grid's dimension and its (rounded
up) extent, whose members were never constructed and which are lost on copy,
and computed a too small (or no) growth for short vectors. reserve() with less
than size() elements wrote beyond the end of the newly allocated grid.
---
 include/libflatarray/soa_vector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 34877f1..8d8767a 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -112,6 +112,10 @@ public:
     __host__ __device__
     void reserve(std::size_t new_count)
     {
+        if (new_count <= capacity()) {
+            return;
+        }
+
         soa_grid<T, ALLOCATOR, USE_CUDA_FUNCTORS> new_grid(new_count, 1, 1);
         new_grid.resize(new_grid.extent_x(), 1, 1);
 
@@ -142,9 +146,10 @@ public:
     __host__ __device__
     void push_back(const T& element)
     {
-        if (count == grid.extent_x()) {
+        // only the first capacity() elements have been constructed:
+        if (count == capacity()) {
             // fixme: make this configurable
-            reserve(static_cast<std::size_t>(count * 1.2));
+            reserve(static_cast<std::size_t>(count * 1.2) + 1);
         }
         set(count, element);
         ++count;
-- 
2.43.0


From 273d8311ef79d4fa8d35aaaeb542d54e1eb72567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:26 +0000
Subject: [PATCH 08/27] fix: soa_vector::reserve must use the stride of the
 whole grid

If the element type's API traits select 2D or 3D grid sizes, then consecutive
members are extent_x * extent_y * extent_z elements apart, not extent_x.
---
 include/libflatarray/soa_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 8d8767a..af1e462 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -124,7 +124,8 @@ public:
             detail::flat_array::simple_streak()
         };
 
-        new_grid.load(iter + 0, iter + 1, grid.data(), grid.extent_x());
+        std::size_t stride = grid.extent_x() * grid.extent_y() * grid.extent_z();
+        new_grid.load(iter + 0, iter + 1, grid.data(), stride);
         swap(new_grid, grid);
     }
 
-- 
2.43.0


From 97c56c5f5539b6d4ab1ae75b369d73cc54deaf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:43 +0000
Subject: [PATCH 09/27] fix: loop peeler must not run past the end of short
 ranges

If begin and end fall into the same vector, then the first scalar stage ran up
to the next multiple of the arity instead of the end of the range.
---
 include/libflatarray/loop_peeler.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 0319c87..70608c9 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -85,6 +85,10 @@
         COUNTER_TYPE next_stop = remainder ?                            \
             (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder : \
             (X);                                                        \
+        /* the whole range may fit into a single vector: */             \
+        if (next_stop > COUNTER_TYPE(END_X)) {                          \
+            next_stop = COUNTER_TYPE(END_X);                            \
+        }                                                               \
         COUNTER_TYPE last_stop = (END_X) -                              \
             (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
                                                                         \
@@ -109,6 +113,10 @@ void loop_peeler(COUNTER_TYPE1 *counter, const COUNTER_TYPE2& end, const LAMBDA&
     COUNTER_TYPE2 next_stop = remainder ?
         (*counter) + COUNTER_TYPE2(lfa_local_short_vec::ARITY) - remainder :
         (*counter);
+    // the whole range may fit into a single vector:
+    if (next_stop > end) {
+        next_stop = end;
+    }
     COUNTER_TYPE2 last_stop = end - end % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
 
     lambda(lfa_local_scalar(),    counter, next_stop);
-- 
2.43.0


From c51aeb6a54a0970583e8d1b320393b291dc0d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:43 +0000
Subject: [PATCH 10/27] fix: aligned_allocator must not return undersized or
 overlapping chunks

The size computation could wrap around for huge n, returning a tiny chunk
instead of throwing bad_alloc, and for alignments of less than half a pointer
the back reference was written in front of the chunk.
---
 include/libflatarray/aligned_allocator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index efa3ed4..42ca7db 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -18,6 +18,7 @@
 #endif
 
 #include <memory>
+#include <new>
 
 #ifdef _MSC_BUILD
 #pragma warning( pop )
@@ -69,6 +70,9 @@ public:
         // desired offset. Since we need the original address for the
         // deallocation, we store it directly in front of the aligned
         // array's start. Ugly, but it works.
+        if (n > ((~std::size_t(0) - graceOffset()) / sizeof(T))) {
+            throw std::bad_alloc();
+        }
         char *chunk = std::allocator<char>().allocate(upsize(n));
         if (chunk == 0) {
             return reinterpret_cast<pointer>(chunk);
@@ -76,7 +80,7 @@ public:
 
         std::size_t offset = reinterpret_cast<std::size_t>(chunk) % ALIGNMENT;
         std::size_t correction = ALIGNMENT - offset;
-        if (correction < sizeof(char*)) {
+        while (correction < sizeof(char*)) {
             correction += ALIGNMENT;
         }
         char *ret = chunk + correction;
-- 
2.43.0


From 9e4090b49b9af749ab78d107c50ef985417bd24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:05 +0000
Subject: [PATCH 11/27] fix: destroy already constructed members if
 constructing a soa_grid fails

If the default c-tor of a member threw while a grid was being constructed or
resized, then all members constructed up to this point were leaked.
---
 .../libflatarray/detail/construct_functor.hpp | 27 +++++++-
 .../detail/construction_guard.hpp             | 69 +++++++++++++++++++
 include/libflatarray/detail/macros.hpp        | 24 +++++++
 include/libflatarray/macros.hpp               | 24 +++++++
 4 files changed, 143 insertions(+), 1 deletion(-)
 create mode 100644 include/libflatarray/detail/construction_guard.hpp

diff --git a/include/libflatarray/detail/construct_functor.hpp b/include/libflatarray/detail/construct_functor.hpp
index e815141..2517566 100644
--- a/include/libflatarray/detail/construct_functor.hpp
+++ b/include/libflatarray/detail/construct_functor.hpp
@@ -43,7 +43,12 @@ public:
                 accessor.index() = soa_accessor<CELL, DIM_X, DIM_Y, DIM_Z, INDEX>::gen_index(0, y, z);
 
                 for (std::size_t x = 0; x < dim_x; ++x) {
-                    accessor.construct_members();
+                    try {
+                        accessor.construct_members();
+                    } catch (...) {
+                        roll_back(accessor, x, y, z);
+                        throw;
+                    }
                     ++accessor;
                 }
             }
@@ -54,6 +59,26 @@ private:
     std::size_t dim_x;
     std::size_t dim_y;
     std::size_t dim_z;
+
+    /**
+     * Destroys all cells which have been constructed prior to the
+     * given (exclusive) end
+     */
+    template<typename ACCESSOR>
+    void roll_back(ACCESSOR& accessor, std::size_t end_x, std::size_t end_y, std::size_t end_z) const
+    {
+        for (std::size_t z = 0; z <= end_z; ++z) {
+            for (std::size_t y = 0; y < ((z < end_z) ? dim_y : (end_y + 1)); ++y) {
+                accessor.index() = ACCESSOR::gen_index(0, y, z);
+                std::size_t row_end = ((z == end_z) && (y == end_y)) ? end_x : dim_x;
+
+                for (std::size_t x = 0; x < row_end; ++x) {
+                    accessor.destroy_members();
+                    ++accessor;
+                }
+            }
+        }
+    }
 };
 
 #ifdef LIBFLATARRAY_WITH_CUDA
diff --git a/include/libflatarray/detail/construction_guard.hpp b/include/libflatarray/detail/construction_guard.hpp
new file mode 100644
index 0000000..4a56099
--- /dev/null
+++ b/include/libflatarray/detail/construction_guard.hpp
@@ -0,0 +1,69 @@
+/**
+ * Copyright 2018 Google
+ *
+ * Distributed under the Boost Software License, Version 1.0. (See accompanying
+ * file LICENSE or copy at http://www.boost.org/LICENSE_1_0.txt)
+ */
+
+#ifndef FLAT_ARRAY_DETAIL_CONSTRUCTION_GUARD_HPP
+#define FLAT_ARRAY_DETAIL_CONSTRUCTION_GUARD_HPP
+
+#include <cstddef>
+#include <libflatarray/detail/generic_destruct.hpp>
+
+namespace LibFlatArray {
+
+namespace detail {
+
+namespace flat_array {
+
+/**
+ * Counts how many members of a cell have already been constructed and
+ * destroys exactly these if the c-tor of a subsequent member throws.
+ */
+template<typename ACCESSOR>
+class construction_guard
+{
+public:
+    inline
+    __host__ __device__
+    explicit construction_guard(ACCESSOR *accessor) :
+        accessor(accessor),
+        constructed(0)
+    {}
+
+    inline
+    __host__ __device__
+    ~construction_guard()
+    {
+        if (accessor != 0) {
+            accessor->destroy_members(constructed);
+        }
+    }
+
+    inline
+    __host__ __device__
+    void operator++()
+    {
+        ++constructed;
+    }
+
+    inline
+    __host__ __device__
+    void dismiss()
+    {
+        accessor = 0;
+    }
+
+private:
+    ACCESSOR *accessor;
+    std::size_t constructed;
+};
+
+}
+
+}
+
+}
+
+#endif
diff --git a/include/libflatarray/detail/macros.hpp b/include/libflatarray/detail/macros.hpp
index 65391db..c2e6e67 100644
--- a/include/libflatarray/detail/macros.hpp
+++ b/include/libflatarray/detail/macros.hpp
@@ -9,6 +9,7 @@
 #ifndef FLAT_ARRAY_DETAIL_MACROS_HPP
 #define FLAT_ARRAY_DETAIL_MACROS_HPP
 
+#include <libflatarray/detail/construction_guard.hpp>
 #include <libflatarray/detail/generic_destruct.hpp>
 #include <libflatarray/detail/soa_array_member_copy_helper.hpp>
 #include <libflatarray/preprocessor.hpp>
@@ -277,12 +278,14 @@
         LIBFLATARRAY_ELEM(0, MEMBER) *instance =                        \
             &(this->LIBFLATARRAY_ELEM(1, MEMBER)());                    \
         new (instance) LIBFLATARRAY_ELEM(0, MEMBER)();                  \
+        ++guard;                                                        \
     }
 
 #define LIBFLATARRAY_INIT_SOA_ARRAY_MEMBER(MEMBER_INDEX, CELL, MEMBER) \
     {                                                                   \
         for (int i = 0; i < LIBFLATARRAY_ARRAY_ARITY(MEMBER); ++i) {    \
             new (&(this->LIBFLATARRAY_ELEM(1, MEMBER)()[i])) LIBFLATARRAY_ELEM(0, MEMBER)(); \
+            ++guard;                                                    \
         }                                                               \
     }
 
@@ -313,6 +316,27 @@
         LIBFLATARRAY_DESTROY_SOA_MEMBER_ARRAY(      MEMBER_INDEX, CELL, MEMBER), \
         LIBFLATARRAY_DESTROY_SOA_ARRAY_MEMBER_ARRAY(MEMBER_INDEX, CELL, MEMBER))
 
+// these variants will only destroy the first "count" members
+#define LIBFLATARRAY_ROLL_BACK_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER)   \
+    if (count > 0) {                                                    \
+        --count;                                                        \
+        detail::flat_array::generic_destruct(                           \
+            &(this->LIBFLATARRAY_ELEM(1, MEMBER)()));                   \
+    }
+
+#define LIBFLATARRAY_ROLL_BACK_SOA_ARRAY_MEMBER(MEMBER_INDEX, CELL, MEMBER) \
+    for (int i = 0; (i < LIBFLATARRAY_ARRAY_ARITY(MEMBER)) && (count > 0); ++i) { \
+        --count;                                                        \
+        detail::flat_array::generic_destruct(                           \
+            &(this->LIBFLATARRAY_ELEM(1, MEMBER)()[i]));                \
+    }
+
+#define LIBFLATARRAY_ROLL_BACK_SOA_GENERIC_MEMBER(MEMBER_INDEX, CELL, MEMBER) \
+    LIBFLATARRAY_ARRAY_CONDITIONAL(                                     \
+        MEMBER,                                                         \
+        LIBFLATARRAY_ROLL_BACK_SOA_MEMBER(      MEMBER_INDEX, CELL, MEMBER), \
+        LIBFLATARRAY_ROLL_BACK_SOA_ARRAY_MEMBER(MEMBER_INDEX, CELL, MEMBER))
+
 #define LIBFLATARRAY_CASE_DIM_X(SIZE_INDEX, UNUSED, SIZE)            \
     if (dim_x <= SIZE) {                                             \
         bind_size_y<CELL, SIZE>(                                     \
diff --git a/include/libflatarray/macros.hpp b/include/libflatarray/macros.hpp
index 43d73d8..4b251ff 100644
--- a/include/libflatarray/macros.hpp
+++ b/include/libflatarray/macros.hpp
@@ -297,10 +297,22 @@
         inline                                                          \
         void construct_members()                                        \
         {                                                               \
+            detail::flat_array::construction_guard<soa_accessor> guard(this);\
             LIBFLATARRAY_FOR_EACH(                                      \
                 LIBFLATARRAY_INIT_SOA_GENERIC_MEMBER,                   \
                 CELL_TYPE,                                              \
                 CELL_MEMBERS);                                          \
+            guard.dismiss();                                            \
+        }                                                               \
+                                                                        \
+        __host__ __device__                                             \
+        inline                                                          \
+        void destroy_members(std::size_t count)                         \
+        {                                                               \
+            LIBFLATARRAY_FOR_EACH(                                      \
+                LIBFLATARRAY_ROLL_BACK_SOA_GENERIC_MEMBER,              \
+                CELL_TYPE,                                              \
+                CELL_MEMBERS);                                          \
         }                                                               \
                                                                         \
         __host__ __device__                                             \
@@ -695,10 +707,22 @@
         inline                                                          \
         void construct_members()                                        \
         {                                                               \
+            detail::flat_array::construction_guard<soa_accessor_light> guard(this);\
             LIBFLATARRAY_FOR_EACH(                                      \
                 LIBFLATARRAY_INIT_SOA_GENERIC_MEMBER,                   \
                 CELL_TYPE,                                              \
                 CELL_MEMBERS);                                          \
+            guard.dismiss();                                            \
+        }                                                               \
+                                                                        \
+        __host__ __device__                                             \
+        inline                                                          \
+        void destroy_members(std::size_t count)                         \
+        {                                                               \
+            LIBFLATARRAY_FOR_EACH(                                      \
+                LIBFLATARRAY_ROLL_BACK_SOA_GENERIC_MEMBER,              \
+                CELL_TYPE,                                              \
+                CELL_MEMBERS);                                          \
         }                                                               \
                                                                         \
         __host__ __device__                                             \
-- 
2.43.0


From 164eb75581365d47d8d2c8c440482fe41de7cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 12/27] fix: soa_array must deep copy its elements and not leak
 them if a c-tor fails

Copies from a const soa_array of the same size used the implicit, bytewise
copy c-tor/assignment operator, so both arrays then owned the same members.
C-tors which threw (member c-tor/assignment or capacity exceeded) leaked all
members, and requesting more elements than fit wrote beyond the array.
---
 include/libflatarray/soa_array.hpp | 87 ++++++++++++++++++++++++++----
 1 file changed, 78 insertions(+), 9 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 8a10c38..6433690 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -62,10 +62,27 @@ public:
     explicit soa_array(std::size_t elements = 0, const value_type& value = value_type()) :
         elements(elements)
     {
-        construct_all_instances();
+#ifndef __CUDA_ARCH__
+        if (elements > SIZE) {
+            throw std::out_of_range("capacity exceeded");
+        }
+#endif
+        instances_guard guard(my_data);
+        guard.construct_all_instances();
         for (soa_accessor<value_type, SIZE, 1, 1, 0> accessor(my_data, 0); accessor.index() < int(elements); accessor += 1) {
             accessor << value;
         }
+        guard.dismiss();
+    }
+
+    inline
+    __host__ __device__
+    soa_array(const soa_array& other)
+    {
+        instances_guard guard(my_data);
+        guard.construct_all_instances();
+        copy_in(other);
+        guard.dismiss();
     }
 
     template<int OTHER_SIZE>
@@ -73,8 +90,10 @@ public:
     __host__ __device__
     explicit soa_array(soa_array<value_type, OTHER_SIZE>& other)
     {
-        construct_all_instances();
+        instances_guard guard(my_data);
+        guard.construct_all_instances();
         copy_in(other);
+        guard.dismiss();
     }
 
 
@@ -83,8 +102,10 @@ public:
     __host__ __device__
     explicit soa_array(const soa_array<value_type, OTHER_SIZE>& other)
     {
-        construct_all_instances();
+        instances_guard guard(my_data);
+        guard.construct_all_instances();
         copy_in(other);
+        guard.dismiss();
     }
 
     inline
@@ -97,6 +118,14 @@ public:
 
     }
 
+    inline
+    __host__ __device__
+    soa_array& operator=(const soa_array& other)
+    {
+        copy_in(other);
+        return *this;
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
@@ -271,14 +300,54 @@ private:
     std::size_t elements;
     char my_data[BYTE_SIZE];
 
-    inline
-    __host__ __device__
-    void construct_all_instances()
+    /**
+     * Destroys all instances constructed so far, unless dismissed.
+     * Required as the d-tor won't run if a c-tor throws.
+     */
+    class instances_guard
     {
-        for (soa_accessor<value_type, SIZE, 1, 1, 0> accessor(my_data, 0); accessor.index() < MY_SIZE; accessor += 1) {
-            accessor.construct_members();
+    public:
+        inline
+        __host__ __device__
+        explicit instances_guard(char *data) :
+            accessor(data, 0),
+            armed(true)
+        {}
+
+        inline
+        __host__ __device__
+        ~instances_guard()
+        {
+            if (!armed) {
+                return;
+            }
+
+            while (accessor.index() > 0) {
+                accessor += -1;
+                accessor.destroy_members();
+            }
         }
-    }
+
+        inline
+        __host__ __device__
+        void construct_all_instances()
+        {
+            for (; accessor.index() < MY_SIZE; accessor += 1) {
+                accessor.construct_members();
+            }
+        }
+
+        inline
+        __host__ __device__
+        void dismiss()
+        {
+            armed = false;
+        }
+
+    private:
+        soa_accessor<value_type, SIZE, 1, 1, 0> accessor;
+        bool armed;
+    };
 
     template<int OTHER_SIZE>
     inline
-- 
2.43.0


From dbf24b4cab37e006a1e83d27e9eeb2d051b5c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 13/27] fix: don't swap the members of soa_arrays bytewise

Types which store pointers to themselves (e.g. std::string) can't be
relocated by exchanging bytes.
---
 include/libflatarray/soa_array.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 6433690..cebec72 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -49,9 +49,6 @@ template<typename T, int MY_SIZE>
 class soa_array
 {
 public:
-    template<typename T2, int MY_SIZE2>
-    friend void swap(soa_array<T2, MY_SIZE2>& a, soa_array<T2, MY_SIZE2>& b);
-
     typedef T value_type;
     typedef soa_accessor<value_type, MY_SIZE, 1, 1, 0> iterator;
     static const std::size_t SIZE = MY_SIZE;
@@ -371,9 +368,10 @@ private:
 template<typename value_type, int size>
 void swap(soa_array<value_type, size>& a, soa_array<value_type, size>& b)
 {
-    using std::swap;
-    swap(a.elements, b.elements);
-    swap(a.my_data,  b.my_data);
+    // members must not be relocated bytewise, they may not be trivially copyable
+    soa_array<value_type, size> temp(a);
+    a = b;
+    b = temp;
 }
 
 }
-- 
2.43.0


From ebf11c4581e67c3c0e76f9b0dc38daa8ec75b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:04 +0000
Subject: [PATCH 14/27] fix: make CPU detection of the testbed robust against
 unexpected input

Blank lines or lines without value in /proc/cpuinfo, as well as incomplete
output from likwid-topology led to out of bounds accesses. The pipe was never
closed, leaking a file descriptor and a zombie process per call.
---
 .../libflatarray/testbed/cpu_benchmark.hpp    | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index eccee90..7e9b1ac 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -56,6 +56,10 @@ private:
 
         while (file.getline(&buffer[0], bufferSize)) {
             std::vector<std::string> tokens = tokenize(buffer, ':');
+            if (tokens.size() < 2) {
+                // no key/value pair, e.g. the blank line between two CPUs
+                continue;
+            }
             std::vector<std::string> fields = tokenize(tokens[0], '\t');
 
             if ((fields.size() == 1) && (fields[0] == "cpu")) {
@@ -65,7 +69,7 @@ private:
             if ((fields.size() == 1) && (fields[0] == "model name")) {
                 tokens = tokenize(tokens[1], ' ');
                 std::string buf = join(tokens, " ");
-                if (buf[buf.size() - 1] == 0) {
+                if (!buf.empty() && (buf[buf.size() - 1] == 0)) {
                     buf.resize(buf.size() - 1);
                 }
 
@@ -92,17 +96,24 @@ private:
         std::string cpu_name;
 
         while (fgets(&read_buffer[0], read_buffer.size(), file) != NULL) {
-            std::vector<std::string> tokens = tokenize(read_buffer, ',');
-            for (std::vector<std::string>::iterator i = tokens.begin(); i != tokens.end(); ++i) {
-                if (i->find("CPU type") != std::string::npos) {
-                    cpu_type = *(++i);
+            // cut at the terminating 0 byte, don't parse remainders of previous lines
+            std::vector<std::string> tokens = tokenize(read_buffer.c_str(), ',');
+            for (std::size_t i = 0; (i + 1) < tokens.size(); ++i) {
+                if (tokens[i].find("CPU type") != std::string::npos) {
+                    cpu_type = tokens[i + 1];
                 }
-                if (i->find("CPU name") != std::string::npos) {
-                    cpu_name = *(++i);
+                if (tokens[i].find("CPU name") != std::string::npos) {
+                    cpu_name = tokens[i + 1];
                 }
             }
         }
 
+#ifdef _WIN32
+        _pclose(file);
+#else
+        pclose(file);
+#endif
+
         if (cpu_type.empty() || cpu_name.empty()) {
             throw std::runtime_error("failed to parse likwid-topology");
         }
-- 
2.43.0


From 251a02c671ee262eedeb87c3b58737e64e944e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:04 +0000
Subject: [PATCH 15/27] fix: broadcast() must set all cells on CUDA devices,
 too

With a source stride of 0 all threads computed the same target offset, hence
only the first cell was written.
---
 include/libflatarray/detail/set_instance_functor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/set_instance_functor.hpp b/include/libflatarray/detail/set_instance_functor.hpp
index 4f07681..1a34785 100644
--- a/include/libflatarray/detail/set_instance_functor.hpp
+++ b/include/libflatarray/detail/set_instance_functor.hpp
@@ -79,7 +79,7 @@ template<typename CELL, long SOURCE_STRIDE, long DIM_X, long DIM_Y, long DIM_Z,
 __global__
 void set_kernel(const CELL *source, char *target, long count, long x, long y, long z)
 {
-    long offset = (blockDim.x * blockIdx.x + threadIdx.x) * SOURCE_STRIDE;
+    long offset = blockDim.x * blockIdx.x + threadIdx.x;
     if (offset >= count) {
         return;
     }
@@ -89,7 +89,7 @@ void set_kernel(const CELL *source, char *target, long count, long x, long y, lo
     long index = accessor_type::gen_index(x + offset, y, z);
     accessor_type accessor(target, index);
 
-    accessor << source[offset];
+    accessor << source[offset * SOURCE_STRIDE];
 }
 
 /**
-- 
2.43.0


From 6f78040c5bba8db466163f93a7fc1bec185ea171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:25 +0000
Subject: [PATCH 16/27] fix: report failing device memory allocations

cuda_allocator ignored the result of cudaMalloc and returned an
uninitialized pointer. Assigning to a cuda_array must not release its memory
before the new chunk is available, and creating a cuda_array from an empty
std::vector must not access the vector's first element.
---
 include/libflatarray/cuda_allocator.hpp | 7 +++++--
 include/libflatarray/cuda_array.hpp     | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/cuda_allocator.hpp b/include/libflatarray/cuda_allocator.hpp
index 83532b6..a266f58 100644
--- a/include/libflatarray/cuda_allocator.hpp
+++ b/include/libflatarray/cuda_allocator.hpp
@@ -24,6 +24,7 @@
 #endif
 
 #include <cuda.h>
+#include <new>
 
 #ifdef _MSC_BUILD
 #pragma warning( pop )
@@ -48,8 +49,10 @@ public:
 
     pointer allocate(std::size_t n, const void* = 0)
     {
-        pointer ret;
-        cudaMalloc(&ret, n * sizeof(T));
+        pointer ret = 0;
+        if ((cudaMalloc(&ret, n * sizeof(T)) != cudaSuccess) && (n > 0)) {
+            throw std::bad_alloc();
+        }
         return ret;
     }
 
diff --git a/include/libflatarray/cuda_array.hpp b/include/libflatarray/cuda_array.hpp
index 1eb8968..f83cc51 100644
--- a/include/libflatarray/cuda_array.hpp
+++ b/include/libflatarray/cuda_array.hpp
@@ -91,7 +91,7 @@ public:
         my_capacity(hostVector.size()),
         data_pointer(LibFlatArray::cuda_allocator<ELEMENT_TYPE>().allocate(hostVector.size()))
     {
-        cudaMemcpy(data_pointer, &hostVector.front(), byte_size(), cudaMemcpyHostToDevice);
+        cudaMemcpy(data_pointer, hostVector.data(), byte_size(), cudaMemcpyHostToDevice);
     }
 
     inline ~cuda_array()
@@ -102,9 +102,10 @@ public:
     inline void operator=(const cuda_array& array)
     {
         if (array.size() > my_capacity) {
+            ELEMENT_TYPE *newData = LibFlatArray::cuda_allocator<ELEMENT_TYPE>().allocate(array.size());
             LibFlatArray::cuda_allocator<ELEMENT_TYPE>().deallocate(data_pointer, my_capacity);
-            data_pointer = LibFlatArray::cuda_allocator<ELEMENT_TYPE>().allocate(array.size());
 
+            data_pointer = newData;
             my_capacity = array.size();
         }
 
-- 
2.43.0


From a9c9d27b72f346e2b0df4e51dfaee499c00b8411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:17 +0000
Subject: [PATCH 17/27] fix: soa_vector::pop_back must not shrink the vector if
 resetting the last element fails

---
 include/libflatarray/soa_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index af1e462..90352e3 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -160,9 +160,9 @@ public:
     __host__ __device__
     void pop_back()
     {
-        --count;
         // destroy last element by overwriting with default element:
-        set(count, T());
+        set(count - 1, T());
+        --count;
     }
 
 #ifdef LIBFLATARRAY_WITH_CPP14
-- 
2.43.0


From ccddf8464d33528548f6d4b7ae88b742c6a86488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:07 +0000
Subject: [PATCH 18/27] fix: soa_array::load must refuse offsets beyond its
 capacity even if the sum overflows

---
 include/libflatarray/soa_array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index cebec72..ea7d10e 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -212,13 +212,13 @@ public:
     void load(const soa_accessor<value_type, OTHER_SIZE, 1, 1, 0>& accessor, std::size_t num, std::size_t offset)
     {
         using std::max;
-        std::size_t new_elements = max(elements, num + offset);
-        if (new_elements > SIZE) {
+        // don't add num and offset before we know that this can't overflow
+        if ((offset > SIZE) || (num > (SIZE - offset))) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
 
         at(offset).load(accessor.data(), num, std::size_t(accessor.index()), std::size_t(OTHER_SIZE));
-        elements = new_elements;
+        elements = max(elements, num + offset);
     }
 
     inline
-- 
2.43.0


From 954f34957c51459f8f8823be353ca01f90401002 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:56:19 +0000
Subject: [PATCH 19/27] fix: cuda_allocator must refuse requests whose byte
 size overflows

---
 include/libflatarray/cuda_allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libflatarray/cuda_allocator.hpp b/include/libflatarray/cuda_allocator.hpp
index a266f58..22125f3 100644
--- a/include/libflatarray/cuda_allocator.hpp
+++ b/include/libflatarray/cuda_allocator.hpp
@@ -49,6 +49,10 @@ public:
 
     pointer allocate(std::size_t n, const void* = 0)
     {
+        if (n > (std::size_t(-1) / sizeof(T))) {
+            throw std::bad_alloc();
+        }
+
         pointer ret = 0;
         if ((cudaMalloc(&ret, n * sizeof(T)) != cudaSuccess) && (n > 0)) {
             throw std::bad_alloc();
-- 
2.43.0


From 6139b0c5833ad1007b16da0da6b745ff1f529f40 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:01:11 +0000
Subject: [PATCH 20/27] fix: swap a grid's staging buffers before its data, as
 that may fail on devices

---
 include/libflatarray/soa_grid.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 8d388f0..b77f882 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -135,6 +135,10 @@ public:
     void swap(soa_grid& other)
     {
         using std::swap;
+        // these may allocate (and hence throw) for device grids, so
+        // they have to go first:
+        swap(cell_staging_buffer, other.cell_staging_buffer);
+        swap(raw_staging_buffer, other.raw_staging_buffer);
         swap(my_dim_x, other.my_dim_x);
         swap(my_dim_y, other.my_dim_y);
         swap(my_dim_z, other.my_dim_z);
@@ -143,8 +147,6 @@ public:
         swap(my_extent_z, other.my_extent_z);
         swap(my_byte_size, other.my_byte_size);
         swap(my_data, other.my_data);
-        swap(cell_staging_buffer, other.cell_staging_buffer);
-        swap(raw_staging_buffer, other.raw_staging_buffer);
     }
 
     /**
-- 
2.43.0


From bb5a96e64e623ca4166ec87ba925ebab190a9501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:50 +0000
Subject: [PATCH 21/27] fix: CPU description must be a non-empty single line,
 whatever the system reports

---
 include/libflatarray/testbed/cpu_benchmark.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index 7e9b1ac..90ed698 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -62,11 +62,16 @@ private:
             }
             std::vector<std::string> fields = tokenize(tokens[0], '\t');
 
-            if ((fields.size() == 1) && (fields[0] == "cpu")) {
+            // keys may be padded with multiple tabs, values may be missing
+            if (fields.empty() || tokens[1].empty()) {
+                continue;
+            }
+
+            if (fields[0] == "cpu") {
                 return tokens[1];
             }
 
-            if ((fields.size() == 1) && (fields[0] == "model name")) {
+            if (fields[0] == "model name") {
                 tokens = tokenize(tokens[1], ' ');
                 std::string buf = join(tokens, " ");
                 if (!buf.empty() && (buf[buf.size() - 1] == 0)) {
@@ -97,7 +102,11 @@ private:
 
         while (fgets(&read_buffer[0], read_buffer.size(), file) != NULL) {
             // cut at the terminating 0 byte, don't parse remainders of previous lines
-            std::vector<std::string> tokens = tokenize(read_buffer.c_str(), ',');
+            std::string line = read_buffer.c_str();
+            if (!line.empty() && (line[line.size() - 1] == '\n')) {
+                line.resize(line.size() - 1);
+            }
+            std::vector<std::string> tokens = tokenize(line, ',');
             for (std::size_t i = 0; (i + 1) < tokens.size(); ++i) {
                 if (tokens[i].find("CPU type") != std::string::npos) {
                     cpu_type = tokens[i + 1];
-- 
2.43.0


From 4bb0ebc993376b4718012af9b7673737926acf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:50 +0000
Subject: [PATCH 22/27] fix: gpu_benchmark must not report uninitialised memory
 if there is no device

---
 include/libflatarray/testbed/gpu_benchmark.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/testbed/gpu_benchmark.hpp b/include/libflatarray/testbed/gpu_benchmark.hpp
index d33504d..c1f944d 100644
--- a/include/libflatarray/testbed/gpu_benchmark.hpp
+++ b/include/libflatarray/testbed/gpu_benchmark.hpp
@@ -36,9 +36,12 @@ public:
     std::string device()
     {
         int cudaDevice;
-        cudaGetDevice(&cudaDevice);
         cudaDeviceProp properties;
-        cudaGetDeviceProperties(&properties, cudaDevice);
+        if ((cudaGetDevice(&cudaDevice) != cudaSuccess) ||
+            (cudaGetDeviceProperties(&properties, cudaDevice) != cudaSuccess)) {
+            return "unknown GPU";
+        }
+
         std::string cudaDeviceID = properties.name;
 
         return cudaDeviceID;
-- 
2.43.0


From 26a0f03a0bead39b6af44f1c04f936c152372a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:05 +0000
Subject: [PATCH 23/27] fix: packed integer /= and square roots truncate like
 the scalar code

short_vec<int, N>::operator/=, sqrt() and the conversion from sqrt_reference
rounded to nearest in the SSE, AVX and AVX-512 versions, while operator/ and
all scalar versions truncate. Results of loops running through loop_peeler
depended on which cells were handled by the packed and which by the scalar
body.
---
 .../detail/short_vec_avx512_int_16.hpp        |  6 +--
 .../detail/short_vec_avx512_int_32.hpp        | 12 ++---
 .../detail/short_vec_avx_int_16.hpp           | 12 ++---
 .../detail/short_vec_avx_int_32.hpp           | 24 +++++-----
 .../detail/short_vec_avx_int_8.hpp            |  6 +--
 .../detail/short_vec_sse_int_16.hpp           | 24 +++++-----
 .../detail/short_vec_sse_int_32.hpp           | 48 +++++++++----------
 .../detail/short_vec_sse_int_4.hpp            |  6 +--
 .../detail/short_vec_sse_int_8.hpp            |  8 ++--
 9 files changed, 73 insertions(+), 73 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_int_16.hpp b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
index 3c4c47b..4b17f3c 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
@@ -130,7 +130,7 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
+        val = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
                                                 _mm512_cvtepi32_ps(other.val)));
     }
 
@@ -152,7 +152,7 @@ public:
     short_vec<int, 16> sqrt() const
     {
         return short_vec<int, 16>(
-            _mm512_cvtps_epi32(
+            _mm512_cvttps_epi32(
                 _mm512_sqrt_ps(_mm512_cvtepi32_ps(val))));
     }
 
@@ -235,7 +235,7 @@ private:
 inline
 short_vec<int, 16>::short_vec(const sqrt_reference<int, 16>& other) :
     val(
-        _mm512_cvtps_epi32(
+        _mm512_cvttps_epi32(
             _mm512_sqrt_ps(_mm512_cvtepi32_ps(other.vec.val))))
 {}
 
diff --git a/include/libflatarray/detail/short_vec_avx512_int_32.hpp b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
index ee87547..e54d78b 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
@@ -138,9 +138,9 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
                                                 _mm512_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
                                                 _mm512_cvtepi32_ps(other.val[ 1])));
     }
 
@@ -164,9 +164,9 @@ public:
     short_vec<int, 32> sqrt() const
     {
         return short_vec<int, 32>(
-            _mm512_cvtps_epi32(
+            _mm512_cvttps_epi32(
                 _mm512_sqrt_ps(_mm512_cvtepi32_ps(val[ 0]))),
-            _mm512_cvtps_epi32(
+            _mm512_cvttps_epi32(
                 _mm512_sqrt_ps(_mm512_cvtepi32_ps(val[ 1]))));
     }
 
@@ -258,9 +258,9 @@ private:
 inline
 short_vec<int, 32>::short_vec(const sqrt_reference<int, 32>& other) :
     val{
-        _mm512_cvtps_epi32(
+        _mm512_cvttps_epi32(
             _mm512_sqrt_ps(_mm512_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm512_cvtps_epi32(
+        _mm512_cvttps_epi32(
             _mm512_sqrt_ps(_mm512_cvtepi32_ps(other.vec.val[ 1])))
             }
 {}
diff --git a/include/libflatarray/detail/short_vec_avx_int_16.hpp b/include/libflatarray/detail/short_vec_avx_int_16.hpp
index e409af1..699972a 100644
--- a/include/libflatarray/detail/short_vec_avx_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_16.hpp
@@ -140,9 +140,9 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
                                                 _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
                                                 _mm256_cvtepi32_ps(other.val[ 1])));
     }
 
@@ -168,9 +168,9 @@ public:
     short_vec<int, 16> sqrt() const
     {
         return short_vec<int, 16>(
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 0]))),
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 1]))));
     }
 
@@ -273,9 +273,9 @@ private:
 
 inline
 short_vec<int, 16>::short_vec(const sqrt_reference<int, 16>& other) :
-    val{_mm256_cvtps_epi32(
+    val{_mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm256_cvtps_epi32(
+        _mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 1])))}
 {}
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_32.hpp b/include/libflatarray/detail/short_vec_avx_int_32.hpp
index 2819b04..e073f5f 100644
--- a/include/libflatarray/detail/short_vec_avx_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_32.hpp
@@ -158,13 +158,13 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
                                                 _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
                                                 _mm256_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
                                                 _mm256_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
                                                 _mm256_cvtepi32_ps(other.val[ 3])));
     }
 
@@ -196,13 +196,13 @@ public:
     short_vec<int, 32> sqrt() const
     {
         return short_vec<int, 32>(
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 0]))),
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 1]))),
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 2]))),
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 3]))));
     }
 
@@ -336,13 +336,13 @@ private:
 inline
 short_vec<int, 32>::short_vec(const sqrt_reference<int, 32>& other) :
     val{
-        _mm256_cvtps_epi32(
+        _mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm256_cvtps_epi32(
+        _mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 1]))),
-        _mm256_cvtps_epi32(
+        _mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 2]))),
-        _mm256_cvtps_epi32(
+        _mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 3])))}
 {}
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_8.hpp b/include/libflatarray/detail/short_vec_avx_int_8.hpp
index 91a2918..e89d0a8 100644
--- a/include/libflatarray/detail/short_vec_avx_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_8.hpp
@@ -132,7 +132,7 @@ public:
     inline
     void operator/=(const short_vec<int, 8>& other)
     {
-        val = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
+        val = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
                                                 _mm256_cvtepi32_ps(other.val)));
     }
 
@@ -155,7 +155,7 @@ public:
     short_vec<int, 8> sqrt() const
     {
         return short_vec<int, 8>(
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val))));
     }
 
@@ -244,7 +244,7 @@ private:
 inline
 short_vec<int, 8>::short_vec(const sqrt_reference<int, 8>& other) :
     val(
-        _mm256_cvtps_epi32(
+        _mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val))))
 {}
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_16.hpp b/include/libflatarray/detail/short_vec_sse_int_16.hpp
index 6eb61e3..5259c95 100644
--- a/include/libflatarray/detail/short_vec_sse_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_16.hpp
@@ -236,13 +236,13 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
                                           _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
                                           _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
                                           _mm_cvtepi32_ps(other.val[ 3])));
     }
 
@@ -274,13 +274,13 @@ public:
     short_vec<int, 16> sqrt() const
     {
         return short_vec<int, 16>(
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 0]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 1]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 2]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 3]))));
     }
 
@@ -474,13 +474,13 @@ private:
 
 inline
 short_vec<int, 16>::short_vec(const sqrt_reference<int, 16>& other) :
-    val{_mm_cvtps_epi32(
+    val{_mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 1]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 2]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 3])))
         }
 {}
diff --git a/include/libflatarray/detail/short_vec_sse_int_32.hpp b/include/libflatarray/detail/short_vec_sse_int_32.hpp
index 6896002..d81aeeb 100644
--- a/include/libflatarray/detail/short_vec_sse_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_32.hpp
@@ -336,21 +336,21 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
                                           _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
                                           _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
                                           _mm_cvtepi32_ps(other.val[ 3])));
-        val[ 4] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
+        val[ 4] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
                                           _mm_cvtepi32_ps(other.val[ 4])));
-        val[ 5] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
+        val[ 5] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
                                           _mm_cvtepi32_ps(other.val[ 5])));
-        val[ 6] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
+        val[ 6] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
                                           _mm_cvtepi32_ps(other.val[ 6])));
-        val[ 7] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
+        val[ 7] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
                                           _mm_cvtepi32_ps(other.val[ 7])));
     }
 
@@ -394,21 +394,21 @@ public:
     short_vec<int, 32> sqrt() const
     {
         return short_vec<int, 32>(
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 0]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 1]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 2]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 3]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 4]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 5]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 6]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 7]))));
     }
 
@@ -715,21 +715,21 @@ private:
 inline
 short_vec<int, 32>::short_vec(const sqrt_reference<int, 32>& other) :
     val{
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 1]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 2]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 3]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 4]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 5]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 6]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 7])))
             }
 {}
diff --git a/include/libflatarray/detail/short_vec_sse_int_4.hpp b/include/libflatarray/detail/short_vec_sse_int_4.hpp
index 80b70d6..0319a63 100644
--- a/include/libflatarray/detail/short_vec_sse_int_4.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_4.hpp
@@ -165,7 +165,7 @@ public:
     inline
     void operator/=(const short_vec<int, 4>& other)
     {
-        val = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
+        val = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
                                           _mm_cvtepi32_ps(other.val)));
     }
 
@@ -188,7 +188,7 @@ public:
     short_vec<int, 4> sqrt() const
     {
         return short_vec<int, 4>(
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val))));
     }
 
@@ -299,7 +299,7 @@ private:
 inline
 short_vec<int, 4>::short_vec(const sqrt_reference<int, 4>& other) :
     val(
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val))))
 {}
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_8.hpp b/include/libflatarray/detail/short_vec_sse_int_8.hpp
index 392ac1b..3f65a30 100644
--- a/include/libflatarray/detail/short_vec_sse_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_8.hpp
@@ -216,9 +216,9 @@ public:
     short_vec<int, 8> sqrt() const
     {
         return short_vec<int, 8>(
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 0]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 1]))));
     }
 
@@ -356,9 +356,9 @@ private:
 
 inline
 short_vec<int, 8>::short_vec(const sqrt_reference<int, 8>& other) :
-    val{_mm_cvtps_epi32(
+    val{_mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 1])))}
 {}
 
-- 
2.43.0


From 677153201438b85edb8f6924b59174ee790fa844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:48 +0000
Subject: [PATCH 24/27] fix: sign-extend offsets of the SSE4.1/AVX gathers

The 32 bit offset was handed to a 64 bit addressing mode without being
extended: negative offsets (legal, and handled by all other gathers) read far
outside of the array.
---
 include/libflatarray/detail/short_vec_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index 0a7ef9a..34a1186 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -93,7 +93,7 @@
 #define SHORTVEC_INSERT_PS(a, base, offset, idx)                        \
     do {                                                                \
         asm volatile ("insertps %1, (%q2, %q3, 4), %0\n"                \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<long long>(offset)) : "memory"); \
     } while (0)
 
 #endif
@@ -112,7 +112,7 @@
 #define SHORTVEC_INSERT_PS_AVX(a, base, offset, idx)                    \
     do {                                                                \
         asm volatile ("vinsertps %1, (%q2, %q3, 4), %0, %0\n"           \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<long long>(offset)) : "memory"); \
     } while (0)
 
 #endif
-- 
2.43.0


From b0a012c36c2d9382123172d12c67bccf9ef9b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:03 +0000
Subject: [PATCH 25/27] fix: AVX-512 single precision gathers and scatters take
 any list of offsets

---
 .../libflatarray/detail/short_vec_avx512_float_16.hpp  |  6 ++----
 .../libflatarray/detail/short_vec_avx512_float_32.hpp  | 10 ++++------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_float_16.hpp b/include/libflatarray/detail/short_vec_avx512_float_16.hpp
index 8013d89..f9c562a 100644
--- a/include/libflatarray/detail/short_vec_avx512_float_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_float_16.hpp
@@ -265,8 +265,7 @@ public:
     void gather(const float *ptr, const int *offsets)
     {
         __m512i indices;
-        SHORTVEC_ASSERT_ALIGNED(offsets, 64);
-        indices = _mm512_load_epi32(offsets);
+        indices = _mm512_loadu_si512(offsets);
         val    = _mm512_i32gather_ps(indices, ptr, 4);
     }
 
@@ -274,8 +273,7 @@ public:
     void scatter(float *ptr, const int *offsets) const
     {
         __m512i indices;
-        SHORTVEC_ASSERT_ALIGNED(offsets, 64);
-        indices = _mm512_load_epi32(offsets);
+        indices = _mm512_loadu_si512(offsets);
         _mm512_i32scatter_ps(ptr, indices, val, 4);
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx512_float_32.hpp b/include/libflatarray/detail/short_vec_avx512_float_32.hpp
index 5f53060..951be8b 100644
--- a/include/libflatarray/detail/short_vec_avx512_float_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_float_32.hpp
@@ -291,10 +291,9 @@ public:
     void gather(const float *ptr, const int *offsets)
     {
         __m512i indices;
-        SHORTVEC_ASSERT_ALIGNED(offsets, 64);
-        indices = _mm512_load_epi32(offsets);
+        indices = _mm512_loadu_si512(offsets);
         val[ 0]    = _mm512_i32gather_ps(indices, ptr, 4);
-        indices = _mm512_load_epi32(offsets + 16);
+        indices = _mm512_loadu_si512(offsets + 16);
         val[ 1]    = _mm512_i32gather_ps(indices, ptr, 4);
     }
 
@@ -302,10 +301,9 @@ public:
     void scatter(float *ptr, const int *offsets) const
     {
         __m512i indices;
-        SHORTVEC_ASSERT_ALIGNED(offsets, 64);
-        indices = _mm512_load_epi32(offsets);
+        indices = _mm512_loadu_si512(offsets);
         _mm512_i32scatter_ps(ptr, indices, val[ 0], 4);
-        indices = _mm512_load_epi32(offsets + 16);
+        indices = _mm512_loadu_si512(offsets + 16);
         _mm512_i32scatter_ps(ptr, indices, val[ 1], 4);
     }
 
-- 
2.43.0


From ece1d23c35a624a9a069ddfd3bbddb0fd14c8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 26/27] fix: the loop peeler macros must evaluate the end of
 the range just once

---
 include/libflatarray/loop_peeler.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 70608c9..028cb15 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -85,16 +85,18 @@
         COUNTER_TYPE next_stop = remainder ?                            \
             (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder : \
             (X);                                                        \
+        /* END_X may depend on X, which is about to change: */          \
+        const COUNTER_TYPE lfa_local_end = (END_X);                     \
         /* the whole range may fit into a single vector: */             \
-        if (next_stop > COUNTER_TYPE(END_X)) {                          \
-            next_stop = COUNTER_TYPE(END_X);                            \
+        if (next_stop > lfa_local_end) {                                \
+            next_stop = lfa_local_end;                                  \
         }                                                               \
-        COUNTER_TYPE last_stop = (END_X) -                              \
-            (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
+        COUNTER_TYPE last_stop = lfa_local_end -                        \
+            lfa_local_end % COUNTER_TYPE(lfa_local_short_vec::ARITY);   \
                                                                         \
         FUNCTION<lfa_local_scalar   >(X, next_stop, __VA_ARGS__);       \
         FUNCTION<lfa_local_short_vec>(X, last_stop, __VA_ARGS__);       \
-        FUNCTION<lfa_local_scalar   >(X, (END_X),   __VA_ARGS__);       \
+        FUNCTION<lfa_local_scalar   >(X, lfa_local_end, __VA_ARGS__);   \
     }
 
 #ifdef LIBFLATARRAY_WITH_CPP14
-- 
2.43.0


From aa2a5e198c5a3b6c693a92684bc16817fff98ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 27/27] fix: the loop peelers must not run past the end of
 ranges of negative numbers

---
 include/libflatarray/loop_peeler.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 028cb15..55d33cd 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -93,6 +93,10 @@
         }                                                               \
         COUNTER_TYPE last_stop = lfa_local_end -                        \
             lfa_local_end % COUNTER_TYPE(lfa_local_short_vec::ARITY);   \
+        /* division truncates towards zero, also for negative ends: */  \
+        if (last_stop > lfa_local_end) {                                \
+            last_stop -= COUNTER_TYPE(lfa_local_short_vec::ARITY);      \
+        }                                                               \
                                                                         \
         FUNCTION<lfa_local_scalar   >(X, next_stop, __VA_ARGS__);       \
         FUNCTION<lfa_local_short_vec>(X, last_stop, __VA_ARGS__);       \
@@ -120,6 +124,10 @@ void loop_peeler(COUNTER_TYPE1 *counter, const COUNTER_TYPE2& end, const LAMBDA&
         next_stop = end;
     }
     COUNTER_TYPE2 last_stop = end - end % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
+    // division truncates towards zero, also for negative ends:
+    if (last_stop > end) {
+        last_stop -= COUNTER_TYPE2(lfa_local_short_vec::ARITY);
+    }
 
     lambda(lfa_local_scalar(),    counter, next_stop);
     lambda(lfa_local_short_vec(), counter, last_stop);
-- 
2.43.0

