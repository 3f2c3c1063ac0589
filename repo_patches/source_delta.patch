From 7821a7631012fc198f0dd45f8d70afc799e974bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 01/21] fix: concurrent first insertions could leave a point
 unlinked and hidden above the entry point

Two threads inserting in an empty index could both return early: the one finding no entry point
did not look again under the write lock, and the one of rank 1 returned as soon as an entry point was set
by another thread. The point was then without neighbours, and if in a higher layer, out of reach of
enumeration, coordinate lookup and drop.
---
 src/hnsw.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index d23eb58..5f1e1db 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1057,7 +1057,7 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let (data, origin_id) = data_with_id;
         let keep_pruned = self.keep_pruned;
         // insert in indexation and get point_id adn generate a new entry_point if necessary
-        let (new_point, point_rank) = self
+        let (new_point, _) = self
             .layer_indexed_points
             .generate_new_point(data, origin_id);
         trace!("Hnsw insert generated new point {:?} ", new_point.p_id);
@@ -1071,20 +1071,28 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             // I open a read lock on an option
             if let Some(arc_point) = self.layer_indexed_points.entry_point.read().as_ref() {
                 enter_point_copy = Some(Arc::clone(arc_point));
-                if point_rank == 1 {
+                max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
+            }
+        }
+        if enter_point_copy.is_none() {
+            // Possibly many threads see no entry point. Only one of them can be the first to set it,
+            // the others must go on and link their point to the entry point just set.
+            let mut entry_point_ref = self.layer_indexed_points.entry_point.write();
+            match entry_point_ref.as_ref() {
+                Some(arc_point) => {
+                    enter_point_copy = Some(Arc::clone(arc_point));
+                    max_level_observed = arc_point.p_id.0;
+                }
+                None => {
                     debug!(
                         "Hnsw  stored first point , direct return  {:?} ",
                         new_point.p_id
                     );
+                    *entry_point_ref = Some(Arc::clone(&new_point));
                     return;
                 }
-                max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
             }
         }
-        if enter_point_copy.is_none() {
-            self.layer_indexed_points.check_entry_point(&new_point);
-            return;
-        }
         let mut dist_to_entry = self
             .dist_f
             .eval(data, enter_point_copy.as_ref().unwrap().data.get_v());
-- 
2.43.0


From 7cb347a7e202223dcc88b5f0c1b1966cf8bb7cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 02/21] fix: two concurrent insertions could deadlock in the
 reverse update of neighbours

reverse_update_neighborhood_simple held a read lock on the neighbours of the new point while taking write
locks on its neighbours. Two points linked to each other and still in their reverse update waited for
each other.
---
 src/hnsw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 5f1e1db..33bab1d 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1229,7 +1229,10 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         );
         let level = new_point.p_id.0;
         for l in (0..level + 1).rev() {
-            for q in &new_point.neighbours.read()[l as usize] {
+            // do not hold the lock on our neighbours while waiting for the lock on those of another point: the
+            // insertion of that point may be waiting for ours.
+            let new_point_neighbours = new_point.neighbours.read()[l as usize].clone();
+            for q in &new_point_neighbours {
                 if new_point.p_id != q.point_ref.p_id {
                     // as new point is in global table, do not loop and deadlock!!
                     let q_point = &q.point_ref;
-- 
2.43.0


From 32ce2bc6c86abb029f8f2cadd3db72649eaa631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 03/21] fix: enumeration deadlocked with a waiting writer and
 panicked on an empty or exhausted index

IterPoint took a second read lock on the layers while holding its own, unwrapped the entry point of an empty
index, and indexed out of bounds when called again after its end.
---
 src/hnsw.rs | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 33bab1d..77686a4 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -624,7 +624,7 @@ impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
 /// The iteration begins at level 0 (most populated level) and goes upward in levels.
 /// The iterator takes a ReadGuard on the PointIndexation structure
 pub struct IterPoint<'a, 'b, T: Clone + Send + Sync + 'b> {
-    point_indexation: &'a PointIndexation<'b, T>,
+    _point_indexation: &'a PointIndexation<'b, T>,
     pi_guard: RwLockReadGuard<'a, Vec<Layer<'b, T>>>,
     layer: i64,
     slot_in_layer: i64,
@@ -634,7 +634,7 @@ impl<'a, 'b, T: Clone + Send + Sync> IterPoint<'a, 'b, T> {
     pub fn new(point_indexation: &'a PointIndexation<'b, T>) -> Self {
         let pi_guard: RwLockReadGuard<Vec<Layer<'b, T>>> = point_indexation.points_by_layer.read();
         IterPoint {
-            point_indexation,
+            _point_indexation: point_indexation,
             pi_guard,
             layer: -1,
             slot_in_layer: -1,
@@ -651,32 +651,19 @@ impl<'b, T: Clone + Send + Sync> Iterator for IterPoint<'_, 'b, T> {
             self.layer = 0;
             self.slot_in_layer = 0;
         }
-        if (self.slot_in_layer as usize) < self.pi_guard[self.layer as usize].len() {
+        // The layers are read through the guard taken at creation: taking another read lock here would deadlock
+        // with a waiting writer. The guard also gives the number of layers, so there is no need of an entry point.
+        while (self.layer as usize) < self.pi_guard.len() {
             let slot = self.slot_in_layer as usize;
-            self.slot_in_layer += 1;
-            Some(self.pi_guard[self.layer as usize][slot].clone())
-        } else {
-            self.slot_in_layer = 0;
-            self.layer += 1;
-            // must reach a non empty layer if possible
-            let entry_point_ref = self.point_indexation.entry_point.read();
-            let points_by_layer = self.point_indexation.points_by_layer.read();
-            let entry_point_level = entry_point_ref.as_ref().unwrap().p_id.0;
-            while (self.layer as u8) <= entry_point_level
-                && points_by_layer[self.layer as usize].is_empty()
-            {
-                self.layer += 1;
-            }
-            // now here either  (self.layer as u8) > self.point_indexation.max_level_observed
-            // or self.point_indexation.points_by_layer[self.layer as usize ].len() > 0
-            if (self.layer as u8) <= entry_point_level {
-                let slot = self.slot_in_layer as usize;
+            if let Some(point) = self.pi_guard[self.layer as usize].get(slot) {
                 self.slot_in_layer += 1;
-                Some(points_by_layer[self.layer as usize][slot].clone())
-            } else {
-                None
+                return Some(point.clone());
             }
+            // must reach a non empty layer if possible
+            self.layer += 1;
+            self.slot_in_layer = 0;
         }
+        None
     } // end of next
 } // end of impl Iterator
 
-- 
2.43.0


From 12f685236b9d6d53d521b0c34786799069b40904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 04/21] fix: filtered search returned a point rejected by the
 filter

The point the search in the lowest layer starts from was returned when no point found on the way passed the
filter.
---
 src/hnsw.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 77686a4..6a5c494 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1514,7 +1514,11 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         // now search with asked ef in lower layer
         let neighbours_heap = self.search_layer(data, pivot, ef, layer_to_search, filter);
         // go from heap of points with negative dist to a sorted vec of increasing points with > 0 distances.
-        let neighbours = neighbours_heap.into_sorted_vec();
+        let mut neighbours = neighbours_heap.into_sorted_vec();
+        // the pivot is put in the heap without being filtered and stays there if nothing passes the filter
+        if let Some(filter) = filter {
+            neighbours.retain(|p| filter.hnsw_filter(&p.point_ref.origin_id));
+        }
         // get the min of K and ef points into a vector.
         //
         let last = knbn.min(ef).min(neighbours.len());
-- 
2.43.0


From 442fc73d16b35b4b733ea0111f450d0b10bee273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 05/21] fix: reload multiplied the dumped level scale by the
 default scale once more

The dump stores the scale used in level sampling, reload took it for a modification factor, so
points inserted after a reload were drawn from another level distribution.
---
 src/hnsw.rs   | 11 +++--------
 src/hnswio.rs | 11 +++++------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 6a5c494..a49b8e8 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -333,17 +333,12 @@ impl LayerGenerator {
         }
     }
 
-    // new when we know scale used. Should replace the one without scale
-    pub(crate) fn new_with_scale(
-        max_nb_connection: usize,
-        scale_factor: f64,
-        maxlevel: usize,
-    ) -> Self {
-        let scale_default = 1. / (max_nb_connection as f64).ln();
+    // new when we know scale used (as given by get_level_scale). Should replace the one without scale
+    pub(crate) fn new_with_scale(scale: f64, maxlevel: usize) -> Self {
         LayerGenerator {
             rng: Arc::new(Mutex::new(StdRng::from_entropy())),
             unif: Uniform::<f64>::new(0., 1.),
-            scale: scale_default * scale_factor,
+            scale,
             maxlevel,
         }
     }
diff --git a/src/hnswio.rs b/src/hnswio.rs
index ea845f5..c2e5a8e 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -58,7 +58,7 @@ const MAGICDESCR_2: u32 = 0x002a677f;
 const MAGICDESCR_3: u32 = 0x002a6771;
 
 // magic for v4
-// we dump level scale modififcation factor
+// we dump the scale used in level sampling
 const MAGICDESCR_4: u32 = 0x002a6779;
 
 // magic at beginning of a layer dump
@@ -770,11 +770,7 @@ impl HnswIo {
             max_nb_connection: descr.max_nb_connection as usize,
             max_layer: NB_LAYER_MAX as usize,
             points_by_layer: Arc::new(RwLock::new(points_by_layer)),
-            layer_g: LayerGenerator::new_with_scale(
-                descr.max_nb_connection as usize,
-                descr.level_scale,
-                NB_LAYER_MAX as usize,
-            ),
+            layer_g: LayerGenerator::new_with_scale(descr.level_scale, NB_LAYER_MAX as usize),
             nb_point: Arc::new(RwLock::new(nb_points_loaded)), // CAVEAT , we should increase , the whole thing is to be able to increment graph ?
             entry_point: Arc::new(RwLock::new(Some(entry_point))),
         };
@@ -984,6 +980,9 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
         io_in.read_exact(&mut it_slice)?;
         descr.level_scale = f64::from_ne_bytes(it_slice);
         info!(" level scale : {:.2e}", descr.level_scale);
+    } else {
+        // older formats were always dumped with the default scale
+        descr.level_scale = 1. / (descr.max_nb_connection as f64).ln();
     }
     //
     let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-- 
2.43.0


From a602eca1795371884774b10407425bc654fe16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 06/21] fix: DataMap looked for the graph file in dir/dir when
 dir is a relative path

---
 src/datamap.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 3bce7c3..854b7bf 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -47,7 +47,6 @@ impl DataMap {
     ) -> Result<DataMap, String> {
         // reload description to have data type, and check for dump version
         let mut graphpath = PathBuf::from(dir);
-        graphpath.push(dir);
         let mut filename = file_name.to_string();
         filename.push_str(".hnsw.graph");
         graphpath.push(filename);
-- 
2.43.0


From 460e03aa1955d5a533687efc0046d14d242508ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 07/21] fix: check_data_type compared the crate names of the
 types, not the type names

---
 src/datamap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 854b7bf..014dcfb 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -237,19 +237,20 @@ impl DataMap {
         // we check last part of name of type
         let tname_vec = self.t_name.rsplit_terminator("::").collect::<Vec<&str>>();
 
-        if tname_vec.last().is_none() {
+        if tname_vec.first().is_none() {
             let errmsg = "DataMap::check_data_type() cannot determine data type name ";
             error!("DataMap::check_data_type() cannot determine data type name ");
             std::panic!("DataMap::check_data_type(), {}", errmsg);
         }
-        let tname_last = tname_vec.last().unwrap();
+        // rsplit gives the last part of the name first
+        let tname_last = tname_vec.first().unwrap();
         //
         let datat_name_arg = std::any::type_name::<T>().to_string();
         let datat_name_vec = datat_name_arg
             .rsplit_terminator("::")
             .collect::<Vec<&str>>();
 
-        let datat_name_arg_last = datat_name_vec.last().unwrap();
+        let datat_name_arg_last = datat_name_vec.first().unwrap();
         //
         if datat_name_arg_last == tname_last {
             true
-- 
2.43.0


From 74672e70a5a533b9daa1f6f6318f0db4eac0ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 08/21] fix: load_hnsw_description left nb_point at 0

---
 src/libext.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libext.rs b/src/libext.rs
index 76bfd62..d19fc55 100644
--- a/src/libext.rs
+++ b/src/libext.rs
@@ -1195,6 +1195,7 @@ pub unsafe extern "C" fn load_hnsw_description(
                 ffi_description.max_nb_connection = description.max_nb_connection;
                 ffi_description.nb_layer = description.nb_layer;
                 ffi_description.ef = description.ef;
+                ffi_description.nb_point = description.nb_point;
                 ffi_description.data_dimension = description.dimension;
                 ffi_description.distname_len = distname_len;
                 ffi_description.distname = distname_ptr;
-- 
2.43.0


From dd159bd9cd7da46f8e027711d66434442ad92e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 09/21] fix: reload and DataMap gave vectors of varying lengths
 the length of the first one

Each vector is dumped with its length, which was ignored: the reload of a shorter vector read
beyond its end, a longer one was cut, and DataMap lost track of the records.
---
 src/datamap.rs | 29 ++++++++++-------------------
 src/hnswio.rs  | 19 +++++++++++++++----
 2 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 014dcfb..9e45bda 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -147,7 +147,8 @@ impl DataMap {
         }
         //
         // now we know that each record consists in
-        //   - MAGICDATAP (u32), DataId  (u64), dimension (u64) and then  (length of type in bytes * dimension)
+        //   - MAGICDATAP (u32), DataId  (u64), length in bytes of vector (u64) and then the vector.
+        // Vectors can have different lengths, dimension only gives an estimation of the number of records
         //
         let record_size = std::mem::size_of::<u32>()
             + 2 * std::mem::size_of::<u64>()
@@ -168,8 +169,8 @@ impl DataMap {
         //
         // now we loop on records
         //
-        for i in 0..nb_record {
-            debug!("Record i : {}, addr : {}", i, current_mmap_addr);
+        while current_mmap_addr < mapped_slice.len() {
+            debug!("Record addr : {}", current_mmap_addr);
             // decode Magic
             u32_slice.copy_from_slice(
                 &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u32>()],
@@ -195,22 +196,9 @@ impl DataMap {
             );
             current_mmap_addr += std::mem::size_of::<u64>();
             let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
-            if i == 0 {
-                debug!("serialized bytes len to reload {:?}", serialized_len);
-            }
-            let mut v_serialized = vec![0; serialized_len];
-            v_serialized.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + serialized_len],
-            );
+            trace!("serialized bytes len to reload {:?}", serialized_len);
             current_mmap_addr += serialized_len;
-            let slice_t =
-                unsafe { std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, dimension) };
-            trace!(
-                "Deserialized v : {:?} address : {:?} ",
-                slice_t,
-                v_serialized.as_ptr() as *const T
-            );
-        } // end of for on record
+        } // end of loop on record
           //
         debug!("End of DataMap::from_hnsw.");
         //
@@ -283,10 +271,13 @@ impl DataMap {
         let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
         current_mmap_addr += std::mem::size_of::<u64>();
         trace!("Serialized bytes len to reload {:?}", serialized_len);
+        let vector_len = serialized_len
+            .checked_div(std::mem::size_of::<T>())
+            .unwrap_or(self.dimension);
         let slice_t = unsafe {
             std::slice::from_raw_parts(
                 mapped_slice[current_mmap_addr..].as_ptr() as *const T,
-                self.dimension,
+                vector_len,
             )
         };
         Some(slice_t)
diff --git a/src/hnswio.rs b/src/hnswio.rs
index c2e5a8e..f19e0b1 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1156,10 +1156,21 @@ where
         match descr.format_version {
             2 => bincode::deserialize(&v_serialized).unwrap(),
             3 | 4 => {
-                let slice_t = unsafe {
-                    std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, descr.dimension)
-                };
-                slice_t.to_vec()
+                // the length of this vector can differ from descr.dimension, and v_serialized has no alignment
+                let nb_t = v_serialized
+                    .len()
+                    .checked_div(std::mem::size_of::<T>())
+                    .unwrap_or(descr.dimension);
+                let mut v = Vec::<T>::with_capacity(nb_t);
+                unsafe {
+                    std::ptr::copy_nonoverlapping(
+                        v_serialized.as_ptr(),
+                        v.as_mut_ptr() as *mut u8,
+                        nb_t * std::mem::size_of::<T>(),
+                    );
+                    v.set_len(nb_t);
+                }
+                v
             }
             _ => {
                 error!(
-- 
2.43.0


From a99510f4768eb8017d8d165c29a9829b6a5616f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 10/21] fix: reload of a truncated or incoherent dump panicked
 or ended the process

load_hnsw and load_hnsw_with_dist return a Result: report the error there.
---
 src/hnswio.rs | 118 ++++++++++++++++++++++++++------------------------
 1 file changed, 62 insertions(+), 56 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index f19e0b1..68e4dbc 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -413,7 +413,7 @@ impl HnswIo {
         let mut graph_in = BufReader::new(graphfile);
         let data_in = BufReader::new(datafile);
         // we need to call load_description first to get distance name
-        let hnsw_description = load_description(&mut graph_in).unwrap();
+        let hnsw_description = load_description(&mut graph_in)?;
         //
         Ok(LoadInit {
             descr: hnsw_description,
@@ -451,19 +451,20 @@ impl HnswIo {
         let mut it_slice = [0u8; std::mem::size_of::<u32>()];
         data_in.read_exact(&mut it_slice)?;
         let magic = u32::from_ne_bytes(it_slice);
-        assert_eq!(
-            magic, MAGICDATAP,
-            "magic not equal to MAGICDATAP in load_point"
-        );
+        if magic != MAGICDATAP {
+            return Err(anyhow!("magic not equal to MAGICDATAP in load_point"));
+        }
         //
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         data_in.read_exact(&mut it_slice)?;
         let dimension = usize::from_ne_bytes(it_slice);
-        assert_eq!(
-            dimension, description.dimension,
-            "data dimension incoherent {:?} {:?} ",
-            dimension, description.dimension
-        );
+        if dimension != description.dimension {
+            return Err(anyhow!(
+                "data dimension incoherent {:?} {:?} ",
+                dimension,
+                description.dimension
+            ));
+        }
         //
         let _mode = description.dumpmode;
         let distname = description.distname.clone();
@@ -550,19 +551,20 @@ impl HnswIo {
         let mut it_slice = [0u8; std::mem::size_of::<u32>()];
         data_in.read_exact(&mut it_slice)?;
         let magic = u32::from_ne_bytes(it_slice);
-        assert_eq!(
-            magic, MAGICDATAP,
-            "magic not equal to MAGICDATAP in load_point"
-        );
+        if magic != MAGICDATAP {
+            return Err(anyhow!("magic not equal to MAGICDATAP in load_point"));
+        }
         //
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         data_in.read_exact(&mut it_slice)?;
         let dimension = usize::from_ne_bytes(it_slice);
-        assert_eq!(
-            dimension, description.dimension,
-            "data dimension incoherent {:?} {:?} ",
-            dimension, description.dimension
-        );
+        if dimension != description.dimension {
+            return Err(anyhow!(
+                "data dimension incoherent {:?} {:?} ",
+                dimension,
+                description.dimension
+            ));
+        }
         //
         let _mode = description.dumpmode;
         let distname = description.distname.clone();
@@ -700,18 +702,22 @@ impl HnswIo {
                 let point = load_point_res.0;
                 let p_id = point.get_point_id();
                 // some checks
-                assert_eq!(l, p_id.0 as usize);
+                if l != p_id.0 as usize {
+                    return Err(anyhow!("point {:?} found in layer {}", p_id, l));
+                }
                 if r != p_id.1 as usize {
                     debug!("Origin= {:?},  p_id = {:?}", point.get_origin_id(), p_id);
                     debug!("Storing at l {:?}, r {:?}", l, r);
+                    return Err(anyhow!("point {:?} found at rank {}", p_id, r));
                 }
-                assert_eq!(r, p_id.1 as usize);
                 // store neoghbour info of this point
                 neighbourhood_map.insert(p_id, load_point_res.1);
                 vlayer.push(point);
                 nb_points_loaded += 1;
                 nb_still_to_load -= 1;
-                assert!(nb_still_to_load >= 0);
+                if nb_still_to_load < 0 {
+                    return Err(anyhow!("more points than in description"));
+                }
             }
             points_by_layer.push(vlayer);
         }
@@ -812,15 +818,15 @@ impl HnswIo {
                 let v = load_point_data::<T>(origin_id, data_in, descr);
                 if v.is_err() {
                     error!("loading point {:?}", origin_id);
-                    std::process::exit(1);
                 }
-                Point::<T>::new(v.unwrap(), origin_id, p_id)
+                Point::<T>::new(v?, origin_id, p_id)
             }
             true => {
                 skip_point_data(origin_id, data_in, descr)?; // keep cohrence between data file and graph file!
                 debug!("constructing point from datamap, dataid : {:?}", origin_id);
                 let s: Option<&'b [T]> = self.datamap.as_ref().unwrap().get_data::<T>(&origin_id);
-                Point::<T>::new_from_mmap(s.unwrap(), origin_id, p_id)
+                let s = s.ok_or(anyhow!("no data in datamap for point {:?}", origin_id))?;
+                Point::<T>::new_from_mmap(s, origin_id, p_id)
             }
         };
         self.nb_point_loaded.fetch_add(1, Ordering::Relaxed);
@@ -1018,7 +1024,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     }
     let mut distv = vec![0; len];
     io_in.read_exact(distv.as_mut_slice())?;
-    let distname = String::from_utf8(distv).unwrap();
+    let distname = String::from_utf8(distv)?;
     debug!("distance name {:?} ", distname);
     descr.distname = distname;
     // reload of type name
@@ -1032,7 +1038,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     }
     let mut tnamev = vec![0; len];
     io_in.read_exact(tnamev.as_mut_slice())?;
-    let t_name = String::from_utf8(tnamev).unwrap();
+    let t_name = String::from_utf8(tnamev)?;
     debug!("T type name {:?} ", t_name);
     descr.t_name = t_name;
     debug!(" end of description load \n");
@@ -1131,19 +1137,19 @@ where
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
     data_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
-    assert_eq!(
-        magic, MAGICDATAP,
-        "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
-        origin_id
-    );
+    if magic != MAGICDATAP {
+        return Err(anyhow!(
+            "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
+            origin_id
+        ));
+    }
     // read origin id
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
     let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
-    assert_eq!(
-        origin_id, origin_id_data,
-        "origin_id incoherent between graph and data"
-    );
+    if origin_id != origin_id_data {
+        return Err(anyhow!("origin_id incoherent between graph and data"));
+    }
     // now read data. we use size_t that is in description, to take care of the casewhere we reload
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
@@ -1154,7 +1160,7 @@ where
 
     let v: Vec<T> = if std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>() {
         match descr.format_version {
-            2 => bincode::deserialize(&v_serialized).unwrap(),
+            2 => bincode::deserialize(&v_serialized)?,
             3 | 4 => {
                 // the length of this vector can differ from descr.dimension, and v_serialized has no alignment
                 let nb_t = v_serialized
@@ -1177,7 +1183,7 @@ where
                     "error in load_point, unknow format_version : {:?}",
                     descr.format_version
                 );
-                std::process::exit(1);
+                return Err(anyhow!("unknown format_version"));
             }
         }
     } else {
@@ -1193,19 +1199,19 @@ fn skip_point_data(origin_id: usize, data_in: &mut dyn Read, _descr: &Descriptio
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
     data_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
-    assert_eq!(
-        magic, MAGICDATAP,
-        "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
-        origin_id
-    );
+    if magic != MAGICDATAP {
+        return Err(anyhow!(
+            "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
+            origin_id
+        ));
+    }
     // read origin id
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
     let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
-    assert_eq!(
-        origin_id, origin_id_data,
-        "origin_id incoherent between graph and data"
-    );
+    if origin_id != origin_id_data {
+        return Err(anyhow!("origin_id incoherent between graph and data"));
+    }
     //
     // now read data. we use size_t that is in description, to take care of the casewhere we reload
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
@@ -1233,23 +1239,23 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
     trace!("in load_point_graph");
     // read and check magic
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
     if magic != MAGICPOINT {
         error!("got instead of MAGICPOINT {:x}", magic);
         return Err(anyhow!("bad magic at point beginning"));
     }
     let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let origin_id = DataId::from_ne_bytes(it_slice);
     //
     // read point_id
     let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let layer = u8::from_ne_bytes(it_slice);
     //
     let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let rank_in_l = i32::from_ne_bytes(it_slice);
     let p_id = PointId(layer, rank_in_l);
     debug!(
@@ -1264,24 +1270,24 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
         let mut neighbour: Neighbour = Default::default();
         // read nb_neighbour as usize!!! CAUTION, then nb_neighbours times identity(depends on Full or Light) distance : f32
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
-        graph_in.read_exact(&mut it_slice).unwrap();
+        graph_in.read_exact(&mut it_slice)?;
         let nb_neighbours = usize::from_ne_bytes(it_slice);
         let mut neighborhood_l: Vec<Neighbour> = Vec::with_capacity(nb_neighbours);
         for _j in 0..nb_neighbours {
             let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.d_id = DataId::from_ne_bytes(it_slice);
             if descr.dumpmode == 1 {
                 let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.0 = u8::from_ne_bytes(it_slice);
                 //
                 let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.1 = i32::from_ne_bytes(it_slice);
             }
             let mut it_slice = [0u8; std::mem::size_of::<f32>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.distance = f32::from_ne_bytes(it_slice);
             //  debug!("        voisins  load {:?} {:?} {:?} ", neighbour.p_id, neighbour.d_id , neighbour.distance);
             // now we have a new neighbour, we must really fill neighbourhood info, so it means going from Neighbour to PointWithOrder
-- 
2.43.0


From a2d2a729bd5cf18f98d7b5726166d664dd5d4c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 11/21] fix: reload with another data type than the one dumped
 panicked instead of returning an error

---
 src/hnswio.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 68e4dbc..e80e36c 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -636,7 +636,7 @@ impl HnswIo {
                 descr.t_name,
                 std::any::type_name::<T>()
             );
-            panic!("incohrent size of T in description");
+            return Err(anyhow!("incoherent type of T in description"));
         }
         //
         let mut points_by_layer: Vec<Vec<Arc<Point<T>>>> =
-- 
2.43.0


From 214d09a6e81c5ce083451be4f8a011069b4e8fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 12/21] fix: reload panicked when mmap was asked for and no
 datamap could be set up

---
 src/hnswio.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index e80e36c..78c00ad 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -654,6 +654,8 @@ impl HnswIo {
         let mut nb_points_loaded: usize = 0;
         let mut nb_still_to_load = descr.nb_point as i64;
         let (use_mmap, max_nbpoint_in_memory) = self.options.use_mmap();
+        // there is no datamap if it could not be initialized, or with load_hnsw_with_dist
+        let use_mmap = use_mmap && self.datamap.is_some();
         //
         for l in 0..nb_layer as usize {
             // read and check magic
-- 
2.43.0


From b57551273a03d67a115e00f62a567efcb695d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 13/21] fix: DataMap panicked or ended the process on a missing
 or truncated dump instead of returning an error

---
 src/datamap.rs | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 9e45bda..026f823 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -53,12 +53,12 @@ impl DataMap {
         let graphfileres = OpenOptions::new().read(true).open(&graphpath);
         if graphfileres.is_err() {
             println!("DataMap: could not open file {:?}", graphpath.as_os_str());
-            std::process::exit(1);
+            return Err(String::from("could not open graph file"));
         }
         let graphfile = graphfileres.unwrap();
         let mut graph_in = BufReader::new(graphfile);
         // we need to call load_description first to get distance name
-        let hnsw_description = hnswio::load_description(&mut graph_in).unwrap();
+        let hnsw_description = hnswio::load_description(&mut graph_in).map_err(|e| e.to_string())?;
         if hnsw_description.format_version <= 2 {
             let msg = String::from("from_hnsw::from_hnsw : data mapping is only possible for dumps with the version > 0.1.19 of this crate");
             error!(
@@ -93,24 +93,24 @@ impl DataMap {
         let meta = std::fs::metadata(&datapath);
         if meta.is_err() {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(String::from("could not open data file"));
         }
         let fsize = meta.unwrap().len().try_into().unwrap();
         //
         let file_res = File::open(&datapath);
         if file_res.is_err() {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(String::from("could not open data file"));
         }
         let file = file_res.unwrap();
         let offset = 0;
         //
-        let mmap_opt = MmapOptions::new(fsize).unwrap();
+        let mmap_opt = MmapOptions::new(fsize).map_err(|e| e.to_string())?;
         let mmap_opt = unsafe { mmap_opt.with_file(&file, offset) };
         let mapping_res = mmap_opt.map();
         if mapping_res.is_err() {
             error!("Could not memory map : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(String::from("could not memory map data file"));
         }
         let mmap = mapping_res.unwrap();
         //
@@ -122,6 +122,18 @@ impl DataMap {
         //
         // where are we in decoding mmap slice?
         let mut current_mmap_addr = 0usize;
+        // the file ends with a complete record if it was not truncated
+        let check_left = |addr: usize, nb_bytes: usize| {
+            if mapped_slice.len() - addr < nb_bytes {
+                Err(String::from("data file is truncated"))
+            } else {
+                Ok(())
+            }
+        };
+        check_left(
+            current_mmap_addr,
+            std::mem::size_of::<u32>() + std::mem::size_of::<usize>(),
+        )?;
         let mut usize_slice = [0u8; std::mem::size_of::<usize>()];
         // check magic
         let mut u32_slice = [0u8; std::mem::size_of::<u32>()];
@@ -130,7 +142,9 @@ impl DataMap {
         );
         current_mmap_addr += std::mem::size_of::<u32>();
         let magic = u32::from_ne_bytes(u32_slice);
-        assert_eq!(magic, MAGICDATAP, "magic not equal to MAGICDATAP in mmap");
+        if magic != MAGICDATAP {
+            return Err(String::from("magic not equal to MAGICDATAP in mmap"));
+        }
         // get dimension
         usize_slice.copy_from_slice(
             &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<usize>()],
@@ -169,15 +183,22 @@ impl DataMap {
         //
         // now we loop on records
         //
+        let mut nb_read = 0usize;
         while current_mmap_addr < mapped_slice.len() {
             debug!("Record addr : {}", current_mmap_addr);
+            check_left(
+                current_mmap_addr,
+                std::mem::size_of::<u32>() + 2 * std::mem::size_of::<u64>(),
+            )?;
             // decode Magic
             u32_slice.copy_from_slice(
                 &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u32>()],
             );
             current_mmap_addr += std::mem::size_of::<u32>();
             let magic = u32::from_ne_bytes(u32_slice);
-            assert_eq!(magic, MAGICDATAP, "magic not equal to MAGICDATAP in mmap");
+            if magic != MAGICDATAP {
+                return Err(String::from("magic not equal to MAGICDATAP in mmap"));
+            }
             // decode DataId
             u64_slice.copy_from_slice(
                 &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u64>()],
@@ -197,9 +218,14 @@ impl DataMap {
             current_mmap_addr += std::mem::size_of::<u64>();
             let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
             trace!("serialized bytes len to reload {:?}", serialized_len);
+            check_left(current_mmap_addr, serialized_len)?;
             current_mmap_addr += serialized_len;
+            nb_read += 1;
         } // end of loop on record
           //
+        if nb_read < hnsw_description.nb_point {
+            return Err(String::from("data file is truncated"));
+        }
         debug!("End of DataMap::from_hnsw.");
         //
         let datamap = DataMap {
-- 
2.43.0


From 902c9cff38216991bd77c0ff7fbcfcb1013edff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 14/21] fix: filtered search with k = 0 and ef = 0 panicked

---
 src/hnsw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index a49b8e8..190a87e 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1496,7 +1496,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             }
         } // end on for on layers
           // ef must be greater than knbn. Possibly it should be between knbn and self.max_nb_connection
-        let ef = ef_arg.max(knbn);
+        // and at least 1: search_layer needs room for one point
+        let ef = ef_arg.max(knbn).max(1);
         log::debug!("pivot changed , current pivot {:?}", pivot.get_point_id());
         // search lowest non empty layer (in case of search with incomplete lower layer at beginning of hnsw filling)
         let mut l = 0u8;
-- 
2.43.0


From 7e8ceb86b624811957320c45f7b6e08a604fd17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 15/21] fix: a dump made while points are inserted could be
 reported good and not reload

---
 src/hnswio.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 78c00ad..00d3862 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1321,8 +1321,8 @@ impl<T: Serialize + DeserializeOwned + Clone + Send + Sync> HnswIoT for PointInd
     fn dump(&self, mode: DumpMode, dumpinit: &mut DumpInit) -> Result<i32> {
         let graphout = &mut dumpinit.graph_out;
         let dataout = &mut dumpinit.data_out;
-        // dump max_layer
-        let layers = self.points_by_layer.read();
+        // dump max_layer. The lock may be already held by the dump of the Hnsw
+        let layers = self.points_by_layer.read_recursive();
         let nb_layer = layers.len() as u8;
         graphout.write_all(&nb_layer.to_ne_bytes())?;
         // dump layers from lower (most populatated to higher level)
@@ -1381,7 +1381,14 @@ impl<
             DumpMode::Full => 1,
             _ => 0,
         };
-        let datadim: usize = self.layer_indexed_points.get_data_dimension();
+        // Other threads may be inserting: the layers are locked until the points are dumped, so that the description
+        // agrees with them.
+        let layers = self.layer_indexed_points.points_by_layer.read();
+        let nb_point: usize = layers.iter().map(|layer| layer.len()).sum();
+        let datadim: usize = match self.layer_indexed_points.entry_point.read().as_ref() {
+            Some(entry_point) => entry_point.get_v().len(),
+            None => return Err(anyhow!("entry point not initialized")),
+        };
         let level_scale = self.layer_indexed_points.get_level_scale();
         let description = Description {
             format_version: 3,
@@ -1391,7 +1398,7 @@ impl<
             level_scale,
             nb_layer: self.get_max_level() as u8,
             ef: self.get_ef_construction(),
-            nb_point: self.get_nb_point(),
+            nb_point,
             dimension: datadim,
             distname: self.get_distance_name(),
             t_name: type_name::<T>().to_string(),
-- 
2.43.0


From 0fe1bd182559064802cfea6d4032dde6f2d72848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 16/21] fix: a dump of a reloaded index overwrote a graph file
 left without its data file

---
 src/hnswio.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 00d3862..9e2a37a 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -156,27 +156,23 @@ impl DumpInit {
         let basename = match overwrite {
             true => basename_default.to_string(),
             false => {
-                // we check
-                let mut dataname = basename_default.to_string();
-                dataname.push_str(".hnsw.data");
-                let mut datapath = PathBuf::from(dir);
-                datapath.push(dataname);
-                let exist_res = std::fs::metadata(datapath.as_os_str());
-                if exist_res.is_ok() {
+                // we check, an incomplete dump (one file without the other) must not be overwritten either
+                let dump_exists = |basename: &str| {
+                    [".hnsw.data", ".hnsw.graph"].iter().any(|suffix| {
+                        let mut filepath = PathBuf::from(dir);
+                        filepath.push(format!("{}{}", basename, suffix));
+                        std::fs::metadata(filepath.as_os_str()).is_ok()
+                    })
+                };
+                if dump_exists(basename_default) {
                     let unique_basename = loop {
                         let mut unique_basename;
-                        let mut dataname: String;
                         let id: usize = rand::thread_rng().gen_range(0..10000);
                         let strid: String = id.to_string();
                         unique_basename = basename_default.to_string();
                         unique_basename.push('-');
                         unique_basename.push_str(&strid);
-                        dataname = unique_basename.clone();
-                        dataname.push_str(".hnsw.data");
-                        let mut datapath = PathBuf::from(dir);
-                        datapath.push(dataname);
-                        let exist_res = std::fs::metadata(datapath.as_os_str());
-                        if exist_res.is_err() {
+                        if !dump_exists(&unique_basename) {
                             break unique_basename;
                         }
                     };
-- 
2.43.0


From 8f384804704d848a6976232eebf6a123af5b97de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 17/21] fix: a dump made with a generic distance could be
 reloaded with another generic distance

---
 src/hnswio.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 9e2a37a..8fda588 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -136,6 +136,13 @@ impl ReloadOptions {
 
 //===============================================================================================
 
+// the name of a type without the path of its module. A path inside generic arguments is kept.
+fn short_type_name(name: &str) -> &str {
+    let end = name.find('<').unwrap_or(name.len());
+    let start = name[..end].rfind("::").map_or(0, |pos| pos + 2);
+    &name[start..]
+}
+
 // initialize datafile and graphfile for io ops
 // This structure will check existence of dumps of same name and generate a unique filename if necessary according to overwrite flag
 #[allow(unused)]
@@ -468,13 +475,9 @@ impl HnswIo {
         // for that we check for short names equality stripping
         debug!("distance in description = {:?}", distname);
         let d_type_name = type_name::<D>().to_string();
-        let d_type_name_split: Vec<&str> = d_type_name.rsplit_terminator("::").collect();
-        for s in &d_type_name_split {
-            info!(" distname in generic type argument {:?}", s);
-        }
-        let distname_split: Vec<&str> = distname.rsplit_terminator("::").collect();
+        info!(" distname in generic type argument {:?}", d_type_name);
         if (std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>())
-            && (d_type_name_split[0] != distname_split[0])
+            && (short_type_name(&d_type_name) != short_type_name(&distname))
         {
             // for all types except NoData , distance asked in reload declaration and distance in dump must be equal!
             let mut errmsg = String::from("error in distances : dumped distance is : ");
-- 
2.43.0


From 4a7f968a2feb7ef2dcc980ce61fcf91787e76fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 18/21] fix: DataMap::check_data_type accepted another type
 with the same last part of its name

---
 src/datamap.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 026f823..a34c01c 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -248,30 +248,14 @@ impl DataMap {
     where
         T: 'static + Sized,
     {
-        // we check last part of name of type
-        let tname_vec = self.t_name.rsplit_terminator("::").collect::<Vec<&str>>();
-
-        if tname_vec.first().is_none() {
-            let errmsg = "DataMap::check_data_type() cannot determine data type name ";
-            error!("DataMap::check_data_type() cannot determine data type name ");
-            std::panic!("DataMap::check_data_type(), {}", errmsg);
-        }
-        // rsplit gives the last part of the name first
-        let tname_last = tname_vec.first().unwrap();
-        //
-        let datat_name_arg = std::any::type_name::<T>().to_string();
-        let datat_name_vec = datat_name_arg
-            .rsplit_terminator("::")
-            .collect::<Vec<&str>>();
-
-        let datat_name_arg_last = datat_name_vec.first().unwrap();
-        //
-        if datat_name_arg_last == tname_last {
+        // the whole name: types of other modules, or with other generic arguments, can have the same last part
+        let datat_name_arg = std::any::type_name::<T>();
+        if self.t_name == datat_name_arg {
             true
         } else {
             info!(
                 "Data type in DataMap : {},  type arg = {}",
-                tname_last, datat_name_arg_last
+                self.t_name, datat_name_arg
             );
             false
         }
-- 
2.43.0


From d680ffd966dd9a34f6131ea9b9b71c5ad7ba706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 19/21] fix: a loader used again could take vectors from the
 memory map of a preceding dump

---
 src/hnswio.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 8fda588..51771aa 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -490,7 +490,8 @@ impl HnswIo {
         }
         let t_type = description.t_name.clone();
         debug!("T type name in dump = {:?}", t_type);
-        // Do we use mmap at reload
+        // Do we use mmap at reload. A map of a preceding load must not be used for these files
+        self.datamap = None;
         if self.options.use_mmap().0 {
             let datamap_res = DataMap::from_hnswdump::<T>(self.dir.as_path(), &self.basename);
             if datamap_res.is_err() {
@@ -501,7 +502,9 @@ impl HnswIo {
             }
         }
         // reloader can use datamap
-        let layer_point_indexation = self.load_point_indexation(graph_in, &description, data_in)?;
+        let use_mmap = self.datamap.is_some();
+        let layer_point_indexation =
+            self.load_point_indexation(graph_in, &description, data_in, use_mmap)?;
         let data_dim = layer_point_indexation.get_data_dimension();
         //
         let hnsw: Hnsw<T, D> = Hnsw {
@@ -591,7 +594,9 @@ impl HnswIo {
         info!("T type name in dump = {:?}", t_type);
         //
         //
-        let layer_point_indexation = self.load_point_indexation(graph_in, &description, data_in)?;
+        // no datamap here, there can only be one left by a preceding load_hnsw
+        let layer_point_indexation =
+            self.load_point_indexation(graph_in, &description, data_in, false)?;
         let data_dim = layer_point_indexation.get_data_dimension();
         //
         let hnsw: Hnsw<T, D> = Hnsw {
@@ -618,6 +623,7 @@ impl HnswIo {
         graph_in: &mut dyn Read,
         descr: &Description,
         data_in: &mut dyn Read,
+        use_mmap: bool,
     ) -> anyhow::Result<PointIndexation<'b, T>>
     where
         T: 'static + Serialize + DeserializeOwned + Clone + Sized + Send + Sync + std::fmt::Debug,
@@ -652,9 +658,7 @@ impl HnswIo {
         //
         let mut nb_points_loaded: usize = 0;
         let mut nb_still_to_load = descr.nb_point as i64;
-        let (use_mmap, max_nbpoint_in_memory) = self.options.use_mmap();
-        // there is no datamap if it could not be initialized, or with load_hnsw_with_dist
-        let use_mmap = use_mmap && self.datamap.is_some();
+        let (_, max_nbpoint_in_memory) = self.options.use_mmap();
         //
         for l in 0..nb_layer as usize {
             // read and check magic
-- 
2.43.0


From 5ecb1c9405834183246d6db80c1fabe09b6fedb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 20/21] fix: a dump whose distance or type name is too long to
 be reloaded was reported good

---
 src/hnswio.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 51771aa..f8aee52 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -884,6 +884,10 @@ impl Description {
     ///
     fn dump<W: Write>(&self, argmode: DumpMode, out: &mut BufWriter<W>) -> Result<i32> {
         info!("in dump of description");
+        // load_description refuses longer names: such a dump could never be reloaded
+        if self.distname.len() > 256 || self.t_name.len() > 256 {
+            return Err(anyhow!("length of distance or T name should not exceed 256"));
+        }
         out.write_all(&MAGICDESCR_4.to_ne_bytes())?;
         let mode: u8 = match argmode {
             DumpMode::Full => 1,
-- 
2.43.0


From d7a9e9ada2710f23f88365002a622c993b4781ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 21/21] fix: a search for as many neighbours as usize can hold
 panicked on its first allocation

---
 src/hnsw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 190a87e..18d4f2a 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -908,7 +908,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         //
         // here we allocate a binary_heap on values not on reference beccause we want to return
         // log2(skiplist_size) must be greater than 1.
-        let skiplist_size = ef.max(2);
+        // It is only a first allocation: ef may be any value, as large as usize::MAX to ask for all points
+        let skiplist_size = ef.clamp(2, 1024);
         // we will store positive distances in this one
         let mut return_points = BinaryHeap::<Arc<PointWithOrder<T>>>::with_capacity(skiplist_size);
         //
-- 
2.43.0

