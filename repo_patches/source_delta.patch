From 8e7f72cc6760cd1aac23761838df777b86e34777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:50 +0000
Subject: [PATCH 01/21] fix: do not overflow when the .shp header declares more
 than 4 GB

The header counts 16-bit words; doubling the count in 32 bits panics (or wraps to a short file) when a damaged header holds a large value.
---
 src/read/shapefile/shp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 868d50e..7eab4c7 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -161,7 +161,7 @@ fn read_shp_header(file: &mut io::Read) -> Result<ShpHeader, ShpError> {
             match ShpShapeType::with_u32(shape_type_u32) {
                 Some(ShpShapeType::Polygon) => {
                     Ok(ShpHeader {
-                        file_n_bytes: (file_len * 2) as usize,
+                        file_n_bytes: file_len as usize * 2,
                         shape_type: ShpShapeType::Polygon,
                         bounding_box: bounding_box,
                     })
-- 
2.43.0


From 387ac3daaaf6e093d93adb456bb6a0c1ee789918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:51 +0000
Subject: [PATCH 02/21] fix: report a too-short .shp record instead of
 panicking

---
 src/read/shapefile/shp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 7eab4c7..93db953 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -185,11 +185,19 @@ fn parse_point(buf: &[u8]) -> Result<ShpPoint, ShpError> {
 }
 
 fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonRecord, ShpError> {
+    if buf.len() < 4 {
+        return Err(ShpError::ParseError(format!("Record number {} is too short: it has {} bytes", record_number, buf.len())));
+    }
+
     let shape_type_u32 = LittleEndian::read_u32(&buf[0..4]);
     if shape_type_u32 != 5 {
         return Err(ShpError::ParseError(format!("Record number {} has unsupported shape type: found {}, expected {}", record_number, shape_type_u32, 5)));
     }
 
+    if buf.len() < 44 {
+        return Err(ShpError::ParseError(format!("Record number {} is too short to be a polygon: it has {} bytes", record_number, buf.len())));
+    }
+
     let num_parts = LittleEndian::read_u32(&buf[36..40]) as usize;
     if num_parts == 0 {
         return Err(ShpError::ParseError(format!("Record number {} has no parts", record_number)));
-- 
2.43.0


From bc3c1f114fb145f8e9ed052b319fc7eafa8a3ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:25 +0000
Subject: [PATCH 03/21] fix: do not allocate memory for .shp record bytes that
 are not there

A damaged record length made the reader reserve up to 8 GB.
---
 src/read/shapefile/shp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 93db953..924733d 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -4,6 +4,7 @@ use std::error;
 use std::fmt;
 use std::fs;
 use std::io;
+use std::io::Read;
 use std::path::Path;
 use byteorder::{BigEndian, ByteOrder, LittleEndian};
 use itertools::Itertools;
@@ -264,9 +265,12 @@ fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize),
             let record_number = BigEndian::read_u32(&header_buf[0..4]);
             let content_length = BigEndian::read_u32(&header_buf[4..8]) as usize;
 
-            let mut buf = vec![ 0u8; content_length * 2 ];
-            match file.read_exact(&mut buf) {
+            // Don't trust content_length with our memory: grow the buffer as
+            // the data arrives.
+            let mut buf = Vec::<u8>::new();
+            match file.take(content_length as u64 * 2).read_to_end(&mut buf) {
                 Err(err) => Err(ShpError::IOError(err)),
+                Ok(n) if n < content_length * 2 => Err(ShpError::IOError(io::Error::new(io::ErrorKind::UnexpectedEof, "the record is longer than the file"))),
                 Ok(_) => parse_polygon_record(&buf[..], record_number).map(|record| (record, header_buf.len() + buf.len()))
             }
         }
-- 
2.43.0


From c925e4269fd0ad0b8ec3d011aaf4c01cfa5f4cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:26 +0000
Subject: [PATCH 04/21] fix: end iteration after a read error and count the
 bytes of rejected records

After a failed or short read the readers went on reading in the middle of a record and delivered the misaligned bytes as records. A rejected .shp record was not counted, so the reader tried to read past the last record and reported an error forever.
---
 src/read/shapefile/dbf.rs |  5 ++++-
 src/read/shapefile/shp.rs | 19 ++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index dda61c1..c47531e 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -344,6 +344,7 @@ fn read_dbf_record(file: &mut io::Read, dbf_meta: Arc<DbfMeta>) -> Result<DbfRec
 #[derive(Debug)]
 pub struct DbfReader<R: io::Read> {
     file: R,
+    failed: bool,
     pub n_records_already_iterated: usize,
     pub meta: Arc<DbfMeta>,
 }
@@ -404,6 +405,7 @@ impl<R: io::Read> DbfReader<R> {
         read_dbf_meta(&mut file, encoding).map(move |dbf_meta| {
             DbfReader::<R> {
                 file: file,
+                failed: false,
                 n_records_already_iterated: 0,
                 meta: Arc::new(dbf_meta),
             }
@@ -425,11 +427,12 @@ impl<R: io::Read> Iterator for DbfReader<R> {
     type Item = Result<DbfRecord, DbfError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.n_records_already_iterated == self.meta.n_records {
+        if self.failed || self.n_records_already_iterated == self.meta.n_records {
             None
         } else {
             let ret = read_dbf_record(&mut self.file, self.meta.clone());
             self.n_records_already_iterated += 1;
+            self.failed = ret.is_err(); // we don't know where the next record starts
             Some(ret)
         }
     }
diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 924733d..519fe01 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -256,7 +256,11 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
 /// that polygon consumed (including its record header).
 ///
 /// Side effect: advances the file cursor to the next Polygon.
-fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize), ShpError> {
+/// Reads one record; returns it (or why it is invalid) and its length in bytes.
+///
+/// Returns an error if the bytes can't be read. There's no telling where in the
+/// file the next record is, then.
+fn read_polygon_record(file: &mut io::Read) -> Result<(Result<ShpPolygonRecord, ShpError>, usize), ShpError> {
     let mut header_buf = [ 0u8; SHP_RECORD_HEADER_LENGTH ];
 
     match file.read_exact(&mut header_buf) {
@@ -271,7 +275,7 @@ fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize),
             match file.take(content_length as u64 * 2).read_to_end(&mut buf) {
                 Err(err) => Err(ShpError::IOError(err)),
                 Ok(n) if n < content_length * 2 => Err(ShpError::IOError(io::Error::new(io::ErrorKind::UnexpectedEof, "the record is longer than the file"))),
-                Ok(_) => parse_polygon_record(&buf[..], record_number).map(|record| (record, header_buf.len() + buf.len()))
+                Ok(_) => Ok((parse_polygon_record(&buf[..], record_number), header_buf.len() + buf.len()))
             }
         }
     }
@@ -280,6 +284,7 @@ fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize),
 #[derive(Debug)]
 pub struct ShpReader<R: io::Read> {
     file: R,
+    failed: bool,
     pub n_bytes_already_read: usize,
     pub header: ShpHeader,
 }
@@ -318,6 +323,7 @@ impl<R: io::Read> ShpReader<R> {
         read_shp_header(&mut file).map(move |shp_header| {
             ShpReader::<R> {
                 file: file,
+                failed: false,
                 n_bytes_already_read: SHP_HEADER_LENGTH,
                 header: shp_header,
             }
@@ -329,17 +335,20 @@ impl<R: io::Read> Iterator for ShpReader<R> {
     type Item = Result<ShpPolygonRecord, ShpError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.n_bytes_already_read >= self.header.file_n_bytes {
+        if self.failed || self.n_bytes_already_read >= self.header.file_n_bytes {
             None
         } else {
             match read_polygon_record(&mut self.file) {
-                Err(err) => Some(Err(err)),
+                Err(err) => {
+                    self.failed = true;
+                    Some(Err(err))
+                }
                 Ok((record, n_bytes)) => {
                     self.n_bytes_already_read += n_bytes;
                     if self.n_bytes_already_read > self.header.file_n_bytes {
                         Some(Err(ShpError::ParseError(format!("The Shapefile header suggests the file is {} bytes long, but it's longer than that.", self.header.file_n_bytes))))
                     } else {
-                        Some(Ok(record))
+                        Some(record)
                     }
                 }
             }
-- 
2.43.0


From 177ac1a5d48294bc4ab063dfa5b53838e7e12aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:27 +0000
Subject: [PATCH 05/21] fix: reject .dbf headers with an impossible header or
 record length

A header length below 32 panicked; a record length of 0 made the reader deliver up to four billion empty records that are not in the file.
---
 src/read/shapefile/dbf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index c47531e..c4a5471 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -201,6 +201,10 @@ fn read_dbf_header(file: &mut io::Read) -> Result<DbfHeader, DbfError> {
             // valid days.
             if buf[2] > 12 || buf[3] > 31 {
                 Err(DbfError::ParseError(String::from("The first four bytes of the file mention an invalid creation date. This is not a valid .dbf file.")))
+            } else if LittleEndian::read_u16(&buf[8..]) < DBF_HEADER_LENGTH as u16 {
+                Err(DbfError::ParseError(String::from("The file header is too short. This is not a valid .dbf file.")))
+            } else if LittleEndian::read_u16(&buf[10..]) == 0 {
+                Err(DbfError::ParseError(String::from("The file has zero-length records. This is not a valid .dbf file.")))
             } else {
                 Ok(DbfHeader {
                     n_records: LittleEndian::read_u32(&buf[4..]) as usize,
-- 
2.43.0


From f439716b4499cf9619197a5ad9134c458346da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:29 +0000
Subject: [PATCH 06/21] fix: report unreadable .dbf field values instead of
 panicking

A field outside its record, a short long-integer field and a field of an unsupported type (dates, logicals, floats) all panicked.
---
 src/read/shapefile/dbf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index c4a5471..be2a47b 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -89,18 +89,22 @@ fn dbf_numeric_to_valid_string(bytes: &[u8]) -> Result<String, DbfError> {
 
 impl DbfField {
     pub fn read_string(&self, record: &DbfRecord) -> Result<String, DbfError> {
-        let bytes = &record.bytes[self.offset .. self.offset + self.len];
+        let bytes = match record.bytes.get(self.offset .. self.offset + self.len) {
+            Some(bytes) => bytes,
+            None => { return Err(DbfError::ParseError(format!("Field {} is not within the record", self.name))); }
+        };
 
         match &self.data_type {
             &DbfType::Character(encoding) => {
                 encoding.decode(trim_end_spaces(bytes), encoding::DecoderTrap::Strict)
                     .map_err(|s| DbfError::ParseError(s.to_string()))
             }
+            &DbfType::Long if bytes.len() < 4 => Err(DbfError::ParseError(format!("Field {} is too short to be a number", self.name))),
             &DbfType::Long => Ok(LittleEndian::read_u32(bytes).to_string()),
             &DbfType::Numeric => {
                 dbf_numeric_to_valid_string(bytes)
             }
-            _ => { unimplemented!() }
+            unsupported => Err(DbfError::ParseError(format!("Field {} has unsupported type {:?}", self.name, unsupported)))
         }
     }
 }
-- 
2.43.0


From 61a1e418cf9a0927217befe9cf67dd5685457229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:28 +0000
Subject: [PATCH 07/21] fix: compute areas and winding orders in 128 bits

Twice the area of a ring of u32 points needs up to 66 bits. Rings with coordinates beyond 2^31 overflowed: a panic in debug builds, wrong winding orders and lost rings in release builds. ShapefileGeoIterator scales every file to the whole u32 range, so this hit ordinary files.
---
 src/clip/topology.rs |  2 +-
 src/geo/mod.rs       | 24 ++++++++++++------------
 src/normalize.rs     |  4 ++--
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 14bd58f..a7c23a4 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -170,7 +170,7 @@ impl<Data: Clone> Builder<Data> {
     fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<BuildRing> {
         let mut ret: Vec<BuildDirectedEdge> = Vec::with_capacity(2 * ring.directed_edges.len());
 
-        let mut area2: i64 = 0;
+        let mut area2: i128 = 0;
         let mut start_point: Option<Point> = None;
         let mut previous_point: Option<Point> = None;
 
diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index f1d6118..6b8fb7e 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -88,12 +88,12 @@ pub enum WindingOrder {
 ///
 /// You can call this method on each edge in turn and sum the results to arrive
 /// at the total area (and implicit winding order).
-pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
+pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i128 {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0;
 
     for (p1, p2) in points.into_iter().tuple_windows() {
-        a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+        a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
     }
 
     a
@@ -108,20 +108,20 @@ pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
 /// A zero-area Ring is considered to be Clockwise.
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u64, WindingOrder) {
+pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u128, WindingOrder) {
     let a = signed_area2(points);
 
     if a >= 0 {
-        (a as u64, WindingOrder::Clockwise)
+        (a as u128, WindingOrder::Clockwise)
     } else {
-        (-a as u64, WindingOrder::CounterClockwise)
+        (-a as u128, WindingOrder::CounterClockwise)
     }
 }
 
 /// Returns 2*area
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u64 {
+pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u128 {
     area2_and_winding_order(points).0
 }
 
@@ -168,7 +168,7 @@ impl Ring {
     }
 
     /// Returns 2*area
-    pub fn area2(&self) -> u64 {
+    pub fn area2(&self) -> u128 {
         self.area2_and_winding_order().0
     }
 
@@ -179,18 +179,18 @@ impl Ring {
     /// coordinates.
     ///
     /// A zero-area Ring is considered to be Clockwise.
-    pub fn area2_and_winding_order(&self) -> (u64, WindingOrder) {
+    pub fn area2_and_winding_order(&self) -> (u128, WindingOrder) {
         match self {
             &Ring::Edges(ref edges) => {
-                let mut a: i64 = 0;
+                let mut a: i128 = 0;
                 for edge in edges.iter() {
                     a += signed_area2(edge.0.iter());
                 }
 
                 if a >= 0 {
-                    (a as u64, WindingOrder::Clockwise)
+                    (a as u128, WindingOrder::Clockwise)
                 } else {
-                    (-a as u64, WindingOrder::CounterClockwise)
+                    (-a as u128, WindingOrder::CounterClockwise)
                 }
             }
             &Ring::Points(ref points) => area2_and_winding_order(points.iter()),
diff --git a/src/normalize.rs b/src/normalize.rs
index 4b9932b..6effa96 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -190,11 +190,11 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 
 fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0;
 
     for ref edge in edges {
         for (p1, p2) in edge.points.iter().tuple_windows() {
-            a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+            a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
         }
     }
 
-- 
2.43.0


From 611744a3e1e985664d20af96db4d9ecc71939c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:29 +0000
Subject: [PATCH 08/21] fix: intersect long segments with a ClipMask without
 overflow

---
 src/clip/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clip/types.rs b/src/clip/types.rs
index 9b0ea6d..c2cc698 100644
--- a/src/clip/types.rs
+++ b/src/clip/types.rs
@@ -49,7 +49,7 @@ impl ClipMask {
     ///
     /// Assumes either `p1` or `p2` is outside the clip mask.
     pub fn intersect(&self, p1: &Point, p2: &Point) -> Point {
-        fn i(u: u32) -> i64 { u as i64 }
+        fn i(u: u32) -> i128 { u as i128 }
 
         match self {
             &ClipMask::MinX(x) | &ClipMask::MaxX(x) => {
-- 
2.43.0


From 33741f15d0bb5076cbca202a55dc04b2f4cfba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:30 +0000
Subject: [PATCH 09/21] fix: link rings to regions after the regions reach
 their final address

ring.region pointed into the Vec that was then boxed; when the Vec had spare capacity (collect() reuses the larger build regions in place) boxing reallocates it, and an allocator that moves the block leaves every ring.region dangling.
---
 src/clip/topology.rs  | 12 ++++++++----
 src/topology/build.rs | 14 ++++++++------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index a7c23a4..f92543a 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -250,8 +250,12 @@ impl<Data: Clone> Builder<Data> {
             }
         }));
 
+        // Box the edges and regions before pointing at them: boxing a Vec may
+        // move its elements.
+        let edges = edges.into_boxed_slice();
+
         // Build regions and their rings. Make all region pointers null.
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let mut regions: Box<[TopoRegion<Data>]> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
                 .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &r)).collect();
@@ -263,7 +267,7 @@ impl<Data: Clone> Builder<Data> {
                 outer_rings: topo_outer_rings.into_boxed_slice(),
                 inner_rings: topo_inner_rings.into_boxed_slice(),
             }
-        }).collect();
+        }).collect::<Vec<_>>().into_boxed_slice();
 
         // Now that regions and edges have their final spots in memory, we can
         // set pointers to them.
@@ -289,8 +293,8 @@ impl<Data: Clone> Builder<Data> {
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            regions: regions,
+            edges: edges,
         }
     }
 }
diff --git a/src/topology/build.rs b/src/topology/build.rs
index 66c943a..d0be191 100644
--- a/src/topology/build.rs
+++ b/src/topology/build.rs
@@ -145,11 +145,13 @@ impl<Data> TopologyBuilder<Data>
             })
         }
 
-        let edges: Vec<TopoEdge<Data>> = edges_sort.into_iter()
+        // Box the edges and regions before pointing at them: boxing a Vec may
+        // move its elements.
+        let edges: Box<[TopoEdge<Data>]> = edges_sort.into_iter()
             .map(|o| o.expect("programming error: an Edge is missing from self.edges"))
-            .collect();
+            .collect::<Vec<_>>().into_boxed_slice();
 
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let mut regions: Box<[TopoRegion<Data>]> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
 
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
@@ -162,7 +164,7 @@ impl<Data> TopologyBuilder<Data>
                 outer_rings: topo_outer_rings.into_boxed_slice(),
                 inner_rings: topo_inner_rings.into_boxed_slice(),
             }
-        }).collect();
+        }).collect::<Vec<_>>().into_boxed_slice();
 
         for mut region in regions.iter_mut() {
             let region_p = region as *const TopoRegion<Data>;
@@ -186,8 +188,8 @@ impl<Data> TopologyBuilder<Data>
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            regions: regions,
+            edges: edges,
         }
     }
 }
-- 
2.43.0


From d45005488601d44492019e4d51d590ee2f96a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:22 +0000
Subject: [PATCH 10/21] fix: weigh points by the area of their triangle when
 simplifying

The triangle area was computed with a multiplication where a subtraction was
meant, which overflowed on ordinary coordinates.
---
 src/simplify/simplify_edge.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 38c01b8..960fa3a 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -2,10 +2,10 @@ use std::cmp;
 use std::ptr;
 use geo;
 
-fn area2(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u64 {
-    fn i(u: u32) -> i64 { u as i64 }
-    let a2: i64 = (i(b.0) * i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
-    a2.abs() as u64
+fn area2(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u128 {
+    fn i(u: u32) -> i128 { u as i128 }
+    let a2: i128 = (i(b.0) - i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
+    a2.abs() as u128
 }
 
 #[derive(Debug)]
@@ -16,7 +16,7 @@ struct Point {
     /// The "importance" of the point. This is the "output" of Visvalingam and
     /// Whyatt's algorithm. We'll only keep points above a certain weight. (the
     /// first and last point have maximum weight.)
-    weight: u64,
+    weight: u128,
 
     /// Position in a binary heap (minimum weight first).
     heap_index: usize,
@@ -73,9 +73,9 @@ impl From<Vec<geo::Point>> for PointHeap {
             })
             .collect();
 
-        points[0].weight = u64::max_value();
+        points[0].weight = u128::max_value();
         points[0].next = &points[1];
-        points[len - 1].weight = u64::max_value();
+        points[len - 1].weight = u128::max_value();
         points[len - 1].previous = &points[len - 2];
 
         // Compute initial weights
@@ -249,7 +249,7 @@ impl PointHeap {
     ///    enough to include.
     ///
     /// Other side-effects: fiddles with self.heap and self.points[*].heap_index
-    fn visvalingam_whyatt(&mut self, smallest_weight: u64) -> Box<[geo::Point]> {
+    fn visvalingam_whyatt(&mut self, smallest_weight: u128) -> Box<[geo::Point]> {
         let mut last_weight = 0; // weight of previously-eliminated point
 
         while self.heap.len() > 0 {
@@ -262,7 +262,7 @@ impl PointHeap {
             if small_point.weight < last_weight {
                 small_point.weight = last_weight;
             } else {
-                if small_point.weight >= smallest_weight {
+                if small_point.weight > smallest_weight {
                     // We don't need to figure out the exact weight of
                     // any more points, because we know we aren't going to
                     // remove them when we simplify. (Their weights are
@@ -282,7 +282,7 @@ impl PointHeap {
         }
 
         let mut ret: Vec<geo::Point> = self.points.iter()
-            .filter(|ref p| p.weight >= smallest_weight)
+            .filter(|ref p| p.weight > smallest_weight)
             .map(|ref p| p.geo_point)
             .collect();
 
@@ -339,7 +339,7 @@ impl PointHeap {
 /// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`.
 pub fn simplify_edge(points: &[geo::Point], smallest_area2: u64) -> Box<[geo::Point]> {
     let mut point_heap = PointHeap::from(points.to_vec());
-    point_heap.visvalingam_whyatt(smallest_area2)
+    point_heap.visvalingam_whyatt(smallest_area2 as u128)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7ffb79f9d8ee863339fdf5a824d5e656f6f279ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:38 +0000
Subject: [PATCH 11/21] fix: normalize outer and inner rings together

Merging the outer rings of a region can leave a hole, and an outer ring may
share only a part of the hole it lies in: merge them in one go and sort them
out by winding order afterwards. A region that touches itself and a ring
without area no longer panic.
---
 src/normalize.rs | 85 ++++++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 39 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 6effa96..fb4c008 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -1,5 +1,5 @@
 use std::cmp::Ordering;
-use std::collections::btree_map::{BTreeMap,Entry};
+use std::collections::BTreeMap;
 use std::ptr;
 use itertools::Itertools;
 
@@ -188,7 +188,9 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
     ret
 }
 
-fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
+/// Returns the winding order of the ring the given `NormEdge`s form, or `None`
+/// if the ring has no area.
+fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> Option<WindingOrder> {
     // https://en.wikipedia.org/wiki/Shoelace_formula
     let mut a: i128 = 0;
 
@@ -198,18 +200,19 @@ fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrd
         }
     }
 
-    assert!(a != 0);
     if a > 0 {
-        WindingOrder::Clockwise
+        Some(WindingOrder::Clockwise)
+    } else if a < 0 {
+        Some(WindingOrder::CounterClockwise)
     } else {
-        WindingOrder::CounterClockwise
+        None
     }
 }
 
 /// If the given `NormEdge`s form a clockwise ring, return a copy; otherwise,
 /// return a backwards copy.
 fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<T>> {
-    if order == calculate_winding_order_from_edges(edges) {
+    if Some(order) == calculate_winding_order_from_edges(edges) {
         edges.clone()
     } else {
         let mut ret: Vec<NormEdge<T>> = Vec::with_capacity(edges.len());
@@ -270,9 +273,10 @@ fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<
 fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
     let mut ret = Vec::<NormRing<T>>::with_capacity(rings.len()); // upper-bound capacity
 
-    // NormRings are directed. We'll index them by their first Point. There's
-    // no way for two non-redundant edges to leave the same Point.
-    let mut to_merge: BTreeMap<Point, NormEdge<T>> = BTreeMap::new();
+    // NormRings are directed. We'll index them by their first Point. Usually
+    // only one non-redundant edge leaves a Point; there are more where the
+    // region touches itself.
+    let mut to_merge: BTreeMap<Point, Vec<NormEdge<T>>> = BTreeMap::new();
 
     for ref ring in rings {
         let (redundant, useful): (Vec<_>, Vec<_>) = ring.edges.clone().into_iter().partition(|ref e| e.is_redundant());
@@ -288,14 +292,7 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
             _ => {
                 // index the useful edges and ignore the redundant ones
                 for ref edge in useful {
-                    match to_merge.entry(edge.points[0]) {
-                        Entry::Vacant(e) => {
-                            e.insert(edge.clone());
-                        }
-                        Entry::Occupied(e) => {
-                            panic!("Bug/edge case: two distinct edges in the same region are both trying to leave {:?}", e.key());
-                        }
-                    }
+                    to_merge.entry(edge.points[0]).or_insert_with(Vec::new).push(edge.clone());
                 }
             }
         }
@@ -314,16 +311,21 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
         let mut edges: Vec<NormEdge<T>> = Vec::new();
 
         loop {
-            match to_merge.remove(&end) {
+            let mut candidates = match to_merge.remove(&end) {
                 None => {
                     panic!("Expected Edge to continue past {:?} when building Ring", end);
                 }
-                Some(edge) => {
-                    end = *edge.points.last().unwrap();
-                    edges.push(edge);
-                }
+                Some(candidates) => candidates
+            };
+
+            let edge = candidates.remove(0);
+            if candidates.len() > 0 {
+                to_merge.insert(end, candidates);
             }
 
+            end = *edge.points.last().unwrap();
+            edges.push(edge);
+
             if end == start {
                 // we've reconstructed a ring. to_merge may or may not be empty.
                 break;
@@ -340,14 +342,13 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
     ret
 }
 
-/// Returns a normalized copy of the given set of outer/inner rings.
+/// Returns normalized copies of a region's outer rings and inner rings.
 ///
-/// Call with WindingOrder::Clockwise on outer rings and CounterClockwise on
-/// inner rings.
+/// Outer and inner rings are merged together: an outer ring may share an edge
+/// with the hole it lies in, and merging outer rings may leave a hole between
+/// them.
 ///
-/// Note the tidy cleanup of donuts, even though this function isn't called
-/// with both outer rings and inner rings at the same time (it either gets
-/// all outer rings or all inner rings). For instance:
+/// Note the tidy cleanup of donuts. For instance:
 ///
 /// ```ascii
 /// A------B
@@ -361,15 +362,15 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
 ///
 /// If a region has two outer rings `ABCD` and `EHGF`, and one inner ring
 /// ("hole"), `EFGH`, then this function's call to join_adjacent_rings() will
-/// nix `EHGF` when called on outer rings, and it will nix `EFGH` when called
-/// on inner rings (since the edges have two rings and thus two Regions, and
-/// both Regions are identical). Ta-da! The donut is gone.
-fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder) -> Box<[Ring]> {
-    let mut rings = Vec::<NormRing<T>>::with_capacity(in_rings.len());
+/// nix both `EHGF` and `EFGH` (since the edges have two rings and thus two
+/// Regions, and both Regions are identical). Ta-da! The donut is gone.
+fn normalize_region_rings<T>(outer_rings: &[TopoRing<T>], inner_rings: &[TopoRing<T>]) -> (Box<[Ring]>, Box<[Ring]>) {
+    let mut rings = Vec::<NormRing<T>>::with_capacity(outer_rings.len() + inner_rings.len());
 
-    for ref boxed_ring in in_rings {
-        let ref in_ring = *boxed_ring;
+    let in_rings = outer_rings.iter().map(|r| (r, WindingOrder::Clockwise))
+        .chain(inner_rings.iter().map(|r| (r, WindingOrder::CounterClockwise)));
 
+    for (in_ring, winding_order) in in_rings {
         let mut edges = Vec::<NormEdge<T>>::with_capacity(in_ring.directed_edges.len());
 
         for ref directed_edge in in_ring.directed_edges.iter() {
@@ -377,6 +378,9 @@ fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrd
         }
 
         edges = join_related_edges(&edges);
+        if calculate_winding_order_from_edges(&edges).is_none() {
+            continue; // the ring covers nothing
+        }
         edges = wind_edges(&edges, winding_order);
         edges = rotate_edges(&edges);
 
@@ -386,8 +390,12 @@ fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrd
     rings = join_adjacent_rings(&rings);
     rings.sort();
 
-    let ret: Vec<Ring> = rings.into_iter().map(|r| r.into_ring()).collect();
-    ret.into_boxed_slice()
+    let (outer, inner): (Vec<NormRing<T>>, Vec<NormRing<T>>) = rings.into_iter()
+        .partition(|r| calculate_winding_order_from_edges(&r.edges) == Some(WindingOrder::Clockwise));
+
+    let outer: Vec<Ring> = outer.into_iter().map(|r| r.into_ring()).collect();
+    let inner: Vec<Ring> = inner.into_iter().map(|r| r.into_ring()).collect();
+    (outer.into_boxed_slice(), inner.into_boxed_slice())
 }
 
 /// Returns a "normalized" copy of the given Topology.
@@ -410,8 +418,7 @@ pub fn normalize<Data: Clone>(topo: &Topology<Data>) -> Topology<Data> {
     let mut builder = TopologyBuilder::<Data>::new();
 
     for ref region in topo.regions.iter() {
-        let outer_rings = normalize_region_rings(&region.outer_rings, WindingOrder::Clockwise);
-        let inner_rings = normalize_region_rings(&region.inner_rings, WindingOrder::CounterClockwise);
+        let (outer_rings, inner_rings) = normalize_region_rings(&region.outer_rings, &region.inner_rings);
         builder.add_region(Region {
             data: region.data.clone(),
             outer_rings: outer_rings,
-- 
2.43.0


From 4fe2d20e4ffd8f452b03b5199e27e374fcd024b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:51 +0000
Subject: [PATCH 12/21] fix: let more than two rings run along the same line
 after clipping

A mask that cuts through a hole as wide as its region gives the region outer
ring, its inner ring and the region in the hole the same straight line. That
panicked, because an edge has room for only two rings.
---
 src/clip/topology.rs    | 21 +++++++++++--
 src/topology/build.rs   | 29 +++++++++++++-----
 src/topology/crowded.rs | 68 +++++++++++++++++++++++++++++++++++++++++
 src/topology/mod.rs     |  2 ++
 src/topology/types.rs   |  4 ++-
 5 files changed, 114 insertions(+), 10 deletions(-)
 create mode 100644 src/topology/crowded.rs

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index f92543a..1787a00 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -7,7 +7,7 @@ use std::vec;
 use geo::{Point, signed_area2};
 use super::edge::clip_edge;
 use super::types::ClipMask;
-use topology::{Direction, DirectedEdge, TopoEdge, TopoRing, TopoRegion, Topology};
+use topology::{Direction, DirectedEdge, TopoEdge, TopoRing, TopoRegion, Topology, split_crowded_edges};
 
 type EdgeId = usize;
 
@@ -18,6 +18,15 @@ struct BuildRegion<Data> {
     inner_rings: Box<[BuildRing]>,
 }
 
+impl<Data> BuildRegion<Data> {
+    /// The ids of all edges this region's rings run along.
+    fn edge_ids(&mut self) -> Vec<&mut EdgeId> {
+        self.outer_rings.iter_mut().chain(self.inner_rings.iter_mut())
+            .flat_map(|r| r.0.iter_mut().map(|de| &mut de.edge_id))
+            .collect()
+    }
+}
+
 #[derive(Debug)]
 struct BuildRing(Box<[BuildDirectedEdge]>);
 
@@ -234,7 +243,7 @@ impl<Data: Clone> Builder<Data> {
         self.old_edge_id_finder[offset]
     }
 
-    fn into_topology(self) -> Topology<Data> {
+    fn into_topology(mut self) -> Topology<Data> {
         // Build edges. Make all their ring pointers null.
         let mut edges: Vec<TopoEdge<Data>> = Vec::with_capacity(self.old_edges.len() + self.new_edges.len());
         edges.extend(self.old_edges.into_iter().map(|points| {
@@ -250,6 +259,14 @@ impl<Data: Clone> Builder<Data> {
             }
         }));
 
+        for id in split_crowded_edges(edges.len(), self.regions.iter_mut().map(|r| r.edge_ids()).collect()) {
+            let points = edges[id].points.clone();
+            edges.push(TopoEdge {
+                points: points,
+                rings: [ ptr::null(), ptr::null() ],
+            });
+        }
+
         // Box the edges and regions before pointing at them: boxing a Vec may
         // move its elements.
         let edges = edges.into_boxed_slice();
diff --git a/src/topology/build.rs b/src/topology/build.rs
index d0be191..0db3952 100644
--- a/src/topology/build.rs
+++ b/src/topology/build.rs
@@ -3,6 +3,7 @@ use std::collections::hash_map::Entry;
 use std::ptr;
 
 use geo::{WindingOrder, Edge, Point, Ring, Region};
+use super::crowded::split_crowded_edges;
 use super::types::{Topology, TopoEdge, TopoRegion, TopoRing, DirectedEdge, Direction};
 
 type EdgeId = usize; // array index
@@ -14,6 +15,15 @@ struct BuildRegion<Data> {
     inner_rings: Vec<BuildRing>,
 }
 
+impl<Data> BuildRegion<Data> {
+    /// The ids of all edges this region's rings run along.
+    fn edge_ids(&mut self) -> Vec<&mut EdgeId> {
+        self.outer_rings.iter_mut().chain(self.inner_rings.iter_mut())
+            .flat_map(|r| r.0.iter_mut().map(|de| &mut de.edge_id))
+            .collect()
+    }
+}
+
 #[derive(Debug)]
 struct BuildRing(Vec<BuildDirectedEdge>);
 
@@ -130,25 +140,30 @@ impl<Data> TopologyBuilder<Data>
         Some(BuildDirectedEdge { edge_id: edge_id, direction: direction })
     }
 
-    pub fn into_topology(self) -> Topology<Data> {
+    pub fn into_topology(mut self) -> Topology<Data> {
         // We can "sort" by id because we know the ids are <= self.edges.len():
         // just put each edge in its place.
 
-        let mut edges_sort = Vec::<Option<TopoEdge<Data>>>::with_capacity(self.edges.len());
+        let mut edges_sort = Vec::<Option<Vec<Point>>>::with_capacity(self.edges.len());
         for _ in 0 .. self.edges.len() {
             edges_sort.push(None);
         }
         for (build_edge, id) in self.edges {
-            edges_sort[id] = Some(TopoEdge {
-                points: build_edge.0.into_boxed_slice(),
-                rings: [ ptr::null(); 2 ], // we'll fill these in later
-            })
+            edges_sort[id] = Some(build_edge.0);
+        }
+
+        for id in split_crowded_edges(edges_sort.len(), self.regions.iter_mut().map(|r| r.edge_ids()).collect()) {
+            let copy = edges_sort[id].clone();
+            edges_sort.push(copy);
         }
 
         // Box the edges and regions before pointing at them: boxing a Vec may
         // move its elements.
         let edges: Box<[TopoEdge<Data>]> = edges_sort.into_iter()
-            .map(|o| o.expect("programming error: an Edge is missing from self.edges"))
+            .map(|o| TopoEdge {
+                points: o.expect("programming error: an Edge is missing from self.edges").into_boxed_slice(),
+                rings: [ ptr::null(); 2 ], // we'll fill these in later
+            })
             .collect::<Vec<_>>().into_boxed_slice();
 
         let mut regions: Box<[TopoRegion<Data>]> = self.regions.into_iter().map(|build_region| {
diff --git a/src/topology/crowded.rs b/src/topology/crowded.rs
new file mode 100644
index 0000000..ffe1b72
--- /dev/null
+++ b/src/topology/crowded.rs
@@ -0,0 +1,68 @@
+use std::collections::BTreeMap;
+
+/// Finds edges more than two rings run along, and makes some of the rings use
+/// copies instead: a TopoEdge has room for two rings.
+///
+/// This can happen when clipping. For instance: when the mask cuts through a
+/// hole that is as wide as its region, the region's outer ring, its inner ring
+/// and the outer ring of the region that lies in the hole all end with the same
+/// straight line.
+///
+/// `regions` is, for each region, the edge ids its rings run along.
+///
+/// Returns the ids of the edges to copy. Append the copies to the edges, in the
+/// given order.
+pub fn split_crowded_edges(n_edges: usize, regions: Vec<Vec<&mut usize>>) -> Vec<usize> {
+    let mut n_uses = vec![ 0; n_edges ];
+    for edge_id in regions.iter().flat_map(|edge_ids| edge_ids.iter()) {
+        n_uses[**edge_id] += 1;
+    }
+
+    let mut crowded: BTreeMap<usize, Vec<(usize, &mut usize)>> = BTreeMap::new();
+    for (region_id, edge_ids) in regions.into_iter().enumerate() {
+        for edge_id in edge_ids {
+            if n_uses[*edge_id] > 2 {
+                crowded.entry(*edge_id).or_insert_with(Vec::new).push((region_id, edge_id));
+            }
+        }
+    }
+
+    let mut copies = Vec::new();
+
+    for (edge_id, uses) in crowded {
+        // Two rings of the same region belong together: the edge lies within
+        // the region, so normalize() can remove it.
+        let mut together = Vec::with_capacity(uses.len());
+        let mut alone = Vec::new();
+        let mut previous: Option<(usize, &mut usize)> = None;
+
+        for (region_id, edge_use) in uses {
+            previous = match previous {
+                Some((id, previous_use)) => {
+                    if id == region_id {
+                        together.push(previous_use);
+                        together.push(edge_use);
+                        None
+                    } else {
+                        alone.push(previous_use);
+                        Some((region_id, edge_use))
+                    }
+                }
+                None => Some((region_id, edge_use)),
+            };
+        }
+
+        alone.extend(previous.map(|(_, edge_use)| edge_use));
+        together.extend(alone);
+
+        // The first two keep using the original
+        for (i, edge_use) in together.into_iter().enumerate().skip(2) {
+            if i % 2 == 0 {
+                copies.push(edge_id);
+            }
+            *edge_use = n_edges + copies.len() - 1;
+        }
+    }
+
+    copies
+}
diff --git a/src/topology/mod.rs b/src/topology/mod.rs
index 0fcb0d9..b077c3c 100644
--- a/src/topology/mod.rs
+++ b/src/topology/mod.rs
@@ -1,5 +1,7 @@
 mod types;
 mod build;
+mod crowded;
 
 pub use self::types::{Topology, TopoEdge, TopoRegion, TopoRing, DirectedEdge, Direction};
 pub use self::build::TopologyBuilder;
+pub(crate) use self::crowded::split_crowded_edges;
diff --git a/src/topology/types.rs b/src/topology/types.rs
index 4f01355..89cf868 100644
--- a/src/topology/types.rs
+++ b/src/topology/types.rs
@@ -54,7 +54,9 @@ pub enum Direction {
 /// from top-left Node to bottom-right Node. If you want a directed path, use
 /// DirectedEdge.
 ///
-/// A Topology can only contain a single TopoEdge with the given points.
+/// A Topology usually contains a single TopoEdge with the given points. Only
+/// where clipping makes more than two TopoRings run along the same line, there
+/// are several: a TopoEdge has at most two TopoRings.
 #[derive(Debug)]
 pub struct TopoEdge<Data> {
     pub points: Box<[Point]>,
-- 
2.43.0


From 2dde74df1d828d31a17b8de7117ee767fed328ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:52 +0000
Subject: [PATCH 13/21] fix: drop regions clipping leaves nothing of but holes

When the mask lies within a hole, the outer ring and the inner ring become the
same: nothing of the region is left.
---
 src/clip/topology.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 1787a00..b309cf5 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -153,10 +153,11 @@ impl<Data: Clone> Builder<Data> {
     }
 
     fn add_region(&mut self, region: &TopoRegion<Data>) {
-        let outer_rings = self.clip_rings(&region.outer_rings[..]);
-        if outer_rings.len() > 0 {
-            let inner_rings = self.clip_rings(&region.inner_rings[..]);
+        let (outer_rings, outer_area2) = self.clip_rings(&region.outer_rings[..]);
+        let (inner_rings, inner_area2) = self.clip_rings(&region.inner_rings[..]);
 
+        // If the holes are all that is left, the region is gone.
+        if outer_rings.len() > 0 && outer_area2 != inner_area2 {
             self.regions.push(BuildRegion {
                 data: region.data.clone(),
                 outer_rings: outer_rings,
@@ -165,18 +166,25 @@ impl<Data: Clone> Builder<Data> {
         }
     }
 
-    /// Returns a clipped version of the given Rings.
+    /// Returns a clipped version of the given Rings, and 2x the area they cover.
     ///
     /// May be an empty slice, if no rings remain.
-    fn clip_rings(&mut self, rings: &[TopoRing<Data>]) -> Box<[BuildRing]> {
-        let ret: Vec<BuildRing> = rings.iter().flat_map(|r| self.clip_ring(r)).collect();
-        ret.into_boxed_slice()
+    fn clip_rings(&mut self, rings: &[TopoRing<Data>]) -> (Box<[BuildRing]>, i128) {
+        let mut ret: Vec<BuildRing> = Vec::with_capacity(rings.len());
+        let mut total_area2: i128 = 0;
+
+        for (ring, area2) in rings.iter().flat_map(|r| self.clip_ring(r)) {
+            ret.push(ring);
+            total_area2 += area2;
+        }
+
+        (ret.into_boxed_slice(), total_area2)
     }
 
-    /// Returns a clipped version of the given Ring.
+    /// Returns a clipped version of the given Ring, and 2x its area.
     ///
     /// Returns None iff the new ring would have area 0.
-    fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<BuildRing> {
+    fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<(BuildRing, i128)> {
         let mut ret: Vec<BuildDirectedEdge> = Vec::with_capacity(2 * ring.directed_edges.len());
 
         let mut area2: i128 = 0;
@@ -232,7 +240,7 @@ impl<Data: Clone> Builder<Data> {
             // Clipped region has area 0
             None
         } else {
-            Some(BuildRing(ret.into_boxed_slice()))
+            Some((BuildRing(ret.into_boxed_slice()), area2.abs()))
         }
     }
 
-- 
2.43.0


From 49548404353f6516e9b9fc8463663b3ff2f7e3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:40 +0000
Subject: [PATCH 14/21] fix: leave closed edges of fewer than four points alone
 when simplifying

Clipping can produce them by rounding; simplifying them panicked.
---
 src/simplify/simplify_edge.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 960fa3a..b6550db 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -338,6 +338,12 @@ impl PointHeap {
 /// because it's in terms of rectangles. For instance, if you want to err by
 /// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`.
 pub fn simplify_edge(points: &[geo::Point], smallest_area2: u64) -> Box<[geo::Point]> {
+    // Clipping can leave a closed edge of three points: there and back again.
+    // There's no ring left to preserve, and nothing to remove.
+    if points.len() < 4 && points[0] == points[points.len() - 1] {
+        return points.to_vec().into_boxed_slice();
+    }
+
     let mut point_heap = PointHeap::from(points.to_vec());
     point_heap.visvalingam_whyatt(smallest_area2 as u128)
 }
-- 
2.43.0


From c94ac8d3a4df4b80ed81caacddcb5075e578f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:16 +0000
Subject: [PATCH 15/21] fix: normalize rings that simplifying or clipping
 flattened or turned over

Removing points can leave a ring without area or reverse its winding order.
normalize() then took edges for redundant that are not, and panicked with
"Expected Edge to continue past ...".
---
 src/normalize.rs | 75 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index fb4c008..42ef9e1 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -44,6 +44,13 @@ impl<T> NormRing<T> {
 struct NormEdge<T> {
     points: Vec<Point>,
     regions: [ *const TopoRegion<T>; 2 ],
+
+    /// The original edge and its direction.
+    edge: *const TopoEdge<T>,
+    direction: Direction,
+
+    /// `true` iff this NormEdge is between two Rings in the same Region.
+    is_redundant: bool,
 }
 
 impl<T> PartialEq for NormEdge<T> {
@@ -66,12 +73,25 @@ impl<T> NormEdge<T> {
             if edge.rings[1].is_null() { ptr::null() } else { (*edge.rings[1]).region }
         ] };
 
-        NormEdge { points: points, regions: regions }
+        NormEdge {
+            points: points,
+            regions: regions,
+            edge: directed_edge.edge,
+            direction: directed_edge.direction,
+            is_redundant: false, // we'll find out when we know all rings
+        }
     }
 
-    /// `true` iff this NormEdge is between two Rings in the same Region.
-    fn is_redundant(&self) -> bool {
-        self.regions[0] == self.regions[1]
+    fn reverse(&mut self) {
+        self.points.reverse();
+        self.direction = match self.direction {
+            Direction::Forward => Direction::Backward,
+            Direction::Backward => Direction::Forward,
+        };
+    }
+
+    fn is_related_to(&self, other: &NormEdge<T>) -> bool {
+        self.regions == other.regions && self.is_redundant == other.is_redundant
     }
 
     fn into_edge(self) -> Edge {
@@ -83,7 +103,10 @@ impl<T> Clone for NormEdge<T> {
     fn clone(&self) -> NormEdge<T> {
         NormEdge {
             points: self.points.clone(),
-            regions: self.regions
+            regions: self.regions,
+            edge: self.edge,
+            direction: self.direction,
+            is_redundant: self.is_redundant,
         }
     }
 }
@@ -92,7 +115,7 @@ impl<T> Clone for NormEdge<T> {
 /// leftmost/topmost of the input points.
 fn rotate_island_edge<T>(edge: &NormEdge<T>) -> NormEdge<T> {
     match edge.points.iter().enumerate().min_by_key(|&(_, p)| p) {
-        None | Some((0, _)) => { NormEdge { points: edge.points.clone(), regions: edge.regions.clone() } },
+        None | Some((0, _)) => { edge.clone() },
         Some((index, _)) => {
             assert!(edge.points[0] == edge.points[edge.points.len() - 1]);
 
@@ -105,7 +128,7 @@ fn rotate_island_edge<T>(edge: &NormEdge<T>) -> NormEdge<T> {
             points.extend_from_slice(&edge.points[index .. edge.points.len() - 1]);
             points.extend_from_slice(&edge.points[0 .. index + 1]);
 
-            NormEdge { points: points, regions: edge.regions.clone() }
+            NormEdge { points: points, ..edge.clone() }
         }
     }
 }
@@ -164,7 +187,7 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
     for ref edge in edges {
         // Either extend the existing edge or add a new one
         let extended = match ret.last_mut() {
-            Some(ref mut last) if last.regions == edge.regions => {
+            Some(ref mut last) if last.is_related_to(edge) => {
                 last.points.extend_from_slice(&edge.points[1..]);
                 true
             },
@@ -176,7 +199,7 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
         }
     }
 
-    if ret.len() > 1 && ret[0].regions == ret.last().unwrap().regions {
+    if ret.len() > 1 && ret[0].is_related_to(ret.last().unwrap()) {
         // edges[0].points[0] isn't an important point. Join edges[0]
         // and edges[last] into a single edge, edges[0].
         let mut points = ret.last().unwrap().points.clone();
@@ -209,16 +232,16 @@ fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> Option<Win
     }
 }
 
-/// If the given `NormEdge`s form a clockwise ring, return a copy; otherwise,
-/// return a backwards copy.
+/// If the given `NormEdge`s form a ring in the given order (or one that has no
+/// area), return a copy; otherwise, return a backwards copy.
 fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<T>> {
-    if Some(order) == calculate_winding_order_from_edges(edges) {
+    if calculate_winding_order_from_edges(edges).map_or(true, |o| o == order) {
         edges.clone()
     } else {
         let mut ret: Vec<NormEdge<T>> = Vec::with_capacity(edges.len());
         for ref edge in edges {
             let mut new_edge: NormEdge<T> = (*edge).clone();
-            new_edge.points.reverse();
+            new_edge.reverse();
             ret.push(new_edge);
         }
         ret.reverse();
@@ -229,7 +252,7 @@ fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<
 /// Returns an equivalent Vec of `NormRing`s that has the smallest number of
 /// elements possible.
 ///
-/// Rationale: if any `NormEdge` `is_redundant()`, it can be removed to join two
+/// Rationale: if any `NormEdge` `is_redundant`, it can be removed to join two
 /// `NormRing`s together. ASCII art:
 ///
 /// ```ascii
@@ -279,7 +302,7 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
     let mut to_merge: BTreeMap<Point, Vec<NormEdge<T>>> = BTreeMap::new();
 
     for ref ring in rings {
-        let (redundant, useful): (Vec<_>, Vec<_>) = ring.edges.clone().into_iter().partition(|ref e| e.is_redundant());
+        let (redundant, useful): (Vec<_>, Vec<_>) = ring.edges.clone().into_iter().partition(|ref e| e.is_redundant);
 
         match (redundant.len(), useful.len()) {
             (0, _) => {
@@ -377,14 +400,24 @@ fn normalize_region_rings<T>(outer_rings: &[TopoRing<T>], inner_rings: &[TopoRin
             edges.push(NormEdge::<T>::with_directed_edge(directed_edge));
         }
 
-        edges = join_related_edges(&edges);
-        if calculate_winding_order_from_edges(&edges).is_none() {
-            continue; // the ring covers nothing
+        rings.push(NormRing::<T> { edges: wind_edges(&edges, winding_order) });
+    }
+
+    // Find the redundant edges: two rings of this region run along them, in
+    // opposite directions. (They run in the same direction if simplifying or
+    // clipping turned one of the rings over.)
+    let mut n_forward: BTreeMap<*const TopoEdge<T>, i32> = BTreeMap::new();
+    for edge in rings.iter().flat_map(|r| r.edges.iter()) {
+        *n_forward.entry(edge.edge).or_insert(0) += if edge.direction == Direction::Forward { 1 } else { -1 };
+    }
+
+    for ring in rings.iter_mut() {
+        for edge in ring.edges.iter_mut() {
+            edge.is_redundant = n_forward[&edge.edge] == 0;
         }
-        edges = wind_edges(&edges, winding_order);
-        edges = rotate_edges(&edges);
 
-        rings.push(NormRing::<T> { edges: edges });
+        ring.edges = join_related_edges(&ring.edges);
+        ring.edges = rotate_edges(&ring.edges);
     }
 
     rings = join_adjacent_rings(&rings);
-- 
2.43.0


From 112bdf0b3abba95bc297f80ba493fb872010afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:28 +0000
Subject: [PATCH 16/21] fix: a ring of three points encloses nothing, wherever
 in the record it is

The last ring of a record was refused when it had fewer than four points, the
ones before it only when they had fewer than three.
---
 src/read/shapefile/shp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 519fe01..2877ac6 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -229,7 +229,7 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
             return Err(ShpError::ParseError(format!("Record number {} has a ring with points {}-{}, but there are only {} points in the record", record_number, part_start, part_end, num_points)));
         }
 
-        if part_start + 3 > part_end {
+        if part_start + 3 >= part_end {
             return Err(ShpError::ParseError(format!("Record number {} has a ring with points {}-{}, but that's an invalid range", record_number, part_start, part_end)));
         }
 
-- 
2.43.0


From 6779d4d0461f1b8a5dd38b2becc6e68b8dc203ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:02 +0000
Subject: [PATCH 17/21] fix: keep the heap of points in order while simplifying

sift_down() compared the children with the element it started at and not with
the one it had moved, and points did not know their places in the heap before
they were swapped for the first time. So simplify() removed points in the wrong
order and kept others than the most important ones.
---
 src/simplify/simplify_edge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index b6550db..ab1bdc4 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -83,6 +83,7 @@ impl From<Vec<geo::Point>> for PointHeap {
             let area2 = area2(&points[i - 1].geo_point, &points[i].geo_point, &points[i + 1].geo_point);
 
             points[i].weight = area2;
+            points[i].heap_index = i - 1; // the heap starts at points[1]
             points[i].next = &points[i + 1];
             points[i].previous = &points[i - 1];
         }
@@ -134,7 +135,7 @@ impl PointHeap {
             let child = left_child(root);
             let mut swap = root;
 
-            if unsafe { *self.heap[start] > *self.heap[child] } {
+            if unsafe { *self.heap[root] > *self.heap[child] } {
                 swap = child;
             }
 
-- 
2.43.0


From 31635f529752a97b1ce75b7f2896cf5b88930319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:02 +0000
Subject: [PATCH 18/21] fix: drop a ring that clipping left with nothing but a
 hole

When a mask cuts through an enclave that is as wide as the rest of the
region, a hole can end up with the same points as an outer ring of the same
region. Nothing is left of either, but normalize() stored real borders twice
when it tried to merge them.
---
 src/clip/topology.rs | 73 +++++++++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 21 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index b309cf5..4afa3d9 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -30,6 +30,32 @@ impl<Data> BuildRegion<Data> {
 #[derive(Debug)]
 struct BuildRing(Box<[BuildDirectedEdge]>);
 
+/// A BuildRing, its points (some of them twice in a row) and 2x its area.
+struct ClippedRing {
+    ring: BuildRing,
+    points: Vec<Point>,
+    area2: i128,
+}
+
+impl ClippedRing {
+    /// The ring's points in an order that doesn't depend on where it starts and
+    /// which way it runs.
+    fn outline(&self) -> Vec<Point> {
+        let mut points = self.points.clone();
+        points.dedup();
+        if points.first() == points.last() {
+            points.pop();
+        }
+
+        let start = points.iter().enumerate().min_by_key(|&(_, p)| p).map_or(0, |(i, _)| i);
+        points.rotate_left(start);
+        if points.len() > 2 && points[points.len() - 1] < points[1] {
+            points[1 ..].reverse();
+        }
+        points
+    }
+}
+
 #[derive(Debug)]
 struct BuildDirectedEdge {
     edge_id: EdgeId,
@@ -153,39 +179,39 @@ impl<Data: Clone> Builder<Data> {
     }
 
     fn add_region(&mut self, region: &TopoRegion<Data>) {
-        let (outer_rings, outer_area2) = self.clip_rings(&region.outer_rings[..]);
-        let (inner_rings, inner_area2) = self.clip_rings(&region.inner_rings[..]);
+        let mut outer_rings = self.clip_rings(&region.outer_rings[..]);
+        let mut inner_rings = self.clip_rings(&region.inner_rings[..]);
+
+        // If a hole is all that is left of a ring, both are gone.
+        inner_rings.retain(|inner| {
+            match outer_rings.iter().position(|outer| outer.area2 == inner.area2 && outer.outline() == inner.outline()) {
+                Some(i) => { outer_rings.remove(i); false }
+                None => true
+            }
+        });
 
-        // If the holes are all that is left, the region is gone.
-        if outer_rings.len() > 0 && outer_area2 != inner_area2 {
+        if outer_rings.len() > 0 && outer_rings.iter().map(|r| r.area2).sum::<i128>() != inner_rings.iter().map(|r| r.area2).sum::<i128>() {
             self.regions.push(BuildRegion {
                 data: region.data.clone(),
-                outer_rings: outer_rings,
-                inner_rings: inner_rings,
+                outer_rings: outer_rings.into_iter().map(|r| r.ring).collect::<Vec<_>>().into_boxed_slice(),
+                inner_rings: inner_rings.into_iter().map(|r| r.ring).collect::<Vec<_>>().into_boxed_slice(),
             });
         }
     }
 
-    /// Returns a clipped version of the given Rings, and 2x the area they cover.
+    /// Returns a clipped version of the given Rings.
     ///
-    /// May be an empty slice, if no rings remain.
-    fn clip_rings(&mut self, rings: &[TopoRing<Data>]) -> (Box<[BuildRing]>, i128) {
-        let mut ret: Vec<BuildRing> = Vec::with_capacity(rings.len());
-        let mut total_area2: i128 = 0;
-
-        for (ring, area2) in rings.iter().flat_map(|r| self.clip_ring(r)) {
-            ret.push(ring);
-            total_area2 += area2;
-        }
-
-        (ret.into_boxed_slice(), total_area2)
+    /// May be empty, if no rings remain.
+    fn clip_rings(&mut self, rings: &[TopoRing<Data>]) -> Vec<ClippedRing> {
+        rings.iter().flat_map(|r| self.clip_ring(r)).collect()
     }
 
-    /// Returns a clipped version of the given Ring, and 2x its area.
+    /// Returns a clipped version of the given Ring.
     ///
     /// Returns None iff the new ring would have area 0.
-    fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<(BuildRing, i128)> {
+    fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<ClippedRing> {
         let mut ret: Vec<BuildDirectedEdge> = Vec::with_capacity(2 * ring.directed_edges.len());
+        let mut points: Vec<Point> = Vec::new();
 
         let mut area2: i128 = 0;
         let mut start_point: Option<Point> = None;
@@ -220,6 +246,11 @@ impl<Data: Clone> Builder<Data> {
                         Direction::Forward => signed_area2(old_edge.iter()),
                         Direction::Backward => signed_area2(old_edge.iter().rev()),
                     };
+
+                    match de.direction {
+                        Direction::Forward => points.extend(old_edge.iter()),
+                        Direction::Backward => points.extend(old_edge.iter().rev()),
+                    }
                 }
                 None => {
                     // This edge was entirely clipped: there's nothing left to add
@@ -240,7 +271,7 @@ impl<Data: Clone> Builder<Data> {
             // Clipped region has area 0
             None
         } else {
-            Some((BuildRing(ret.into_boxed_slice()), area2.abs()))
+            Some(ClippedRing { ring: BuildRing(ret.into_boxed_slice()), points: points, area2: area2.abs() })
         }
     }
 
-- 
2.43.0


From fe630a6ba89a8d146e58f13c8f6842ae6e4d3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:55 +0000
Subject: [PATCH 19/21] fix: pair the rings on both sides of a crowded edge

Two outer rings of a region that run along the same line are on the same side
of it: when they were made to share a copy of the edge, normalize() took it for
a border within the region and left the real one in place.
---
 src/clip/topology.rs    | 25 ++++++++++++++------
 src/topology/build.rs   | 25 ++++++++++++++------
 src/topology/crowded.rs | 51 ++++++++++++++++++++---------------------
 3 files changed, 61 insertions(+), 40 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 4afa3d9..13b2d99 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -4,7 +4,7 @@ use std::mem;
 use std::ptr;
 use std::vec;
 
-use geo::{Point, signed_area2};
+use geo::{Point, WindingOrder, signed_area2};
 use super::edge::clip_edge;
 use super::types::ClipMask;
 use topology::{Direction, DirectedEdge, TopoEdge, TopoRing, TopoRegion, Topology, split_crowded_edges};
@@ -19,16 +19,26 @@ struct BuildRegion<Data> {
 }
 
 impl<Data> BuildRegion<Data> {
-    /// The ids of all edges this region's rings run along.
-    fn edge_ids(&mut self) -> Vec<&mut EdgeId> {
-        self.outer_rings.iter_mut().chain(self.inner_rings.iter_mut())
-            .flat_map(|r| r.0.iter_mut().map(|de| &mut de.edge_id))
+    /// The ids of all edges this region's rings run along, and whether the region
+    /// is on the right-hand side of the edge.
+    fn edge_ids(&mut self) -> Vec<(&mut EdgeId, bool)> {
+        let outer = self.outer_rings.iter_mut().map(|r| (r, WindingOrder::Clockwise));
+        let inner = self.inner_rings.iter_mut().map(|r| (r, WindingOrder::CounterClockwise));
+
+        outer.chain(inner)
+            .flat_map(|(r, winding_order)| {
+                let BuildRing(ref mut directed_edges, ring_winding_order) = *r;
+                directed_edges.iter_mut().map(move |de| {
+                    let is_forward = de.direction == Direction::Forward;
+                    (&mut de.edge_id, is_forward == (ring_winding_order == winding_order))
+                })
+            })
             .collect()
     }
 }
 
 #[derive(Debug)]
-struct BuildRing(Box<[BuildDirectedEdge]>);
+struct BuildRing(Box<[BuildDirectedEdge]>, WindingOrder);
 
 /// A BuildRing, its points (some of them twice in a row) and 2x its area.
 struct ClippedRing {
@@ -271,7 +281,8 @@ impl<Data: Clone> Builder<Data> {
             // Clipped region has area 0
             None
         } else {
-            Some(ClippedRing { ring: BuildRing(ret.into_boxed_slice()), points: points, area2: area2.abs() })
+            let winding_order = if area2 > 0 { WindingOrder::Clockwise } else { WindingOrder::CounterClockwise };
+            Some(ClippedRing { ring: BuildRing(ret.into_boxed_slice(), winding_order), points: points, area2: area2.abs() })
         }
     }
 
diff --git a/src/topology/build.rs b/src/topology/build.rs
index 0db3952..d89104e 100644
--- a/src/topology/build.rs
+++ b/src/topology/build.rs
@@ -16,16 +16,26 @@ struct BuildRegion<Data> {
 }
 
 impl<Data> BuildRegion<Data> {
-    /// The ids of all edges this region's rings run along.
-    fn edge_ids(&mut self) -> Vec<&mut EdgeId> {
-        self.outer_rings.iter_mut().chain(self.inner_rings.iter_mut())
-            .flat_map(|r| r.0.iter_mut().map(|de| &mut de.edge_id))
+    /// The ids of all edges this region's rings run along, and whether the region
+    /// is on the right-hand side of the edge.
+    fn edge_ids(&mut self) -> Vec<(&mut EdgeId, bool)> {
+        let outer = self.outer_rings.iter_mut().map(|r| (r, WindingOrder::Clockwise));
+        let inner = self.inner_rings.iter_mut().map(|r| (r, WindingOrder::CounterClockwise));
+
+        outer.chain(inner)
+            .flat_map(|(r, winding_order)| {
+                let BuildRing(ref mut directed_edges, ring_winding_order) = *r;
+                directed_edges.iter_mut().map(move |de| {
+                    let is_forward = de.direction == Direction::Forward;
+                    (&mut de.edge_id, is_forward == (ring_winding_order == winding_order))
+                })
+            })
             .collect()
     }
 }
 
 #[derive(Debug)]
-struct BuildRing(Vec<BuildDirectedEdge>);
+struct BuildRing(Vec<BuildDirectedEdge>, WindingOrder);
 
 #[derive(Debug)]
 struct BuildDirectedEdge {
@@ -96,7 +106,8 @@ impl<Data> TopologyBuilder<Data>
     ///
     /// Returns None if the given ring is invalid (area == 0).
     fn build_ring(&mut self, ring: &Ring) -> Option<BuildRing> {
-        if ring.area2() == 0 {
+        let (area2, winding_order) = ring.area2_and_winding_order();
+        if area2 == 0 {
             return None
         }
 
@@ -104,7 +115,7 @@ impl<Data> TopologyBuilder<Data>
             .flat_map(|e| self.build_directed_edge(e))
             .collect();
 
-        Some(BuildRing(directed_edges))
+        Some(BuildRing(directed_edges, winding_order))
     }
 
     /// Returns a BuildDirectedEdge, building a BuildEdge if it is missing.
diff --git a/src/topology/crowded.rs b/src/topology/crowded.rs
index ffe1b72..7d10718 100644
--- a/src/topology/crowded.rs
+++ b/src/topology/crowded.rs
@@ -8,51 +8,50 @@ use std::collections::BTreeMap;
 /// and the outer ring of the region that lies in the hole all end with the same
 /// straight line.
 ///
-/// `regions` is, for each region, the edge ids its rings run along.
+/// `regions` is, for each region, the edge ids its rings run along, and
+/// whether the region is on the right-hand side of the edge.
 ///
 /// Returns the ids of the edges to copy. Append the copies to the edges, in the
 /// given order.
-pub fn split_crowded_edges(n_edges: usize, regions: Vec<Vec<&mut usize>>) -> Vec<usize> {
+pub fn split_crowded_edges(n_edges: usize, regions: Vec<Vec<(&mut usize, bool)>>) -> Vec<usize> {
     let mut n_uses = vec![ 0; n_edges ];
-    for edge_id in regions.iter().flat_map(|edge_ids| edge_ids.iter()) {
+    for &(ref edge_id, _) in regions.iter().flat_map(|edge_ids| edge_ids.iter()) {
         n_uses[**edge_id] += 1;
     }
 
-    let mut crowded: BTreeMap<usize, Vec<(usize, &mut usize)>> = BTreeMap::new();
+    // For each crowded edge, each region's uses of it: [left, right]
+    let mut crowded: BTreeMap<usize, BTreeMap<usize, [Vec<&mut usize>; 2]>> = BTreeMap::new();
     for (region_id, edge_ids) in regions.into_iter().enumerate() {
-        for edge_id in edge_ids {
+        for (edge_id, is_right) in edge_ids {
             if n_uses[*edge_id] > 2 {
-                crowded.entry(*edge_id).or_insert_with(Vec::new).push((region_id, edge_id));
+                crowded.entry(*edge_id).or_insert_with(BTreeMap::new)
+                    .entry(region_id).or_insert_with(|| [ Vec::new(), Vec::new() ])
+                    [is_right as usize].push(edge_id);
             }
         }
     }
 
     let mut copies = Vec::new();
 
-    for (edge_id, uses) in crowded {
-        // Two rings of the same region belong together: the edge lies within
-        // the region, so normalize() can remove it.
-        let mut together = Vec::with_capacity(uses.len());
+    for (edge_id, uses_by_region) in crowded {
+        // If a region is on both sides, its rings belong together: the edge lies
+        // within the region, so normalize() can remove it.
+        let mut together = Vec::new();
         let mut alone = Vec::new();
-        let mut previous: Option<(usize, &mut usize)> = None;
 
-        for (region_id, edge_use) in uses {
-            previous = match previous {
-                Some((id, previous_use)) => {
-                    if id == region_id {
-                        together.push(previous_use);
-                        together.push(edge_use);
-                        None
-                    } else {
-                        alone.push(previous_use);
-                        Some((region_id, edge_use))
-                    }
-                }
-                None => Some((region_id, edge_use)),
-            };
+        for (_, uses) in uses_by_region {
+            let [mut left, mut right] = uses;
+            let n_pairs = left.len().min(right.len());
+
+            alone.extend(left.drain(n_pairs ..));
+            alone.extend(right.drain(n_pairs ..));
+
+            for (left_use, right_use) in left.into_iter().zip(right) {
+                together.push(left_use);
+                together.push(right_use);
+            }
         }
 
-        alone.extend(previous.map(|(_, edge_use)| edge_use));
         together.extend(alone);
 
         // The first two keep using the original
-- 
2.43.0


From 0eebebfad5220c2749c212c3c335bcfa1be227c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:06 +0000
Subject: [PATCH 20/21] fix: end the .dbf field table at its terminator

Bytes after the 0x0d terminator (FoxPro's back link, padding) are not field
definitions: they made up fields, or made opening the file fail.
---
 src/read/shapefile/dbf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index be2a47b..109fa53 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -111,6 +111,7 @@ impl DbfField {
 
 const DBF_HEADER_LENGTH: usize = 32;
 const DBF_FIELD_DESCRIPTOR_LENGTH: usize = 32;
+const DBF_FIELDS_TERMINATOR: u8 = 0x0d;
 
 #[derive(Debug,Copy,Clone)]
 struct DbfHeader {
@@ -251,7 +252,8 @@ fn read_dbf_fields(file: &mut io::Read, encoding: encoding::EncodingRef, dbf_hea
             let mut offset = 1; // 0 is "deleted" flag
 
             for chunk in buf.chunks(DBF_FIELD_DESCRIPTOR_LENGTH) {
-                if chunk.len() != DBF_FIELD_DESCRIPTOR_LENGTH {
+                // The header may go on after the end of the field definitions
+                if chunk[0] == DBF_FIELDS_TERMINATOR || chunk.len() != DBF_FIELD_DESCRIPTOR_LENGTH {
                     break;
                 }
 
-- 
2.43.0


From d56f067678063075e8e31a8d0b01132bbeb6324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:06 +0000
Subject: [PATCH 21/21] fix: report a read error even where the other file has
 ended

The error was reported as a mere difference in record counts, and its kind lost.
---
 src/read/shapefile/shapefile.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/read/shapefile/shapefile.rs b/src/read/shapefile/shapefile.rs
index 4f98a50..c8c7d09 100644
--- a/src/read/shapefile/shapefile.rs
+++ b/src/read/shapefile/shapefile.rs
@@ -163,15 +163,15 @@ impl<R: io::Read, S: io::Read> Iterator for ShapefileReader<R, S> {
 
     fn next(&mut self) -> Option<Self::Item> {
         match (self.shp_reader.next(), self.dbf_reader.next()) {
+            // check for errors
+            (Some(Err(err)), _) => Some(Err(ShapefileError::ShpError(err))),
+            (_, Some(Err(err))) => Some(Err(ShapefileError::DbfError(err))),
+
             // Check for end of files
             (None, None) => None,
             (Some(_), None) => Some(Err(ShapefileError::JoinError("'.shp' file has more records than '.dbf' record".to_string()))),
             (None, Some(_)) => Some(Err(ShapefileError::JoinError("'.dbf' file has more records than '.shp' record".to_string()))),
 
-            // check for errors
-            (Some(Err(err)), _) => Some(Err(ShapefileError::ShpError(err))),
-            (_, Some(Err(err))) => Some(Err(ShapefileError::DbfError(err))),
-
             // we have records!
             (Some(Ok(shape)), Some(Ok(data))) => {
                 Some(Ok(ShapefileRecord {
-- 
2.43.0

