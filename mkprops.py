#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the lines stay consistent)."""
import json
SHP="src/read/shapefile/shp.rs"; DBF="src/read/shapefile/dbf.rs"; SF="src/read/shapefile/shapefile.rs"; GEO="src/read/shapefile/geo.rs"
BUILD="src/topology/build.rs"; TYPES="src/topology/types.rs"; NORM="src/normalize.rs"; CLT="src/clip/topology.rs"; CLE="src/clip/edge.rs"; SIMP="src/simplify/simplify_edge.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),hook=None,state=()):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":hook}})

p("C01","Records are delivered exactly as stored, however the bytes arrive",
 "Reading an undamaged .shp/.dbf pair delivers exactly the stored header facts (declared length, bounding box, row count, field names), then exactly the stored records in stored order (every ring, every point, every attribute byte, every text, numeric and long value), then the end. The outcome never depends on how the streams hand over the bytes: chunk sizes, interrupted reads, buffering, or other readers running in between.",
 ["inputs","schedules"],"every valid shapefile pair, every split of each stream into reads, every placement of interrupted reads, every interleaving with other readers",
 "The doc-tests read two tiny fixture files through a BufReader that delivers them in one piece; no short read, no interrupted read, no multi-part record, no record crossing a buffer boundary is ever seen.",
 [SHP,DBF,SF],[("read_exact on header, record header and record body",SHP+" read_shp_header/read_polygon_record"),("read_exact on header, field table and rows",DBF+" read_dbf_header/read_dbf_fields/read_dbf_record"),("ring slicing by part index",SHP+" parse_polygon_record")],
 ["ShpReader/DbfReader/ShapefileReader iterators","dbf_fields","get_field","DbfField::read_string"],None,
 [("n_bytes_already_read","how much of the declared file length was consumed",SHP+" ShpReader"),("n_records_already_iterated","rows handed out",DBF+" DbfReader")])
p("C02","A failed or short read is reported and never turns into forged data",
 "If either stream fails, or ends early, at any byte, everything delivered before that point is exactly what was stored and the reader then reports an error that carries the stream's own error kind (unexpected end of file for a short stream) instead of a clean end. Nothing it delivers afterwards is ever anything but a stored record in its own position, even if the stream recovers.",
 ["fault_sequences","inputs"],"every byte offset of either stream, every I/O error kind, transient or persistent, every early end of file, every read schedule around it",
 "No existing test injects a read error or a truncated stream.",
 [SHP,DBF,SF],[("errors of read_exact mapped to IOError",SHP+", "+DBF),("iteration stops after an I/O error","ShpReader/DbfReader/ShapefileReader next")],["Err items of the iterators","Err of the constructors"])
p("C03","Iterating a reader always terminates and the end is final",
 "For every content of the streams and every sequence of read faults, a consumer that keeps asking for records, ignoring errors, reaches the end after a number of calls bounded by the number of bytes the streams supplied (plus a small constant). Once a reader has reported the end it keeps reporting the end.",
 ["fault_sequences","inputs","schedules"],"every file content, damaged or not, every read-fault sequence, every consumer that ignores errors",
 "Tests only iterate two well-formed files to their end; nothing keeps iterating past an error.",
 [SHP,DBF,SF,GEO],[("byte accounting against the declared length",SHP+" ShpReader::next"),("row accounting against the declared count",DBF+" DbfReader::next"),("stop after an unrecoverable error",SF+" ShapefileReader::next")],["next() of ShpReader, DbfReader, ShapefileReader, ShapefileGeoIterator"])
p("C04","Damaged files never crash a reader",
 "Whatever bytes storage returns for a .shp or .dbf file (flipped bits, lost or torn blocks, missing tails, stale length fields, another file's blocks), opening, iterating, ingesting, formatting and decoding attributes never panics, aborts or overflows; damage is either reported as an error or decoded as the bytes that are there.",
 ["inputs","fault_sequences"],"every storage-damage sequence applied to either file, combined with every read schedule",
 "No test reads a damaged file.",
 [SHP,DBF,SF,GEO],[("length checks before slicing",SHP+" parse_polygon_record"),("header sanity checks",DBF+" read_dbf_header/read_dbf_fields"),("field range checks",DBF+" DbfField::read_string")],["all reader entry points, Display of records"])
p("C05","A malformed record is rejected and leaves its neighbours alone",
 "A polygon record whose stored content contradicts itself (not a polygon, no rings, size not matching its counts, ring bounds out of order or beyond its points, a ring of fewer than four points) is reported as a parse error and never delivered as geometry. As long as the record lengths are intact, every other record of the file is still delivered exactly, in its own position and with its own attributes, and the end is reported right after the last one.",
 ["inputs","fault_sequences"],"every choice of damaged records in a file, every kind of in-record damage, every read schedule",
 "No test contains a malformed record, let alone one followed by good ones.",
 [SHP,SF],[("consistency checks",SHP+" parse_polygon_record"),("byte accounting also for rejected records",SHP+" ShpReader::next")],["sequence of Ok/Err items"])
p("C06","Memory stays proportional to the data actually received",
 "A reader never asks for more memory than a fixed allowance plus a small multiple of the bytes its streams have supplied so far; a damaged length or count field cannot make it reserve memory for data that is not there.",
 ["inputs","fault_sequences"],"every file content, in particular every value of every length and count field, and every truncation point",
 "Tests do not look at memory and never store a wrong length.",
 [SHP,DBF],[("record buffer sizing",SHP+" read_polygon_record"),("capacity only after the size check",SHP+" parse_polygon_record"),("16-bit header and row sizes",DBF)],["allocations made while a reader call runs"])
p("C07","Each geometry keeps its own attribute row",
 "Reading a .shp and .dbf together pairs the n-th geometry with the n-th attribute row, always: after rejected records, under any read schedule of the two streams and whatever the other stream is doing. If one file has more records than the other, all complete pairs are delivered and then an error is reported, never a silent end and never a row paired with another record's geometry.",
 ["inputs","schedules","fault_sequences"],"every pair of record counts, every set of rejected records, every pair of read schedules and read faults",
 "The only joined file in the tests has equal counts, no bad record and no faults.",
 [SF],[("lock-step advance of both readers",SF+" ShapefileReader::next"),("count mismatch detection",SF+" JoinError")],["ShapefileReader::next, ShapefileGeoIterator::next"])
p("C08","Attribute values are the stored ones or an error, also across threads",
 "Reading a field of a record gives exactly the stored value of that field in that record (text without its trailing padding, numbers without their leading padding, valid in the declared encoding) or an error when the stored bytes are not a value of the field's type (a number is an optional minus sign, digits and, optionally, a point and more digits); it never panics and never returns text outside the field's own bytes. Printing a record shows these values in the order of the fields. This stays true when records and fields are shared by several threads that read them at the same time, including the very first use in the process.",
 ["inputs","schedules"],"every stored row (damaged or not), every field layout, every interleaving of threads reading shared records",
 "Doc-tests read two ASCII strings from one thread.",
 [DBF],[("offset/length slicing and padding removal",DBF+" read_string, trim_end_spaces"),("validation before unchecked conversion",DBF+" dbf_numeric_to_valid_string"),("lazily initialised shared matcher",DBF+" lazy_static")],["DbfField::read_string","Display of DbfRecord"])
p("C09","Ingest maps every stored ring to the u32 grid faithfully",
 "Reading a shapefile as regions gives one region per record, in order and with that record's attributes; each ring keeps all its points in order, mapped linearly (to within one unit) from the file's bounding box onto the whole u32 range with the left edge and the top edge at 0, and rings that run clockwise in that space are the outer rings, the others the inner rings, each list in stored order. This holds for rings of any size and position, under any read schedule, and read errors come through in position.",
 ["inputs","schedules","fault_sequences"],"every bounding box and ring, every read schedule and fault placement",
 "No test runs the ingest at all.",
 [GEO,"src/geo/mod.rs"],[("quantizer",GEO+" ShapefileQuantizer"),("winding order by signed area","src/geo/mod.rs signed_area2")],["ShapefileGeoIterator::next"])
p("C10","Every topology is a closed, correctly linked graph",
 "After building, and after any sequence of normalizing, clipping and simplifying, each ring is a closed chain of edges that belong to the same topology, each edge names exactly the rings that run along it (at most two), and each ring names the region it belongs to. This holds wherever the allocator places or moves memory and whatever the hash seeds are, and it keeps holding when the topology value is moved or the topology it was made from is dropped; normalizing and clipping leave the topology they are given unchanged.",
 ["histories","schedules","configurations"],"every history of operations on every valid polygon coverage, every allocator behaviour (placement, moving reallocation, reuse of freed memory), every hash seed",
 "The tests check a few links of single operations on 1-3 polygons, with the default allocator's lucky in-place behaviour.",
 [BUILD,TYPES,NORM,CLT,"src/simplify/mod.rs"],[("raw links set after elements reach their final place",BUILD+" into_topology"),("same for clipping",CLT+" into_topology"),("edge lookup by address",CLT+" find_old_edge_id")],["Topology.regions/edges after each operation"])
p("C11","Region data is conserved exactly, even when the caller's clone fails",
 "Building, normalizing and clipping keep every surviving region's data, attached to that region and in the order regions were added; each value is dropped exactly once and all memory is released. If cloning a value panics part-way through an operation, the source topology is untouched and usable, and no value or memory is lost or freed twice.",
 ["histories","fault_sequences"],"every history of operations, every point at which the caller's Clone can panic",
 "Tests use unit or integer data that can neither fail nor be counted.",
 [BUILD,NORM,CLT],[("data moved into builders and cloned per region",BUILD+" add_region, "+NORM+" normalize, "+CLT+" add_region")],["TopoRegion.data","drop counts of the caller's data","allocator balance"])
p("C12","Topologies do not depend on hash seeds, memory layout or other threads",
 "The same regions and operations always give the identical topology (regions, rings, edges, their order, directions and points), whatever the process's hash seeds, wherever memory is allocated, and whatever other threads are building, reading or clipping at the same time.",
 ["schedules","configurations","histories"],"every hash seed, allocator behaviour and interleaving of concurrent pipelines, for every operation history",
 "Each test builds one topology once, on one thread, with one random hash seed, and mostly compares counts.",
 [BUILD,CLT,NORM],[("edges put in insertion order after hashing",BUILD+" into_topology"),("clip edges put in id order",CLT+" NewEdgeSet::into_iter"),("no shared mutable state","whole crate")],["complete Topology contents"])
p("C13","Regions keep covering the same ground through build, normalize and clip",
 "For any valid coverage of non-overlapping polygons, read from a file or added directly, each region of the built topology covers exactly the area its polygons cover; normalizing changes no region's area, merging adjoining parts of a region and leaving outer rings clockwise and holes counter-clockwise; clipping keeps exactly the part of each region on the mask's side (to within one unit at the cut) and drops the regions with nothing left. This holds in every order of operations and in every environment (read schedule, hash seed, allocator behaviour, concurrent pipelines).",
 ["histories","schedules","configurations","inputs"],"every history of build/normalize/clip (and simplifying at threshold 0, which only drops points on straight lines) over every valid coverage, under every simulated environment",
 "Each test applies one operation to a hand-drawn shape of at most three triangles near the origin.",
 [BUILD,NORM,CLT,CLE,"src/clip/types.rs"],[("zero-area filtering",BUILD+" build_ring"),("merging of adjoining rings",NORM+" join_adjacent_rings"),("half-plane clipping and gap plugging",CLE+" clip_edge, "+CLT+" clip_ring")],["rings and points of every region"])
p("C14","Neighbouring regions keep sharing one and the same border",
 "In any topology, a stretch of border between two neighbouring regions is stored once and used by both; normalizing, clipping and simplifying in any order keep it that way, so no operation opens a gap or an overlap. Simplifying never moves or removes the end points of a border, only drops points in between without reordering the rest, leaves every ring's sequence of borders unchanged, and never collapses a closed border to fewer than four points.",
 ["histories","configurations"],"every history of operations over every valid coverage in which no region touches itself at a single point, in every environment; once simplifying has made borders cross or moved a hole out of its region, only what is said about simplifying itself",
 "Sharing is asserted for one edge of two triangles; nothing checks it after a sequence of operations.",
 [BUILD,NORM,CLT,SIMP],[("canonical edge direction and deduplication",BUILD+" build_directed_edge"),("same joining of border pieces on both sides",NORM+" join_related_edges"),("per-edge clipping",CLT+" Builder::new"),("per-edge simplification","src/simplify/mod.rs")],["TopoEdge.points, TopoEdge.rings, ring edge sequences"])
p("C15","Opening by path reads the right two files, reports failures, leaks nothing",
 "Opening a shapefile by its path reads exactly that .shp file and the .dbf file of the same name beside it, with the same results as reading their bytes from memory; a missing or unreadable file, or any failing system call on either, is reported as an error from the right file. Every file descriptor opened is closed again once the reader is dropped or opening has failed, and is never used afterwards.",
 ["fault_sequences","inputs","configurations"],"every path shape, every failing or interrupted open/read system call, every point at which the consumer stops and drops the reader",
 "Doc-tests open existing fixture files whose reads all succeed.",
 [SF,SHP,DBF,"src/read/shapefile/mod.rs"],[("extension replacement",SF+" open"),("descriptor ownership by BufReader<File>",SHP+" open, "+DBF+" open")],["open, open_ascii, open_utf8, open_windows1252, shp::open, dbf::open, dbf::open_ascii"])
p("C16","Simplification removes exactly the points Visvalingam's rule removes",
 "Simplifying a topology drops, border by border, exactly the interior points whose effective weight (twice the triangle area a point spans with its present neighbours, but never less than that of a point dropped before it) is at most the threshold, least important first; all other points stay. A closed border always keeps at least its two most important points besides its end point. Where points are equally important any order among them is right. This holds at every step of a history and wherever the allocator places, moves or reuses the memory of the points being ranked.",
 ["histories","configurations","inputs"],"every border and threshold that a history of build/normalize/clip/simplify over a valid coverage produces, under every allocator behaviour",
 "Six hand-made edges of at most five points are tested, each with one threshold and the default allocator, so the heap of raw pointers never has more than three elements.",
 [SIMP,"src/simplify/mod.rs"],[("heap of raw pointers into a linked list of points",SIMP+" MinHeap, visvalingam_whyatt"),("per-edge simplification","src/simplify/mod.rs")],["TopoEdge.points before and after simplify"],None,
 [("heap_index","where in the heap a point is, so that it can move when its neighbour is dropped",SIMP)])
p("C17","Normalizing gives one canonical form, whatever the history or division",
 "After normalizing, at any point of a history, no two rings of a region share an edge, no two consecutive edges of a ring separate the same pair of regions, every ring starts at its leftmost/topmost node and the rings of a region are in the order of that node; normalizing again changes nothing at all; and the same regions, divided into parts, rings and edges in any other way, have the identical normal form.",
 ["histories","inputs","configurations"],"every history of operations over every valid coverage (no region touching itself at a single point, no line along which clipping makes more than two rings run), every way to divide the same regions into rings and edges, every environment",
 "Nine small hand-drawn topologies are normalized once each; none is normalized again, and no two divisions of the same ground are compared.",
 [NORM],[("merging of adjoining rings",NORM+" join_adjacent_rings"),("joining of border pieces",NORM+" join_related_edges"),("rotation and sorting",NORM+" rotate_edges, sort of rings")],["complete Topology contents after normalize"])
# --- not simulation targets -------------------------------------------------
p("C18","Area, winding and crossing arithmetic is exact over the whole u32 range",
 "Twice the signed area, the winding order and the crossing point of a segment with a mask are the mathematically correct values (crossings truncated to the grid) for all u32 coordinates.",
 ["inputs"],"all u32 coordinates","Tests use coordinates below 200.",
 ["src/geo/mod.rs","src/clip/types.rs"],[("shoelace formula","src/geo/mod.rs signed_area2"),("linear interpolation","src/clip/types.rs intersect")],["signed_area2, area2, winding_order, ClipMask::intersect"])
p("C19","Operations scale linearly with input size",
 "Reading, building, normalizing, simplifying and clipping take time proportional to the input size, up to logarithmic factors.",
 ["inputs"],"all input sizes","Tests use tiny inputs and measure nothing.",
 [BUILD,NORM,CLT,SIMP],[("hash maps and heaps",BUILD)],["running time"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
