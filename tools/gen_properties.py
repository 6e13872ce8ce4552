#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

HOOK = "cfg(rtbvh_sim): the work size above which a builder hands a subtree to a new thread becomes settable, so that small scenes already build on many threads"
B = "src/builders/binned_sah.rs"; L = "src/builders/locb.rs"; S = "src/builders/spatial_sah.rs"; U = "src/utils.rs"; BM = "src/builders/mod.rs"; BVH = "src/bvh.rs"; FFI = "rtbvh_ffi/src/lib.rs"

p("C01", "Parallel construction yields a well-formed tree that loses no primitive",
  "Whatever the interleaving of the threads that cooperate on a build, construction of valid input returns a tree in which every reference stays inside the stored node and index arrays, no node is reached twice from the root, and leaf ranges never overlap. With the binned and the clustering builder every input primitive is referenced by exactly one leaf; with the spatial builder every primitive is referenced by at least one leaf, no other value is referenced, and the number of references never exceeds the primitive count plus three quarters of it.",
  ["schedules", "inputs", "configurations"],
  "every schedule of the build threads and pool workers, every thread pool size and machine size, every finite non-empty primitive set, each of the three builders, boxes supplied or computed",
  "The tests build one fixed mesh (or 2 triangles) once per builder; with a 1024-primitive spawn threshold most of them never start a second thread, and they see one schedule. validate() only looks for missing primitives, not duplicates, overlaps or shared nodes.",
  [B, L, S, BM, U, BVH],
  [("node pairs are handed out by one atomic counter", "src/builders/mod.rs AtomicNodeStack::allocate"),
   ("disjoint index slices per task", "src/builders/binned_sah.rs run/split_at_mut"),
   ("disjoint reference ranges with split space per task; leaf ranges from one atomic counter", "src/builders/spatial_sah.rs allocate_children/make_leaf"),
   ("all spawned threads are joined before the tree is returned", "src/utils.rs TaskSpawner::run")],
  [("node array", "tree nodes filled in by many threads", "src/builders/*.rs build()"),
   ("primitive index array", "leaf contents", "src/builders/*.rs build()"),
   ("reference arrays", "three per-axis copies of (possibly clipped) primitive references", S)],
  ["Bvh::nodes()", "Bvh::indices()"], HOOK)

p("C02", "Every tree box encloses everything stored below it, for every build schedule",
  "In every tree that construction returns, whatever schedule and pool produced it and whether the boxes were supplied by the caller or computed by the library, the box of every node on the path to a leaf encloses the full box of each primitive in that leaf. For the spatial builder, whose leaves hold clipped pieces, every point of every primitive lies inside all the boxes on the path to at least one leaf that references that primitive.",
  ["schedules", "inputs", "configurations"],
  "every schedule and pool size, every finite primitive set (flat, degenerate, duplicated, far from the origin), each builder, supplied or computed boxes",
  "The tests look only at the root box of one mesh; an inner box that is too small just makes some rays miss, and a box array computed in parallel and put back in the wrong order still encloses everything at the root.",
  [B, L, S, BVH, "src/aabb.rs"],
  [("parallel computation of primitive boxes keeps input order", "src/bvh.rs Builder::construct_*"),
   ("child boxes are unions over the bins or references on their side", "src/builders/binned_sah.rs run; src/builders/spatial_sah.rs apply_*_split"),
   ("merged node box is the union of both inputs", "src/builders/locb.rs cluster"),
   ("clipping of triangles at a plane", "src/builders/spatial_sah.rs SpatialTriangle::split")],
  [("node bounds", "box of each node, written by the thread that splits its parent", "src/builders/*.rs")],
  ["Bvh::nodes()", "Bvh::bounds()"], HOOK)

p("C03", "The tree does not depend on scheduling, machine size or concurrent builds",
  "Building the same primitives again gives the same tree - same shape, same boxes bit for bit, same primitives in corresponding leaves, up to the numbering of nodes and index slots - for every thread schedule, every thread pool size, every processor count reported by the machine (even if it changes during the build) and any number of other builds running at the same time. It is also the same whether the caller passes in the primitives' boxes or lets the library compute them.",
  ["schedules", "configurations", "inputs"],
  "every schedule, pool size, reported processor count and change of it, mix of concurrent builds, builder and finite primitive set",
  "Tests never build twice and compare, run on one machine with one pool and one schedule, and pass boxes in every non-trivial case.",
  [B, L, S, BVH, "src/morton.rs", U],
  [("work is partitioned independently of the processor count", "src/builders/locb.rs cluster (chunks per num_cpus)"),
   ("stable parallel sort of morton codes", "src/morton.rs get_sorted_indices"),
   ("each task's result depends only on its own range", "src/builders/binned_sah.rs, src/builders/spatial_sah.rs"),
   ("ordered parallel collection of boxes", "src/bvh.rs")],
  [("distance matrix / neighbour arrays", "per-chunk state of the nearest neighbour search", L)],
  ["Bvh::nodes()", "Bvh::indices()"], HOOK)

p("C04", "Construction always terminates, in any thread environment",
  "A build of valid input returns a tree within a bounded number of execution steps under every fair schedule, with no deadlock and no livelock: from a plain thread, from inside a worker of a thread pool of any size including one, from many threads at once, with threads stalled for arbitrary stretches and with spurious wake-ups. When it returns, every thread it started has finished.",
  ["schedules", "configurations", "fault_sequences"],
  "every fair schedule, pool size, nesting of builds inside pool tasks, number of concurrent builds, stall and spurious wake-up pattern",
  "A test that passes shows termination of one schedule in the default pool; deadlocks between nested pool work and scoped threads, or missed joins, need particular pools and interleavings.",
  [U, BVH, L, S, "src/morton.rs"],
  [("scoped threads joined in LIFO order", "src/utils.rs run_task/run"),
   ("no pool task waits for another pool task except through the pool's own join", "src/builders/locb.rs, src/bvh.rs, src/morton.rs"),
   ("clustering loop strictly shrinks the number of active clusters", "src/builders/locb.rs build")],
  [("task stack and handles", "pending work and spawned threads of one worker", U)],
  ["return of Builder::construct_*"], HOOK)

p("C05", "Parallel builds and shared reads are free of data races and stray accesses",
  "While a tree is being built by any number of threads, and while any number of threads traverse or convert a finished tree at once, no two threads ever access the same memory without synchronisation when one of them writes. No access ever falls outside a live allocation or uses one that was freed.",
  ["schedules", "inputs", "configurations"],
  "every schedule of build threads, pool workers and readers; every builder, finite primitive set and pool size",
  "The tests cannot observe a data race or a silent out-of-bounds write: the builders share mutable slices through raw pointers whose bounds checks vanish in release builds, and disjointness of the ranges is only a convention.",
  [U, BM, B, L, S, "src/iter.rs", "src/iter_indices.rs"],
  [("shared mutable slice wrapper", "src/utils.rs UnsafeSliceWrapper"),
   ("atomic pair allocation", "src/builders/mod.rs AtomicNodeStack::allocate"),
   ("disjoint [begin, split_end) ranges", "src/builders/spatial_sah.rs allocate_children"),
   ("join before the arrays are read", "src/utils.rs TaskSpawner::run")],
  [("references / prim_indices / accumulated boxes", "arrays written by all build threads", S)],
  ["every memory access of the library, the pool and the standard library"], HOOK)

p("C06", "A failing callback or refused thread surfaces to the caller and damages nothing",
  "If user code called during a build panics at any call, or the operating system refuses a new thread at any point, the build either still returns the correct tree or unwinds into the caller; it never hangs, aborts the process, returns a damaged tree or swallows the user's panic, and no thread it started outlives the call. Other builds running at the same time and later builds in the same process are unaffected.",
  ["fault_sequences", "schedules", "crash_points"],
  "every position of a panic in the sequence of user callbacks, every refused thread start, every schedule around them, each builder, concurrent builds",
  "Tests use callbacks that never fail and never run out of threads, so no unwinding path out of a worker thread is ever executed.",
  [U, BVH, L, S, B],
  [("scope joins all threads before unwinding; unwrap turns a child's panic into the parent's", "src/utils.rs TaskSpawner::run/run_task"),
   ("pool propagates panics of parallel iterators", "src/bvh.rs, src/morton.rs")],
  [("scoped threads", "threads working on subtrees of one build", U)],
  ["return or unwind of Builder::construct_*"], HOOK)

p("T01", "Ray traversal never loses a hit, however caller and readers interleave",
  "While a ray is advanced through a tree (binary or four-wide, by primitive or by index), every primitive that the ray hits nearer than the smallest distance bound the ray held during the traversal has been handed to the caller by its end, whatever the caller did to that bound between candidates. Only primitives of the tree are handed out, traversal ends after finitely many candidates, a slice that lacks some of the tree's primitives costs only those, and it does not matter how many other threads traverse, convert or build trees at the same time or that earlier traversals were abandoned half way.",
  ["schedules", "inputs", "histories"],
  "every tree any builder or conversion produces, every finite ray, every sequence of caller actions between candidates (shrink the bound, leave it, stop early), every schedule of concurrent readers",
  "Tests trace one axis-aligned ray at two triangles and five triangles; missed hits need particular boxes (flat, touching, deep trees), ray directions and orders of bound updates, and nothing traverses concurrently.",
  ["src/iter.rs", "src/iter_indices.rs", "src/aabb.rs", "src/mbvh_node.rs", "src/bvh_node.rs"],
  [("lazy depth-first traversal with explicit stack", "src/iter.rs, src/iter_indices.rs"),
   ("ordered pushing of children", "src/bvh_node.rs sort_nodes; src/mbvh_node.rs intersect"),
   ("slab test", "src/aabb.rs intersect; src/mbvh_node.rs intersect")],
  [("traversal stack, leaf cursor, current wide node", "suspended traversal between two candidates", "src/iter*.rs")],
  ["traverse_iter", "traverse_iter_indices", "from_slices", "IntoRayIterator"])

p("T02", "Packet traversal never loses a hit of any of its four rays",
  "For a packet of four rays, every primitive that some lane's ray hits nearer than the smallest distance bound that lane held during the traversal has been handed to the caller by its end, whatever the other three lanes do, whatever the caller did to the bounds between candidates, and whatever other threads do to the shared tree at the same time. The result of each lane equals that of tracing its ray alone, traversal always ends, and a slice that lacks some of the tree's primitives costs only those.",
  ["schedules", "inputs", "histories"],
  "every tree any builder or conversion produces, every combination of four finite rays, every sequence of caller actions between candidates, every schedule of concurrent readers",
  "No test traverses a packet at all except through a rendering example; lane masks, flat boxes and diverging lanes are never exercised.",
  ["src/iter.rs", "src/iter_indices.rs", "src/aabb.rs", "src/mbvh_node.rs", "src/bvh_node.rs", "src/ray.rs"],
  [("any-lane box test", "src/aabb.rs intersect4; src/mbvh_node.rs intersect4"),
   ("lazy depth-first traversal with explicit stack", "src/iter.rs, src/iter_indices.rs")],
  [("traversal stack, leaf cursor, current wide node", "suspended traversal between two candidates", "src/iter*.rs")],
  ["traverse_iter_packet", "traverse_iter_indices_packet", "from_slices", "IntoPacketIterator"])

p("M01", "The four-wide tree always stands for exactly the binary tree it was made from",
  "Converting a binary tree - freshly built under any schedule, refitted any number of times, shared with other readers, or empty - to the four-wide form gives a tree whose reachable leaves are exactly the leaves of the binary tree, each once, and whose slot boxes let through to each leaf everything that all the binary tree's boxes on the way to that leaf let through. Later changes to the binary tree never alter it, and traversing an empty one simply yields nothing.",
  ["histories", "schedules", "inputs"],
  "every history of build, refit, clear and convert steps, every tree shape from one leaf up, every schedule of concurrent conversions and readers",
  "Tests convert one two-triangle and one five-triangle tree; lopsided shapes, converted-after-refit trees, one-node and empty trees and concurrent conversion are never seen.",
  ["src/mbvh_node.rs", BVH, FFI],
  [("recursive collapse of two levels", "src/mbvh_node.rs merge_nodes"),
   ("construction from a tree or raw slices", "src/bvh.rs Mbvh::construct, construct_from_raw")],
  [("wide node pool", "array of four-wide nodes with bump allocation", "src/bvh.rs Mbvh::construct")],
  ["Mbvh::quad_nodes()", "Mbvh::indices()", "create_mbvh"])

p("R01", "Refitting keeps the tree's shape and yields enclosing boxes after any history",
  "After any sequence of refits, interrupted refits (a panic part way through), conversions and traversals, one complete refit to a set of boxes leaves the tree with the shape and leaf contents it had when it was built, every node's box enclosing the new boxes of all primitives below it, and no hit lost. The outcome depends only on the tree and the last set of boxes, not on the refits before it.",
  ["histories", "crash_points", "schedules"],
  "every sequence of full and interrupted refits on trees of every builder and shape, with readers and conversions of the tree between them",
  "No test refits. A refit that works once but corrupts shape, only ever grows boxes, or cannot recover from an interrupted one needs a multi-step history to show.",
  [BVH, "src/bvh_node.rs"],
  [("bottom-up pass relying on children having higher numbers than parents", "src/bvh.rs Bvh::refit")],
  [("node bounds with packed child and count fields", "box and topology share one record", "src/aabb.rs Aabb, src/bvh_node.rs")],
  ["Bvh::refit", "Bvh::nodes()", "refit (C interface)"])

p("F01", "The C interface's handle registry behaves atomically under concurrent calls",
  "Concurrent create, convert, refit, traverse and free calls from any number of threads behave as if executed one at a time in some order consistent with real time: every successful create returns a handle no other live object has, an operation on one handle sees exactly the operations on that handle, and converting a tree while it is refitted or freed uses its state either entirely before or entirely after. Freeing an unknown or already freed handle has no effect on any other, rejected input returns the error code and creates nothing, and all calls complete.",
  ["schedules", "histories"],
  "every schedule of every mix of calls by several threads on distinct and shared handles, including frees racing with conversions and repeated frees",
  "The one test creates and frees two trees from one thread; handle clashes, lost updates and half-refitted conversions need concurrent calls at particular moments.",
  [FFI],
  [("outer lock around the handle table, inner lock per tree", "rtbvh_ffi/src/lib.rs StructureManager"),
   ("lazily initialised global", "rtbvh_ffi/src/lib.rs MANAGER"),
   ("handles are positions that are never reused", "rtbvh_ffi/src/lib.rs store, free")],
  [("structures, m_structures", "tables of all binary and four-wide trees ever created", FFI)],
  ["create_bvh", "create_spatial_Bvh", "create_mbvh", "refit", "free_bvh", "free_mbvh", "intersect*"])

p("F02", "Pointers inside a C handle stay valid and unchanged until that handle is freed",
  "The node and index arrays a handle exposes stay at the same address with the same contents, apart from boxes changed by refits of that same handle, from the moment the creating call returns until the caller frees that handle, no matter how many other handles are created, converted, refitted or freed meanwhile by any thread. Their lengths describe exactly the tree that was built, and a four-wide handle outlives the tree it was made from.",
  ["schedules", "histories"],
  "every history and schedule of other calls between the creation and the free of a handle, including growth of the registry",
  "The tests use at most two handles and never read their arrays after another call, so a registry that moves, replaces or shares storage on growth would pass.",
  [FFI, BVH],
  [("trees own their arrays; growing the registry moves only the owners", "rtbvh_ffi/src/lib.rs StructureManager::store"),
   ("conversion copies indices and nodes", "src/bvh.rs Mbvh::construct")],
  [("RTBvh / RTMbvh pointers", "raw views into trees owned by the registry", FFI)],
  ["RTBvh.nodes, RTBvh.indices, RTMbvh.nodes, RTMbvh.indices"])

p("F03", "Tracing through C handles from many threads finds what brute force finds",
  "Trees made through the C interface - from tightly packed or padded arrays at any address valid for their element type, with supplied boxes or, for triangles, computed ones - and traced through it by any number of threads, also from inside another trace's callback, while other handles come and go report, per ray and per packet lane, the same closest hit as testing every primitive. The caller's distance is always updated on return, a callback that asks to stop gets no further calls, and buffers are only written where documented.",
  ["schedules", "inputs", "histories"],
  "every schedule of tracing, creating, converting and freeing threads; every stride, alignment and optional box array; every callback decision sequence",
  "The tests trace one ray at two triangles with 16-byte aligned arrays from one thread, and never use packets, strides, the spatial entry point or the stop request.",
  [FFI, "src/iter_indices.rs", "src/mbvh_node.rs"],
  [("conversion of C arrays to library types", "rtbvh_ffi/src/lib.rs create_bvh, create_spatial_Bvh, RTTriangleWrapper"),
   ("callback loop", "rtbvh_ffi/src/lib.rs intersect, intersect_packet, intersect_mbvh, intersect_mbvh_packet")],
  [("caller's arrays", "vertices, centers, boxes, ray components and distances", FFI)],
  ["intersect", "intersect_packet", "intersect_mbvh", "intersect_mbvh_packet"])

p("S01", "A saved tree is restored exactly or refused, whatever the stream does",
  "Writing a tree (binary or four-wide, freshly built, refitted or empty) to a stream that splits, delays, interrupts or fails writes, and reading it back from one that does the same to reads, either reports an error or restores a tree equal in every box, child, count and index that answers every ray identically. A copy cut off at any byte by a crash is refused with an error, never accepted as a smaller or different tree and never a panic.",
  ["fault_sequences", "crash_points", "histories"],
  "every split, interruption and failure position of the writes and reads, every truncation point, every builder and tree history",
  "No test serialises anything; the feature is only compiled. Truncation points and stream faults are not sampled at all.",
  [BVH, "src/bvh_node.rs", "src/mbvh_node.rs", "src/aabb.rs", "src/ray.rs"],
  [("derived serialisation of every field", "src/bvh.rs Bvh, Mbvh; src/aabb.rs; src/mbvh_node.rs")],
  [("serialised tree", "nodes, wide nodes, indices, build type", BVH)],
  ["Serialize / Deserialize of Bvh and Mbvh"], "none in code; built with the shipped 'serde' feature")

p("D01", "Nothing is left behind once trees are dropped and handles are freed",
  "Once a program has dropped its trees, iterators and saved copies and freed its C handles, the library holds no more memory and no more threads than it did before, whatever the schedule was and however often the same work is repeated; the only growth allowed is one small fixed-size registry entry per C handle number. This includes work that did not go well: builds ended by a panic in user code or by a refused thread, refits interrupted half way, traversals abandoned with entries still waiting, handles freed while another thread converts or refits them, and saves or restores that failed on their stream.",
  ["schedules", "histories", "fault_sequences"],
  "every schedule of builds, refits, conversions, traversals, saves, restores and C calls, every interruption of them, any number of repetitions",
  "No test counts memory or threads, repeats work, interrupts a build or a refit, or frees a handle in use elsewhere; a leak shows in no result.",
  [U, BM, BVH, S, FFI],
  [("every thread of a build is joined, also when one of them panics", "src/utils.rs TaskSpawner"),
   ("trees own their arrays; traversal stacks own what they spilled", "src/bvh.rs; src/utils.rs TraversalStack"),
   ("freed handles drop the tree, also with other users of it around", "rtbvh_ffi/src/lib.rs free, free_mbvh")],
  [("heap blocks and threads alive between rounds of the same work", "what the library still owns after everything was given back", BVH)],
  ["drop of Bvh and Mbvh", "into_raw", "free_bvh", "free_mbvh"])

# ---- not simulation targets -------------------------------------------------------------
p("L01", "Leaves respect the requested primitive limit wherever a split is possible",
  "With a leaf limit given, no leaf of a tree from the binned or spatial builder holds more than that many references unless its primitives cannot be told apart by position or the depth limit is reached.",
  ["inputs"], "every finite primitive set and limit",
  "Tests never pass a limit.", [B, S], [("median fallback when splitting does not pay off", "src/builders/binned_sah.rs run; src/builders/spatial_sah.rs run")])
p("A01", "Box arithmetic obeys the algebra of axis-aligned boxes",
  "Growing, uniting, intersecting, shrinking and transforming boxes gives exactly the smallest box containing (or the common part of) the operands, with the empty box as neutral element.",
  ["inputs"], "every pair of finite boxes and points", "No test covers box arithmetic.", ["src/aabb.rs"], [("component-wise min and max", "src/aabb.rs")])
p("O01", "Space-filling-curve codes preserve grid order and locality",
  "Encoding interleaves the bits of the grid coordinates, is monotone in each coordinate within one cell level, and clamps every finite point to the grid.",
  ["inputs"], "every finite point and box", "One test checks four bit patterns.", ["src/morton.rs"], [("bit spreading", "src/morton.rs morton_split")])
p("Y01", "Ray helpers agree with each other",
  "A reflected ray has the mirrored direction and consistent derived fields, and lane i of a packet is the ray the packet was built from.",
  ["inputs"], "every finite ray", "Untested.", ["src/ray.rs"], [("derived inverse direction and signs", "src/ray.rs")])
p("E01", "Invalid build requests are rejected with the matching error",
  "Construction refuses an empty primitive set and a box list of the wrong length with an error naming the cause, and never panics on them.",
  ["inputs"], "every builder and every mismatched pair of lengths", "Tests cover two of the cases for one builder.", [BVH], [("length checks before building", "src/bvh.rs Builder::construct_*")])
p("V01", "The self-check accepts exactly the complete trees",
  "The validation call returns true for a tree that references every primitive and false for one that misses any.",
  ["inputs"], "every tree and primitive count", "Only the positive case on one mesh is tested.", [BVH], [("marking traversal", "src/bvh.rs Bvh::validate")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        assert r["statement"].count(". ") <= 2, r["id"]
        if r["anchors"]["hook_needed"] is None: pass
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
