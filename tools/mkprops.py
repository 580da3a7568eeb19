#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, obs):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=obs, hook_needed=None)))
NOTEST = "No stable test links the sub-pixel map library at all; a test could only sample a few maps and orders of operations, "
HX = "src/geomap/cppmap.hxx"
CPP = "src/geomap/cppmap.cxx"; HPP = "src/geomap/cppmap.hxx"; UT = "src/geomap/cppmap_utils.hxx"; UTC = "src/geomap/cppmap_utils.cxx"
CR = "src/geomap/crackedgemap.cxx"; CRH = "src/geomap/crackedgemap.hxx"; PO = "src/geomap/polygon.hxx"

p("C01", "The map stays one consistent planar map under every history",
  "After any sequence of successful, vetoed or rejected operations the dart successor and predecessor relations are mutually inverse permutations whose orbits are exactly the darts leaving each node, every edge joins two existing nodes and separates existing faces, and every contour walk closes with one and the same face on its left. Every face lists each of its contours exactly once, with the outer contour (positive area) first for finite faces and no outer contour for the infinite face. The reported numbers of nodes, edges and faces equal the number of existing cells and satisfy Euler's formula.",
  ["histories", "inputs"], "all planar maps and all sequences of node/edge insertion, edge splitting, edge merging, bridge removal, face merging and node removal",
  NOTEST + "while the invariant must survive every order of operations on every topology (loops, bridges, nested holes, rings).",
  [CPP, HPP], [("sigma mapping", "successor of each dart around its node", HPP), ("face anchors", "one dart per contour, outer contour first", HPP), ("cell counters", "number of existing nodes/edges/faces", HPP)],
  [("local re-linking of the dart orbits in each Euler operation", CPP), ("anchor maintenance in face merging, bridge removal and edge merging", CPP)],
  ["Dart traversal (next/prev sigma, phi)", "Face contour lists", "nodeCount/edgeCount/faceCount"])

p("C02", "Initialisation finds the faces of the embedded graph and nests holes right",
  "Initialising a map from any planar embedded graph creates exactly one finite face per positively oriented contour, plus the infinite face, and gives both sides of every edge the face they really bound. Every other contour (connected component seen from outside, including trees of bridges) is listed as a hole of the innermost face that geometrically contains it, with and without a label image. Initialising a second time, or changing the edge order or adding edges afterwards, is refused.",
  ["inputs", "configurations"], "all planar embedded graphs (several components, nesting depth, trees, loops, geometry leaving the image) and both label-image settings",
  NOTEST + "while nesting must be right for every arrangement of components, including equal-area and zero-area contours.",
  [CPP], [("faces", "one per positively oriented contour", CPP)],
  [("contour extraction followed by embedding in order of decreasing area", CPP)], ["Face contours and left/right faces after initializeMap"])

p("C03", "Edges are ordered by angle around every node",
  "Sorting the edges makes every node's dart orbit run once counter-clockwise (as seen in the image) through all darts leaving that node, ordered by the direction of their first segment, for any number and order of insertion of edges, loops included. If two darts leave a node in exactly the same direction the call is refused instead of producing an arbitrary order. Explicitly given dart orders are taken over exactly, in both traversal directions.",
  ["inputs", "histories"], "all nodes of any degree, all edge directions, all insertion orders and explicit insertion positions",
  NOTEST + "and an order that is wrong for one pair of directions only shows up on maps with just that pair.",
  [CPP], [("sigma mapping", "cyclic order around nodes", CPP)], [("angle comparison and orbit rebuild in the direct sort; sigma import", CPP)], ["nextSigma/prevSigma after sorting"])

p("C04", "Merging two faces removes one edge and unites exactly these two faces",
  "Merging the faces on both sides of a non-bridge edge removes exactly that edge and one of the two faces; the infinite face always survives. The survivor owns all contours, holes, pixels, area and bounding box of both faces and is on the side of every edge where either of them was; a node is removed only if it became isolated. All other cells, labels, positions, flags and geometries stay unchanged, and the merged label resolves to the survivor in the label table.",
  ["histories", "inputs"], "every non-bridge dart of every reachable map, including loops, rings around larger faces, faces sharing several edges and the infinite face",
  NOTEST + "and the interesting cases (anchors on the removed edge, hole contours, survivor inside the removed ring) need particular topologies.",
  [CPP], [("survivor's contours", "union of both contour lists", CPP)], [("anchor reuse and transfer, relabelling of the merged contours", CPP)], ["return value, face contours, left/right faces, area, bounding box, label table"])

p("C05", "Removing a bridge removes just that edge and keeps the surrounding face",
  "Removing a bridge removes exactly that edge and those end nodes that became isolated; no face disappears or changes its area. If the bridge connected two parts of a contour, the face afterwards has one contour more, the outer one still being the one that encloses the face; if it was a dangling edge the contour stays, and if it was a lone edge the contour disappears. A non-bridge is refused.",
  ["histories", "inputs"], "every bridge dart of every reachable map (dangling, connecting, isolated edge, on outer or hole contour)",
  NOTEST + "and the effect depends on the position of the contour anchor and on which side is the outer one.",
  [CPP], [("face contours", "contour list of the surrounding face", CPP)], [("anchor selection by contour area after detaching both darts", CPP)], ["return value, face contours, nodes"])

p("C06", "Splitting and merging edges preserve geometry and are inverse to each other",
  "Splitting an edge yields two edges that meet in one new degree-two node, together run through the old point sequence (plus the requested point), keep the old direction, flags and both faces, and take the old place around the end nodes. Merging the two edges at a degree-two node yields one edge with the survivor's label, direction and flags whose points are the concatenation of both, in the place of both in the orbits of the outer end nodes. Splitting and merging back restores the original map up to labels.",
  ["histories", "inputs"], "all edges (open, loops), all split positions, all four relative orientations, all dart arguments, all reachable maps",
  NOTEST + "and each of the orientation/loop/dangling combinations takes a different path.",
  [CPP], [("edge polyline", "support points of an edge", HPP)], [("concatenation in four orientations; orbit surgery in split and merge", CPP)], ["edge points, end nodes, orbits, contours"])

p("C07", "The label image always agrees with the geometry",
  "With a label image, at every moment of every history each pixel that no edge passes through carries the label of the face it lies in, and each pixel whose interior is crossed by edges carries minus the number of crossing edges. Each face's pixel count equals the number of pixels with its label, and merged labels keep resolving to the surviving face. Switching the label image off and on again reproduces exactly this state. (Moving a node's position is outside this guarantee: it does not update the image.)",
  ["histories", "inputs", "configurations"], "all maps, all operation histories, edges inside or partly outside the image, label image created at initialisation or later",
  NOTEST + "and the image is maintained incrementally, so an error appears only after particular overlaps of edges in one pixel.",
  [CPP, PO, "src/geomap/labellut.hxx"], [("label image", "face label or negative edge count per pixel", HPP), ("pixel area", "number of pixels per face", HPP)],
  [("scanline coverage added/removed with each edge change", CPP), ("label table redirecting merged labels", "src/geomap/labellut.hxx")], ["labelImage, pixelArea, faceLabelLUT"])

p("C08", "Callbacks see every change in order and a vetoed or invalid call changes nothing",
  "For every operation the pre-operation callbacks run before anything visible changes and the post-operation callbacks after everything is updated, exactly once each, in the documented order and with the documented arguments (the dart's right face is merged into its left face; newly uncovered pixels are reported exactly once with the face that got them). If a pre-operation callback refuses, or a precondition is violated, the operation reports failure and the map, including its label image, is unchanged.",
  ["histories", "fault_sequences"], "all operations at all points of all histories, with any callback refusing at any time, and all invalid arguments (removed darts, bridges, degree != 2, out-of-range positions)",
  NOTEST + "with veto points multiplying the number of histories.",
  [CPP, HPP], [("signals", "callback lists per operation", HPP)], [("pre-callbacks evaluated before mutation; preconditions", CPP)], ["callback log, return value or exception, full map state"])

p("C09", "Reported lengths, areas and bounding boxes always match the current geometry",
  "At every moment of every history the length, partial area and bounding box reported for an edge, and the area and bounding box reported for a face, equal the values computed afresh from the current points, no matter when they were queried before. Contour area, length and point list agree with the edges on that contour, and the signed areas of all faces, the infinite one included, add up to zero.",
  ["histories", "inputs"], "all interleavings of queries with splits, merges, removals, node moves and point edits",
  NOTEST + "and a stale cache needs a particular query/modify/query order.",
  [CPP, HPP, PO], [("cached length/area/bounding box", "lazily computed values with validity flags", HPP)], [("incremental cache updates and invalidation", PO)], ["Edge.length/partialArea/boundingBox, Face.area/boundingBox, contour functions"])

p("C10", "Point location returns the face that contains the point",
  "For every map state and every position not on an edge, looking up the face at that position returns the unique face containing it (the infinite face outside everything), and asking a face whether it contains the position answers yes for exactly that face. The answer does not depend on whether a label image exists or whether the position lies inside the image.",
  ["inputs", "histories"], "all positions, all reachable maps, with and without label image",
  NOTEST + "and the shortcut through the label image makes errors depend on sub-pixel positions.",
  [CPP, HPP, PO], [("label image", "shortcut for whole pixels", HPP)], [("label lookup, else point-in-contour tests against outer contour and holes", HPP)], ["faceAt, Face.contains"])

p("C11", "Nearest-node queries are exact at all times",
  "For every history of node insertions, moves and removals, the nearest-node query returns an existing node at minimal distance to the given position, or nothing if no existing node lies within the given maximal distance. Moving a node moves the end points of exactly the edge ends attached to it.",
  ["histories", "inputs"], "all sets of nodes and query positions, all histories of insertion, move, split, merge and removal, several nodes sharing one coordinate",
  NOTEST + "and a stale index entry is only visible near a removed or moved node.",
  [CPP, HPP, "src/geomap/vigra/map2d.hxx"], [("position index", "nodes ordered by position", "src/geomap/vigra/map2d.hxx")], [("index update on node creation, move, removal; two-sided search", "src/geomap/vigra/map2d.hxx")], ["nearestNode"])

p("C12", "A copy of a map is equal and independent",
  "Copying a map at any point of any history yields a map with the same labels, geometry, orbits, faces, contours, flags, areas, pixel counts, label image and label table. Any later operation on one of the two leaves the other unchanged, and the copy supports exactly the operations the original supports, with equal results.",
  ["histories"], "all reachable states and all continuations on either copy",
  NOTEST + "and sharing between copies only shows after a mutation of the right part.",
  [CPP, HPP], [("whole map", "cells, orbits, label image", HPP)], [("deep copy constructor", CPP)], ["all queries on both maps"])

p("C13", "Face relabelling renames faces and nothing else",
  "Changing the face labels by any injective assignment (which keeps 0 for the infinite face) renames every existing face, both sides of every edge and every pixel of the label image accordingly and leaves everything else unchanged, and later operations work as before under the new names. An assignment that is not injective, out of range or of the wrong size is refused without any change.",
  ["inputs", "histories"], "all injective and all invalid assignments on all reachable maps, with and without label image, before and after merges",
  NOTEST + "and mistakes only show when labels were merged before or a later operation uses the label table.",
  [CPP], [("face labels", "labels in faces, edges, image and table", CPP)], [("one-to-one renaming and reset of the label table", CPP)], ["all face labels"])

p("C14", "The label table resolves every label to its final representative",
  "After any sequence of merges each label resolves to the representative obtained by following all merges, and listing the labels merged into a representative yields exactly the labels that resolve to it, each once. Re-initialising or appending a label yields fresh labels that resolve to themselves.",
  ["histories"], "all merge sequences of representatives, re-initialisations and appends",
  "No stable test touches the table; the number of merge orders is exponential.",
  ["src/geomap/labellut.hxx"], [("label table", "label -> representative", "src/geomap/labellut.hxx"), ("merge list", "chain of merged labels", "src/geomap/labellut.hxx")], [("list splicing on relabel", "src/geomap/labellut.hxx")], ["operator[], merged iterator"])

p("C15", "A crack-edge map reproduces the regions of its label image",
  "For every label image the crack-edge map has exactly one finite face per connected region of equal labels (4-connected, or 8-connected with crossings resolved in favour of the higher label), covering exactly the pixels of that region. Its edges run along the pixel borders between different regions and around the image only, its nodes are the points where at least three edge ends meet (one node on otherwise closed edges), exactly the edges on the image border are marked as border edges, and every face reports the source label of its region. Moving the edges to mid-crack positions keeps topology, node positions of branching nodes and the planar order.",
  ["inputs", "configurations"], "all label images of all sizes, both connectivities",
  NOTEST + "and configurations at pixel corners are combinatorial.",
  [CR, CRH, "src/geomap/vigra/crackconnections.hxx"], [("crack connections", "bits per pixel corner", CRH)], [("crack tracing from nodes and closed loops", CR)], ["faces, edges, nodes, border flags, source labels"])

p("C16", "Protected edges survive",
  "While edge protection is attached to a map no operation removes a protected edge or merges two edges with different flags, whether called directly or from compound operations; the refused operation changes nothing. Unprotected edges are unaffected, and after detaching the protection all operations work again.",
  ["histories"], "all flag assignments, all operations and compound operations, attach/detach at any time",
  NOTEST + "for all combinations of flags and operations.",
  [UT], [("edge flags", "protection bits", HPP)], [("callbacks refusing removal and merging", UT)], ["operation results, map state"])

p("C17", "Compound simplifications equal their elementary steps",
  "Removing a set of edges removes exactly those edges (but for vetoed ones), after which no isolated node and no mergeable degree-two node is left; removing all bridges leaves no bridge, merging degree-two nodes leaves none but lone loops, and merging two faces completely leaves no edge between them. Faces are united exactly as the removed edges dictate, the returned counts equal the number of elementary operations that succeeded, and the order in which edges are given does not matter for the resulting partition.",
  ["inputs", "histories"], "all maps, all edge sets and orders, all vetoes",
  NOTEST + "over all edge subsets.",
  [UT, UTC], [("map", "whole map", HPP)], [("edge classification into bridges and face separators, cleanup passes", UTC)], ["map state, return counts"])

p("C18", "Polygons behave as point sequences with exact derived values",
  "For every sequence of edits (append, extend, insert, erase, set, split, reverse, swap, copy) a polygon holds exactly the points the edits describe, and at any time its length, partial area, bounding box, closedness, arc lengths and centroid equal the values computed from these points, whatever was queried before, and the nearest-point query returns a closest point of the polyline. Splitting yields two polygons sharing the split point, and reversing negates the area only.",
  ["histories", "inputs"], "all edit and query interleavings over all point values",
  "No stable test touches polygons; a stale value needs a particular query/edit/query order.",
  [PO], [("points and cached values", "sequence and lazily computed properties", PO)], [("incremental cache updates", PO)], ["points, length, partialArea, boundingBox"])

p("C19", "Scan conversion and point tests match the exact polygon",
  "Scanning a polyline reports exactly the pixels whose interior it passes through; filling a closed simple counter-clockwise polygon (with or without holes whose scanlines are merged in) sets exactly the pixels lying entirely inside it, clipped to the image, and reports their number; for clockwise polygons the reversed scanlines do the same. The point-in-polygon test is right for every point not on the polygon.",
  ["inputs"], "all polylines/polygons and image sizes, including vertices on pixel borders, horizontal runs and parts outside the image",
  "No stable test touches scan conversion; borderline vertices are combinatorial.",
  [PO], [("scanlines", "pixel intervals per row", PO)], [("row-wise interval tracing and joining", PO)], ["scanPoly, fillScannedPoly, drawScannedPoly, Polygon.contains"])

p("C20", "A pixel-based map partitions its image into cells",
  "Building the pixel map from any boundary image assigns every pixel of the framed image to exactly one existing node, edge or face, in accordance with the boundary image; pixel counts and bounds of every cell equal those of its pixels. Every node's darts, every edge's two ends and every face's contours are mutually consistent, the reported maximal labels and counts are right and Euler's formula holds.",
  ["inputs"], "all boundary images (any size, touching the border, thick lines handled by the documented configuration rules)",
  "The stable tests count cells on seven fixed images; local pixel configurations are combinatorial.",
  ["src/cellimage/foureightsegmentation.cxx", "src/cellimage/foureightsegmentation.hxx", "src/cellimage/cellconfigurations.hxx"], [("cell image", "cell type and label per pixel", "src/cellimage/cellimage.hxx"), ("cell infos", "anchor, bounds, size, degree", "src/cellimage/foureightsegmentation.hxx")],
  [("labelling passes and contour following", "src/cellimage/foureightsegmentation.cxx")], ["cell image, node/edge/face lists"])

p("C21", "Euler operations on pixel maps move pixels between cells and nothing else",
  "Each operation on a pixel map (face merging, bridge removal, edge merging, isolated node removal) relabels exactly the pixels of the cells it removes to the surviving cell, updates pixel counts, bounds, degrees and counts accordingly and leaves all other cells untouched; the result is again consistent. Invalid calls are refused without any change.",
  ["histories", "inputs"], "all operation histories on all pixel maps",
  "The stable tests run a few operations on fixed images.",
  ["src/cellimage/foureightsegmentation.cxx", "src/cellimage/foureightsegmentation.hxx"], [("cell image and infos", "see C20", "src/cellimage/foureightsegmentation.hxx")], [("relabelling and info union in each operation", "src/cellimage/foureightsegmentation.cxx")], ["cell image, cell infos"])

p("C22", "Every level of a segmentation pyramid can be revisited exactly",
  "For any sequence of operations, composite operations, cuts and level changes, each pyramid level equals the map obtained by applying the recorded operations up to that level to the base map, whichever way it is reached (directly, stepwise, forwards, backwards, from copies). The number of levels grows by one per operation or composite, cutting removes exactly the levels above, and a failed operation leaves levels and history as they were.",
  ["histories"], "all interleavings of operations, composites, failures, cuts and level accesses, across checkpoint intervals",
  "No stable test builds a pyramid; checkpoints and composites interact over long histories.",
  ["src/cellimage/cellpyramid.hxx"], [("history", "recorded operations", "src/cellimage/cellpyramid.hxx"), ("checkpoints", "stored levels", "src/cellimage/cellpyramid.hxx"), ("top level", "current apex", "src/cellimage/cellpyramid.hxx")],
  [("replay from nearest checkpoint", "src/cellimage/cellpyramid.hxx")], ["level contents, level count"])

p("C23", "Face statistics always describe the current faces",
  "While attached to a map, the per-face statistics (pixel count, mean, biased and unbiased variance) equal those of the image pixels currently carrying the face's label, after every history of merges, bridge removals, vetoed operations and pixel associations. Only finite faces with fewer pixels than the requested minimum are estimated by sub-pixel sampling; their number is reported correctly, and they turn exact as soon as they have enough pixels or are merged with an exact face. Region images and face differences follow from these statistics (the homogeneity of two faces is the difference of their means times the square root of the product over the sum of their areas), a copy attached to a copied map is independent of the original, detached statistics no longer change, and destroying statistics leaves the map fully usable.",
  ["histories", "inputs"], "all images, all operation histories, all minimal sample counts",
  "No stable test touches face statistics; they are updated incrementally.",
  ["src/geomap/facestatistics.hxx"], [("accumulators", "count/mean/variance per face", "src/geomap/facestatistics.hxx")], [("callback-driven merge, rescan and pixel association", "src/geomap/facestatistics.hxx")], ["pixelCount, average, variance"])

p("C24", "Pickling a map and loading it back preserves it",
  "For every reachable map, serialising it and loading it back yields a map with the same nodes, edges, labels (gaps included), geometry, dart orbits, edge and face flags, face labels and contours, sortedness, initialisation state and label image. The reloaded map supports the same operations with equal results.",
  ["histories", "inputs"], "all maps in all initialisation stages after all histories",
  "No stable test imports the map module.",
  ["src/python_bindings/cppmapmodule.cxx"], [("pickle state", "constructor arguments and state tuple", "src/python_bindings/cppmapmodule.cxx")], [("rebuild, re-initialise, relabel", "src/python_bindings/cppmapmodule.cxx")], ["map queries after pickle round trip"])

p("C25", "Parallel edges are sorted where they diverge",
  "Sorting edges by following them orders the darts around a node by the cyclic order in which they finally leave their common course, for any number of edges sharing an initial course, and reports exactly those darts that never diverge as unsortable. Splitting the parallel parts afterwards yields a map in which the shared course is represented by a single edge and which is consistent after initialisation.",
  ["inputs", "configurations"], "all bundles of edges with common beginnings, step sizes and minimal distances",
  NOTEST + "over all bundle shapes.",
  [CPP], [("planned splits", "positions of divergence", CPP)], [("recursive angular grouping along the edges, splitting and merging", CPP)], ["nextSigma, unsortable groups, map after splitting"])

p("C28", "The Python module shows the same map as the library",
  "Every map operation, query, iterator and accessor reached through the Python module has the effect and result specified for the library on every reachable map: refused operations return None, violated preconditions raise an exception, and cells, orbits, contours, geometry and areas are reported completely and exactly. Python callbacks are called in the documented order with the documented arguments, a callback that returns False cancels the operation (one that raises an exception before it, too, and the exception reaches the caller), and a callback object that was disconnected or dropped, or a protection object that was detached or dropped, has no further effect.",
  ["histories", "inputs", "fault_sequences"], "all histories of map operations through Python, with callbacks refusing, disconnecting and being dropped at any point",
  "No stable test imports the map module.",
  ["src/python_bindings/cppmapmodule.cxx", "src/python_bindings/cppmapmodule_utils.cxx", "src/python_bindings/exporthelpers.hxx", UT],
  [("callback objects", "connections to the signals of a map", "src/python_bindings/cppmapmodule.cxx")],
  [("wrappers, converters, callback adapters, iterator wrappers", "src/python_bindings/cppmapmodule.cxx")], ["Python return values, exceptions, callback log"])

p("C26", "Digital straight lines accept exactly the straight digital curves",
  "Growing a digital straight line point by point accepts a neighbouring point if and only if a digital straight line through all accepted points and the new one exists, and then contains all points accepted so far; a rejected point changes nothing. Mirroring and conversion to 4-connectivity map the contained points accordingly, and slope and axis intercepts are those of the leaning lines. The tangent found at a point of a chain code contains all points up to the returned distance on both sides, which cannot be extended by another step on both sides.",
  ["inputs", "histories"], "all growth orders (both ends) of first-octant chain codes",
  "No stable test touches digital lines.",
  ["src/geomap/vigra/dsl.hxx"], [("line parameters", "slope numerator/denominator and offset", "src/geomap/vigra/dsl.hxx")], [("leaning-point update", "src/geomap/vigra/dsl.hxx")], ["addPoint, contains, width"])

p("C27", "Convex hulls and polygon simplification are geometrically sound",
  "The convex hull of any point set is a closed convex counter-clockwise polygon whose vertices are input points and which contains all input points. Simplification keeps the end points, uses only original points in original order, and leaves no original point further than the tolerance from the line through the chord that replaces it (from the chord's end point if the chord is degenerate); if all inner points are closer than the tolerance to the line through the end points, only these remain. With a maximal step, no chord that skips points is longer than it.",
  ["inputs"], "all point sequences, including duplicates, collinear points and closed polygons, and all tolerances",
  "No stable test touches these functions.",
  [PO], [], [("angular scan; recursive splitting at the farthest point", PO)], ["convexHull, simplifyPolygon"])

p("C29", "A position moved along a dart stays on it and knows where it is",
  "A position on a dart can be moved to an arc length, to the next or previous segment and out of a circle, forwards and backwards, in any order and for darts of either direction. After every movement the reported point lies on the dart at the reported arc length within the reported current segment; going to an arc length succeeds for every length within the dart whatever the position was before and fails outside, leaving the position at the nearer end; leaving a circle stops at the first point behind which the dart is outside.",
  ["histories", "inputs"], "all darts, all sequences of movements",
  "No stable test uses dart positions.",
  [HX], [("current segment and offset", "place on the dart", HX)], [("stepping over segments, both ways", HX)], ["position, arcLength, segmentIndex, atEnd, results"])

DI = "src/python_bindings/pythondiff2d.cxx"
PB = "src/python_bindings/polygon.cxx"
p("C30", "Polygons are proper Python sequences",
  "Polygons reached through the Python module behave like sequences of points under every history of appending, inserting, deleting, assigning, slicing, splitting, extending, reversing, swapping, copying, pickling and affine operations: negative indices count from the end, indices without a point are refused without changing anything, slices are clipped. After every operation all answers (points, length, partial area, bounding box, closedness, arc lengths, centroid, nearest point, containment, parts on one side of a line) are those of the current points, whatever had been asked before. Convex hull and simplification give the same results as specified for the library.",
  ["histories", "inputs"], "all histories of operations on several polygon objects, all valid and invalid indices",
  "No stable test uses the polygon class of the Python module.",
  [PB, PO], [("points and cached properties", "the polygon object", PB)], [("index conversion, overloads for polygons with cached properties, iterators, pickling", PB)], ["Python return values, exceptions"])

p("C31", "Statistics along polylines add up",
  "The statistics collected along polylines report, after any history of single contributions, contributions of whole polylines, merging, copying and pickling, the length-weighted average, the minimum, the maximum and the weighted quantiles of exactly the values contributed so far, whatever had been asked in between. A polyline contributes, for each of its segments, the image value in the middle of the segment with the segment's length.",
  ["histories", "inputs"], "all histories of contributions, merges, queries and pickling; all values including negative ones",
  "No stable test uses these statistics.",
  ["src/python_bindings/statistics.cxx"], [("sums and sorted segments", "what was contributed", "src/python_bindings/statistics.cxx")], [("lazy sorting of segments, merging of sums", "src/python_bindings/statistics.cxx")], ["average, min, max, quantile"])

p("C32", "Geometric helpers and label tables are the same in Python",
  "The scan conversion of polygons and what is counted, filled, drawn or marked in images with it, label tables, digital straight lines, tangents, crack edge extraction, positions moved along darts, and the sorting and splitting of parallel edges give through the Python module exactly the results specified for the library, for all inputs and image sizes. An edge marked in and removed from a label image leaves every pixel as before, and every pixel is covered as often as edges run through it. The crack connection image has exactly the bits of the boundaries between differently labelled pixels, seen from both ends.",
  ["inputs", "histories"], "all polygons, images, merge histories and chain codes",
  "No stable test calls these functions.",
  [PB, "src/python_bindings/cppmapmodule_utils.cxx", "src/python_bindings/cppmapmodule.cxx", "src/python_bindings/dsl.cxx"], [], [("converters and wrapper functions", PB)], ["Python return values, images drawn into"])

p("C35", "Face statistics are the same in Python",
  "The gray and colour face statistics of the Python module follow the map exactly as specified for the library through every history of operations: pixel counts, means, variances, region images (drawn from the map or from a given label image) and differences between neighbouring faces describe the current faces; the homogeneity of two faces is the difference of their means times the square root of the product over the sum of their areas. Labels without a face raise ValueError and labels out of range IndexError, a deep copy has its own copy of the map and both stay independent, and detached, copied or dropped statistics leave the map usable.",
  ["histories", "inputs"], "all images, operation histories and minimal sample counts",
  "No stable test imports the map module.",
  ["src/python_bindings/cppmapmodule_stats.cxx", "src/geomap/facestatistics.hxx"], [("accumulators", "count/mean/variance per face", "src/geomap/facestatistics.hxx")],
  [("wrappers, deep copy with the map", "src/python_bindings/cppmapmodule_stats.cxx")], ["Python return values, exceptions, region images"])

p("C36", "Directions and curvatures along polylines are true, continuous and composable",
  "Tangent lists give, at the true arc length of every point asked for, the direction of the chord between the points the given number of points (or the given arc length) before and behind it, with open polylines continued by point reflection and closed ones by themselves; curvature lists give the signed turning angle per mean length, third derivatives the symmetric difference at one and two distances. Smoothed tangents (Gaussian, normalised, with variable scale, open or closed) never leave the directions of the segments within reach of the filter, and are opposite for the reversed polyline. Angles in one list never jump by more than half a turn, and stay so when lists are appended or composed, forwards or reversed, at the right offsets. Values smoothed by arc length are the Gaussian-weighted means of the values within reach, derivatives repeat the value at the nearer end, vanish for constants and mirror with the list. A parabola fit solves the least squares problem of exactly the data added so far, whatever was asked in between, and reports its errors; too short polylines and distances below one are refused.",
  ["inputs", "histories"], "all polylines, distances, filter scales, lists and histories of contributions to fits",
  "No stable test uses these functions.",
  [PB], [("sums of a parabola fit and its cached parameters", "contributions so far", PB), ("continuous direction", "previous angle and offset", PB)],
  [("continuation of polylines beyond their ends, unwrapping of angles, cut filters, lazy fitting", PB)], ["tangentList*, curvatureList, thirdDerivativeOfPolygon, appendTangentList, composeTangentLists, gaussianConvolveByArcLength, equidistantGaussians, ParabolaFit, angleTheta"])

p("C37", "Spline fits of polylines are the best ones",
  "The control points computed for a polyline and a number of segments are those of the cubic spline with that many segments of equal arc length which has the least integral of squared distances to the polyline: they solve the normal equations at every knot, however the vertices of the polyline lie with respect to the knots and wherever a closed polyline starts. Open polylines are continued by point reflection, so that the spline starts and ends exactly at their end points and straight lines are reproduced; closed ones periodically, the first control point being repeated at the end. The polyline is left as it was; polylines of less than four points and less than three segments are refused.",
  ["inputs"], "all polylines and numbers of segments",
  "No stable test uses spline fits.",
  [PO], [], [("insertion of knots, integration of basis splines, reflective and periodic continuation, linear system", PO)], ["polygonSplineControlPoints, spline3Integral"])

p("C38", "Rectangles, boxes and grids in Python are the sets they denote",
  "A rectangle denotes the pixels from its upper left corner up to, but without, its lower right one, a bounding box the points between both corners, these included. After any history of changes, all coordinates are those the changes imply (moving keeps the size, setting a corner keeps the other one), and emptiness, containment of points and of others, intersection, equality and area are those of the sets; joining gives the smallest rectangle around both, intersecting the common part, in place or as a new value. Iterating over the grid of a size or rectangle gives exactly its pixels, each once, row by row, none for an empty one. Positions are rounded to the nearest pixel, and boxes to the pixels they touch by their corners. Pickled values come back equal; items beyond a pair are refused.",
  ["inputs", "histories"], "all rectangles, boxes, sizes, points and histories of changes",
  "No stable test uses these values.",
  [DI, PB], [], [("pickling by constructor arguments, grid iteration, rounding, conversion of tuples", DI)], ["Rect2D, Size2D, BoundingBox, meshIter, intPos in Python"])

p("C33", "Resampled polylines follow the original",
  "Resampling by linear interpolation yields, between the original end points, equidistant points on the polyline, as few as the wanted distance admits. Least squares resampling has as many points, keeps the end points of open polylines and the closedness of closed ones, and solves the least squares equations except directly at fixed end points. Gaussian and exponential smoothing end for every admitted polyline, keep the end points of open polylines, leave closed ones closed and within their convex hull and straight ones straight, and do not depend on the direction of the polyline.",
  ["inputs"], "all polylines and wanted distances; for smoothing, those whose segments are not longer than the scale of the filter",
  "No stable test uses resampling.",
  [PO], [], [("walk along the arc length, tridiagonal and recursive filters, convolution around closed polygons", PO)], ["resamplePolygon and its variants"])

p("C34", "Subpixel watersheds rest on true critical points and rising flow lines",
  "Every reported minimum, saddle and maximum of the spline-interpolated image lies within the image at a place where the gradient vanishes, is of the kind told by the second derivatives there, and keeps the minimal distance to all others; restricting the search to a mask loses only points reached from elsewhere, and finer sampling loses none. An edge exists for exactly the saddles at or above the threshold; it runs through its saddle in opposite directions, on smooth images (not noise) rises along both halves, and ends exactly at the maxima it reports, if any. On waves with known critical points exactly these are found, and every inner saddle is connected to the two maxima next to it.",
  ["inputs", "configurations"], "all images of at least 8x8 pixels, spline orders 2, 3 and 5, masks, sampling densities, minimal distances and thresholds",
  "No stable test uses the subpixel watersheds.",
  ["src/geomap/vigra/subpixel_watershed.hxx", "src/geomap/vigra/map2d.hxx", "src/python_bindings/subpixel_watersheds.cxx"], [("minima, saddles, maxima", "critical points found so far", "src/geomap/vigra/subpixel_watershed.hxx")], [("Newton iteration from a grid of starting points, adaptive Runge-Kutta steps, index image of maxima", "src/geomap/vigra/subpixel_watershed.hxx")], ["minima, saddles, maxima, edges of SubPixelWatersheds2/3/5"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
