import json, os, glob
"""Writes DESIGN.md: the head of the present file is kept, the rest comes from here and from seeded/."""
MARK = "The trace specification is one composed"
H = open('/verif/DESIGN.md').read().split("Per property: see the table")[0].split(MARK)[0]
H = H.rstrip() + "\n\n" + '''The trace specification is one composed specification, `tla/SystemTrace.tla`: its variables are the object
tables of all domains (meshes `ms`, back ends `ks`, curves `cs`, surfaces `ns`, surface solids `os`, images
`im`, transforms `tf`, Bezier triangles `bs`, smooth meshes `ss`, cubic triangles `cb`, bitmaps/boxes `bl`,
files `fs`, writers `ws`, renderers `rs`), each domain contributes its actions (`MeshTrace`, `MeshOpsTrace`,
`GeomTrace`, `NurbsTrace`, `ImageTrace`, `BezierTrace`, `FilesTrace`, `RenderTrace`), and a script may mix them:
a property's check only chooses which histories are explored. So every check also carries the frame
conditions of every other domain (an operation may change nothing but what its action says).

Numbers: every `double` the code stores or returns is logged as its exact hexadecimal value and read back by
the override as an exact rational. Stored values are compared exactly; computed ones within a tolerance the
specification states (relative to the magnitudes involved), so a different but correct order of floating
point operations is accepted, and the drivers keep away from decisions that rounding may turn (a point
exactly on an edge, a distance exactly equal to a tolerance) wherever the code is entitled to either answer. Where every coordinate and the tolerance are small multiples
of 1/16, the code's own arithmetic is exact whatever its order, so there the exact boundary is judged
(`MeshOps!Simple`: merging, removal of degenerate triangles, closedness of a curve).

Sizes: the exhaustive parts are small by nature, the seeded ones include, for every domain, some objects with
tens to hundreds of elements (vertices, triangles, control points, surfaces of a solid, pixels of a row), so a
limit hidden in the code (a fixed buffer, a byte-sized counter) is crossed.

Two levels of model checking are kept apart in the evidence: `model_runs` are explorations of the
specification alone (exhaustive unless marked simulation; "refutation" means that a specification with a
planted design fault must violate its invariant, a guard against vacuous invariants), `traces` and `events`
are executions of the real code judged by TLC.

What makes a check answer "violation": TLC rejects a recorded trace twice, on two separate executions.
Errors of the machinery (build failure, TLC error, harness error) exit 3/4, never 1.

## Decided per property

Costs are wall times of the quick tier on the 8 cores (thorough: deeper model bounds, 10-20 times the
histories, several minutes each). "Beyond tests" says what the unit tests cannot reach.
'''
ROW = {
"C01": ("MeshMC/MeshTrace: vertex and triangle slots with live flags, both back ends in lock step", "every history of <= 5 edits from nothing and <= 2 from two starts (thorough 6 and 3) + simulated and seeded histories of up to 40 edits, also far inside meshes of 300 slots", "exact slot contents after every call; identifiers; frame", "25 s", "order- and history-dependence of identifiers and slots"),
"C02": ("CopyMC: value semantics over cells (deep copy vs. shared cells)", "every history of <= 4 (5) copies/assignments/appends/edits incl. self, on nine kinds of objects; faults shared/clear-first/growing refuted", "full state of all objects after each call", "25 s", "aliasing that only shows after a later edit"),
"C03": ("MeshMC with directed boundary, closedness, area vector as action properties; MeshBoolean split as relation (same surface)", "every refinement history of <= 2 (3) steps from two starts, every edge of the base shapes in every rotation; seeded refinement and cutting of factory and random meshes", "exact boundary and area vector (rational)", "40 s", "every rotation of corner order, every edge position"),
"C04": ("DeadMC: readers over slots that keep stale corners", "every history of <= 4 (5) additions/removals/reversals x every consumer, twin mesh that never had the removed ones; readers of stale/counted/cut-off slots refuted", "state of both twins equal after each consumer", "40 s", "any consumer missing its guard, for any position of the removed slots"),
"C05": ("MeshOps merge relation + abstract algorithm (MeshOpsMC)", "every mesh of 4 vertices over a pool of positions x <= 2 operations; clusters, chains, lattices whose distances are exactly the tolerance, tolerances 0..5, up to 260 vertices", "relation evaluated in exact arithmetic", "25 s", "chains and orders of near vertices"),
"C06": ("MeshOps removal relation (MeshOpsMC)", "as C05, incl. repeated removal and removed slots", "exact set of removed slots", "20 s", "all three edges, identity and position degeneracy"),
"C07": ("integer-lattice subdivision relation (n*n unit triangles), ASSUME-checked for the stripe scheme and its mutations", "n = 1..8 (20 thorough), random, thin, tiny and huge triangles, removed slots, dirty targets", "every lattice cell covered exactly once, orientation", "20 s", "every n and every triangle shape"),
"C08": ("characterisation of every shape (2-manifold by position, Euler characteristic, outward, on ideal surface, volume bound)", "all nine shapes x sizes 1e-3..1e3 x levels of detail 1..8 (16), dirty targets", "exact arithmetic on the vertices; stated tolerance to the ideal surface", "30 s", "sizes and levels of detail no test samples"),
"C09": ("area/volume/degeneracy/closedness over live triangles", "along every explored MeshMC history and seeded meshes (all magnitudes)", "exact sums vs. returned doubles within rounding bound", "30 s", "measurement after every edit"),
"C10": ("GridMC: relation between samples and mesh/surface/heights", "every size up to 5x5 (8x7), every mix of diagonals; seeded sizes to 30x20", "every vertex, control point and cell", "20 s", "non-square and one-row grids"),
"C11": ("GeomMC: definitions in exact rationals; order independence as invariant", "all integer-grid configurations of each query kind; seeded ones over magnitudes 1e-6..1e6", "exact answer, or either answer within the stated doubt zone", "40 s", "every relative position and every order of arguments"),
"C12": ("XformMC: isometry, fixed axis, composition, cancellation as invariants", "every sequence of <= 2 (3) transforms; seeded long sequences on points, meshes, surfaces, solids, smooth meshes", "every coordinate; everything else unchanged", "30 s", "sequences and setters called again"),
"C13": ("NurbsMC: Cox-de Boor over rationals; unity, hull, ends as invariants", "every setter order, degrees 1..9, up to 140 points, clamped, unclamped, repeated knots, weights 1e-2..1e2", "exact point of the definition", "40 s", "arbitrary knot vectors and parameters incl. knots themselves"),
"C14": ("NurbsMC refinement by polar forms; invariance is a TLC invariant", "every setter/insertion/elevation sequence of length <= 3 (4); random walks up to 6 steps", "exact points before/after; counts; sortedness", "40 s", "orders and multiplicities"),
"C15": ("tensor-product definition + refinement in both directions", "as C14 on surfaces with different degrees and sizes in u and v", "exact points on a parameter grid", "50 s", "u/v mix-ups only visible on asymmetric grids"),
"C16": ("relations between input curves and surface points", "model-generated and random curves, closed and open, weighted, dirty targets", "exact points; radius and height preserved", "35 s", "every curve structure, refused combinations"),
"C17": ("characterisation of shapes incl. common tessellation closed", "sizes 1e-3..1e3, all ratios, dirty targets", "distance to ideal shape; closed by position; volume", "40 s", "sizes no test samples"),
"C18": ("polyline and mesh sampling relation (parameter of every vertex, connectivity, seams)", "random, model-generated and factory shapes; append/replace; segment counts 1..4", "vertex = definition at its parameter; quads once each", "60 s", "non-square control grids, seams of either direction"),
"C19": ("ResidueMC: filling operations over parts of an object; keep/add/only-empty faults refuted", "every chain of <= 3 (4) fills/partial edits for six kinds; seeded chains across modules", "equality with a fresh object filled the same way", "45 s", "any pair (previous use, operation)"),
"C20": ("FilesMC/Encode: STL bytes, OBJ lines, writers; codec inverse", "every history of <= 3 (4) saves/loads/writer calls over two files; seeded meshes of all magnitudes, colours, polylines", "bytes/lines decoded by TLC", "45 s", "several objects per file, reopened writers"),
"C21": ("StepMC: entity graph of a file; every single change noticed", "every history of <= 4 (5) calls of two writers; seeded surfaces and solids", "parsed exchange structure: each entity, reference, count", "40 s", "any sequence of writes"),
"C22": ("BmpMC: encode/decode inverse for every small size and plane count", "every history of <= 4 (5) edits/saves/loads over two images; foreign files (top-down, offsets, 8/24/32)", "bytes of every file", "45 s", "every padding"),
"C23": ("DamageMC: which files are complete and what they hold", "every file one or two faults make of a small STL/BMP (cut at each byte, each field replaced); every cut and token replacement in OBJ; arbitrary contents", "outcome and object; ASan, allocation limit, time limit", "60 s", "every cut point and field"),
"C24": ("FaultMC: save through a buffer onto a disk of limited size", "every size limit of four small files (RLIMIT_FSIZE), /dev/full, unwritable places, later saves", "status good iff stored bytes are complete", "50 s", "failure at every byte"),
"C25": ("RenderMC: pixels carry the set of possible colours and depth intervals", "every drawing sequence of <= 3 (4) objects; seeded scenes in many orders; buffers in exact-size heap blocks", "every pixel of every image", "35 s", "order independence, depth under clipping"),
"C26": ("camera, coverage, lights over rationals; an exact renderer stays within it (TLC)", "single triangles, lines, points, meshes all around the borders; images of every aspect", "must/may sets of pixels and colour bound per triangle", "40 s", "every border and clipping case"),
"C27": ("BezierMC: Bernstein definition; corners, edges, hull, affine covariance", "every setter order to depth 3 (4); seeded patches, smooth meshes, point-normal triangles (control points read through a subclass)", "exact points; covering by lattice relation", "30 s", "weights and orders of setters"),
"C28": ("ImageMC: pixel-wise definition of operations and fractals", "every history of <= 3 (4) operations over small shapes; seeded shapes; Mandelbrot escape times with a tracked rounding bound", "every pixel", "45 s", "non-square shapes, saturation"),
}
out = [H, "| | specification | explored / generated | oracle | quick | beyond tests |", "|---|---|---|---|---|---|"]
for k in sorted(ROW): out.append("| %s | %s |" % (k, " | ".join(ROW[k])))
out.append('''
No property is listed under not_applicable: all 28 are decided with the specification. The part of the code
that no property addresses because it is not reachable or not implemented: `MeshKernelHalfEdge` (stub, not
used), `MeshBoolean` results other than the cutting step (stubs), `MeshMeasurements::is_closed` beyond "never
true for an open mesh" (stub), `CubicBezierTriangles::add_to_mesh/clear` (declared, not defined), `gui`/samples.

## Preconditions assumed (documented domain, otherwise unspecified)

* Rotation axes are unit vectors; `RotationEulerAngles` mirrors y by design (isometry is what is judged).
* `Triangle3::contains` is only asked about coplanar points; the empty bounding box is unspecified.
* Knot vectors passed to `set_knots` are sorted with max > min; unclamped ones are evaluated inside
  [k_d, k_n); insertion at interior u with multiplicity <= degree; elevation for degree 1 and 2, clamped.
* Sampling needs a complete or cleared surface and at least one segment; factory levels of detail >= 1.
* BMP images have 1, 3 or 4 planes; the fourth plane is written as 0. OBJ text carries 6 significant
  digits, STL 32-bit floats, STEP 6 significant digits. `Image::resize` leaves content unspecified unless
  the shape is unchanged.
* Rendering: an object lies wholly in front of or wholly behind the camera, unit light directions, a camera
  was set; triangles without area only with ambient light. Coverage margins: 33/20 px for triangles, 11/5 px
  for lines (in twentieths/tenths: about 1.65 px and 1.1 px), as the code rounds vertices to pixels.
* A copy may drop removed slots; the colour of the target of an append may be either.
* Tessellation and cutting: coordinates of one mesh have one order of magnitude.

## Genuine defects found and repaired

38 repairs in /repo (`fix:` commits), one line each in `known_findings.txt`. None is left unrepaired, so no
check prints a KNOWN-FINDING line. They were found by the checks named there, on the original tree.

## False alarms met and what was done

* Euler rotations were first specified as proper rotations; the code (and its tests) mirror y. Property and
  specification now ask for an isometry composed of the elementary rotations.
* Rendering margins were first one pixel: rounding of vertices *and* of scan lines adds up to about 1.5 px.
* Mandelbrot escape times are judged with a tracked error bound of the single-precision iteration; pixels
  whose escape cannot be decided are accepted either way.
* Tessellation of triangles with corners at 1e8 and 1e-8 lost corners to rounding (correct for the code).
* Sampling commands of the harness took their arguments in the wrong order, so two checks sampled empty
  surfaces (vacuous, not a false alarm): repaired, and planted bugs are now kept for every property.
''')
# seeded
rows = []
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"], m["what_it_breaks"]))
out.append("## Planted changes and the checks that catch them\n\nEach is caught by the quick check of its property (`tools/plant.py check` runs them all).\n\n| change | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows))
if os.path.exists('/verif/tools/mutation.md'): out.append("\n" + open('/verif/tools/mutation.md').read())
open('/verif/DESIGN.md', 'w').write("\n".join(out) + "\n")
