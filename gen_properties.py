#!/usr/bin/env python3
# Writes properties.jsonl (one place to edit the texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A mesh is exactly what its edit history implies",
  "After any sequence of vertex insertions and moves, triangle, quad and pentagon insertions, removals, reversals, transforms and clears, a mesh holds exactly the vertices and triangles the sequence implies: identifiers are handed out consecutively, every operation changes only the vertices and triangles it names, a removed triangle keeps its slot and never comes back, and emptiness and colour follow from the same history. "
  "The plain triangle-list and the linked triangle-list storage back ends give identical answers to identical histories.",
  ["histories"], "every finite sequence of public mesh edits with valid identifiers, on both storage back ends, from an empty mesh",
  "the tests run a few fixed edit sequences of a handful of calls and compare counts; they never compare a whole mesh with what a longer mixed history implies and never run the second storage back end",
  ["src/Mesh.cpp", "src/MeshKernelTIN.cpp", "src/MeshKernelLinkedTriangles.cpp"],
  [("mesh edit API", "src/Mesh.cpp"), ("vertex/triangle tables", "src/MeshKernelTIN.cpp, src/MeshKernelLinkedTriangles.cpp")])

p("C02", "Copy, assignment and append give equal, independent values",
  "Copying or assigning a mesh, face, solid, smooth mesh, curve, surface, surface solid or image (including assigning an object to itself or over a non-empty object) makes the target observably equal to the source's live content and colour, leaves the source unchanged, and later changes to one never show through the other. "
  "Appending a mesh to another keeps everything the target already had and adds the source's vertices and live triangles after it, with the source's shape and orientation.",
  ["histories"], "every interleaving of copies, assignments, appends and edits over several objects, including self-assignment and chains of copies",
  "the tests copy a mesh once or twice and look at counts; aliasing, stale content and self-assignment only show in histories that mix copying with later edits of either side",
  ["src/Mesh.cpp", "src/Face.cpp", "src/Solid.cpp", "src/SmoothMesh.cpp", "src/NurbsCurve.cpp", "src/NurbsSurface.cpp", "src/NurbsSolid.cpp", "src/Image.h"],
  [("copy/assign/append", "src/Mesh.cpp operator=, add_mesh; src/Face.cpp; src/Solid.cpp; src/SmoothMesh.cpp; src/Image.h")])

p("C03", "Local refinement keeps the surface, its orientation and closedness",
  "Splitting a live triangle at a vertex replaces it by three triangles and splitting the shared edge of two live triangles at a vertex replaces these two by four; in both cases the directed boundary of the replaced patch is unchanged, so a closed, consistently oriented mesh stays closed and consistently oriented, and when the new vertex lies on the patch the area and enclosed volume do not change. "
  "Reversing a triangle only reverses its winding, a quad or pentagon covers exactly its boundary polygon (a quad given by points is cut along a diagonal of least total area), and cutting two meshes against each other leaves the surface of both unchanged and only touches live triangles.",
  ["histories", "inputs"], "every sequence of local refinements of every mesh, for every choice of triangles, edges, start corners and vertices",
  "the edge split is not exercised by any test and the triangle split only by counts; a wrong corner or winding only shows for particular corner rotations and in what later operations see",
  ["src/Mesh.cpp", "src/MeshBoolean.cpp"],
  [("split_triangle_with_vertex, split_edge_with_vertex, flip_triangle, add_quad, add_pentagon, split_triangle", "src/Mesh.cpp"), ("split_meshes", "src/MeshBoolean.cpp")])

p("C04", "Removed triangles are invisible to every consumer",
  "A triangle that has been removed from a mesh no longer takes part in anything: measurements, copies, appends, tessellation, cleaning, vertex merging, conversion to surfaces, saved files and rendering give the same result as for a mesh that never contained it.",
  ["histories", "inputs"], "every mesh with any subset of its triangles removed, at any time, and every operation that reads a mesh",
  "removed triangles appear in very few tests, and never in combination with each consumer",
  ["src/Mesh.cpp", "src/MeshMeasurements.cpp", "src/MeshTessellate.cpp", "src/MeshUtil.cpp", "src/NurbsUtil.cpp", "src/OBJFile.cpp", "src/STLFile.cpp", "src/Renderer.cpp"],
  [("is_triangle_unlinked guards", "all mesh consumers")])

p("C05", "Vertex merging only joins vertices closer than the tolerance",
  "Merging vertices with a positive tolerance replaces each triangle corner by a vertex position the mesh already had, within the tolerance of the old one, and keeps the number, order and winding of the triangles; afterwards no two vertices are closer than the tolerance. "
  "For meshes whose distinct positions are farther apart than the tolerance, the result has exactly one vertex per distinct position and merging again changes nothing.",
  ["inputs"], "every mesh, every vertex order and every positive tolerance",
  "tests merge one or two fixed meshes and look at the resulting vertex count",
  ["src/MeshUtil.cpp"], [("merge_vertices", "src/MeshUtil.cpp")])

p("C06", "Removing empty triangles removes exactly the degenerate ones",
  "Removing empty triangles with a tolerance removes exactly the live triangles that have two corners (by identity or by position) that coincide within the tolerance, and leaves every other triangle, every vertex and all identifiers untouched; doing it again changes nothing.",
  ["inputs"], "every mesh and tolerance",
  "tests exercise a single degenerate triangle",
  ["src/MeshUtil.cpp"], [("remove_empty_triangles", "src/MeshUtil.cpp")])

p("C07", "Tessellation subdivides every triangle exactly",
  "Tessellating a mesh with n segments per edge replaces every live triangle by n*n triangles that lie in it, have the same winding, do not overlap and cover it exactly, so area, enclosed volume and (position-wise) closedness are those of the input, which is left unchanged; the output contains nothing else.",
  ["inputs", "configurations"], "every mesh, every triangle shape and every n >= 1",
  "tests count triangles for one mesh and two values of n",
  ["src/MeshTessellate.cpp"], [("compute", "src/MeshTessellate.cpp")])

p("C08", "Mesh factory shapes are closed, outward and on the ideal surface",
  "Every mesh the factory builds (tetrahedron, box, octahedron, dodecahedron, icosahedron, cylinder, geodesic and UV spheres, torus) is non-empty and, for every size and level of detail, position-wise closed and manifold, has no degenerate triangle, is oriented outwards (positive volume), is centred and sized as requested with every vertex on the ideal surface or regular polyhedron, and its enclosed volume approaches the ideal one as the level of detail grows.",
  ["inputs", "configurations"], "every factory shape, every positive size and every level of detail",
  "tests look at counts and at one size and level of detail per shape",
  ["src/MeshFactory.cpp"], [("create_*", "src/MeshFactory.cpp")])

p("C09", "Measurements are the geometric quantities of the live triangles",
  "Surface and volume equal the sums over the live triangles of the triangle areas and of the signed tetrahedra, are unaffected by identifiers and triangle order, scale and move as geometry dictates, and the degenerate-triangle, orientation and cleanliness answers agree with them; a mesh with an open edge is never called closed. "
  "Measuring never changes the mesh.",
  ["inputs", "histories"], "every mesh, including empty ones, meshes with removed triangles and any vertex numbering",
  "tests measure a few unit shapes",
  ["src/MeshMeasurements.cpp", "src/Geometry.cpp"], [("MeshMeasurements", "src/MeshMeasurements.cpp"), ("Triangle3 surface/volume", "src/Geometry.cpp")])

p("C10", "Grids and height fields become the surface they describe",
  "Building a mesh or a surface from a height array gives one vertex (control point) per cell, placed at that cell's column, row and height, with neighbouring cells connected to neighbouring vertices, for every width and height including non-square ones; building a mesh from a point grid triangulates every cell once with consistent winding. "
  "Converting an image to heights keeps every pixel at its own column and row.",
  ["inputs", "configurations"], "every array size (square or not) and content",
  "tests use square or constant arrays, for which transposed layouts look the same",
  ["src/MeshUtil.cpp", "src/NurbsUtil.cpp", "src/Image.h"],
  [("create_from_z, create_from_grid", "src/MeshUtil.cpp"), ("create_from_z", "src/NurbsUtil.cpp"), ("to_double", "src/Image.h")])

p("C11", "Geometric queries answer what Euclidean geometry says",
  "For points, lines, segments, triangles, planes and bounding boxes: distances, norms, products, areas, normals, projections, containment of coplanar points, side/cut tests and intersections agree with Euclidean geometry for every non-degenerate configuration, and an intersection point or line that is reported lies on both operands (within both segments for segments) while a clear miss is reported as such. "
  "The answers do not depend on the order in which the corners or end points are given.",
  ["inputs"], "every non-degenerate configuration, up to rounding, including answers on and beyond the supporting lines of edges",
  "tests sample one or two configurations per query",
  ["src/Geometry.cpp"], [("Point3, Line3, Segment3, Triangle3, Plane3, BoundingBox3", "src/Geometry.cpp"), ("GeometryUtil", "src/GeometryUtil.cpp")])

p("C12", "Transforms move points by their mathematical definition",
  "Translation, scaling and rotations (axis-angle, quaternion, matrix, Euler angles) move every point by their defining formula with angles in degrees: rotations preserve all distances, axis-angle and quaternion rotations of the same axis and angle agree, keep the axis fixed, and compose additively, and opposite transforms cancel. "
  "Applying a transform to a mesh, smooth mesh, surface or surface solid moves exactly its points and changes nothing else about it. Rotation axes are unit vectors; Euler rotations are judged as isometries composed of the elementary ones.",
  ["inputs", "histories"], "every point, axis, angle, vector and sequence of transforms",
  "tests rotate a few points by a right angle",
  ["src/Transform.cpp", "src/Mesh.cpp", "src/NurbsCurve.cpp", "src/NurbsSurface.cpp", "src/NurbsSolid.cpp"],
  [("Transform classes", "src/Transform.cpp"), ("apply_transform", "src/Mesh.cpp, src/NurbsSurface.cpp")])

p("C13", "A curve evaluates to its rational B-spline definition",
  "For every degree, knot vector, weights and control points set in any order, a curve evaluates at every parameter in [0,1] to the point given by the rational B-spline definition; hence a clamped curve starts and ends at its end control points, stays in the hull of its control points, commutes with affine maps, and knots are stored rescaled to [0,1]. "
  "The knot span found for a parameter is the one containing it, and a curve is called closed exactly when its ends coincide within the tolerance.",
  ["inputs", "histories"], "every curve, parameter (including knots and both ends) and order of setter calls",
  "tests evaluate a few circles, lines and Bezier curves at a few parameters",
  ["src/NurbsCurve.cpp"], [("evaluate, find_knot_span, set_*", "src/NurbsCurve.cpp")])

p("C14", "Knot insertion and degree elevation do not move a curve",
  "Inserting a knot at any interior parameter as often as the degree allows, or raising the degree, in any order, leaves every point of the curve and its end points where they were, adds exactly the announced number of knots and control points, and keeps the knot vector sorted and within [0,1]; an operation that reports failure changes nothing.",
  ["histories", "inputs"], "every sequence of insertions and elevations of every curve",
  "tests insert one knot and elevate one curve",
  ["src/NurbsCurve.cpp"], [("insert_knot, degree_elevation", "src/NurbsCurve.cpp")])

p("C15", "A surface evaluates to its definition; refining it does not move it",
  "For every pair of degrees, knot vectors, weights and rectangular control grids a surface evaluates at every (u,v) in the unit square to the rational tensor-product definition, with u along the first direction of the grid and v along the second. "
  "Knot insertion and degree elevation in either direction, in any order, leave every point of the surface where it was, keep the grid and knot counts consistent, and an operation that reports failure changes nothing.",
  ["histories", "inputs"], "every surface with distinct sizes and degrees in u and v, every parameter pair and every sequence of refinements",
  "tests use symmetric or bilinear surfaces and one refinement at a time",
  ["src/NurbsSurface.cpp"], [("evaluate, insert_knot_u/v, degree_elevation_u/v", "src/NurbsSurface.cpp")])

p("C16", "Extrude, rule and revolve build the surfaces they are named for",
  "Extruding a curve gives the surface of all its points translated along the direction; a ruled surface joins equal parameters of two curves of the same degree, knots and number of points by straight lines (curves of different structure are refused), leaving the inputs unchanged; revolving a curve gives a surface whose every point keeps the radius and height of the profile point it comes from and which closes after a full turn.",
  ["inputs"], "every profile curve or pair of curves, direction and parameter",
  "tests evaluate one or two fixed profiles",
  ["src/NurbsExtrude.cpp", "src/NurbsRuled.cpp", "src/NurbsRevolve.cpp"],
  [("extrude", "src/NurbsExtrude.cpp"), ("create_ruled", "src/NurbsRuled.cpp"), ("revolve", "src/NurbsRevolve.cpp")])

p("C17", "NURBS factory shapes lie on the ideal surface for every size",
  "Every curve, surface and solid the NURBS factory builds lies on its ideal shape for every size: circles and spheres at the requested radius, torus at the requested radii, disk, quad and triangle in their plane with the requested corners or rim, curves through or controlled by the given points; solids are made of patches whose common tessellation is position-wise closed and encloses about the ideal volume.",
  ["inputs", "configurations"], "every factory shape, size and parameter",
  "tests evaluate a few points for one size",
  ["src/NurbsFactory.cpp"], [("create_*", "src/NurbsFactory.cpp")])

p("C18", "Sampling a curve or surface gives points on it, all of it, seamlessly",
  "A polyline or mesh sampled from a curve, surface or surface solid has the announced number of samples and triangles, every vertex lies on the sampled shape at the expected parameter, both ends and all borders are included exactly, closed directions are joined without a gap, the winding is consistent, and output is appended to or replaces the target exactly as requested.",
  ["inputs", "configurations"], "every curve, surface, closedness, sampling density and target content",
  "tests count triangles for one density",
  ["src/NurbsUtil.cpp", "src/NurbsCurve.cpp"], [("to_mesh, create_from_mesh, to_controlpoints_mesh", "src/NurbsUtil.cpp"), ("to_polyline", "src/NurbsCurve.cpp")])

p("C19", "Reusing an output object leaves no residue",
  "Every operation that fills an output object (mesh, curve, surface, solid, image, polyline, file reader target) gives the same result whether the object is fresh or was used for anything before, except where appending is documented (the colour of a mesh is a separate attribute that filling operations keep); setters called again replace the previous value completely.",
  ["histories"], "every ordered pair (and longer chain) of operations on the same output object",
  "tests build into fresh objects",
  ["src/NurbsSurface.cpp", "src/NurbsCurve.cpp", "src/MeshFactory.cpp", "src/NurbsFactory.cpp", "src/NurbsUtil.cpp", "src/MeshUtil.cpp", "src/OBJFile.cpp", "src/STLFile.cpp", "src/ImageIoBmp.cpp"],
  [("clear/set_*", "src/NurbsSurface.cpp"), ("output parameters", "all factories, converters and loaders")])

p("C20", "Mesh files reproduce the mesh",
  "Saving a mesh as OBJ or STL and loading it gives back the same live triangles in the same order with the same winding, with coordinates equal up to the precision of the format, for every mesh and whatever the coordinates' sign and magnitude; OBJ also keeps vertex sharing. "
  "Writing several meshes, surfaces' meshes, colours and polylines to one OBJ file gives a file in which every index refers to the right vertex and every object is complete.",
  ["inputs", "histories"], "every mesh (including removed triangles and unused vertices) and every sequence of objects written to one file",
  "tests save one shape and compare counts",
  ["src/OBJFile.cpp", "src/STLFile.cpp"], [("OBJFile/OBJWriter", "src/OBJFile.cpp"), ("STLFile", "src/STLFile.cpp")])

p("C21", "STEP output is a complete, consistent description of the geometry",
  "A STEP file written for any sequence of surfaces and surface solids is structurally complete (header, data and end sections), defines every entity exactly once with every reference resolving to an entity of the right kind, and lists exactly the degrees, closedness, control points and weights (in rows along u), and knots with multiplicities of what was written, in order and with consistent counts. "
  "A writer opened again starts a new complete file, and one that is destroyed completes its file.",
  ["inputs", "histories"], "every sequence of complete surfaces and solids written to one file, for every degree, size and weight",
  "tests only check that the file could be written",
  ["src/StepFile.cpp"], [("StepWriter", "src/StepFile.cpp")])

p("C22", "BMP files reproduce the image",
  "Saving an image as BMP and loading it gives back the same width, height and colour values at every pixel for every size from 1x1, including widths that need row padding, for 1-, 3- and 4-plane images; the file's header and size agree with its content, and correct uncompressed 8-, 24- and 32-bit files written by others load to the pixels they hold, in the right orientation.",
  ["inputs", "configurations"], "every image size, plane count and pixel content",
  "tests save and load one or two fixed images whose width needs no padding",
  ["src/ImageIoBmp.cpp", "src/Image.h"], [("read, write", "src/ImageIoBmp.cpp")])

p("C23", "Malformed or truncated files never crash or yield corrupt objects",
  "Loading any damaged STL, OBJ or BMP file (missing, empty, cut off at any byte, or with any field changed) terminates without crashing, without reading or writing outside its buffers and without unbounded allocation, and either reports failure or yields a structurally valid object whose indices are all in range; an STL or BMP file that does not hold the triangles or pixels its header announces is reported as failure.",
  ["inputs", "fault_sequences"], "every truncation point and every single-field corruption of every valid file, plus arbitrary text/bytes",
  "tests only load files the library has just written",
  ["src/STLFile.cpp", "src/OBJFile.cpp", "src/ImageIoBmp.cpp"], [("load/read", "src/STLFile.cpp, src/OBJFile.cpp, src/ImageIoBmp.cpp")])

p("C24", "A save reports success only if the whole file was stored",
  "When a save of a mesh, image or STEP/OBJ file cannot store all its bytes (unwritable path, disk full or write error at any point) a call that returns a status (or the writer's failure query once closed) reports failure, nothing crashes, later saves are unaffected, and when success is reported the complete file is on disk; with nothing in the way, saving succeeds.",
  ["fault_sequences", "crash_points"], "every point at which storage can fail during every kind of save",
  "tests only save where there is room",
  ["src/STLFile.cpp", "src/OBJFile.cpp", "src/ImageIoBmp.cpp", "src/StepFile.cpp"], [("save/write", "src/STLFile.cpp, src/OBJFile.cpp, src/ImageIoBmp.cpp")])

p("C25", "Rendering shows the nearest front-facing surface at every pixel",
  "Every pixel of a rendered scene (each triangle and line wholly in front of or wholly behind the camera) shows the colour the nearest visible triangle covering it has when drawn alone, independently of the order in which objects and triangles are drawn, and the background elsewhere; back faces of one-sided triangles and anything behind the camera, fully off screen or removed draw nothing, clearing resets both colour and depth, a new background only shows after the next clear, and nothing outside the image buffer is ever written, wherever triangles and lines lie relative to the image borders.",
  ["inputs", "histories"], "every scene, drawing order, image size and placement relative to the borders",
  "tests render without looking at pixels",
  ["src/Renderer.cpp", "src/RendererCamera.cpp"], [("draw_mesh, draw_triangle, draw_horizontal_line, draw_line", "src/Renderer.cpp")])

p("C26", "A drawn triangle covers its projected area in its lit colour",
  "A visible triangle paints the pixels whose centres lie well inside its projection and none well outside it (more than about a pixel and a half from its edges), including when clipped by any image border, and in a colour equal to its own colour scaled by the lights and saturated: ambient light independent of orientation, directional light (from a unit direction) by the cosine of incidence and never negative. "
  "Lines and points paint their projected pixels only, in their own unlit colour and, where nothing nearer hides them, without gaps.",
  ["inputs", "configurations"], "every triangle, camera position, image size and set of lights",
  "tests render without looking at pixels",
  ["src/Renderer.cpp", "src/RendererCamera.cpp", "src/RendererLight.cpp"], [("draw_triangle", "src/Renderer.cpp"), ("compute_transform", "src/RendererCamera.cpp"), ("lights", "src/RendererLight.cpp")])

p("C27", "Bezier patches and smooth meshes interpolate what defines them",
  "A quadratic Bezier triangle evaluates to its Bernstein definition for every barycentric parameter, passes through its corners and along its edge curves, and its sampled mesh covers the whole patch once with consistent winding and all samples on the patch; Bernstein polynomials are a partition of unity with their defining values; smooth factory shapes and smooth-mesh edits obey the same history, copying and orientation rules as plain meshes.",
  ["inputs", "histories"], "every control point set, parameter, sampling density and edit history",
  "tests evaluate one or two patches",
  ["src/QuadBezierTriangle.cpp", "src/BezierUtil.cpp", "src/SmoothMesh.cpp", "src/SmoothMeshFactory.cpp"],
  [("eval, add_to_mesh", "src/QuadBezierTriangle.cpp"), ("Bernstein", "src/BezierUtil.cpp"), ("smooth shapes", "src/SmoothMeshFactory.cpp")])

p("C28", "Image operations are pixel-wise exact",
  "Pixel reads return what was last written at that plane, column and row and nothing else changes, resizing gives the requested shape, conversion of an image of at least three planes to black-and-white (into another image) gives the integer part of the average of its first three planes, scaling multiplies, rounds to the nearest value and saturates, and the fractal generators colour each pixel by its own mathematical definition for every image size.",
  ["inputs", "histories"], "every image size, plane count, content and sequence of operations",
  "tests generate one image and never look at pixels",
  ["src/Image.h", "src/ImageUtil.cpp", "src/ImageGenerator.cpp"], [("Image", "src/Image.h"), ("convert_to_bw, scale", "src/ImageUtil.cpp"), ("generators", "src/ImageGenerator.cpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
