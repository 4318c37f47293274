#!/usr/bin/env python3-vt
"""Writes /verif/properties.jsonl (the property catalogue, kept as code so it is easy to diff)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

T = ("The existing conversion tests only check that the tool exits 0 and writes a non-empty file; "
     "there is no reference output, so nothing they do looks at ")

prop("P01", "Every slice is the pointwise boolean combination of the model",
 "For every model built from solids with nested union, difference and intersection, and for every sliced layer, "
 "a point of the layer's plane is inside the emitted layer exactly when the boolean formula of the model is true "
 "for the point's membership in the individual solids at that height. This includes solids that share faces, edges or "
 "vertices, coincide, touch, or are contained in each other.",
 ["inputs", "programs"], "all CSG trees over axis-aligned, slanted and concave solids, all layers, all points away from the rounding distance of a boundary",
 T + "which points end up inside; a wrong boolean on any tree but the ~50 sample files, or even on those, passes.",
 ["src/hob3l/csg3.c", "src/hob3l/csg2-bool.c", "src/hob3l/csg2-layer.c", "src/hob3lop/op-sweep.c", "src/hob3lop/op-slice.c"],
 [("CSG tree construction", "src/hob3l/csg3.c:csg3_from_scad"), ("slice of a polyhedron", "src/hob3lop/op-slice.c"),
  ("flattening of a layer", "src/hob3l/csg2-bool.c:cp_csg2_op_flatten_layer"), ("plane sweep", "src/hob3lop/op-sweep.c")],
 [("layer region", "set of points covered by a layer", "src/hob3l/csg2-tree.c")],
 ["STL/JS output of hob3l.x"])

prop("P02", "Batching of boolean operations never changes the result",
 "The region of every layer is the same for every permitted limit on how many solids are combined simultaneously, with the "
 "skip-empty and drop-collinear optimisations on or off, and with boolean operations regrouped or operands of union/intersection "
 "reordered. Evaluating any boolean function of up to ten solids in one pass gives exactly the function's truth table.",
 ["configurations", "programs"], "all trees x all values of --max-simultaneous (2..10) x optimisation switches x regroupings",
 "The tests run each file with a single configuration and never compare two results; the combination tables for 7..10 operands are hardly exercised.",
 ["src/hob3l/csg2-bool.c", "src/hob3lbase/bool-bitmap.c", "src/hob3lop/op-sweep-reduce.c"],
 [("lazy combination with truth-table bitmaps", "src/hob3l/csg2-bool.c:flatten_lazy"), ("truth-table algebra", "src/hob3lbase/bool-bitmap.c"),
  ("edge reduction by truth table", "src/hob3lop/op-sweep-reduce.c")],
 [("pending operands", "operands not yet combined plus the boolean function to apply", "src/hob3l/csg2-bool.c:lazy_t")],
 ["STL output under different options", "truth-table functions of the base library"])

prop("P03", "Ignored children and modifiers follow the documented rules",
 "The base of a difference and the operands of an intersection are exactly the children that are not ignored by the documented recursive "
 "rule; a non-ignored child with an empty shape still counts as an (empty) operand. The modifiers * and % remove their subtree from the geometry as if it were not written, "
 "! makes the tool render only the marked subtree, and # does not change the geometry.",
 ["programs"], "all programs of nested groups, transformations, empty blocks, empty-shaped children and modifiers",
 "No test checks which child became the base of a difference; only a handful of files contain empty groups or modifiers.",
 ["src/hob3l/csg3.c", "src/hob3l/scad.c", "doc/scadformat.md"],
 [("non-empty tracking", "src/hob3l/csg3.c:csg3_from_difference"), ("intersection operands", "src/hob3l/csg3.c:csg3_from_intersection"),
  ("modifier handling", "src/hob3l/csg3.c:csg3_from_scad")],
 [], ["STL output"])

prop("P04", "Transformations compose as matrices and keep solids right side out",
 "Nested translate, rotate, scale, mirror and multmatrix place a shape exactly where the product of the documented matrices puts it, in 2D and 3D "
 "contexts alike, for every shape and operator they are applied to. Mirroring (negative determinant) never turns a solid inside out, multiples of 90 degrees "
 "are exact, and a singular transformation is rejected.",
 ["programs", "inputs"], "all chains of transformations over all shape kinds, including zero, negative and mirrored parameters",
 T + "positions; a transposed matrix or a swapped order of multiplication passes.",
 ["src/hob3l/csg3.c", "src/hob3lmat/algo.c", "src/hob3lmat/mat_gen_ext.c", "src/hob3lmat/mat_is_rot.c"],
 [("matrix stack", "src/hob3l/csg3.c:csg3_from_translate .. csg3_from_rotate"), ("orientation from determinant", "src/hob3l/csg3.c:faces_n_edges_from_tower"),
  ("matrix algebra", "src/hob3lmat")],
 [], ["STL output", "--dump-csg3"])

prop("P05", "2D shapes, extrusions, hull and projection have their documented meaning",
 "linear_extrude (height, center, slices, twist, scale), rotate_extrude (angle, $fn), projection(cut=true) and hull of any 2D program produce "
 "exactly the solid or region the format documentation defines, including even-odd filling of multi-path and self-overlapping polygons, holes, and nesting of "
 "2D inside 3D inside 2D. Booleans and transformations inside the 2D program act as in 3D.",
 ["programs", "inputs"], "all nestings of 2D programs under extrude/projection/hull",
 T + "the extruded geometry.",
 ["src/hob3l/csg3.c", "src/hob3l/csg2-hull.c", "src/hob3l/csg2-bool.c", "src/hob3lop/op-poly.c"],
 [("extrusion", "src/hob3l/csg3.c:csg3_from_linext"), ("rotation", "src/hob3l/csg3.c:csg3_from_rotext"), ("projection", "src/hob3l/csg3.c:csg3_from_projection"),
  ("hull", "src/hob3l/csg2-hull.c")],
 [], ["STL output"])

prop("P06", "Functor arguments bind and default as documented",
 "Every functor maps its positional and named arguments, their defaults and their alternatives (radius/diameter, scalar/vector, centering, point and face lists, numbers of sides, colour names, text and import settings) "
 "to the documented shape, transformation or attribute. Mutually exclusive, missing, misplaced, ill-typed or out-of-range arguments are rejected with an error instead of producing a shape; unknown ones are treated as --unknown-param says (default: warn, then as if they were absent).",
 ["inputs"], "all combinations of positional and named arguments per functor, in all orders, with values of every type",
 "The tests call functors in a few usual ways; argument combinations are exponentially many and neither the shape nor the rejection is checked.",
 ["src/hob3l/scad.c", "src/hob3l/csg3.c", "doc/scadformat.md"],
 [("argument binding", "src/hob3l/scad.c:get_arg"), ("per-functor rules", "src/hob3l/scad.c:*_from_item"), ("shape construction", "src/hob3l/csg3.c:csg3_from_*")],
 [], ["STL output", "exit status and error message"])

prop("P07", "The layer stack samples the model at the documented heights",
 "Layers lie at z = first + i*step, where by default the first is half a step above the lowest point of the model's bounding box and layers continue up to the highest point, "
 "or as given by the explicit minimum, maximum, single-layer and step options. Each layer is the cross section of the model at its own height, no layer that the model reaches is missing, "
 "and each emitted layer solid starts at the layer's height with thickness step minus layer gap.",
 ["configurations", "inputs"], "all models and all combinations of step, min, max, single layer and layer gap options",
 "The tests never read the z values; an off-by-one in the layer count or a wrong bounding box passes.",
 ["src/hob3l/main.c", "src/hob3l/csg3.c", "src/hob3l/csg2-layer.c", "src/hob3l/csg2-2stl.c", "include/hob3l/csg2.h"],
 [("bounding box", "src/hob3l/csg3.c:cp_csg3_tree_minmax"), ("range setup", "src/hob3l/main.c:do_file"), ("z extent of a layer", "src/hob3l/csg2-2stl.c")],
 [], ["STL output", "Info line"])

prop("P08", "Every emitted layer solid is a closed, consistently oriented 2-manifold",
 "In the STL output every layer is a closed surface: each directed triangle edge is matched by its reverse, no triangle is degenerate, top and bottom lie in the two layer planes, side walls are vertical, "
 "all facets face outward and carry the matching normal, and the enclosed volume equals the layer's area times its thickness. This holds for every accepted model, including touching, nested and self-overlapping ones.",
 ["inputs", "programs"], "all accepted models",
 "The README promises 2-manifold output but no test examines the facets.",
 ["src/hob3l/csg2-2stl.c", "src/hob3lop/op-trianglify.c", "src/hob3lop/op-sweep.c"],
 [("triangulation with outline flags", "src/hob3lop/op-trianglify.c"), ("solid emission", "src/hob3l/csg2-2stl.c")],
 [("outline flags", "which triangle edges lie on the region boundary", "src/hob3lop/op-trianglify.c")], ["STL output"])

prop("P09", "All output formats describe the same layers",
 "Text STL, binary STL, the JavaScript scene, the PostScript pages and the sliced SCAD dump written for one input describe the same layers: same heights and the same filled regions, "
 "and the two STL variants and the JavaScript scene the same triangles. Each file is well formed: counts match contents, every JavaScript batch has consistent array lengths, at most 65535 vertices and in-range indices, "
 "and the format is selected by the documented suffixes and options.",
 ["inputs", "configurations"], "all models (including more than 65535 vertices) and all output selections",
 "Each format is produced by its own writer and the tests only check the file is not empty.",
 ["src/hob3l/csg2-2stl.c", "src/hob3l/csg2-2js.c", "src/hob3l/csg2-2ps.c", "src/hob3l/csg2-2scad.c", "src/hob3l/main.c", "doc/jsformat.md"],
 [("STL writers", "src/hob3l/csg2-2stl.c"), ("JS writer", "src/hob3l/csg2-2js.c"), ("PS writer", "src/hob3l/csg2-2ps.c"), ("format selection", "src/hob3l/main.c")],
 [], ["the output files"])

prop("P10", "The plane arrangement is non-crossing, balanced and faithful",
 "For every set of integer line segments, the arrangement computed by the polygon library consists of non-degenerate integer segments that meet only in common end points, with no duplicates; "
 "after applying a boolean function of the operands every vertex has even degree and the enclosed region is the function of the operands' even-odd regions. "
 "Every vertex is an input vertex or a true crossing point rounded to the grid, and no edge strays from its source line by more than the rounding distance.",
 ["inputs"], "all sets of segments/polygons with coordinates within the permitted integer range, including overlapping, collinear, vertical, horizontal and touching ones",
 "The 57 library tests check that conversion of fixed polygons does not assert; near-degenerate configurations are unbounded.",
 ["src/hob3lop/op-sweep.c", "src/hob3lop/op-sweep-reduce.c", "src/hob3lop/matq.c"],
 [("exact intersection sweep", "src/hob3lop/op-sweep.c:cq_sweep_intersect"), ("snap rounding", "src/hob3lop/op-sweep.c"), ("member reduction", "src/hob3lop/op-sweep-reduce.c"),
  ("exact predicates", "src/hob3lop/matq.c")],
 [("agenda", "pending sweep events", "src/hob3lop/op-sweep.c"), ("sweep state", "edges crossing the sweep line", "src/hob3lop/op-sweep.c")],
 ["library API"])

prop("P11", "Triangles and paths exactly partition the region of a polygon set",
 "For every valid polygon arrangement, the triangulation covers exactly the enclosed region: triangles are non-degenerate, consistently oriented, use only vertices of the arrangement, do not overlap, "
 "and a triangle edge is marked as outline exactly when it lies on the region's boundary. The extracted outline paths traverse exactly the boundary edges, each once, and describe the same region.",
 ["inputs"], "all valid arrangements",
 "The library tests only check that triangulation of 41 fixed polygons does not fail.",
 ["src/hob3lop/op-trianglify.c", "src/hob3lop/op-poly.c"],
 [("monotone triangulation", "src/hob3lop/op-trianglify.c"), ("path extraction", "src/hob3lop/op-poly.c")], [], ["library API"])

prop("P12", "Coordinates survive the integer grid",
 "Model coordinates and the layer's height are rounded to the nearest number of the integer grid, and every vertex of an emitted layer is a point where the rounded model's edges cross the layer's plane (or such outlines cross), rounded to the grid: "
 "no vertex is off by more than a grid step, coordinates on the grid are reproduced exactly, and shapes thinner than the grid vanish or keep a grid step. The grid is the one asked for (--grid, --gran, default 8192 per mm) "
 "unless the automatic mode finds that the model, subtracted parts and heights included, does not fit: then, or for --grid=0, it is the finest power of two that lets the X and Y coordinates fit 24 bits (30 with --auto-grid-max, 30 for heights), "
 "so that binary STL holds them exactly. With --no-auto-grid, coordinates that do not fit are refused and never come out wrapped around.",
 ["inputs", "configurations"], "models of all sizes (micrometres to kilometres) and offsets, all grid options",
 "The tests use models of ordinary size and never read coordinates back.",
 ["src/hob3l/main.c", "include/hob3lop/matq.h", "src/hob3lop/matq.c", "src/hob3lop/op-slice.c", "src/hob3l/csg2-layer.c"],
 [("automatic grid", "src/hob3l/main.c:auto_dim_scale"), ("import/export of coordinates", "include/hob3lop/matq.h"), ("interpolation at z", "src/hob3lop/op-slice.c")],
 [], ["STL output", "Info line"])

prop("P13", "The SCAD reader accepts exactly the documented syntax",
 "Every file derivable from the documented grammar is parsed into the structure the grammar gives it, and files not derivable from it are rejected with a syntax error; comments and white space between tokens never matter. "
 "Dumping the parsed program and reading the dump back yields the same program.",
 ["inputs"], "all token sequences and all spellings of tokens",
 "The tests parse a set of valid files; rejection and structure are not tested at all.",
 ["src/hob3l/syn.c", "src/hob3l/syn-2scad.c", "src/hob3l/scad-2scad.c", "doc/scadformat.md"],
 [("scanner", "src/hob3l/syn.c:tok_next"), ("recursive descent parser", "src/hob3l/syn.c:parse_stmt_item"), ("dumps", "src/hob3l/syn-2scad.c, src/hob3l/scad-2scad.c")],
 [], ["exit status", "--dump-syn", "--dump-scad"])

prop("P14", "Every input ends in success or a located error, never in a crash",
 "For every input file and option setting the tool terminates either with status 0, or with a non-zero status and an error message naming the problem; when the input is at fault the message gives the file and line. "
 "The severity options (error, warn, ignore) decide only whether a complaint stops the conversion, is reported, or is silent: the rest of the model is converted as if the offending element were absent or empty as documented.",
 ["inputs", "configurations"], "all syntactically or semantically wrong inputs, all severity options",
 "The tests contain only valid inputs with default severities.",
 ["src/hob3l/main.c", "src/hob3l/syn-msg.c", "src/hob3l/scad.c", "src/hob3l/csg3.c", "src/hob3l/syn.c"],
 [("message collection", "src/hob3l/syn-msg.c"), ("severity options", "src/hob3l/opt.switch")], [], ["exit status", "stderr"])

prop("P15", "Imported and included files mean the same as their inline equivalents",
 "A text or binary STL file means the same as the polyhedron with the same facets (up to facet orientation as the normals tell), in every context and under every transformation; include means the same as the included text in braces or inline; "
 "relative names resolve against the including file. Re-importing a written STL layer yields the same cross sections, and STL files that are truncated or otherwise not in the format are rejected.",
 ["inputs", "programs"], "all polyhedra, all encodings, nested includes in different directories",
 "Only a few imports are run and none compared with its inline equivalent.",
 ["src/hob3l/stl-parse.c", "src/hob3l/syn.c", "src/hob3l/csg3.c"],
 [("STL reader", "src/hob3l/stl-parse.c"), ("include", "src/hob3l/syn.c:parse_include_push_stmt_item"), ("file name resolution", "src/hob3l/syn.c:read_file")],
 [], ["STL output", "exit status"])

prop("P16", "The base library's containers behave like their mathematical models",
 "For every history of operations, the ordered dictionary is a sorted sequence (search, neighbours, insertion at either end of equal keys or at a position, removal, swap, split, join, iteration), stays balanced, and keeps augmented data up to date; "
 "the heap always yields its least element; vectors, strings, lists and sorting act like finite sequences.",
 ["histories"], "all operation sequences on all container types",
 "The unit tests run a few fixed sequences plus two random ones for the dictionary, and none for most vector operations.",
 ["src/hob3lbase/dict.c", "src/hob3lbase/heap.c", "src/hob3lbase/vec.c", "src/hob3lbase/list.c", "src/hob3lbase/qsort.c", "src/hob3lbase/vchar.c"],
 [("red-black tree", "src/hob3lbase/dict.c"), ("binary heap", "src/hob3lbase/heap.c"), ("generic vector", "src/hob3lbase/vec.c")],
 [("tree", "nodes with parent, child and colour", "include/hob3lbase/dict_tam.h")], ["library API"])

prop("P17", "SVG import draws the documented region",
 "An imported SVG file contributes the even-odd union of its basic shapes and paths (absolute and relative commands, implicit repetition and closing), each under the product of its nested transforms, with view box, unit, aspect ratio, nesting and layer selection applied as documented; an error in path data ends the path there. "
 "Spelling (white space, entities, quotes, comments, namespace prefixes, number formats, omitted separators) never matters, and files that are not well-formed XML are rejected.",
 ["inputs"], "all documents from the supported elements, path commands and transforms",
 "Only a few SVG files are converted and no output is examined.",
 ["src/hob3l/svg-parse.c", "src/hob3l/xml-parse.c"],
 [("path interpreter", "src/hob3l/svg-parse.c"), ("XML reader", "src/hob3l/xml-parse.c")], [("pen", "current and start point, last control point", "src/hob3l/svg-parse.c")], ["STL output"])

prop("P18", "The cross section of any closed polyhedron is exact at every height",
 "For every closed polyhedron (convex or not, with handles, cavities, horizontal faces, or vertices and edges lying exactly in the cutting plane) and every height, the cross section is the set of points enclosed by the surface just above that plane: "
 "what starts at the height is in, what ends there is out. A sphere is cut as the documented polyhedron of $fn sides, or, with more sides than --max-fn or none, in true ellipses.",
 ["inputs"], "all integer polyhedra and all cutting heights, especially those through vertices",
 "The default half-step offset avoids vertices in the cutting plane for most test files, and the result is not checked.",
 ["src/hob3lop/op-slice.c", "src/hob3l/csg2-layer.c"],
 [("half-open edge test and pairing", "src/hob3lop/op-slice.c")], [], ["STL output with a single layer"])

prop("P20", "The command line is read left to right; equivalent spellings mean the same",
 "Every option sequence is either rejected with a message and status 1 before anything is converted (unknown options, missing or malformed arguments, a second input file, no input file, an unknown file ending), or asks for help (status 0), or has exactly the effect of its settings: "
 "later options override earlier ones, aliases and all spellings of numbers, booleans and severities mean the same, the output format is the last one asked for or the one of the file ending, and the output goes to the named file or to standard output and nowhere else.",
 ["configurations"], "all sequences of options with all spellings of their arguments",
 "The tests use a handful of fixed option lists.",
 ["src/hob3l/main.c", "src/hob3l/opt.switch"],
 [("option table", "src/hob3l/opt.switch"), ("argument readers", "src/hob3l/main.c:get_arg_dim")], [("settings", "cp_opt_t", "src/hob3l/main.c")], ["exit status", "output files", "stderr"])

prop("P21", "Integer geometry is exact over the whole range of coordinates",
 "For all points with coordinates of up to 30 bits and a sign: cross products, squared distances and quotients are exact; two segments are said to meet exactly if they do, with the right end points flagged, "
 "and the crossing is the exact rational point, whichever segment it is computed from; crossings and points are ordered by their exact values, equal exactly if they denote the same point, and rounded to the nearest grid point "
 "(halves upwards); a point is above, on or below an edge according to whether the edge meets its unit square. The result does not depend on whether the compiler has 128 bit integers. "
 "With coordinates beyond that range an overflow may be reported, but no wrong result is ever returned.",
 ["inputs"], "all operands in the range, and all fractions of 64 bit numerators and denominators",
 "The unit test compares a few dozen constants, and random ones only for one of the operations; carries, corrections of the quotient and ties of almost equal fractions need specific operands.",
 ["src/hob3lop/matq.c", "include/hob3lop/matq.h", "include/hob3lop/def_tam.h"],
 [("crossing", "src/hob3lop/matq.c:cq_vec2if_intersect"), ("96 bit division", "src/hob3lop/matq.c:cq_dim_div_ew"), ("comparison of fractions", "src/hob3lop/matq.c:cq_dimif_cmp_frac_aux"),
  ("point against edge", "src/hob3lop/matq.c:cq_cmp_edge_rnd")],
 [], ["results of the library functions"])

prop("P22", "The matrix library computes correct results, also in place",
 "For every sequence of operations on plain matrices, matrices with translation and matrices with inverse of 2 to 4 dimensions: products, inverses, transposes, determinants, comparisons, conversions between the types and the "
 "constructors (unit, scaling, translation, rotation around an axis, any direction or in a coordinate plane, mirroring, rotating a direction into the Z axis and a plane) are those of linear algebra, also when the result overwrites an operand; a matrix with "
 "inverse always carries the inverse and determinant of its matrix; what cannot be represented (singular matrices, projections, a translation that gets lost) is reported by the result. Vectors and boxes: likewise (cross and "
 "dot products, orientation, angles, nearest point, components; union and intersection of boxes). Sines and cosines of multiples of 30 degrees that are rational are exact, and the points of a circle are exactly mirrored.",
 ["inputs", "histories"], "all types, all operands within a moderate range, every choice of result and operand registers",
 "The unit test has a few calls of 4 dimensional matrices and no history; results in place, the types with inverse and most conversions occur in no test.",
 ["src/hob3lmat/algo.c", "src/hob3lmat/mat_gen_ext.c", "src/hob3lmat/mat_is_rot.c", "include/hob3lmat/mat_gen_inl.h", "include/hob3lmat/algo.h"],
 [("inversion", "src/hob3lmat/algo.c:cp_mat3w_inv"), ("product in place", "src/hob3lmat/mat_gen_ext.c:cp_mat3wi_mul"), ("conversions", "src/hob3lmat/algo.c:cp_mat3wi_from_mat4i"),
  ("into the Z axis", "src/hob3lmat/algo.c:cp_mat3w_xform_into_zx_2"), ("exact sines", "src/hob3lmat/algo.c:cp_sin_deg")],
 [("matrix with inverse", "cp_mat3wi_t", "include/hob3lmat/mat_gen_tam.h")], ["results of the library functions"])

P.append(json.loads(r'''{"id": "P19", "title": "UTF-8 text is decoded and encoded exactly", "statement": "For every byte sequence, the decoder yields exactly the Unicode scalar values the sequence encodes, in order, and stops with an error that leaves the position at the first sequence that is overlong, truncated, a surrogate, out of range or otherwise malformed; string escapes (\\n, \\t, \\r, \\\\, \\\", \\', \\xHH, \\uHHHH, \\UHHHHHH) denote the documented code points and malformed ones are errors. Encoding a valid code point yields its shortest UTF-8 form, or nothing if the buffer is too small, and decoding it gives the code point back.", "quantifier": {"over": ["inputs"], "text": "all byte sequences and all code points"}, "why_tests_cant": "There is no test of the UTF-8 code; names with non-ASCII characters occur in no test file.", "anchors": {"files": ["src/hob3lbase/utf8.c", "include/hob3lbase/utf8.h", "src/hob3l/xml-parse.c"], "state": [{"name": "iterator", "meaning": "rest of the text and the error found", "where": "include/hob3lbase/utf8.h:cp_utf8_iter_t"}], "mechanism": [{"name": "decoder", "where": "src/hob3lbase/utf8.c:cp_utf8_decode"}, {"name": "escape decoder", "where": "src/hob3lbase/utf8.c:cp_utf8_escaped_decode"}, {"name": "encoder", "where": "src/hob3lbase/utf8.c:cp_utf8_encode"}], "observe_at": ["results of the library functions"], "hook_needed": null}}'''))

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, sch); assert p["statement"].count(". ") <= 2, p["id"]
    print(len(P), "properties")
