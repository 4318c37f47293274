#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
SEM = ("The TLA+ semantics (ScadSem) is an executable oracle; TLC generates the programs (random walks over the construction "
       "state machine, fixed seed) with the answer at every sample point; every layer hob3l writes is compared at those points. "
       "Bounded: small integer shapes, sampled points at least 1/64 away from surfaces.")
CHECKS = {
 "P01": ("p01.py", "TLA+ denotational semantics (ScadSem.tla; Bulk.tla for large models), TLC-generated programs replayed into hob3l, per-point comparison", SEM),
 "P02": ("p02.py", "TLA+ state machine of the lazy batching (model-checked exhaustively for small K) and TLC-generated truth tables over ten solids, and large models (Bulk.tla), replayed into hob3l under every option", SEM),
 "P03": ("p03.py", "TLA+ semantics of ignored children and modifiers, TLC-generated programs replayed into hob3l", SEM),
 "P04": ("p04.py", "TLA+ semantics with exact rational matrices, TLC-generated transformation chains replayed into hob3l", SEM),
 "P05": ("p05.py", "TLA+ semantics of 2D regions, extrusion, hull and projection, TLC-generated programs replayed into hob3l", SEM),
 "P06": ("p06.py", "TLA+ model of argument binding (Args.tla): TLC generates calls with their verdict and shape, replayed into hob3l; canonical forms of the calls of every functor (Canon.tla) compared with --dump-scad", "Argument names, order, types and ranges are drawn by TLC from the binding model; the verdict (accepted or rejected) and, when accepted, the region of the shape are compared. Cases the documentation leaves open are only required not to crash."),
 "P07": ("p07.py", "TLA+ state machine of the layer stack (Layers.tla): TLC generates models, height options and the expected layers, replayed into hob3l; stacks of up to 900 layers from Bulk.tla", "Layer heights, counts, thickness and the region of every layer are compared for TLC-drawn stacks with exact dyadic heights; cases the documentation leaves open are listed in DESIGN.md."),
 "P08": ("p08.py", "TLC judges every recorded layer solid against StlSolid.tla (closed, oriented, prismatic 2-manifold)", "The recorded triangles of every layer of TLC-generated and hand-written models are checked, exactly, in integer grid coordinates."),
 "P09": ("p09.py", "TLA+ state machine of models, layer stacks and output settings (Formats.tla) and of the batch encoding of JavaScript scenes (JsScene.tla, model-checked); runs recorded in every format are judged by TLC (JsTrace.tla) and by the specification's selection of what each format contains", "The same model is written as text STL, binary STL, JavaScript, PostScript and reduced SCAD; the triangles of the scenes are compared with those of the STL by TLC, pages and polygons with the layers, the reduced file is sliced again. Bounded: a few hundred models per run, up to four AddBig copies so that more than 65535 triangles are split into batches."),
 "P10": ("p10.py", "TLC-generated segment sets (GonGen.tla) replayed into the polygon library; TLC judges the recorded arrangement by Arrange.tla", "Non-crossing, fidelity to the source segments, even degree and the region at sample points are judged exactly in integers by TLC for every recorded arrangement. Coordinates up to the limits of the range (2^30 - 1), with numbers of any size; up to 340 edges through one point. Bounded otherwise: sets of up to about 24 segments, single and two-stage sweeps."),
 "P11": ("p11.py", "TLC-generated polygon sets (GonGen.tla) replayed into path and triangle extraction; TLC judges the recorded result by Arrange.tla", "Paths, triangles and their adjacency are judged exactly in integers by TLC for every recorded result."),
 "P13": ("p13.py", "TLA+ recogniser of the documented grammar (Syntax.tla) judges recorded runs of the reader on files that TLC derives and damages (SynGen.tla) and on all short token sequences (SynEnum.tla); dumps are read back and compared with the TLA+ semantics and with the canonical forms of Canon.tla", "Acceptance and structure are decided by the recogniser in TLA+, byte by byte; the dump of the syntax tree is parsed by the same recogniser. The dumps of the later stages (--dump-scad, --dump-csg3) are read back and sliced, and compared with the semantics of the original program. Bounded: files up to about 400 bytes, all token sequences up to three tokens in two contexts and two in the others (four and three in the thorough tier)."),
 "P14": ("p14.py", "TLA+ model of complaints (Faults.tla): TLC generates programs with faulty calls, severities and the permitted outcomes, replayed into hob3l; the recogniser judges the line of syntax errors; TLC-drawn damage (Damage.tla) is run with the address checker", "Outcome, line of the message, set of warnings and the region of what is converted anyway are compared with the specification; damaged programs must end in success or an error message without memory errors. Bounded: one to three faults in small programs, up to four edits per damaged file."),
 "P20": ("p20.py", "TLA+ state machine of the command line (Cmd.tla): TLC generates argument lists with their verdict and canonical form; both are run and everything written is compared", "Bounded: up to twelve arguments per list; the effect of an option as such is covered by other properties, here its spelling, order, errors and destination."),
 "P15": ("p15.py", "TLA+ model of the distribution of a program over files (Files.tla) and recogniser of text and binary STL (StlText.tla): TLC generates file sets and edited STL files with their meaning, and large models as files (Bulk.tla), replayed into hob3l", "Programs are spread by TLC over included and imported files in several directories with decoy files; the region of every layer is compared with the semantics of the whole program. STL files are generated in every spelling and edited exhaustively (every single edit of two files); acceptance is decided by the recogniser. Written layers are imported again. Left open: surfaces that are not closed, trailing data in binary files, binary headers that start with 'solid'."),
 "P12": ("p12.py", "TLA+ specification of grid choice and rounding in exact big rationals (Big.tla, Grid.tla): TLC draws models of all sizes with all grid options and computes the grid and the vertices; replayed into hob3l", "Boxes, prisms, $fn=4 cylinders, tetrahedra and extrusions (plain, hull, projection) in units from 2^-9 to 2^20 mm and decimal fractions, offsets up to 2^21 units, subtracted parts, exact transformations; the grid in the Info line, every vertex of the cut layer and its area are compared with the specification, and binary STL with text STL."),
 "P17": ("p17.py", "TLA+ state machine that writes SVG documents together with the region they mean (Svg.tla) and pushdown recogniser of XML with every single edit of two documents (XmlText.tla); both replayed into hob3l", "Sampled points of TLC-drawn documents (all shapes, all path commands, nested transforms and svg elements, view boxes, units, layer selection) are compared with the region the specification computes; acceptance of edited documents is decided by the recogniser. Bounded: up to seven shapes, coordinates in halves, sample points away from curved boundaries. Left open: only one of width and height given, user units without a view box other than 1 mm, errors in transform lists, CDATA sections, processing instructions, internal DTD subsets."),
 "P16": ("p16.py", "TLA+ state machines of the containers (Dict.tla, Heap.tla, Seqs.tla): TLC generates histories of calls with the permitted results, replayed into the library", "Every public operation of dict.h, heap.h, list.h, vec.h, vchar.h is an action of the specification; results, contents, order, balance, augmented data and cached extrema are compared after every call, with the address checker. Bounded: random histories of up to 300 calls (all histories of three calls on few nodes in the thorough tier)."),
 "P19": ("p19.py", "TLA+ specification of UTF-8 and of string escapes (Utf8.tla): TLC generates byte sequences with the expected code points and errors, replayed into the library", "Sequences mix valid encodings with every kind of malformed one; code points, position and error are compared, and the encoder is compared with the specification's encoding for each buffer size."),
 "P21": ("p21.py", "TLA+ state machine of calls of the integer geometry with results in numbers of any size (Prim.tla, Big.tla): TLC generates histories of calls with their exact results, replayed into the library with and without 128 bit integers", "Points, lines in line with others, pencils through a common rational point, limits of the range, boundaries of the limbs; laws of the specification (crossing is symmetric, division identity) are checked by TLC on every generated call. Bounded: about 150000 calls in the quick tier."),
 "P22": ("p22.py", "TLA+ register machine over rational matrices, vectors and boxes (Mat.tla): TLC generates histories of calls with their exact results, replayed into the library", "All ten matrix types, every combination of result and operand registers (in place), singular and projective matrices, rotations and mirrors with rational sines; laws of the specification (the inverse is one, rotations are orthogonal with determinant 1) are checked by TLC on every call. Bounded: entries are fractions of numbers below 250; about 270000 calls in the quick tier; compared to within 1e-7."),
 "P18": ("p18.py", "TLA+ surface-parity semantics of polyhedra at exact heights, TLC-generated solids replayed into hob3l", SEM),
}
EXTRA = os.path.join(V, "lib", "checks.json")
if os.path.exists(EXTRA):
    for k, v in json.load(open(EXTRA)).items():
        CHECKS[k] = v
NA = [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in CHECKS]
assert not set(CHECKS) - {p["id"] for p in props}, set(CHECKS) - {p["id"] for p in props}
m = {"version": 1, "setup_cmd": "python3-vt lib/setup.py",
     "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks are needed: every check observes the released interfaces (command line, files, public headers)", "source_commits": []},
     "checks": [{"property": k, "quick_cmd": "python3-vt checks/%s quick" % v[0], "thorough_cmd": "python3-vt checks/%s thorough" % v[0],
                 "technique": v[1], "level": "model_checking", "level_note": v[2]} for k, v in sorted(CHECKS.items())],
     "not_applicable": NA}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
