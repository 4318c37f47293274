------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Programs distributed over files.  A finished program of ScadGen is      *)
(* spread: runs of children move to SCAD files that are included, and      *)
(* polyhedra move to text or binary STL files that are imported, in        *)
(* several directories, under relative and absolute names, next to decoys  *)
(* at the places where a reader that resolves names against the wrong      *)
(* directory would look.  Read is the specification of the reader; the law *)
(* SpreadOk says that reading what was spread gives the program back.      *)
(* The answer is that of the program itself.                               *)
(***************************************************************************)
EXTENDS ScadGen

CONSTANTS INCW, IMPW     \* weights (percent) of moving a run / a polyhedron
VARIABLE fs
fvars == <<s3, s2, n, ph, lay, fs>>

Pct(p) == RandomElement(1..100) <= p
(* ------------------------------------------------------------ file names *)
Main == <<"p", "q">>
Cwds == {<<"p">>, <<"p", "q">>, <<"c">>, <<>>}
Dirs == {<<"p", "q">>, <<"p">>, <<"p", "q", "lib">>, <<"p", "lib">>, <<"c">>, <<"p", "a b", "x.y">>, <<>>}

(* where a name leads, seen from a directory; <<"?">> if it leaves the tree *)
RECURSIVE Norm(_, _, _)
Norm(dir, segs, i) ==
  IF i > Len(segs) THEN dir
  ELSE IF segs[i] = "." THEN Norm(dir, segs, i + 1)
  ELSE IF segs[i] = ".." THEN IF dir = <<>> THEN <<"?">> ELSE Norm(SubSeq(dir, 1, Len(dir) - 1), segs, i + 1)
  ELSE Norm(Append(dir, segs[i]), segs, i + 1)

RECURSIVE Common(_, _, _)
Common(a, b, i) == IF i > Len(a) \/ i > Len(b) \/ a[i] # b[i] THEN i - 1 ELSE Common(a, b, i + 1)
Ups(k) == [i \in 1..k |-> ".."]
RandRel(from, to) ==   \* to: directory \o <<file name>>
  LET c == Common(from, SubSeq(to, 1, Len(to) - 1), 1)
      u == TLCEval(IF Pct(75) THEN c ELSE RandomElement(0..c))
      base == Ups(Len(from) - u) \o SubSeq(to, u + 1, Len(to))
      d == TLCEval(RandomElement(1..8))
  IN CASE d = 1 -> <<".">> \o base
       [] d = 2 -> <<"zz", "..">> \o base
       [] d = 3 -> SubSeq(base, 1, Len(base) - 1) \o <<".", base[Len(base)]>>
       [] OTHER -> base
RECURSIVE Join(_, _, _)
Join(segs, i, sep) == IF i = Len(segs) THEN segs[i] ELSE segs[i] \o sep \o Join(segs, i + 1, sep)
(* a spelled name: absolute (ROOT stands for the place of the tree), or segments *)
RandName(from, to) ==
  IF Pct(10) THEN [abs |-> TRUE, segs |-> to, txt |-> "@ROOT@/" \o Join(to, 1, "/")]
  ELSE LET s == TLCEval(RandRel(from, to))
       IN [abs |-> FALSE, segs |-> s, txt |-> Join(s, 1, IF Pct(8) THEN "//" ELSE "/")]
Resolve(nm, from) == IF nm.abs THEN nm.segs ELSE Norm(from, nm.segs, 1)
DirOf(path) == SubSeq(path, 1, Len(path) - 1)

FileName(k, exts) ==
  RandomElement({"part", "a b ", "x-1.v2_", "Q", "in"}) \o ToString(k) \o RandomElement(exts)

(* characters that a string spells with an escape: @Q@ quote, @B@ backslash, @T@ tab, @N@ line feed, @R@ carriage   *)
(* return; @U@ a letter spelled as it is.  (Letters spelled by their numbers are documented for text() only.)       *)
Odd(k) == IF Pct(70 + k - k) THEN "" ELSE RandomElement({"a@Q@b", "@Q@@Q@", "a@B@b", "@B@@B@n", "@T@x", "y@N@z", "@R@", "@U@", "c@U@", "@U@@B@u", "@B@x41@Q@"})

(* ------------------------------------------------------------ STL meshes *)
X3(p, q, r) == LET a == [i \in 1..3 |-> q[i] - p[i]] b == [i \in 1..3 |-> r[i] - p[i]]
               IN <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
RECURSIVE Newell(_, _, _)
Newell(f, pts, i) ==
  IF i >= Len(f) THEN <<0, 0, 0>>
  ELSE LET x == X3(pts[f[1]+1], pts[f[i]+1], pts[f[i+1]+1]) y == Newell(f, pts, i + 1)
       IN <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
P2(p, ax) == CASE ax = 1 -> <<p[2], p[3]>> [] ax = 2 -> <<p[3], p[1]>> [] OTHER -> <<p[1], p[2]>>
Area2(a, b, c) == (b[1]-a[1])*(c[2]-a[2]) - (b[2]-a[2])*(c[1]-a[1])
(* ear clipping; f: indices; s: +1/-1, orientation of the face in the projection *)
Ears(f, pts, ax, s) ==
  LET m == Len(f)
      at(i) == P2(pts[f[((i + m - 1) % m) + 1] + 1], ax)
  IN {i \in 1..m :
        LET a == at(i - 1) b == at(i) c == at(i + 1) IN
        /\ s * Area2(a, b, c) > 0
        /\ \A j \in (1..m) \ {i, ((i + m - 2) % m) + 1, (i % m) + 1} :
             ~(s * Area2(a, b, at(j)) >= 0 /\ s * Area2(b, c, at(j)) >= 0 /\ s * Area2(c, a, at(j)) >= 0)}
RECURSIVE Clip(_, _, _, _)
Clip(f, pts, ax, s) ==     \* <<>> if it fails
  LET e == Ears(f, pts, ax, s) m == Len(f) IN
  IF e = {} THEN <<>>
  ELSE IF m = 3 THEN <<f>>
  ELSE LET i == TLCEval(RandomElement(e))
           pr == ((i + m - 2) % m) + 1
           nx == (i % m) + 1
           rest == TLCEval(Clip([j \in 1..(m - 1) |-> IF j < i THEN f[j] ELSE f[j + 1]], pts, ax, s))
       IN IF rest = <<>> THEN <<>> ELSE <<<<f[pr], f[i], f[nx]>>>> \o rest
RECURSIVE TriFaces(_, _, _)
TriFaces(faces, pts, i) ==
  IF i > Len(faces) THEN <<>>
  ELSE LET N == Newell(faces[i], pts, 1)
           ax == CHOOSE a \in 1..3 : N[a] # 0
           t == TLCEval(Clip(faces[i], pts, ax, IF N[ax] > 0 THEN 1 ELSE -1))
           r == TLCEval(TriFaces(faces, pts, i + 1))
       IN IF t = <<>> \/ r = <<<<>>>> THEN <<<<>>>> ELSE t \o r
Faces(nd) == nd.a[2].v
Mesh(nd) == TriFaces(Faces(nd), nd.pts, 1)

(* six times the signed volume under a surface of faces (fans) *)
RECURSIVE Vol(_, _, _), VolFan(_, _, _)
VolFan(f, pts, i) == IF i >= Len(f) THEN 0
  ELSE LET x == X3(<<0,0,0>>, pts[f[i]+1], pts[f[i+1]+1]) p == pts[f[1]+1]
       IN p[1]*x[1] + p[2]*x[2] + p[3]*x[3] + VolFan(f, pts, i + 1)
Vol(fc, pts, i) == IF i > Len(fc) THEN 0 ELSE VolFan(fc[i], pts, 2) + Vol(fc, pts, i + 1)
HalfEdges(fc) == {<<i, j>> \in (1..Len(fc)) \X (1..20) : j <= Len(fc[i])}
EdgeOf(fc, h) == <<fc[h[1]][h[2]], fc[h[1]][(h[2] % Len(fc[h[1]])) + 1]>>
(* a closed surface: every directed edge occurs as often as its reverse *)
Closed(fc) == \A h \in HalfEdges(fc) :
  LET e == EdgeOf(fc, h) IN
  Cardinality({g \in HalfEdges(fc) : EdgeOf(fc, g) = e}) = Cardinality({g \in HalfEdges(fc) : EdgeOf(fc, g) = <<e[2], e[1]>>})
MeshOk(nd, m) == Closed(m) /\ Vol(m, nd.pts, 1) = Vol(Faces(nd), nd.pts, 1)

(* ----------------------------------------------------------- STL writing *)
NumText(k) ==
  LET a == IF k < 0 THEN -k ELSE k
      sg == IF k < 0 THEN "-" ELSE ""
      d == TLCEval(RandomElement(1..12))
      t == ToString(a)
  IN CASE d = 1 -> sg \o t \o "."
       [] d = 2 -> sg \o t \o ".0"
       [] d = 3 -> sg \o t \o ".000000e+00"
       [] d = 4 -> sg \o t \o "E0"
       [] d = 5 -> sg \o "." \o t \o (IF a < 10 THEN "e1" ELSE IF a < 100 THEN "e+2" ELSE "e3")
       [] d = 6 -> sg \o t \o "00e-2"
       [] d = 7 -> sg \o "0" \o t \o ".00"
       [] d = 8 -> (IF k >= 0 THEN "+" ELSE "-") \o t
       [] d = 9 -> IF k = 0 THEN "-0" ELSE sg \o t \o ".0000"
       [] OTHER -> sg \o t
Seps == << <<"\n  ", " ">>, <<"\r\n\t", " ">>, <<" ", " ">>, <<"\n\n", "\t">>, <<"\n", "\n">>, <<"  ", "   ">> >>
(* facet: vertices as indices of pts, counter-clockwise from outside; nrm: what is written as normal *)
FacetText(f, nrm, pts, sep) ==
  LET v(i) == "vertex" \o sep[2] \o NumText(pts[f[i]+1][1]) \o sep[2] \o NumText(pts[f[i]+1][2]) \o sep[2] \o NumText(pts[f[i]+1][3]) \o sep[1]
  IN "facet" \o sep[2] \o "normal" \o sep[2] \o NumText(nrm[1]) \o sep[2] \o NumText(nrm[2]) \o sep[2] \o NumText(nrm[3]) \o sep[1]
     \o "outer" \o sep[2] \o "loop" \o sep[1] \o v(1) \o v(2) \o v(3) \o "endloop" \o sep[1] \o "endfacet" \o sep[1]

Rot3v(f, k) == [i \in 1..3 |-> f[((i + k - 1) % 3) + 1]]
RECURSIVE Shuffle(_)
Shuffle(s) == IF Len(s) <= 1 THEN s
  ELSE LET i == TLCEval(RandomElement(1..Len(s))) IN
       <<s[i]>> \o Shuffle([j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]])
Gcd3(v) == LET m == CHOOSE g \in 1..2000 : (\A i \in 1..3 : v[i] % g = 0) /\ \A h \in (g + 1)..2000 : \E i \in 1..3 : v[i] % h # 0 IN m
(* facets of a mesh in STL orientation: some the wrong way round, the normal tells *)
StlFacets(m, pts) ==
  LET order == TLCEval(Shuffle(m))
      mode == TLCEval(RandomElement(1..4))
  IN [i \in 1..Len(order) |->
        LET f == order[i]
            x == X3(pts[f[3]+1], pts[f[2]+1], pts[f[1]+1])       \* outward: faces are clockwise
            flip == mode = 1 /\ Pct(40)
            g == IF flip THEN f ELSE <<f[3], f[2], f[1]>>
            nrm == IF mode = 2 THEN <<0, 0, 0>> ELSE x
        IN TLCEval([v |-> Rot3v(g, RandomElement(0..2)), n |-> nrm])]
SolidNames == {"", " ", "x", "\tthing", "facet normal 0 0 1", "endsolid x", "name with \"quotes\" and 8 words", "@8@ x", "9.9.9"}
StlText(fc, pts) ==
  LET sep == TLCEval(RandomElement({Seps[i] : i \in 1..Len(Seps)}))
      nm == TLCEval(RandomElement(SolidNames))
      nl == IF sep[1] = "\r\n\t" THEN "\r\n" ELSE "\n"
  IN <<"solid" \o (IF nm = "" THEN "" ELSE " ") \o nm \o nl>>
     \o [i \in 1..Len(fc) |-> FacetText(fc[i].v, fc[i].n, pts, sep)]
     \o <<"endsolid" \o RandomElement({"", nl, " " \o nl, " x" \o nl, " a b", nl \o nl, " @8@", " -", "\t1.5.7 x" \o nl})>>
StlFile(path, nd, m) ==
  LET fc == TLCEval(StlFacets(m, nd.pts)) IN
  IF Pct(55) THEN [p |-> path, t |-> "text", b |-> StlText(fc, nd.pts), orig |-> nd]
  ELSE [p |-> path, t |-> "bin", orig |-> nd, head |-> RandomElement({"", " ", "Solid", "binary", "sOLID facet", "soli"}),
        attr |-> RandomElement({0, 1, 65535}),
        b |-> [i \in 1..Len(fc) |-> <<fc[i].n>> \o [j \in 1..3 |-> nd.pts[fc[i].v[j] + 1]]]]

(* ------------------------------------------------------------- spreading *)
(* st: [fs: files so far, k: counter, use: names used (directory, segments)] *)
Used(st, dir, nm) == [st EXCEPT !.use = IF nm.abs THEN @ ELSE Append(@, <<dir, nm.segs>>)]
IsPhd(nd) == nd.k = "phd" /\ nd.f = "polyhedron"
NodeOf(nd, c, inc) == [f |-> nd.f, a |-> nd.a, m |-> nd.mo, c |-> c, inc |-> inc]
IncNode(nm) == [f |-> "include", a |-> <<>>, m |-> "", c |-> <<>>, inc |-> FALSE, nm |-> nm]
ImpArgs(nm) ==
  LET f == [q |-> nm.txt] d == TLCEval(RandomElement(1..6)) IN
  CASE d = 1 -> <<Nam("file", f)>>
    [] d = 2 -> <<Pos(f), Nam("convexity", 4)>>
    [] d = 3 -> <<Nam("center", FALSE), Nam("file", f)>>
    [] d = 4 -> <<Pos(f), Nam("layer", [q |-> "a"]), Nam("dpi", 10)>>
    [] OTHER -> <<Pos(f)>>
ImpNode(nd, nm) == [f |-> "import", a |-> ImpArgs(nm), m |-> nd.mo, c |-> <<>>, inc |-> FALSE, nm |-> nm]

\* may a run i..j of the children c of an operation be a block?
RunOk(op, c, i, j) == j = i \/ CASE op = "int" -> FALSE
                                 [] op = "dif" -> \E k \in 1..(i - 1) : ~c[k].ig
                                 [] OTHER -> TRUE

RECURSIVE Place(_, _, _), PlaceSeq(_, _, _, _, _)
PlaceImp(nd, dir, st) ==
  LET m == TLCEval(Mesh(nd)) IN
  IF m = <<<<>>>> THEN [n |-> NodeOf(nd, <<>>, FALSE), st |-> st]
  ELSE LET have == {i \in 1..Len(st.fs) : st.fs[i].t # "scad" /\ st.fs[i].orig.pts = nd.pts /\ Faces(st.fs[i].orig) = Faces(nd)}
           path == TLCEval(IF have # {} THEN st.fs[CHOOSE i \in have : TRUE].p
                   ELSE RandomElement(Dirs) \o <<Odd(st.k) \o FileName(st.k, {".stl", ".STL", ".stlb", "", ".dat"})>>)
           nm == TLCEval(RandName(dir, path))
           st1 == IF have # {} THEN st ELSE [st EXCEPT !.k = @ + 1, !.fs = Append(@, TLCEval(StlFile(path, nd, m)))]
       IN [n |-> ImpNode(nd, nm), st |-> Used(st1, dir, nm)]
\* a run of nodes moves to a new file
PlaceInc(run, op, dir, st) ==
  LET path == TLCEval(RandomElement(Dirs) \o <<FileName(st.k, {".scad", ".inc", ""})>>)
      nm == TLCEval(RandName(dir, path))
      r == TLCEval(PlaceSeq(run, 1, IF Len(run) = 1 THEN "one" ELSE op, DirOf(path), [st EXCEPT !.k = @ + 1]))
  IN [n |-> IncNode(nm), st |-> Used([r.st EXCEPT !.fs = Append(@, [p |-> path, t |-> "scad", b |-> r.s])], dir, nm)]
Place(nd, dir, st) ==
  IF IsPhd(nd) /\ Pct(IMPW) THEN PlaceImp(nd, dir, st)
  ELSE IF nd.c = <<>> THEN [n |-> NodeOf(nd, <<>>, FALSE), st |-> st]
  ELSE IF nd.f # "" /\ Pct(INCW \div 2)
  THEN LET r == TLCEval(PlaceInc(nd.c, nd.k, dir, st)) IN [n |-> NodeOf(nd, <<r.n>>, TRUE), st |-> r.st]
  ELSE LET r == TLCEval(PlaceSeq(nd.c, 1, nd.k, dir, st)) IN [n |-> NodeOf(nd, r.s, FALSE), st |-> r.st]
PlaceSeq(c, i, op, dir, st) ==
  IF i > Len(c) THEN [s |-> <<>>, st |-> st]
  ELSE LET L == TLCEval(RandomElement(1..Min2(3, Len(c) - i + 1)))
           empty == st.k < 12 /\ Pct(INCW \div 6)
           move == st.k < 12 /\ Pct(INCW) /\ RunOk(op, c, i, i + L - 1)
           r == TLCEval(IF empty THEN PlaceInc(<<>>, op, dir, st)
                ELSE IF move THEN PlaceInc(SubSeq(c, i, i + L - 1), op, dir, st)
                ELSE Place(c[i], dir, st))
           q == TLCEval(PlaceSeq(c, IF empty THEN i ELSE IF move THEN i + L ELSE i + 1, op, dir, r.st))
       IN [s |-> <<r.n>> \o q.s, st |-> q.st]

MainFile == Main \o <<"main.scad">>
Spread(prog) ==
  LET r == TLCEval(PlaceSeq(prog, 1, "uni", Main, [fs |-> <<>>, k |-> 1, use |-> <<>>]))
  IN [files |-> Append(r.st.fs, [p |-> MainFile, t |-> "scad", b |-> r.s]), use |-> r.st.use, cwd |-> RandomElement(Cwds)]

(* the places where a reader would look that resolves a name against another directory *)
Decoys(sp) ==
  LET real == {sp.files[i].p : i \in 1..Len(sp.files)}
      all == UNION {{Norm(d, sp.use[i][2], 1) : d \in {Main, sp.cwd, <<>>} \ {sp.use[i][1]}} : i \in 1..Len(sp.use)}
  IN {p \in all : p # <<"?">> /\ p \notin real}

(* --------------------------------------------------------------- reading *)
RECURSIVE Read(_, _), ReadSeq(_, _, _, _)
FileAt(files, p) == files[CHOOSE i \in 1..Len(files) : files[i].p = p]
Read(files, path) == ReadSeq(files, FileAt(files, path).b, 1, DirOf(path))
ReadSeq(files, b, i, dir) ==
  IF i > Len(b) THEN <<>>
  ELSE LET x == b[i] IN
       (IF x.f = "include" THEN Read(files, Resolve(x.nm, dir))
        ELSE IF x.f = "import" THEN <<[Src(FileAt(files, Resolve(x.nm, dir)).orig) EXCEPT !.m = x.m]>>
        ELSE <<[f |-> x.f, a |-> x.a, m |-> x.m, c |-> ReadSeq(files, x.c, 1, dir)]>>)
       \o ReadSeq(files, b, i + 1, dir)

(* --------------------------------------------------------------- machine *)
DupI == Step /\ On("dup") /\ Len(s3) > 0
        /\ \E k \in Pick(Xfs) : s3' = Append(s3, TLCEval(MkXf(k, <<s3[Len(s3)]>>))) /\ UNCHANGED s2
FInit == Init /\ fs = <<>>
FSpread == ph = "done" /\ ph' = "spread" /\ fs' = TLCEval(Spread(s3)) /\ UNCHANGED <<s3, s2, n, lay>>
FNext == ((Next \/ DupI) /\ UNCHANGED fs) \/ FSpread
FSpec == FInit /\ [][FNext]_fvars

SpreadOk == ph = "spread" =>
  /\ Read(fs.files, MainFile) = SrcProg(s3)
  /\ \A i \in 1..Len(fs.files) : fs.files[i].t # "scad" => MeshOk(fs.files[i].orig, Mesh(fs.files[i].orig))
  /\ \A i, j \in 1..Len(fs.files) : i # j => fs.files[i].p # fs.files[j].p

FileJson(f) == IF f.t = "scad" THEN [p |-> f.p, t |-> f.t, b |-> f.b]
               ELSE IF f.t = "text" THEN [p |-> f.p, t |-> f.t, b |-> f.b]
               ELSE [p |-> f.p, t |-> f.t, b |-> f.b, head |-> f.head, attr |-> f.attr]
EmitF == (ph = "spread") =>
  LET e == Effective(s3)
      ls == SetToSortedSeq(lay)
      d == Decoys(fs)
  IN PrintT(ToJson([files |-> [i \in 1..Len(fs.files) |-> FileJson(fs.files[i])],
                    use |-> fs.use, cwd |-> fs.cwd, main |-> MainFile, decoys |-> d, dirs |-> {Main, <<>>, fs.cwd},
                    prog |-> SrcProg(s3), r |-> R,
                    lay |-> [i \in 1..Len(ls) |-> [z2 |-> ls[i], v |-> Answer(e, ls[i])]]]))
=============================================================================
