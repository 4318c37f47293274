------------------------------- MODULE Canon -------------------------------
(***************************************************************************)
(* How calls bind their arguments, for every functor and every parameter,  *)
(* also for those that do not change the geometry.  A call is built one    *)
(* argument at a time: leading arguments by position, then others by name, *)
(* in any order, each bound to one of its legal values (some written in    *)
(* different ways).  When the call is closed, Canon gives its canonical    *)
(* form: every parameter with its value, defaults filled in, diameters     *)
(* halved, scalars made vectors, matrices filled up, colour names looked   *)
(* up in the table of CSS3.  The dump of the program must show exactly the *)
(* canonical calls, with modifiers and children, and reading the dump back *)
(* must give the same dump.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization, SequencesExt

CONSTANTS DEPTH      \* how many calls at most

VARIABLES stk,       \* the finished calls, innermost first
          cur,       \* the call under construction, [f |-> "" ...] when there is none
          n
vars == <<stk, cur, n>>

Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

Css == [
  aliceblue |-> <<240,248,255>>, antiquewhite |-> <<250,235,215>>, aqua |-> <<0,255,255>>, aquamarine |-> <<127,255,212>>, azure |-> <<240,255,255>>,
  beige |-> <<245,245,220>>, bisque |-> <<255,228,196>>, black |-> <<0,0,0>>, blanchedalmond |-> <<255,235,205>>, blue |-> <<0,0,255>>,
  blueviolet |-> <<138,43,226>>, brown |-> <<165,42,42>>, burlywood |-> <<222,184,135>>, cadetblue |-> <<95,158,160>>, chartreuse |-> <<127,255,0>>,
  chocolate |-> <<210,105,30>>, coral |-> <<255,127,80>>, cornflowerblue |-> <<100,149,237>>, cornsilk |-> <<255,248,220>>, crimson |-> <<220,20,60>>,
  cyan |-> <<0,255,255>>, darkblue |-> <<0,0,139>>, darkcyan |-> <<0,139,139>>, darkgoldenrod |-> <<184,134,11>>, darkgray |-> <<169,169,169>>,
  darkgreen |-> <<0,100,0>>, darkgrey |-> <<169,169,169>>, darkkhaki |-> <<189,183,107>>, darkmagenta |-> <<139,0,139>>, darkolivegreen |-> <<85,107,47>>,
  darkorange |-> <<255,140,0>>, darkorchid |-> <<153,50,204>>, darkred |-> <<139,0,0>>, darksalmon |-> <<233,150,122>>, darkseagreen |-> <<143,188,143>>,
  darkslateblue |-> <<72,61,139>>, darkslategray |-> <<47,79,79>>, darkslategrey |-> <<47,79,79>>, darkturquoise |-> <<0,206,209>>, darkviolet |-> <<148,0,211>>,
  deeppink |-> <<255,20,147>>, deepskyblue |-> <<0,191,255>>, dimgray |-> <<105,105,105>>, dimgrey |-> <<105,105,105>>, dodgerblue |-> <<30,144,255>>,
  firebrick |-> <<178,34,34>>, floralwhite |-> <<255,250,240>>, forestgreen |-> <<34,139,34>>, fuchsia |-> <<255,0,255>>, gainsboro |-> <<220,220,220>>,
  ghostwhite |-> <<248,248,255>>, gold |-> <<255,215,0>>, goldenrod |-> <<218,165,32>>, gray |-> <<128,128,128>>, green |-> <<0,128,0>>,
  greenyellow |-> <<173,255,47>>, grey |-> <<128,128,128>>, honeydew |-> <<240,255,240>>, hotpink |-> <<255,105,180>>, indianred |-> <<205,92,92>>,
  indigo |-> <<75,0,130>>, ivory |-> <<255,255,240>>, khaki |-> <<240,230,140>>, lavender |-> <<230,230,250>>, lavenderblush |-> <<255,240,245>>,
  lawngreen |-> <<124,252,0>>, lemonchiffon |-> <<255,250,205>>, lightblue |-> <<173,216,230>>, lightcoral |-> <<240,128,128>>, lightcyan |-> <<224,255,255>>,
  lightgoldenrodyellow |-> <<250,250,210>>, lightgray |-> <<211,211,211>>, lightgreen |-> <<144,238,144>>, lightgrey |-> <<211,211,211>>, lightpink |-> <<255,182,193>>,
  lightsalmon |-> <<255,160,122>>, lightseagreen |-> <<32,178,170>>, lightskyblue |-> <<135,206,250>>, lightslategray |-> <<119,136,153>>, lightslategrey |-> <<119,136,153>>,
  lightsteelblue |-> <<176,196,222>>, lightyellow |-> <<255,255,224>>, lime |-> <<0,255,0>>, limegreen |-> <<50,205,50>>, linen |-> <<250,240,230>>,
  magenta |-> <<255,0,255>>, maroon |-> <<128,0,0>>, mediumaquamarine |-> <<102,205,170>>, mediumblue |-> <<0,0,205>>, mediumorchid |-> <<186,85,211>>,
  mediumpurple |-> <<147,112,219>>, mediumseagreen |-> <<60,179,113>>, mediumslateblue |-> <<123,104,238>>, mediumspringgreen |-> <<0,250,154>>, mediumturquoise |-> <<72,209,204>>,
  mediumvioletred |-> <<199,21,133>>, midnightblue |-> <<25,25,112>>, mintcream |-> <<245,255,250>>, mistyrose |-> <<255,228,225>>, moccasin |-> <<255,228,181>>,
  navajowhite |-> <<255,222,173>>, navy |-> <<0,0,128>>, oldlace |-> <<253,245,230>>, olive |-> <<128,128,0>>, olivedrab |-> <<107,142,35>>,
  orange |-> <<255,165,0>>, orangered |-> <<255,69,0>>, orchid |-> <<218,112,214>>, palegoldenrod |-> <<238,232,170>>, palegreen |-> <<152,251,152>>,
  paleturquoise |-> <<175,238,238>>, palevioletred |-> <<219,112,147>>, papayawhip |-> <<255,239,213>>, peachpuff |-> <<255,218,185>>, peru |-> <<205,133,63>>,
  pink |-> <<255,192,203>>, plum |-> <<221,160,221>>, powderblue |-> <<176,224,230>>, purple |-> <<128,0,128>>, red |-> <<255,0,0>>,
  rosybrown |-> <<188,143,143>>, royalblue |-> <<65,105,225>>, saddlebrown |-> <<139,69,19>>, salmon |-> <<250,128,114>>, sandybrown |-> <<244,164,96>>,
  seagreen |-> <<46,139,87>>, seashell |-> <<255,245,238>>, sienna |-> <<160,82,45>>, silver |-> <<192,192,192>>, skyblue |-> <<135,206,235>>,
  slateblue |-> <<106,90,205>>, slategray |-> <<112,128,144>>, slategrey |-> <<112,128,144>>, snow |-> <<255,250,250>>, springgreen |-> <<0,255,127>>,
  steelblue |-> <<70,130,180>>, tan |-> <<210,180,140>>, teal |-> <<0,128,128>>, thistle |-> <<216,191,216>>, tomato |-> <<255,99,71>>,
  turquoise |-> <<64,224,208>>, violet |-> <<238,130,238>>, wheat |-> <<245,222,179>>, white |-> <<255,255,255>>, whitesmoke |-> <<245,245,245>>,
  yellow |-> <<255,255,0>>, yellowgreen |-> <<154,205,50>>]

(* A value: how it is written, and its canonical form.  "@Sn" stands for a
   string of n characters, "@Pn" for a list of n points, "@In" for one path
   through n points. *)
V(x) == <<x, x>>
Same(S) == {V(x) : x \in S}
Num == Same({"1", "2.5", "0.125", "3", "12"}) \cup {<<"3.50", "3.5">>, <<"2e1", "20">>, <<"0.5e1", "5">>, <<"PI", "3.14159265358979323846">>, <<"1.00000025", "1.00000025">>, <<"+2", "2">>}
Sgn == Num \cup Same({"-1", "-0.75", "0"}) \cup {<<"-2.50", "-2.5">>}
Half == {<<"2", "1">>, <<"5", "2.5">>, <<"0.25", "0.125">>, <<"7", "3.5">>}
Bool == Same({"true", "false"})
Fn == Same({"0", "3", "5", "16", "100"})
Fas == Same({"5", "0.5", "12.25", "30", "2.12345678"})
Str == Same({"\"\"", "\"a\"", "\"x y\"", "\"q\\\"q\"", "\"b\\\\s\"", "\"t\\tn\\n\"", "\"[1,2]\"", "\"//\"", "\"a=b;\"", "@S255", "@S1024", "@S9000"})
File == Same({"\"a.stl\"", "\"dir/b.svg\"", "\"q\\\"q.stl\"", "\"b\\\\s\"", "\"x y\""})
V2 == Same({"[1,2]", "[2.5,0.125]", "[3,12]"})
V3 == Same({"[1,2,3]", "[2.5,0.125,1]", "[3,12,7]"})
S2 == V2 \cup Same({"[-1,2]", "[0.5,-0.75]", "[0,1]"})
S3 == V3 \cup Same({"[-1,2,-3]", "[0,0,1]", "[0.5,-0.75,0]"})
Three == {<<"2", "[2,2,2]">>, <<"0.5", "[0.5,0.5,0.5]">>, <<"PI", "[3.14159265358979323846,3.14159265358979323846,3.14159265358979323846]">>}
Two == {<<"2", "[2,2]">>, <<"0.5", "[0.5,0.5]">>}
Plus0 == {<<"[1,2]", "[1,2,0]">>, <<"[-3,0.5]", "[-3,0.5,0]">>}
Plus1 == {<<"[1,2]", "[1,2,1]">>, <<"[-3,0.5]", "[-3,0.5,1]">>}
Mat == {<<"[[1,2],[3,4]]", "[[1,2,0,0],[3,4,0,0],[0,0,1,0],[0,0,0,1]]">>,
        <<"[[1,2,3],[4,5,6],[7,8,10]]", "[[1,2,3,0],[4,5,6,0],[7,8,10,0],[0,0,0,1]]">>,
        <<"[[1,2,3,4],[4,5,6,-5],[7,8,10,6]]", "[[1,2,3,4],[4,5,6,-5],[7,8,10,6],[0,0,0,1]]">>,
        <<"[[1,0,0.5,4],[0,-1,0,0],[0,0,1,2],[0,0,0,1]]", "[[1,0,0.5,4],[0,-1,0,0],[0,0,1,2],[0,0,0,1]]">>}
Pts3 == "[[0,0,0],[1,0,0],[0,1,0],[0,0,1.5]]"
Faces == Same({"[[0,1,2],[1,0,3],[2,1,3],[0,2,3]]", "[[2,1,0],[3,0,1],[3,1,2],[3,2,0]]", "[[0,1,2],[1,0,3],[2,1,3],[0,2,3],[0,1,2,3]]"})

Det == {"$fn", "$fa", "$fs"}
(* the parameters: those that may be given by position, in order; those by name only; those that must be given *)
Funs == {"sphere", "circle", "cylinder", "cube", "square", "polygon", "polyhedron", "import", "surface", "text",
         "linear_extrude", "rotate_extrude", "projection", "hull", "union", "group", "difference", "intersection", "render",
         "translate", "mirror", "scale", "rotate", "multmatrix", "color"}
Leafs == {"sphere", "circle", "cylinder", "cube", "square", "polygon", "polyhedron", "import", "surface", "text"}
Pos(f) == CASE f \in {"sphere", "circle"} -> <<"r">>
            [] f = "cylinder" -> <<"h", "r1", "r2", "center">>
            [] f \in {"cube", "square"} -> <<"size", "center">>
            [] f = "polygon" -> <<"points", "paths">>
            [] f = "polyhedron" -> <<"points", "faces">>
            [] f = "import" -> <<"file", "layer", "convexity">>
            [] f = "surface" -> <<"file", "center">>
            [] f = "text" -> <<"text">>
            [] f = "linear_extrude" -> <<"height">>
            [] f = "projection" -> <<"cut">>
            [] f \in {"translate", "mirror", "scale"} -> <<"v">>
            [] f = "rotate" -> <<"a", "v">>
            [] f = "multmatrix" -> <<"m">>
            [] f = "color" -> <<"c", "alpha">>
            [] OTHER -> <<>>
Named(f) == CASE f \in {"sphere", "circle"} -> {"d"} \cup Det
              [] f = "cylinder" -> {"r", "d", "d1", "d2"} \cup Det
              [] f = "polygon" -> {"convexity"}
              [] f = "polyhedron" -> {"triangles", "convexity"}
              [] f = "import" -> {"center", "dpi"} \cup Det
              [] f = "surface" -> {"convexity", "invert"}
              [] f = "text" -> {"size", "font", "halign", "valign", "spacing", "tracking", "direction", "language", "script", "$fn"}
              [] f = "linear_extrude" -> {"center", "slices", "twist", "scale", "convexity"} \cup Det
              [] f = "rotate_extrude" -> {"angle", "convexity"} \cup Det
              [] f = "projection" -> {"convexity"}
              [] OTHER -> {}
Must(f) == CASE f = "polygon" -> {"points"}
             [] f = "polyhedron" -> {"points", "faces"}
             [] f \in {"import", "surface"} -> {"file"}
             [] f = "text" -> {"text"}
             [] f = "linear_extrude" -> {"height"}
             [] f \in {"translate", "mirror", "scale"} -> {"v"}
             [] f = "rotate" -> {"a"}
             [] f = "multmatrix" -> {"m"}
             [] f = "color" -> {"c"}
             [] OTHER -> {}
(* parameters that exclude each other *)
Clash(f, p) == CASE f \in {"sphere", "circle"} /\ p = "r" -> {"d"}
                 [] f \in {"sphere", "circle"} /\ p = "d" -> {"r"}
                 [] f = "cylinder" /\ p \in {"r", "d"} -> {"r", "d", "r1", "r2", "d1", "d2"} \ {p}
                 [] f = "cylinder" /\ p = "r1" -> {"r", "d", "d1"}
                 [] f = "cylinder" /\ p = "r2" -> {"r", "d", "d2"}
                 [] f = "cylinder" /\ p = "d1" -> {"r", "d", "r1"}
                 [] f = "cylinder" /\ p = "d2" -> {"r", "d", "r2"}
                 [] f = "polyhedron" /\ p = "faces" -> {"triangles"}
                 [] f = "polyhedron" /\ p = "triangles" -> {"faces"}
                 [] OTHER -> {}
Hex2(k) == LET h == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">> IN h[(k \div 16) + 1] \o h[(k % 16) + 1]
(* one digit: the doubled digit is meant; q: upper case or lower case *)
Hex1(d, q) == LET l == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
                  u == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
              IN IF q % 2 = 0 THEN l[d + 1] ELSE u[d + 1]
Rgb(t) == "[" \o ToString(t[1]) \o "," \o ToString(t[2]) \o "," \o ToString(t[3]) \o "]"
(* colours: names; triples; hexadecimal triples.  The canonical form is in steps of 1/255 *)
Grey == {<<"0", 0>>, <<"1", 255>>, <<"0.2", 51>>, <<"0.6", 153>>, <<"0.8", 204>>, <<"0.0039", 1>>, <<"0.996", 254>>}
Colours(k) ==
  UNION {CASE m <= 2 -> {<<"\"" \o c \o "\"", Rgb(Css[c])>> : c \in {RandomElement(DOMAIN Css)}}
           [] m = 3 -> {<<"\"#" \o Hex2(t \div 65536) \o Hex2((t \div 256) % 256) \o Hex2(t % 256) \o "\"", Rgb(<<t \div 65536, (t \div 256) % 256, t % 256>>)>> : t \in {RandomElement(0..(16777215 + k - k))}}
           [] m = 6 -> {<<"\"#" \o Hex1(t[1], t[4]) \o Hex1(t[2], t[4]) \o Hex1(t[3], t[4]) \o "\"", Rgb(<<17 * t[1], 17 * t[2], 17 * t[3]>>)>> :
                          t \in {RandomElement([1..4 -> 0..(15 + k - k)])}}
           [] m = 4 -> {<<"[" \o t[1][1] \o "," \o t[2][1] \o "," \o t[3][1] \o "]", Rgb(<<t[1][2], t[2][2], t[3][2]>>)>> : t \in {RandomElement([1..3 -> Grey])}}
           [] OTHER -> {<<"undef", "undef">>} : m \in {RandomElement(0..(6 + k - k))}}
Vals(f, p, k) ==
  CASE p \in {"r", "r1", "r2", "h", "height", "spacing", "dpi"} \/ (f = "text" /\ p = "size") -> Num
    [] p \in {"d", "d1", "d2"} -> Half
    [] p = "$fn" -> Fn
    [] p \in {"$fa", "$fs"} -> Fas
    [] p \in {"center", "cut", "invert"} -> Bool
    [] p = "convexity" -> Same({"1", "4"})
    [] p = "slices" -> Same({"1", "2", "7"})
    [] p \in {"twist", "angle", "tracking"} -> Sgn
    [] f = "cube" /\ p = "size" -> Three \cup V3
    [] f = "square" /\ p = "size" -> Two \cup V2
    [] f = "linear_extrude" /\ p = "scale" -> Two \cup V2
    [] f = "polygon" /\ p = "points" -> Same({"[[0,0],[3,0],[2.5,2],[0,-1]]", "@P5", "@P300", "@P2000"})
    [] p = "paths" -> Same({"[[0,1,2]]", "[[0,1,2,3]]", "[[3,2,1],[0,1,2]]"}) \cup {<<"undef", "@all">>}
    [] f = "polyhedron" /\ p = "points" -> Same({Pts3})
    [] p \in {"faces", "triangles"} -> Faces
    [] p = "file" -> File
    [] p \in {"layer", "text", "font", "halign", "valign", "direction", "language", "script"} -> Str
    [] f \in {"translate", "mirror"} -> S3 \cup Plus0
    [] f = "scale" -> S3 \cup Three \cup Plus1
    [] f = "rotate" /\ p = "v" -> V3
    [] f = "rotate" /\ p = "a" -> Sgn \cup S3
    [] p = "m" -> Mat
    [] p = "alpha" -> {<<g[1], ToString(g[2])>> : g \in Grey}
    [] p = "c" -> Colours(k)

(* ---------------------------------------------------- the canonical form *)
Get(b, p, dflt) == IF p \in DOMAIN b THEN b[p] ELSE dflt
FnA(b) == <<<<"$fn", Get(b, "$fn", "0")>>, <<"$fa", Get(b, "$fa", "12")>>, <<"$fs", Get(b, "$fs", "2")>>>>
Rad(b, r, d) == Get(b, r, Get(b, d, Get(b, "r", Get(b, "d", "1"))))
(* without paths: all points in order *)
AllOf(pt) == CASE pt = "@P5" -> "@I5" [] pt = "@P300" -> "@I300" [] pt = "@P2000" -> "@I2000" [] OTHER -> "[[0,1,2,3]]"
Opt(b, p) == IF p \in DOMAIN b THEN <<<<p, b[p]>>>> ELSE <<>>
Canon(f, b) ==
  CASE f \in {"sphere", "circle"} -> <<<<"r", Get(b, "r", Get(b, "d", "1"))>>>> \o FnA(b)
    [] f = "cylinder" -> <<<<"h", Get(b, "h", "1")>>, <<"r1", Rad(b, "r1", "d1")>>, <<"r2", Rad(b, "r2", "d2")>>, <<"center", Get(b, "center", "false")>>>> \o FnA(b)
    [] f = "cube" -> <<<<"size", Get(b, "size", "[1,1,1]")>>, <<"center", Get(b, "center", "false")>>>>
    [] f = "square" -> <<<<"size", Get(b, "size", "[1,1]")>>, <<"center", Get(b, "center", "false")>>>>
    [] f = "polygon" -> <<<<"points", b["points"]>>, <<"paths", IF Get(b, "paths", "@all") = "@all" THEN AllOf(b["points"]) ELSE b["paths"]>>>>
    [] f = "polyhedron" -> <<<<"points", b["points"]>>, <<"faces", Get(b, "faces", Get(b, "triangles", ""))>>>>
    [] f = "import" -> <<<<"file", b["file"]>>>> \o Opt(b, "layer") \o <<<<"center", Get(b, "center", "false")>>, <<"dpi", Get(b, "dpi", "72")>>>> \o FnA(b)
    [] f = "surface" -> <<<<"file", b["file"]>>, <<"center", Get(b, "center", "false")>>>>
    [] f = "text" -> <<<<"text", b["text"]>>, <<"size", Get(b, "size", "10")>>, <<"font", Get(b, "font", "\"Nozzl3 Sans\"")>>,
                       <<"halign", Get(b, "halign", "\"left\"")>>, <<"valign", Get(b, "valign", "\"baseline\"")>>, <<"spacing", Get(b, "spacing", "1")>>,
                       <<"tracking", Get(b, "tracking", "0")>>, <<"direction", Get(b, "direction", "\"ltr\"")>>,
                       <<"language", Get(b, "language", "\"en\"")>>, <<"script", Get(b, "script", "*")>>, <<"$fn", Get(b, "$fn", "0")>>>>
    [] f = "linear_extrude" -> <<<<"height", b["height"]>>, <<"scale", Get(b, "scale", "[1,1]")>>, <<"twist", Get(b, "twist", "0")>>,
                                 <<"slices", Get(b, "slices", "1")>>, <<"center", Get(b, "center", "false")>>>> \o FnA(b)
    [] f = "rotate_extrude" -> <<<<"angle", Get(b, "angle", "360")>>>> \o FnA(b)
    [] f = "projection" -> <<<<"cut", Get(b, "cut", "false")>>>>
    [] f \in {"translate", "mirror", "scale"} -> <<<<"v", b["v"]>>>>
    [] f = "rotate" -> <<<<"a", b["a"]>>>> \o (IF "v" \in DOMAIN b THEN <<<<"v", b["v"]>>>> ELSE IF <<b["a"], b["a"]>> \in S3 THEN <<>> ELSE <<<<"v", "[0,0,1]">>>>)
    [] f = "multmatrix" -> <<<<"m", b["m"]>>>>
    [] f = "color" -> <<<<"c", b["c"]>>, <<"alpha", Get(b, "alpha", "255")>>>>
    [] OTHER -> <<>>

(* ------------------------------------------------------------- the calls *)
None == [f |-> ""]
Init == stk = <<>> /\ cur = None /\ n = 0
Start == /\ cur = None /\ n < DEPTH /\ n' = n + 1 /\ UNCHANGED stk
         /\ \E lf \in Pick({1 + n, 2 + n}) : \E f \in Pick(IF lf = 1 + n THEN Leafs ELSE Funs) : cur' = [f |-> f, b |-> <<>>, a |-> <<>>, open |-> TRUE]
Bound == DOMAIN cur.b
Put(p, v) == [x \in Bound \cup {p} |-> IF x = p THEN v[2] ELSE cur.b[x]]
(* a scalar angle may have an axis, a vector of angles must not *)
Fits(p, v) == /\ (cur.f = "rotate" /\ p = "v") => (IF "a" \in Bound THEN <<cur.b["a"], cur.b["a"]>> \notin S3 ELSE FALSE)
              /\ (cur.f = "rotate" /\ p = "a" /\ "v" \in Bound) => v \notin S3
              /\ Clash(cur.f, p) \cap Bound = {}
Give == /\ cur # None /\ cur.open
        /\ \E how \in Pick(1..(3 + n - n)) :
           LET k == Len(cur.a) + 1
           IN IF how <= 2 /\ \A i \in 1..Len(cur.a) : cur.a[i].n = ""
              THEN IF k <= Len(Pos(cur.f))
                   THEN \E v \in Pick(Vals(cur.f, Pos(cur.f)[k], n)) :
                        IF Fits(Pos(cur.f)[k], v) THEN cur' = [cur EXCEPT !.b = Put(Pos(cur.f)[k], v), !.a = Append(@, [n |-> "", v |-> v[1]])] ELSE UNCHANGED cur
                   ELSE FALSE
              ELSE \E p \in Pick((Range(Pos(cur.f)) \cup Named(cur.f)) \ Bound) : \E v \in Pick(Vals(cur.f, p, n)) :
                        IF Fits(p, v) THEN cur' = [cur EXCEPT !.b = Put(p, v), !.a = Append(@, [n |-> p, v |-> v[1]])] ELSE UNCHANGED cur
        /\ UNCHANGED <<stk, n>>
(* what must be given is given by name before the call is closed *)
Owed == Must(cur.f) \ (Bound \cup (IF "triangles" \in Bound THEN {"faces"} ELSE {}))
Owe == /\ cur # None /\ cur.open /\ Owed # {}
       /\ \E p \in Pick(Owed) : \E v \in Pick(Vals(cur.f, p, n)) :
            Fits(p, v) /\ cur' = [cur EXCEPT !.b = Put(p, v), !.a = Append(@, [n |-> p, v |-> v[1]])]
       /\ UNCHANGED <<stk, n>>
(* at most one call of the program has the modifier `!' *)
RECURSIVE Rooted(_)
Rooted(s) == \E i \in 1..Len(s) : s[i].m \in {"!", "*!"} \/ Rooted(s[i].c)
RECURSIVE Plain(_)
Plain(s) == \A i \in 1..Len(s) : s[i].rep = 1 /\ s[i].nest = 1 /\ Plain(s[i].c)
Mods == <<"", "", "", "", "#", "%", "*", "#*", "%#", "!", "*!">>
Close == /\ cur # None /\ Owed = {} /\ n' = n
         /\ \E mi \in Pick(1..(IF Rooted(stk) THEN 9 ELSE 11)), take \in Pick(0..(2 + n - n)), sz \in Pick(1..(200 + n - n)), cs \in Pick(0..(2 + n - n)) :
              LET mo == Mods[mi]
                  t == IF cur.f \in Leafs THEN 0 ELSE IF take > Len(stk) THEN Len(stk) ELSE take
                  c == SubSeq(stk, Len(stk) - t + 1, Len(stk))
              IN stk' = Append(SubSeq(stk, 1, Len(stk) - t),
                               [f |-> cur.f, a |-> cur.a, m |-> mo, c |-> c, e |-> Canon(cur.f, cur.b), cs |-> cs,
                                (* a few are written down many times, nested deeply, or far apart *)
                                rep |-> IF sz < 4 /\ ~Rooted(c) /\ mi < 10 /\ Plain(c) THEN <<20, 130, 700>>[sz] ELSE 1,
                                nest |-> IF sz \in 5..8 /\ cur.f \notin Leafs /\ mi < 10 /\ Plain(c) THEN <<10, 60, 150, 300>>[sz - 4] ELSE 1,
                                pad |-> IF sz \in 10..13 THEN <<100, 1000, 5000, 70000>>[sz - 9] ELSE 0])
         /\ cur' = None
Next == Start \/ Give \/ Owe \/ Close
Spec == Init /\ [][Next]_vars

(* laws: the canonical form binds every parameter once, and does not depend on the order of the arguments (b is a function) *)
Once(e) == \A i, j \in 1..Len(e) : i # j => e[i][1] # e[j][1]
RECURSIVE AllOnce(_)
AllOnce(s) == \A i \in 1..Len(s) : Once(s[i].e) /\ AllOnce(s[i].c)
Laws == AllOnce(stk)
Emit == (cur = None /\ n = DEPTH) => PrintT(ToJson([prog |-> stk]))
=============================================================================
