------------------------------- MODULE FileGen -------------------------------
(***************************************************************************)
(* The line-driven readers of MeshFile against a declarative description of  *)
(* the two formats (C16, C17, C18), on all short files over an alphabet of   *)
(* good and bad lines; and the source of the files replayed on the library.  *)
(*                                                                         *)
(* `file` is the file read so far, `st` the state of the reader.  Variants   *)
(* other than "asis" change the reader and must be refuted.                  *)
(***************************************************************************)
EXTENDS MeshFile, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Kind, MaxLen, Variant, Emit

W(s, c) == [ s |-> s, c |-> c, x |-> << >>, i |-> BadInt ]                 \* a word
N(s, n) == [ s |-> s, c |-> s, x |-> FxInt(n), i |-> n ]                    \* an integer
Q(s, c, x) == [ s |-> s, c |-> c, x |-> x, i |-> BadInt ]                   \* a real
NE == FxNeg(FxHalf)
I(n) == CASE n = 0 -> N("0", 0) [] n = 1 -> N("1", 1) [] n = 2 -> N("2", 2) [] n = 3 -> N("3", 3) [] n = 4 -> N("4", 4)
          [] n = 5 -> N("5", 5) [] n = 7 -> N("7", 7) [] n = -1 -> [ s |-> "-1", c |-> "-", x |-> FxInt(-1), i |-> -1 ] [] OTHER -> N("9", 9)
Half == Q("0.5", "0", FxHalf)
MHalf == Q("-0.5", "-", NE)

RdfAlphabet ==
  [ nodesb |-> << W("[NODES]", "[") >>, nodes |-> << W("NODES", "N") >>, elemb |-> << W("[ELEMENTS]", "[") >>, elem |-> << W("ELEMENTS", "E") >>,
    c1 |-> << W("{", "{"), W("a}", "a") >>, c2 |-> << W("%", "%"), I(1), I(2), I(3) >>, c3 |-> << W("#[NODES]", "#") >>, c4 |-> << W("{c}", "{") >>, blank |-> << >>,
    na |-> << I(7), I(0), I(0), I(1) >>, nb |-> << I(0), I(5), I(0), I(0) >>, nc |-> << I(1), I(1), I(4), Half >>,
    node |-> << I(7), I(1), Half, I(2) >>, node2 |-> << I(0), I(3), I(4), MHalf >>,
    node3 |-> << I(1), I(2), I(3) >>, node5 |-> << I(0), I(1), I(2), I(3), I(4) >>,
    el |-> << I(0), I(1), I(2), Half >>, el2 |-> << I(2), I(0), I(1), I(1) >>, elhi |-> << I(1), I(2), I(3), I(0) >>,
    elfar |-> << I(0), I(9), I(2), I(1) >>, elneg |-> << I(-1), I(1), I(2), I(1) >>, elfr |-> << I(0), I(1), I(2), MHalf >>,
    el3 |-> << I(0), I(1), I(2) >>, el5 |-> << I(0), I(1), I(2), I(1), I(1) >> ]
ObjAlphabet ==
  [ va |-> << W("v", "v"), I(0), I(0), I(1) >>, vb |-> << W("v", "v"), I(5), I(0), I(0) >>, vc |-> << W("v", "v"), I(1), I(4), Half >>,
    v |-> << W("v", "v"), I(1), Half, I(2) >>, v2 |-> << W("v", "v"), MHalf, I(0), I(3) >>,
    vshort |-> << W("v", "v"), I(1), I(2) >>, vlong |-> << W("v", "v"), I(1), I(2), I(3), I(1) >>,
    vn |-> << W("vn", "v"), I(0), I(0), I(1) >>, vt |-> << W("vt", "v"), I(0), I(1) >>, vp |-> << W("vp", "v"), I(1) >>,
    f |-> << W("f", "f"), I(1), I(2), I(3) >>, f2 |-> << W("f", "f"), I(3), I(1), I(2) >>, fhi |-> << W("f", "f"), I(2), I(3), I(4) >>,
    f0 |-> << W("f", "f"), I(0), I(1), I(2) >>, fneg |-> << W("f", "f"), I(-1), I(1), I(2) >>, ffar |-> << W("f", "f"), I(1), I(9), I(2) >>,
    fshort |-> << W("f", "f"), I(1), I(2) >>, fquad |-> << W("f", "f"), I(1), I(2), I(3), I(1) >>,
    com |-> << W("#", "#"), W("v", "v"), I(1) >>, com2 |-> << W("#f", "#"), I(1), I(2), I(3) >>, blank |-> << >>,
    o |-> << W("o", "o"), W("road", "r") >>, g |-> << W("g", "g") >>, s |-> << W("s", "s"), W("off", "o") >>, fo |-> << W("fo", "f"), I(1), I(2), I(3) >> ]
Alphabet == IF Kind = "rdf" THEN RdfAlphabet ELSE ObjAlphabet
Heads == IF Kind = "rdf"
         THEN { << >>, << "nodes", "na", "nb", "nc" >>, << "nodesb", "na", "nb", "nc", "elem" >>,
                << "c1", "nodesb", "na", "nb", "nc", "blank", "elemb", "el" >>,
                << "nodes", "na", "nb", "nc", "elem", "el", "nodes", "node" >>, << "nodes", "na", "nb", "nc", "elem", "el", "nodesb", "node", "elemb" >> }
         ELSE { << >>, << "va", "vb", "vc" >>, << "com", "va", "vb", "vc", "vn", "f" >>, << "va", "vb", "vc", "f", "v" >> }
Id == << << Fx1, Fx0, Fx0 >>, << Fx0, Fx1, Fx0 >>, << Fx0, Fx0, Fx1 >> >>
Pose == [ r |-> Id, t |-> << Fx0, Fx0, Fx0 >> ]
Fr == FxHalf

VARIABLES file, st
vars == << file, st >>
L(k) == Alphabet[file[k]]

(* the reader, and its wrong variants                                          *)
Read(s, l) ==
  CASE Variant = "skipbad" -> (LET r == IF Kind = "rdf" THEN RdfLine(s, l, Pose) ELSE ObjLine(s, l, Pose, Fr) IN IF s.ok /\ ~r.ok THEN s ELSE r)
    [] Variant = "late" /\ Kind = "rdf" /\ s.ok /\ s.sec = "elements" /\ Len(l) = 4 /\ l[1].c \notin { "{", "%", "#" } ->   \* undefined nodes allowed
         (IF \E k \in 1 .. 3 : l[k].i < 0 \/ l[k].i >= Len(s.nodes) THEN s ELSE RdfLine(s, l, Pose))
    [] Variant = "sticky" /\ Kind = "rdf" /\ s.ok /\ l # << >> /\ l[1].s \in { "NODES", "ELEMENTS" } -> s                     \* markers without brackets ignored
    [] Variant = "anyv" /\ Kind = "obj" /\ s.ok /\ Len(l) = 4 /\ l[1].c = "v" ->                                              \* vn taken for a vertex
         ObjLine(s, << W("v", "v") >> \o Tail(l), Pose, Fr)
    [] Variant = "zero" /\ Kind = "obj" /\ s.ok /\ Len(l) = 4 /\ l[1].s = "f" /\ l[2].i = 0 -> s
    [] OTHER -> IF Kind = "rdf" THEN RdfLine(s, l, Pose) ELSE ObjLine(s, l, Pose, Fr)

RECURSIVE ReadAll(_, _)
ReadAll(s, f) == IF f = << >> THEN s ELSE ReadAll(Read(s, Alphabet[Head(f)]), Tail(f))
Init == \E h \in Heads : file = h /\ st = ReadAll(LineStart, h)
HeadLen == CHOOSE k \in 0 .. 9 : \E h \in Heads : Len(h) = k /\ Len(file) >= k /\ SubSeq(file, 1, k) = h
             /\ \A h2 \in Heads : (Len(file) >= Len(h2) /\ SubSeq(file, 1, Len(h2)) = h2) => Len(h2) <= k
Next == \E a \in DOMAIN Alphabet :
          /\ Len(file) - HeadLen < MaxLen
          /\ a \notin { "na", "nb", "nc", "va", "vb", "vc" }
          /\ file' = Append(file, a) /\ st' = Read(st, Alphabet[a])
          /\ (Emit => CSVWrite("%1$s", << ToJson([ k \in 1 .. Len(file') |-> [ j \in 1 .. Len(Alphabet[file'[k]]) |-> Alphabet[file'[k]][j].s ] ]) >>, IOEnv.GEN))
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Declarative description.                                                    *)
IsMark(l) == l # << >> /\ l[1].s \in { "NODES", "[NODES]", "ELEMENTS", "[ELEMENTS]" }
IsSkip(l) == l = << >> \/ l[1].c \in { "{", "%", "#" }
Section(k) == LET M == { j \in 1 .. (k - 1) : IsMark(L(j)) }
              IN  IF M = {} THEN "none"
                  ELSE LET j == CHOOSE x \in M : \A y \in M : y <= x IN IF L(j)[1].s \in { "NODES", "[NODES]" } THEN "nodes" ELSE "elements"
DataLine(k, what) ==
  IF Kind = "rdf" THEN ~IsMark(L(k)) /\ ~IsSkip(L(k)) /\ Section(k) = what
  ELSE L(k) # << >> /\ L(k)[1].s = (IF what = "nodes" THEN "v" ELSE "f")
NodeLines == { k \in 1 .. Len(file) : DataLine(k, "nodes") }
TriLines  == { k \in 1 .. Len(file) : DataLine(k, "elements") }
Before(k) == Cardinality({ j \in NodeLines : j < k })
Nth(S, n) == CHOOSE k \in S : Cardinality({ j \in S : j < k }) = n - 1
Coords(k) == IF Kind = "rdf" THEN << L(k)[2].x, L(k)[3].x, L(k)[4].x >> ELSE << L(k)[2].x, L(k)[3].x, L(k)[4].x >>
Idx(k, j) == IF Kind = "rdf" THEN L(k)[j].i + 1 ELSE L(k)[j + 1].i
GoodNode(k) == Len(L(k)) = 4
GoodTri(k) == Len(L(k)) = 4 /\ (\A j \in 1 .. 3 : Idx(k, j) \in 1 .. Before(k)) /\ (Kind = "rdf" => ~FxNegative(L(k)[4].x))
Good == (\A k \in NodeLines : GoodNode(k)) /\ (\A k \in TriLines : GoodTri(k))
TheTris == [ n \in 1 .. Cardinality(TriLines) |->
             LET k == Nth(TriLines, n) IN
             [ v |-> [ j \in 1 .. 3 |-> Coords(Nth(NodeLines, Idx(k, j))) ], f |-> IF Kind = "rdf" THEN L(k)[4].x ELSE Fr ] ]

Accepts == st.ok <=> Good
Exact   == st.ok => st.tris = TheTris
=============================================================================
