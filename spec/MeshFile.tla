------------------------------ MODULE MeshFile ------------------------------
(***************************************************************************)
(* The mesh file formats, as a line-driven state machine (C16, C17, C18).  *)
(*                                                                         *)
(* A line is its sequence of blank-separated tokens; line ends, blanks and *)
(* indentation are a matter of rendering and do not exist at this level.   *)
(* A token is a record                                                     *)
(*    s  its text, c its first character,                                  *)
(*    x  its value as a real, << >> when it is not a number,               *)
(*    i  its value as an integer, BadInt when it is not an integer.        *)
(* A triangle is [v |-> three points, f |-> friction].                     *)
(***************************************************************************)
EXTENDS Fx, SequencesExt

BadInt == -1000000

LineStart == [ ok |-> TRUE, sec |-> "none", nodes |-> << >>, tris |-> << >> ]
Refused   == [ ok |-> FALSE, sec |-> "none", nodes |-> << >>, tris |-> << >> ]

Numbers(l, a, b) == \A k \in a .. b : IsFx(l[k].x)
PosePt(pose, p) == VAdd(MApply(pose.r, p), pose.t)

(* one line of an .rdf file                                                  *)
RdfLine(st, l, pose) ==
  IF ~st.ok THEN st
  ELSE IF l = << >> THEN st
  ELSE IF l[1].s \in { "NODES", "[NODES]" } THEN [ st EXCEPT !.sec = "nodes" ]
  ELSE IF l[1].s \in { "ELEMENTS", "[ELEMENTS]" } THEN [ st EXCEPT !.sec = "elements" ]
  ELSE IF l[1].c \in { "{", "%", "#" } THEN st
  ELSE IF st.sec = "nodes" THEN
         IF Len(l) # 4 \/ ~Numbers(l, 2, 4) THEN Refused
         ELSE [ st EXCEPT !.nodes = Append(@, PosePt(pose, << l[2].x, l[3].x, l[4].x >>)) ]
  ELSE IF st.sec = "elements" THEN
         IF Len(l) # 4 \/ ~IsFx(l[4].x) THEN Refused
         ELSE IF \E k \in 1 .. 3 : l[k].i < 0 \/ l[k].i >= Len(st.nodes) THEN Refused
         ELSE IF FxNegative(l[4].x) THEN Refused
         ELSE [ st EXCEPT !.tris = Append(@, [ v |-> << st.nodes[l[1].i + 1], st.nodes[l[2].i + 1], st.nodes[l[3].i + 1] >>,
                                               f |-> l[4].x ]) ]
  ELSE st

(* one line of an .obj file; friction f for every face                       *)
ObjLine(st, l, pose, f) ==
  IF ~st.ok THEN st
  ELSE IF l = << >> THEN st
  ELSE IF l[1].s = "v" THEN
         IF Len(l) # 4 \/ ~Numbers(l, 2, 4) THEN Refused
         ELSE [ st EXCEPT !.nodes = Append(@, PosePt(pose, << l[2].x, l[3].x, l[4].x >>)) ]
  ELSE IF l[1].s = "f" THEN
         IF Len(l) # 4 THEN Refused
         ELSE IF \E k \in 2 .. 4 : l[k].i < 1 \/ l[k].i > Len(st.nodes) THEN Refused
         ELSE IF ~IsFx(f) \/ FxNegative(f) THEN Refused
         ELSE [ st EXCEPT !.tris = Append(@, [ v |-> << st.nodes[l[2].i], st.nodes[l[3].i], st.nodes[l[4].i] >>, f |-> f ]) ]
  ELSE st

(* A whole file.  file: [there |-> can be opened, ext |-> extension, lines]   *)
LoadResult(file, kind, pose, f) ==
  IF ~file.there \/ file.ext # kind THEN Refused
  ELSE LET r == IF kind = "rdf" THEN FoldLeft(LAMBDA st, l : RdfLine(st, l, pose), LineStart, file.lines)
                ELSE FoldLeft(LAMBDA st, l : ObjLine(st, l, pose, f), LineStart, file.lines)
       IN  IF r.ok /\ r.tris # << >> THEN r ELSE Refused
=============================================================================
