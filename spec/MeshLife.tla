------------------------------ MODULE MeshLife ------------------------------
(***************************************************************************)
(* The life of mesh objects (C19, C18, C03): what the implementation keeps  *)
(* for each of them -- the list of triangles, the list of their boxes and   *)
(* the box tree -- against the contents a user is entitled to see.          *)
(*                                                                         *)
(* Triangles are tokens.  A box is << position, token >>: it is found       *)
(* through its token (where it lies) and leads back to a triangle through   *)
(* its position.  The tree is the list of boxes it was built from.          *)
(*                                                                         *)
(* Variant "asis" is the implementation.  The other variants drop one of    *)
(* the obligations; TLC must refute each of them (the check runs them), so  *)
(* that the invariants are known to say something.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Meshes, MaxLen, Variant, Emit, EmitFrom

Lists == [ A |-> << "a1", "a2" >>, B |-> << "b1", "b2", "b3" >>, D |-> << "d1", "d2" >>, E |-> << >> ]
(* A file: the triangles read before the end or the first bad line, and     *)
(* whether it is good.                                                      *)
Files == [ goodA |-> [ got |-> Lists.A, ok |-> TRUE ],  goodB |-> [ got |-> Lists.B, ok |-> TRUE ],
           goodD |-> [ got |-> Lists.D, ok |-> TRUE ],
           badFirst |-> [ got |-> << >>, ok |-> FALSE ], badLast |-> [ got |-> << "c1", "c2" >>, ok |-> FALSE ],
           badNode |-> [ got |-> << "c1" >>, ok |-> FALSE ],
           hollow |-> [ got |-> << >>, ok |-> FALSE ],   missing |-> [ got |-> << >>, ok |-> FALSE ] ]
Tokens == { "a1", "a2", "b1", "b2", "b3", "c1", "c2", "d1", "d2" }
Absent == [ up |-> FALSE, list |-> << >>, boxes |-> << >>, tree |-> << >> ]

VARIABLES me,     \* representation, per mesh
          abs,    \* contents a user is entitled to, per mesh
          hist    \* operations so far
vars == << me, abs, hist >>
View == << me, abs >>

Boxes(l) == [ k \in 1 .. Len(l) |-> << k, l[k] >> ]
Rebuilt(r, l) == [ up |-> TRUE, list |-> l, boxes |-> IF Len(r.boxes) = Len(l) THEN r.boxes ELSE Boxes(l),
                   tree |-> IF Len(r.boxes) = Len(l) THEN r.boxes ELSE Boxes(l) ]
Built(l) == [ up |-> TRUE, list |-> l, boxes |-> Boxes(l), tree |-> Boxes(l) ]

Do(op) == /\ Len(hist) < MaxLen
          /\ hist' = Append(hist, op)
          /\ ((Emit /\ Len(hist') >= EmitFrom) => CSVWrite("%1$s", << ToJson(hist') >>, IOEnv.GEN))

New(m)      == /\ me' = [ me EXCEPT ![m] = Built(<< >>) ] /\ abs' = [ abs EXCEPT ![m] = << >> ]
               /\ Do([ op |-> "new", m |-> m ])
List(m, x)  == /\ me' = [ me EXCEPT ![m] = Built(Lists[x]) ] /\ abs' = [ abs EXCEPT ![m] = Lists[x] ]
               /\ Do([ op |-> "list", m |-> m, x |-> x ])
Load(m, x)  == /\ me[m].up
               /\ LET F == Files[x]  r == me[m]
                  IN  /\ me' = [ me EXCEPT ![m] = IF F.ok THEN IF Variant = "samesize" THEN Rebuilt(r, F.got) ELSE Built(IF Variant = "appends" THEN r.list \o F.got ELSE F.got)
                                                  ELSE IF Variant = "half" THEN [ r EXCEPT !.list = F.got ] ELSE r ]
                      /\ abs' = [ abs EXCEPT ![m] = IF F.ok THEN F.got ELSE @ ]
               /\ Do([ op |-> "load", m |-> m, x |-> x ])
Ctor(m, x)  == /\ LET F == Files[x] IN
                      /\ me' = [ me EXCEPT ![m] = IF F.ok THEN Built(F.got) ELSE @ ]
                      /\ abs' = [ abs EXCEPT ![m] = IF F.ok THEN F.got ELSE @ ]
               /\ Do([ op |-> "ctor", m |-> m, x |-> x ])
Copy(m, n)  == /\ me[m].up /\ me[n].up
               /\ me' = [ me EXCEPT ![m] = IF Variant = "shallow" THEN [ @ EXCEPT !.list = me[n].list ] ELSE Built(me[n].list) ]
               /\ abs' = [ abs EXCEPT ![m] = abs[n] ]
               /\ Do([ op |-> "copy", m |-> m, n |-> n ])
Clear(m)    == /\ me[m].up
               /\ me' = [ me EXCEPT ![m] = IF Variant = "staletree" THEN [ @ EXCEPT !.list = << >> ] ELSE Built(<< >>) ]
               /\ abs' = [ abs EXCEPT ![m] = << >> ]
               /\ Do([ op |-> "clear", m |-> m ])

Init == me = [ m \in Meshes |-> Absent ] /\ abs = [ m \in Meshes |-> << >> ] /\ hist = << >>
Next == \E m \in Meshes : \/ New(m) \/ \E x \in DOMAIN Lists : List(m, x)
                          \/ \E x \in DOMAIN Files : Load(m, x) \/ Ctor(m, x)
                          \/ \E n \in Meshes : Copy(m, n)
                          \/ Clear(m)
Spec == Init /\ [][Next]_vars

(* What a query of the boxes of the tokens in Q answers, and what it should. *)
Answer(r, Q) == [ k \in { j \in 1 .. Len(r.tree) : r.tree[j][2] \in Q } |-> r.tree[k][1] ]
Valid(r, Q) == \A k \in DOMAIN Answer(r, Q) : Answer(r, Q)[k] \in 1 .. Len(r.list)
Found(r, Q) == { r.list[Answer(r, Q)[k]] : k \in DOMAIN Answer(r, Q) }
Should(l, Q) == { l[k] : k \in { j \in 1 .. Len(l) : l[j] \in Q } }

SizeRight  == \A m \in Meshes : me[m].list = abs[m]
QueryRight == \A m \in Meshes : \A Q \in { { t } : t \in Tokens } \cup { Tokens, { "a1", "b2" } } :
                Valid(me[m], Q) /\ Found(me[m], Q) = Should(abs[m], Q)
                /\ Cardinality(DOMAIN Answer(me[m], Q)) = Cardinality(Should(abs[m], Q))
InStep     == \A m \in Meshes : me[m].boxes = Boxes(me[m].list) /\ me[m].tree = me[m].boxes
=============================================================================
