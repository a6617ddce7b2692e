------------------------------ MODULE AabbTree ------------------------------
(***************************************************************************)
(* Box trees and their intersection (C23, C03).                             *)
(*                                                                         *)
(* A collection is a sequence of intervals << lo, hi >> (boxes that differ   *)
(* along one axis).  A tree over it is a leaf or an inner node with children *)
(* over a partition of the boxes; how build() partitions is left open --     *)
(* any shape is allowed, so the algorithm is right whatever the heuristics.  *)
(* Every node stores the hull of its boxes.  The intersection is a worklist  *)
(* of pairs of nodes, processed as AABBtree::intersection does: prune when   *)
(* the hulls are apart, emit at two leaves, otherwise descend.               *)
(*                                                                         *)
(* Variants other than "asis" must be refuted.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Top, MaxA, MaxB, Shapes, Variant, Emit

Ivs == { << a, b >> \in (0 .. Top) \X (0 .. Top) : a <= b }
Seqs(n) == UNION { [ 1 .. k -> Ivs ] : k \in 0 .. n }
(* collections are multisets: only the ordered representatives              *)
Le(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Sorted(n) == { s \in Seqs(n) : \A i \in 1 .. Len(s) : i = 1 \/ Le(s[i - 1], s[i]) }

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Hull(s, I) == << Min({ s[i][1] : i \in I }), Max({ s[i][2] : i \in I }) >>
Meets(p, q) == p[1] <= q[2] /\ q[1] <= p[2]

(* All trees over the index set I (children in either order).  "any": every  *)
(* binary shape; "chain": one box splits off at each level; "half": the       *)
(* splits of build() when all centres coincide.                               *)
RECURSIVE Trees(_)
Trees(I) ==
  IF I = {} THEN { [ k |-> "empty" ] }
  ELSE IF Cardinality(I) = 1 THEN { [ k |-> "leaf", box |-> I, kids |-> << >> ] }
  ELSE LET L == { S \in SUBSET I : S # {} /\ S # I
                  /\ CASE Shapes = "any" -> TRUE [] Shapes = "chain" -> Cardinality(S) = 1 [] OTHER -> Cardinality(S) = Cardinality(I) \div 2 }
       IN  UNION { { [ k |-> "node", box |-> I, kids |-> << x, y >> ] : x \in Trees(S), y \in Trees(I \ S) } : S \in L }

VARIABLES A, B, swap, work, got, ta, tb
vars == << A, B, swap, work, got, ta, tb >>

NodeHull(s, t) == IF Variant = "firstbox" /\ t.k = "node" THEN Hull(s, { Min(t.box) }) ELSE Hull(s, t.box)
Apart(x, y, sw) ==               \* x is a node of A unless sw, when it is one of B
  LET hx == IF sw THEN NodeHull(B, x) ELSE NodeHull(A, x)
      hy == IF sw THEN NodeHull(A, y) ELSE NodeHull(B, y)
  IN  IF Variant = "strict" /\ x.k = "node" /\ y.k = "node" THEN ~(hx[1] < hy[2] /\ hy[1] < hx[2]) ELSE ~Meets(hx, hy)
One(S) == CHOOSE x \in S : TRUE
(* One step on the pair p = << x, y, sw >>: the pairs it leads to.            *)
Emitted(p) == IF p[1].k = "leaf" /\ p[2].k = "leaf" /\ ~Apart(p[1], p[2], p[3])
              THEN << IF p[3] # (Variant = "noswap" /\ p[3]) THEN << One(p[2].box), One(p[1].box) >> ELSE << One(p[1].box), One(p[2].box) >> >>
              ELSE << >>
Into(p) ==
  LET x == p[1]  y == p[2]  sw == p[3] IN
  IF x.k = "empty" \/ y.k = "empty" \/ Apart(x, y, sw) THEN << >>
  ELSE IF x.k = "leaf" /\ y.k = "leaf" THEN << >>
  ELSE IF y.k = "leaf" THEN << << y, x.kids[1], ~sw >>, << y, x.kids[2], ~sw >> >>
  ELSE IF x.k = "leaf" THEN << << x, y.kids[1], sw >>, << x, y.kids[2], sw >> >>
  ELSE << << x.kids[1], y.kids[1], sw >>, << x.kids[1], y.kids[2], sw >> >>
       \o (IF Variant = "skiplast" THEN << << x.kids[2], y.kids[1], sw >> >>
           ELSE << << x.kids[2], y.kids[1], sw >>, << x.kids[2], y.kids[2], sw >> >>)

Init == /\ A \in Sorted(MaxA) /\ B \in Sorted(MaxB) /\ swap = FALSE
        /\ ta \in Trees(1 .. Len(A)) /\ tb \in Trees(1 .. Len(B))
        /\ work = << << ta, tb, FALSE >> >> /\ got = << >>
Step == /\ work # << >>
        /\ LET p == Head(work) IN
           /\ got' = got \o Emitted(p)
           /\ work' = (IF Variant = "twice" /\ p[1].k = "node" /\ p[2].k = "leaf" THEN << << p[1].kids[1], p[2], p[3] >> >> ELSE << >>) \o Into(p) \o Tail(work)
        /\ UNCHANGED << A, B, swap, ta, tb >>
Next == Step
Spec == Init /\ [][Next]_vars

Want == { p \in (1 .. Len(A)) \X (1 .. Len(B)) : Meets(A[p[1]], B[p[2]]) }
Rng(s) == { s[i] : i \in DOMAIN s }
(* The pairs still to be reported through a worklist entry.                   *)
Under(p) == LET a == IF p[3] THEN p[2] ELSE p[1]  b == IF p[3] THEN p[1] ELSE p[2]
            IN  IF a.k = "empty" \/ b.k = "empty" THEN {} ELSE { q \in a.box \X b.box : q \in Want }
(* What is reported and what is still on the list are, together, exactly what *)
(* is wanted -- each once.                                                    *)
Sound == Rng(got) \subseteq Want
Once  == Cardinality(Rng(got)) = Len(got)
Kept  == Want = Rng(got) \cup UNION { Under(work[i]) : i \in DOMAIN work }
Apart2 == \A i, j \in DOMAIN work : i # j => Under(work[i]) \cap Under(work[j]) = {}
Fresh == \A i \in DOMAIN work : Under(work[i]) \cap Rng(got) = {}
Done  == work = << >> => Rng(got) = Want
(* every collection pair once, for the replay on the library                   *)
EmitAll == (Emit /\ work # << >> /\ Len(got) = 0 /\ work[1] = << ta, tb, FALSE >>) => CSVWrite("%1$s", << ToJson(<< A, B >>) >>, IOEnv.GEN)
=============================================================================
