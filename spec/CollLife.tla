------------------------------ MODULE CollLife ------------------------------
(***************************************************************************)
(* The life of a collection of primitives (C28): the list of members and    *)
(* the box tree the implementation keeps, against the members a user is     *)
(* entitled to see.  A member is a token with a kind and an interval of      *)
(* positions on one axis; the tree holds the intervals and the indices of    *)
(* the members it was built from, and is only asked when nothing changed     *)
(* since.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen, Variant, Emit, EmitFrom

Pool == [ p |-> [ k |-> "pt", lo |-> 0, hi |-> 0 ],  q |-> [ k |-> "pt", lo |-> 2, hi |-> 2 ], s |-> [ k |-> "seg", lo |-> 1, hi |-> 3 ],
          t |-> [ k |-> "tri", lo |-> -1, hi |-> 0 ], z |-> [ k |-> "degseg", lo |-> 3, hi |-> 3 ], l |-> [ k |-> "line", lo |-> 0, hi |-> 0 ] ]
Is(e, w) == CASE w = "seg" -> e.k \in { "seg", "degseg" } [] w = "degenerated" -> e.k = "degseg" [] w = "clampable" -> e.k # "line"
              [] w = "nonclampable" -> e.k = "line" [] OTHER -> e.k = w
Wipes == { "pt", "seg", "tri", "line", "degenerated", "clampable", "nonclampable" }
Hole == [ k |-> "hole", lo |-> 0, hi |-> 0, x |-> "-" ]

VARIABLES ents, tree,     \* the implementation's members and tree (sequence of << lo, hi, index >>)
          abs, fresh,     \* the members, and whether the tree is up to date
          hist
vars == << ents, tree, abs, fresh, hist >>
View == << ents, tree, abs, fresh, IF Emit THEN hist ELSE << >> >>
Do(op) == /\ Len(hist) < MaxLen /\ hist' = Append(hist, op)
          /\ ((Emit /\ Len(hist') >= EmitFrom) => CSVWrite("%1$s", << ToJson(hist') >>, IOEnv.GEN))
Bounded(m) == \A j \in DOMAIN m : m[j].k \notin { "line", "hole" }
TreeOf(m) == [ j \in 1 .. Len(m) |-> << m[j].lo, m[j].hi, j >> ]

Push(x) == /\ Len(abs) < 3 /\ \A j \in DOMAIN abs : abs[j].x # x
           /\ LET e == [ k |-> Pool[x].k, lo |-> Pool[x].lo, hi |-> Pool[x].hi, x |-> x ]
              IN  ents' = Append(ents, e) /\ abs' = Append(abs, e)
           /\ fresh' = FALSE /\ UNCHANGED tree /\ Do([ op |-> "push", x |-> x ])
Keep(m, w) == SelectSeq(m, LAMBDA e : ~Is(e, w))
Wipe(w) == /\ abs # << >>
           /\ ents' = (IF Variant = "holes" THEN Keep(ents, w) \o [ j \in 1 .. Len(ents) - Len(Keep(ents, w)) |-> Hole ]
                       ELSE IF Variant = "onlyfirst" /\ \E j \in DOMAIN ents : Is(ents[j], w)
                            THEN LET f == CHOOSE j \in DOMAIN ents : Is(ents[j], w) /\ \A l \in 1 .. j - 1 : ~Is(ents[l], w)
                                 IN  SubSeq(ents, 1, f - 1) \o SubSeq(ents, f + 1, Len(ents))
                       ELSE Keep(ents, w))
           /\ abs' = Keep(abs, w) /\ fresh' = FALSE /\ UNCHANGED tree /\ Do([ op |-> "wipe", w |-> w ])
Clear == /\ ents' = << >> /\ tree' = (IF Variant = "treestays" THEN tree ELSE << >>) /\ abs' = << >> /\ fresh' = TRUE /\ Do([ op |-> "clear" ])
Resize(n) == /\ n < Len(abs) /\ ents' = SubSeq(ents, 1, n) /\ abs' = SubSeq(abs, 1, n) /\ fresh' = FALSE /\ UNCHANGED tree /\ Do([ op |-> "resize", n |-> n ])
Moved(m, d) == [ j \in DOMAIN m |-> [ m[j] EXCEPT !.lo = @ + d, !.hi = @ + d ] ]
Shift(d) == /\ abs # << >> /\ \A j \in DOMAIN abs : abs[j].lo + d \in -1 .. 3 /\ abs[j].hi + d \in -1 .. 4
            /\ ents' = Moved(ents, d) /\ abs' = Moved(abs, d) /\ fresh' = FALSE /\ UNCHANGED tree /\ Do([ op |-> "shift", d |-> d ])
Build == /\ Bounded(abs) /\ ~fresh
         /\ tree' = (IF Variant = "samesize" /\ Len(tree) = Len(ents) THEN tree ELSE TreeOf(ents))
         /\ fresh' = TRUE /\ UNCHANGED << ents, abs >> /\ Do([ op |-> "build" ])

Init == ents = << >> /\ tree = << >> /\ abs = << >> /\ fresh = TRUE /\ hist = << >>
Next == (\E x \in DOMAIN Pool : Push(x)) \/ (\E w \in Wipes : Wipe(w)) \/ Clear \/ (\E n \in 0 .. 2 : Resize(n)) \/ (\E d \in { -1, 1 } : Shift(d)) \/ Build
Spec == Init /\ [][Next]_vars

Hits(lo, hi) == { j \in DOMAIN tree : tree[j][1] <= hi /\ lo <= tree[j][2] }
SearchRight == fresh => \A lo \in -1 .. 4 : \A hi \in lo .. 4 :
                 /\ \A j \in Hits(lo, hi) : tree[j][3] \in DOMAIN ents
                 /\ { ents[tree[j][3]] : j \in Hits(lo, hi) } = { abs[j] : j \in { l \in DOMAIN abs : abs[l].lo <= hi /\ lo <= abs[l].hi } }
MembersRight == ents = abs
=============================================================================
