------------------------------ MODULE SfunLife ------------------------------
(***************************************************************************)
(* Sessions of the S-function interface (C22, C21): what the interface keeps *)
(* between calls -- a mesh, a tyre, a flat ground, in three global pointers, *)
(* and the tyre's own state -- against what the answer of a step has to be:  *)
(* a function of the latest successful initialisation (with the contents the *)
(* file had then) and of the step's own inputs.                              *)
(*                                                                         *)
(* Contents of a file: m1, m2 (two roads), or bad.  At pose "p1" the tyre    *)
(* touches road m1 only, at "p2" road m2 only, at "pp" both, at "up" neither *)
(* road nor flat ground; the flat ground is touched at the other poses.      *)
(* Variants other than "asis" must be refuted.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen, Variant, Emit, EmitFrom

Paths == { "a", "b" }
Contents == { "m1", "m2", "bad", "gone" }
Tyres == { "small", "large" }        \* rib counts below and above the number of slots of the bus
Flats == { "f1", "f2" }
Poses == { "p1", "p2", "pp", "up" }
Meth == { "g", "s", "?" }
Sel == { "mesh", "flat", "?" }
TouchMesh(m, p) == p = "pp" \/ (m = "m1" /\ p = "p1") \/ (m = "m2" /\ p = "p2")
NoBus == [ inmesh |-> "-", by |-> "-", tyre |-> "-", m |-> "-", p |-> "-" ]
None == [ mesh |-> "-", flat |-> "-", tyre |-> "-" ]

VARIABLES disk,      \* path -> contents
          kept,      \* the three global pointers
          from,      \* the path the kept mesh was read from (not in the implementation; for a variant)
          inmesh,    \* the InMesh entry of the bus as last written (likewise)
          bus,       \* answer of the last step, or NoBus
          want,      \* arguments of the latest successful initialisation, as a record like kept
          ask,       \* arguments of the last step if it was a valid one, or none
          hist
vars == << disk, kept, from, inmesh, bus, want, ask, hist >>
View == << disk, kept, from, inmesh, bus, want, ask >>
(* What the latest initialisation kept or changed of the one before it, and     *)
(* what happened to the interface in between: generated sessions have to differ *)
(* in this too, since a faulty interface may remember it.                        *)
Inits == { k \in 1 .. Len(hist) : hist[k].op = "init" }
Max(S) == CHOOSE k \in S : \A j \in S : j <= k
Again ==
  IF Cardinality(Inits) < 2 THEN << Cardinality(Inits) >>
  ELSE LET j == Max(Inits)  i == Max(Inits \ { j })  a == hist[i]  b == hist[j]
       IN  << a.path = b.path, a.c = b.c, a.tyre = b.tyre, a.flat = b.flat, a.wrong, b.wrong,
              \E k \in i .. j : hist[k].op = "end", \E k \in i .. j : hist[k].op = "step" >>
GenView == << disk, kept, ask >>             \* for generating sessions
ReView == << disk, kept, ask, Again >>       \* for generating repeated initialisations (SfunLifeRe.cfg)
Only_f1 == { "f1" }
Only_small == { "small" }
Only_g == { "g" }
Only_mesh == { "mesh" }
Only_ab == { "p1", "p2" }
Good_bad == { "m1", "m2", "bad" }
NoAsk == << "-", "-", "-" >>
Do(op) == /\ Len(hist) < MaxLen /\ hist' = Append(hist, op)
          /\ ((Emit /\ op.op = "step" /\ Len(hist') >= EmitFrom) => CSVWrite("%1$s", << ToJson(hist') >>, IOEnv.GEN))

Write(p, c) == /\ disk' = [ disk EXCEPT ![p] = c ]
               /\ UNCHANGED << kept, from, inmesh, bus, want, ask >>
               /\ Do([ op |-> "write", path |-> p, c |-> c ])
(* bad: what else is wrong with the parameters ("no", a rib count of 0, a     *)
(* negative friction of the flat ground)                                      *)
InitOp(p, t, f, wrong) ==
  LET c == disk[p]
      ok == c \in { "m1", "m2" } /\ wrong = "no"
      mesh == IF Variant = "cached" /\ from = p /\ kept.mesh # "-" THEN kept.mesh ELSE c
  IN  /\ kept' = IF ok THEN (IF Variant = "oldflat" /\ kept.flat # "-" THEN [ mesh |-> mesh, flat |-> kept.flat, tyre |-> t ]
                             ELSE [ mesh |-> mesh, flat |-> f, tyre |-> t ])
                 ELSE IF Variant = "partial" /\ c \in { "m1", "m2" } /\ kept.mesh # "-" THEN [ kept EXCEPT !.mesh = c ]
                 ELSE kept
      /\ from' = IF ok THEN p ELSE from
      /\ want' = IF ok THEN [ mesh |-> c, flat |-> f, tyre |-> t ] ELSE want
      /\ bus' = NoBus /\ ask' = NoAsk /\ UNCHANGED << disk, inmesh >>
      /\ Do([ op |-> "init", path |-> p, tyre |-> t, flat |-> f, wrong |-> wrong, c |-> c ])
Step(m, s, p) ==
  /\ kept.mesh # "-"
  /\ LET ok == m # "?" /\ s # "?"
         hit == IF Variant = "sticky" /\ inmesh = "0" THEN FALSE ELSE TouchMesh(kept.mesh, p)
         by == IF s = "flat" \/ ~hit THEN kept.flat ELSE kept.mesh
         im == IF s = "flat" THEN (IF Variant = "flatflag" THEN inmesh ELSE "1") ELSE IF hit THEN "1" ELSE "0"
     IN  /\ bus' = IF ok THEN [ inmesh |-> im, by |-> by, tyre |-> kept.tyre, m |-> m, p |-> p ] ELSE NoBus
         /\ inmesh' = IF ok THEN im ELSE inmesh
         /\ ask' = IF ok THEN << m, s, p >> ELSE NoAsk
  /\ UNCHANGED << disk, kept, from, want >>
  /\ Do([ op |-> "step", m |-> m, s |-> s, p |-> p ])
End == /\ bus' = NoBus /\ ask' = NoAsk
       /\ kept' = IF Variant = "endfrees" THEN [ kept EXCEPT !.mesh = "-" ] ELSE kept
       /\ UNCHANGED << disk, from, inmesh, want >> /\ Do([ op |-> "end" ])

Init == /\ disk = [ p \in Paths |-> IF p = "a" THEN "m1" ELSE "m2" ] /\ kept = None /\ from = "-" /\ inmesh = "-"
        /\ bus = NoBus /\ want = None /\ ask = NoAsk /\ hist = << >>
Next == \/ \E p \in Paths, c \in Contents : Write(p, c)
        \/ \E p \in Paths, t \in Tyres, f \in Flats : InitOp(p, t, f, "no")
        \/ \E p \in Paths, w \in { "size", "friction" } : InitOp(p, "small", "f1", w)
        \/ \E m \in Meth, s \in Sel, p \in Poses : ((m # "?" /\ s # "?") \/ p = "p1") /\ Step(m, s, p)
        \/ End
Spec == Init /\ [][Next]_vars

Answered == ask # NoAsk =>
  LET on == ask[2] = "mesh" /\ TouchMesh(want.mesh, ask[3])
  IN  bus = [ inmesh |-> IF ask[2] = "flat" \/ on THEN "1" ELSE "0",
              by |-> IF on THEN want.mesh ELSE want.flat, tyre |-> want.tyre, m |-> ask[1], p |-> ask[3] ]
Usable == want # None => kept = want
=============================================================================
