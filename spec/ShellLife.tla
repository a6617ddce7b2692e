----------------------------- MODULE ShellLife -----------------------------
(***************************************************************************)
(* The life of a tyre shell (C13, C07, C06, C04, C05, C26): what the        *)
(* implementation keeps between calls -- ribs, output list, per-rib         *)
(* candidate lists, bounding box, pose -- against the results a user is     *)
(* entitled to, which depend on the last setup's arguments alone.           *)
(*                                                                         *)
(* Geometry is abstracted to which triangles of a ground meet the shell's   *)
(* box at a pose (InBox) and which cut rib k of n there (Cut).  A rib's     *)
(* output is the set of elements that made it; the empty set is the         *)
(* canonical no-contact output at that pose.                                *)
(*                                                                         *)
(* Variant "asis" is the implementation; each other variant drops one       *)
(* obligation and must be refuted by TLC.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Sizes, MaxLen, Variant, Emit, EmitFrom

Grounds == { "big", "small", "none", "plane" }
Poses   == { "on", "half", "over", "away" }
Methods == { "g", "s" }
All(g) == CASE g = "big" -> 1 .. 5 [] g = "small" -> 6 .. 7 [] g = "none" -> {} [] OTHER -> { 0 }
InBox(g, p) == CASE p = "away" -> {} [] p = "half" -> All(g) \ { 3, 5, 7 } [] OTHER -> All(g)
Reach(n, k) == CASE n = 1 -> 1 .. 7 [] OTHER -> { j \in 1 .. 7 : ((j % 5) * n) \div 5 \in { k - 1, k } }
Cuts(p, n, k) ==                          \* whatever ground it belongs to
  CASE p \in { "away", "over" } -> {}
    [] p = "half" /\ 2 * k > n + 1 -> {}
    [] OTHER -> { 0 } \cup Reach(n, k)
Cut(g, p, n, k) == InBox(g, p) \cap Cuts(p, n, k)
(* pruning keeps what can cut the rib, and more                              *)
Keep(g, p, n, k) == InBox(g, p) \cap (Reach(n, k) \cup { j \in 1 .. 7 : j % 2 = k % 2 })

VARIABLES n, ribs, out, cand, box, pose, ret, hist,
          want      \* the last setup's arguments, or none
vars == << n, ribs, out, cand, box, pose, ret, hist, want >>
View == << n, ribs, out, cand, box, pose, want >>
GenView == << n, out, want >>             \* coarser: for generating histories
Nothing == [ g |-> "-", p |-> "-", m |-> "-" ]
Fresh == [ by |-> {}, at |-> "-", m |-> "-" ]
Do(op) == /\ Len(hist) < MaxLen /\ hist' = Append(hist, op)
          /\ ((Emit /\ Len(hist') >= EmitFrom) => CSVWrite("%1$s", << ToJson(hist') >>, IOEnv.GEN))

Resize(k) ==
  /\ n' = k /\ ribs' = k
  /\ out' = IF Variant = "shortout" THEN << >> ELSE [ j \in 1 .. k |-> Fresh ]
  /\ cand' = [ j \in 1 .. k |-> {} ]
  /\ want' = Nothing /\ UNCHANGED << box, pose, ret >> /\ Do([ op |-> "resize", n |-> k ])
Refuse ==                                  \* rib count 0
  /\ UNCHANGED << n, ribs, out, cand, box, pose, ret, want >> /\ Do([ op |-> "resize", n |-> 0 ])
Move(p) ==
  /\ pose' = p /\ UNCHANGED << n, ribs, out, cand, box, ret, want >> /\ Do([ op |-> "move", p |-> p ])

Put(k, by, p, m) == [ by |-> by, at |-> p, m |-> IF by = {} THEN "-" ELSE m ]
Mesh(g, p, m) ==
  LET b == IF Variant = "keepbox" /\ box # "-" THEN box ELSE p
      local == InBox(g, b)
      kept(k) == IF m = "g" /\ Cardinality(local) > 3
                 THEN (IF Variant = "stalecand" THEN cand[k] ELSE {}) \cup (Keep(g, p, n, k) \cap local)
                 ELSE local
      hit(k) == kept(k) \cap Cuts(p, n, k)
  IN  /\ pose' = p /\ box' = p
      /\ IF local = {}
         THEN /\ out' = IF Variant = "skipcanon" THEN out ELSE [ k \in 1 .. Len(out) |-> Put(k, {}, p, m) ]
              /\ ret' = FALSE /\ UNCHANGED cand
         ELSE /\ cand' = [ k \in 1 .. n |-> kept(k) ]
              /\ out' = [ k \in 1 .. Len(out) |-> Put(k, hit(k), p, m) ]
              /\ ret' = IF Variant = "lastonly" THEN hit(n) # {} ELSE \E k \in 1 .. n : hit(k) # {}
Plane(p, m) ==
  /\ pose' = p /\ box' = p /\ UNCHANGED cand
  /\ out' = [ k \in 1 .. Len(out) |-> Put(k, Cut("plane", p, n, k), p, m) ]
  /\ ret' = IF Variant = "lastonly" THEN Cut("plane", p, n, n) # {} ELSE \E k \in 1 .. n : Cut("plane", p, n, k) # {}
Setup(g, p, m) ==
  /\ IF g = "plane" THEN Plane(p, m) ELSE Mesh(g, p, m)
  /\ want' = [ g |-> g, p |-> p, m |-> m ] /\ UNCHANGED << n, ribs >>
  /\ Do([ op |-> "setup", g |-> g, p |-> p, m |-> m ])
(* An unknown method: the pose and the box are already the new ones.          *)
Unknown(g, p) ==
  /\ pose' = p /\ box' = p
  /\ cand' = IF g # "plane" /\ InBox(g, p) # {} THEN [ k \in 1 .. n |-> InBox(g, p) ] ELSE cand
  /\ out' = IF g # "plane" /\ InBox(g, p) = {} THEN [ k \in 1 .. Len(out) |-> Put(k, {}, p, "-") ] ELSE out
  /\ ret' = FALSE /\ want' = Nothing /\ UNCHANGED << n, ribs >>
  /\ Do([ op |-> "setup", g |-> g, p |-> p, m |-> "other" ])

Init == /\ n \in Sizes /\ ribs = n /\ out = [ k \in 1 .. n |-> Fresh ] /\ cand = [ k \in 1 .. n |-> {} ]
        /\ box = "-" /\ pose = "-" /\ ret = FALSE /\ want = Nothing /\ hist = << [ op |-> "shell", n |-> n ] >>
Next == \/ \E k \in Sizes : Resize(k)
        \/ Refuse
        \/ \E p \in Poses : Move(p)
        \/ \E g \in Grounds, p \in Poses : (\E m \in Methods : Setup(g, p, m)) \/ Unknown(g, p)
Spec == Init /\ [][Next]_vars

OneEntryPerRib == Len(out) = n /\ ribs = n /\ Len(cand) = n
Determined == want # Nothing => \A k \in 1 .. Len(out) : out[k] = Put(k, Cut(want.g, want.p, n, k), want.p, want.m)
FlagRight  == want # Nothing => (ret <=> \E k \in 1 .. Len(out) : out[k].by # {})
BoxRight   == want # Nothing => box = want.p
=============================================================================
