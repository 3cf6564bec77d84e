------------------------------- MODULE Shell -------------------------------
(***************************************************************************)
(* The boundary of a gear as it is sewn together from faces.                 *)
(*                                                                         *)
(* N teeth, each a row of P pieces of outline; S segments along the height   *)
(* (a herringbone gear has two); external gear or ring. A side face spans    *)
(* one piece over one segment, two covers close the ends, a ring has an      *)
(* outside wall. Faces are added in any order.                               *)
(*                                                                         *)
(* An edge is named by where it lies:                                        *)
(*   <<"h", k, n>>  piece n of the outline (0 <= n < N*P) at level k         *)
(*   <<"v", k, n>>  corner between piece n-1 and n, over segment k           *)
(*   <<"c", k>>     outside circle of a ring at level k;  <<"s">> its seam   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS N, P, S, Ring

VARIABLE faces
vars == <<faces>>

M == N * P
Side == { <<"side", k, n>> : k \in 0..(S-1), n \in 0..(M-1) }
Cover == { <<"cover", 0>>, <<"cover", S>> }
Wall == IF Ring THEN { <<"wall">> } ELSE {}
All == Side \cup Cover \cup Wall

Edges(f) ==
  CASE f[1] = "side" -> { <<"h", f[2], f[3]>>, <<"h", f[2] + 1, f[3]>>, <<"v", f[2], f[3]>>, <<"v", f[2], (f[3] + 1) % M>> }
    [] f[1] = "cover" -> { <<"h", f[2], n>> : n \in 0..(M-1) } \cup (IF Ring THEN { <<"c", f[2]>> } ELSE {})
    [] f[1] = "wall" -> { <<"c", 0>>, <<"c", S>> }

AllEdges == UNION { Edges(f) : f \in All }
Uses(e) == Cardinality({ f \in faces : e \in Edges(f) })
Free == { e \in AllEdges : Uses(e) # 2 }

Init == faces = {}
Add == \E f \in All \ faces : faces' = faces \cup { f }
Next == Add

Complete == faces = All
\* a complete shell has no free edge, an incomplete one has
Closed == (Free = {}) <=> Complete
NeverThree == \A e \in AllEdges : Uses(e) <= 2

\* Euler-Poincare: V - E + F - (L - F) = 2 - 2 genus
Verts == (S + 1) * M + (IF Ring THEN 2 ELSE 0)
EdgeCount == Cardinality(AllEdges) + (IF Ring THEN 1 ELSE 0)   \* the wall's seam
Loops == Cardinality(All) + (IF Ring THEN 2 ELSE 0)            \* covers of a ring have a hole
Euler == Verts - EdgeCount + Cardinality(All) - (Loops - Cardinality(All))
\* twice the genus: a gear is a ball, a ring is a torus (the bore of a gear is not part of it)
Genus2 == 2 - Euler
GenusOK == Genus2 = IF Ring THEN 2 ELSE 0
=============================================================================
