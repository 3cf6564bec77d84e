------------------------------ MODULE DimObs ------------------------------
(***************************************************************************)
(* Dimensions of real gears with arbitrary parameters, at arbitrary         *)
(* placements.  A record holds measured and textbook values side by side    *)
(* (lengths in millionths of the pitch radius, angles in microradians); the *)
(* clauses say how they have to be related.                                 *)
(***************************************************************************)
EXTENDS TraceBase

Tol == 5
\* values[i] measured, want[i] specified: all of them
Match(r) == \A i \in 1..Len(r.got) : Near(r.got[i], r.want[i], Tol)

\* radii at a section: root < pitch < tip, and the measured ones are the specified ones
Radii(r) == [
  pitch   |-> Near(r.rp, r.wp, Tol),
  tip     |-> Near(r.ra, r.wa, Tol),
  root    |-> Near(r.rd, r.wd, Tol + r.slack),
  outside |-> Near(r.ro, r.wo, Tol),
  order   |-> r.rd < r.rp /\ r.rp < r.ra,
  biggest |-> Near(r.max, r.wmax, Tol),
  first   |-> Near(r.addr, r.wa0, Tol) /\ Near(r.dedr, r.wd0, Tol + r.slack) ]
\* cone angles of the outside, root, pitch and tip cone (bevel)
Cones(r) == [
  cones   |-> \A i \in 1..Len(r.cones) : Near(r.cones[i], r.wcones[i], 2 * Tol + IF i = 2 THEN r.slack ELSE 0),
  centres |-> \A i \in 1..Len(r.cent) : Near(r.cent[i], r.wcent[i], Tol + IF i = 2 THEN r.slack ELSE 0) ]
\* the same gear with another module and placement: everything in proportion
Prop(r) == [ proportional |-> Match(r) ]

ClausesOf(r) == CASE r.kind = "radii" -> Radii(r)
                  [] r.kind = "cones" -> Cones(r)
                  [] r.kind = "prop" -> Prop(r)

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(ClausesOf(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
==========================================================================
