------------------------------ MODULE LoaObs ------------------------------
(***************************************************************************)
(* The lines of action of a meshed pair, in the plane of a section and in    *)
(* units of the pitch radius of the first gear (millionths).                 *)
(*   flat       distance of the ends from the plane of the section           *)
(*   d1, d2     distance of both centres from the line, b1, b2 base radii    *)
(*   s1, e2     distance of start / end from the centre of "their" gear      *)
(*   foot       the start (and, for external pairs, the end) is the point    *)
(*              where the line touches the base circle                       *)
(*   cross      where the line crosses the line of centres, from the first   *)
(*              centre; pp: the pitch point                                  *)
(*   mirror     the second line against the mirror image of the first        *)
(*   normal     deviation of the flank normals where flanks cross the line   *)
(***************************************************************************)
EXTENDS TraceBase
Tol == 20
Clauses(r) ==
  [ plane   |-> Within(r.flat, Tol),
    tangent |-> Near(r.d1, r.b1, Tol) /\ Near(r.d2, r.b2, Tol),
    starts  |-> Near(r.s1, r.ws1, Tol),
    ends    |-> Near(r.e2, r.we2, Tol),
    foot    |-> Within(r.foot, Tol),
    pitch   |-> Near(r.cross, r.pp, Tol),
    mirror  |-> Within(r.mirror, Tol),
    between |-> r.between = 1,
    contact |-> Within(r.normal, 3000),
    still   |-> r.still = 1 ]
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
===========================================================================
