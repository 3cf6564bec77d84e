------------------------------ MODULE RackObs ------------------------------
(***************************************************************************)
(* A real rack part, measured in the rack's own frame (units of the          *)
(* transverse module, millionths).                                           *)
(*   corner    largest distance of a corner of the specified rack from the   *)
(*             nearest vertex of the part                                    *)
(*   on        largest distance of a vertex of the part from the specified   *)
(*             outline, swept along the helix                                *)
(*   top, bot, low, high   extents along the axis of the gear and towards it *)
(*   vol       volume against the specified one                              *)
(***************************************************************************)
EXTENDS TraceBase
Tol == 20
Clauses(r) ==
  [ corners |-> Within(r.corner, Tol),
    outline |-> Within(r.on, Tol),
    width   |-> Near(r.bot, 0, Tol) /\ Near(r.top, r.height, Tol),
    depth   |-> Near(r.high, r.ha, Tol) /\ Near(r.root, -r.hd, Tol),
    teeth   |-> r.teeth = r.n,
    volume  |-> Near(r.vol, r.wvol, r.vtol),
    fillet  |-> AtMost(r.added, r.wadded) /\ AtLeast(r.added, r.ladded),
    solid   |-> r.solids = 1 /\ r.valid = 1,
    same    |-> Within(r.again, Tol) ]
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
===========================================================================
