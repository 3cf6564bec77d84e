----------------------------- MODULE SolidObs -----------------------------
(***************************************************************************)
(* One built part, measured on the real CAD solid.                           *)
(*   solids, valid, free, genus2   number of solids, validity, free edges,   *)
(*               twice the genus (Shell.tla: 0 for a gear, 2 for a ring)     *)
(*   dvol        volume over the integrated sections, minus one              *)
(*   bot, top    lower and upper end against the specified ones              *)
(*   outer,inner largest and smallest radius (or cone angle) of a vertex     *)
(*               against the tip (a ring: outside) and the root              *)
(*   odd         vertices without a partner one angular pitch further;       *)
(*               seams: how many seams of the blank may cause                *)
(*   on          distance of points of the outline at any height             *)
(*   side        points next to a flank on the wrong side of the surface     *)
(* Lengths in millionths of a module, ratios in millionths.                  *)
(***************************************************************************)
EXTENDS TraceBase

VolTol == 500
EndTol == 10
RadTol == 60
Clauses(r) ==
  CASE r.kind = "solid" ->
         [ one     |-> r.solids = 1,
           valid   |-> r.valid = 1,
           closed  |-> r.free = 0,
           genus   |-> r.genus2 = 2 * r.ring,
           volume  |-> Within(r.dvol, VolTol),
           bottom  |-> Within(r.bot, EndTol),
           top     |-> Within(r.top, EndTol),
           outer   |-> Within(r.outer, RadTol + r.oslack),
           inner   |-> Within(r.inner, RadTol + r.slack),
           sym     |-> r.odd <= r.seams /\ r.few = 0,
           on      |-> Within(r.on, r.fit),
           sides   |-> r.side = 0 ]
    [] r.kind = "count" -> [ one |-> r.solids = 1 ]
    [] OTHER -> [ known |-> FALSE ]
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
===========================================================================
