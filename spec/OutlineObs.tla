---------------------------- MODULE OutlineObs ----------------------------
(***************************************************************************)
(* The outline of one section of a gear, measured on the real curves and     *)
(* expressed in the frame of the gear (pitch radius z/2, unit: the module).  *)
(*   hi, lo      largest and smallest height of a sampled point above the    *)
(*               pitch cylinder / cone;  top, bot: the specified ones        *)
(*   flat        distance from the section's plane / sphere                  *)
(*   half        half tooth angle measured on the pitch circle, want: the    *)
(*               specified one;  mid, wmid: centre line of tooth 0           *)
(*   gaps        largest gap between consecutive pieces of the outline       *)
(*   closed      distance of end and start                                   *)
(*   nfold       outline against itself turned by one angular pitch          *)
(*   mirror      both flanks of a tooth against each other                   *)
(*   chain       piecewise outline against the continuous one                *)
(* Heights, angles and distances in millionths.                              *)
(***************************************************************************)
EXTENDS TraceBase

Tol == 20
RTol == 60
Clauses(r) ==
  CASE r.kind = "outline" ->
         [ within   |-> AtMost(r.hi, r.top + RTol) /\ AtLeast(r.lo, r.bot - RTol - r.slack),
           \* the outline reaches the tip circle and the root circle
           tip      |-> r.reachtop = 1 => Near(r.hi, r.top, RTol),
           root     |-> r.reachbot = 1 => Near(r.lo, r.bot, RTol + r.slack),
           section  |-> Within(r.flat, RTol),
           thick    |-> Near(r.half, r.want, Tol) /\ Near(r.half2, r.want, Tol),
           place    |-> Near(r.mid, r.wmid, Tol),
           joined   |-> Within(r.gaps, 2),
           closed   |-> Within(r.closed, Tol),
           nfold    |-> Within(r.nfold, Tol),
           mirror   |-> Within(r.mirror, Tol),
           chain    |-> Within(r.chain, Tol),
           \* tooth i is tooth 0 turned by i angular pitches; as many as asked for
           teeth    |-> r.teeth = r.z,
           \* flanks never fold back around the centre line of tooth or space
           simple   |-> r.simple = 1 ]
    [] r.kind = "fillet" ->
         \* an arc of the given radius, tangent at both ends
         [ kinkin   |-> Within(r.kink1, r.ktol),
           kinkout  |-> Within(r.kink2, r.ktol),
           radius   |-> Near(r.radius, r.wrad, Tol),
           there    |-> r.there = 1 ]
    [] r.kind = "wire" ->
         [ closed   |-> r.closed = 1, one |-> r.one = 1,
           \* wires are splines through the outline
           on       |-> Within(r.on, 2000), covers |-> Within(r.covers, 2000), length |-> Within(r.length, 3000),
           \* boundary curves run over the same teeth
           curves   |-> Within(r.curves, 20) ]
    [] OTHER -> [ known |-> FALSE ]
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
===========================================================================
