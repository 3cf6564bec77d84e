----------------------------- MODULE MeshObs -----------------------------
(***************************************************************************)
(* What a mesh call on real gears with arbitrary (non-lattice) parameters    *)
(* has to look like.  The record contains the placement of the moved gear    *)
(* expressed in the frame of the base gear:                                  *)
(*   along, perp  offset of its centre along / across the requested direction*)
(*   dist         the specified signed centre distance (from the inputs)     *)
(*   axis         the cosine of the shaft angle,  sang / cang the specified   *)
(*   ph1, ph2     tooth phases at the pitch point in millionths of a tooth    *)
(*   base         how far the base gear moved during the call                *)
(* Lengths in millionths.                                                    *)
(***************************************************************************)
EXTENDS TraceBase

Tol == 30            \* 3e-5
PhTol == 60          \* 6e-5 of a tooth
Tooth == 1000000

Common(r) == [
  baseStays   |-> r.base = 0,
  rigid       |-> Within(r.rigid, 2) ]

\* external: the phases complement each other to half a tooth; ring: they are equal
PhaseOK(r) == IF r.ring = 1 THEN NearMod(r.ph1, r.ph2, Tooth, PhTol)
              ELSE NearMod(r.ph1 + r.ph2, Tooth \div 2, Tooth, PhTol)

Parallel(r) == [
  distance    |-> Near(r.along, r.dist, Tol + r.slack),
  direction   |-> Within(r.perp, Tol),
  axes        |-> Within(r.axisdev, Tol),
  sense       |-> AtLeast(r.cosang, 999000),
  phase       |-> PhaseOK(r) ]

Placed(r) == [ distance  |-> Near(r.along, r.dist, Tol + r.slack),
               direction |-> Within(r.perp, Tol),
               axes      |-> Within(r.axisdev, Tol),
               sense     |-> AtLeast(r.cosang, 999000) ]
Phased(r) == [ phase |-> PhaseOK(r) ]

Bevel(r) == [
  apex        |-> Within(r.apex, 3 * Tol),
  shaftAngle  |-> Near(r.ang, r.wantang, Tol),
  sidewards   |-> Within(r.side, Tol),
  towards     |-> Near(r.tilt, r.wanttilt, Tol),
  pitchPoint  |-> Within(r.pitch, 4 * Tol),
  phase       |-> PhaseOK(r) ]

Crossed(r) == [
  distance    |-> Near(r.along, r.dist, Tol + r.slack),
  direction   |-> Within(r.perp, Tol),
  shaftAngle  |-> Near(r.ang, r.wantang, Tol),
  aboutDir    |-> Within(r.side, Tol),
  traces      |-> Within(r.trace, 50 * Tol),
  phase       |-> PhaseOK(r) ]

ClausesOf(r) == Common(r) @@
  ( CASE r.kind = "placed" -> Placed(r)
      [] r.kind = "phased" -> Phased(r)
      [] r.kind = "parallel" -> Parallel(r)
      [] r.kind = "bevel" -> Bevel(r)
      [] r.kind = "crossed" -> Crossed(r) )

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(ClausesOf(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
==========================================================================
