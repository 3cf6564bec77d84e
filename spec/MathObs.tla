----------------------------- MODULE MathObs -----------------------------
(***************************************************************************)
(* Relations between the results of the mesh arithmetic helpers (P22), the  *)
(* coordinate conversions (P23) and the generating curves (P25).            *)
(* Lengths are relative to the size of the configuration, in 1e-9.          *)
(***************************************************************************)
EXTENDS TraceBase

Tol == 2000            \* 2e-6 of the size (solvers)
Fine == 100            \* 1e-7 of the size (closed formulas)

\* tight mesh of two involutes.  d[1..n] are the distances for growing backlash bl[1..n]
\* (bl[1] = 0), back[i] is the backlash the inverse function finds for d[i].
Grows(d)   == \A i \in 1..(Len(d) - 1) : d[i + 1] > d[i]
Falls(d)   == \A i \in 1..(Len(d) - 1) : d[i + 1] < d[i]
InvDist(r) == [
  textbook  |-> \A i \in 1..Len(r.d) : Near(r.d[i], r.want[i], Tol),
  monotone  |-> IF r.ring = 1 THEN Falls(r.d) ELSE Grows(r.d),
  \* swapping the gears gives the same distance (with the other sign for rings)
  swap      |-> \A i \in 1..Len(r.d) : Near(r.swapped[i], IF r.ring = 1 THEN -r.d[i] ELSE r.d[i], Tol),
  inverse   |-> \A i \in 1..Len(r.bl) : Near(r.back[i], r.bl[i], 4 * Tol),
  inverse2  |-> \A i \in 1..Len(r.bl) : Near(r.back2[i], r.bl[i], 4 * Tol) ]

\* pitch cones of a bevel pair: half angles add up to the axis angle, sines are in the
\* ratio of the tooth numbers (cross product z2 sin g1 - z1 sin g2, relative)
ConesOf(r) == [ sum   |-> Near(r.g1 + r.g2, r.axis, Fine),
            ratio |-> Within(r.cross, Fine),
            order |-> (r.z1 > r.z2) => (r.g1 > r.g2 \/ r.obtuse = 1),
            swap  |-> Near(r.s1, r.g2, Fine) /\ Near(r.s2, r.g1, Fine) ]

\* nominal distance: pitch radii and shifts add for external pairs, subtract for ring pairs
Nominal(r) == [ value |-> Near(r.got, r.sg1 * r.p1 + r.sg2 * r.p2, Fine) ]

\* conversions: there and back, and the meaning of the coordinates
Convert(r) == [ back    |-> Within(r.back, Fine),      \* inverse(forward(p)) = p
                forth   |-> Within(r.forth, Fine),     \* forward(inverse(c)) = c
                meaning |-> Within(r.meaning, Fine),   \* distances and angles of the coordinates
                array   |-> Within(r.array, Fine),     \* lists of points are converted pointwise
                input   |-> r.input = 0 ]
\* cone-surface coordinates
Cone(r) == Convert(r) @@
           [ pitch   |-> Within(r.pitch, Fine),        \* height of the pitch circle is zero, its points are kept
             outward |-> Within(r.outward, Fine),      \* one unit of "out" is one unit of arc length on the sphere
             height  |-> Within(r.height, Fine) ]      \* one unit of height is one unit towards the apex

\* generating curves: see flankobs.py for what is measured
Curve(r) == [ start  |-> Within(r.start, Fine),
              \* the velocity is perpendicular to the instantaneous axis of the rolling motion
              roll   |-> Within(r.roll, 50 * Fine),
              \* the generating element keeps its length / the point stays on its circle or sphere
              shape  |-> Within(r.shape, 10 * Fine),
              \* distance to the tangent point equals the arc rolled off
              unroll |-> Within(r.unroll, 10 * Fine) ]
Octoid(r) == [ sphere    |-> Within(r.sphere, 10 * Fine),
               start     |-> Within(r.start, Fine),
               pressure  |-> Within(r.pressure, 100 * Fine),
               \* in the frame of the crown gear the tangent plane stands still
               conjugate |-> Within(r.conj, 100 * Fine),
               contact   |-> Within(r.contact, 100 * Fine) ]
\* flanks of real gears: r.pts measurements at points of the flank
Flank(r) == [ pressure |-> Within(r.pressure, r.ptol),
              law      |-> \A i \in 1..Len(r.law) : Within(r.law[i], r.tol),
              points   |-> Len(r.law) >= 3 ]

ClausesOf(r) == CASE r.kind = "invdist" -> InvDist(r)
                  [] r.kind = "cones" -> ConesOf(r)
                  [] r.kind = "nominal" -> Nominal(r)
                  [] r.kind = "convert" -> Convert(r)
                  [] r.kind = "cone" -> Cone(r)
                  [] r.kind = "curve" -> Curve(r)
                  [] r.kind = "octoid" -> Octoid(r)
                  [] r.kind = "flank" -> Flank(r)
                  [] OTHER -> [ known |-> FALSE ]

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(ClausesOf(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
==========================================================================
