----------------------------- MODULE XformObs -----------------------------
\* Trace specification for transforms with arbitrary (off-lattice) orientation, angle
\* and scale: every record compares two ways of moving the same points, the difference
\* relative to the size of the result, in units of 1e-10.
EXTENDS TraceBase
Tol == 1000
ClausesOf(r) ==
  [ compose   |-> Within(r.compose, Tol),     \* (a*b)(p) = a(b(p))
    assoc     |-> Within(r.assoc, Tol),
    inv_left  |-> Within(r.inv_left, Tol),    \* a^-1(a(p)) = p
    inv_right |-> Within(r.inv_right, Tol),
    identity  |-> Within(r.identity, Tol),
    matrix    |-> Within(r.matrix, Tol),      \* the affine matrix moves alike
    location  |-> Within(r.location, Tol),    \* the CAD location moves s*p alike
    shapes    |-> Within(r.shapes, Tol),      \* arrays of points pointwise
    similar   |-> Within(r.similar, Tol),     \* distances are scaled by the scale
    operands  |-> r.operands = 0 ]            \* nothing given to the call was changed
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(ClausesOf(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
