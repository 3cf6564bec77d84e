----------------------------- MODULE CurveObs -----------------------------
\* Measurements of curves: constructors, derivatives, transforms, NURBS conversion,
\* intersections and fillets.  Distances relative to the size of the curve, in 1e-9.
EXTENDS TraceBase

Exact == 200          \* 2e-7 of the size
\* kinds of records
Clauses(r) ==
  CASE r.kind = "pass" ->      \* a constructor: the curve meets the data it was given
         [ start |-> Within(r.start, Exact), end |-> Within(r.end, Exact),
           radius |-> Within(r.radius, Exact), centre |-> Within(r.centre, Exact),
           plane |-> Within(r.plane, Exact), speed |-> Within(r.speed, Exact),
           length |-> Within(r.length, Exact), args |-> r.args = 0 ]
    [] r.kind = "deriv" ->     \* derivative of order n against the exact one
         [ value |-> Within(r.value, r.tol) ]
    [] r.kind = "pointwise" -> \* an operation on curves is the operation on points
         [ value |-> Within(r.value, r.tol), array |-> Within(r.array, Exact) ]
    [] r.kind = "copy" ->      \* copies are equal and independent both ways
         [ equal |-> Within(r.equal, Exact), kept |-> Within(r.kept, Exact), back |-> Within(r.back, Exact) ]
    [] r.kind = "nurb" ->
         [ start |-> Within(r.start, Exact), end |-> Within(r.end, Exact),
           \* every point of the spline lies on the curve and the other way round
           on |-> Within(r.on, r.tol), covers |-> Within(r.covers, r.tol),
           direction |-> r.direction = 1,
           \* points, weights, knots describe the pieces
           points |-> r.points = 0, weights |-> r.weights = 0, knots |-> r.knots = 0,
           rebuild |-> Within(r.rebuild, Exact),
           input |-> r.input = 0 ]
    [] r.kind = "spline" ->    \* operations on spline chains
         [ value |-> Within(r.value, r.tol), ends |-> Within(r.ends, Exact), book |-> r.book = 0 ]
    [] r.kind = "intersect" ->
         [ on_both |-> r.success = 1 => Within(r.gap, Exact),
           found |-> r.expect = 1 => r.success = 1,
           \* success is only claimed when there is an intersection at all
           honest |-> r.expect = 0 => r.success = 0 ]
    [] r.kind = "nearest" ->
         [ \* no sampled point is nearer than the one found
           smallest |-> AtMost(r.excess, r.tol), inside |-> Finite(r.excess) ]
    [] r.kind = "fillet" ->
         [ radius |-> Within(r.radius, Exact), joined |-> Within(r.gap, Exact), tangent |-> Within(r.kink, r.ktol),
           ends |-> Within(r.ends, Exact), rest |-> Within(r.rest, Exact), side |-> Within(r.side, Exact),
           length |-> Within(r.length, 20000), untouched |-> r.untouched = 0, size |-> r.members = r.want ]
    [] r.kind = "tangent" ->
         [ radius |-> Within(r.radius, Exact), on1 |-> Within(r.on1, Exact), on2 |-> Within(r.on2, Exact),
           kink1 |-> Within(r.kink1, r.ktol), kink2 |-> Within(r.kink2, r.ktol), solved |-> r.solved = 1 ]
    [] OTHER -> [ known |-> FALSE ]
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(Clauses(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
