---------------------------- MODULE TraceBase ----------------------------
\* Skeleton of the trace specifications: records of real executions (ndjson, integers
\* only, lengths in millionths) are consumed one per step.  ClausesOf(rec) is the
\* conjunction the specification demands of a record, as a function from clause names
\* to truth values; a false clause is reported by name and the trace goes on, so that
\* one bad record never hides the rest (the verdict is total).
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l

AbsI(x) == IF x < 0 THEN -x ELSE x
\* every number logged as "not finite / out of range" has this magnitude
Finite(x) == AbsI(x) < 2000000000
Within(x, tol) == Finite(x) /\ AbsI(x) <= tol
Near(x, y, tol) == Finite(x) /\ Finite(y) /\ AbsI(x - y) <= tol
AtLeast(x, lo) == Finite(x) /\ x >= lo
AtMost(x, hi) == Finite(x) /\ x <= hi
\* x and y agree modulo m
NearMod(x, y, m, tol) == /\ Finite(x) /\ Finite(y)
                         /\ LET r == (x - y) % m IN r <= tol \/ m - r <= tol
Report(cl) == \A c \in DOMAIN cl : IF cl[c] THEN TRUE ELSE PrintT(<<"BAD", l, c>>)
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
