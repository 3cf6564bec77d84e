---------------------------- MODULE CurveOps -----------------------------
(***************************************************************************)
(* Trimming, reversing, extending, cutting and copying one curve (P14).    *)
(*                                                                         *)
(* A curve is a directed piece <<a, b>> of a base curve, a and b measured   *)
(* in arc length along the base as a fraction of the base's length; a > b   *)
(* means that it runs backwards.  Parameter s in [0,1] of the piece is the  *)
(* position a + (b - a) s: the parameter is proportional to arc length.     *)
(* Slots hold independent curves; Cut and Copy make new ones.               *)
(***************************************************************************)
EXTENDS Rat, TLC, Json, FiniteSets

CONSTANTS NSlots, MaxLen, Params, ExtParams

VARIABLES slot, hist
vars == <<slot, hist>>
Slots == 1..NSlots
Empty == <<>>
Has(i) == slot[i] # Empty
Pos(p, s) == RAdd(p[1], RMul(RSub(p[2], p[1]), s))
PLen(p) == RAbs(RSub(p[2], p[1]))
\* pieces stay long enough to be told apart, and numbers small enough to be exact
Fine(p) == /\ RLe(R(1, 50), PLen(p))
           /\ p[1][2] <= 6000 /\ p[2][2] <= 6000
           /\ RLe(RAbs(p[1]), RI(4)) /\ RLe(RAbs(p[2]), RI(4))

Record(op, i, j, k, s, u) ==
  hist' = Append(hist, [op |-> op, i |-> i, j |-> j, k |-> k, s |-> s, u |-> u, slots |-> slot'])
Put(i, p) == /\ Fine(p) /\ slot' = [slot EXCEPT ![i] = p]

Reverse(i) == /\ Has(i) /\ Put(i, <<slot[i][2], slot[i][1]>>)
              /\ Record("reverse", i, 0, 0, RZero, RZero)
SetStart(i, s) == /\ Has(i) /\ Put(i, <<Pos(slot[i], s), slot[i][2]>>)
                  /\ Record("start", i, 0, 0, s, RZero)
SetEnd(i, s) == /\ Has(i) /\ Put(i, <<slot[i][1], Pos(slot[i], s)>>)
                /\ Record("end", i, 0, 0, s, RZero)
SetBoth(i, s, u) == /\ Has(i) /\ Put(i, <<Pos(slot[i], s), Pos(slot[i], u)>>)
                    /\ Record("both", i, 0, 0, s, u)
\* the two pieces go to slots j and k, the original stays
Cut(i, j, k, s) ==
  /\ Has(i) /\ j # k /\ j # i /\ k # i
  /\ LET x == Pos(slot[i], s) p == <<slot[i][1], x>> r == <<x, slot[i][2]>> IN
       /\ Fine(p) /\ Fine(r)
       /\ slot' = [slot EXCEPT ![j] = p, ![k] = r]
  /\ Record("cut", i, j, k, s, RZero)
Copy(i, j) == /\ Has(i) /\ i # j
              /\ slot' = [slot EXCEPT ![j] = slot[i]]
              /\ Record("copy", i, j, 0, RZero, RZero)

Init == /\ slot = [i \in Slots |-> IF i = 1 THEN <<RZero, ROne>> ELSE Empty]
        /\ hist = <<>>
All == Params \cup ExtParams
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E i \in Slots : Reverse(i)
     \/ \E i \in Slots, s \in All : SetStart(i, s) \/ SetEnd(i, s)
     \/ \E i \in Slots, s, u \in All : RLt(s, u) /\ SetBoth(i, s, u)
     \/ \E i, j, k \in Slots, s \in Params : Cut(i, j, k, s)
     \/ \E i, j \in Slots : Copy(i, j)
SimNext ==
  /\ Len(hist) < MaxLen
  /\ \E dice \in {RandomElement(1..8)} :
       CASE dice <= 2 -> \E i \in Slots : Reverse(i)
         [] dice = 3 -> \E i \in Slots, s \in All : SetStart(i, s)
         [] dice = 4 -> \E i \in Slots, s \in All : SetEnd(i, s)
         [] dice = 5 -> \E i \in Slots, s, u \in All : RLt(s, u) /\ SetBoth(i, s, u)
         [] dice \in 6..7 -> \E i, j, k \in Slots, s \in Params : Cut(i, j, k, s)
         [] OTHER -> \E i, j \in Slots : Copy(i, j)

-----------------------------------------------------------------------------
\* without extensions every piece stays inside the original curve
Inside == ExtParams = {} =>
  \A i \in Slots : Has(i) => \A e \in 1..2 : RLe(RZero, slot[i][e]) /\ RLe(slot[i][e], ROne)
\* the pieces of a cut join at the cut and add up to the whole
CutAdds == [][ LET e == hist'[Len(hist')] IN
   (e.op = "cut") => /\ slot'[e.j][2] = slot'[e.k][1]
                     /\ RAdd(PLen(slot'[e.j]), PLen(slot'[e.k])) = PLen(slot[e.i])
                     /\ slot'[e.i] = slot[e.i] ]_vars
\* each call changes only its slots
Local == [][ LET e == hist'[Len(hist')] IN
   \A m \in Slots : slot'[m] # slot[m] => m \in {e.i, e.j, e.k} ]_vars
View == <<slot, Len(hist)>>
EmitLast == Len(hist') = MaxLen => PrintT(ToJson(hist'))
=============================================================================
