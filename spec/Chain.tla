------------------------------ MODULE Chain -------------------------------
(***************************************************************************)
(* Chains of curves (P15), also used to drive NURBS conversion (P16).      *)
(*                                                                         *)
(* State: slots holding chains.  A chain is a list of members; a member is  *)
(* a directed piece <<a, b>> of base curve number id (a, b as positions in  *)
(* arc length along that base) with an activity flag.  All lengths are      *)
(* rational.  A chain denotes the concatenation of its active members,      *)
(* parametrised proportionally to arc length.                               *)
(* The actions are the editing calls, list-like ones and curve-like ones.   *)
(***************************************************************************)
EXTENDS Rat, TLC, Json, FiniteSets

CONSTANTS NSlots, MaxLen, BaseLen,   \* lengths of the base curves (sequence of rationals)
          InitChain,                 \* the first chain, a sequence of base numbers
          Params, ListOps            \* ListOps = FALSE: curve-like calls only

VARIABLES chain, hist
vars == <<chain, hist>>
Slots == 1..NSlots
None == <<[id |-> 0]>>
Has(i) == chain[i] # None
NB == Len(BaseLen)
Whole(id) == [id |-> id, a |-> RZero, b |-> BaseLen[id], act |-> TRUE]
MLen(m) == IF m.act THEN RAbs(RSub(m.b, m.a)) ELSE RZero
RECURSIVE LenUpTo(_, _)
LenUpTo(c, n) == IF n = 0 THEN RZero ELSE RAdd(LenUpTo(c, n - 1), MLen(c[n]))
CLen(c) == LenUpTo(c, Len(c))
Live(c) == { n \in DOMAIN c : c[n].act }
\* member that contains parameter s strictly inside, 0 if s is at a joint
Inside(c, s) == LET x == RMul(s, CLen(c)) IN
  IF \E n \in DOMAIN c : RLt(LenUpTo(c, n - 1), x) /\ RLt(x, LenUpTo(c, n))
  THEN CHOOSE n \in DOMAIN c : RLt(LenUpTo(c, n - 1), x) /\ RLt(x, LenUpTo(c, n)) ELSE 0
Local(c, s, n) == RDiv(RSub(RMul(s, CLen(c)), LenUpTo(c, n - 1)), MLen(c[n]))
MPos(m, s) == RAdd(m.a, RMul(RSub(m.b, m.a), s))
Good(c) == /\ \A n \in DOMAIN c : /\ c[n].a[2] <= 500 /\ c[n].b[2] <= 500
                                  /\ RLe(R(1, 30), RAbs(RSub(c[n].b, c[n].a)))
           /\ Live(c) # {} /\ Len(c) <= 8
           /\ CLen(c)[2] <= 2000 /\ CLen(c)[1] <= 30000

RevM(m) == [m EXCEPT !.a = m.b, !.b = m.a]
Rev(c) == [n \in DOMAIN c |-> RevM(c[Len(c) + 1 - n])]
Off(m) == [m EXCEPT !.act = FALSE]
\* trimmed chains; keep: members trimmed away stay in the list, inactive
StartAt(c, s, keep) ==
  LET n == Inside(c, s)
      d == [c EXCEPT ![n].a = MPos(c[n], Local(c, s, n))]
  IN IF keep THEN [k \in DOMAIN d |-> IF k < n THEN Off(d[k]) ELSE d[k]]
     ELSE SubSeq(d, n, Len(d))
EndAt(c, s, keep) ==
  LET n == Inside(c, s)
      d == [c EXCEPT ![n].b = MPos(c[n], Local(c, s, n))]
  IN IF keep THEN [k \in DOMAIN d |-> IF k > n THEN Off(d[k]) ELSE d[k]]
     ELSE SubSeq(d, 1, n)
BothAt(c, s, u, keep) ==
  LET n == Inside(c, s) m == Inside(c, u)
      a == MPos(c[n], Local(c, s, n)) b == MPos(c[m], Local(c, u, m))
      d == [k \in DOMAIN c |-> LET e == IF k = n THEN [c[k] EXCEPT !.a = a] ELSE c[k]
                               IN IF k = m THEN [e EXCEPT !.b = b] ELSE e]
  IN IF keep THEN [k \in DOMAIN d |-> IF k < n \/ k > m THEN Off(d[k]) ELSE d[k]]
     ELSE SubSeq(d, n, m)

Ev(op, i, j, k) == [op |-> op, i |-> i, j |-> j, k |-> k, n |-> 0, id |-> 0, s |-> RZero,
                    u |-> RZero, keep |-> FALSE]
Store(new, ev) == /\ \A i \in Slots : new[i] # chain[i] => (new[i] = None \/ Good(new[i]))
                  /\ chain' = new
                  /\ hist' = Append(hist, [ev |-> ev, chains |-> new])
Set(i, c, ev) == Store([chain EXCEPT ![i] = c], ev)

Reverse(i) == Has(i) /\ Set(i, Rev(chain[i]), Ev("reverse", i, 0, 0))
SetStart(i, s, keep) == /\ Has(i) /\ Inside(chain[i], s) # 0
                        /\ Set(i, StartAt(chain[i], s, keep), [Ev("start", i, 0, 0) EXCEPT !.s = s, !.keep = keep])
SetEnd(i, s, keep) == /\ Has(i) /\ Inside(chain[i], s) # 0
                      /\ Set(i, EndAt(chain[i], s, keep), [Ev("end", i, 0, 0) EXCEPT !.s = s, !.keep = keep])
SetBoth(i, s, u, keep) == /\ Has(i) /\ Inside(chain[i], s) # 0 /\ Inside(chain[i], u) # 0 /\ RLt(s, u)
                          /\ Set(i, BothAt(chain[i], s, u, keep),
                                 [Ev("both", i, 0, 0) EXCEPT !.s = s, !.u = u, !.keep = keep])
Cut(i, j, k, s, keep) ==
  /\ Has(i) /\ Cardinality({i, j, k}) = 3 /\ Inside(chain[i], s) # 0
  /\ Store([chain EXCEPT ![j] = EndAt(chain[i], s, keep), ![k] = StartAt(chain[i], s, keep)],
           [Ev("cut", i, j, k) EXCEPT !.s = s, !.keep = keep])
Copy(i, j) == Has(i) /\ i # j /\ Set(j, chain[i], Ev("copy", i, j, 0))
\* list-like calls; positions n count from 1, Python's from 0
InsertAt(c, n, m) == SubSeq(c, 1, n - 1) \o <<m>> \o SubSeq(c, n, Len(c))
RemoveAt(c, n) == SubSeq(c, 1, n - 1) \o SubSeq(c, n + 1, Len(c))
AppendM(i, id) == Has(i) /\ Set(i, Append(chain[i], Whole(id)), [Ev("append", i, 0, 0) EXCEPT !.id = id])
Insert(i, n, id) == /\ Has(i) /\ n <= Len(chain[i]) + 1
                    /\ Set(i, InsertAt(chain[i], n, Whole(id)), [Ev("insert", i, 0, 0) EXCEPT !.n = n, !.id = id])
Delete(i, n) == Has(i) /\ n <= Len(chain[i]) /\ Set(i, RemoveAt(chain[i], n), [Ev("del", i, 0, 0) EXCEPT !.n = n])
Pop(i, n) == Has(i) /\ n <= Len(chain[i]) /\ Set(i, RemoveAt(chain[i], n), [Ev("pop", i, 0, 0) EXCEPT !.n = n])
PopLast(i) == Has(i) /\ Set(i, SubSeq(chain[i], 1, Len(chain[i]) - 1), Ev("poplast", i, 0, 0))
Replace(i, n, id) == /\ Has(i) /\ n <= Len(chain[i])
                     /\ Set(i, [chain[i] EXCEPT ![n] = Whole(id)], [Ev("set", i, 0, 0) EXCEPT !.n = n, !.id = id])
\* members of chain j are appended to chain i (as copies)
Extend(i, j) == Has(i) /\ Has(j) /\ i # j /\ Set(i, chain[i] \o chain[j], Ev("extend", i, j, 0))
Toggle(i, n) == /\ Has(i) /\ n <= Len(chain[i])
                /\ Set(i, [chain[i] EXCEPT ![n].act = ~@], [Ev("toggle", i, 0, 0) EXCEPT !.n = n])
Purge(i) == Has(i) /\ Set(i, SelectSeq(chain[i], LAMBDA m : m.act), Ev("purge", i, 0, 0))

Init == /\ chain = [i \in Slots |-> IF i = 1 THEN [n \in DOMAIN InitChain |-> Whole(InitChain[n])] ELSE None]
        /\ hist = <<>>
Idx == 1..8
CurveLike ==
  \/ \E i \in Slots : Reverse(i)
  \/ \E i \in Slots, s \in Params, keep \in BOOLEAN : SetStart(i, s, keep) \/ SetEnd(i, s, keep)
  \/ \E i \in Slots, s, u \in Params, keep \in BOOLEAN : SetBoth(i, s, u, keep)
  \/ \E i, j, k \in Slots, s \in Params, keep \in BOOLEAN : Cut(i, j, k, s, keep)
  \/ \E i, j \in Slots : Copy(i, j)
ListLike ==
  \/ \E i \in Slots, id \in 1..NB : AppendM(i, id)
  \/ \E i \in Slots, n \in Idx, id \in 1..NB : Insert(i, n, id) \/ Replace(i, n, id)
  \/ \E i \in Slots, n \in Idx : Delete(i, n) \/ Pop(i, n) \/ Toggle(i, n)
  \/ \E i \in Slots : PopLast(i) \/ Purge(i)
  \/ \E i, j \in Slots : Extend(i, j)
Next == Len(hist) < MaxLen /\ (CurveLike \/ (ListOps /\ ListLike))
SimNext ==
  /\ Len(hist) < MaxLen
  /\ \E dice \in {RandomElement(1..(IF ListOps THEN 15 ELSE 7))}, keep \in {RandomElement(BOOLEAN)},
        s \in {RandomElement(Params)}, u \in {RandomElement(Params)} :
     CASE dice = 1 -> \E i \in Slots : Reverse(i)
       [] dice = 2 -> \E i \in Slots : SetStart(i, s, keep)
       [] dice = 3 -> \E i \in Slots : SetEnd(i, s, keep)
       [] dice = 4 -> \E i \in Slots : SetBoth(i, s, u, keep)
       [] dice \in 5..6 -> \E i, j, k \in Slots : Cut(i, j, k, s, keep)
       [] dice = 7 -> \E i, j \in Slots : Copy(i, j)
       [] dice = 8 -> \E i \in Slots, id \in 1..NB : AppendM(i, id)
       [] dice = 9 -> \E i \in Slots, n \in Idx, id \in 1..NB : Insert(i, n, id)
       [] dice = 10 -> \E i \in Slots, n \in Idx, id \in 1..NB : Replace(i, n, id)
       [] dice = 11 -> \E i \in Slots, n \in Idx : Delete(i, n) \/ Pop(i, n)
       [] dice \in 12..13 -> \E i \in Slots, n \in Idx : Toggle(i, n)
       [] dice = 14 -> \E i \in Slots : PopLast(i) \/ Purge(i)
       [] OTHER -> \E i, j \in Slots : Extend(i, j)

-----------------------------------------------------------------------------
\* reversing twice, and cutting, as laws of the specification
RevRev == \A i \in Slots : Has(i) => Rev(Rev(chain[i])) = chain[i] /\ CLen(Rev(chain[i])) = CLen(chain[i])
CutAdds == [][ LET e == hist'[Len(hist')].ev IN e.op = "cut" =>
    RAdd(CLen(chain'[e.j]), CLen(chain'[e.k])) = CLen(chain[e.i]) /\ chain'[e.i] = chain[e.i] ]_vars
TrimLen == [][ LET e == hist'[Len(hist')].ev IN
    /\ e.op = "start" => CLen(chain'[e.i]) = RMul(RSub(ROne, e.s), CLen(chain[e.i]))
    /\ e.op = "end" => CLen(chain'[e.i]) = RMul(e.s, CLen(chain[e.i]))
    /\ e.op = "both" => CLen(chain'[e.i]) = RMul(RSub(e.u, e.s), CLen(chain[e.i])) ]_vars
View == <<chain, Len(hist)>>
EmitLast == Len(hist') = MaxLen => PrintT(ToJson(hist'))
=============================================================================
