----------------------------- MODULE Algebra ------------------------------
(***************************************************************************)
(* Arithmetic, transforms and copies of curves (P17).                      *)
(*                                                                         *)
(* State: registers holding straight curves, denoted by their end points   *)
(* (rational vectors): every operation below keeps curves straight and      *)
(* their speed constant, so values are exact.  Sums, multiples, mirrored    *)
(* and rotated curves are views of their operands (dep = the objects they   *)
(* are computed from); editing an operand in place leaves the value of its  *)
(* views unspecified (known = FALSE), but never that of a copy of a view.   *)
(***************************************************************************)
EXTENDS Rat, Lattice, TLC, Json

CONSTANTS NReg, MaxLen, Points, Factors, Params, Orients

VARIABLES reg, next, hist
vars == <<reg, next, hist>>
Regs == 1..NReg
Absent == [obj |-> 0]
Has(i) == reg[i].obj # 0
Ok(i) == Has(i) /\ reg[i].known

RApply(M, v) == [i \in 1..3 |-> RAdd(RAdd(RMul(RI(M[i][1]), v[1]), RMul(RI(M[i][2]), v[2])),
                                     RMul(RI(M[i][3]), v[3]))]
SmallV(v) == \A i \in 1..3 : Abs(v[i][1]) <= 9000 /\ v[i][2] <= 360
NoEv == [op |-> "", i |-> 0, j |-> 0, k |-> 0, p |-> <<>>, q |-> <<>>, f |-> RZero, s |-> RZero,
         u |-> RZero, o |-> <<>>, ax |-> <<>>, n |-> 0]
Vis(r) == [i \in Regs |-> IF r[i].obj = 0 \/ ~r[i].known THEN <<>> ELSE <<r[i].p, r[i].q>>]
Acts(r) == [i \in Regs |-> r[i].obj # 0 /\ r[i].act]
\* a curve computed from others is active when all of them are
PutA(i, p, q, dep, act, ev) ==
  /\ SmallV(p) /\ SmallV(q)
  /\ reg' = [reg EXCEPT ![i] = [obj |-> next, p |-> p, q |-> q, dep |-> dep, known |-> TRUE, act |-> act]]
  /\ next' = next + 1
  /\ hist' = Append(hist, [ev |-> ev, vals |-> Vis(reg'), acts |-> Acts(reg')])
Put(i, p, q, dep, ev) == PutA(i, p, q, dep, ev.j = 0 \/ (reg[ev.j].act /\ (ev.k = 0 \/ reg[ev.k].act)), ev)
\* in place: the object stays, its views become unspecified
Edit(i, p, q, ev) ==
  /\ SmallV(p) /\ SmallV(q) /\ p # q
  /\ reg' = [m \in Regs |->
       IF m = i THEN [reg[m] EXCEPT !.p = p, !.q = q]
       ELSE IF Has(m) /\ reg[i].obj \in reg[m].dep THEN [reg[m] EXCEPT !.known = FALSE]
       ELSE reg[m]]
  /\ next' = next
  /\ hist' = Append(hist, [ev |-> ev, vals |-> Vis(reg'), acts |-> Acts(reg')])
\* switching a curve on or off is an edit too; its points stay
Toggle(i) == /\ Ok(i) /\ reg[i].dep = {}
             /\ reg' = [m \in Regs |->
                  IF m = i THEN [reg[m] EXCEPT !.act = ~@]
                  ELSE IF Has(m) /\ reg[i].obj \in reg[m].dep THEN [reg[m] EXCEPT !.known = FALSE]
                  ELSE reg[m]]
             /\ next' = next
             /\ hist' = Append(hist, [ev |-> [NoEv EXCEPT !.op = "toggle", !.i = i], vals |-> Vis(reg'), acts |-> Acts(reg')])
View1(j) == reg[j].dep \cup {reg[j].obj}

Line(i, p, q) == Put(i, VInt(p), VInt(q), {}, [NoEv EXCEPT !.op = "line", !.i = i, !.p = p, !.q = q])
Add(i, j, k) == /\ Ok(j) /\ Ok(k)
                /\ Put(i, VAdd(reg[j].p, reg[k].p), VAdd(reg[j].q, reg[k].q), View1(j) \cup View1(k),
                       [NoEv EXCEPT !.op = "add", !.i = i, !.j = j, !.k = k])
Sub(i, j, k) == /\ Ok(j) /\ Ok(k)
                /\ Put(i, VSub(reg[j].p, reg[k].p), VSub(reg[j].q, reg[k].q), View1(j) \cup View1(k),
                       [NoEv EXCEPT !.op = "sub", !.i = i, !.j = j, !.k = k])
Mul(i, j, f, op) == /\ Ok(j)
                    /\ Put(i, VScale(f, reg[j].p), VScale(f, reg[j].q), View1(j),
                           [NoEv EXCEPT !.op = op, !.i = i, !.j = j, !.f = f])
Div(i, j, f) == /\ Ok(j) /\ f[1] # 0
                /\ Put(i, VScale(RInv(f), reg[j].p), VScale(RInv(f), reg[j].q), View1(j),
                       [NoEv EXCEPT !.op = "div", !.i = i, !.j = j, !.f = f])
\* mirror about the plane through c with normal along axis ax; rotate by n quarter turns
\* about the axis ax through c; general similarity
MirV(v, ax, c) == [m \in 1..3 |-> IF ax[m] # 0 THEN RSub(RMul(RI(2), RI(c[m])), v[m]) ELSE v[m]]
Mirror(i, j, ax, c) == /\ Ok(j)
                       /\ Put(i, MirV(reg[j].p, ax, c), MirV(reg[j].q, ax, c), View1(j),
                              [NoEv EXCEPT !.op = "mirror", !.i = i, !.j = j, !.ax = ax, !.p = c])
RECURSIVE Pow(_, _)
Pow(M, n) == IF n % 4 = 0 THEN Ident ELSE MMul(M, Pow(M, (n % 4) - 1))
Sim(v, M, c, f, t) == VAdd(VAdd(VScale(f, RApply(M, VSub(v, VInt(c)))), VInt(c)), VInt(t))
Rotate(i, j, ax, n, c) ==
  LET M == Pow(Quarter(ax), n) IN
  /\ Ok(j)
  /\ Put(i, Sim(reg[j].p, M, c, ROne, I0), Sim(reg[j].q, M, c, ROne, I0), View1(j),
         [NoEv EXCEPT !.op = "rotate", !.i = i, !.j = j, !.ax = ax, !.n = n, !.p = c])
\* as a view (TransformedCurve) or as a new curve (transform of a line)
Transf(i, j, M, f, t, op) ==
  /\ Ok(j)
  /\ Put(i, Sim(reg[j].p, M, I0, f, t), Sim(reg[j].q, M, I0, f, t), IF op = "xview" THEN View1(j) ELSE {},
         [NoEv EXCEPT !.op = op, !.i = i, !.j = j, !.o = M, !.f = f, !.p = t])
Copy(i, j) == /\ Ok(j)
              /\ Put(i, reg[j].p, reg[j].q, {}, [NoEv EXCEPT !.op = "copy", !.i = i, !.j = j])
Trim(i, s, u) == /\ Ok(i) /\ RLt(s, u)
                 /\ Edit(i, VLerp(reg[i].p, reg[i].q, s), VLerp(reg[i].p, reg[i].q, u),
                         [NoEv EXCEPT !.op = "trim", !.i = i, !.s = s, !.u = u])
Rev(i) == Ok(i) /\ Edit(i, reg[i].q, reg[i].p, [NoEv EXCEPT !.op = "rev", !.i = i])

Init == /\ reg = [i \in Regs |-> Absent]
        /\ next = 1
        /\ hist = <<>>
SimNext ==
  /\ Len(hist) < MaxLen
  /\ \E dice \in {RandomElement(1..15)}, i \in {RandomElement(Regs)}, p \in {RandomElement(Points)},
        q \in {RandomElement(Points)}, f \in {RandomElement(Factors)}, c \in {RandomElement(Points)},
        ax \in {RandomElement(Units)}, n \in {RandomElement(0..4)}, M \in {RandomElement(Orients)} :
     LET live == { m \in Regs : Ok(m) } IN
     IF Len(hist) < 2 THEN p # q /\ Line(Len(hist) + 1, p, q)
     ELSE CASE dice = 1 -> p # q /\ Line(i, p, q)
       [] dice = 2 -> \E j, k \in live : Add(i, j, k)
       [] dice = 3 -> \E j, k \in live : Sub(i, j, k)
       [] dice = 4 -> \E j \in live : Mul(i, j, f, "mul")
       [] dice = 5 -> \E j \in live : Mul(i, j, f, "rmul")
       [] dice = 6 -> \E j \in live : Div(i, j, f)
       [] dice = 7 -> \E j \in live : Mirror(i, j, ax, c)
       [] dice = 8 -> \E j \in live : Rotate(i, j, ax, n, c)
       [] dice = 9 -> \E j \in live : f[1] # 0 /\ Transf(i, j, M, f, c, "xview")
       [] dice = 10 -> \E j \in live : f[1] > 0 /\ Transf(i, j, M, f, c, "xnew")
       [] dice \in 11..12 -> \E j \in live : Copy(i, j)
       [] dice = 13 -> \E m \in live : Rev(m)
       [] dice = 15 -> \E m \in live : Toggle(m)
       [] OTHER -> \E m \in live, s, u \in Params : Trim(m, s, u)
Next == /\ Len(hist) < MaxLen
        /\ \/ \E i \in Regs, p, q \in Points : p # q /\ Line(i, p, q)
           \/ \E i, j, k \in Regs : Add(i, j, k) \/ Sub(i, j, k)
           \/ \E i, j \in Regs, f \in Factors : Mul(i, j, f, "mul") \/ Div(i, j, f)
           \/ \E i, j \in Regs : Copy(i, j)
           \/ \E i, j \in Regs, ax \in Units, c \in Points : Mirror(i, j, ax, c) \/ Rotate(i, j, ax, 1, c)
           \/ \E i \in Regs, s, u \in Params : Trim(i, s, u)
           \/ \E i \in Regs : Rev(i) \/ Toggle(i)
-----------------------------------------------------------------------------
\* an in-place edit or a new curve never changes the specified value of another register
Isolated == [][ \A m \in Regs : (Ok(m) /\ m # hist'[Len(hist')].ev.i /\ reg'[m].known) =>
                   (reg'[m].p = reg[m].p /\ reg'[m].q = reg[m].q) ]_vars
\* objects are never shared between registers
Distinct == \A i, j \in Regs : (Has(i) /\ Has(j) /\ i # j) => reg[i].obj # reg[j].obj
View == <<reg, Len(hist)>>
EmitLast == Len(hist') = MaxLen => PrintT(ToJson(hist'))
=============================================================================
