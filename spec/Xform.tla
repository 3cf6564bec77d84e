------------------------------ MODULE Xform ------------------------------
(***************************************************************************)
(* Placement transforms as a group (P10).                                  *)
(*                                                                         *)
(* State: registers holding transforms.  A transform is a similarity        *)
(*        p |-> c + s * M p,                                                *)
(* c a rational vector, s a positive rational scale, M one of the 24        *)
(* lattice rotations; a gear transform keeps M as orientation * Rz(angle),  *)
(* so that the same M has several representations, and the kind of a        *)
(* register says which class the library has to use:                        *)
(*   "T"/"TD" plain (callable / data only),  "G"/"GD" gear.                 *)
(* Actions are the calls: load a register, multiply two registers, invert   *)
(* one, multiply by the inverse.  A history carries the image of the probe  *)
(* points under the register that was written, computed exactly.            *)
(***************************************************************************)
EXTENDS Rat, Lattice, TLC, Json

CONSTANTS NReg, MaxLen, Centers, Orients, Angles, Scales, Kinds

VARIABLES reg, hist
vars == <<reg, hist>>

Regs == 1..NReg
Probes == << <<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<2, -3, 5>> >>

RApply(M, v) == [i \in 1..3 |-> RAdd(RAdd(RMul(RI(M[i][1]), v[1]), RMul(RI(M[i][2]), v[2])),
                                     RMul(RI(M[i][3]), v[3]))]
Act(t, p) == VAdd(t.c, VScale(t.s, RApply(t.m, p)))
Images(t) == [k \in DOMAIN Probes |-> Act(t, VInt(Probes[k]))]
One(k) == [kind |-> k, c |-> VZero, m |-> Ident, s |-> ROne]

Compose(a, b) == [kind |-> a.kind, c |-> Act(a, b.c), m |-> MMul(a.m, b.m), s |-> RMul(a.s, b.s)]
Inverse(a) == LET mi == Transp(a.m) IN
  [kind |-> a.kind, c |-> VNeg(VScale(RInv(a.s), RApply(mi, a.c))), m |-> mi, s |-> RInv(a.s)]
IsGear(t) == t.kind \in {"G", "GD"}
\* a plain transform may be multiplied with any, a gear transform with a gear transform
Allowed(a, b) == IsGear(a) => IsGear(b)

\* numbers stay small enough for exact 32 bit arithmetic
Small(t) == /\ t.s[1] <= 72 /\ t.s[2] <= 72
            /\ \A i \in 1..3 : Abs(t.c[i][1]) <= 6000 /\ t.c[i][2] <= 144

Write(i, t, ev) == /\ Small(t)
                   /\ reg' = [reg EXCEPT ![i] = t]
                   /\ hist' = Append(hist, [ev EXCEPT !.img = Images(t)])
Ev(op, i, j, k) == [op |-> op, i |-> i, j |-> j, k |-> k, kind |-> "", c |-> <<>>, o |-> <<>>,
                    a |-> 0, s |-> <<>>, img |-> <<>>]

Load(i, kd, c, o, a, s) ==
  /\ (kd \in {"T", "TD"}) => (a = 0)
  /\ Write(i, [kind |-> kd, c |-> c, m |-> MMul(o, RotZ(a)), s |-> s],
           [Ev("load", i, 0, 0) EXCEPT !.kind = kd, !.c = c, !.o = o, !.a = a, !.s = s])
Mul(i, j, k) == /\ Allowed(reg[j], reg[k])
                /\ Write(i, Compose(reg[j], reg[k]), Ev("mul", i, j, k))
Inv(i, j) == Write(i, Inverse(reg[j]), Ev("inv", i, j, 0))
\* one register against the inverse of another: relative placement
Rel(i, j, k) == /\ Allowed(reg[j], reg[k])
                /\ Write(i, Compose(Inverse(reg[j]), reg[k]), Ev("rel", i, j, k))

Init == /\ reg = [i \in Regs |-> One(IF i % 2 = 1 THEN "G" ELSE "T")]
        /\ hist = <<>>

Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E i \in Regs, kd \in Kinds, c \in Centers, o \in Orients, a \in Angles, s \in Scales : Load(i, kd, c, o, a, s)
     \/ \E i, j, k \in Regs : Mul(i, j, k) \/ Rel(i, j, k)
     \/ \E i, j \in Regs : Inv(i, j)

SimNext ==
  /\ Len(hist) < MaxLen
  /\ \E dice \in {RandomElement(1..10)}, i \in {RandomElement(Regs)}, j \in {RandomElement(Regs)},
        k \in {RandomElement(Regs)}, kd \in {RandomElement(Kinds)}, c \in {RandomElement(Centers)},
        o \in {RandomElement(Orients)}, a \in {RandomElement(Angles)}, s \in {RandomElement(Scales)} :
     LET a1 == IF kd \in {"T", "TD"} THEN 0 ELSE a IN
     IF Len(hist) < NReg THEN Load(Len(hist) + 1, kd, c, o, a1, s)
     ELSE CASE dice <= 3 -> Load(i, kd, c, o, a1, s)
            [] dice \in 4..7 -> IF Allowed(reg[j], reg[k]) /\ Small(Compose(reg[j], reg[k]))
                                 THEN Mul(i, j, k) ELSE Load(i, kd, c, o, a1, s)
            [] dice = 8 -> IF Allowed(reg[j], reg[k]) /\ Small(Compose(Inverse(reg[j]), reg[k]))
                           THEN Rel(i, j, k) ELSE Load(i, kd, c, o, a1, s)
            [] OTHER -> IF Small(Inverse(reg[j])) THEN Inv(i, j) ELSE Load(i, kd, c, o, a1, s)

-----------------------------------------------------------------------------
\* group laws of the specified transforms
Same(a, b) == a.c = b.c /\ a.m = b.m /\ a.s = b.s
GroupLaws ==
  /\ \A i \in Regs : /\ Same(Compose(reg[i], Inverse(reg[i])), One("T"))
                     /\ Same(Compose(Inverse(reg[i]), reg[i]), One("T"))
                     /\ Same(Inverse(Inverse(reg[i])), reg[i])
                     /\ Same(Compose(One("T"), reg[i]), reg[i])
                     /\ Same(Compose(reg[i], One("T")), reg[i])
                     /\ IsRotation(reg[i].m)
  /\ \A i, j, k \in Regs : (Small(Compose(reg[i], reg[j])) /\ Small(Compose(reg[j], reg[k]))) =>
       Same(Compose(Compose(reg[i], reg[j]), reg[k]), Compose(reg[i], Compose(reg[j], reg[k])))
\* composing is applying one after the other
ActionLaw == \A i, j \in Regs : \A p \in DOMAIN Probes :
   Act(Compose(reg[i], reg[j]), VInt(Probes[p])) = Act(reg[i], Act(reg[j], VInt(Probes[p])))
View == <<reg, Len(hist)>>
Emit == PrintT(ToJson(hist'))
EmitLast == Len(hist') = MaxLen => PrintT(ToJson(hist'))
=============================================================================
