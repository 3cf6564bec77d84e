---------------------------- MODULE Placement ----------------------------
(***************************************************************************)
(* Gears and where they are.                                               *)
(*                                                                         *)
(* State: a heap of gears.  A gear has constant data (its table entry) and  *)
(* a placement: centre, orientation (one of the 24 lattice rotations) and   *)
(* the angle of its reference tooth about its own axis, in turns.           *)
(*                                                                         *)
(* One action per public call.  Every action determines the placement of    *)
(* exactly one gear; the calls are those a user makes in any order:         *)
(* construct, set centre / angle / orientation, move in place, mesh, copy,  *)
(* adapt, reset.  All values are exact, so the real library can be          *)
(* compared with                                                           *)
(* the specification after every call of every history.                     *)
(*                                                                         *)
(* Conventions of the library that are modelled as they are:                *)
(*  - the reference direction of a ring gear marks a tooth space;           *)
(*  - meshing an involute ring onto a pinion moves the ring so that the     *)
(*    *contact* lies in the requested direction (RingSide = -1), a cycloid  *)
(*    or core ring gear is itself placed in that direction (+1);            *)
(*  - the angle of a meshed gear is determined up to whole teeth.           *)
(***************************************************************************)
EXTENDS Rat, Lattice, TLC, Json, FiniteSets

CONSTANTS NSlots,      \* size of the heap
          MaxLen,      \* bound on the number of calls in a history
          MeshOnly     \* TRUE: restrict to mesh/set calls (no copy/reset)

\* supplied by the model (MC module): Table, Angles, Centers
CONSTANTS Table, Angles, Centers, Orients

VARIABLES heap, link, hist
vars == <<heap, link, hist>>

NT == Len(Table)
Slots == 1..NSlots
Absent == [t |-> 0]
Present(i) == heap[i].t # 0
T(i) == Table[heap[i].t]

Fresh(t) == [t |-> t, c |-> Table[t].c0, o |-> Ident, a |-> Table[t].a0, am |-> FALSE]

RingSide(f) == IF f \in {"inv", "hel"} THEN -1 ELSE 1
IsBevel(e) == e.h # 0

Compatible(i, j) ==
  LET a == T(i) b == T(j) IN
  /\ i # j
  /\ a.fam = b.fam /\ a.grp = b.grp
  /\ ~(a.ring /\ b.ring)
  /\ a.ring => a.z > b.z
  /\ b.ring => b.z > a.z
  /\ IsBevel(a) = IsBevel(b)
  /\ IsBevel(a) => (a.h = b.rp /\ b.h = a.rp)
  /\ (~IsBevel(a)) => (IF a.ring \/ b.ring THEN a.x = b.x ELSE a.x = -b.x)

\* phase of gear g (record) of table entry e in the world direction d: 0 at the middle
\* of a tooth (tooth space for rings), 1/2 in the middle between two of them
Phase(g, e, d) == RMod(RMul(RI(e.z), RSub(R(Quarters(g.o, d), 4), g.a)), ROne)

\* angle (modulo one tooth) for which a gear with orientation o has phase ph in the
\* direction d
AngleFor(o, e, d, ph) == RMod(RSub(R(Quarters(o, d), 4), RMul(ph, R(1, e.z))), R(1, e.z))

\* placement of gear i after i.mesh_to(j, d)
Meshed(i, j, d) ==
  LET gj == heap[j]
      ei == T(i)
      ej == T(j)
  IN
  IF IsBevel(ei)
  THEN \* 90 degree pair: a quarter turn about d x z, apexes coincide
       LET o  == MMul(Quarter(Cross(d, ZAxis(gj.o))), gj.o)
           ap == IAdd(gj.c, IScale(ej.h, ZAxis(gj.o)))
           c  == ISub(ap, IScale(ei.h, ZAxis(o)))
           di == INeg(ZAxis(gj.o))          \* direction of the common generator in i
           ph == RMod(RSub(RHalf, Phase(gj, ej, d)), ROne)
       IN  [gj EXCEPT !.t = heap[i].t, !.c = c, !.o = o, !.am = TRUE,
                      !.a = AngleFor(o, ei, di, ph)]
  ELSE IF ei.ring \/ ej.ring
  THEN LET s  == IF ei.ring THEN RingSide(ei.fam) ELSE 1
           c  == IAdd(gj.c, IScale(s * Abs(ei.rp - ej.rp), d))
           \* contact lies from the ring's centre towards the pinion's centre
           k  == IF ei.ring THEN IScale(-s, d) ELSE d
       IN  [gj EXCEPT !.t = heap[i].t, !.c = c, !.am = TRUE,
                      !.a = AngleFor(gj.o, ei, k, Phase(gj, ej, k))]
  ELSE LET ph == RMod(RSub(RHalf, Phase(gj, ej, d)), ROne)
       IN  [gj EXCEPT !.t = heap[i].t, !.c = IAdd(gj.c, IScale(ei.rp + ej.rp, d)),
                      !.am = TRUE, !.a = AngleFor(gj.o, ei, INeg(d), ph)]

Obs(h) == [ i \in Slots |-> IF h[i].t = 0 THEN [p |-> FALSE]
                            ELSE [p |-> TRUE, c |-> h[i].c, o |-> h[i].o, a |-> h[i].a,
                                  am |-> h[i].am] ]

Log(op, i, j, arg) == hist' = Append(hist, [op |-> op, i |-> i, j |-> j, arg |-> arg,
                                            exp |-> Obs(heap')])
Unlink(i) == { l \in link : l[1] # i /\ l[2] # i }

-----------------------------------------------------------------------------
SetCenter(i, v) ==
  /\ Present(i)
  /\ heap' = [heap EXCEPT ![i].c = v]
  /\ link' = Unlink(i)
  /\ Log("set_center", i, 0, v)

Move(i, v) ==
  /\ Present(i)
  /\ heap' = [heap EXCEPT ![i].c = IAdd(@, v)]
  /\ link' = Unlink(i)
  /\ Log("move", i, 0, v)

\* the centre of gear j is assigned to gear i
TakeCenter(i, j) ==
  /\ Present(i) /\ Present(j) /\ i # j
  /\ heap' = [heap EXCEPT ![i].c = heap[j].c]
  /\ link' = Unlink(i)
  /\ Log("take_center", i, j, <<>>)

SetAngle(i, a) ==
  /\ Present(i)
  /\ heap' = [heap EXCEPT ![i].a = a, ![i].am = FALSE]
  /\ link' = Unlink(i)
  /\ Log("set_angle", i, 0, a)

Turn(i, a) ==
  /\ Present(i)
  /\ heap' = [heap EXCEPT ![i].a = RAdd(@, a)]
  /\ link' = Unlink(i)
  /\ Log("turn", i, 0, a)

SetOrient(i, o) ==
  /\ Present(i)
  /\ heap' = [heap EXCEPT ![i].o = o]
  /\ link' = Unlink(i)
  /\ Log("set_orient", i, 0, o)

MeshTo(i, j, d) ==
  /\ Present(i) /\ Present(j) /\ Compatible(i, j)
  /\ heap' = [heap EXCEPT ![i] = Meshed(i, j, d)]
  /\ link' = Unlink(i) \cup {<<i, j, d>>}
  /\ Log("mesh", i, j, d)

Copy(i, k) ==
  /\ ~MeshOnly /\ Present(i) /\ ~Present(k)
  /\ heap' = [heap EXCEPT ![k] = heap[i]]
  /\ link' = link
  /\ Log("copy", i, k, <<>>)

\* two cycloid gears take over the rolling circles of each other: neither moves
Adapt(i, j) ==
  /\ ~MeshOnly /\ Present(i) /\ Present(j) /\ i # j /\ T(i).fam = "cyc" /\ T(j).fam = "cyc"
  /\ ~(T(i).ring /\ T(j).ring)
  /\ UNCHANGED <<heap, link>>
  /\ Log("adapt", i, j, <<>>)

Drop(k) ==
  /\ ~MeshOnly /\ Present(k) /\ k > NT
  /\ heap' = [heap EXCEPT ![k] = Absent]
  /\ link' = Unlink(k)
  /\ Log("drop", k, 0, <<>>)

Reset(i) ==
  /\ ~MeshOnly /\ Present(i) /\ T(i).fam \in {"inv", "hel"}
  /\ heap' = [heap EXCEPT ![i] = Fresh(heap[i].t)]
  /\ link' = Unlink(i)
  /\ Log("reset", i, 0, <<>>)

Init ==
  /\ heap = [i \in Slots |-> IF i <= NT THEN Fresh(i) ELSE Absent]
  /\ link = {}
  /\ hist = <<>>

Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E i \in Slots, v \in Centers : SetCenter(i, v) \/ Move(i, v)
     \/ \E i, j \in Slots : TakeCenter(i, j)
     \/ \E i \in Slots, a \in Angles : SetAngle(i, a) \/ Turn(i, a)
     \/ \E i \in Slots, o \in Orients : SetOrient(i, o)
     \/ \E i, j \in Slots : Present(i) /\ Present(j) /\ Compatible(i, j) /\ \E d \in InPlane(heap[j].o) : MeshTo(i, j, d)
     \/ \E i, k \in Slots : Copy(i, k)
     \/ \E k \in Slots : Drop(k)
     \/ \E i \in Slots : Reset(i)
     \/ \E i, j \in Slots : Adapt(i, j)

\* the same choices, but drawing the kind of call first: in simulation this gives
\* histories in which meshing is as frequent as everything else together
SimNext ==
  /\ Len(hist) < MaxLen
  /\ LET dice == RandomElement(1..10) IN
     IF dice <= 5
     THEN \E i, j \in Slots : Present(i) /\ Present(j) /\ Compatible(i, j) /\ \E d \in InPlane(heap[j].o) : MeshTo(i, j, d)
     ELSE CASE dice = 6 -> \E i \in Slots, v \in Centers : SetCenter(i, v) \/ Move(i, v)
            [] dice = 7 -> \E i \in Slots, a \in Angles : SetAngle(i, a) \/ Turn(i, a)
            [] dice = 8 -> \E i \in Slots, o \in Orients : SetOrient(i, o)
            [] dice = 9 -> \/ \E i, k \in Slots : Copy(i, k)
                           \/ \E i, j \in Slots : TakeCenter(i, j) \/ Adapt(i, j)
            [] OTHER -> \/ \E k \in Slots : Drop(k)
                        \/ \E i \in Slots : Reset(i)
                        \/ \E i \in Slots, a \in Angles : Turn(i, a)

\* one gear after another is sent home, moved, sent home again, copied, and it or the copy
\* moved and sent home: whatever is shared between a gear, its inputs and its copy shows
Home(i) == IF T(i).fam \in {"inv", "hel"} THEN Reset(i) ELSE \E v \in {RandomElement(Centers)} : SetCenter(i, v)
Stir(i) == \E v \in {RandomElement(Centers)}, o \in {RandomElement(Orients)}, a \in {RandomElement(Angles)}, c \in {RandomElement(1..5)} :
             IF c <= 3 THEN Move(i, v) ELSE IF c = 4 THEN SetOrient(i, o) ELSE Turn(i, a)
SimAlias ==
  /\ Len(hist) < MaxLen
  /\ LET i == 1 + ((Len(hist) \div 7) % NT)
         k == NT + 1
         which == IF Present(k) THEN {i, k} ELSE {i}
     IN CASE Len(hist) % 7 \in {0, 2} -> Home(i)
          [] Len(hist) % 7 = 1 -> Stir(i)
          [] Len(hist) % 7 = 3 -> IF Present(k) THEN Drop(k) ELSE Copy(i, k)
          [] Len(hist) % 7 = 6 -> \E x \in {RandomElement(which)} : Home(x)
          [] OTHER -> \E x \in {RandomElement(which)} : Stir(x)

Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* design properties, checked on every reachable state of the bounded model

TypeOK == \A i \in Slots : Present(i) =>
            /\ IsRotation(heap[i].o)
            /\ IsRat(heap[i].a)

\* P01/P04: as long as nobody moved either gear, the pitch circles (cones) touch in one
\* point, which is where the mesh was requested, and the axes are parallel (or meet in
\* the common apex at a right angle)
TouchInv == \A l \in link :
  LET i == l[1] j == l[2] d == l[3]
      gi == heap[i] gj == heap[j] ei == T(i) ej == T(j) IN
  IF IsBevel(ei)
  THEN /\ Dot(ZAxis(gi.o), ZAxis(gj.o)) = 0
       /\ IAdd(gi.c, IScale(ei.h, ZAxis(gi.o))) = IAdd(gj.c, IScale(ej.h, ZAxis(gj.o)))
       /\ \E w \in InPlane(gi.o) : IAdd(gi.c, IScale(ei.rp, w)) = IAdd(gj.c, IScale(ej.rp, d))
  ELSE /\ gi.o = gj.o
       /\ \E u \in {d, INeg(d)} : \E w \in {u, INeg(u)} :
            /\ IAdd(gi.c, IScale(ei.rp, w)) = IAdd(gj.c, IScale(ej.rp, u))
            /\ (ei.ring \/ ej.ring) <=> (w = u)

\* P02: at that point a tooth of one gear faces a space of the other
PhaseInv == \A l \in link :
  LET i == l[1] j == l[2]
      gi == heap[i] gj == heap[j] ei == T(i) ej == T(j)
      pitchPoint(u, w) == IAdd(gi.c, IScale(ei.rp, w)) = IAdd(gj.c, IScale(ej.rp, u))
  IN
  \A u \in InPlane(gj.o), w \in InPlane(gi.o) :
    (pitchPoint(u, w) /\ (IsBevel(ei) => u = l[3])) =>
      LET pi == Phase(gi, ei, w)
          pj == Phase(gj, ej, u)
      IN IF ei.ring \/ ej.ring THEN pi = pj ELSE RMod(RAdd(pi, pj), ROne) = RHalf

\* P06: every call changes at most the gear it is called on
OneGear == [][ Cardinality({ i \in Slots : heap'[i] # heap[i] }) <= 1 ]_vars

\* every gear of the table keeps its identity
Identity == \A i \in 1..NT : heap[i].t = i

View == <<heap, link, Len(hist)>>
Emit == PrintT(ToJson(hist'))
EmitLast == Len(hist') = MaxLen => PrintT(ToJson(hist'))
=============================================================================
