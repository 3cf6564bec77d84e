------------------------------- MODULE Roll -------------------------------
(***************************************************************************)
(* A meshed pair and the free play between its flanks.                       *)
(*                                                                         *)
(* State: the angle by which the driving gear has been turned since the      *)
(* mesh and the play left to the meshed gear in the positive and negative    *)
(* sense, both as lengths along the line of action.  Meshing with backlash b *)
(* and bias k sets them to b(1-k)/2 and b(1+k)/2; rolling the pair in the     *)
(* inverse ratio of the tooth counts changes neither; turning the meshed     *)
(* gear alone by d moves d from one to the other.  No play is ever negative  *)
(* unless a gear is turned alone beyond the play: profiles do not overlap.   *)
(*                                                                         *)
(* Exhaustive model: plays in units of b/8.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps, Turns, MaxLen
VARIABLES ph, plus, minus, b, hist
vars == <<ph, plus, minus, b, hist>>

Init == ph = 0 /\ plus = 0 /\ minus = 0 /\ b = 0 /\ hist = << >>
Log(op, arg) == hist' = Append(hist, [op |-> op, arg |-> arg, plus |-> plus', minus |-> minus'])
\* k: bias in quarters
Mesh(w, k) == /\ b' = 8 * w /\ plus' = w * (4 - k) /\ minus' = w * (4 + k)
              /\ ph' = 0 /\ Log("mesh", <<w, k>>)
RollBy(d) == /\ ph' = ph + d /\ UNCHANGED <<plus, minus, b>> /\ Log("roll", <<d>>)
\* turn the meshed gear alone, within the play
Turn(d) == /\ d <= plus /\ -d <= minus
           /\ plus' = plus - d /\ minus' = minus + d /\ UNCHANGED <<ph, b>> /\ Log("turn", <<d>>)
First == Len(hist) = 0
Next == /\ Len(hist) < MaxLen
        /\ \/ \E w \in 0..1, k \in {-4, -2, 0, 1, 4} : Mesh(w, k)
           \/ ~First /\ \E d \in Steps : RollBy(d)
           \/ ~First /\ \E d \in Turns : Turn(d)
Spec == Init /\ [][Next]_vars
\* the simulator picks uniformly over kinds of calls
SimNext == /\ Len(hist) < MaxLen
           /\ IF First THEN \E w \in {RandomElement(0..1)}, k \in {RandomElement({-4, -2, 0, 1, 4})} : Mesh(w, k)
              ELSE \E c \in {RandomElement(1..6)} :
                     IF c = 1 THEN \E w \in {RandomElement(0..1)}, k \in {RandomElement({-4, -2, 0, 1, 4})} : Mesh(w, k)
                     ELSE IF c = 2 /\ (\E d \in Turns : d # 0 /\ d <= plus /\ -d <= minus)
                          THEN \E d \in {RandomElement({e \in Turns : e # 0 /\ e <= plus /\ -e <= minus})} : Turn(d)
                     ELSE \E d \in {RandomElement(Steps)} : RollBy(d)
TotalPlay == plus + minus = b
NoOverlap == plus >= 0 /\ minus >= 0
RollKeeps == [][ (\E d \in Steps : RollBy(d)) => (plus' = plus /\ minus' = minus) ]_vars
View == <<plus, minus, b, Len(hist)>>
EmitLast == IF Len(hist') = MaxLen THEN PrintT(ToJson(hist')) ELSE TRUE
===========================================================================
