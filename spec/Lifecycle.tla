----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The life of gears between construction and part: asking, moving, meshing, *)
(* copying, building, updating, and builds that break off.                   *)
(*                                                                         *)
(* A slot holds a gear; slots 1 and 2 are a pair, slot 3 receives copies.     *)
(* The placement of a gear is an id: 0 as constructed, 1..NP chosen by the    *)
(* user, larger ones the outcome of a mesh (one per step); turns, shifts and  *)
(* tilts count changes of the angle, centre or axis alone since then.  Parts handed out so far are values: each remembers where *)
(* its gear was when it was returned.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Queries, NP, MaxLen, WQuery, WMove, WPart, WFail
VARIABLES g, parts, hist
vars == <<g, parts, hist>>
Slots == 1..3
At(p) == [base |-> p, turns |-> 0, shifts |-> 0, tilts |-> 0]
Home == At(0)
Fresh == [alive |-> TRUE, at |-> Home, built |-> FALSE]
Init == /\ g = [i \in Slots |-> IF i < 3 THEN Fresh ELSE [Fresh EXCEPT !.alive = FALSE]]
        /\ parts = << >> /\ hist = << >>
Alive == {i \in Slots : g[i].alive}
Step(op, i, j, arg) == hist' = Append(hist, [op |-> op, i |-> i, j |-> j, arg |-> arg, exp |-> [k \in Slots |-> g'[k]], parts |-> parts'])

\* an answer depends on nothing but the gear's inputs and placement, and changes nothing
Query(i, q) == UNCHANGED <<g, parts>> /\ Step("query", i, 0, q)
Put(i, p) == g' = [g EXCEPT ![i].at = At(p)] /\ UNCHANGED parts /\ Step("put", i, 0, p)
Turn(i) == g' = [g EXCEPT ![i].at.turns = @ + 1] /\ UNCHANGED parts /\ Step("turn", i, 0, 0)
Shift(i) == g' = [g EXCEPT ![i].at.shifts = @ + 1] /\ UNCHANGED parts /\ Step("shift", i, 0, 0)
Tilt(i) == g' = [g EXCEPT ![i].at.tilts = @ + 1] /\ UNCHANGED parts /\ Step("tilt", i, 0, 0)
Mesh(i, j) == /\ i # j /\ {i, j} \subseteq {1, 2}
              /\ g' = [g EXCEPT ![i].at = At(100 + Len(hist))] /\ UNCHANGED parts /\ Step("mesh", i, j, 0)
Reset(i) == g' = [g EXCEPT ![i].at = Home] /\ UNCHANGED parts /\ Step("reset", i, 0, 0)
Copy(i) == i < 3 /\ g' = [g EXCEPT ![3] = g[i]] /\ UNCHANGED parts /\ Step("copy", i, 0, 0)
\* the part is where the gear is now
Hand(i) == parts' = Append(parts, [slot |-> i, at |-> g[i].at])
Build(i) == g' = [g EXCEPT ![i].built = TRUE] /\ Hand(i) /\ Step("build", i, 0, 0)
Update(i) == g' = [g EXCEPT ![i].built = TRUE] /\ Hand(i) /\ Step("update", i, 0, 0)
\* an error part of the way through (in tenths of the work): nothing has happened
Fail(i, what, tenth) == UNCHANGED <<g, parts>> /\ Step("fail", i, 0, [what |-> what, tenth |-> tenth])

Moves(i) == Turn(i) \/ Shift(i) \/ Tilt(i) \/ Reset(i) \/ (\E p \in 1..NP : Put(i, p)) \/ (\E j \in 1..2 : Mesh(i, j))
Next == /\ Len(hist) < MaxLen
        /\ \E i \in Alive : \/ \E q \in Queries : Query(i, q)
                            \/ Moves(i) \/ Copy(i) \/ Build(i) \/ Update(i)
                            \/ \E w \in {"build", "update", "wire"} : Fail(i, w, 5)
\* simulation: weights of the four groups of calls
SimNext == /\ Len(hist) < MaxLen
           /\ \E i \in {RandomElement(Alive)}, c \in {RandomElement(1..(WQuery + WMove + WPart + WFail))}, d \in {RandomElement(1..8)}, e \in {RandomElement(1..3)} :
                IF c <= WQuery THEN \E q \in {RandomElement(Queries)} : Query(i, q)
                ELSE IF c <= WQuery + WMove THEN
                       IF d <= 2 THEN \E p \in {RandomElement(1..NP)} : Put(i, p)
                       ELSE IF d <= 4 THEN (IF e = 1 THEN Turn(i) ELSE IF e = 2 THEN Shift(i) ELSE Tilt(i)) ELSE IF d = 5 THEN Reset(i)
                       ELSE IF d = 6 /\ i < 3 THEN Copy(i)
                       ELSE IF i < 3 THEN Mesh(i, 3 - i) ELSE Turn(i)
                ELSE IF c <= WQuery + WMove + WPart THEN (IF d <= 3 THEN Build(i) ELSE Update(i))
                ELSE \E t \in {RandomElement(0..9)} : Fail(i, IF d <= 4 THEN "build" ELSE IF d <= 6 THEN "update" ELSE "wire", t)
Spec == Init /\ [][Next]_vars

LastOp == IF Len(hist) = 0 THEN "" ELSE hist[Len(hist)].op
\* a part returned now sits where its gear is now
InPlace == LastOp \in {"build", "update"} => parts[Len(parts)].at = g[hist[Len(hist)].i].at
\* parts that were handed out never change
Values == [][ Len(parts') >= Len(parts) /\ \A k \in 1..Len(parts) : parts'[k] = parts[k] ]_vars
\* asking and failing change nothing, and nobody else's call moves a gear
Quiet == [][ hist'[Len(hist')].op \in {"query", "fail"} => g' = g /\ parts' = parts ]_vars
Local == [][ LET s == hist'[Len(hist')] IN \A k \in Slots : k # s.i /\ ~(s.op = "copy" /\ k = 3) => g'[k] = g[k] ]_vars
View == <<g, parts, LastOp, Len(hist)>>
EmitLast == IF Len(hist') = MaxLen THEN PrintT(ToJson(hist')) ELSE TRUE
============================================================================
