------------------------------ MODULE Cycloid ------------------------------
(***************************************************************************)
(* Cycloid gears and their rolling circles.                                 *)
(*                                                                         *)
(* State: per gear the coefficients (in, out) of the circles rolling inside  *)
(* and outside its pitch circle, as exact fractions of its pitch radius; the *)
(* placement tag (changed only by Place); the shape its part was built from. *)
(* The tip of an external gear is formed by the circle rolling outside, its  *)
(* root by the one rolling inside; for a ring gear the roles are reversed.   *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, TLC, Json
CONSTANTS Table,     \* sequence of [z, ring, cin, cout]
          Coeffs,    \* fractions a user may set
          MaxLen
VARIABLES g, hist
vars == <<g, hist>>
N == Len(Table)
I == 1..N
None == <<RZero, RZero>>

Init == /\ g = [i \in I |-> [cin |-> Table[i].cin, cout |-> Table[i].cout, place |-> 0, built |-> None, shape |-> <<Table[i].cin, Table[i].cout>>]]
        /\ hist = << >>
Z(i) == RI(Table[i].z)
Ring(i) == Table[i].ring
Tip(i, s) == IF Ring(i) THEN s[i].cin ELSE s[i].cout
Root(i, s) == IF Ring(i) THEN s[i].cout ELSE s[i].cin
\* radius in modules
Rad(i, c) == RMul(c, RDiv(Z(i), RI(2)))
Match(i, j, s) == /\ Rad(i, Tip(i, s)) = Rad(j, Root(j, s))
                  /\ Rad(j, Tip(j, s)) = Rad(i, Root(i, s))
Obs(s) == [i \in I |-> [cin |-> s[i].cin, cout |-> s[i].cout, place |-> s[i].place, stale |-> s[i].built = None,
                        shape |-> s[i].shape, built |-> s[i].built]]
Log(op, i, j, arg) == hist' = Append(hist, [op |-> op, i |-> i, j |-> j, arg |-> arg, exp |-> Obs(g')])

\* the tips are adapted to the roots, the roots stay
Adapt(i, j) ==
  /\ i # j /\ ~(Ring(i) /\ Ring(j))
  /\ LET ti == RMul(Root(j, g), RDiv(Z(j), Z(i)))     \* new tip coefficient of i
         tj == RMul(Root(i, g), RDiv(Z(i), Z(j)))
         set(k, t) == IF Ring(k) THEN [g[k] EXCEPT !.cin = t, !.built = None, !.shape = <<t, g[k].cout>>]
                                 ELSE [g[k] EXCEPT !.cout = t, !.built = None, !.shape = <<g[k].cin, t>>]
     IN  g' = [g EXCEPT ![i] = set(i, ti), ![j] = set(j, tj)]
  /\ Log("adapt", i, j, 0)
\* setting a coefficient is an input only: the shape follows with the next adapt
SetIn(i, c) == g' = [g EXCEPT ![i].cin = c] /\ Log("set_in", i, 0, c)
SetOut(i, c) == g' = [g EXCEPT ![i].cout = c] /\ Log("set_out", i, 0, c)
Place(i, k) == g' = [g EXCEPT ![i].place = k] /\ Log("place", i, 0, k)
Build(i) == g' = [g EXCEPT ![i].built = g[i].shape] /\ Log("build", i, 0, 0)
\* update builds a part when there is none
Update(i) == g' = [g EXCEPT ![i].built = IF @ = None THEN g[i].shape ELSE @] /\ Log("update", i, 0, 0)

Next == /\ Len(hist) < MaxLen
        /\ \/ \E i, j \in I : Adapt(i, j)
           \/ \E i \in I, c \in Coeffs : SetIn(i, c) \/ SetOut(i, c)
           \/ \E i \in I, k \in 1..2 : Place(i, k)
           \/ \E i \in I : Build(i) \/ Update(i)
Pairs == { p \in I \X I : p[1] # p[2] /\ ~(Ring(p[1]) /\ Ring(p[2])) }
SimNext == /\ Len(hist) < MaxLen
           /\ \E c \in {RandomElement(1..12)} : \E i \in {RandomElement(I)} :
                IF c <= 5 THEN \E p \in {RandomElement(Pairs)} : Adapt(p[1], p[2])
                ELSE IF c <= 7 THEN \E x \in {RandomElement(Coeffs)} : SetIn(i, x)
                ELSE IF c <= 9 THEN \E x \in {RandomElement(Coeffs)} : SetOut(i, x)
                ELSE IF c <= 11 THEN \E k \in {RandomElement(1..3)} : Place(i, k)
                ELSE Update(i)
\* build, adapt, update, in this rhythm: every part asked for after adapting is of the adapted shape
SimParts == /\ Len(hist) < MaxLen
            /\ \E i \in {RandomElement(I)} : \E c \in {RandomElement(1..3)} :
                 CASE Len(hist) % 3 = 0 -> IF c = 1 THEN Update(i) ELSE Build(i)
                   [] Len(hist) % 3 = 1 -> IF c = 1 THEN \E x \in {RandomElement(Coeffs)} : SetIn(i, x) ELSE IF c = 2 THEN Place(i, 1) ELSE Build(i)
                   [] OTHER -> \E p \in {RandomElement(Pairs)} : Adapt(p[1], p[2])
Spec == Init /\ [][Next]_vars

Last == hist[Len(hist)]
Adapted == Len(hist) > 0 /\ Last.op = "adapt"
\* after adapting, the circle of each tip is the circle of the other's root
Matching == Adapted => Match(Last.i, Last.j, g)
\* adapting again, in either direction, changes nothing
Idempotent == [][ (Adapted /\ hist'[Len(hist')].op = "adapt" /\ {Last.i, Last.j} = {hist'[Len(hist')].i, hist'[Len(hist')].j})
                  => \A i \in I : g'[i].cin = g[i].cin /\ g'[i].cout = g[i].cout ]_vars
Frame == [][ \A i \in I : (hist'[Len(hist')].op = "adapt" => g'[i].place = g[i].place)
                       /\ (hist'[Len(hist')].op = "adapt" /\ i \notin {hist'[Len(hist')].i, hist'[Len(hist')].j} => g'[i] = g[i]) ]_vars
\* a part is never older than the shape
Fresh == \A i \in I : g[i].built = None \/ g[i].built = g[i].shape
View == <<g, Len(hist), IF Len(hist) > 0 THEN <<Last.op, Last.i, Last.j>> ELSE <<>> >>
EmitLast == IF Len(hist') = MaxLen THEN PrintT(ToJson(hist')) ELSE TRUE
============================================================================
