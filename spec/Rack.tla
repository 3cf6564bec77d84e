------------------------------- MODULE Rack -------------------------------
(***************************************************************************)
(* A rack and the gear it is meshed to.                                      *)
(*                                                                         *)
(* All angles and lengths along the pitch line in pitches of the gear, as    *)
(* exact fractions.  The gear's tooth k stands at angle a + k, the requested  *)
(* direction at angle dir.  The rack's y axis runs against the sense of the   *)
(* gear's rotation at the pitch point, its teeth stand at off + j: the gear's *)
(* teeth pass the pitch point at y = (dir - a) - k, so a rack tooth faces a   *)
(* gap of the gear when off and dir - a differ by half a pitch.              *)
(***************************************************************************)
EXTENDS Rat, Sequences, TLC, Json
CONSTANTS Z,         \* teeth of the gear
          Angles,    \* gear angles, in pitches
          Dirs,      \* directions, in 24ths of a turn
          Shifts,    \* tooth offsets asked for
          Steps,     \* rolling steps, in pitches
          MaxLen
VARIABLES a, place, dir, off, want, meshed, hist
vars == <<a, place, dir, off, want, meshed, hist>>

Frac(x) == RSub(x, RI(RFloor(x)))
DirPitch(d) == R(d * Z, 24)
Init == a = RZero /\ place = 0 /\ dir = 0 /\ off = RZero /\ want = RZero /\ meshed = FALSE /\ hist = << >>
Log(op, arg) == hist' = Append(hist, [op |-> op, arg |-> arg, exp |-> [a |-> a', place |-> place', dir |-> dir', off |-> off', meshed |-> meshed']])

\* place the rack: the gear stays where it is
Mesh(d, s) == /\ dir' = d /\ want' = s /\ meshed' = TRUE
              /\ off' = RAdd(RSub(Frac(RSub(DirPitch(d), a)), RHalf), s)
              /\ UNCHANGED <<a, place>> /\ Log("mesh", [dir |-> d, off |-> s])
\* turn both in the ratio of rolling on the pitch line
RollBy(q) == /\ meshed /\ a' = RAdd(a, q) /\ off' = RSub(off, q) /\ UNCHANGED <<place, dir, want, meshed>> /\ Log("roll", q)
\* a gear that is turned or moved alone leaves the rack behind
Turn(q) == a' = q /\ meshed' = FALSE /\ UNCHANGED <<place, dir, off, want>> /\ Log("turn", q)
Move == place' = place + 1 /\ meshed' = FALSE /\ UNCHANGED <<a, dir, off, want>> /\ Log("move", RZero)
\* the caller goes on using the arrays it handed over, and changes another rack in place: no effect
Scribble == UNCHANGED <<a, place, dir, off, want, meshed>> /\ Log("scribble", RZero)
Build == UNCHANGED <<a, place, dir, off, want, meshed>> /\ Log("build", RZero)

Next == /\ Len(hist) < MaxLen
        /\ \/ \E d \in Dirs, s \in Shifts : Mesh(d, s)
           \/ \E q \in Steps : RollBy(q)
           \/ \E q \in Angles : Turn(q)
           \/ Move \/ Build \/ Scribble
SimNext == /\ Len(hist) < MaxLen
           /\ \E c \in {RandomElement(1..10)} :
                IF c <= 4 THEN \E d \in {RandomElement(Dirs)}, s \in {RandomElement(Shifts)} : Mesh(d, s)
                ELSE IF c <= 6 /\ meshed THEN \E q \in {RandomElement(Steps)} : RollBy(q)
                ELSE IF c <= 7 THEN \E q \in {RandomElement(Angles)} : Turn(q)
                ELSE IF c = 8 THEN Move ELSE IF c = 9 THEN Scribble ELSE Build
Spec == Init /\ [][Next]_vars

Facing == meshed => Frac(RSub(off, RSub(DirPitch(dir), a))) = RHalf
\* a freshly meshed rack is centred on the pitch point within half a pitch of the offset asked for
Centred == (Len(hist) > 0 /\ hist[Len(hist)].op = "mesh") => RLe(RAbs(RSub(off, want)), RHalf)
\* queries leave everything alone; meshing never moves the gear
Still == [][ hist'[Len(hist')].op \in {"mesh", "build", "scribble"} => a' = a /\ place' = place ]_vars
View == <<a, dir, off, want, meshed, IF Len(hist) > 0 THEN hist[Len(hist)].op ELSE "", Len(hist)>>
EmitLast == IF Len(hist') = MaxLen THEN PrintT(ToJson(hist')) ELSE TRUE
===========================================================================
