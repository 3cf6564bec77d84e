------------------------------ MODULE Design ------------------------------
(***************************************************************************)
(* What a gear answers when it is asked for its dimensions.                 *)
(*                                                                         *)
(* A gear is described by its inputs (a configuration) and its placement.   *)
(* A session asks questions in any order and moves the gear in between.     *)
(* All answers are exact: the configurations use angles with rational       *)
(* trigonometry (helix, half cone and pressure angle), lengths are          *)
(* rationals, orientations are lattice rotations, and an angle is a pair of *)
(* a rational number of turns and a rational number of radians.             *)
(*                                                                         *)
(* Fields of a configuration                                                *)
(*   z     tooth number (rational: a fraction means a partial gear)         *)
(*   neg   constructed with a negative tooth number                         *)
(*   ring  internal teeth (after the sign of the tooth number)              *)
(*   m     module of the inputs, normal TRUE: measured in the normal section*)
(*   cb,tb cosine and tangent of the helix angle                            *)
(*   cg,sg cosine and sine of the half cone angle                           *)
(*   ta    tangent of the pressure angle (0: the kind has none)             *)
(*   x, ha, hd, ho   profile shift, addendum, dedendum, outside coefficients *)
(*   h, anc          height and anchor                                      *)
(*   bl, cr          backlash and crowning inputs,   hb  herringbone        *)
(***************************************************************************)
EXTENDS Rat, Lattice, TLC, Json

CONSTANTS Configs, Queries, Ratios, Centers, Angles, MaxLen

VARIABLES cfg, place, asked, hist
vars == <<cfg, place, asked, hist>>

\* --- derived quantities ---------------------------------------------------
Mt(c) == IF c.normal THEN RDiv(c.m, c.cb) ELSE c.m          \* transverse module
\* coefficients are multiples of the module of the inputs
Rp(c) == RMul(RDiv(c.z, RI(2)), Mt(c))
Add(c) == RMul(RAdd(c.ha, c.x), c.m)
Ded(c) == RMul(RSub(c.hd, c.x), c.m)
Out(c) == RMul(c.ho, Mt(c))
Ra(c) == RAdd(Rp(c), Add(c))
Rd(c) == RSub(Rp(c), Ded(c))
Ro(c) == RSub(Rp(c), Out(c))
\* transverse pressure angle: tan at = tan an / cos beta
TaT(c) == IF c.normal THEN RDiv(c.ta, c.cb) ELSE c.ta
\* base radius = pitch radius times cos(at) = pitch radius / sqrt(1 + tan(at)^2)
SecSq(c) == RAdd(ROne, RMul(TaT(c), TaT(c)))
Cyl(c) == c.sg = RZero

\* --- along the axis, for the ratio p of the height --------------------------
Zm(c, p) == RMul(RSub(p, c.anc), c.h)                       \* along the face, in mm
AxZ(c, p) == RMul(Zm(c, p), c.cg)                           \* along the axis
RpAt(c, p) == RSub(Rp(c), RMul(Zm(c, p), c.sg))
ScaleAt(c, p) == RDiv(RpAt(c, p), Rp(c))
PMirror(c, p) == IF c.hb /\ RLt(RHalf, p) THEN RSub(ROne, p) ELSE p
\* rotation of the section in radians (z tan(beta) / rp)
Twist(c, p) == RDiv(RMul(Zm(c, PMirror(c, p)), c.tb), Rp(c))
\* half the tooth angle on the pitch circle: quarter pitch + radians
HalfTurns(c) == RDiv(R(1, 4), c.z)
Crown(c, p) == LET u == RSub(RMul(RI(2), p), ROne)
               IN  RMul(RMul(u, u), RMul(c.cr, R(1, 1000)))
\* the pressure angle is the normal one, the shift is measured in the normal section:
\* both cosines cancel
ShiftW(c) == RMul(c.x, c.ta)
HalfRad(c, p) == RDiv(RSub(RSub(ShiftW(c), c.bl), Crown(c, p)), RDiv(c.z, RI(2)))

\* --- placement --------------------------------------------------------------
RApply(M, v) == [i \in 1..3 |-> RSum(<<RMul(RI(M[i][1]), v[1]), RMul(RI(M[i][2]), v[2]), RMul(RI(M[i][3]), v[3])>>)]
OnAxis(pl, s) == VAdd(VInt(pl.c), VScale(s, VInt(ZAxis(pl.o))))
Point(c, pl, p) == OnAxis(pl, AxZ(c, p))

Rat(v) == [t |-> "rat", v |-> v]
OverRoot(v, f) == [t |-> "sq", v |-> v, f |-> f]
Pt(v) == [t |-> "vec", v |-> v]
Ang(tu, ra) == [t |-> "ang", turns |-> tu, rad |-> ra]
Cnt(n) == [t |-> "int", v |-> n]
Loc(pl, c, p) == [t |-> "loc", v |-> Point(c, pl, p), o |-> pl.o, turns |-> pl.a, rad |-> Twist(c, p)]

\* the answer to question q (with ratio p)
Answer(c, pl, q, p) ==
  CASE q = "pitch_radius" -> Rat(Rp(c))
    [] q = "rp" -> Rat(Rp(c))
    [] q = "module" -> Rat(Mt(c))
    [] q = "number_of_teeth" -> Rat(c.z)
    [] q = "teeth_act" -> Cnt(RFloor(c.z))
    [] q = "inside_teeth" -> Cnt(IF c.ring THEN 1 ELSE 0)
    [] q = "pitch_angle" -> Ang(RInv(c.z), RZero)
    [] q = "addendum_radius" -> Rat(Ra(c))
    [] q = "dedendum_radius" -> Rat(Rd(c))
    [] q = "outside" -> Rat(Ro(c))
    [] q = "max_outside_radius" -> Rat(RMax(Ra(c), Ro(c)))
    [] q = "r_base" -> OverRoot(Rp(c), SecSq(c))
    [] q = "base_circle" -> OverRoot(Rp(c), SecSq(c))
    [] q = "core_rp" -> Rat(Rp(c))
    [] q = "r_a_at" -> Rat(Ra(c))
    [] q = "r_d_at" -> Rat(Rd(c))
    [] q = "r_p_at" -> Rat(RpAt(c, p))
    [] q = "radius_spherical" -> Rat(RDiv(Rp(c), c.sg))
    [] q = "core_R" -> Rat(RDiv(Rp(c), c.sg))
    [] q = "cone_tan" -> Rat(RDiv(c.sg, c.cg))
    [] q = "gamma_tan" -> Rat(RDiv(c.sg, c.cg))
    [] q = "center_spherical" -> Pt(OnAxis(pl, RDiv(RMul(Rp(c), c.cg), c.sg)))
    [] q = "core_center_sphere" -> Pt(OnAxis(pl, RDiv(RMul(Rp(c), c.cg), c.sg)))
    [] q = "sphere_at" -> Pt(OnAxis(pl, RDiv(RMul(Rp(c), c.cg), c.sg)))
    [] q = "sphere_R_at" -> Rat(RDiv(RpAt(c, p), c.sg))
    [] q = "center" -> Pt(VInt(pl.c))
    [] q = "helix_tan" -> Rat(c.tb)
    \* sections
    [] q = "p2z" -> Rat(RDiv(Zm(c, p), Mt(c)))
    [] q = "z_height" -> Rat(RMul(c.h, c.cg))
    [] q = "point_at" -> Pt(Point(c, pl, p))
    [] q = "point_bottom" -> Pt(Point(c, pl, RZero))
    [] q = "point_middle" -> Pt(Point(c, pl, RHalf))
    [] q = "point_top" -> Pt(Point(c, pl, ROne))
    [] q = "loc_at" -> Loc(pl, c, p)
    [] q = "loc_bottom" -> Loc(pl, c, RZero)
    [] q = "loc_middle" -> Loc(pl, c, RHalf)
    [] q = "loc_top" -> Loc(pl, c, ROne)
    [] q = "face_bottom" -> Loc(pl, c, RZero)
    [] q = "face_top" -> Loc(pl, c, ROne)
    [] q = "scale_at" -> Rat(RMul(ScaleAt(c, p), Mt(c)))
    [] q = "twist_at" -> Ang(pl.a, Twist(c, p))
    [] q = "half_at" -> Ang(HalfTurns(c), HalfRad(c, p))
    [] q = "circle_center" -> Pt(Point(c, pl, p))
    [] q = "base_center" -> Pt(Point(c, pl, p))
    \* where the reference tooth of the section points: along the twisted x axis
    [] q = "tooth_at" -> Loc(pl, c, p)

Log(op, q, p, a) == hist' = Append(hist, [op |-> op, q |-> q, p |-> p, exp |-> a])

Ask(q, p) == /\ q \notin asked
             /\ asked' = asked \cup {q}
             /\ UNCHANGED <<cfg, place>>
             /\ Log("ask", q, p, Answer(cfg, place, q, p))

Put(c, o, a) == /\ place' = [c |-> c, o |-> o, a |-> a]
                /\ asked' = {}
                /\ UNCHANGED cfg
                /\ Log("put", "", a, [c |-> c, o |-> o])

Origin == [c |-> I0, o |-> Ident, a |-> RZero]
Init == /\ cfg \in Configs
        /\ place = Origin
        /\ asked = {}
        /\ hist = <<>>

Next == /\ Len(hist) < MaxLen
        /\ \/ \E q \in Queries[cfg.dom], p \in Ratios : Ask(q, p)
           \/ \E c \in Centers, o \in Rotations, a \in Angles : Put(c, o, a)

\* every behaviour asks everything, in random order, moving once in between
SimInit == /\ cfg \in Configs
           /\ place = Origin /\ asked = {} /\ hist = <<>>
SimNext == IF hist = <<>> THEN \E c \in {RandomElement(Centers)}, o \in {RandomElement(Rotations)}, a \in {RandomElement(Angles)} : Put(c, o, a)
           ELSE /\ Queries[cfg.dom] \ asked # {}
                /\ \E q \in {RandomElement(Queries[cfg.dom] \ asked)}, p \in {RandomElement(Ratios)} : Ask(q, p)

-----------------------------------------------------------------------------
\* design lemmas, for every configuration and ratio

\* radii are ordered, the outside of a ring is outside of its teeth
Ordered == /\ RLt(Rd(cfg), Rp(cfg)) /\ RLt(Rp(cfg), Ra(cfg))
           /\ IF cfg.ring THEN RLt(Ra(cfg), Ro(cfg)) ELSE RLt(Ro(cfg), Rd(cfg))
           /\ RLe(ROne, SecSq(cfg))
\* bottom, middle and top are a height apart and in order along the axis
HeightOK == /\ VSub(Point(cfg, place, ROne), Point(cfg, place, RZero)) =
                 VScale(RMul(cfg.h, cfg.cg), VInt(ZAxis(place.o)))
            /\ VScale(RI(2), Point(cfg, place, RHalf)) =
                 VAdd(Point(cfg, place, ROne), Point(cfg, place, RZero))
\* the anchor section lies in the centre of the gear, untwisted and unscaled
AnchorOK == /\ Point(cfg, place, cfg.anc) = VInt(place.c)
            /\ ScaleAt(cfg, cfg.anc) = ROne
            /\ ~cfg.hb => Twist(cfg, cfg.anc) = RZero
\* crowning and herringbone are symmetric about mid height
MirrorOK == \A p \in Ratios :
  /\ Crown(cfg, p) = Crown(cfg, RSub(ROne, p))
  /\ cfg.hb => Twist(cfg, p) = Twist(cfg, RSub(ROne, p))
\* all sections of a bevel gear point at one apex
ApexOK == ~Cyl(cfg) => \A p \in Ratios :
  RMul(RSub(RDiv(RMul(Rp(cfg), cfg.cg), cfg.sg), AxZ(cfg, p)), cfg.sg) = RMul(RpAt(cfg, p), cfg.cg)
\* scaling all lengths scales all radii and no angle
Twice(c) == [c EXCEPT !.m = RMul(RI(2), @), !.h = RMul(RI(2), @)]
ModuleOK == /\ Ra(Twice(cfg)) = RMul(RI(2), Ra(cfg)) /\ Rd(Twice(cfg)) = RMul(RI(2), Rd(cfg))
            /\ SecSq(Twice(cfg)) = SecSq(cfg)
            /\ \A p \in Ratios : Twist(Twice(cfg), p) = Twist(cfg, p) /\ HalfRad(Twice(cfg), p) = HalfRad(cfg, p)
\* dimensions do not depend on the placement
NoPlace == \A q \in Queries[cfg.dom] : LET a == Answer(cfg, place, q, RHalf) IN
             a.t \in {"rat", "sq", "int"} => a = Answer(cfg, Origin, q, RHalf)
Stutter == [][ (asked' # {}) => UNCHANGED <<cfg, place>> ]_vars

View == <<cfg, place, asked, Len(hist)>>
EmitLast == (Queries[cfg.dom] \subseteq asked') => PrintT(ToJson([cfg |-> cfg, hist |-> hist']))
=============================================================================
