"""Histories of Lifecycle.tla on real gears (P07 queries, P08 parts, P09 faults)."""
import math
import os
import random
import sys

import numpy as np

import vf
from meshobs import rand_rot
from placement import core_of

PI = math.pi
DEG = PI / 180
KINDS = ["spur", "ring", "helical", "helring", "bevel", "cycloid", "cycring", "cycbevel"]


# --------------------------------------------------------------------------- gears
def config(rng, kind):
    """constructors of a pair of small gears that mesh with each other"""
    gg = vf.load()
    m = rng.choice([1.0, 2.0, rng.uniform(0.4, 3)])
    z1, z2 = rng.randint(9, 14), rng.randint(9, 14)
    h = m * rng.uniform(0.6, 2)
    anc = rng.choice([0, 0.5, rng.random()])
    base = dict(module=m, height=h, z_anchor=anc)
    place = lambda: dict(center=np.array([rng.uniform(-9, 9) for _ in range(3)]), angle=rng.uniform(-3, 3))  # noqa
    cr = rng.choice([0, rng.uniform(10, 60)])
    p1, p2 = place(), place()
    uc = rng.random() < 0.5
    if kind in ("spur", "ring"):
        a = dict(base, number_of_teeth=z1, profile_shift=0.2, enable_undercut=uc, crowning=cr, **p1)
        if kind == "ring":
            return [(gg.SpurRingGear, dict(base, number_of_teeth=z1 + 16, crowning=cr, root_fillet=rng.choice([0, 0.1]), **p2)), (gg.SpurGear, a)]
        cls = rng.choice([gg.SpurGear, gg.InvoluteGear])
        if cls is gg.InvoluteGear:
            be = rng.choice([0, 0.3])
            return [(cls, dict(a, helix_angle=be)), (cls, dict(a, number_of_teeth=z2, helix_angle=-be, **p2))]
        return [(cls, a), (cls, dict(a, number_of_teeth=z2, root_fillet=0.1 if not uc else 0, **p2))]
    if kind in ("helical", "helring"):
        be = rng.choice([-1, 1]) * rng.uniform(0.1, 0.5)
        hb = rng.random() < 0.5
        a = dict(base, number_of_teeth=z1, helix_angle=be, herringbone=hb, profile_shift=0.2, enable_undercut=uc, **p1)
        if kind == "helring":
            return [(gg.HelicalRingGear, dict(base, number_of_teeth=z1 + 16, helix_angle=be, herringbone=hb, **p2)), (gg.HelicalGear, a)]
        return [(gg.HelicalGear, a), (gg.HelicalGear, dict(a, number_of_teeth=z2, helix_angle=-be, **p2))]
    ga = math.atan2(z1, z2)
    be = rng.choice([0, 0.3])
    if kind == "bevel":
        a = dict(base, height=min(h, 0.2 * m * z1 / 2 / math.sin(ga)), enable_undercut=uc)
        return [(gg.BevelGear, dict(a, number_of_teeth=z1, cone_angle=2 * ga, helix_angle=be, **p1)), (gg.BevelGear, dict(a, number_of_teeth=z2, cone_angle=PI - 2 * ga, helix_angle=-be, **p2))]
    if kind == "cycbevel":
        a = dict(base, height=min(h, 0.2 * m * z1 / 2 / math.sin(ga)))
        return [(gg.CycloidGear, dict(a, number_of_teeth=z1, cone_angle=2 * ga, helix_angle=be, **p1)), (gg.CycloidGear, dict(a, number_of_teeth=z2, cone_angle=PI - 2 * ga, helix_angle=-be, **p2))]
    a = dict(base, number_of_teeth=z1, crowning=cr, **p1)
    if kind == "cycring":
        return [(gg.CycloidGear, dict(base, number_of_teeth=z1 + 16, inside_teeth=True, inside_cycloid_coefficient=0.2, outside_cycloid_coefficient=0.2, addendum_coefficient=1.2, dedendum_coefficient=1.0, **p2)), (gg.CycloidGear, a)]
    return [(gg.CycloidGear, a), (gg.CycloidGear, dict(a, number_of_teeth=z2, **p2))]


def make(spec):
    cls, kw = spec
    return cls(**{k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in kw.items()})


def place_of(g):
    t = core_of(g).transform
    return np.array(t.center, dtype=float), np.array(t.orientation, dtype=float), float(t.angle)


def put(g, p):
    t = core_of(g).transform
    g.center = np.array(p[0])
    t.orientation = np.array(p[1])
    g.angle = p[2]


def same_place(a, b, tol=1e-9):
    return max(np.max(np.abs(a[0] - b[0])), np.max(np.abs(a[1] - b[1])), abs(a[2] - b[2])) <= tol


# --------------------------------------------------------------------------- answers
def flat(v, depth=0):
    """any answer as nested lists of numbers"""
    import build123d as bd

    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (int, float, np.number)):
        return float(v)
    if isinstance(v, np.ndarray):
        return [flat(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [flat(x, depth) for x in v]
    if isinstance(v, bd.Location):
        t = v.wrapped.Transformation()
        return [[t.Value(r, c) for c in (1, 2, 3, 4)] for r in (1, 2, 3)]
    if isinstance(v, bd.Shape):
        return shape(v)
    if hasattr(v, "radius") and hasattr(v, "center") and hasattr(v, "axis"):
        return ["arc", flat(v.radius), flat(v.center), flat(v.axis), flat(v.angle)]
    if callable(v) and hasattr(v, "t2s"):
        return ["curve"] + [flat(np.asarray(v(float(s)), dtype=float)) for s in np.linspace(0, 1, 9)]
    if hasattr(v, "orientation") and hasattr(v, "center") and hasattr(v, "scale"):
        return ["trf", flat(v.center), flat(v.orientation), flat(v.scale), flat(getattr(v, "angle", 0))]
    if hasattr(v, "cone_angle") and hasattr(v, "base_radius"):
        return ["cone", flat(v.cone_angle), flat(v.base_radius), flat(v.R), flat(v.center)]
    if depth < 3 and hasattr(v, "__dict__"):
        return {k: flat(x, depth + 1) for k, x in sorted(vars(v).items()) if not callable(x) and not k.startswith("_")}
    return type(v).__name__


def vertices(s):
    return np.array([[v.X, v.Y, v.Z] for v in s.vertices()])


def shape(s):
    v = vertices(s)
    c = [v.min(axis=0).tolist(), v.max(axis=0).tolist(), v.mean(axis=0).tolist(), (v ** 3).sum(axis=0).tolist()]
    return ["shape", float(len(v)), float(len(s.edges())), float(len(s.faces()))] + c


def worst(a, b):
    """largest difference of two answers (inf when they do not have the same form)"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return math.inf
        return max([worst(a[k], b[k]) for k in a] + [0.0])
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return math.inf
        return max([worst(x, y) for x, y in zip(a, b)] + [0.0])
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (math.isnan(a) and math.isnan(b)):
            return 0.0
        return abs(a - b) / max(1.0, abs(a))
    return 0.0 if a == b else math.inf


def props(cls):
    out = set()
    for c in cls.__mro__:
        for k, v in vars(c).items():
            if isinstance(v, property) and not k.startswith("_"):
                out.add(k)
    return sorted(out)


METHODS = ["m_trf_at", "m_point_at", "m_loc_at", "m_radii_at", "m_cones_at", "m_base_circle", "m_profile", "m_boundary", "m_chain", "m_sphere", "m_cone",
           "m_recipe", "m_wire", "m_copy", "m_corecopy", "m_loa", "m_core", "m_inputs", "m_gen", "m_refs", "m_nurbs", "m_boundary_fn", "m_line"]


def queries():
    gg = vf.load()
    s = set()
    for c in (gg.SpurGear, gg.SpurRingGear, gg.HelicalGear, gg.HelicalRingGear, gg.BevelGear, gg.CycloidGear):
        s |= set(props(c))
    return sorted(s) + METHODS


def ask(g, q, r, other=None):
    """answer to one question; r: ratio along the height"""
    gg = vf.load()
    import gggears.gggears_wrapper as gw

    core = core_of(g)
    if not q.startswith("m_"):
        if not hasattr(type(g), q):
            return None
        return getattr(g, q)
    z = g.p2z(r)
    if q == "m_trf_at":
        return g.center_transform_at_z(z)
    if q == "m_point_at":
        return g.center_point_at_z(z)
    if q == "m_loc_at":
        return g.center_location_at_z(z)
    if q == "m_radii_at":
        return g.radii_data_gen(z)
    if q == "m_cones_at":
        return g.cone_angles_at_z(z) if g.cone_angle else None
    if q == "m_base_circle":
        return g.circle_involute_base(r) if hasattr(g, "circle_involute_base") else None
    if q == "m_profile":
        p = core.curve_gen_at_z(z)
        return [p.tooth_curve, p.tooth_curve_mirror, p.ra_curve, p.rd_curve, p.ro_curve, p.transform]
    if q == "m_boundary":
        return core.boundary_at_z(z)
    if q == "m_chain":
        return core.boundary_at_z(z, continuous=False)
    if q == "m_sphere":
        return core.sphere_data_at_z(z) if g.cone_angle else None
    if q == "m_cone":
        return core.cone_at_z(z)
    if q == "m_recipe":
        s = core.shape_recipe(z)
        return [s.limits, s.fillet, s.cone, s.transform, s.pitch_angle]
    if q == "m_wire":
        return g.build_boundary_wire(r)
    if q == "m_copy":
        c = g.copy()
        c.center = np.array([1.0, 2.0, 3.0])
        c.angle = 5.0
        core_of(c).transform.orientation = np.eye(3)[[1, 2, 0]]
        return [flat(c.addendum_radius), flat(core_of(c).z_vals), flat(core_of(c).curve_gen_at_z(z).tooth_curve)]
    if q == "m_corecopy":
        c = core.copy()
        c.transform.angle = 9.0
        c.center = np.array([4.0, 2.0, 3.0])
        c.z_vals[0] -= 1
        return flat(c.curve_gen_at_z(z).tooth_curve)
    if q == "m_loa":
        if other is None or not isinstance(g, gg.InvoluteGear) or not isinstance(other, gg.InvoluteGear) or g.cone_angle or other.cone_angle:
            return None
        return gw.LineOfAction(g, other, z_ratio=r).centerdiff
    if q == "m_core":
        return [core.rp, core.R if g.cone_angle else 0, core.pitch_angle, core.center, core.transform, core.z_vals, core.module, core.tooth_param.num_teeth, core.tooth_param.num_teeth_act]
    if q == "m_inputs":
        return vars(g.inputparam)
    if q == "m_gen":
        return core.shape_recipe(z).tooth_generator.generate_tooth_curve()
    if q == "m_refs":
        a = g.radii_data_array
        return [x.r_a for x in a] + [x.r_d for x in a]
    if q == "m_nurbs":
        import gggears.curve as crv
        import gggears.function_generators as fg

        c = core.curve_gen_at_z(z).tooth_curve
        fg.convert_curve_nurbezier(c) if hasattr(fg, "convert_curve_nurbezier") else crv.convert_curve_nurbezier(c)
        return [c, core.curve_gen_at_z(z).tooth_curve]
    if q == "m_boundary_fn":
        import gggears.gggears_build123d as gb

        e = gb.generate_boundary_edges(core.curve_gen_at_z(z), core.transform)
        return [shape(x) for x in list(e)[:6]]
    if q == "m_line":
        return [core.boundary_at_z(z)(t) for t in (0.1, 0.77)]
    raise vf.Broken("unknown question " + q)


def answer(g, q, r, other=None):
    try:
        return flat(ask(g, q, r, other))
    except vf.Broken:
        raise
    except Exception as e:  # noqa: an answer as well, as long as it is always the same
        return "raises " + type(e).__name__


# --------------------------------------------------------------------------- faults
class Fault(Exception):
    pass


def _from_library(frame):
    """a call made by the library into the CAD kernel's wrapper or the numerical solvers: the calls that can fail"""
    f = frame.f_code.co_filename
    b = frame.f_back
    if b is None or SRC not in b.f_code.co_filename:
        return False
    return "build123d" in f or "scipy" in f


SRC = os.path.join(vf.REPO, "src", "gggears")


def _own(frame):
    """a call made inside the library: an interrupt can come at any of them"""
    return SRC in frame.f_code.co_filename and frame.f_back is not None and SRC in frame.f_back.f_code.co_filename


def counted(fn, where):
    """places from which calls are made in fn: {calling line: [numbers of its calls]}, in order of appearance"""
    n, sites = [0], {}

    def tr(frame, event, arg):
        if event == "call" and where(frame):
            b = frame.f_back
            sites.setdefault((b.f_code.co_filename, b.f_lineno), []).append(n[0])
            n[0] += 1
        return None

    sys.settrace(tr)
    try:
        fn()
    finally:
        sys.settrace(None)
    return list(sites.values())


def faulty(fn, k, where=_from_library, exc=Fault):
    """run fn with an error raised by its k-th such call; True if it came out"""
    n = [0]

    def tr(frame, event, arg):
        if event == "call" and where(frame):
            n[0] += 1
            if n[0] > k:
                sys.settrace(None)
                raise exc("injected")
        return None

    sys.settrace(tr)
    try:
        fn()
        return False
    except (Exception, KeyboardInterrupt):  # noqa: the library may wrap it
        return n[0] > k
    finally:
        sys.settrace(None)


# --------------------------------------------------------------------------- replay
def rz(a):
    return np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1.0]])


class Ref:
    """the same gear, built fresh where it was constructed; its part in the frame of the gear"""

    def __init__(self, spec):
        self.spec = spec
        self._part = None
        self.calls = {}

    def part(self):
        if self._part is None:
            g = make(self.spec)
            put(g, (np.zeros(3), np.eye(3), 0.0))
            p = g.build_part()
            self._part = (vertices(p), float(p.volume), len(p.faces()), len(p.edges()))
        return self._part

    def fault_point(self, what, tenth, rng, where):
        """a calling line (all of them equally likely within their tenth) and one of its calls"""
        key = (what, where.__name__)
        if key not in self.calls:
            g = make(self.spec)
            fn = {"build": g.build_part, "update": g.update_part, "wire": lambda: g.build_boundary_wire(0.4)}[what]
            self.calls[key] = counted(fn, where) or [[0]]
        sites = self.calls[key]
        site = sites[min(len(sites) - 1, int((tenth + rng.random()) / 10 * len(sites)))]
        return rng.choice([site[0], site[-1], rng.choice(site)])


def off_part(part, ref, pl):
    """distance of the part from the reference part moved to the placement, in units of its size; None when it fits"""
    V, vol, nf, ne = ref
    c, o, a = pl
    want = V @ (o @ rz(a)).T + c
    got = vertices(part)
    size = float(np.max(np.abs(V)))
    if len(got) != len(want):
        return "it has %d corners instead of %d" % (len(got), len(want))
    from scipy.spatial import cKDTree

    d1 = float(np.max(cKDTree(got).query(want)[0])) / size
    d2 = float(np.max(cKDTree(want).query(got)[0])) / size
    if not max(d1, d2) < 2e-6:
        return "its corners are off by %.3g times its size" % max(d1, d2)
    v = float(part.volume)
    if not abs(v - vol) < 1e-5 * vol:
        return "its volume is %.8g instead of %.8g" % (v, vol)
    return None


def wire_on(part, wire, size):
    """largest distance of points of the wire from the surface of the part"""
    import build123d as bd

    pts = [e @ t for e in list(wire.edges())[:14] for t in (0.0, 0.37)]
    shell = part.faces()
    comp = bd.Compound(children=[]) if False else None  # noqa
    d = 0.0
    for p in pts:
        v = bd.Vertex(p.X, p.Y, p.Z)
        d = max(d, min(v.distance_to(f) for f in shell) if len(shell) < 8 else v.distance_to(bd.Shell(shell)) if comp else near(v, part))
    return d / size


def near(v, part):
    from OCP.BRepExtrema import BRepExtrema_DistShapeShape
    from OCP.BRep import BRep_Builder
    from OCP.TopoDS import TopoDS_Compound

    key = id(part)
    if near.cache[0] != key:
        b, c = BRep_Builder(), TopoDS_Compound()
        b.MakeCompound(c)
        for f in part.faces():
            b.Add(c, f.wrapped)
        near.cache = (key, c, part)
    return BRepExtrema_DistShapeShape(v.wrapped, near.cache[1]).Value()


near.cache = (None, None, None)


def replay(item):
    rng = random.Random(item["seed"])
    specs = config(rng, item["kind"])
    refs = [Ref(s) for s in specs]
    home = []
    for s in specs:
        home.append((np.array(s[1]["center"]), np.eye(3), float(s[1]["angle"])))
    spots = {k: (np.array([rng.uniform(-20, 20) for _ in range(3)]), rand_rot(rng), rng.choice([rng.uniform(-6, 6), rng.uniform(-40, 40)])) for k in range(1, 8)}
    tilt = rand_rot(rng)
    ratios = {}
    bad, steps, count = [], 0, {}
    memo = {}
    nbuild = 0
    for hist in item["hists"]:
        gears = {1: make(specs[0]), 2: make(specs[1])}
        who = {1: 0, 2: 1}
        seen = {}
        now = {1: home[0], 2: home[1]}
        parts = []
        st, n = None, 0

        def say(msg):
            kw = {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in specs[who[st["i"]]][1].items()}
            bad.append("after %s: %s %s(%s): %s" % (" ".join(s["op"] + str(s["i"]) + (":%s" % s["arg"] if s["op"] in ("query", "fail") else "") for s in hist[:n]),
                                                   specs[who[st["i"]]][0].__name__, st["op"], kw, msg))

        def twin(slot, pl):
            """never asked before, at the same placement"""
            t = make(specs[who[slot]])
            put(t, pl)
            return t

        def check_place():
            for k, g in gears.items():
                if not same_place(place_of(g), now[k]):
                    say("placement of gear %d is %s instead of %s" % (k, place_of(g), now[k]))

        def question(slot, q, r):
            """the answer now against the one of a gear that was never asked"""
            j = 3 - slot if slot < 3 else 1
            key = (slot if slot < 3 else who[slot] + 10, q, r, now[slot][2], tuple(now[slot][0]), tuple(np.asarray(now[slot][1]).ravel()), tuple(now[j][0]) if q == "m_loa" else 0)
            if key not in memo:
                memo[key] = answer(twin(slot, now[slot]), q, r, twin(j, now[j]) if j in gears else None)
            got = answer(gears[slot], q, r, gears.get(j))
            d = worst(memo[key], got)
            if not d < 1e-7:
                say("%s at ratio %.3g of gear %d is %s, of a new gear %s" % (q, r, slot, str(got)[:150], str(memo[key])[:150]))

        for st in hist:
            n += 1
            op, i, arg = st["op"], st["i"], st["arg"]
            g = gears[i]
            before = {k: place_of(v) for k, v in gears.items()}
            if op == "query":
                question(i, arg, rng.choice([0, 0.3, 1]))
                count["questions"] = count.get("questions", 0) + 1
            elif op == "put":
                put(g, spots[arg])
                now[i] = spots[arg]
            elif op == "turn":
                g.angle = g.angle + 0.7
                now[i] = (now[i][0], now[i][1], now[i][2] + 0.7)
            elif op == "shift":
                g.center = np.asarray(g.center) + [1.5, -0.4, 2.0]
                now[i] = (now[i][0] + [1.5, -0.4, 2.0], now[i][1], now[i][2])
            elif op == "tilt":
                t = core_of(g).transform
                t.orientation = tilt @ np.asarray(t.orientation)
                now[i] = (now[i][0], tilt @ now[i][1], now[i][2])
            elif op == "mesh":
                o = gears[st["j"]]
                d = core_of(o).transform.orientation @ np.array([0.6, -0.8, 0.0])
                g.mesh_to(o, target_dir=d)
                now[i] = place_of(g)
            elif op == "reset":
                if hasattr(g, "reset_location"):
                    g.reset_location()
                else:
                    put(g, home[who[i]])
                now[i] = home[who[i]]
            elif op == "copy":
                gears[3] = g.copy()
                who[3], now[3] = who[i], now[i]
            elif op in ("build", "update"):
                p = g.build_part() if op == "build" else g.update_part()
                nbuild += 1
                msg = off_part(p, refs[who[i]].part(), now[i])
                if msg:
                    say("the part of gear %d is not where the gear is: %s" % (i, msg))
                elif item["wires"] and rng.random() < 0.35:
                    r = rng.choice([0, 1, 0.5, rng.random()])
                    d = wire_on(p, g.build_boundary_wire(r), float(g.module))
                    count["wires"] = count.get("wires", 0) + 1
                    if not d < item["wtol"]:
                        say("boundary wire at ratio %.3g of gear %d is %.3g modules away from its part" % (r, i, d))
                v = vertices(p)
                parts.append((p, v[:3].copy(), float(v.sum()), i))
            elif op == "fail":
                where, exc = rng.choice([(_from_library, Fault), (_from_library, Fault), (_own, KeyboardInterrupt)])
                k = refs[who[i]].fault_point(arg["what"], arg["tenth"], rng, where)
                fn = {"build": g.build_part, "update": g.update_part, "wire": lambda: g.build_boundary_wire(0.4)}[arg["what"]]
                hit = faulty(fn, k, where, exc)
                count["faults" if hit else "absorbed"] = count.get("faults" if hit else "absorbed", 0) + 1
                for q in item["probe"]:
                    question(i, q, 1)
            check_place()
            for p, v3, tot, slot in parts:
                v = vertices(p)
                if not (np.allclose(v[:3], v3, atol=1e-9) and abs(v.sum() - tot) < 1e-6):
                    say("a part of gear %d handed out before has moved" % slot)
            steps += 1
            if bad:
                return dict(bad=bad[:3], steps=steps, count=count)
    count[item["kind"]] = 1
    count["parts"] = nbuild
    return dict(bad=bad[:3], steps=steps, count=count)


def run(ctx, weights, L, num, per_kind, hists_per, wires, wtol=2e-3, probe=("m_core", "m_inputs", "z_height", "m_profile", "center_location_top"), qs=None):
    qs = qs if qs is not None else queries()
    wq, wm, wp, wf = weights
    inv, prop = ("InPlace",), ("Values", "Quiet", "Local")
    small = dict(Queries=set(qs[:1]))
    out = ctx.par([
        lambda: ctx.mc("Lifecycle", small, consts=dict(NP=1, MaxLen=ctx.pick(4, 5), WQuery=1, WMove=1, WPart=1, WFail=1), invariants=inv, properties=prop, view="View", label="Lifecycle exhaustive"),
        lambda: ctx.mc("Lifecycle", dict(Queries=set(qs)), consts=dict(NP=7, MaxLen=L, WQuery=wq, WMove=wm, WPart=wp, WFail=wf), spec=("Init", "SimNext"), invariants=inv, properties=prop,
                       action_constraint="EmitLast", simulate=num, depth=L + 1, label="Lifecycle simulation")])
    hs = ctx.one_per_prefix([h for h in out[1] if len(h) == L])
    items, k = [], 0
    for kind in KINDS:
        for _ in range(per_kind):
            sel = [hs[(k + j) % len(hs)] for j in range(hists_per)]
            k += hists_per
            items.append(dict(kind=kind, seed=ctx.rng.randrange(10**9), hists=sel, wires=wires, wtol=wtol, probe=list(probe)))
    ctx.replay(replay, items, label="gear life", timeout=600)
