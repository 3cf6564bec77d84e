"""Source of /verif/properties.jsonl:  python3 tools/properties_src.py"""
import json, os

W = "src/gggears/gggears_wrapper.py"
C = "src/gggears/gggears_core.py"
B = "src/gggears/gggears_base_classes.py"
M = "src/gggears/gearmath.py"
T = "src/gggears/gearteeth.py"
V = "src/gggears/curve.py"
F = "src/gggears/function_generators.py"
N = "src/gggears/gggears_convert.py"
D = "src/gggears/gggears_build123d.py"

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                state=[dict(name=n, meaning=m) for n, m in state],
                observe_at=observe,
                hook_needed=None,
            ),
        )
    )


p("P01", "Meshed parallel-axis gears get the right centre distance, direction and axis",
  "Meshing a cylindrical gear (spur, profile-shifted, internal ring, cycloid, same-helix helical) to another one makes their axes parallel, puts its centre in the requested direction of the other gear's centre (an involute ring meshed to a pinion goes to the opposite side, so that the teeth touch in the requested direction) and leaves the other gear exactly where it was. Without backlash the centre distance is the one at which the flanks just touch: sum of the pitch radii for unshifted external pairs, their difference for ring pairs, the tight-mesh involute distance for profile-shifted pairs. A requested backlash changes the distance so that exactly that backlash appears along the line of action.",
  ["inputs", "histories", "configurations"],
  "every pair of tooth numbers, module, profile shift, pressure angle, backlash, gear kind, base placement, direction, and every earlier history of placements",
  "Tests mesh a few pairs whose base gear sits at the origin unrotated; they cannot cover all placements, kinds and mesh sequences.",
  [W, M, C], [("mesh_to", W), ("calc_involute_mesh_distance", M), ("calc_nominal_mesh_distance", M)],
  ["gear centre, axis and angle after mesh_to"],
  [("gear placement", "centre, orientation, angle of every gear")])

p("P02", "After meshing, a tooth of one gear always faces a gap of the other",
  "After a mesh call, on the line of centres a tooth of one gear points exactly into the middle of a tooth gap of the other (for ring pairs: the pinion tooth into the ring's gap), whatever angle, position or orientation both gears had before. This holds in every link of a gear train in whatever order and direction the links are made, and survives moving and turning the base gear before the call.",
  ["inputs", "histories"],
  "all tooth numbers, base angles, base orientations, directions, and all sequences of mesh/move/turn/reset/copy calls over several gears",
  "Tests look at single pairs with fixed angle; the phase depends on the whole placement history of both gears.",
  [M, W, C], [("calc_mesh_angle", M), ("mesh_to", W)],
  ["gear angle/orientation, tooth directions of the transformed profile"],
  [("gear placement", "centre, orientation, angle of every gear")])

p("P03", "Meshed tooth profiles roll without overlapping and with the asked backlash",
  "Rotating a meshed involute or cycloid pair in the inverse ratio of the tooth counts never makes the tooth profiles overlap, and in a zero-backlash mesh opposite flanks stay in contact at every angle. With backlash b, the free play along the line of action between the profiles is b in total, split evenly for bias 0, and bias +1 or -1 turns the gear until the flanks on the corresponding side touch. (Internal pairs of nearly equal tooth numbers, whose tips would foul one another, are outside the claim.)",
  ["inputs", "configurations"],
  "all rotation angles, tooth numbers, profile shifts, pressure angles, modules, backlash and bias values, external and internal pairs, undercut and plain teeth in their valid range",
  "No test measures the distance of two transformed profiles; contact has to hold at every rotation angle.",
  [W, T, C, M], [("flank generation", T), ("mesh_to", W), ("profile generation", C)],
  ["distance of the transformed boundary curves of both gears"])

p("P04", "Meshed bevel gears share their apex, include the right axis angle and mesh",
  "Meshing bevel gears with equal module brings both pitch cones to a common apex with a shaft angle equal to the sum of the half cone angles (difference when one is a ring), in the requested direction around the base gear, for any base placement. The pitch cones touch along one generator on which a tooth of one gear faces a gap of the other, and the base gear is not moved.",
  ["inputs", "histories"],
  "all tooth-number pairs and cone angles with half angles below 90 degrees, base placements, directions, and mesh histories",
  "Tests build a handful of 90 degree pairs at the origin.",
  [M, W, C], [("calc_bevel_gear_placement_vector", M), ("calc_mesh_orientation", M), ("calc_mesh_angle", M), ("mesh_to", W)],
  ["centre, orientation, spherical centre and angle after mesh_to"])

p("P05", "Helix angles decide the shaft angle of helical, ring and crossed meshes",
  "Meshing two helical gears tilts the axes by the sum of their signed helix angles (difference when one of them is a ring), about the requested direction, so that opposite helices on external pairs and equal helices on ring pairs stay parallel. The centre distance is the sum (difference) of the pitch radii measured in the transverse plane, a tooth faces a gap at the pitch point and the base gear stays where it was.",
  ["inputs", "configurations"],
  "all signed helix angles, tooth numbers, modules, profile shifts, herringbone or not, base placements and directions",
  "Tests check few helix angles with parallel axes only.",
  [W], [("helical mesh", W)],
  ["placement after mesh_to; tangent of the tooth trace at the pitch point"])

p("P06", "Gears are isolated and their placement is exactly what the last calls set",
  "Every operation changes only the gear it is called on: two gears, a gear and its copy, a gear and the arrays the caller passed in, and the library's direction constants never influence one another later. The placement of a gear is determined by the calls made on it: setting centre or angle stores exactly that, resetting restores the constructed centre and angle with the default orientation, copying reproduces it, meshing never changes the gear meshed to.",
  ["histories"],
  "all sequences of create, set, in-place edit, mesh, reset and copy calls over several gears of all kinds",
  "Aliasing only shows after particular sequences of calls on several objects.",
  [W, B, M, V], [("placement state", B), ("copy / reset_location / mesh_to", W)],
  ["centre, orientation, angle of all gears and the direction constants after every call"],
  [("gear placement", "centre, orientation, angle of every gear")])

p("P07", "Asking a gear anything never changes it, and gives the same answer again",
  "Reading any dimension, location, profile, boundary, wire or part of a gear, rack or line of action leaves its placement, parameters, height range and every other answer unchanged. Repeating a query gives the same geometry, in any order of queries and no matter what was asked in between.",
  ["histories"],
  "all sequences of queries and builds on every gear kind at any placement",
  "Needs arbitrary interleavings of queries; tests query each object once.",
  [W, C, D, B], [("properties and builders", W), ("boundary generation", D), ("recipe evaluation", B)],
  ["state projection and geometric fingerprints before and after every query"])

p("P08", "The returned part always sits exactly where the gear is",
  "The part returned by building, or by updating after any sequence of moves, turns, meshes and resets, equals the same gear built fresh at its current placement: same volume, same position, tooth position and orientation, scaled by the module exactly once. Boundary wires and profile curves of the gear lie on that part.",
  ["histories", "inputs"],
  "all placement histories before, between and after build/update calls, for all gear kinds",
  "Tests build once after meshing and only check validity.",
  [W, D], [("build_part / update_part", W), ("apply_transform_part, transform2Location", D)],
  ["volume, centre, bounding box, inertia and boundary points of parts and wires"],
  [("cached part", "geometry of the last build and the placement it was built with")])

p("P09", "A build that fails or is interrupted leaves the gear usable and unchanged",
  "If building a part, updating it or making a wire is interrupted by an error raised by the CAD kernel or a numerical solver, or by the user's keyboard interrupt, at any point inside it, the gear's placement, dimensions, height range and inputs are what they were before. A later build of the same gear then succeeds and gives the same geometry as if nothing had happened.",
  ["fault_sequences", "crash_points"],
  "an error injected at every (sampled) call made during a build, for all gear kinds",
  "No test injects failures.",
  [D, N, W], [("builders", D), ("NURBS conversion", N)],
  ["state projection after the failed call; geometry of a following build"])

p("P10", "Placement transforms form a group and agree with the CAD locations",
  "Composing two placements and applying the result to points equals applying them one after the other, inverting a placement undoes it from both sides, and the identity changes nothing, for plain and for gear placements with any scale, angle, orientation and centre, for single points and arrays of points. The exported CAD location and the affine matrix of a placement move points the same way as the placement itself (scale apart for the location).",
  ["inputs", "histories"],
  "all products and inverses of placements with any orientation, angle, positive scale and centre",
  "Tests do not multiply scaled or rotated placements.",
  [B, D], [("product / inverse / apply", B), ("transform2Location", D)],
  ["images of points; centre, orientation, scale, angle of results"])

p("P11", "Reported gear dimensions follow from the inputs for every gear kind",
  "Pitch, tip, root, outside and base radii, angular pitch, tooth count, cone angles and helix-dependent transverse values reported by a gear equal the textbook formulas of its inputs (module, teeth, addendum and dedendum coefficients, profile shift, helix and cone angle, ring or not), scale linearly with the module and do not depend on the placement. A negative tooth count means an internal ring gear, a fractional one a partial gear with the integer number of teeth below it and unchanged pitch.",
  ["inputs", "configurations"],
  "all gear kinds and all admissible parameter values, at any placement",
  "Tests sample a few parameter sets and check mostly validity.",
  [W, B, C], [("dimension properties", W), ("tooth parameter normalisation", B), ("reference circles", C)],
  ["reported radii, angles, counts"])

p("P12", "Gear outlines are closed, N-fold symmetric, mirror-symmetric and as thick as set",
  "The generated outline of every gear section is one continuous curve built of identical teeth repeated at the angular pitch, closed for full gears, each tooth mirror-symmetric about its centre line, staying between root and tip radius and reaching both. The tooth thickness on the pitch circle is half the pitch, changed by profile shift, backlash and crowning by their textbook amounts, with the tooth (for rings: the tooth space) of index zero at the gear's angle; root and tip fillets and tip truncation keep the outline continuous within those radii.",
  ["inputs", "configurations"],
  "all gear kinds, tooth numbers, profile shifts, backlash, fillets, tip truncation, undercut setting, pressure angles, cone angles and section heights",
  "Symmetry and closure have to hold at every point of the outline for every parameter combination.",
  [C, T, W], [("profile trimming and extension", C), ("tooth generation", T)],
  ["points of the profile and boundary curves at any section"])

p("P13", "Sections along the axis follow height, anchor, helix, crowning and cone",
  "The gear occupies exactly its height along its axis, placed by the anchor ratio, and bottom, middle and top locations and points sit at the corresponding sections. Along the axis the teeth turn linearly with the helix (mirrored about mid-height for herringbone), thin symmetrically by the crowning amount at both ends, and shrink linearly towards the apex for bevel gears; ratio 0 is always the bottom and 1 the top, for any module, anchor and number of stages.",
  ["inputs", "configurations"],
  "all heights, anchors, modules, helix angles, crownings, cone angles, herringbone and multi-stage gears, at any section and any placement",
  "Tests do not look at intermediate sections nor at anchors other than the default.",
  [W, C], [("section recipes", W), ("locations", W)],
  ["locations, section centre, angle, scale and thickness at any ratio"])

p("P14", "Trimming, reversing and cutting a curve keeps its points and its length",
  "Any sequence of reversals, end trims, extensions and cuts of a line, arc, involute or other curve yields exactly the corresponding part of the original curve, run through in the right direction, with parameter 0 and 1 on its ends and the parameter proportional to arc length. Its reported length is the non-negative length of that part, and cutting gives two pieces that join at the cut and add up to the whole.",
  ["histories", "inputs"],
  "all sequences of reverse, set-start, set-end, set-both, cut and copy with any parameters on every curve type",
  "Tests trim once; defects appear after sequences such as reverse then trim.",
  [V], [("parameter lookup, reverse, trim, cut", V)],
  ["curve points, end points and length after every step"],
  [("trimmed interval", "start and end of the remaining part on the original curve, with direction")])

p("P15", "A chain of curves behaves as one continuous curve under every edit",
  "A chain evaluates as the concatenation of its active members with the parameter proportional to arc length; its length is the sum of theirs, and reversing, trimming both ends, cutting, appending, inserting, deleting, replacing, removing and deactivating members act as on that concatenation and as on a list. Trimmed-away members contribute nothing, point and member lookups agree with each other, and the chain reports itself continuous or closed exactly when its members join up.",
  ["histories", "inputs"],
  "all edit histories on chains with any number of members, inactive members included",
  "Needs long edit sequences on chains; tests try single calls.",
  [V], [("CurveChain", V)],
  ["points, length, member list and lookups after every step"],
  [("member list", "ordered members with interval, direction and activity")])

p("P16", "NURBS conversion reproduces the curve and keeps bookkeeping consistent",
  "Converting lines, arcs of less than half a turn and chains of them to NURBS is exact, converting other curves stays within a small fraction of their size with exact end points; the conversion respects trimming, reversal and activity and never changes its input. Control points, weights and knots of a spline chain always match its pieces, and rebuilding from them, transforming, reversing or enforcing continuity give the corresponding curve.",
  ["inputs", "histories"],
  "all curve types, trims and reversals, and all sequences of spline chain operations",
  "Tests convert a few untrimmed curves.",
  [V, F], [("convert_curve_nurbezier", V), ("NurbCurve / NURBSCurve", V), ("rational Bezier evaluation", F)],
  ["points on converted curves, control points, knots"])

p("P17", "Curve arithmetic, derivatives, transforms and copies mean what they say",
  "Sums, differences, scalar multiples and quotients of curves, mirrored, rotated and transformed curves evaluate to the corresponding operation on the points, over the same trimmed range, and are active when their operands are. Derivatives of any order agree with the curve's motion, lines and arcs pass through the data they are constructed from, and copies never follow later changes of the original or the other way round.",
  ["inputs", "histories"],
  "all curve types, trims, reversals, scalars, planes, axes and orders",
  "Tests cover a couple of combinations on untrimmed curves.",
  [V, F], [("curve operators and derivative", V), ("TransformedCurve and arc constructors", V)],
  ["curve points before and after"])

p("P18", "Built parts are single valid solids with the volume and extent of the gear",
  "Building a part gives exactly one valid, watertight solid for every admissible parameter set. Its volume equals that of its sections integrated along the height, its tip and root radii and axial extent are the reported ones, and it has the tooth count's rotational symmetry; ring gears are bounded by their outside radius.",
  ["inputs", "configurations"],
  "all gear kinds and admissible parameters: helix, herringbone, crowning, cone, ring, fillet, undercut, module, anchor",
  "Tests check validity and a coarse volume for some sets; not symmetry, extent or sections.",
  [D, N, W], [("GearBuilder", D), ("surface fitting", N)],
  ["validity, volume, bounding box, symmetry and section points of the part"])

p("P19", "Racks have the right pitch and height and mesh with gears of the same module",
  "A rack part has the requested number of teeth at a pitch of pi times module, flanks at the pressure angle, tip and root lines at addendum and dedendum, and the requested width, for helical racks sheared by the helix angle. Meshed to a gear it lies tangent to the gear's pitch circle in the requested direction, shifted outwards by the profile shift, parallel to the gear's plane, with a rack tooth facing a gear gap for any gear angle, placement and whole tooth offset, without moving the gear. A rack keeps its own placement: neither the arrays handed to it, nor other racks, nor the library's constants follow or move it.",
  ["inputs", "histories"],
  "all modules, tooth counts, pressure angles, coefficients, helix angles, gear placements, angles, directions and offsets",
  "Tests build one or two racks and do not look at where they are.",
  [W], [("InvoluteRack.mesh_to / build_part", W)],
  ["rack placement and geometry of the rack part"])

p("P20", "Adapting cycloid gears makes their rolling circles match",
  "After adapting one cycloid gear to another, the rolling circle that forms the tip of each equals the one that forms the root of the other, for external and ring pairs, while tooth count, module, placement and the other inputs of both stay as they were. Adapting is idempotent, discards outdated parts, and the adapted pair meshes without overlap (internal pairs: when the two rolling circles fit between the pitch circles).",
  ["inputs", "histories"],
  "all tooth number pairs, modules, coefficients, ring or not, placements and sequences of adapt, mesh and build",
  "Tests adapt one pair.",
  [W, T], [("adapt_cycloid_radii", W), ("CycloidTooth", T)],
  ["coefficients, placement and profiles after adapting"])

p("P21", "The line of action is tangent to both base circles through the pitch point",
  "For any meshed involute pair with parallel axes, at any placement, the two lines of action touch both base circles, cross the line of centres at the pitch point (dividing it in the ratio of the tooth counts) and mirror one another about it. All contact points of the rolling flanks lie on them.",
  ["inputs", "configurations"],
  "all tooth numbers, profile shifts, pressure angles, backlash, ring or external, placements",
  "Tests do not check the geometry of the line.",
  [W], [("LineOfAction", W)],
  ["end points of the lines relative to both gears"])

p("P22", "Mesh arithmetic helpers are consistent with each other and with the gears",
  "The tight-mesh distance grows monotonically with backlash for external pairs and is exactly inverted by the backlash-from-distance function; swapping the two gears gives the same distance up to sign. Cone angles from tooth numbers split the axis angle so that sines are in the ratio of tooth numbers for any axis angle, and nominal distances match the pitch radii.",
  ["inputs"],
  "all radii, tooth numbers, base angles, backlash values, axis angles, ring or not",
  "Tests evaluate single values.",
  [M], [("calc_involute_mesh_distance, backlash_from_ax_distance, cone_angle_from_teeth, calc_nominal_mesh_distance", M)],
  ["function results"])

p("P23", "Coordinate conversions are inverse to each other and keep their meaning",
  "Spherical and cylindrical coordinates convert to Cartesian ones and back without loss for every point off the axis and every centre, for single points and lists of points. The cone-surface coordinates used for gears (out, angle, height) do so too: out is arc length on the sphere around the apex, angle turns around the axis, height points to the apex and is zero on the pitch circle; for cone angle zero they are cylindrical coordinates. Arguments are not changed.",
  ["inputs"],
  "all points off the axis, centres, signed cone angles and radii, single points and arrays",
  "Tests check few points.",
  [F, C], [("coordinate functions", F), ("GearPolarTransform", C)],
  ["function results"])

p("P24", "Intersections, nearest points, tangent arcs and fillets satisfy their definition",
  "Found intersections of curves, and of curves with planes and lines, lie on both operands, nearest points are where the distance is smallest, and success is reported only when that is true. The index of a closed curve counts its turns around a point. A filleted corner replaces exactly the corner by an arc of the given radius that joins both remaining pieces tangentially, leaves the rest of the chain unchanged and keeps it continuous.",
  ["inputs"],
  "all transversal pairs of lines, arcs and chains in any orientation, and all fillet radii that fit",
  "Tests try a few configurations.",
  [V], [("find_curve_intersect, find_curve_plane_intersect, find_curve_nearest_point, calc_tangent_arc, fillet", V)],
  ["returned parameters, points and chains"])

p("P25", "Tooth flanks and their generators are true involutes, cycloids and octoids",
  "Circle and sphere involutes unroll from their base circle without slip (distance to the tangent point equals the unrolled arc, tangent perpendicular to it), cycloids are traced by a point of a circle rolling on their base, in the plane and on the sphere, and octoids are conjugate to a flat crown gear. Every generated gear flank is such a curve crossing the pitch circle at the pressure angle (involute, octoid) or tangent to the radius (cycloid).",
  ["inputs"],
  "all base radii, sphere curvatures, rolling radii, start angles, offsets and parameter values; all flanks of all gear kinds",
  "Has to hold at every point of the curve for every parameter.",
  [F, T, V], [("involute_circle, involute_sphere, cycloid_circle, cycloid_cone, octoid", F), ("tooth generators", T)],
  ["points and tangents of curves and flanks"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for r in P:
            assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
            f.write(json.dumps(r) + "\n")
    print(len(P))
