#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from the table below.

A property is claimed in MANIFEST.json when harness/src/bin/<id>.rs exists."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
C = "src/curve/nurbs_curve.rs"
S = "src/surface/nurbs_surface.rs"
K = "src/knot/knot_vector.rs"

P = []


def p(id, title, statement, over, text, why, files, mech, note, tech="property-based testing", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, tech=tech, observe=observe))


p("C01", "Curve evaluation agrees with the NURBS definition",
  "For every valid curve (rational or not, clamped or not) and every parameter of its domain, the evaluated point equals the weighted B-spline combination of the control points; hence clamped curves start and end at their end control points, points stay within the bounds of the control polygon when weights are positive, and scaling all weights or re-parametrising the knots (including normalising them) leaves the traced points unchanged. Regular sampling returns the requested number of points, evenly spaced in parameter from one end of the range to the other, each the curve's point at the reported parameter.",
  ["inputs"], "all degrees, knot vectors (repeated interior knots, unclamped ends, any domain), positive weights and parameters inside the closed domain",
  "The tests evaluate a handful of fixed curves at a few parameters; the claim ranges over every curve and parameter.",
  [C, K], [("basis functions and span search", f"{K}: find_knot_span_index, basis_functions"), ("evaluation", f"{C}: point, point_at, dehomogenize"), ("sampling", f"{C}: sample_regular_range, sample_regular_range_with_parameter")],
  "reference: de Boor evaluation written independently of the library; metamorphic relations for weights, knots and convex hull")
p("C02", "Curve derivatives and tangents are the derivatives of the evaluated curve",
  "At every parameter of the domain, the first and second derivatives, the tangent and the derivative lists of any order reported for a curve equal the true derivatives of the rational curve (at a knot the derivative of the piece to its right, at the domain's end of the piece to its left), with derivatives of non-rational curves above the degree being zero.",
  ["inputs"], "all curves as in C01, derivative orders 0 to degree + 2, parameters including knots and domain ends",
  "The tests check derivatives of single curves at isolated parameters; rational quotients of higher order and repeated knots are untested.",
  [C, K], [("basis function derivatives", f"{K}: derivative_basis_functions"), ("quotient rule", f"{C}: derivatives, rational_derivatives, tangent_at, second_derivative_at")],
  "reference: derivatives by differencing control polygons and the quotient rule; difference quotients of the library's own points as a second oracle")
p("C03", "Knot vectors: spans, basis functions and multiset operations",
  "For every knot vector and parameter of its domain the reported span contains the parameter and is not empty, and the basis functions (and their derivatives) are non-negative, sum to one (derivatives to zero) and equal the Cox-de Boor functions. Adding a knot keeps the vector sorted and adds exactly one copy; multiplicities, clampedness, domain, constraining, normalising, inverting and uniform or clamped construction agree with the plain list of knots.",
  ["inputs", "histories"], "all non-decreasing knot vectors of degree 1-6 with interior multiplicity at most the degree, and sequences of operations on them",
  "Unit tests cover two or three fixed knot vectors.",
  ["src/knot/knot_vector.rs", "src/knot/knot_multiplicity.rs"], [("span search and basis", f"{K}: find_knot_span_index, basis_functions, derivative_basis_functions"), ("multiset operations", f"{K}: add, multiplicity, clamped, is_clamped, domain, constrain, normalize, invert, uniform")],
  "reference: Cox-de Boor recursion and a sorted list as model of the multiset")
p("C04", "Knot insertion and clamping do not change the curve",
  "Inserting any admissible knots into a curve, one at a time or in bulk and in any order, adds exactly those knots and as many control points and leaves every point of the curve unchanged; clamping a curve gives a clamped curve that runs through the same points at the same parameters.",
  ["inputs", "histories"], "rational and non-rational, clamped and unclamped curves; sequences of knots inside the domain (new or existing) up to multiplicity = degree; knots outside the knot vector are refused",
  "Tests insert one or two fixed knots into fixed curves with unit weights.",
  [C], [("Oslo style refinement", f"{C}: try_refine_knot"), ("Boehm insertion", f"{C}: try_add_knot"), ("clamping", f"{C}: try_clamp")],
  "reference: points of the original curve by de Boor; knot list model")
p("C05", "Knot removal keeps the curve within its tolerance",
  "Removing a knot that an insertion made redundant succeeds and leaves every point unchanged; whenever removal reports copies removed from a non-rational curve, exactly that many knots and control points disappear and no point of the curve moves by more than the tolerance times the copies removed. Asking for a knot that is not there is refused or leaves the curve as it was.",
  ["inputs", "histories"], "rational and non-rational curves for redundant knots; non-rational curves with redundant, perturbed and genuine knots and tolerances from 1e-6 to 2",
  "Tests remove one redundant knot from one curve.",
  [C], [("knot removal", f"{C}: try_remove_knot")],
  "reference: insertion written independently, deviation measured by dense de Boor sampling")
p("C06", "Degree elevation preserves the curve",
  "Elevating the degree of a curve, clamped or not, to any higher degree gives a clamped curve of exactly that degree with the same domain and the same points, whose knots have every multiplicity raised accordingly; a target that is not higher changes nothing.",
  ["inputs"], "clamped and unclamped, rational and non-rational curves of degree 1-4, any interior multiplicities up to the degree, targets up to degree + 3",
  "Tests elevate two fixed curves by one or two degrees.",
  [C], [("degree elevation", f"{C}: try_elevate_degree")],
  "reference: points of the original by de Boor; exact knot multiplicities")
p("C07", "Splitting and trimming return pieces of the same curve",
  "Splitting a curve at a parameter strictly inside its domain gives two curves whose domains meet exactly there and which together trace the original, parameter by parameter; trimming to a range gives the piece inside (or the pieces outside) of the range with the original points at the original parameters. For a compound curve the trimmed spans cover exactly the requested range, without empty or duplicated spans; parameters outside the domain are refused.",
  ["inputs"], "curves and chains of 1-4 spans, parameters at knots, joints, ends and in between, ranges in either order",
  "Tests split a few fixed curves mid-domain and never compare the pieces with the original at interior knots or joints.",
  ["src/split/mod.rs", "src/trim/mod.rs", "src/region/compound_curve.rs", C], [("split", "src/split/mod.rs: Split for NurbsCurve"), ("trim", "src/trim/mod.rs: Trim for NurbsCurve and CompoundCurve")],
  "reference: points of the original by de Boor")
p("C08", "Bezier decomposition covers the curve exactly",
  "Decomposing a curve gives one Bezier piece per non-empty knot span, in order, each with no interior knots, whose domains tile the curve's domain and which agree with the curve at every parameter.",
  ["inputs"], "curves of degree 1-5 with repeated interior knots; for unclamped curves the pieces on the domain",
  "Tests decompose one or two fixed curves.",
  [C], [("decomposition", f"{C}: try_decompose_bezier_segments")],
  "reference: points of the original by de Boor; span list")
p("C09", "Reversing keeps the geometry and swaps direction",
  "The reverse of a curve or compound curve has the same domain for clamped input and traces the same points in the opposite direction; flipping a surface in either or both directions maps parameters by reflection of the flipped direction only, reversing a trimmed surface keeps every trimmed boundary at the same place in space, and reversing twice restores the original.",
  ["inputs"], "curves, compound curves, regions, surfaces and trimmed surfaces",
  "Tests flip single examples and compare few points.",
  ["src/misc/invertible.rs", C, S, "src/region/compound_curve.rs", "src/region/mod.rs", "src/surface/trimmed_surface.rs"], [("Invertible", "src/misc/invertible.rs and implementations in curve, surface, compound, region"), ("flip", f"{S}: flip")],
  "reference: points of the original at the reflected parameter")
p("C10", "Affine transforms commute with evaluation",
  "Transforming a curve, surface, compound curve, region or trimmed surface by any invertible affine map and then evaluating gives exactly the transform of the original points at every parameter; knots, degrees, weights and, for trimmed surfaces, the trimming in parameter space do not change.",
  ["inputs"], "all transformable shapes, rational or not; translations, rotations, similarities, anisotropic scalings, reflections",
  "Tests translate or rotate single examples, mostly with unit weights.",
  ["src/misc/transformable.rs", C, S, "src/region/compound_curve.rs", "src/region/mod.rs", "src/surface/trimmed_surface.rs"], [("Transformable", "src/misc/transformable.rs and implementations")],
  "reference: the affine map applied to de Boor points")
p("C11", "Interpolated curves and polylines pass through their points",
  "A curve interpolated through points passes through every one of them in order, starts at the first and ends at the last, is clamped and has the requested degree; a polyline passes through its points in order with straight segments in between, at parameters given by chord length (or normalised to the unit interval). Too few points for the degree are refused with an error.",
  ["inputs"], "random point sequences in 2D and 3D, degrees 1-5, closed and open, up to 14 points",
  "Tests interpolate a few fixed points with degree 3.",
  [C], [("interpolation", f"{C}: try_interpolate, try_interpolate_control_points"), ("polyline", f"{C}: polyline")],
  "oracle: nearest points in order along the curve; chord length parameters")
p("C12", "Periodic curves close smoothly",
  "A periodic curve built from control points, and a periodic curve interpolated through points, starts and ends at the same point with the same derivatives up to one less than the degree; the interpolated one passes through all the points in cyclic order for every knot style, or is refused where the problem has no solution.",
  ["inputs", "configurations"], "random loops in 2D/3D, degrees 1-5, centripetal, chordal and uniform knots (even degree with an even number of points may be refused)",
  "Tests check end points of one triangle and one loop.",
  [C], [("periodic", f"{C}: try_periodic, try_periodic_interpolate, try_periodic_interpolate_control_points")],
  "oracle: derivatives at both ends by reference evaluation; passing points")
p("C13", "Circles, ellipses and arcs are exact",
  "Every point of a circle, ellipse or arc lies exactly on that conic (in the plane of the given axes), the curve starts and ends at the requested angles, covers exactly the requested sweep, monotonically in angle, and closes for a full turn.",
  ["inputs"], "random centres, orthogonal axes in 2D/3D, radii, start angles and sweeps up to a full turn, also next to whole quarter turns",
  "Tests evaluate a unit circle and a few arcs at fixed angles.",
  [C], [("arcs", f"{C}: try_circle, try_ellipse, try_arc, try_ellipse_arc")],
  "oracle: implicit equation of the conic and angles")
p("C14", "Arc length, parameters at lengths and divisions are consistent",
  "The reported length of a curve is its arc length over its domain (additive under splitting, unchanged by reversal and rigid motion, scaling with the curve); the parameter reported for a length lies in the domain at that arc length within the tolerance, and lengths beyond the end are refused. Dividing by a length or a count gives parameters in increasing order from the start, spaced by exactly the step in arc length and, for a count n, n+1 of them ending at the end.",
  ["inputs"], "clamped and unclamped, rational and non-rational curves; sizes from 1e-5 to 1e5, lengths from zero to beyond the end, steps, counts 1-20, tolerances down to zero",
  "Tests measure circles, lines and one or two curves.",
  [C, "src/curve/curve_length_parameter.rs"], [("quadrature", f"{C}: try_length, compute_bezier_segment_length"), ("inverse", f"{C}: try_parameter_at_length, try_divide_by_length, try_divide_by_count")],
  "reference: composite Gauss quadrature of the reference derivative")
p("C31", "Compound curves join connected spans in order",
  "Building a compound curve from spans that form one connected chain, given in any order and direction, keeps every span, orders and orients them so that each starts where the previous ends, and lays their parameters end to end; it is closed exactly when the chain's ends meet. The pieces of a curve put together in order give the curve again, at the same parameters counted from 0.",
  ["inputs"], "chains of 2-6 clamped curves in 2D/3D, shuffled and partly reversed, open and closed; open and closed curves cut into 2-4 pieces",
  "Tests join two or three spans in fixed orders.",
  ["src/region/compound_curve.rs"], [("joining", "src/region/compound_curve.rs: CompoundCurve::new, is_closed")],
  "oracle: the generated chain itself")

exec(open(os.path.join(HERE, "props2.py")).read()) if os.path.exists(os.path.join(HERE, "props2.py")) else None

P.sort(key=lambda q: q["id"])
NA = {}
if os.path.exists(os.path.join(HERE, "na.json")):
    NA = json.load(open(os.path.join(HERE, "na.json")))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        d = dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                 anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]]))
        if q["observe"]:
            d["anchors"]["observe_at"] = q["observe"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for q in P:
    if os.path.exists(os.path.join(ROOT, "harness/src/bin", q["id"].lower() + ".rs")):
        checks.append(dict(property=q["id"], quick_cmd=f"./run.sh {q['id']}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {q['id']}",
                           technique=q["tech"], level="exploration", level_note=q["note"]))
    else:
        na.append(dict(property=q["id"], reason=NA.get(q["id"], "check not built yet")))
m = dict(version=1, setup_cmd="./run.sh --setup", checks=checks, not_applicable=na,
         notes="Property-based testing with generated inputs, shrinking and replay: harness/src/engine.rs; replay a failure with './run.sh <id> --replay <file>'. Known findings: known_findings.jsonl.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
