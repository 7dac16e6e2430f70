CC = "src/closest_parameter/curve_closest_parameter_newton.rs"
p("C15", "Closest points on curves",
  "The closest parameter reported for a curve lies in its domain, the closest point is the curve's point there, and it is never farther away than the curve's ends or its points at knots. For polylines, circles and gently curved curves it is the true nearest point for queries on or near the curve, on either side of the seam of a closed one; for a compound curve it is never farther than the closest point of any of its spans.",
  ["inputs"], "wild curves and chains with queries on, near and far; polylines of up to 14 points; circles and gentle curves with known nearest points",
  "Tests query one curve at a handful of places.",
  [C, CC, "src/region/compound_curve.rs"], [("search", f"{C}: find_closest_parameter, find_closest_point"), ("Newton iteration", f"{CC}: next_iter"), ("compound", "src/region/compound_curve.rs: find_closest_point")],
  "reference: segment projection, angles on the circle, golden-section search on de Boor points")
p("C16", "Bounding boxes contain their shapes and trees lose nothing",
  "The bounding box of a curve, surface, compound curve or point set contains every point of it and is the tightest box around the control points; boxes intersect exactly when they are not separated along an axis. Dividing a bounding box tree gives parts that tile the domain with the same points, and traversing two trees keeps every pair of parts that share a point.",
  ["inputs", "histories"], "random boxes and points, all curve and surface families with positive weights, random sequences of divisions",
  "Tests check one or two boxes.",
  ["src/bounding_box/mod.rs", "src/bounding_box/bounding_box_traversal.rs", "src/bounding_box/curve_bounding_box_tree.rs", "src/bounding_box/surface_bounding_box_tree.rs"],
  [("boxes", "src/bounding_box/mod.rs: new, new_with_points, intersects, contains, From impls"), ("trees", "src/bounding_box/*_tree.rs: try_divide, is_dividable"), ("traversal", "src/bounding_box/bounding_box_traversal.rs: try_traverse")],
  "reference: coordinate-wise min/max, de Boor points, constructed common points")
p("C17", "Curve-curve intersections are sound and find every clear crossing",
  "Every intersection reported for two curves or compound curves has both parameters inside the domains, both points on their curves there and no farther apart than the minimum distance. Curves that cross transversally at places well apart are reported to cross exactly there, once each, in either argument order, also for axis-parallel lines, at the seam of a closed curve, at the joints and ends of compound curves and for curves on short domains.",
  ["inputs", "schedules"], "2D and 3D curves with uniform knots and moderate weights, on domains down to a fiftieth of unit spacing; the trees' random splits are driven by the seed",
  "Tests intersect about ten fixed pairs, and the trees split at random places, so each run samples one of many search trees.",
  ["src/intersects/curve_curve/intersection_curve_curve.rs", "src/intersects/curve_curve/intersection_compound_curve.rs", "src/intersects/curve_curve/curve_intersection_bfgs.rs", "src/intersects/curve_curve/curve_intersection_problem.rs", "src/bounding_box/bounding_box_traversal.rs"],
  [("search", "src/intersects/curve_curve/intersection_curve_curve.rs: find_intersections"), ("joints", "src/intersects/curve_curve/intersection_compound_curve.rs"), ("solver", "src/intersects/curve_curve/curve_intersection_bfgs.rs: next_iter, terminate")],
  "oracle: bisection on de Boor points along graphs and lines; constructed meeting points")
p("C18", "Surface-curve intersections are sound and find every clear crossing",
  "Every intersection reported for a surface and a curve has parameters inside both domains, points on the surface and on the curve there, no farther apart than the minimum distance. A line or curve, also one on a short domain, that pierces a surface clearly and at places well apart is reported to meet it exactly there, also across the seam of a closed surface, at the border of an open one and where the curve ends on the surface.",
  ["inputs", "schedules"], "height fields, spheres and wild surfaces against lines and curves, also through the seam and the border and ending on the surface; the trees' random splits are driven by the seed",
  "Tests intersect two or three fixed pairs.",
  ["src/intersects/surface_curve/intersection_surface_curve.rs", "src/intersects/surface_curve/surface_curve_intersection_bfgs.rs", "src/intersects/surface_curve/surface_curve_intersection_problem.rs", "src/bounding_box/surface_bounding_box_tree.rs"],
  [("search", "src/intersects/surface_curve/intersection_surface_curve.rs: find_intersections"), ("solver", "src/intersects/surface_curve/surface_curve_intersection_bfgs.rs")],
  "oracle: bisection of the height difference, the sphere's equation, reference evaluation")
p("C19", "Point containment in closed curves is the even-odd rule",
  "A point off the boundary is contained in a closed curve or closed compound curve exactly when a ray from it crosses the outline an odd number of times - whatever the curve's shape, parametrisation, span order or direction, also when the point is level with vertices, horizontal edges or joints or close to the boundary. Points of the boundary of circles and polygons are contained; an open curve is refused.",
  ["inputs"], "closed curves crossing themselves or not, star shapes, circles of 1-4 arcs, grid polygons, shuffled chains; points anywhere, level with notable points, and within 3e-4 of the boundary or on it",
  "Tests ask about a few points of a circle, a rectangle and two other shapes.",
  ["src/contains/contains_curve.rs", "src/contains/contains_compound_curve.rs"], [("ray casting", "src/contains/contains_curve.rs: contains, x_ray_intersection"), ("compound", "src/contains/contains_compound_curve.rs: contains")],
  "oracle: parity of a dense polygon of de Boor points, accepted only when its deviation is a quarter of the distance to the boundary")
B = "src/boolean"
p("C20", "Boolean operations are the set operations",
  "The union, intersection and difference of two closed curves, compound curves or regions cover exactly the points that the set operation of their insides gives: every point clear of the outlines is in exactly one region of the result (inside its exterior and outside its interiors) when it should be, and in none otherwise - for curves that cross at angles of 2 degrees and more, touch, are nested or lie apart, for gaps enclosed by a union, and for regions with interiors on either side. The outlines of the result are closed.",
  ["inputs", "schedules"], "circles, rectangles, U shapes, stars and compound curves at random places; circles and polygons crossing at 2-6 degrees and touching; regions with up to two interiors against curves, compound curves and regions; the intersection search is driven by the seed",
  "Tests operate on three nested pairs that do not cross.",
  [f"{B}/clip.rs", f"{B}/boolean_region.rs", f"{B}/boolean_curve.rs", f"{B}/boolean_compound_curve.rs", f"{B}/degeneracies.rs"],
  [("clipping", f"{B}/clip.rs: clip"), ("regions", f"{B}/boolean_region.rs: union, intersection, subtract"), ("argument kinds", f"{B}/boolean_curve.rs, {B}/boolean_compound_curve.rs")],
  "reference: membership of random points by parity of dense polygons of de Boor points")
p("C21", "Surface points, derivatives, normals and samples are the defined ones",
  "For every valid surface and every parameter pair of its domain, the evaluated point is the tensor product B-spline combination of the weighted control points, the derivatives of any order are the true mixed partial derivatives of the rational surface (right-hand at knots, left-hand at the ends), and the normal is the cross product of the first partial derivatives. Regular sampling and regular tessellation give exactly the points, derivatives, unit normals and parameters of an evenly spaced grid over the domain, and the triangles tile it.",
  ["inputs"], "2D/3D surfaces of degrees 1-5 in each direction independently, clamped or not, rational or not; derivative orders 0-4; grids of 1-9 divisions",
  "Tests evaluate two or three fixed surfaces, never with different degrees in the two directions and never above first order.",
  [S, K], [("evaluation", f"{S}: point, point_at, derivatives, rational_derivatives, normal_at"), ("grids", f"{S}: regular_sample_points, regular_sample_derivatives, derivatives_given_bases_knot_spans, regular_tessellate"), ("bases", f"{K}: regulary_spaced_basis_functions, regularly_spaced_derivative_basis_functions")],
  "reference: tensor product de Boor evaluation and differenced control nets with the generalised quotient rule")
p("C22", "Refining, splitting and slicing a surface keep its shape",
  "Inserting knots into a surface in either direction adds exactly those knots and leaves every point unchanged; splitting at a parameter gives two surfaces whose domains meet there and which run through the original's points; an iso curve at any parameter of the domain (ends, knots of any multiplicity, anywhere) is the surface's curve there, with the other direction's knots and domain; the four boundary curves are the iso curves at the ends of the domains.",
  ["inputs"], "2D/3D surfaces as in C21, either direction, parameters at ends, knots and anywhere",
  "Tests slice an extrusion and a sphere at two places and never split at a knot.",
  [S, "src/split/mod.rs"], [("refinement", f"{S}: try_refine_knot"), ("slices", f"{S}: try_isocurve, try_boundary_curves"), ("splitting", "src/split/mod.rs: NurbsSurface::try_split")],
  "reference: the original's points by tensor product de Boor evaluation")
p("C23", "Planes, extrusions and lofts contain what they are made of",
  "A plane is the parallelogram spanned by its axes around its centre; an extrusion's point at a profile parameter is the profile's point moved by the wanted part of the translation; a loft of two or more curves, whatever their degrees, knots, domains and clamping, is a surface of the requested degree that passes through every one of the curves, in their order, the first and the last being its ends.",
  ["inputs"], "profiles and sections of degrees 1-5 in 2D/3D, rational or not, clamped or not, 2-6 sections, in order or anywhere; sections with a common point",
  "Tests only ask that a loft of two curves succeeds.",
  [S], [("constructors", f"{S}: plane, extrude, try_loft"), ("unification", f"{S}: try_unify_curve_knot_vectors, sorted_set_union, sorted_set_sub"), ("interpolation", f"{C}: try_interpolate_control_points_at")],
  "reference: the formulas; each section searched for along the surface by golden section and compared at seven places")
p("C24", "Surfaces of revolution and spheres are exact",
  "The surface of revolution of a profile about an axis of any length contains, at every parameter, the profile turned about the axis by an angle which grows from zero to the wanted angle and is the same for the whole profile; points on the axis stay there. Every point of a sphere lies at the radius from the centre, with poles on the axis, the seam through the x axis and longitudes and latitudes growing with the parameters, and its normals are radial.",
  ["inputs"], "profiles anywhere, beside and touching the axis, angles up to a full turn in either direction including those around quarter turns, spheres of any position, frame and radius",
  "Tests revolve one profile by half a turn and use the unit sphere.",
  [S, "src/misc/ray.rs"], [("revolution", f"{S}: try_revolve, try_sphere"), ("tangent intersections", "src/misc/ray.rs: find_intersection")],
  "reference: rotation of the profile's de Boor points; the sphere's equation")
T = "src/tessellation"
p("C26", "Closest points on surfaces",
  "The closest parameter of a query is in the domain, its point lies on the surface and never farther than the best of the samples the search starts from; for spheres, cylinders, tori and planes it is the closest point, also across seams, at poles, beyond edges and for queries on the surface; for gently curved surfaces within 0.5 of the query it is within 1e-3 of the smallest distance.",
  ["inputs"], "wild surfaces, height fields in random frames, spheres, cylinders, tori, planes of size 0.3 to 8 with queries next to seams and poles, queries at centres and on axes",
  "Tests project grid points of one sphere.",
  ["src/closest_parameter/surface_closest_parameter_newton.rs", "src/closest_parameter/surface_closest_parameter_problem.rs", S],
  [("search", f"{S}: find_closest_parameter, find_closest_point"), ("solver", "src/closest_parameter/surface_closest_parameter_newton.rs: next_iter, constrain")],
  "closed-form distances; golden-section search of reference points")
p("C27", "Curve tessellations walk along the curve within the tolerance",
  "The points of a tessellated curve or compound curve lie on it in the order of the parameter, from its first to its last point; a straight piece needs its ends only and a polyline keeps its vertices; the chords of a convex arc are no farther from it than the tolerance allows, and a curve that turns about the middle of its chord is not replaced by it. Tessellating a region gives triangles which cover the inside of its outline without its holes, once, with vertices on the outlines.",
  ["inputs", "schedules"], "wild curves (very short domains too), straight curves, circles, ellipses, parabolas, chains of 1-5 spans, regions with up to three holes; tolerances 1e-5 to 0.1; the random flatness probes are driven by the seed",
  "Tests have no tolerance assertion; the tessellation probes at random places, so every run differs.",
  [f"{T}/mod.rs", f"{T}/tessellation_curve.rs", f"{T}/tessellation_compound_curve.rs", f"{T}/tessellation_region.rs"],
  [("curves", f"{T}: tessellate of NurbsCurve, CompoundCurve"), ("regions", f"{T}: tessellate of Region")],
  "matching of the vertices to increasing parameters by de Boor points; sagitta of arcs; polygon areas")
p("C28", "Surface tessellations are crack-free meshes of the surface",
  "A surface's tessellation is a mesh whose vertices are the surface's points at their parameters, with unit normals of the surface; its triangles tile the domain once without cracks or overlaps, whatever the depths, divisions and tolerances; a deeper or finer request refines it and the mesh of a smooth surface comes within the tolerance-derived distance. Boundary parameters given as constraints are exactly the vertices of that side, so that neighbours with equal constraints share their vertices.",
  ["inputs"], "wild surfaces, height fields, spheres, cylinders, tori, cones; all options; constraints on any subset of the sides",
  "Tests tessellate two surfaces with default options and look at counts.",
  [f"{T}/surface.rs", f"{T}/adaptive_tessellation_node.rs", f"{T}/adaptive_tessellation_processor.rs", f"{T}/boundary_constraints.rs", f"{T}/surface_tessellation.rs"],
  [("nodes", f"{T}/adaptive_tessellation_node.rs: get_edge_corners, evaluate_surface"), ("subdivision", f"{T}/adaptive_tessellation_processor.rs"), ("constraints", f"{T}/boundary_constraints.rs")],
  "invariant: exact edge matching and signed areas in the parameter plane; reference surface points and normals")
p("C29", "Trimmed surfaces keep what is inside their outlines",
  "The tessellation of a trimmed surface covers the part of the domain inside the exterior (or the domain) and outside the interiors, once: its boundary loops are the outlines, their vertices lie on the trimming curves, vertices and unit normals are the surface's, and the area differs by no more than the tolerance allows. Given parameters are exactly the vertices of their outline, and lists for too few or too many holes are refused. Curves projected along a direction of any length or to closest points become trimming curves below them, on the layer of a folded surface that is met first. Reversing keeps the trimmed points and transforming moves them.",
  ["inputs"], "planes, height fields, cylinders of size 0.1 to 100 with polygonal and rational outlines (touching the domain's border too), up to three holes, tolerances 2e-3 to 5e-2",
  "Tests tessellate no trimmed surface.",
  [f"{T}/trimmed_surface.rs", "src/surface/trimmed_surface.rs", "src/misc/polygon_boundary.rs"],
  [("tessellation", f"{T}/trimmed_surface.rs: trimmed_surface_adaptive_tessellate, iterate_uv_curve_tessellation"), ("projection", "src/surface/trimmed_surface.rs: try_project_curve, try_map_curve_closest_point"), ("reversal", "src/surface/trimmed_surface.rs: invert")],
  "reference: dense polygons of de Boor points, loops and areas in the parameter plane")
p("C25", "Frames along a curve and swept surfaces",
  "The frames computed at a list of parameters sit on the curve, point along its unit tangent and are right-handed and orthonormal; each is the previous one turned by the smallest rotation that takes one tangent to the next, also along straight pieces, at repeated parameters and in any order; a frame's matrix moves the origin to its position, z to the tangent and y to the normal. A swept surface has the profile's parameters in one direction, the requested degree in the other, and passes through the profile placed at every frame, the first and last being its ends; along a straight rail it is the profile moved along it.",
  ["inputs"], "arcs, lines, marching and wild rails of degrees 1-4, profiles of degrees 1-3",
  "Tests compute no frames and sweep nothing.",
  ["src/misc/frenet_frame.rs", C, S], [("frames", f"{C}: compute_frenet_frames"), ("placement", "src/misc/frenet_frame.rs: rotation, matrix"), ("sweep", f"{S}: try_sweep")],
  "reference: the closed formula of the smallest rotation; placed profile points searched for along the surface")
p("C30", "Serialised shapes come back equal and damaged ones are refused",
  "Curves, compound curves, surfaces and trimmed surfaces written with serde and read back are equal to the original, whatever the order of the fields; a document with a missing, unknown, doubled or mistyped field, with points, degrees and knots that do not fit together, without spans, or cut off is refused with an error instead of giving a shape that cannot be used.",
  ["inputs", "faults"], "shapes of every kind as JSON values and text; seven kinds of damage at any object of the document",
  "Tests write and read one curve and one surface.",
  [C, S, "src/surface/trimmed_surface.rs", "src/region/compound_curve.rs", K], [("readers", "Deserialize impls: visit_map of NurbsCurve, NurbsSurface, TrimmedSurface, CompoundCurve"), ("writers", "Serialize impls")],
  "round trip; injected damage must give an error")
p("C32", "Conversions between types and dimensions keep the shape",
  "Casting curves, surfaces, frames and tessellations to single precision and back, raising a planar curve into space, taking Euclidean control points and weights, transposing control points, and wrapping curves as compound curves and regions or surfaces as trimmed surfaces change nothing but the representation: degree, knots, domain, weights and every point agree with the original (with zero as the new coordinate; every number rounded to single precision once for casts), and wrapping and unwrapping gives the original back.",
  ["inputs"], "wild 2D/3D curves and surfaces, rational and not, clamped or not; frames of marching curves",
  "Tests convert one polyline.",
  [C, S, "src/region/compound_curve.rs"], [("conversions", f"{C}: elevate_dimension, cast, dehomogenize"), ("surfaces", f"{S}: cast, transposed_control_points"), ("kinds", "src/region/mod.rs: From impls")],
  "round trips; reference: the original's control points")
p("C33", "Single precision shapes behave like their double precision twins",
  "Built and used with f32, curves and surfaces agree with the same ones in f64 to single precision: evaluation, length and divisions, closest points, circles and arcs of any size, interpolation, crossings found between curves and the results of boolean operations.",
  ["inputs"], "wild curves, arcs, points to interpolate, crossing curves with known crossings, convex regions, surfaces of ordinary size",
  "No test uses f32.",
  [C, S, "src/intersection", "src/boolean"], [("tolerances", f"{C}: try_length, try_divide_by_length, find_closest_parameter"), ("crossings", "src/intersection/curve_intersection.rs: find_intersection"), ("clipping", "src/boolean/clip.rs: clip")],
  "differential: the f64 result of the same request")
p("C34", "Requests that cannot be met are refused with an error",
  "Shapes and operations asked for with impossible input give an error rather than a panic, an endless loop or a result that cannot be used: knots that are missing, surplus or not finite, too few points, no points, degree zero, points that coincide or are not finite, radii and axes that are zero or not finite, empty angle ranges, knots and iso parameters outside the range, lengths that are not positive or beyond the curve's, closest points of no point, lofts of fewer than two curves, insides of and boolean operations with open curves.",
  ["inputs", "faults"], "valid wild curves, surfaces, frames and point lists with one impossible request each; repeated points must give an error or a curve with finite points and sorted knots",
  "Tests never ask for the impossible.",
  [C, S, K, "src/contains", "src/boolean"], [("curve constructors", f"{C}: try_new, try_interpolate, try_periodic_interpolate, try_ellipse_arc"), ("surface constructors", f"{S}: try_loft, try_sweep, try_revolve, try_isocurve"), ("insides", "src/contains/contains_curve.rs: contains")],
  "invariant: Err for injected impossible input, no panic; collinear points succeed")
p("C35", "Planar predicates, segments, polygons and meshes",
  "The orientation of three points is the exact sign of the area they span, for double and single precision coordinates however close to being in line. Two segments that are not on one line intersect exactly when they share a point, their ends included. A polygon contains a point off its outline exactly when it winds around it. The closest point of a segment and its parameter are the clamped projection. Points in line are flat, points spanning an area clearly above the tolerance are not. Binomial coefficients are exact up to rounding in any order of queries. A mesh's triangles are its faces' vertices, its area their total area, and adding or summing meshes keeps every triangle and the area. Merged boundary parameters are the sorted union of both sides, transposed tables swap rows and columns, and two rays have an intersection exactly when they are not parallel.",
  ["inputs"], "integer points of up to 50 bits in and one unit off a line, segments touching at ends, rectilinear and self-crossing polygons with points level with their vertices, random segments, meshes, queries and parameter lists",
  "Tests cover one example of the binomials and of a polygon; near-degenerate configurations are unlimited.",
  ["src/misc/orientation.rs", "src/misc/line.rs", "src/misc/polygon_boundary.rs", "src/misc/trigonometry.rs", "src/misc/binomial.rs", "src/misc/ray.rs", "src/misc/transpose.rs", "src/polygon_mesh/mod.rs", "src/tessellation/boundary_constraints.rs"],
  [("orientation", "src/misc/orientation.rs: orientation"), ("segments", "src/misc/line.rs: intersects"), ("polygons", "src/misc/polygon_boundary.rs: contains"), ("meshes", "src/polygon_mesh/mod.rs: area, add, sum")],
  "oracle: exact integer arithmetic; Heron's formula; exact binomials")
