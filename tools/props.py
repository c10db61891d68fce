MC = "stateless model checking of the implementation: "

prop("C02", "Centre distance and clearance of a meshed pair",
     "Whatever two involute gears are meshed (external, into a ring, a ring around a gear, parallel or crossed helical, any tooth "
     "counts, profile shifts, pressure angles, modules and in-plane directions), the moved gear's centre lies in the requested "
     "direction at exactly the distance at which the teeth of both gears touch with the requested circumferential clearance (tight "
     "contact when none is requested). Computing the clearance back from that centre distance returns the requested clearance.",
     ["inputs", "configurations"],
     "all pairs from bounded alphabets of tooth counts, shifts, pressure angles, helix angles, modules, clearances and directions",
     "The test-suite meshes a handful of external pairs in one direction at default pose and only looks at overlap areas; the "
     "exact distance for arbitrary shift/clearance/ring/helix combinations is never compared with the involute equation.",
     ["gearmath.py", "gggears_wrapper.py"],
     [("working centre distance", "gearmath.py:calc_involute_mesh_distance"), ("clearance from distance", "gearmath.py:backlash_from_ax_distance"),
      ("placement", "gggears_wrapper.py:InvoluteGear.mesh_to, HelicalGear.mesh_to")],
     observe=["gear centre after meshing"],
     tech=MC + "exhaustive enumeration of gear pairs against a closed-form involute oracle",
     note="Every pair inside the stated bounds is executed on the real code and compared with the exact involute equation; nothing is claimed outside the alphabets.")

prop("C03", "Meshed gears run without penetration and without losing contact",
     "After one gear is meshed to another on a parallel axis, the two can be rolled through a whole tooth cycle at the ratio of "
     "their tooth counts: the outlines never penetrate each other, and the flanks stay in contact up to the requested clearance. "
     "This holds for external pairs and gears inside rings, involute and cycloid teeth, straight and helical teeth at every height, any in-plane "
     "direction, any orientation and rotation of the fixed gear.",
     ["inputs", "configurations", "histories"],
     "all pairs from bounded alphabets x rolling phases of a full tooth cycle x slices along the width",
     "Tests check overlap at one instant for a few external pairs at height zero with the default pose and direction.",
     ["gearmath.py", "gggears_wrapper.py", "gggears_core.py", "gearteeth.py"],
     [("tooth phase after meshing", "gearmath.py:calc_mesh_angle"), ("placement", "gggears_wrapper.py:mesh_to"),
      ("flank generation", "gearteeth.py:InvoluteTooth, CycloidTooth")],
     state=[("rolling phase", "common turn of both gears by the tooth ratio")], observe=["tooth outlines of both gears in space"],
     tech=MC + "exhaustive pairs x rolling phases with an interference/contact monitor",
     note="All pairs and all discretised rolling phases in bounds; contact is judged on sampled outlines with a tolerance of 1e-3 module.")

prop("C04", "Meshing depends only on shapes, the fixed gear's pose and the direction",
     "Meshing a gear to another gives a placement that moves rigidly with the fixed gear, turns by the tooth ratio when the fixed gear "
     "is turned, does not depend on the length of the direction vector or on anything done to the moved gear before (earlier poses, "
     "meshings or drawings), leaves the fixed gear untouched, and meshing again changes nothing. It holds for spur, ring, helical, "
     "crossed, bevel and cycloid gears.",
     ["histories", "inputs"],
     "all pair kinds x rigid motions x turn angles x directions, and all bounded histories of operations on the moved gear",
     "Tests mesh fresh gears once, in default pose; symmetry under motion, turning and history is quantified over all poses and operation sequences.",
     ["gearmath.py", "gggears_wrapper.py", "gggears_core.py"],
     [("orientation of meshed gear", "gearmath.py:calc_mesh_orientation"), ("phase", "gearmath.py:calc_mesh_angle"),
      ("bevel placement", "gearmath.py:calc_bevel_gear_placement_vector"), ("mesh", "gggears_wrapper.py:mesh_to, gggears_core.py:Gear.mesh_to")],
     observe=["centre, orientation and angle of both gears"],
     tech=MC + "bounded operation histories with a relational (symmetry) oracle",
     note="All histories up to the depth and all pose/direction combinations in the alphabets; oracle is the same operation in reference pose.")

prop("C05", "Every tooth flank is the exact involute of the requested gear",
     "For any cylindrical involute gear (external, ring, helical, herringbone) with any tooth count, module, pressure angle, profile shift, backlash, addendum, dedendum, "
     "fillets and undercut setting, every generated tooth consists of the exact involute of the implied base circle with the requested "
     "thickness on the pitch circle, ending at the requested addendum and dedendum circles, with the requested root/tip rounding and with the rack-cutter's "
     "undercut where it applies. The tooth is mirror-symmetric about its centre line.",
     ["inputs", "configurations"],
     "all parameter combinations within the deviation bound around the default gear",
     "Tests construct gears and check that nothing raises or a few distances; the shape for each of the interacting parameters is not compared with the definition.",
     ["gearteeth.py", "gggears_core.py", "gggears_wrapper.py", "function_generators.py"],
     [("involute flank", "gearteeth.py:InvoluteTooth"), ("undercut", "gearteeth.py:InvoluteUndercutTooth"),
      ("limits, fillets", "gggears_core.py:apply_tip_reduction, apply_fillet, generate_profile_closed"), ("recipe", "gggears_wrapper.py:InvoluteGear.calc_params")],
     observe=["reference profile of the gear at each slice"],
     tech=MC + "exhaustive bounded parameter deviations against a closed-form tooth model",
     note="All configurations with at most k simultaneous deviations from the default; oracle is an independent closed-form tooth (involute, trochoid, circles).")

prop("C01", "Operations on one gear never change another gear, rack or the caller's data",
     "Gears and racks are independent objects. Whatever sequence of constructing, moving, turning, meshing, copying, adapting and resetting is applied "
     "to a set of gears and racks that were given the same arrays or were derived from each other (mesh_to, copy, gear_copy_from, assigned centre/orientation), "
     "each operation changes only the gear it is called on, in the documented way, and leaves every other gear and rack, the arrays the caller "
     "passed in and the library's constants as they were.",
     ["histories"],
     "all operation sequences up to the bounded depth over small worlds of gears and racks that share data",
     "Tests build fresh gears and look at one of them; aliasing shows only after particular sequences of sharing and mutating operations.",
     ["gggears_wrapper.py", "gggears_core.py", "gggears_base_classes.py", "defs.py"],
     [("pose attributes and their setters", "gggears_wrapper.py:GearInfoMixin"), ("copy", "gggears_wrapper.py:InvoluteGear.copy, CycloidGear.copy"),
      ("pose data", "gggears_base_classes.py:TransformData, GearTransformData"), ("racks", "gggears_wrapper.py:InvoluteRack, HelicalRack")],
     state=[("poses", "centre, orientation and angle of each gear and rack of the world")], observe=["poses and outlines of all objects, caller's arrays, library constants"],
     tech=MC + "exhaustive operation sequences on a world of gears against a reference model of poses",
     note="All operation sequences of the stated depth are executed on real objects; the reference model predicts the full state after every step.")

prop("C14", "Composing, inverting and exporting placements agree with their motion",
     "A placement (Transform, TransformData, GearTransform, GearTransformData with any centre, orientation, positive scale and gear angle) denotes one "
     "similarity motion: applied to points, products, inverses and any nesting of them act exactly like the composition of the motions, "
     "the 4x4 matrix, the axis directions and the CAD Location describe the same motion, and changing to polar or spherical coordinates and back returns the point.",
     ["inputs", "histories"],
     "all words of products and inversions up to length 3 over an alphabet of placements",
     "Tests check single products with simple numbers; composition with rotated, scaled or turned operands in both orders is not settled.",
     ["gggears_base_classes.py", "function_generators.py", "gggears_build123d.py"],
     [("placements", "gggears_base_classes.py:Transform, GearTransform, apply_transform, apply_gear_transform"),
      ("coordinates", "function_generators.py:xyz_to_cylindrical, cylindrical_to_xyz, xyz_to_spherical, spherical_to_xyz"),
      ("CAD location", "gggears_build123d.py:transform2Location")],
     observe=["images of points", "affine matrix", "build123d Location"],
     tech=MC + "exhaustive words over the transform algebra, model = 4x4 matrices, every model trace replayed on the real classes",
     note="All words of length <= 3 over the alphabets; the model (4x4 matrices) is compared with the implementation on every word.")

prop("C17", "The line of action is the common tangent of the meshed gears' base circles",
     "For any meshed pair of parallel-axis involute gears of equal width (external, or pinion and ring in either role), in any pose of the fixed gear, any "
     "direction, module, pressure angle, profile shift and clearance, and at any position along the width, LineOfAction gives two lines that lie in the plane "
     "of rotation at that position, touch both base circles and pass the pitch point; they start at the base circle of the first gear (the pinion) and end at the "
     "tangent point of the other (for ring pairs on the pinion's tip circle), one line per direction of rotation.",
     ["inputs", "configurations"],
     "all pairs within the deviation bound x poses x width positions",
     "Tests look at one or two pairs in default pose.",
     ["gggears_wrapper.py"],
     [("line of action", "gggears_wrapper.py:LineOfAction"), ("base circle", "gggears_wrapper.py:InvoluteGear.circle_involute_base")],
     observe=["end points of the returned lines"],
     tech=MC + "exhaustive bounded configurations against the analytic tangent construction",
     note="All configurations with at most k deviations; the oracle is built from the descriptor, not from the library.")

prop("C18", "Reported dimensions and locations agree with the generated geometry",
     "Everything a gear reports about itself - pitch, tip, root, base and outside radii, module, tooth pitch, height, centre points and locations at the bottom, "
     "middle, top or any width proportion, face locations, cone apex, cone distance and cone angle limits - agrees with the requested parameters and with the outline the gear "
     "generates, for every gear type, module, width, z_anchor, helix (also herringbone), profile shift and any centre, orientation and angle.",
     ["inputs", "configurations"],
     "all configurations with a bounded number of simultaneous shape and pose deviations for 8 gear kinds",
     "Tests read a few properties of default gears at the origin; interactions of z_anchor, module, cone, herringbone and pose are not sampled.",
     ["gggears_wrapper.py", "gggears_core.py", "gggears_base_classes.py"],
     [("reported values", "gggears_wrapper.py:GearInfoMixin, InvoluteGear.circle_involute_base"), ("radii", "gggears_core.py:GearRefProfileExtended, curve_gen_at_z"),
      ("recipe", "gggears_wrapper.py:calc_params")],
     observe=["public properties of the gear", "outline of the gear"],
     tech=MC + "exhaustive bounded configurations, documented meaning as oracle, cross-checked with the outline",
     note="All configurations with at most k deviations; the oracle is evaluated from the descriptor and from the outline.")

prop("C10", "Bevel gears have conjugate spherical teeth and mesh apex to apex",
     "A bevel gear (involute-type or cycloid) has its teeth on spheres around the apex of its pitch cone, every slice along the width being a scaled copy of the "
     "same tooth with the requested thickness, addendum and dedendum measured from the pitch cone; the flank is the conjugate of a straight-flanked crown rack. "
     "cone_angle_from_teeth gives matching cones for any tooth counts and shaft angle. Two bevel gears with matching cones meshed in any direction and pose share the apex, their axes enclose the shaft angle, their pitch cones touch "
     "along the requested direction, and they roll through a tooth cycle without penetrating and without losing contact.",
     ["inputs", "configurations", "histories"],
     "all gears within the deviation bound, teeth x cone x pressure angle x dedendum grids, all pairs within the deviation bound x rolling phases",
     "Tests mesh a few right-angle pairs in default pose and look at one instant; tooth shapes on the sphere are never compared with their definition.",
     ["gearmath.py", "gearteeth.py", "gggears_core.py", "gggears_base_classes.py", "gggears_wrapper.py", "function_generators.py"],
     [("cone angles", "gearmath.py:cone_angle_from_teeth"), ("placement", "gearmath.py:calc_bevel_gear_placement_vector, calc_mesh_orientation, calc_mesh_angle"),
      ("octoid flank", "gearteeth.py:OctoidTooth, OctoidUndercutTooth"), ("trimming", "gggears_core.py:trim_reference_profile, apply_tip_reduction")],
     state=[("rolling phase", "common turn of both gears by the tooth ratio")], observe=["outlines of both gears in space", "apex, axes, centres"],
     tech=MC + "exhaustive bounded gears and pairs x rolling phases; oracle = crown-rack rolling and spherical geometry",
     note="All gears and pairs in the alphabets; the flank oracle is an independent simulation of crown-rack generation; penetration is judged at 1e-3 module.")

prop("C08", "Observing, drawing or building a gear leaves it unchanged, even when it fails",
     "Queries, reported dimensions, outlines, boundary wires, lines of action, copies, meshing another gear to it and building its CAD part never change a gear or rack "
     "(pose, parameters, outline), repeating such an operation gives the same result, in any order and any pose, and when a build is interrupted by an error "
     "in the CAD kernel or a numerical solver, the gear is as it was and the next build gives the same part as on an undisturbed gear.",
     ["histories", "faults"],
     "all words of observing operations up to the bound for every gear and rack kind; a failure injected at every CAD operation / numerical solve of a build",
     "Tests build each gear once and never look at the gear afterwards; no test makes a build fail.",
     ["gggears_wrapper.py", "gggears_build123d.py", "gggears_convert.py", "gggears_base_classes.py"],
     [("part building", "gggears_build123d.py:GearBuilder"), ("surface conversion", "gggears_convert.py:GearToNurbs"), ("wrapper builds", "gggears_wrapper.py:GearInfoMixin, build_part, update_part, build_boundary_wire")],
     state=[("gear", "pose, parameters and outlines of the gear"), ("fault point", "index of the CAD operation or solve that raises")], observe=["pose, parameters, outlines, reported values, built part"],
     tech=MC + "all operation words up to the bound plus exhaustive fault injection at every CAD operation and solver call of a build",
     level="fault_enumeration",
     note="Quick: every word of 2 operations for cylindrical kinds, every call path of a build fails once; thorough: words of 3 operations and every single CAD operation.")

prop("C07", "The built CAD part is the gear: valid, exact outline, volume and pose",
     "build_part gives one valid solid for every gear type (external, ring, helical, herringbone, crowned, bevel, cycloid; any module, width, z_anchor, fillets, pose). Its surface passes through the "
     "outline the gear generates at every height, every tooth is solid and every gap is empty (the other way round for rings), its width and volume are those of the outline, and it stands at the gear's "
     "centre, orientation and angle. After any sequence of moving, turning, re-orienting, meshing and resetting the gear, update_part and build_part give the same solid at the new pose, and parts returned before do not move.",
     ["inputs", "configurations", "histories"],
     "all gears within the deviation bound; all orientations of the alphabet; all histories of moves with an update after each",
     "Tests check validity and a positive volume for a sample of gears at the default pose; they never compare the solid with the outline or look at it after a move.",
     ["gggears_build123d.py", "gggears_convert.py", "gggears_wrapper.py"],
     [("solid construction", "gggears_build123d.py:GearBuilder"), ("spline surfaces", "gggears_convert.py:GearToNurbs"), ("pose", "gggears_build123d.py:apply_transform_part"), ("updates", "gggears_wrapper.py:update_part")],
     state=[("gear and solid", "configuration, pose, history of moves since the build")], observe=["solid returned by build_part / update_part"],
     tech=MC + "exhaustive bounded configurations and move histories; oracle = the generated outline (itself checked by C05/C10/C11) placed by exact rigid motion, CAD kernel distance and point classification",
     note="Every gear in the alphabets is built; fidelity judged at 5e-3 module (2e-2 for strongly twisted or crowned teeth).")

prop("C11", "Cycloid gears have exact cycloid flanks and adapted pairs mesh",
     "For any cycloid gear (external or ring, six teeth or more, any rolling-circle coefficients that reach the requested tip and root, addendum, dedendum, thickness, tip truncation, fillets, module), every tooth flank is the exact epicycloid of the outside "
     "rolling circle above the pitch circle and the exact hypocycloid of the inside rolling circle below it, with the requested tip and root circles and roundings. adapt_cycloid_radii, in any order with meshing and recalculation, gives both gears the same "
     "rolling circles (outside circles follow the inside ones; for ring pairs inside follows inside and outside follows outside), updates the drawn teeth and moves neither gear. Adapted and meshed gears stand at the sum (rings: difference) of the pitch radii and roll through a tooth cycle without penetration and without losing contact.",
     ["inputs", "configurations", "histories"],
     "all gears within the deviation bound; all adapt/mesh/recalculate histories up to the bound; all pairs x rolling phases",
     "Tests build a few cycloid gears; flank shape, adapted coefficients and running are never checked.",
     ["gearteeth.py", "function_generators.py", "gggears_wrapper.py", "gggears_core.py"],
     [("flanks", "gearteeth.py:CycloidTooth"), ("cycloid functions", "function_generators.py:cycloid_circle"), ("adaptation and meshing", "gggears_wrapper.py:CycloidGear.adapt_cycloid_radii, mesh_to")],
     state=[("pair", "rolling-circle coefficients and poses of both gears"), ("rolling phase", "common turn by the tooth ratio")], observe=["coefficients, poses and outlines of both gears"],
     tech=MC + "exhaustive configurations, operation histories against a reference state machine, rolled pairs; oracle = closed-form cycloids",
     note="All configurations, histories and pairs in the stated bounds are executed.")

prop("C12", "Racks have the exact basic profile and mesh with gears in any pose",
     "For any rack (straight, slanted, helical, herringbone; any tooth count, module, pressure angle, addendum, dedendum, backlash, fillets, width, position, orientation, offset), the built part is one valid solid with exactly the requested straight-flanked profile on a "
     "one-module back, pitch pi times the transverse module, a tooth on the reference point (even counts shifted upwards), moved by one tooth per unit of offset. Meshed to a spur, helical or herringbone gear in any pose and direction, with any profile shift and whole-tooth offset, the rack's "
     "teeth point at the gear, its reference line lies at the pitch radius plus profile shift, the reference tooth is within half a tooth of the requested offset, and gear and rack roll along each other without penetration and without play beyond their backlash, at every height.",
     ["inputs", "configurations"],
     "all racks within the deviation bound x poses; all gear/rack pairs within the bound x directions x poses x rolling phases x heights",
     "Tests build a few racks and check a positive volume; profile, offset with module, phase and running are not checked.",
     ["gggears_wrapper.py"],
     [("profile and part", "gggears_wrapper.py:InvoluteRack._build_ref_tooth_face, build_part"), ("helical racks", "gggears_wrapper.py:HelicalRack"), ("meshing", "gggears_wrapper.py:InvoluteRack.mesh_to")],
     state=[("rolling phase", "turn of the gear and travel of the rack")], observe=["rack part, position, orientation, offset", "gear outline"],
     tech=MC + "exhaustive bounded racks and gear/rack pairs x rolling phases; oracle = closed-form basic rack polygon",
     note="All racks and pairs in the alphabets; play is judged at 0.012 module, penetration at 2e-4 module^2.")

prop("C09", "Helix, herringbone, taper and crowning along the width",
     "At every position along its width a gear's slice is the nominal tooth, turned by the requested helix (on the pitch cylinder of a cylindrical gear the tooth runs at the helix angle; mirrored about mid-width for herringbone gears), "
     "scaled and shifted by the taper of the pitch cone, and, on external gears, thinned by the requested crowning: nominal in the middle of the width, each flank set back by crowning/1000 modules at both end faces, "
     "growing with the square of the distance from the middle. This holds for every module, height, z_anchor and pose, and crowning one or both gears of a pair changes neither their distance nor their phase.",
     ["inputs", "configurations"],
     "all configurations with a bounded number of deviations for 9 gear kinds x positions along the width; all crowned pair kinds",
     "Tests build helical and crowned gears at one anchor and only check validity; no test compares slices along the width, other anchors or crowned meshing.",
     ["gggears_wrapper.py", "gggears_core.py"],
     [("helix, taper and crowning recipe", "gggears_wrapper.py:InvoluteGear.calc_params, CycloidGear.calc_params"), ("herringbone and z levels", "gggears_wrapper.py:HelicalGear.__init__, HelicalRingGear.__init__"),
      ("slices", "gggears_core.py:Gear.curve_gen_at_z"), ("meshing thickness", "gggears_wrapper.py:InvoluteGear.angle_base")],
     observe=["outline and placement of each slice", "pose after meshing"],
     tech=MC + "exhaustive bounded configurations x positions along the width against closed-form helix, taper and crowning laws",
     note="All configurations with at most k deviations at 9 positions each; crowning of ring gears is outside the stated domain (undocumented sign).")

prop("C06", "Every slice outline is one closed, simple, N-fold symmetric curve",
     "For every gear (involute or cycloid, spur, helical, ring, bevel, with undercut or fillets) and every position along its width, the outline of the slice is one closed curve that runs anticlockwise, does not cross itself, repeats exactly N times, "
     "crosses the pitch circle exactly 2N times, stays between its root and tip circles, is mirror symmetric about the tooth centre, lies on the slice's plane (sphere for bevel gears) and scales with the module. The boundary curves handed out for that position "
     "(continuous or as a chain) go once around this outline, placed by the gear's centre, orientation, angle, helix, taper and module; the closed profiles of one tooth are closed chains that together fill one pitch.",
     ["inputs", "configurations"],
     "all configurations with a bounded number of deviations for 9 gear kinds x positions along the width x views of the outline",
     "Tests evaluate the boundary of a few gears at the reference plane only and never look at self-crossing, periodicity or the views off the reference plane.",
     ["gggears_core.py", "gggears_wrapper.py", "gggears_base_classes.py"],
     [("slices and boundary", "gggears_core.py:Gear.curve_gen_at_z, Gear.boundary_at_z, generate_boundary, generate_boundary_chain"), ("reference profile", "gggears_core.py:generate_reference_profile, trim_reference_profile"),
      ("closed profiles", "gggears_core.py:GearRefProfileExtended, generate_profile_closed")],
     observe=["outline points of each slice", "boundary curves", "closed tooth profiles"],
     tech=MC + "exhaustive bounded configurations x width positions x views; invariants of the outline and exact placement as oracle",
     note="All configurations with at most 2 (thorough 3) deviations per gear kind; splined views are judged at 5e-3 module.")

prop("C13", "Curve operations keep their meaning in any combination",
     "For every curve (line, arc, involute, cycloid, spline, transformed curve, chain, nested chain) and every sequence of operations on it, each operation does what it says: reversing, cutting, trimming, transforming, copying, "
     "concatenating, scaling, adding and converting yield the same points of space expected from the points before; a curve's points are spread evenly along its length, its length is the length of those points, derivatives are those of the point function, "
     "chains pass through all their active parts in order and map chain parameters to parts consistently; copies do not change when the original does, and searches (intersection, closest point, fillets at corners) return points that fulfil their definition.",
     ["histories", "inputs"],
     "all words of operations up to a length over an alphabet of curves; all pairs for concatenation; all corner fillets in an alphabet of poses",
     "Tests apply single operations to freshly built curves; sequences (a cut of a reversed trimmed copy ...) are not covered.",
     ["curve.py"],
     [("base curve", "curve.py:Curve.reverse, Curve.cut, Curve.set_start_and_end_on, Curve.derivative, Curve.copy"), ("chains", "curve.py:CurveChain"), ("lines and arcs", "curve.py:LineCurve, ArcCurve"),
      ("conversion", "curve.py:convert_curve_nurbezier"), ("searches", "curve.py:find_curve_intersect, find_curve_nearest_point, calc_tangent_arc, fillet_curve")],
     state=[("curve", "point function of the curve after the operations so far")], observe=["points, length, derivatives of the curve"],
     tech=MC + "all operation sequences up to the bound executed on real curves; every step compared with the reference point function of the word (trace conformance)",
     note="All words of at most 2 (thorough 3) operations out of 16 over 22 base curves.")

prop("C15", "Curves and wires exported to CAD are the library's curves",
     "For every gear, pose and width position, the boundary wire handed to the CAD kernel is closed and covers exactly the outline of that slice, in the gear's placement; the NURBS profile and the reference circles (tip, root, pitch, outside, base) "
     "lie where the gear's geometry is. For every curve, whatever operations produced it, its exported edges cover exactly the curve - the trimmed, reversed or transformed part, not more - and exporting does not change the curve.",
     ["inputs", "configurations", "histories"],
     "all gear configurations within the deviation bound x poses x width positions; all words of operations over an alphabet of curves, then exported",
     "Tests export a few default objects and check that no exception is raised; geometry of exported edges is not compared with the curve.",
     ["gggears_build123d.py", "gggears_convert.py", "gggears_wrapper.py"],
     [("edges", "gggears_build123d.py:curve_to_edges, arc_to_b123d, line_to_b123d, gen_splines"), ("wire", "gggears_wrapper.py:GearInfoMixin.build_boundary_wire; gggears_build123d.py:generate_boundary_edges"),
      ("NURBS profile", "gggears_convert.py:gearprofile_to_nurb"), ("circles", "gggears_wrapper.py:radii_data_gen, circle_involute_base")],
     observe=["exported edges and wires", "NURBS segments"],
     tech=MC + "exhaustive bounded configurations and operation words, exported through the real CAD kernel and compared with the curve",
     note="All words of at most 1 (2 for lines and arcs; thorough 2) operations; spline approximations are judged at 8e-3 module or 2 percent of the curve length.")

prop("C16", "Generating functions fulfil their mathematical definition",
     "For every admissible argument: planar and spherical involutes are unwound without slip from their base circle or cone (unwound length equals rolled length, curvature 0 is the planar case), cycloids and conical cycloids are traced by a point of a circle or cone rolling without slip, octoids "
     "are the conjugate of a plane flank; offsets in angle, in the rolling frame and along z move the curve exactly as far as they say; Bezier and rational splines, their derivatives and fits agree with the Bernstein definition (ends, interpolated points, exact circles), "
     "spherical and cylindrical coordinate helpers are inverses of each other, and scalar and array arguments give the same values.",
     ["inputs"], "all combinations of small alphabets for every argument of every public generating and coordinate function; spline degrees 1..6 in 1..3 dimensions",
     "Tests compare a few values with stored numbers; the defining no-slip and conjugacy conditions are never checked.",
     ["function_generators.py", "curve.py", "gearmath.py"],
     [("involutes, cycloids, octoids", "function_generators.py:involute_circle, involute_sphere, cycloid_circle, cycloid_cone, octoid"), ("splines", "function_generators.py:bezier, nurbezier and their fits; curve.py:fit_nurb_points, fit_nurb_optim"),
      ("coordinates", "function_generators.py:xyz_to_spherical, spherical_to_xyz, xyz_to_cylindrical")],
     observe=["function values and numeric derivatives"],
     tech=MC + "exhaustive evaluation of the real functions over bounded argument alphabets; defining differential and algebraic identities as oracle",
     note="Argument alphabets are small but combined exhaustively; identities involving derivatives are judged at finite-difference accuracy.")

prop("C19", "Slices of core gears follow their recipe at every width position",
     "For every core gear whose parameters are constants or functions of z (limits, cone, fillets, tooth generator, placement), and in whatever order and however often slices are asked for: the slice at z is that of the gear with the parameter values of that z, placed by the recipe's transform and on its reference cone or reference curve; "
     "no slice depends on slices asked for before; core gears mesh tangentially (distance, orientation, phase) for any direction and pose, their solids have the volume of their slices, and exchanging the tooth generator gives the gear of that generator.",
     ["inputs", "configurations", "histories"], "all sets of at most 2 (thorough 3) parameters made functions of z x tooth generators x evaluation orders; all pairs of core gears x directions x poses",
     "Tests build a few recipes through the wrapper classes and never compare slices with constant recipes or in different orders.",
     ["gggears_core.py", "gggears_base_classes.py", "gearteeth.py", "gggears_convert.py"],
     [("recipe evaluation", "gggears_base_classes.py:eval_callables, GearToothRecipe, GearTransformRecipe; gggears_core.py:Gear.curve_gen_at_z"), ("cone and curve placement", "gggears_base_classes.py:ConicData; gggears_core.py:Gear.shape_recipe"),
      ("core mesh", "gggears_core.py:Gear.mesh_to"), ("tooth generators", "gearteeth.py")],
     state=[("recipe", "parameter values at z"), ("evaluation order", "slices asked for so far")], observe=["tooth profile curves at z", "placement of meshed gears", "solid volume"],
     tech=MC + "all recipes within the deviation bound x evaluation orders on the real core gear; constant-recipe slices and exact placement as oracle",
     note="At most 2 (thorough 3) parameters vary with z; full gears only.")

prop("C90", "The graphical generator shows the gear its fields describe",
     "Whatever sequence of field edits the user makes in the graphical gear generator, the displayed and exported gear is the one "
     "the fields describe at that moment.",
     ["histories"], "all sequences of field edits and exports",
     "There are no tests of the graphical application.",
     ["gggears_wrapper.py"], [("application", "../../gui/gggui.py")],
     na="The graphical application (gui/gggui.py) needs PyQt6 and a viewer widget, which are not installed here and cannot be fetched, so its event histories cannot be executed; a model without an executable implementation to replay against would not be bound to the code.")
