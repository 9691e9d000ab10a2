"""The properties (single source for properties.jsonl and MANIFEST.json)."""

RF = "rigid_body_motion/reference_frames.py"
CO = "rigid_body_motion/core.py"
UT = "rigid_body_motion/utils.py"
ES = "rigid_body_motion/estimators.py"
IN = "rigid_body_motion/__init__.py"
CS = "rigid_body_motion/coordinate_systems.py"
AC = "rigid_body_motion/accessors.py"
IO = "rigid_body_motion/io.py"
PL = "rigid_body_motion/plotting.py"
RT = "rigid_body_motion/ros/transformer.py"
RV = "rigid_body_motion/ros/visualization.py"
RM = "rigid_body_motion/ros/msg.py"
RI = "rigid_body_motion/ros/io.py"
RU = "rigid_body_motion/ros/utils.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": a})


# --- static trees -----------------------------------------------------
prop("A01", "Transforming directly equals transforming step by step",
     "Within one tree of reference frames, transforming points, vectors or "
     "orientations from one frame into another gives the same result whether "
     "done at once or through any intermediate frame. Likewise the transform "
     "looked up between two frames is the composition of the transforms "
     "looked up to and from any third frame.",
     ["inputs", "configurations"],
     "all translations, unit rotations and coordinates; all trees, all "
     "(source, intermediate, target) triples, inverse-specified frames "
     "included",
     "The tests check one numeric tree of three levels; composition must "
     "hold for every tree shape, direction and every real transform.",
     [RF, CO],
     [("tree walk", RF + ":_walk/_get_matcher"),
      ("composition", CO + ":TransformMatcher.get_transformation")],
     ["transform_points", "transform_vectors", "transform_quaternions",
      "lookup_transform"])
prop("A02", "Transforms between frames are invertible",
     "Transforming data into another frame and back returns the data, "
     "transforming within one frame changes nothing, and the transform "
     "looked up in the opposite direction is the inverse. A frame given with "
     "the inverse option is exactly the inverse of the frame given without "
     "it, for static and moving frames alike.",
     ["inputs", "configurations"],
     "all translations, unit rotations, coordinates; all frame pairs; static "
     "and sampled frames",
     "Round trips are tested on one constant example; the inverse option "
     "only with axis-aligned rotations.",
     [RF, CO, UT],
     [("inverse branch", CO + ":TransformMatcher.get_transformation"),
      ("inverse option", RF + ":ReferenceFrame._init_arrays"),
      ("rotation", UT + ":rotate_vectors")],
     ["transform_points", "lookup_transform"])
prop("A03", "Transforms apply exactly the rigid motion that lookups report",
     "A frame's translation and rotation map coordinates in the frame to "
     "coordinates in its parent: points are rotated then translated, vectors "
     "only rotated, orientations multiplied from the left by the rotation. "
     "Between any two frames, the looked-up transform and pose, as arrays or "
     "labelled dataset, are the very motion that the transform functions "
     "apply, whether frames are given by name or as objects.",
     ["inputs", "configurations"],
     "all transforms, coordinates, frame pairs and forms of the lookup",
     "Tests compare against a few recorded constants, never transform "
     "functions against lookups over all inputs.",
     [RF, CO, IN],
     [("transform methods", RF + ":transform_points/vectors/quaternions"),
      ("lookups", IN + ":lookup_transform/lookup_pose"),
      ("dataset", CO + ":_make_transform_or_pose_dataset")],
     ["transform_*", "lookup_transform", "lookup_pose"])
prop("A04", "Every way of building a frame gives the same transform",
     "A frame built from a dataset, a labelled array, a rotation matrix or "
     "plain arrays with omitted parts represents the same transform as the "
     "frame built from the equivalent complete arrays, with or without the "
     "inverse and event options. Arguments of inconsistent shape, transforms "
     "given without a parent, unknown parents and static event frames are "
     "rejected with a ValueError.",
     ["inputs", "configurations"],
     "all translations, unit rotations, proper rotation matrices; all "
     "constructors and option combinations",
     "The constructors are tested for shapes on example data, not for "
     "meaning; options are never combined.",
     [RF],
     [("constructors", RF + ":ReferenceFrame.from_*"),
      ("validation", RF + ":ReferenceFrame._init_arrays/_verify_root")],
     ["ReferenceFrame.from_dataset", "ReferenceFrame.from_rotation_matrix",
      "register_frame"])

# --- time -------------------------------------------------------------
prop("T01", "Results are reported at well-defined timestamps",
     "When time-dependent data or frames take part, results are reported at "
     "exactly the samples of the data's own timestamps if it has any, else of "
     "the first continuously moving frame on the path from source to target, "
     "that lie within the span common to the data and all continuously moving "
     "frames, both ends included. If only event-like frames are time "
     "dependent the timestamps are the sorted distinct union of theirs, and "
     "if nothing is, there are none.",
     ["inputs", "configurations"],
     "all orderings and overlaps of the sampling times of up to three "
     "elements, partially overlapping and disjoint spans included",
     "Tests use equal or nested regular sampling; the rule must hold for "
     "every relative position of the spans, including exact ties.",
     [CO, RF],
     [("span", CO + ":TransformMatcher.get_range"),
      ("timestamps", CO + ":TransformMatcher.get_timestamps")],
     ["lookup_transform", "transform_* with return_timestamps"])
prop("T02", "Moving transforms compose pointwise in time",
     "At every reported timestamp the transform between two frames is the "
     "composition of what each frame on the path is at that time: static "
     "frames as given, moving frames linearly interpolated in translation "
     "and equal to their samples where they have one. Data transformed along "
     "receives exactly that transform at its own timestamps.",
     ["inputs", "configurations"],
     "all sample values and rotations; sampling grids that coincide, "
     "interleave or partially overlap; paths up and down",
     "Tests fix regular identical grids; mixing static, moving and "
     "differently sampled frames on one path is not sampled.",
     [CO, RF],
     [("interpolation", CO + ":TransformMatcher._transform_from_frame"),
      ("data resampling", CO + ":TransformMatcher._resample_array"),
      ("application", RF + ":transform_points")],
     ["transform_*", "lookup_transform"])
prop("T03", "Event-like frames hold their transform until the next event",
     "At any time, an event-like frame has the transform of its latest event "
     "not after that time, and before its first event the transform of the "
     "first; its events never restrict the time span of a result. This holds "
     "in both directions and when combined with static and moving frames.",
     ["inputs", "configurations"],
     "all event times relative to the query times, ties included; all "
     "transforms",
     "One test with a fixed grid; ties, queries before the first and after "
     "the last event and combinations are not covered.",
     [CO],
     [("event lookup", CO + ":TransformMatcher._transform_from_frame"),
      ("span", CO + ":TransformMatcher.get_range")],
     ["lookup_transform", "transform_points"])
prop("T04", "Data that does not fit its timestamps or axes is rejected",
     "Transforms refuse, with a ValueError and without result, timestamps "
     "that decrease anywhere, are not one-dimensional or do not match the "
     "length of the data's time axis, data whose spatial axis does not have "
     "three components (four for orientations), time and spatial axes that "
     "coincide, and unknown frames. Data that fits is never refused.",
     ["inputs", "configurations"],
     "all timestamp sequences up to a bounded length and all axis choices",
     "Only a few malformed examples are tested.",
     [RF, CO],
     [("array checks", RF + ":ReferenceFrame._validate_input"),
      ("monotonicity", CO + ":TransformMatcher._check_timestamps"),
      ("axis clash", CO + ":_maybe_unpack_dataarray")],
     ["transform_*", "lookup_transform"])

# --- array interface --------------------------------------------------
prop("I01", "The layout of the input array does not change the result",
     "Transforming an array with its spatial or time dimension on any axis, "
     "counted from either end, and with any additional dimensions, whether "
     "given as array or spelled as nested sequences, gives the same values "
     "as transforming every vector separately, laid out like the input with the time dimension possibly resampled.",
     ["inputs", "configurations"],
     "all values; arrays of up to three dimensions, every placement of the "
     "spatial and time axis, positive and negative",
     "Tests use the default layout and one or two others.",
     [RF, CO, UT],
     [("axis handling", RF + ":transform_*/_expand_singleton_axes"),
      ("axis defaults", CO + ":_maybe_unpack_dataarray"),
      ("rotation axes", UT + ":rotate_vectors")],
     ["transform_points", "transform_vectors", "transform_quaternions"])
prop("I02", "Labelled arrays give the numbers of plain arrays, labels kept",
     "Transforming or estimating from a labelled array gives the same "
     "numbers as the plain-array call on its data with the matching axis and "
     "timestamps, and returns a labelled array with the same dimensions in "
     "the same order, the same name and coordinates. When the result is "
     "resampled in time the time coordinate holds the result's timestamps "
     "and other time-dependent coordinates are matched to them.",
     ["inputs", "configurations"],
     "all values; labelled arrays of up to three dimensions with numeric "
     "and non-numeric extra coordinates",
     "Tests use one dimension order and compare shapes more than values.",
     [CO, IN, ES],
     [("unpacking", CO + ":_maybe_unpack_dataarray"),
      ("repacking", CO + ":_make_dataarray/_replace_dim")],
     ["transform_* of DataArrays"])
prop("I03", "Labelled arrays carry correct frame metadata through transforms",
     "A labelled array whose metadata name the frame it is expressed in is "
     "transformed out of that frame when none is given, an explicitly given "
     "frame takes precedence with a warning if the two differ, and with "
     "neither a ValueError is raised. The result's metadata name the target "
     "frame as its representation frame and as the frame that was "
     "transformed, and leave all other entries unchanged. Poses and twists "
     "looked up in labelled form name the frames they were looked up for.",
     ["inputs", "configurations"],
     "all methods, attribute combinations and frame names",
     "Tests cover one attribute combination per method.",
     [CO, IN],
     [("source frame", CO + ":_transform"),
      ("metadata update", CO + ":_transform")],
     ["transform_* of DataArrays"])
prop("I04", "Calls never modify their arguments",
     "No transform, lookup, estimation, coordinate or quaternion function "
     "modifies the arrays, labelled arrays or metadata passed to it, nor the "
     "transforms stored in registered frames, so repeating a call gives the "
     "same result.",
     ["inputs", "histories"],
     "all functions taking arrays, all inputs, repeated calls",
     "Tests rarely look at the arguments after the call.",
     [RF, CO, UT, ES, CS, IN],
     [("in-place updates", RF + ":transform_angular_velocity"),
      ("swaps and copies", UT + ":*"),
      ("metadata copies", CO + ":_maybe_unpack_dataarray")],
     ["arguments after each public call"])

prop("I05", "Missing samples stay where they are",
     "A sample that is not a number, in the data, in the translation or "
     "rotation of a moving or event-like frame, or among interpolated "
     "rotations, affects only what depends on it: results at the times of "
     "other samples are what they would be without the gap, and what needs a "
     "missing sample is not a number. The same holds row by row for rotating "
     "vectors, quaternion products and inverses, shortest arcs and "
     "coordinate conversions.",
     ["inputs", "configurations"],
     "one or two missing samples anywhere, wholly or partly; all values of "
     "the others",
     "Tests transform complete data; gaps occur in every recording.",
     [CO, RF, UT, ES, CS],
     [("interpolation", CO + ":TransformMatcher._transform_from_frame"),
      ("data resampling", CO + ":TransformMatcher._resample_array"),
      ("rotations", UT + ":qinterp")],
     ["transform_*", "lookup_transform", "qinterp", "transform_coordinates"])

# --- quaternions ------------------------------------------------------
prop("Q01", "Quaternion products and inverses obey the group laws",
     "For all non-zero quaternions, multiplying by the inverse on either "
     "side gives the identity quaternion, products follow the Hamilton "
     "convention (w first) in the order given and are associative over any "
     "number of factors, and the inverse of a product is the reversed "
     "product of inverses. This holds for float arrays with the quaternion "
     "components on any axis, for quaternion-typed arrays and for labelled "
     "arrays alike, without change of shape.",
     ["inputs", "configurations"],
     "all non-zero quaternions; arrays up to two dimensions, every axis",
     "Tests multiply a few constants.",
     [UT, AC],
     [("inverse", UT + ":qinv"), ("product", UT + ":qmul"),
      ("labelled inverse", AC + ":DataArrayAccessor.qinv")],
     ["qinv", "qmul", "DataArray.rbm.qinv"])
prop("Q02", "Rotating vectors is the rotation of the quaternion's direction",
     "Rotating a vector by any non-zero quaternion q gives q v q^-1, so it "
     "preserves lengths and dot products, is linear, and depends neither on "
     "the scale nor the sign of q. Pairwise and all-combinations modes agree "
     "where they overlap, results do not depend on which axes carry the "
     "components, and shapes that cannot be paired are rejected.",
     ["inputs", "configurations"],
     "all non-zero quaternions and all vectors; shapes up to two "
     "dimensions, singleton broadcasting, every axis",
     "Tests rotate by unit quaternions of axis-aligned rotations.",
     [UT],
     [("rotation", UT + ":rotate_vectors")], ["rotate_vectors"])
prop("Q03", "The quaternion mean is the dominant rotation direction",
     "The mean of a set of quaternions is the unit quaternion maximising the "
     "sum of squared dot products with the set, so the mean of equal "
     "rotations is that rotation and flipping the sign of any member does "
     "not change it. Means along any axis or axes equal the means of the "
     "individual slices.",
     ["inputs", "configurations"],
     "sets with a known dominant direction in every position of the "
     "spectrum; all axes",
     "One test with two quaternions.",
     [UT], [("mean", UT + ":qmean")], ["qmean"])
prop("Q04", "Quaternion interpolation passes through its samples",
     "Interpolating a series of rotations returns one rotation per requested "
     "time, equal to the sample wherever a requested time is a sample time "
     "and of unit length everywhere. The result does not depend on which "
     "axes carry time and components or on array or labelled form, and "
     "labelled results keep dimensions, name, metadata and other coordinates "
     "while taking the requested times.",
     ["inputs", "configurations"],
     "all unit sample quaternions; sampling and request grids in every "
     "relative order; all axis placements",
     "Tests interpolate recorded data and compare shapes.",
     [UT, AC],
     [("interpolation", UT + ":qinterp"),
      ("labelled", AC + ":DataArrayAccessor.qinterp")],
     ["qinterp", "DataArray.rbm.qinterp"])
prop("Q05", "Euler angles convert to the stated product of axis rotations",
     "The quaternion of roll, pitch and yaw angles is the unit quaternion "
     "product of the single-axis rotations about x, y and z in the requested "
     "order, whether angles are given together, separately or partly omitted "
     "(counting as zero), and whatever axis carries them. Inconsistent "
     "shapes, missing angles and invalid orders are rejected.",
     ["inputs", "configurations"],
     "all angles, all six orders, all subsets of angles",
     "Tests check single-axis quarter turns.",
     [UT], [("conversion", UT + ":from_euler_angles")],
     ["from_euler_angles"])

# --- coordinates ------------------------------------------------------
prop("C01", "Polar conversion is a faithful change of coordinates",
     "Converting plane points to polar coordinates gives the non-negative "
     "distance to the origin and the angle in (-pi, pi] with x = r cos(phi) "
     "and y = r sin(phi), and converting back returns the points; polar "
     "coordinates with positive radius survive the opposite round trip up to "
     "full turns. Any axis may hold the components and all other axes are "
     "kept.",
     ["inputs", "configurations"],
     "all points of the plane incl. the origin and the axes; all angles; "
     "arrays up to three dimensions, every axis",
     "Tests convert a handful of points.",
     [CS], [("polar", CS + ":cartesian_to_polar/polar_to_cartesian")],
     ["cartesian_to_polar", "polar_to_cartesian", "transform_coordinates"])
prop("C02", "Spherical conversion is a faithful change of coordinates",
     "Converting space points to spherical coordinates (ISO 80000-2) gives "
     "radius >= 0, inclination from the z axis in [0, pi] and azimuth in "
     "(-pi, pi] that reproduce the point, and converting back returns the "
     "points, the origin included; spherical coordinates in range survive "
     "the opposite round trip. Any axis may hold the components and all "
     "other axes are kept.",
     ["inputs", "configurations"],
     "all points of space incl. the origin and the z axis; all angles",
     "Tests convert a handful of points away from the singularities.",
     [CS],
     [("spherical", CS + ":cartesian_to_spherical/spherical_to_cartesian")],
     ["cartesian_to_spherical", "spherical_to_cartesian",
      "transform_coordinates"])
prop("C03", "Coordinate transforms keep labels and metadata consistent",
     "Transforming a labelled array between coordinate systems gives the "
     "numbers of the plain conversion along the chosen dimension, keeps the "
     "order and the other labels, replaces the converted dimension's name "
     "and labels by those of the target system unless asked not to, and "
     "updates the recorded coordinate system. Unsupported pairs and missing "
     "source systems are rejected.",
     ["inputs", "configurations"],
     "all values, all dimension orders up to three dimensions, all system "
     "pairs",
     "Tests cover one dimension order.",
     [IN, CO],
     [("dispatch", IN + ":transform_coordinates"),
      ("labels", CO + ":_replace_dim")],
     ["transform_coordinates"])

# --- velocities -------------------------------------------------------
prop("V01", "Estimated linear velocity is the gradient of position",
     "Linear velocity estimated from a position series is its second-order "
     "accurate finite-difference gradient with respect to the timestamps: "
     "exact for motion of constant velocity whatever the sampling, "
     "linear in the positions, and inversely proportional to the time scale. "
     "Axis placement and labelled form do not matter, and outlier "
     "suppression replaces only flagged samples.",
     ["inputs", "configurations"],
     "all positions and increasing timestamps up to 5 samples, all axes",
     "Tests check the velocity of a sine with a tolerance.",
     [CO, ES],
     [("gradient", CO + ":_estimate_linear_velocity"),
      ("front end", ES + ":estimate_linear_velocity")],
     ["estimate_linear_velocity", "lookup_linear_velocity"])
prop("V02", "Estimated angular velocity is that of the rotation series",
     "Angular velocity estimated from a rotation series is twice the "
     "conjugate of the rotation times its time derivative, in the moving "
     "frame; a constant rotation gives zero, a constant offset rotation "
     "applied on the reference side does not change it, and samples that are "
     "not a number affect only themselves. Axis placement and labelled form "
     "do not matter and units are per second also for calendar timestamps.",
     ["inputs", "configurations"],
     "all unit quaternion series up to 5 samples, any position of missing "
     "samples, all axes",
     "Tests check one synthetic motion with a tolerance.",
     [CO, ES],
     [("estimate", CO + ":_estimate_angular_velocity"),
      ("front end", ES + ":estimate_angular_velocity")],
     ["estimate_angular_velocity", "lookup_angular_velocity"])
prop("V03", "Looked-up velocities are expressed in the requested frame",
     "The twist looked up for a frame with respect to a reference is the "
     "velocity of the looked-up transform, rotated into the requested "
     "representation frame; asking for linear, angular or both gives the "
     "same numbers, and the function and method forms agree. The reference "
     "defaults to the parent, and static transforms are refused or, if "
     "allowed, have zero velocity.",
     ["inputs", "configurations"],
     "all motions, static offsets and representation frames on trees of up "
     "to 4 frames",
     "Tests check the shapes and one synthetic motion.",
     [RF, IN, CO],
     [("twist", RF + ":lookup_twist"),
      ("linear", RF + ":lookup_linear_velocity"),
      ("angular", RF + ":lookup_angular_velocity"),
      ("front end", IN + ":lookup_twist")],
     ["lookup_twist", "lookup_linear_velocity", "lookup_angular_velocity"])
prop("V04", "Transformed velocities follow rigid-body kinematics",
     "Changing the representation frame of a velocity rotates it; changing "
     "the reference frame of an angular velocity adds the old reference's "
     "angular velocity relative to the new one, and for a linear velocity "
     "also the linear velocity of that motion plus its rotation crossed with "
     "the lever arm to the moving frame; changing the moving frame adds the "
     "new moving frame's relative velocity likewise. Between frames at rest "
     "to each other only the representation changes, save the lever-arm "
     "term.",
     ["inputs", "configurations"],
     "all velocities and transforms; static and moving relative motion; all "
     "three kinds of change",
     "Tests compare one synthetic motion with a tolerance.",
     [RF, CO],
     [("angular", RF + ":transform_angular_velocity"),
      ("linear", RF + ":transform_linear_velocity")],
     ["transform_angular_velocity", "transform_linear_velocity"])

# --- estimators -------------------------------------------------------
prop("E01", "The shortest-arc rotation maps one vector onto the other",
     "For all non-zero, not opposite vectors, the shortest-arc rotation is "
     "the unit quaternion that turns the direction of the first onto the "
     "second about an axis perpendicular to both, by at most half a turn; "
     "it ignores lengths, is the identity for parallel vectors and inverted "
     "by swapping the vectors. Arrays with components on any axis, plain or "
     "labelled, are treated vector by vector.",
     ["inputs", "configurations"],
     "all non-zero, non-opposite vector pairs; arrays up to two dimensions, "
     "every axis",
     "Tests rotate three axis-aligned examples.",
     [ES], [("formula", ES + ":shortest_arc_rotation")],
     ["shortest_arc_rotation"])
prop("E02", "The best-fit rotation is a proper, optimal rotation",
     "The best-fit rotation between two sets of vectors is always a proper "
     "rotation, reproduces the rotation exactly if the second set is a "
     "rotated copy of the first, and no rotation gives a smaller sum of "
     "squared residuals, reflected and planar configurations included. It "
     "does not depend on array layout or labelled form.",
     ["inputs", "configurations"],
     "all pairs of vector sets whose correlation has the registered "
     "singular directions, with both signs of its determinant",
     "Tests use exactly rotated noise-free sets.",
     [ES], [("fit", ES + ":best_fit_rotation")], ["best_fit_rotation"])
prop("E03", "The best-fit transform is a proper, optimal rigid motion",
     "The best-fit transform between two sets of points is a proper rigid "
     "motion that maps the centroid of the first set onto the centroid of "
     "the second and has the optimal rotation about it, so it recovers any "
     "rigid motion exactly and undoes a translation of either set. It does "
     "not depend on array layout or labelled form.",
     ["inputs", "configurations"],
     "all point sets (up to 3 pairs or registered singular directions), "
     "reflected and planar configurations included",
     "Tests use exactly transformed noise-free sets.",
     [ES], [("fit", ES + ":best_fit_transform")], ["best_fit_transform"])
prop("E04", "Iterative point matching returns the motion it has applied",
     "Iterative closest point returns a rigid motion that carries the first "
     "point set to where its own successive best-fit updates put it, uses at "
     "most the given number of updates and stops once the mean distance "
     "improves by less than the tolerance. It starts from the given initial "
     "motion and leaves points that already match unmoved.",
     ["inputs", "configurations"],
     "bounded point sets, up to 3 updates, all stopping patterns",
     "Tests run it on one easy example.",
     [ES], [("iteration", ES + ":iterative_closest_point")],
     ["iterative_closest_point"])

# --- registry ---------------------------------------------------------
prop("R01", "The registry maps each name to the frame last registered for it",
     "After any sequence of registering, updating, deregistering, clearing "
     "and destroying frames, looking up a name gives the frame most recently "
     "registered under it and not removed since; registering a taken name "
     "without the update option and removing or using an unknown name are "
     "ValueErrors. Each frame's parent is the one it was given.",
     ["histories"],
     "all sequences of up to 4 operations over symbolic names",
     "Tests run single operations from an empty registry.",
     [RF, CO],
     [("register", RF + ":_register/register_frame"),
      ("deregister", RF + ":_deregister/__del__"),
      ("resolve", CO + ":_resolve_rf")],
     ["registry", "register_frame", "deregister_frame"])
prop("R02", "A failed registration changes nothing",
     "If registering or constructing a frame is refused for whatever reason, "
     "the registry and the tree below every existing frame are what they "
     "were before, and later registrations and transforms behave as if the "
     "attempt had not been made.",
     ["histories", "fault_sequences"],
     "every kind of invalid argument after every sequence of up to 3 valid "
     "operations",
     "Tests check that an error is raised, not what it leaves behind.",
     [RF],
     [("constructor", RF + ":ReferenceFrame.__init__"),
      ("register", RF + ":register_frame/_register")],
     ["registry", "frame children"])

# --- import, ROS, plotting --------------------------------------------
prop("O01", "Motion-capture import reproduces the exported poses",
     "Loading a motion-capture export gives, for every rigid body and no "
     "marker, positions in metres, orientations equal to the exported angles "
     "composed in the exported axis order, and timestamps of capture start "
     "plus frame time; the plain, table and labelled formats contain the "
     "same values.",
     ["inputs", "configurations"],
     "all exported coordinates, angles, axis orders and length units",
     "One recorded file is loaded.",
     [IO, UT], [("import", IO + ":load_optitrack")], ["load_optitrack"])
prop("S01", "ROS message conversion is lossless and ordered correctly",
     "Packing a transform, pose, twist, vector, point or orientation into "
     "its ROS message and unpacking it returns the same values, with the "
     "scalar part of orientations first on the package's side and last in "
     "the message constructor, and frame names and time stamps are those "
     "given. Stamped and plain messages unpack alike.",
     ["inputs"],
     "all component values and times, all message kinds",
     "The ROS tests are skipped without a ROS installation.",
     [RM], [("packing", RM + ":make_*/unpack_*")], ["messages"])
prop("S02", "The ROS transform buffer receives the complete frame tree",
     "Exporting a frame tree to a ROS buffer adds every non-root frame of "
     "the whole tree with its parent, static ones once and moving ones for "
     "every sample with its time, and keeps a history spanning the earliest "
     "to the latest sample. Lookups and transformations through the buffer "
     "pass on frames, time and values in their stated roles.",
     ["inputs", "configurations"],
     "all transforms; trees of up to 4 frames, static and moving",
     "The ROS tests are skipped without a ROS installation.",
     [RT], [("export", RT + ":Transformer.from_reference_frame"),
            ("queries", RT + ":Transformer.transform_*")],
     ["tf2 buffer calls"])
prop("S03", "The ROS broadcaster publishes the requested sample",
     "Publishing a sample, by index, on an incoming message or while "
     "spinning, sends the transform of exactly that sample (first by "
     "default, nearest in time for incoming messages, consecutive and "
     "wrapping around while spinning, with the samples' time differences in "
     "between), together with the matching pose and twist if requested. "
     "Static transforms are published without time. Poses and twists are "
     "also sent to subscribers that connect later.",
     ["inputs", "histories"],
     "all transforms and indices; all incoming times relative to the "
     "samples; up to 4 spin steps",
     "The ROS tests are skipped without a ROS installation.",
     [RT], [("publish", RT + ":ReferenceFrameTransformBroadcaster.publish"),
            ("spin", RT + ":_spin_blocking"),
            ("incoming", RT + ":handle_incoming_msg")],
     ["published messages"])
prop("S04", "ROS path markers show the trajectory within the point limit",
     "A frame's path marker contains positions of the frame relative to the "
     "base in time order starting with the first, never more than the given "
     "maximum, all of them if they fit and otherwise spread over the whole "
     "trajectory, with the requested type, scale, colour and pose. A marker is sent again only when its content has "
     "changed, and stays available to subscribers that connect later.",
     ["inputs", "configurations", "histories"],
     "all translations; all sample counts up to 7 and maxima up to 7",
     "The ROS tests are skipped without a ROS installation.",
     [RV], [("sub-sampling", RV + ":ReferenceFrameMarkerPublisher.__init__"),
            ("marker", RV + ":get_marker/hex_to_rgba"),
            ("publish", RV + ":BaseMarkerPublisher.publish")],
     ["published markers"])
prop("S05", "Bag files are read and written without mixing up data",
     "Messages read from a bag topic give one row per message in order with "
     "every value in its named field and the header's time if there is one, "
     "as plain data and as labelled dataset; written transforms carry the "
     "given values, names and times. Cached datasets belong to the bag and "
     "topic asked for. Bags are closed when the block that uses them ends, "
     "by an error or not.",
     ["inputs", "histories", "configurations"],
     "all message contents; sequences of cached loads over topics and bags",
     "The ROS tests are skipped without a ROS installation.",
     [RI], [("read", RI + ":RosbagReader.load_messages/load_dataset"),
            ("cache", RI + ":RosbagReader.load_dataset"),
            ("write", RI + ":RosbagWriter.*")],
     ["bag contents", "datasets"])
prop("S06", "Playback controls stay within the recording",
     "The playback widget covers exactly the indices of the recording, "
     "forward and backward buttons move by the configured number of messages "
     "in their direction from every position and never leave that range, and "
     "the playback interval is the mean sampling interval in milliseconds "
     "times the step, divided by the speed.",
     ["inputs", "histories"],
     "all positions, steps, skips, speeds and sampling intervals; sequences "
     "of up to 3 button presses",
     "Not tested.",
     [RU], [("widget", RU + ":play_publisher")], ["widget state"])
prop("P01", "Plotted frames, points and vectors fit equally scaled axes",
     "Plotting a frame draws the frame's origin and axes, of the given "
     "length, as seen from the world frame, and afterwards the three axis "
     "ranges have equal length and contain everything plotted and everything "
     "visible before. Plotted points, vectors and quaternions are those "
     "given, at their base points, and ill-shaped data is rejected.",
     ["inputs", "configurations"],
     "all transforms, arrow lengths and previous axis limits",
     "Tests only check that plotting does not fail.",
     [PL], [("frame", PL + ":_add_frame"), ("axes", PL + ":_set_axes_equal"),
            ("data", PL + ":plot_points/plot_vectors/plot_quaternions")],
     ["drawn artists", "axis limits"])
