import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None,state=state or [])))
G="differt2d/geometry.py";L="differt2d/logic.py";S="differt2d/scene.py";O="differt2d/optimize.py";A="differt2d/abc.py";U="differt2d/utils.py"
p("C01","Soft comparisons never contradict the exact ones",
 "With approximation enabled, every comparison (greater, greater-or-equal, less, less-or-equal) of finite numbers returns, for every positive slope and either built-in activation, a value in [0, 1] that exceeds 1/2 only when the exact comparison holds, is below 1/2 only when it fails, never decreases as the compared difference moves in the comparison's favour, is complementary for opposite differences, and (hard sigmoid, the default) is exactly 0 or 1 once the difference exceeds 3/slope. "
 "The default slope is 100 and the default activation the hard sigmoid; slope and activation given by the caller are honoured by every comparison. "
 "With approximation disabled, each comparison is exactly the Boolean comparison of its operands, element-wise.",
 ["inputs"],"all real operands (incl. equal ones), all slopes > 0, both activations, scalar and array operands, all four comparisons",
 "Tests sample a few dozen random floats and check equality with the formula; sign or orientation slips that only show on one side of zero, for one slope or one activation are sampled at best.",
 [L],[("activation/sigmoid/hard_sigmoid",L),("greater, greater_equal, less, less_equal",L)],["return value of the comparison functions"])
p("C02","Fuzzy connectives obey Boolean laws and commute with thresholding",
 "For truth values in [0, 1], and/or/not/all/any stay in [0, 1], equal the Boolean connective on 0/1 values, satisfy De Morgan, commutativity and associativity, and reduce along the requested axes exactly like the Boolean reduction; thresholding with is_true/is_false commutes with them. "
 "is_true and is_false are never both true for tolerances up to 1/2, is_true(x) equals is_false(not x), and the canonical true/false values pass and fail accordingly. "
 "With approximation disabled every function is the exact Boolean connective on its operands.",
 ["inputs"],"all truth values in [0,1] (or Booleans), all array contents up to the shape bounds, every axis argument, every tolerance",
 "Tests compare with the same jnp call on random arrays, so they cannot notice an algebraic law failing for some value combination, axis or tolerance.",
 [L],[("logical_and/or/not/all/any, is_true, is_false, true_value, false_value",L)])
p("C03","Approximation mode is scoped: restored on exit, for any history or thread",
 "Entering the enable/disable-approximation context sets the mode used by every function that is called (or, as documented, compiled) later and leaves the mode unspecified, and leaving it - normally or through an exception, in any nesting, with any interleaved explicit set - restores the mode that was current when the context was entered. "
 "Calls that specify the mode explicitly ignore the ambient one. "
 "With several threads using the contexts concurrently, each thread sees its own requested mode inside its context and after all contexts are closed the mode is the one from before.",
 ["histories","schedules"],"all nestings/sequences of set/enable/disable with and without exceptions up to the depth bound; all interleavings of the mode and lock operations of two or three threads",
 "Tests run one or two fixed sequences on a single thread.",
 [L],[("ENABLE_APPROX, _LOCK, set_approx, enable_approx, disable_approx",L)],state=[dict(name="ENABLE_APPROX",meaning="ambient mode",where=L)])
p("C04","Parametric and Cartesian coordinates of objects agree",
 "For walls and RIS, converting parametric to Cartesian coordinates is affine with 0 and 1 at the two end points, the reverse conversion is the orthogonal projection onto the wall's line, the two are inverse on the line, and a parametric coordinate is contained exactly when it lies in [0, 1]. "
 "For vertices, which have no parameters, the Cartesian position is the vertex itself, everything is contained, and nothing is ever intersected. "
 "A randomly sampled point of an object lies on it, and a zero-length wall yields finite values rather than NaN.",
 ["inputs"],"all end points, points and parameters (reals), degenerate walls included; approximate and exact containment",
 "Tests use a handful of axis-aligned walls and points.",
 [G,A],[("Wall/Vertex parametric_to_cartesian, cartesian_to_parametric, contains_parametric",G),("Interactable.sample",A)])
p("C05","Obstruction tests are the geometric truth",
 "In exact mode, two non-parallel segments are reported as intersecting if and only if they cross when each is extended by the given tolerance (relative to its length) at both ends, parallel ones never, and the answer never depends on the order of the segments or of their end points; the default tolerance is 0.005. "
 "A wall obstructs a ray exactly when the ray crosses the wall extended by the patch fraction of its length at both ends, so growing the patch or the tolerance never removes an obstruction. "
 "In approximate mode the value lies in [0, 1], is never NaN, and values above (below) 1/2 occur only where the exact answer, for the same arguments, is true (false).",
 ["inputs"],"all segment end points, tolerances and patches (reals), both modes, both activations and all slopes",
 "Tests cover six hand-picked pairs of axis-aligned segments.",
 [G],[("segments_intersect",G),("Wall.intersects_cartesian",G)])
p("C06","Mirror image and wall normal",
 "The normal of any non-degenerate wall is a unit vector orthogonal to the wall, pointing to the right of the direction from its origin to its destination. "
 "The image of a point is its reflection across the wall's supporting line: the segment from point to image is perpendicular to the wall, its midpoint is on the line, distances to points of the line are preserved, and imaging twice returns the point. "
 "For a zero-length wall the normal is the zero vector and the image of a point is the point itself; nothing is NaN.",
 ["inputs"],"all wall end points and points (reals)",
 "Tests reflect a few random points across axis-aligned walls only.",
 [G],[("Wall.normal, Wall.image_of, normalize",G)])
p("C07","Interaction loss is zero exactly for physical interactions",
 "The interaction loss of a wall is finite, non-negative, at most 4, and zero if and only if the outgoing direction is the specular reflection of the incoming one (both non-zero), whatever the lengths of the two segments. "
 "The loss of a RIS depends only on the outgoing direction and is zero if and only if the signed angle from the reversed outgoing direction to the wall's normal is the configured angle. "
 "The loss of a vertex is always zero.",
 ["inputs"],"all walls, incident/interaction/outgoing points and RIS angles (reals)",
 "Tests check a couple of fixed rays and random seeds, with a tolerance.",
 [G],[("Wall/RIS/Vertex.evaluate_cartesian",G)])
p("C08","Image-method paths are true specular paths",
 "A path traced with the image method starts at the transmitter, ends at the receiver and has one point per wall in the given order, each on that wall's supporting line (whenever no image segment is parallel to its wall); without walls it is the direct segment with zero loss. "
 "When, moreover, each interaction stays on the physical side, every bounce obeys the specular law, the reported loss is zero, and the total length equals the distance from the receiver to the transmitter's repeated image; the reported loss is in any case the sum of the walls' interaction losses along the path, finite and never NaN. "
 "Swapping transmitter and receiver and reversing the wall order gives the reversed path.",
 ["inputs"],"all transmitter/receiver positions and walls (reals) for orders 0 and 1; higher orders with walls of arbitrary offset and rational direction",
 "Tests check orders 0-3 in one or two fixed scenes.",
 [G],[("ImagePath.from_tx_objects_rx",G)])
p("C09","Path length is the sum of the segment lengths",
 "The length of a path is the sum of the Euclidean lengths of its consecutive segments (up to a negligible epsilon), for any number of points; it is invariant under reversing the path and never shorter than the straight line between its ends. "
 "Its gradient with respect to the points is finite even when consecutive points coincide.",
 ["inputs"],"all point sequences up to the size bound",
 "Tests compare with the same norm formula on random arrays.",
 [G],[("path_length, Path.length",G)])
p("C10","A path is valid iff on its objects, unobstructed, and low-loss",
 "In exact mode a path is reported valid if and only if each interaction point lies on its object (in order), no segment of the path is obstructed by an object of the scene other than the one(s) interacted with at that segment's ends, and its loss is below the tolerance; the requested tolerance, patch, mode and activation settings are those used in all three tests. "
 "In approximate mode the validity is a number in [0, 1], never NaN, that exceeds 1/2 only if the exact test passes and is below 1/2 only if it fails. "
 "Interaction points and obstructions are judged by the objects' own containment and intersection tests, whatever their class.",
 ["inputs","configurations"],"all outcomes of the objects' tests, losses, tolerances, all candidates up to order 3 over up to 4 objects",
 "Tests check a handful of paths in a fixed square scene.",
 [G],[("Path.on_objects, intersects_with_objects, is_valid",G)])
p("C11","Tracing enumerates every candidate once and keeps exactly the valid ones",
 "Tracing a scene yields exactly one result per (transmitter, receiver, path candidate), grouped by transmitter then receiver in scene order and candidate order, built by the requested path class from that transmitter, the objects named by the candidate in that order, and that receiver; its validity is evaluated against all scene objects with the caller's settings. "
 "The valid-paths listing is exactly the sub-sequence whose validity is considered true in the requested mode. "
 "With a random key, every path gets its own distinct key.",
 ["inputs","configurations"],"all scenes up to the size bound, all validity outcomes, order and filter settings",
 "Tests count paths in fixed scenes.",
 [S],[("Scene.all_paths, all_valid_paths, get_interacting_objects, all_transmitter_receiver_pairs",S)])
p("C12","Path candidates are exactly the admissible object sequences",
 "The path candidates of a scene are, for each order from the minimum to the maximum (or the single requested order), exactly once each, all sequences of that many object indices in which consecutive indices differ, ordered by increasing order. "
 "When an object filter is given, exactly the sequences that never visit an object rejected by the filter are returned.",
 ["inputs","configurations"],"all numbers of objects, order ranges and filter outcomes up to the bounds",
 "Tests check counts for a few sizes and one filter.",
 [S],[("all_path_candidates, Scene.all_path_candidates",S)])
p("C13","Accumulated totals are the validity-weighted sums over paths",
 "Accumulating a function over paths yields for each (transmitter, receiver) pair, in order, the sum over all its path candidates of validity times the function's value at that transmitter, receiver, path and interacting objects, with the caller's extra arguments passed through. "
 "Requesting a total returns the sum of these over all pairs, and order range, filter, path class and validity settings given by the caller apply.",
 ["inputs","configurations"],"all function values and validity outcomes, scenes up to the size bound",
 "Tests compare one scene against a hand loop with the same code.",
 [S],[("Scene.accumulate_over_paths",S)])
p("C14","Coverage grids equal the point-wise totals",
 "The value at each cell of a transmitter-grid (receiver-grid) accumulation equals what accumulating over the paths gives when the scene's transmitters (receivers) are replaced by a single node at that cell's coordinates, one map per receiver (transmitter), in order; the map has the shape of the given grid and cell (i, j) uses coordinates (X[i,j], Y[i,j]). "
 "The reduced map is the sum of the per-node maps. "
 "The accumulated function receives a node of the requested class at the cell's position, and all order, filter, path, key and validity settings apply as in the point-wise case.",
 ["inputs","configurations"],"all coordinates, function values and validity outcomes; grids, scenes and orders up to the size bound",
 "Tests compare one small grid of one scene.",
 [S],[("Scene.accumulate_on_transmitters_grid_over_paths, accumulate_on_receivers_grid_over_paths",S)])
p("C15","Reported gradients are the derivatives of the reported values",
 "On both kinds of grid, requesting gradients returns for every cell the derivative of that cell's accumulated value with respect to that cell's own coordinates (x then y), and requesting values and gradients returns the pair of both maps, unreduced per node or summed over nodes. "
 "In approximate mode with a smooth-enough configuration the gradient is finite.",
 ["inputs","configurations"],"all coordinates and function coefficients; grids and scenes up to the size bound",
 "Tests only check output shapes and one comparison on one scene.",
 [S],[("accumulate_on_*_grid_over_paths grad/value_and_grad",S)])
p("C16","Scene edits are pure, complete and order-preserving",
 "Replacing, updating, renaming, adding or filtering transmitters, receivers or objects returns a new scene in which exactly the requested part changed - replaced entries keep their position, new ones are appended in order, filtering keeps exactly the accepted objects in order - while every other part and the original scene are unchanged. "
 "The node mappings behave like ordinary insertion-ordered dictionaries (lookup, membership, length, iteration, missing key error) and survive flattening to leaves and back.",
 ["inputs","histories"],"all name choices (with and without collisions between old and new), scene sizes and edit sequences up to the bound",
 "Tests apply each edit once to one scene.",
 [S],[("Scene.with_*/update_*/add_objects/filter_objects/rename_*, PyTreeDict",S)])
p("C17","Bounding boxes are tight; locations and grids follow from them",
 "The bounding box of a point, ray, wall, path or scene has as first row the minimum and as second row the maximum of each coordinate over everything it contains (all transmitters, receivers and objects for a scene). "
 "The centre and the nine compass locations are the corresponding points of that box. "
 "A grid spans exactly the box with the requested numbers of columns and rows (square when one number is given), X varying along columns and Y along rows, evenly spaced and including both ends.",
 ["inputs"],"all coordinates; scenes up to the size bound, all locations, grid sizes up to the bound",
 "Tests check one or two boxes and locations.",
 [A,G,S],[("Plottable.grid/center/get_location",A),("bounding_box methods",G+", "+S)])
p("C18","Closest-node queries return the true nearest node",
 "The closest-point query returns the index of a point at minimal Euclidean distance from the target (the first one on ties) together with that distance, and the closest transmitter (receiver) query returns the name of that node and that distance.",
 ["inputs"],"all point sets up to the size bound and all targets",
 "Tests use random points and compare with the same argmin.",
 [G,S],[("closest_point",G),("Scene.get_closest_transmitter/receiver",S)])
p("C19","Received power follows its law",
 "The received power of a path with n interactions and length r is (reflection coefficient)^n / (height^2 + r^2), with default coefficient 0.5 and height 0.1. "
 "Hence it is non-negative, never increases with the length, or (coefficient at most 1) with the number of interactions, and is finite even for a zero-length path.",
 ["inputs"],"all paths up to the point bound, coefficients in [0,1], heights > 0",
 "Tests compare one path.",
 [U],[("received_power",U)])
p("C20","Minimisers return a consistent, best-of-all solution",
 "Minimisation performs exactly the requested number of optimiser steps from the given start, with the caller's optimiser and extra arguments, and returns the final point together with the objective's value at that point. "
 "The random variant starts from a point drawn uniformly in the unit cube, and the multi-start variant runs the requested number of independent starts and returns the solution with the smallest loss among them.",
 ["inputs"],"all quadratic objectives, starting points, draws, step counts and numbers of starts up to the bounds (symbolic coefficients), gradient-descent optimiser",
 "Tests check convergence on one function, to a tolerance.",
 [O],[("minimize, minimize_random_uniform, minimize_many_random_uniform",O)])
p("C21","Optimised paths are consistent with what was optimised",
 "Whatever point the optimiser returns, a Fermat or min-path starts at the transmitter, ends at the receiver, places its i-th interior point on the i-th object at that object's share of the optimised parameters in order, and without objects is the direct segment with zero loss. "
 "The objective handed to the optimiser is the path length (Fermat) or the sum of the objects' interaction losses (min-path), and the reported loss is the sum of the interaction losses of the returned path. "
 "The key and the optimisation settings given by the caller reach the optimiser, with a single start by default.",
 ["inputs","configurations"],"all parameter vectors, objects with 0, 1 or 2 parameters in any mix up to the bound, all positions",
 "Tests check the converged result in fixed scenes.",
 [G],[("FermatPath/MinPath.from_tx_objects_rx, parametric_to_cartesian",G)])
p("C22","GeoJSON import creates every polygon edge and nothing else",
 "Importing GeoJSON creates, for each polygon feature in order, one wall per pair of cyclically consecutive vertices of its exterior ring, with exactly the listed coordinates, and ignores features without geometry or with other geometry types. "
 "The transmitter and receiver are placed at the requested locations of the bounding box of the walls (or at (0,0) and (1,1) when there are none), and text, bytes and readable inputs give the same scene.",
 ["inputs"],"all vertex coordinates; feature collections up to the size bound with every mix of geometry types",
 "Tests import one file.",
 [S],[("Scene.from_geojson",S)])
p("C23","Generated and built-in scenes are what they claim",
 "A random scene has the requested numbers of named transmitters, receivers and walls, all inside the unit square, with every node and wall end point its own independent draw. "
 "The built-in scenes have closed walls in the documented places with transmitter and receiver at the requested coordinates, and obstacle and extra-wall sizes proportional to the requested ratio and centred; scenes built from arrays or stacked objects contain exactly these objects in order.",
 ["inputs","configurations"],"all draws, sizes up to the bound, all coordinates and ratios",
 "Tests check counts only.",
 [S,G],[("Scene.random_uniform_scene, *_scene, from_walls_array, from_stacked_objects",S),("stack_leaves/unstack_leaves",G)])
p("C24","Rotating a ray is a rigid rotation",
 "Rotating a ray by an angle around a centre (the coordinate origin by default, or a given point) rotates both its end points counter-clockwise by that angle around that centre: lengths and distances to the centre are preserved, opposite rotations cancel and the rotated end points are those of the rotation matrix. "
 "Every other attribute of the object is kept and the original is unchanged.",
 ["inputs"],"all rays, centres and angles (reals)",
 "The only test is a doctest at angle pi of a ray starting at the origin, where any mix-up of rows and columns vanishes.",
 [G],[("Ray.rotate",G)])
p("C25","Stacking objects and looking them up by index are faithful",
 "Stacking objects and unstacking them (and building a scene from stacked objects) returns the same objects in the same order, every field included. "
 "Looking up an object by a (possibly traced) index returns exactly the object at that position, and the interacting objects of a candidate are the objects at its indices, in order, with repetition.",
 ["inputs"],"all field values, all indices, up to the size bound, homogeneous and mixed scenes",
 "Tests stack one list once.",
 [G,S],[("stack_leaves, unstack_leaves",G),("Scene.get_object, stacked_objects, get_interacting_objects",S)])
p("C26","Plotting draws exactly the requested items",
 "Plotting a scene draws every transmitter, object and receiver whose group is enabled exactly once, in that order, at its coordinates, with the group's own positional and keyword arguments plus the common ones, and returns all created artists. "
 "Nodes are annotated with their name at their position if and only if annotations are enabled, transmitters default to blue and receivers to green unless overridden, and rays, walls and paths are drawn through all their points in order.",
 ["inputs","configurations"],"all flag combinations, coordinates and sizes up to the bound",
 "Tests only check that plotting does not raise / the number of artists in one configuration.",
 [S,G],[("Scene.plot",S),("Point/Ray/Path.plot",G)])
p("C27","Optimised paths converge to stationary points",
 "For every scene and key, Fermat and min-path tracing with default settings converge to a stationary point of their objective within the default number of steps.",
 ["inputs"],"all scenes and keys","Only sampled.",[G,O],[("FermatPath, MinPath",G)])
p("C28","Float32 results stay within a stated error of the real-number results",
 "For inputs within the unit square, every traced coordinate and loss computed in single precision is within a fixed error of its exact value.",
 ["inputs"],"all float32 inputs","Only sampled.",[G],[("all geometry kernels",G)])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
