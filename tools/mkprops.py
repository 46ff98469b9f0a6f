"""Writes /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})

prop("P01", "Frame changes are rigid and mutually inverse",
     "For every obstacle pose and every point, converting between the obstacle frame and the global frame is the rigid motion given by the obstacle's position and rotation (points rotate and translate, directions only rotate), and converting there and back returns the original point or direction. An obstacle without a pose, or a conversion from a frame to itself, changes nothing. The reference point reported in either frame is the same physical point, and setting it in either frame stores that physical point.",
     ["inputs"], "all real positions, rotations, points and directions; all frame pairs; with and without a pose",
     "The tests only draw figures: no assertion compares a transformed point with anything, and a continuum of poses cannot be sampled exhaustively.",
     ["utils/cg.py", "obstacles/obstacle.py", "obstacles/starshaped_obstacle.py"],
     [("affine_transform", "utils/cg.py"), ("Obstacle.transform / rotate / pos / rot", "obstacles/obstacle.py"), ("StarshapedObstacle.xr / set_xr / reference_direction", "obstacles/starshaped_obstacle.py")],
     ["transform, rotate, xr, set_xr return values"])

prop("P02", "Global shape and kernel always follow the current pose",
     "After any sequence of motion steps, pose assignments, motion-model replacements and shape queries, the global-frame polygon and the global-frame kernel of an obstacle equal its obstacle-frame polygon and kernel placed at the obstacle's pose at the time of the query. Asking for a shape never changes the obstacle-frame shape or the pose.",
     ["histories", "inputs"], "every history of moves, pose writes, motion-model replacements and queries, all poses",
     "The tests query each obstacle at one or two poses and never compare; stale caches need a particular history of queries and moves.",
     ["obstacles/obstacle.py", "obstacles/starshaped_obstacle.py", "obstacles/motion_model.py", "obstacles/ellipse.py"],
     [("Obstacle.polygon pose-keyed cache", "obstacles/obstacle.py"), ("StarshapedObstacle.kernel pose-keyed cache", "obstacles/starshaped_obstacle.py")],
     ["polygon(frame), kernel(frame)"],
     [("_polygon_global_pose/_polygon_global", "cache key and cached shape", "obstacles/obstacle.py"), ("_kernel_global_pose/_kernel_global", "cache key and cached kernel", "obstacles/starshaped_obstacle.py")])

prop("P03", "Inside, boundary and outside are classified correctly",
     "A point is reported as interior, boundary or exterior of an obstacle according to the obstacle's true shape: the ellipse equation for ellipses, the polygon's interior, edges and vertices for polygons, and the union of the parts for a combined obstacle (interior of any part is interior, otherwise on the boundary of any part is boundary). No point is reported both interior and exterior, and the answer does not depend on the frame in which the point is expressed.",
     ["inputs"], "all obstacles, poses, frames and points, including points on edges, on vertices and on the bounding box",
     "The tests use exterior_point only as a rejection filter for random points; boundary points have measure zero and are never drawn.",
     ["obstacles/obstacle.py", "obstacles/ellipse.py", "obstacles/polygon.py", "obstacles/starshaped_primitive_combination.py"],
     [("point_location", "obstacles/ellipse.py"), ("point_location", "obstacles/polygon.py"), ("point_location and hull location", "obstacles/starshaped_primitive_combination.py"), ("interior_point / exterior_point / boundary_point", "obstacles/obstacle.py")],
     ["point_location, interior_point, exterior_point, boundary_point"])

prop("P04", "Ellipse-segment intersection is sound and complete",
     "For any ellipse, pose and line segment of positive length, every point returned by the line intersection query lies on the segment and on the ellipse boundary, and every crossing of the segment with the boundary is returned. This holds for every slope, including vertical and tangent lines, and for every combination of input and output frame.",
     ["inputs"], "all ellipse axes, poses, segments and frame pairs",
     "The tests never look at intersection results; vertical, near-vertical and tangent segments are measure-zero cases.",
     ["obstacles/ellipse.py"], [("Ellipse.line_intersection", "obstacles/ellipse.py")], ["line_intersection result"])

prop("P05", "Ellipse tangent points are exact and ordered",
     "For any ellipse, pose and exterior point, exactly two tangent points are returned, both lie on the ellipse boundary, and the lines from the point through them touch the ellipse without crossing it. The first is reached last when turning counterclockwise, so the obstacle is seen clockwise from the first to the second, in every combination of input and output frame; points that are not exterior get no tangent points.",
     ["inputs"], "all ellipse axes, poses, query points and frame pairs",
     "The tests draw the tangents of one random point; the vertical-tangent case and mixed frames are never exercised.",
     ["obstacles/ellipse.py"], [("Ellipse.tangent_points", "obstacles/ellipse.py")], ["tangent_points result"])

prop("P06", "Polygon tangent points bound the polygon as seen from a point",
     "When the polygon tangent query returns two points, both are vertices of the polygon and every vertex lies in the angular range swept clockwise from the first to the second as seen from the query point. No tangent points are returned for a point strictly inside the polygon, and for a point strictly outside, two are returned exactly when the direction from the point to the boundary sweeps less than a full turn as the boundary is traversed; this includes every point strictly outside the convex hull.",
     ["inputs"], "all polygons with any number of vertices, all poses, all query points, all frames",
     "The tests only draw two tangent lines of one random star polygon; angle wrap-around needs particular relative positions.",
     ["obstacles/polygon.py"], [("Polygon.tangent_points (angle unwrapping, argmin/argmax)", "obstacles/polygon.py")], ["tangent_points result"])

prop("P07", "Radial boundary mapping and distance function agree with the shape",
     "For an ellipse or starshaped polygon whose reference point is interior to its kernel and any other point, the boundary mapping returns the boundary point on the ray from the reference point through that point. The distance function is below one exactly for interior points, one on the boundary and above one outside, in every frame.",
     ["inputs"], "all ellipses and starshaped polygons, reference points interior to the kernel, query points, poses and frames",
     "The tests plot mapped points of random queries and assert nothing about where they lie.",
     ["obstacles/starshaped_obstacle.py", "obstacles/ellipse.py", "obstacles/starshaped_polygon.py"],
     [("boundary_mapping", "obstacles/ellipse.py"), ("boundary_mapping / distance_function", "obstacles/starshaped_polygon.py"), ("distance_function", "obstacles/starshaped_obstacle.py")],
     ["boundary_mapping, distance_function"])

prop("P08", "Boundary normals are unit, perpendicular and outward",
     "For an ellipse, the normal at any mapped boundary point has unit length, is perpendicular to the boundary there and points outward; for a starshaped polygon, the default normal has unit length, is perpendicular to the edge crossed by the ray from the reference point through the query point, and points outward. The normal rotates with the obstacle and is the same physical direction in every frame.",
     ["inputs"], "all ellipses and starshaped polygons, reference points interior to the kernel, query points, poses, frames",
     "The tests only draw arrows; edge selection at the wrap-around angle and frame rotation are not checked.",
     ["obstacles/ellipse.py", "obstacles/starshaped_polygon.py"],
     [("Ellipse.normal", "obstacles/ellipse.py"), ("StarshapedPolygon.normal and vertex angles", "obstacles/starshaped_polygon.py")],
     ["normal result"],
     [("vertices / vertex_angles", "vertices sorted by angle around the reference point", "obstacles/starshaped_polygon.py")])

prop("P09", "Line, segment and ray intersections are sound and complete",
     "The intersection of two lines, two line segments or two rays that are not parallel is the unique common point when it lies on both objects, and no point otherwise. The yes/no segment intersection tests agree with it whenever no endpoint of one segment is collinear with the other segment, and an intersection point reported for two segments lies on both.",
     ["inputs"], "all pairs of lines, segments and rays in the plane",
     "No test calls these functions except through drawings of cones.",
     ["utils/cg.py"],
     [("Line.line_intersection, LineSegment.line_segment_intersection, Ray.ray_intersection, Line.intersects", "utils/cg.py"), ("intersect, get_intersection, is_between", "utils/cg.py")],
     ["returned points and booleans"])

prop("P10", "Orientation predicates are a consistent trichotomy",
     "For any three points exactly one of clockwise, counterclockwise and collinear holds; clockwise triples turn right and counterclockwise triples turn left. Swapping two points exchanges clockwise and counterclockwise, cyclic rotation and translation change nothing, and the vectorised orientation value equals the scalar one.",
     ["inputs"], "all triples of points",
     "The orientation test is an empty function.",
     ["utils/cg.py"], [("orientation_val, np_orientation_val, is_cw, is_ccw, is_collinear", "utils/cg.py")], ["predicate results"])

prop("P11", "Cone membership and same-apex intersection are exact",
     "A point is in a cone exactly when its direction from the apex lies counterclockwise between the first and the second direction, for cones narrower and wider than a half plane. The same-apex intersection of any number of cones contains a direction exactly when every one of the cones contains it, whether the result is empty, one cone or several.",
     ["inputs"], "all apexes and directions, any number of cones, convex and non-convex; points not on the cone boundaries",
     "The cone test draws sixteen random cones and asserts nothing; two-piece intersections and shared rays are not reached.",
     ["utils/cg.py"], [("Cone.__init__, point_in_cone, intersection_same_apex, list_intersection", "utils/cg.py")], ["point_in_cone, intersection_same_apex, list_intersection"])

prop("P12", "A cone's polygon is the cone cut off at the bounding box",
     "For every cone whose apex lies inside the bounding box, the polygon of the cone is a valid polygon, and a point of the bounding box away from the boundary of the cone lies in the polygon exactly when it lies in the cone.",
     ["inputs"], "all apexes inside the box and all pairs of directions",
     "Sixteen random cones near the origin are drawn; rays hitting other box edges, corners, or the same edge twice are not reached.",
     ["utils/cg.py"], [("Cone.polygon", "utils/cg.py")], ["Cone.polygon vertices"])

prop("P13", "Admissible kernels keep the excluded point visible",
     "For a convex obstacle and an exterior point, the admissible kernel contains exactly the points from which no interior point of the obstacle is hidden behind the excluded point, that is, no segment from a point of the kernel to an interior obstacle point passes through the excluded point. For a point that is not exterior there is no admissible kernel.",
     ["inputs"], "all ellipses and convex polygons, poses, excluded points and kernel candidates",
     "The tests draw one polygon and one ellipse; the for-all over kernel points and obstacle points is not sampled.",
     ["starshaped_hull/starshaped_hull.py", "utils/cg.py", "obstacles/ellipse.py", "obstacles/polygon.py"],
     [("admissible_kernel", "starshaped_hull/starshaped_hull.py"), ("tangent_points", "obstacles/ellipse.py"), ("Cone", "utils/cg.py")], ["admissible_kernel result"])

prop("P14", "Clustering merges exactly the connected groups",
     "Grouping clusters by intersection puts every obstacle of the input in exactly one output cluster, merges two input clusters exactly when they are connected through a chain of pairwise intersecting clusters, and reports that intersections existed exactly when some pair intersects. When no pair intersects the clusters are returned unchanged.",
     ["inputs"], "any number of clusters and every intersection pattern between them",
     "One three-ellipse scene is run without assertions; chains, stars and late merges need particular patterns and index orders.",
     ["starshaped_hull/cluster_and_starify.py"], [("get_intersection_clusters merge loops", "starshaped_hull/cluster_and_starify.py")], ["returned clusters and flag"],
     [("intersection_idcs", "index sets being merged", "starshaped_hull/cluster_and_starify.py")])

prop("P15", "Clustering and starifying reports its outcome truthfully",
     "When the result is flagged complete (or the convex-hull stage ran out of time), the returned clusters together contain each given obstacle exactly once, every cluster has a shape, and no two clusters intersect, also after clusters were made convex. When it is flagged incomplete, one cluster per given obstacle is returned. The cluster history is returned exactly when it was requested.",
     ["inputs", "histories", "configurations"], "all obstacle sets, intersection patterns, iteration and time limits, option combinations",
     "One scene with default options is run; iteration limits, time limits, history and the convex stage are never exercised together with assertions.",
     ["starshaped_hull/cluster_and_starify.py"],
     [("cluster_and_starify main loop, exit flags, default result, make_convex stage", "starshaped_hull/cluster_and_starify.py"), ("ObstacleCluster.polygon cache", "starshaped_hull/cluster_and_starify.py")],
     ["cluster_and_starify return value"],
     [("cluster_history", "clusters already starified, by name", "starshaped_hull/cluster_and_starify.py")])

prop("P16", "Equilateral kernel triangle has the requested size and place",
     "An equilateral triangle built from a centroid, side length and rotation has its three sides equal to the side length, its vertices counted in a consistent orientation and its centroid at the requested point, for every rotation.",
     ["inputs"], "all centroids, non-negative side lengths and rotations",
     "The test of the triangle is an empty function.",
     ["utils/cg.py"], [("equilateral_triangle", "utils/cg.py")], ["returned vertices"])

prop("P17", "Convex hull encloses all points",
     "The convex hull of a non-empty point list consists of points of the list, starts at the leftmost point, and has every point of the list on the inner side of (or on) each of its edges, including when points are repeated or collinear.",
     ["inputs"], "all finite point lists of any length, including duplicates and collinear runs",
     "The convex hull test is an empty function.",
     ["utils/cg.py"], [("convex_hull (gift wrapping)", "utils/cg.py")], ["returned hull vertices"])

prop("P18", "Motion models integrate their velocities and respect their speeds",
     "A motion step advances position, rotation and time by exactly velocity times step; a static model never moves. Sinusoidal velocities never exceed the given magnitudes (and act along the heading in non-Cartesian mode); a waypoint follower moves at its set speed straight towards the next waypoint not yet within the threshold and stops after the last; an interval model's velocity on each time interval leads exactly from one given position to the next.",
     ["inputs", "histories"], "all model parameters, poses, times and step sequences",
     "No test moves an obstacle.",
     ["obstacles/motion_model.py", "obstacles/obstacle.py"], [("MotionModel.move, lin_vel, rot_vel of each model", "obstacles/motion_model.py"), ("Obstacle.move", "obstacles/obstacle.py")],
     ["pos, rot, lin_vel, rot_vel after any history"])

prop("P19", "Obstacle identifiers are unique and copies are faithful",
     "Every obstacle created as new, or copied as new, gets an identifier never given out before; temporary copies have none, and a duplicate keeps the identifier of its original. A copy has the same shape, pose and reference point as its original, and changing the shape or reference point of one leaves the other unchanged.",
     ["histories", "inputs"], "every sequence of creations and copies of every obstacle kind",
     "Tests create obstacles but never look at identifiers or modify a copy.",
     ["obstacles/obstacle.py", "obstacles/ellipse.py", "obstacles/starshaped_polygon.py"],
     [("_set_id_name, copy, id_counter", "obstacles/obstacle.py"), ("Ellipse.copy", "obstacles/ellipse.py"), ("StarshapedPolygon.copy", "obstacles/starshaped_polygon.py")], ["id(), copies"],
     [("Obstacle.id_counter", "last identifier given out", "obstacles/obstacle.py")])

prop("P20", "Dilation enlarges a copy and leaves the original alone",
     "Dilating an ellipse or polygon by a non-negative padding yields a new obstacle at the same pose that contains the original and everything within the padding along its axes (ellipse) or in all directions (polygon), and leaves the original unchanged. The dilated obstacle answers boundary mapping queries in every direction, just as the original does, also when the original's shape was queried before.",
     ["inputs", "histories"], "all shapes, paddings, poses, reference points and earlier queries",
     "No test dilates an obstacle.",
     ["obstacles/ellipse.py", "obstacles/polygon.py", "obstacles/starshaped_polygon.py"],
     [("dilated_obstacle", "obstacles/ellipse.py"), ("dilated_obstacle", "obstacles/polygon.py"), ("dilated_obstacle", "obstacles/starshaped_polygon.py")], ["dilated obstacle's axes, polygon, boundary_mapping"],
     [("enclosing_ball_diameter", "length scale of boundary rays", "obstacles/ellipse.py")])

prop("P21", "Random geometry generators keep their promises for every draw",
     "For every outcome of the random draws: a point sampled in a triangle lies in that triangle; random angle steps are non-negative and sum to a full turn; a random star polygon has the requested number of vertices, in counterclockwise order around the centre and within twice the average radius of it; a random convex polygon has the requested number of vertices, is centred at the origin and is no wider and no higher than the box. Irregularity or spikiness outside zero to one is rejected.",
     ["inputs"], "all random outcomes, parameters and vertex counts",
     "The generator tests are empty; the random outcomes form a continuum.",
     ["utils/cg.py"], [("point_in_triangle, random_angle_steps, generate_star_polygon, generate_convex_polygon", "utils/cg.py")], ["returned points"])

prop("P22", "Polygon convexity is decided correctly",
     "A polygon is reported convex exactly when, walking around its boundary, it never turns towards the outside at any vertex; this does not depend on the orientation or the starting vertex of the given vertex list, nor on collinear vertices.",
     ["inputs"], "all simple polygons with any number of vertices, in both orientations and with every starting vertex",
     "Convexity is only used on generated polygons, and mostly preset by the tests.",
     ["obstacles/polygon.py", "obstacles/obstacle.py"], [("_check_convexity", "obstacles/polygon.py"), ("is_convex, is_starshaped", "obstacles/obstacle.py")], ["is_convex, is_starshaped"])

prop("P23", "Starshaped hull of a convex obstacle never swallows an excluded point",
     "For a convex obstacle and kernel points that all lie, with their convex hull, in the obstacle's admissible kernel for an exterior point, the starshaped hull polygon does not contain that point, while it contains every kernel point and tangent point. When all kernel points are inside the obstacle no hull extension is made.",
     ["inputs"], "all ellipses and convex polygons, poses, numbers of kernel points and excluded points",
     "Only drawings of one scene; the safety claim is a for-all over excluded points, kernels and obstacles.",
     ["starshaped_hull/starshaped_hull.py", "utils/cg.py"], [("convex_kernel_starshaped_hull, kernel_starshaped_hull", "starshaped_hull/starshaped_hull.py"), ("convex_hull", "utils/cg.py")], ["hull polygon"])

prop("P24", "Polygon-segment intersection returns every contact",
     "For any polygon, pose and segment, the line intersection query returns a list (empty if there is no contact) of points on both the segment and the polygon boundary that contains every isolated contact point and both ends of every stretch where the segment runs along an edge, whatever mixture of contacts occurs. The same holds for the hull of a combined obstacle.",
     ["inputs"], "all polygons, segments, poses, frames and contact kinds",
     "Random segments almost surely meet a polygon in isolated points only.",
     ["obstacles/polygon.py", "obstacles/starshaped_primitive_combination.py"], [("Polygon.line_intersection", "obstacles/polygon.py"), ("_hull_cluster_line_intersections", "obstacles/starshaped_primitive_combination.py")], ["line_intersection result"])

prop("P25", "Safe reference point updates stay in the kernel",
     "Setting the reference point of a starshaped obstacle moves it to exactly the given point; with the safe option it moves there exactly when that point belongs to the obstacle's kernel and otherwise stays where it was. This works in every frame and regardless of which shapes were queried before.",
     ["inputs", "histories"], "all obstacles, poses, frames, points, and earlier queries",
     "No test sets a reference point with the safe option.",
     ["obstacles/starshaped_obstacle.py", "obstacles/starshaped_polygon.py", "obstacles/ellipse.py"], [("set_xr", "obstacles/starshaped_obstacle.py"), ("_compute_kernel", "obstacles/ellipse.py")], ["xr after set_xr"])

prop("P26", "The kernel of a starshaped polygon is its true kernel",
     "For a starshaped polygon the computed kernel is exactly the set of points that see the whole polygon, that is, the intersection of the inner half planes of all its edges.",
     ["inputs"], "all simple starshaped polygons with any number of vertices",
     "Kernels are only computed for one random polygon and never checked.",
     ["obstacles/starshaped_polygon.py"], [("StarshapedPolygon._compute_kernel", "obstacles/starshaped_polygon.py")], ["kernel()"])

prop("P27", "Starshaped hull of a non-convex polygon is starshaped and contains it",
     "For a non-convex polygon and kernel points outside or inside it, the kernel starshaped hull contains the polygon and the kernel points, is starshaped with respect to every kernel point, and adds nothing beyond the segments from kernel points to the polygon.",
     ["inputs"], "all simple polygons and kernel point sets",
     "The tests for single polygons are empty.",
     ["starshaped_hull/starshaped_hull.py"], [("polygon_kernel_starshaped_hull", "starshaped_hull/starshaped_hull.py")], ["hull polygon"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
