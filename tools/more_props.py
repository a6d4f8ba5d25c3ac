prop("C05", "Segment-segment intersections are exact",
     "Two straight segments that are not parallel are reported to meet exactly when they share a point, with that point and its parameter on each. Parallel segments on different lines never meet; for segments on one line exactly the ends of either that lie strictly inside the other are reported, at most two, each with its point and both parameters.",
     ["inputs"], "every pair of non-degenerate segments with finite coordinates",
     TESTS + "only a few pairs of edges, none collinear, are intersected.",
     [RM, "src/include/rmath.h"], [("intersect(p0,p1,p2,p3)", RM), ("point_between_two_point", RM), ("dist2_point_line", RM)])
prop("C08", "Point, vector and line primitives compute what they name",
     "Vector sums, differences, scalings, products, lengths, rotations and normalisations are the mathematical ones. The general form of a line is satisfied by exactly its points; the squared distance of a point to a line is that to the foot of the perpendicular, and the projection test is true exactly when that foot lies on the segment (for a degenerate segment: when the point is its point).",
     ["inputs"], "all points, vectors, factors and angles, degenerate lines included",
     TESTS + "they exercise a few values through the scene.",
     ["src/include/rmath.h", RM], [("vec2", "src/include/rmath.h"), ("line::general_from", RM), ("dist2_point_line", RM), ("point_project_in_segment", RM)])
prop("C09", "A circle is four smooth quarters that stay on it",
     "The four curves of a circle run through its compass points east, north, west, south in that order, each starting where the last ended and the last ending where the first started. They are tangent to the circle at the compass points and every point of them is within 0.05% of the radius from the circle, each in its own quadrant.",
     ["inputs"], "every centre and every positive radius",
     TESTS + "no test samples the circle.",
     [RM], [("bezier_cubic::circle", RM)])
prop("C16", "Winding counts decide which edges bound the result",
     "The winding counts of a sweep edge are those of its own and of the other polygon kind just beside it, under each fill rule, given the edges to its left; after edges change places they are right again for every edge, and the output chains of the affected edges are released. An edge is treated as boundary of the result exactly when the boolean operation's value differs on its two sides.",
     ["inputs", "configurations"], "every active edge list of any length, four fill rules, four operations (and none)",
     TESTS + "they use one fill rule and one operation.",
     [VA, VH], [("clipper::calc_windcnt", VA), ("clipper::is_contributing", VA), ("clipper::recalc_windcnt", VA)],
     note="Integers are mathematical.")
prop("C04", "Polynomial solvers return exactly the real roots",
     "For a quadratic the solver returns each distinct real root once, falling back to the linear root when the leading coefficient is zero and to none for a constant. For a cubic it returns every distinct real root once (1, 2 or 3 by the sign of the discriminant), likewise falling back to the quadratic. No more than 2, resp. 3, are ever returned.",
     ["inputs"], "all real coefficients; within the solver's own zero tolerance (1e-8) of a degenerate case only the bound on the count is claimed",
     TESTS + "they compare no root.",
     [RM], [("resolv_quadratic_equa", RM), ("resolv_cubic_equa", RM)],
     note="Reals for doubles; cos/acos/cbrt by their identities.")
prop("C06", "Line-curve intersections are sound, complete and distinct",
     "The parameters at which a cubic curve reaches a given height are exactly the parameters in [0,1] there. A segment and a cubic curve meet exactly at the reported intersections: every report carries the common point with its parameter on each, both within [0,1]; every common point is reported; none twice, at most three.",
     ["inputs"], "every non-degenerate segment and every cubic whose equation is not within the solver's tolerance of a degenerate case",
     TESTS + "the scene has a few line-curve meetings.",
     [RM], [("point_at_y", RM), ("intersect(line, cubic)", RM)],
     note="Uses the proved contract of resolv_cubic_equa (C04); at most three results are stored.")
prop("C10", "Segments know their kind, ends and height crossings",
     "Each stored segment (move, line, cubic) tells its own kind and end point; a copy, shallow or deep, is the same geometry of the same kind, and changing it leaves the original alone; reversing a line or curve retraces it backwards. Asked for its x at a height, a line or y-monotone curve answers the x of its point at that height, and at the heights of its ends the x of the end.",
     ["inputs"], "all segments with finite coordinates and all heights within them",
     TESTS + "they never reverse or copy a segment on its own.",
     ["src/src/segment.cpp", "src/src/segment.h"], [("seg_lineto", "src/src/segment.cpp"), ("seg_cubicto", "src/src/segment.cpp"), ("seg_moveto", "src/src/segment.cpp")])
PA = "src/src/path.cpp"
prop("C11", "A path gives back exactly the elements put into it",
     "Traversing a path reports its moves, lines and curves in the order they were appended, each once, with the coordinates given, the end of the element before as its start, and the caller's pointer; kinds without a callback are skipped without disturbing the rest. Moving a path moves all of it. The result callbacks start a new path at each move and append everything else to the last.",
     ["inputs", "histories"], "every sequence of appends of any length, and every choice of callbacks",
     TESTS + "only whole-scene traversals with all callbacks are run.",
     [PA, VA], [("path::moveto/lineto/cubicto", PA), ("path::traverse", PA), ("write_moveto/lineto/cubicto", VA), ("read_path", VA)])
prop("C17", "The active edge list is a consistent left-to-right list",
     "Putting an edge into the active list, taking one out and ending one at its top leave a doubly linked list of exactly the right edges in ascending x; edges at one point are ordered as they continue upwards, coinciding ones with the subject first. After edges change places, exactly the edges at the listed abscissas are sorted in anew and released from their output chains; none is lost and all others keep their place.",
     ["inputs", "histories"], "every active edge list of any length; the edges touch only at ends within the next scan beam",
     TESTS + "one scene visits a few lists of at most a handful of edges.",
     [VA], [("clipper::insert_into_ael", VA), ("clipper::take_from_ael", VA), ("clipper::delete_active_edge", VA), ("clipper::do_maxima", VA), ("clipper::is_valid_ael_order", VA), ("clipper::resort_ael", VA)])
prop("C18", "The sweep visits every height and starts every minimum",
     "A run starts with the minima in ascending height, all their heights scheduled and nothing left of an earlier run. The next height is always the lowest scheduled one above the current, none is skipped or repeated, and the run ends only when none is left. At each height exactly the minima there start, once each: two edges, one each way round the ring, from the end of the level run to the next higher vertex, entered in the list with their tops scheduled and their x listed for counting; nothing already there changes.",
     ["inputs", "histories"], "every schedule, every set of minima of any size and rings with any level runs",
     TESTS + "one scene has a handful of heights and no level run of two pieces.",
     [VA], [("clipper::reset", VA), ("clipper::insert_scanline", VA), ("clipper::pop_scanline", VA), ("clipper::pop_local_minima", VA), ("clipper::insert_local_minima_to_ael", VA)])
prop("C13", "Input paths become closed rings with their extrema found",
     "Reading a path starts a ring at each move, adds one vertex and segment per line or curve piece (a line of no length adds none), keeping points and segments, and hands each ring over once. A ring is closed: back to its start by the given last segment, or by a line if it ends elsewhere; links run both ways, each segment leads to the next vertex. Its local maxima and minima, past level runs, are exactly those marked; each minimum is entered once with the path's kind. Single points and flat rings enter nothing.",
     ["inputs"], "every path of any length, starting at any vertex, with any level runs",
     TESTS + "one scene has a few rings, none starting inside a level run.",
     [VA, VH], [("clipper::insert_vertex_list", VA), ("read_moveto", VA), ("read_lineto", VA), ("set_segment", VA), ("clipper::add_path", VA), ("clipper::add_local_min", VA)],
     note="Splitting of curves while reading is C02.")
prop("C19", "Output contours keep every piece, its order and direction",
     "A contour opens with two ends, one going up and one coming down by side and fill rule, from the foot of the edge coming down, with a line to the other foot if apart. An end that goes on along another edge gets a line there only if apart. Pieces are copied from their edges, backwards on request. Two ends that meet join their chains, older contour surviving, a line added only if apart, or complete the contour. Neighbouring ends pairwise are closed exactly when they stop at one x. Every complete contour is handed out once, from its origin, up then down in reverse, each piece from the end of the last.",
     ["inputs", "histories"], "every set of contours, chains and ends of any length, all fill rules",
     TESTS + "one scene emits a few contours under one fill rule.",
     [VA, VH], [("clipper::new_output", VA), ("clipper::update_bound", VA), ("clipper::copy_seg", VA), ("clipper::join_output", VA), ("clipper::close_output", VA), ("clipper::delete_obl_bound", VA), ("clipper::build_output", VA), ("write_path", VA)],
     note="Ends are joined only up to down (precondition). Which ends are continued, opened or joined (update_ouput_bound) is not under contract.")
