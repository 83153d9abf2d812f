#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), observe=()):
    o = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        o['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, title
    OUT.append(json.dumps(o))


PT, LN, PO, GR, AD, VE = ('geometry/SR_point.py', 'geometry/SR_line.py', 'geometry/SR_polygon.py',
                          'geometry/SR_polygon_group.py', 'geometry/additional_stuff.py', 'SR_Vessel/SR_hauptteile.py')

prop('C01', 'Points are values: equality, arithmetic, rounding and distance',
     'A point keeps its two coordinates as floats rounded to 8 decimals; two valid points are equal exactly when both '
     'coordinates differ by less than 1e-5, and an emptied or empty point equals nothing and is reported invalid. '
     'Sum and difference of points are componentwise, the operands stay unchanged, and points with the same '
     'coordinates collapse to one element of a set. The distance of two points is the Euclidean one, symmetric, zero '
     'exactly for coincident points and independent of where the pair lies in the plane.',
     'all coordinate pairs (ints and floats) of moderate size, in every quadrant',
     'The tests compare a dozen hand-picked points, nearly all in the first quadrant; the tolerance, the rounding and '
     'symmetry are claims about all pairs.',
     [PT], [('Point.__eq__, __hash__, __add__, __sub__', 'geometry/SR_point.py'), ('distance', 'geometry/SR_point.py')])

prop('C02', 'Side and distance of a point relative to a line',
     'For a directed line through two distinct points, every point is reported as exactly one of left, right or on '
     'the line, as given by the sign of the cross product, and reversing the line swaps left and right. The distance '
     'of the point to the line is the perpendicular distance: the same for the reversed line and zero exactly for '
     'points on it.',
     'all segments and all points on a binary grid, every direction and quadrant',
     'The tests evaluate a handful of axis-parallel or 45 degree lines; the predicates partition the whole plane.',
     [LN], [('is_point_to_left / is_point_to_right / is_point_on_line', 'geometry/SR_line.py'),
            ('line_point_distance', 'geometry/SR_line.py')])

prop('C03', 'Parallelism and the intersection point of two lines',
     'Two lines are parallel exactly when the cross product of their directions is zero, whichever of the two is '
     'asked; parallel lines have no intersection point. For all other pairs the intersection point lies on both '
     'lines (to the 8 decimals points are kept at) and is the same for swapped or reversed operands.',
     'all pairs of segments of nonzero length',
     'Tests use a few pairs with small integer coordinates; the claim is about every pair, including lines that meet '
     'far from the segments and vertical or horizontal ones.',
     [LN], [('is_parallel, is_intersecting', 'geometry/SR_line.py'), ('intersection_point', 'geometry/SR_line.py')])

prop('C04', 'The common part of two segments is their true intersection',
     'The common part of two segments is exactly the set of points they share: nothing, a single point or a segment, '
     'with the right endpoints, and the result does not depend on which operand is asked or on the direction of the '
     'segments. Overlap of two collinear segments returns the shared stretch; segments that are parallel but not '
     'collinear, or collinear and apart, share nothing.',
     'all pairs of segments of nonzero length on a grid, in every relative position and every quadrant',
     'About twenty relative positions are tested at fixed coordinates; positions times directions times quadrants '
     'are not.',
     [LN], [('common_part, overlap', 'geometry/SR_line.py')])

prop('C05', 'Touching, continuity and on-segment intersection predicates',
     'Two different segments touch exactly when they have an endpoint in common, and are continuous exactly when one '
     'ends where the other begins. They cross on the segments exactly when they do not touch, are not parallel and '
     'their intersection point lies within both; the intersection is at an endpoint exactly when it coincides with '
     'one of the four endpoints. All of these are symmetric and the box test of a point includes the endpoints.',
     'all pairs of segments of nonzero length on a grid',
     'Only a few pairs are tested per predicate and symmetry is not tested at all.',
     [LN], [('touch, continuous, is_internal_point', 'geometry/SR_line.py'),
            ('intersection_on_segment, intersection_on_endpoint', 'geometry/SR_line.py')])

prop('C06', 'Direction, opposite direction and angle of segments',
     'The direction of a segment is its angle from the x axis in [0, 360], counter-clockwise; reversing turns it by '
     '180 degrees. Two segments have opposite directions exactly when their vectors are antiparallel, of whatever '
     'lengths. The angle of two segments is in [0, 180], symmetric, 0 for the same and 180 for opposite directions, '
     '90 for perpendicular ones, acute exactly for a positive dot product, and is defined for every pair of nonzero '
     'segments.',
     'all pairs of segments of nonzero length',
     'Tests use multiples of 45 degrees, where the floating point angles happen to be exact.',
     [LN], [('direction, opposite_direction', 'geometry/SR_line.py'),
            ('angle_between_lines, angle_from_start_point', 'geometry/SR_line.py')])

prop('C07', 'Moving, mirroring, rotating and reversing are rigid motions',
     'Moving a segment or polygon shifts every vertex by the given amounts, mirroring reflects every vertex on the '
     'vertical axis, and a rotation turns every vertex about the given centre by the given angle, each vertex exactly '
     'once, also when coincident vertices are separate objects and when motions are applied one after the other. '
     'Connectivity, closedness, lengths and the number of distinct vertices are unchanged, a move and its opposite or '
     'two mirrorings restore the figure, and reversing swaps the endpoints only.',
     'all displacements, axes, multiples of 90 degrees and general rotation angles, for families of open, closed and '
     'branching polygons, and sequences of motions',
     'Tests move or rotate single figures by fixed amounts; the sharing of vertices (which decides whether a vertex '
     'is moved once or twice) is only exercised for one polygon.',
     [LN, PO], [('purge', 'geometry/SR_polygon.py'),
                ('move, mirror_vertical, rotate_about_origin, rotate_about_xy', 'geometry/SR_polygon.py'),
                ('move, mirror_vertical, reverse', 'geometry/SR_line.py')], over=('inputs', 'histories'))

prop('C08', 'Dividing segments',
     'Dividing a segment into n parts gives n consecutive segments of equal length that start and end where the '
     'segment does and run in its direction. The point at a ratio divides the segment at that ratio from its start, '
     'with the endpoints themselves for 0 and 1, and inserting a point splits the segment in two at that point if it '
     'lies within the box of the segment and reports failure otherwise.',
     'all segments on a grid and all numbers of parts / ratios up to the bound',
     'Tests divide single fixed segments; the parts are claims about every segment and n.',
     [LN], [('divide_line, point_on_line_at_ratio, add_point_on_line', 'geometry/SR_line.py')])

prop('C09', 'Ordering recovers a closed outline from its shuffled segments',
     'Given the segments of one simple closed outline in any order and with any of them reversed, ordering succeeds '
     'and yields a closed, continuous polygon with the same undirected segments, beginning at the vertex closest to '
     'the origin. Ordering an open chain reports failure, ordering twice changes nothing more, and an ordered copy '
     'leaves the original untouched.',
     'all permutations and flips of the segments of outlines with 3 to 5 sides, with the outline placed anywhere',
     'Tests order a few fixed polygons in one or two shuffled orders; there are n! * 2**n inputs per outline.',
     [PO], [('order, ordered_copy', 'geometry/SR_polygon.py')], over=('inputs', 'configurations'))

prop('C10', 'Continuity, closedness and validity of polygons',
     'A polyline is continuous exactly when each segment begins or ends at an endpoint of its predecessor head to '
     'tail, closed exactly when it is continuous and ends where it starts, and valid exactly when it is continuous '
     'and no two of its segments cross. Closing an open polyline adds exactly the segment from its last to its first '
     'point and closing a closed one changes nothing; a closed copy leaves the original alone. Discontinuities are '
     'listed exactly where consecutive segments do not connect.',
     'all polylines with up to 4 segments with free vertices on a grid',
     'Only fixed polygons are tested; the verdicts must be right for every position of the vertices.',
     [PO], [('iscontinuous, isclosed, isvalid, crossing_lines, discontinuity', 'geometry/SR_polygon.py'),
            ('close, closed_copy', 'geometry/SR_polygon.py')])

prop('C11', 'Convexity and orientation of closed polygons',
     'A closed simple polygon is reported convex exactly when all its turns go the same way (straight angles '
     'allowed), and clockwise exactly when its signed area is negative, convex or not; exactly one of clockwise and '
     'counter-clockwise holds. Reversing the order of the vertices flips the orientation and keeps convexity; '
     'neither depends on the position of the polygon or the starting vertex.',
     'all triangles and quadrilaterals with free vertices on a grid, and placed families of concave polygons',
     'Orientation is tested on rectangles and one concave shape; concave polygons of every shape are needed.',
     [PO], [('cps, isconvex, iscw, isccw', 'geometry/SR_polygon.py')])

prop('C12', 'The convex hull',
     'The convex hull of a point cloud is a closed, valid, counter-clockwise convex polygon whose vertices are '
     'points of the cloud, that contains every point of the cloud, has no three collinear vertices in a row and '
     'starts at the lexicographically smallest point. Repeated points and the order of the input do not matter.',
     'all clouds of 3 and 4 (thorough: 5) points on a grid that are not collinear, including repeated points',
     'Two fixed clouds are tested; whether every point ends up inside depends on the input order type.',
     [PO], [('convex_hull', 'geometry/SR_polygon.py')])

prop('C13', 'Point in polygon, for every outline position and every random ray',
     'For every closed simple outline and every point off the outline, the point is reported internal exactly when '
     'it is enclosed, and external otherwise, regardless of the random rays used by the test, of the quadrant the '
     'outline lies in and of the direction of the outline. Vertices are not internal, and a point is on the boundary '
     'exactly when it is a vertex or lies on a side.',
     'all points of a grid, all placements of triangles, convex and concave outlines in the plane, all random draws '
     'in general position',
     'The tests probe a few points of fixed polygons in the positive quadrant with whatever rays are drawn.',
     [PO], [('is_internal_point, is_external_point, is_on_boundary, bounding_box', 'geometry/SR_polygon.py')],
     over=('inputs', 'configurations'))

prop('C14', 'Measures of a triangle',
     'The area of a triangle is half the absolute cross product of two sides; the area, the perimeter and the angles '
     'do not depend on the order or direction of the three segments it is built from nor on its position. Its three '
     'angles sum to 180 degrees, each being the angle enclosed by the two sides at a vertex; three collinear points '
     'are rejected as a triangle.',
     'all triangles with vertices on a grid, all orders and directions of the sides',
     'Areas and angles are tested for right and regular triangles only.',
     [PO], [('Triangle.area, angles, quality, is_triangle', 'geometry/SR_polygon.py')])

prop('C15', 'Relative positions of two triangles',
     'Two triangles are reported overlapping exactly when their interiors share a point; congruent exactly when they '
     'have the same three vertices; enclosed '
     'exactly when all vertices of the one are inside the other; disjunct only when their interiors share no point. '
     'Overlap, congruence, touch and disjunctness are the same whichever of the two is asked.',
     'all positions of one triangle relative to another of a family, in every quadrant',
     'About ten fixed pairs are tested; the relation is quantified over all relative positions.',
     [PO], [('Triangle.overlap, congruent, enclosed, touch, disjunct', 'geometry/SR_polygon.py')])

prop('C16', 'Triangulated area equals the enclosed area',
     'For every simple closed outline the area obtained from its triangulation equals the enclosed (shoelace) area '
     'to 8 decimals, the triangles use only vertices of the outline, lie inside it and do not overlap one another. '
     'The area is the same wherever the outline lies, whichever way it runs and after it has been moved, and asking '
     'again or forcing a new triangulation does not change it.',
     'families of convex and concave outlines with free placement and size, any vertex order direction, histories of '
     'area / move / area',
     'Only fixed outlines are triangulated in the tests, none is moved between two area queries.',
     [PO], [('triangulate, triangle_mesh, detailled_area, area', 'geometry/SR_polygon.py')],
     over=('inputs', 'histories'))

prop('C17', 'Loose equality and subset of polygons',
     'Two polygons are loosely equal exactly when they have the same undirected segments, whatever their order, and '
     'with direction taken into account when they have the same directed segments; strict equality needs the same '
     'segments in the same order and direction. A polygon is a loose subset exactly when all its vertices are '
     'vertices of the other, and equal polygons always have equal hashes.',
     'all reorderings and reversals of outlines with up to 4 segments and arbitrary changes of one vertex',
     'A few fixed pairs are tested, the direction-sensitive comparison not at all.',
     [LN, PO], [('loose_equal, loose_subset, __eq__, __hash__', 'geometry/SR_polygon.py'),
                ('LineSegment.loose_equal, __eq__', 'geometry/SR_line.py')])

prop('C18', 'Simplifying outlines: outliers and collinear vertices',
     'Removing outliers deletes exactly the segments with an endpoint that no other segment shares and keeps all '
     'others untouched and in order. Removing collinear vertices from a closed outline leaves a closed outline of the '
     'same enclosed area whose vertices are exactly the corners, and reports the collinear middle points as such; '
     'the bounding box is the tight axis-parallel box.',
     'closed outlines with added whiskers and added mid-side vertices, freely placed',
     'Tests simplify two or three fixed outlines.',
     [PO], [('remove_outlier_segments, simplify', 'geometry/SR_polygon.py'),
            ('remove_collinear_points, collinear_points', 'geometry/SR_polygon.py'),
            ('bounding_box', 'geometry/SR_polygon.py')])

prop('C19', 'Vertex numbering and adjacency of a group of polygons',
     'The numbering of a group of polygons assigns 0..n-1 one to one to its distinct vertices in lexicographic order; '
     'the adjacency list links two vertices exactly when a segment of the group connects them, in both directions, '
     'and the edge list holds every segment once. A group is valid exactly when each vertex has two or three '
     'neighbours, at least three have two, an even number have three and all its polygons are valid.',
     'families of groups (separate, sharing a side, with loose ends) with free placement',
     'The tests check one or two fixed groups.',
     [GR], [('points_numbered, as_adjacency_list, as_edgelist, isvalid', 'geometry/SR_polygon_group.py')])

prop('C20', 'Constructed shapes: squares, arcs and polylines from nodes',
     'A square built from its side and bottom middle has the four right corners and the bottom middle as vertices, is '
     'closed, has side*side as area and is positioned exactly. An arc is a chain of n equal chords whose nodes '
     'all lie on the circle at equal angular steps, beginning and ending at the given angles about the given centre. '
     'A polyline from nodes visits the nodes in the given order; asking for the clockwise variant of an arc or of a '
     'ring of nodes changes the direction of travel only (a ring keeps its first node).',
     'all sizes and positions on a grid; arcs with all centres and radii for families of angles and numbers of chords',
     'Only unit examples are tested.',
     [PO], [('square, arc, polygon_from_nodes', 'geometry/SR_polygon.py')])

prop('C21', 'Outline of shells, flat heads, skirts and partitions',
     'A cylindrical or conical shell is a closed, valid, convex trapezoid with the given diameters at the given '
     'heights, symmetric about its axis, with its two sloping sides as walls and its two horizontals as non-walls '
     '(a skirt has its lower horizontal as a wall too). A flat head and a room end are the one horizontal wall of '
     'the given diameter. A part built from a description equals the part built from the same values and a '
     'description with a missing or an unknown entry is rejected.',
     'all diameters, heights and positions on a grid, in every quadrant',
     'The tests build parts at two positions and check only validity and the number of segments.',
     [VE], [('Mantel, StandZarge, Flachboden, RaumEnde: make_segments, from_dict, isvalid',
             'SR_Vessel/SR_hauptteile.py')])

prop('C22', 'Outline of torispherical heads',
     'A torispherical head is a closed, valid, axisymmetric outline on its given base: straight flanges of the given '
     'height, knuckles with radius 0.1 d (Kloepper) or 0.154 d (Korbbogen) and a crown with radius d or 0.8 d, '
     'joined without gaps or steps, with all curve nodes on their circles. Only the base is a non-wall; the head '
     'bulges up or down as requested and the two variants are images of each other.',
     'all positions, a family of diameters and flange heights, both orientations and both kinds',
     'The tests only ask whether two heads are valid.',
     [VE, PO], [('TorispherischesBoden.make_segments, graphrepr_segments', 'SR_Vessel/SR_hauptteile.py'),
                ('arc, rotate_about_origin, move', 'geometry/SR_polygon.py')])

prop('C23', 'Inside and outside marker points of vessel parts',
     'For every shell or skirt each sloping side gets exactly two marker points inside the part and two outside, next '
     'to that side; for a head each side gets two points inside and one outside of its two-sided replacement '
     'outline; a flat head gets one point above and one below; a room end gets none. Markers carry the side they '
     'belong to and are renewed when the part is changed.',
     'all diameters, heights and positions on a grid, in every quadrant, both orientations',
     'The tests look at one shell and one head.',
     [VE, GR], [('intex_points', 'SR_Vessel/SR_hauptteile.py'),
                ('Graph.add_intex_points, renew', 'geometry/SR_polygon_group.py')])

prop('C24', 'Splitting a part at a height',
     'Cutting a shell at a height strictly between its ends replaces each sloping side by two walls that meet on the '
     'old side at that height and cover it exactly, keeps all other segments and renews the replacement outline and '
     'its markers; cutting at or outside the ends, or cutting a head, changes nothing and reports so. Room ends cut '
     'the shells they cross, and a part that was cut still moves as one piece.',
     'all cut heights and shell sizes and positions on a grid, sequences of cuts and moves',
     'Three fixed cuts are tested.',
     [VE], [('Hauptteil.split', 'SR_Vessel/SR_hauptteile.py'), ('intersecting_lines', 'geometry/SR_polygon.py')],
     over=('inputs', 'histories'))

prop('C25', 'The knuckle between a cone and a shell',
     'A knuckle placed between a cone and the shell above it is a symmetric closed outline; with a radius its curve '
     'is tangent to cone and shell and its nodes lie on the circle, without one it has the theoretical corner. Its '
     'ends lie on the cone and on the shell at the requested distances, the two parts (and a part below) are '
     'shortened so that all share these ends, and nothing else of them changes.',
     'all placements and a family of sizes and radii',
     'The tests only compare room tables of a few vessels with knuckles.',
     [VE], [('KegelKrempe.make_segments, assert_checking', 'SR_Vessel/SR_hauptteile.py')])

prop('C26', 'Rooms of a vessel',
     'A vessel made of one closed string of parts has exactly one room bounded by all of them; vessels that share a '
     'head or partition, or enclose one another, have one room per enclosed region, each bounded by exactly the parts '
     'around it. The number of rooms and their walls do not depend on the position of the vessel, on its size or on '
     'the order in which the parts are given.',
     'template vessels (single, stacked, partitioned) with free position and size, all part orders',
     'The tests build about twenty vessels at fixed positions with one part order each.',
     [VE, GR], [('Behalter.raum_erstellen', 'SR_Vessel/SR_hauptteile.py'),
                ('find_loops, keep_base_polygons, contained_cycles, segments_in_cycles',
                 'geometry/SR_polygon_group.py')], over=('inputs', 'configurations'))

prop('C27', 'Which side of each part a room is on',
     'The room table of a vessel tells for each part and room whether pressure in that room acts on the inside or the '
     'outside of the part: a shell or head enclosing a room has it as inner room, a part bulging into a room has it '
     'as outer room, and no room is both at once; a flat head is marked indifferent for its rooms. The table is the '
     'same, up to the names of the rooms, wherever the vessel stands and in whatever order its parts are given, and '
     'computing it leaves the vessel unchanged.',
     'template vessels with free position, all part orders, repeated queries',
     'Each table is tested at one position for one order of the parts.',
     [VE], [('Behalter.raum_intex', 'SR_Vessel/SR_hauptteile.py')], over=('inputs', 'configurations', 'histories'))

prop('C28', 'Room tables are compared up to the names of the rooms',
     'The comparison of a room table with a reference pattern succeeds exactly when the table has the same parts and '
     'sides and there is exactly one renaming of the rooms that makes them equal, and raises otherwise; '
     'neither argument is changed.',
     'all tables with up to two parts and two rooms against all patterns',
     'It is only used on tables that match.',
     [VE], [('raum_dict_checker', 'SR_Vessel/SR_hauptteile.py')])

prop('C29', 'Intersection of a sphere and a line in space',
     'A line through two distinct points and a sphere have no, one or two common points, and the function returns '
     'exactly these: every returned point lies on the line and on the sphere, a tangent line yields exactly one '
     'point and a line missing the sphere none.',
     'all lines of axis-parallel families and all spheres on a grid; all radii and offsets',
     'There is no test for it.',
     [AD], [('sphere_line_intersection', 'geometry/additional_stuff.py')])

prop('C30', 'Finding closed loops in a set of segments',
     'Walking a set of segments that forms one closed outline, in any order and directions, returns that outline '
     'ordered and closed and leaves the input untouched; for an open chain the walk reports failure. Searching the '
     'segments of two separate outlines finds both outlines and nothing else, whatever their positions.',
     'outlines of 3 and 4 segments in all segment orders and flips with free placement',
     'The tests walk two fixed sets of segments.',
     [PO, GR], [('walk_segments', 'geometry/SR_polygon.py'), ('find_loops', 'geometry/SR_polygon_group.py')],
     over=('inputs', 'configurations'))

prop('C31', 'Queries and small edits of polylines',
     'Looking for segments by a point returns exactly the segments that start, end, or do either at the point; the '
     'neighbours of a vertex are exactly the other ends of its segments, and the next segment of a closed outline is the '
     'one that begins where the given one ends. Of a set of segments exactly the crossing pairs are listed as crossing. The '
     'middle of a polyline is the average of its distinct vertices. Three segments are a triangle exactly when they are '
     'a closed outline of three vertices not on one line. Merging coincident points moves nothing and leaves one object per '
     'vertex, appending at an end adds exactly one segment there, and a group finds a polygon exactly when it has one equal one.',
     'polylines of up to six segments at every place and every query point on the grids',
     'The tests ask for two points of one square; the rest of these queries has no test of its own.',
     [PO, GR], [('find_segment_by_point, neighbour, next_segment, crossing_lines, midpoint, purge, is_triangle, append_point_at_end', 'geometry/SR_polygon.py'),
                ('intersecting_lines', 'geometry/SR_polygon.py'), ('polygon_from_repr', 'geometry/SR_polygon_group.py')])

prop('C32', 'Joining polylines end to end',
     'Polylines that are added to a polyline are attached one after the other, the start of each to the end of the one '
     'before: the result is a valid polyline along all their segments in the order given, neighbours sharing their vertex, '
     'with one additional segment across every gap between an end and the next start and none where they coincide. '
     'Polylines whose segments or bridges cross each other, and closed outlines, are refused with an error. The polylines '
     'given are the same afterwards, and moving the result does not move them.',
     'pairs and triples of polylines of up to eight segments, at every place and with every gap on the grids',
     'There is no test for it.',
     [PO], [('add', 'geometry/SR_polygon.py')])

open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(OUT) + '\n')
print(len(OUT))
