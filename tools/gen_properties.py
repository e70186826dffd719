"""Writes /verif/properties.jsonl. The list of properties is kept here, as one table."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id_, title, statement, over, text, why, files, mech, observe):
    P.append({
        'id': id_, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': ['blmath/' + f for f in files],
            'mechanism': [{'name': n, 'where': 'blmath/' + w} for n, w in mech],
            'observe_at': observe,
            'hook_needed': None,
        },
    })


p('C04', 'Composite transforms apply in order, by range, and invert',
  '''After any sequence of appended transforms (scale, translate, reorient, rotate, convert_units, 3x3 and 4x4 matrices
  with or without an explicit reverse), applying the composite to points equals applying each selected transform to each
  point in the order appended, for the whole list and for every from_range (start, stop), and matrix_for gives the matrix
  of that same map. With reverse=True the selected reverse transforms are applied in the opposite order, so forward
  followed by reverse over the same range gives the points back. A rejected operation (a scale factor that is not
  positive, unknown or non-length units, a malformed matrix, singular up/look) leaves the composite as it was, and the
  append operations which return an index return the position of the new transform.''',
  ['histories', 'inputs'], 'every sequence of appends, every range of it, both directions, every point set',
  'the tests compose two or three fixed transforms; the guarantee is about every sequence, range and direction',
  ['geometry/transform/composite.py', 'geometry/transform/rotation.py', 'numerics/vector_shortcuts.py', 'units.py'],
  [('the list of (forward, reverse) pairs', 'geometry/transform/composite.py'), ('matrix_for', 'geometry/transform/composite.py')],
  ['CompositeTransform.__call__', 'CompositeTransform.matrix_for'])

p('C05', 'CoordinateManager maps points between any two tagged states',
  '''After any history of transforms and tag_as calls, points (or a mesh) set at one tag and read at another are the
  original mapped by exactly the transforms between the two tags: forwards if the target is later, by the inverses in
  reverse order if it is earlier, unchanged if both name the same state. A mesh comes back as a copy (made by its own
  copy method when it has one) which differs only in its vertices, the mesh which was set is never altered, and a mesh
  without vertices comes back as is. Reading an unknown tag raises KeyError, assigning to an unknown tag raises
  AttributeError and changes nothing, and reading before anything was set raises ValueError.''',
  ['histories', 'inputs'], 'every interleaving of transforms, tags, assignments and reads',
  'the tests run one fixed history of three tags; tags may be placed anywhere, share a state, and be set and read in any order',
  ['geometry/transform/coordinate_manager.py', 'geometry/transform/composite.py'],
  [('tags_to_indices', 'geometry/transform/coordinate_manager.py'), ('do_transform', 'geometry/transform/coordinate_manager.py')],
  ['attributes of CoordinateManager', 'CoordinateManager.do_transform'])

p('C12', 'Mesh cross sections are exactly the plane-mesh intersection',
  '''For every triangle mesh whose vertices are not on the plane and whose edges belong to at most two faces,
  mesh_xsections returns one polyline per connected component of the intersection, whose segments are together exactly the
  segments in which the plane cuts the faces, each once, and which is closed exactly when its component is a loop; there
  are none when the plane misses the mesh. With a neighborhood, it returns only the component whose vertices are on
  average nearest to it, still open or closed as it was, and mesh_xsection returns the vertices of all those components as
  one closed polyline, empty if there are none. mesh_intersecting_faces returns exactly the faces which do not lie strictly on
  one side of the plane, in their order.''',
  ['inputs'], 'every manifold triangle mesh (open or closed, any number of components, any vertex numbering, face order and winding), every plane in general position, every neighborhood',
  'the tests cut one box and pairs of boxes by axis-aligned planes; the path assembly depends on topology and numbering',
  ['geometry/primitives/plane.py', 'geometry/primitives/polyline.py'],
  [('mesh_xsections: EdgeMap, Graph.pop_euler_path', 'geometry/primitives/plane.py')],
  ['Plane.mesh_xsections', 'Plane.mesh_xsection', 'Plane.mesh_intersecting_faces'])

p('C13', 'Polyline edges and lengths always follow its vertices and closedness',
  '''After any sequence of assignments of v and closed, flips, subdivisions, copies and reindexings, a polyline's edges
  join consecutive vertices, plus the last to the first exactly when it is closed, and are read-only; segments,
  segment_lengths, segment_vectors, total_length, len, to_dict and repr agree with them. flip reverses the vertices,
  copy is equal and independent, reindexed gives the same closed curve starting from the given vertex with
  a mapping which takes each new edge to the old edge it came from and raises ValueError on an open polyline, and apex returns the most extreme vertex.
  Vertices which are not numeric or not n by 3 (or its transpose) are rejected with ValueError, and None or zero vertices make
  an empty polyline.''',
  ['histories', 'inputs'], 'every sequence of mutations of a polyline and every vertex list, of any length including 0, 1 and 2',
  'the tests look at a few fixed polylines after one mutation each',
  ['geometry/primitives/polyline.py', 'util/decorators.py', 'numerics/coercion.py'],
  [('the setters of v and closed, which call _update_edges', 'geometry/primitives/polyline.py'), ('setter_property', 'util/decorators.py')],
  ['Polyline.e', 'Polyline.segments', 'Polyline.total_length', 'Polyline.reindexed'])

p('C15', 'Polyline-plane intersection and cutting are exact',
  '''intersect_plane returns, in edge order, one point for every edge with an endpoint on each side of the plane or one
  endpoint on it, lying on both the edge and the plane, with the indices of those edges when asked, and nothing for other
  edges (an edge which lies in the plane is outside this property). cut_by_plane returns an open polyline which traverses exactly the part of the original in front of the plane, in the original direction, from and
  to the points of intersection, and raises ValueError unless the number of intersecting edges is one (open) or two (closed).
  Neither changes the original.''',
  ['inputs'], 'every open or closed polyline and every plane',
  'the tests use one U-shaped chain and one square; which subchain is kept depends on orientation, starting index and closedness',
  ['geometry/primitives/polyline.py', 'geometry/primitives/plane.py'],
  [('intersect_plane', 'geometry/primitives/polyline.py'), ('_cut_by_plane_open, _cut_by_plane_closed', 'geometry/primitives/polyline.py')],
  ['Polyline.intersect_plane', 'Plane.polyline_xsection', 'Polyline.cut_by_plane'])

p('C14', 'Subdivision keeps the curve and respects the requested spacing',
  '''partition_by_length changes the polyline in place so that no segment is longer than max_length, each original segment
  is divided into the smallest such number of equal parts, and the original vertices remain, in order, at the returned indices;
  total length and closedness are unchanged. partition divides every segment of a chain into the given number of equal parts, and
  partition_segment and partition_segment_old return the equally spaced points between two points, in order from the first, with the
  endpoints they document. A count below two raises ValueError, a count which is not an int raises TypeError.''',
  ['inputs', 'histories'], 'every chain, open or closed, with repeated vertices, every max_length and count, points of any dimension, and repeated subdivision',
  'the tests divide a few segments whose lengths are round numbers',
  ['geometry/primitives/polyline.py', 'geometry/segment.py'],
  [('partition_by_length', 'geometry/primitives/polyline.py'), ('partition, partition_segment', 'geometry/segment.py')],
  ['Polyline.partition_by_length', 'segment.partition', 'segment.partition_segment', 'segment.partition_segment_old'])

p('C09', 'Plane measurements agree with the plane they describe',
  '''For every plane and points, signed_distance is the perpendicular distance, positive on the side the normal points
  to; distance and sign are its magnitude and sign (0 on the plane), and points_in_front selects, in order, exactly the points in front of or on the plane
  (behind or on, when inverted) as points or as indices. project_point returns the nearest point of the plane. equation, canonical_point, normal (unit length),
  reference_point and flipped all describe that same plane, flipped with the opposite orientation and canonical_point
  depending only on the plane and not on the point used to construct it.''',
  ['inputs'], 'every reference point, every normal of any length and direction, every stack of points (0, 1 or many)',
  'the tests use axis-aligned planes and a few points',
  ['geometry/primitives/plane.py', 'numerics/vector_shortcuts.py'],
  [('signed_distance, equation', 'geometry/primitives/plane.py'), ('points_in_front', 'geometry/primitives/plane.py')],
  ['Plane.signed_distance', 'Plane.sign', 'Plane.points_in_front', 'Plane.project_point', 'Plane.canonical_point'])

p('C10', 'Planes built from points contain them, oriented as documented',
  '''from_points gives the plane through three points whose normal points to where they appear counterclockwise;
  from_points_and_vector gives the plane through two points and parallel to the vector, with the normal along (p2 - p1) x vector;
  both keep p1 as the reference point, take any array-like of three numbers, and reject anything else.
  fit_from_points gives a plane through the centroid from which the points deviate least in the sum of squares.
  A zero normal (three collinear points, a vector parallel to the two points, or given as such) raises ValueError.''',
  ['inputs'], 'all points and vectors in general position, and degenerate ones; every set of at least three non-collinear points for the fit, including sets with repeated variances',
  'the tests use three or four fixed points each, and one random cloud',
  ['geometry/primitives/plane.py', 'numerics/coercion.py', 'numerics/vector_shortcuts.py'],
  [('from_points, from_points_and_vector, fit_from_points', 'geometry/primitives/plane.py')],
  ['Plane.from_points', 'Plane.from_points_and_vector', 'Plane.fit_from_points', 'Plane.__init__'])

p('C11', 'Plane intersections with lines and segments are exact and agree',
  '''line_xsection returns the point which is on both the line and the plane, or None exactly when the direction is perpendicular to the normal;
  line_segment_xsection returns it only if it lies within the segment, that is if the endpoints are not strictly on the
  same side, and None otherwise. The stacked line_xsections and line_segment_xsections give, row by row, the same points with a validity mask,
  whatever mixture of valid, parallel and out-of-range rows the stack holds, and nan in the rows of segments which do not intersect.''',
  ['inputs'], 'every plane, line and segment, and every mixture in a stack',
  'the tests use a handful of rows; the two implementations must agree on every input',
  ['geometry/primitives/plane.py'],
  [('_line_xsection, _line_segment_xsection', 'geometry/primitives/plane.py'), ('line_xsections, line_segment_xsections', 'geometry/primitives/plane.py')],
  ['Plane.line_xsection', 'Plane.line_segment_xsection', 'Plane.line_xsections', 'Plane.line_segment_xsections'])

p('C16', 'Convexified curves are the convex hull of the planar curve',
  '''For a planar or almost planar curve with at least three non-collinear vertices, convexify_planar_curve returns a polyline, open or closed as the original, whose
  vertices are the extreme points of the curve in order around its convex hull; the indices returned with want_vertices identify them
  in the original. With flatten, these points are projected to the plane through the centroid which is
  perpendicular to the normal (given, or estimated from the points). A curve of at most one vertex comes back unchanged.''',
  ['inputs'], 'every planar curve in any position and orientation, with interior, repeated and collinear points, with or without a given normal',
  'the tests check one curve in a fixed position',
  ['geometry/convexify.py', 'geometry/transform/rotation.py', 'geometry/transform/translation.py'],
  [('convexify_planar_curve', 'geometry/convexify.py'), ('convexify_and_flatten_planar_curve', 'geometry/convexify.py')],
  ['convexify_planar_curve'])

p('C08', 'Rigid alignment recovers the motion and is the best proper rotation',
  '''If b is a rotated and translated copy of a, find_rigid_transform returns a proper rotation R and a 3x1 translation T with R a + T = b,
  also when the points are coplanar or collinear, and whether points are given as columns or as rows; for noisy
  points it minimizes the squared error over rotations and translations, or raises ValueError if the best orthogonal map is a reflection.
  find_rigid_rotation returns the proper rotation which best maps a to b about the origin; with allow_scaling it is multiplied by
  the ratio of the sizes of b and a; for single vectors it turns a to the direction of b.''',
  ['inputs'], 'every point set (generic, coplanar, collinear, symmetric, 1 to many points), every rotation, translation and scale, and noise',
  'the tests recover a few fixed motions of fixed points',
  ['geometry/transform/rigid_transform.py', 'numerics/matlab.py'],
  [('find_rigid_transform', 'geometry/transform/rigid_transform.py'), ('find_rigid_rotation', 'geometry/transform/rigid_transform.py')],
  ['find_rigid_transform', 'find_rigid_rotation'])

p('C06', 'Rotation vectors, matrices and Euler angles convert faithfully',
  '''rodrigues maps a rotation vector (of shape (3,), (1,3) or (3,1)) to the proper rotation by its length about its direction, and a
  rotation matrix back to a vector of length at most pi which gives that rotation again; as_rotation_matrix accepts either form, and other shapes are
  rejected with an exception. euler applies the rotations about the named axes one after the other, in the given
  order and units. The Jacobians of rodrigues and the values and derivatives of the differentiable Rodrigues agree with the numerical
  derivatives of the map.''',
  ['inputs'], 'every rotation vector and matrix, including tiny angles, angles near pi and axis-aligned ones; every axis order and angle',
  'the tests compare a few random vectors with OpenCV; the special branches for tiny angles and angles near pi need specific inputs',
  ['geometry/transform/rodrigues.py', 'geometry/transform/rotation.py'],
  [('rodrigues', 'geometry/transform/rodrigues.py'), ('euler', 'geometry/transform/rotation.py')],
  ['rodrigues', 'as_rotation_matrix', 'Rodrigues', 'euler'])

p('C07', 'Canonical orientation: up/look frames and rotation to the xz plane',
  '''rotation_from_up_and_look returns a proper rotation which takes up to +y and look into the yz half plane with positive z, whatever the lengths of the two;
  zero or collinear vectors raise ValueError. rotate_to_xz_plane returns the rotated points, a proper rotation
  which takes the given or estimated unit normal to +y, and the translation which first brought the centroid to
  the origin (None if it was there within 1e-5); no points raise ValueError. estimate_normal is the unit direction of least variance, and translation moves every point by the given vector,
  by default the one which brings the centroid to the origin, and returns it.''',
  ['inputs'], 'every pair of vectors, every planar point set and unit normal, including normals near +y and -y',
  'the tests use a few axis-aligned vectors and one point set',
  ['geometry/transform/rotation.py', 'geometry/transform/translation.py'],
  [('rotation_from_up_and_look, rotate_to_xz_plane, estimate_normal', 'geometry/transform/rotation.py'), ('translation', 'geometry/transform/translation.py')],
  ['rotation_from_up_and_look', 'rotate_to_xz_plane', 'estimate_normal', 'translation'])

p('C01', 'Vector shortcuts decompose vectors correctly, alone and stacked',
  '''For all finite vectors with non-zero direction, normalize gives the unit vector of the same direction, magnitude the Euclidean length, sproj and proj
  the component along onto, which does not depend on the length of onto, and reject the perpendicular remainder, so that proj and reject add up to the
  vector; reject_axis zeroes exactly the given coordinate in a copy, or drops it with squash. A stack of vectors
  gives row by row what each vector gives alone, and arrays of other than one or two dimensions (and a squash axis other than 0, 1, 2) raise ValueError. The basis vectors are the six
  signed unit vectors, and each access gives a new array.''',
  ['inputs'], 'all vectors and stacks of vectors, of any length, and any onto',
  'the tests use one or two vectors for each function',
  ['numerics/vector_shortcuts.py'],
  [('normalize, sproj, proj, reject, reject_axis, magnitude', 'numerics/vector_shortcuts.py')],
  ['vx.normalize', 'vx.magnitude', 'vx.sproj', 'vx.proj', 'vx.reject', 'vx.reject_axis', 'vx.basis'])

p('C02', 'Angles between vectors and the approximate predicates are exact',
  '''angle returns the angle between two vectors in degrees, from 0 to 180, whatever their lengths, including exactly parallel and opposite ones.
  signed_angle has that magnitude, with positive sign when v1 x v2 points along look or vanishes against it, and negative
  otherwise. almost_zero holds exactly when every component is at most atol in size, and almost_collinear exactly when the length of the cross product is.''',
  ['inputs'], 'all pairs of non-zero vectors and look directions, parallel and opposite ones included, and all tolerances',
  'the tests use right angles and a few vectors',
  ['numerics/vector_shortcuts.py'],
  [('angle, signed_angle, almost_zero, almost_collinear', 'numerics/vector_shortcuts.py')],
  ['vx.angle', 'vx.signed_angle', 'vx.almost_zero', 'vx.almost_collinear'])

p('C03', 'Homogeneous coordinates: padding, unpadding and affine application',
  '''pad_with_ones appends a column of ones to n x 3 points and unpad removes it, so that one undoes the other; unpad rejects a last column
  which is not exactly ones, and both reject other shapes, with ValueError. apply_homogeneous applies
  an affine 4x4 matrix to every vertex, so that applying two in turn equals applying their product, and rejects other shapes and matrices which are not affine with ValueError. convert_33_to_44 embeds
  a linear map as the affine one with no translation, convert_44_to_33 takes the linear part, and both reject other
  shapes with ValueError.''',
  ['inputs'], 'every point array, including empty and single ones, and every matrix and shape',
  'the tests convert one matrix each way',
  ['numerics/vector_shortcuts.py', 'geometry/transform/composite.py'],
  [('pad_with_ones, unpad, apply_homogeneous', 'numerics/vector_shortcuts.py'), ('convert_33_to_44, convert_44_to_33', 'geometry/transform/composite.py')],
  ['vx.pad_with_ones', 'vx.unpad', 'vx.apply_homogeneous', 'convert_33_to_44', 'convert_44_to_33'])

p('C17', 'Line intersection in the plane and in space is exact',
  '''line_intersect returns the one point common to two lines of the plane, each given by two points, and nan, nan when they are parallel. line_intersect3 returns the common
  point of two intersecting lines in space, wherever on the lines the four given points are (shared points and points of one line
  lying on the other included), and None for parallel or identical lines. Exchanging the lines, or the two points of one line, does not change the result.''',
  ['inputs'], 'every pair of intersecting or exactly parallel lines',
  'the tests use three or four fixed pairs of lines; the sign of the offset depends on the configuration',
  ['geometry/segment.py'],
  [('line_intersect, line_intersect3', 'geometry/segment.py')],
  ['segment.line_intersect', 'segment.line_intersect3'])

p('C18', 'Boxes and solids have the dimensions and orientation they state',
  '''All measurements of a Box (ranges, min, mid, max, width, height, depth, center point, floor point, volume, surface area) describe the same cuboid given by
  origin and shape; a negative size or a wrong number of values raises ValueError. The prism and cube functions return the stated corners and triangles which form a closed
  surface facing outwards, enclosing the volume the dimensions give; a triangular prism has the given base and extends by
  height to the side from which the base appears clockwise. Returned as one array, the triangles are the vertices indexed by the faces, and the horizontal plane lies in y = 0.''',
  ['inputs'], 'every origin and non-negative size, every non-degenerate base triangle and positive height',
  'the tests use unit cubes and one box',
  ['geometry/primitives/box.py', 'geometry/shapes.py', 'numerics/coercion.py'],
  [('Box', 'geometry/primitives/box.py'), ('create_rectangular_prism, create_triangular_prism', 'geometry/shapes.py')],
  ['Box', 'shapes.create_rectangular_prism', 'shapes.create_cube', 'shapes.create_triangular_prism', 'shapes.create_horizontal_plane'])

p('C19', 'Extreme, farthest and inflection points are the true ones',
  '''apex returns a point of the input with the greatest coordinate along the axis, and farthest a point at the greatest distance together with its index.
  inflection_points returns points of the curve in order; there are none when the curve, taken as height along axis over distance along span, is strictly convex or
  strictly concave at every sample, and when a smoothly sampled curve changes from convex to concave or back it returns a point next to each change and
  none away from them. The result does not depend on the units in which the curve is measured, nor on where it is in space.''',
  ['inputs'], 'every point set and axis; every convex or concave chain with any spacing, and curves with known inflections',
  'the tests use one fixed curve and a few points',
  ['geometry/apex.py', 'geometry/primitives/polyline.py'],
  [('apex, farthest, inflection_points', 'geometry/apex.py')],
  ['apex', 'farthest', 'inflection_points'])

p('C20', 'Barycentric coordinates and surface normals describe the triangle',
  '''The barycentric coordinates of the projection of a point to a triangle sum to one and, applied to its vertices, give the nearest point of its
  plane; a stack gives row by row what each triangle gives alone, and a degenerate triangle gives finite values which sum to one. surface_normal is
  perpendicular to both edges, points to where the vertices appear counterclockwise, and has unit length, or, with normalize=False, twice the area
  of the triangle; a stack of triangles gives one normal for each.''',
  ['inputs'], 'every point and triangle, alone and stacked, degenerate ones included for the coordinates',
  'the tests use one triangle and random ones of a fixed shape',
  ['geometry/barycentric.py', 'geometry/surface_normals.py'],
  [('barycentric_coordinates_of_projection', 'geometry/barycentric.py'), ('surface_normal', 'geometry/surface_normals.py')],
  ['barycentric_coordinates_of_projection', 'surface_normal'])

p('C21', 'Unit conversion is physically right, consistent and class-safe',
  '''For every pair of units of the same class, factor and convert agree with the physical definitions of the units, so converting there and back, or through a third unit, changes
  nothing, and all names of a unit are equivalent. Converting between classes, or when a required class does not match,
  raises ValueError, also if the value is None, and unknown units raise KeyError; None converts to (None, None), and convert, convert_list, convert_to_default, convert_to_system_default and raw
  all agree with factor. The lists of units by class partition all units, and the default units of a system can be overridden by exceptions without changing the defaults.''',
  ['inputs'], 'every pair (and triple) of units, every value, every unit system and override, in every order of calls',
  'the tests convert about a dozen of the more than 1600 pairs',
  ['units.py'],
  [('the table of units', 'units.py'), ('factor, convert', 'units.py')],
  ['units.factor', 'units.convert', 'units.convert_list', 'units.convert_to_default', 'units.convert_to_system_default', 'units.default_units'])

p('C22', 'Values with units calculate and compare as physical quantities',
  '''Adding, subtracting, comparing and dividing two values of the same class gives the result of the physical quantities, in the units of the left one
  (a unitless value for the ratio), whatever units they are in; multiplying or dividing by a number, negation, absolute value, rounding, truth, int and float act on the
  number and keep the units, and adding, subtracting or multiplying with a list applies to each element. Mixing classes, multiplying two values, dividing by a value, and modulo or
  power raise an error rather than give a number, None or an unknown unit is rejected at construction, and no operation changes its operands. Conversion by convert, by attribute and to the default of a unit
  system agree with the unit table.''',
  ['inputs', 'histories'], 'every expression over values, numbers and lists, in every combination of units',
  'the tests check each operator on one or two pairs of units',
  ['value.py', 'units.py', 'numerics/rounding.py'],
  [('_comparable and the operators', 'value.py'), ('convert', 'units.py')],
  ['Value'])

p('C23', 'Rounding and prettifying give the nearest increment in every unit',
  '''round_to returns a multiple of the increment which is nearest to the value (for an increment of one over an integer, the float closest to that multiple), the same for a number and inside a Value (Value.round keeps the units), and rounded_list rounds
  every element and keeps None. prettify, and prettified of a Value, return the value in the metric and in the United States default units of its class, each correctly
  converted and rounded to the documented increment of those units or to the given number of decimals, with those units.''',
  ['inputs'], 'every value, unit, increment and precision',
  'the tests prettify a few lengths and weights',
  ['units.py', 'numerics/rounding.py', 'value.py'],
  [('prettify', 'units.py'), ('round_to, rounded_list', 'numerics/rounding.py')],
  ['units.prettify', 'Value.prettified', 'Value.round', 'round_to', 'rounded_list'])

p('C24', 'JSON serialization restores values, arrays and sparse matrices',
  '''loads(dumps(x)) and load(dump(x)) restore every nested structure of plain JSON data and Values, with equal numbers and units. An annotated array decodes to that array with its
  dtype (float64 by default) and an annotated sparse matrix to the matrix with that shape, dtype, format and entries, at any depth; an incomplete sparse annotation and every other dictionary decode
  to themselves.''',
  ['inputs'], 'every nested structure, value, unit, array, dtype, sparse matrix and format',
  'the tests decode one example of each annotation',
  ['util/json.py', 'value.py'],
  [('decode_json', 'util/json.py'), ('for_json, from_json', 'value.py')],
  ['util.json.dumps', 'util.json.loads', 'util.json.dump', 'util.json.load'])

p('C25', 'Numeric coercion accepts exactly the documented inputs',
  '''as_numeric_array returns an array with the values, the requested dtype and a shape which matches the requested one (-1 matching any size), transposing only if the shape matches only that way, and returns None only for
  None with allow_none or for [] with allow_none and empty_as_none. It raises ValueError for None otherwise, for another number of dimensions or sizes, and for non-numeric content. isnumeric and its scalar and array
  forms accept exactly finite real numbers and arrays of them (not bools, complex, nan, infinity, text or None), and is_empty_arraylike is true
  exactly of None and of empty arrays, lists and tuples.''',
  ['inputs'], 'every value, nested sequence, array, dtype and shape specification',
  'the tests list about a dozen examples',
  ['numerics/coercion.py', 'numerics/predicates.py'],
  [('as_numeric_array', 'numerics/coercion.py'), ('isnumeric', 'numerics/predicates.py')],
  ['as_numeric_array', 'isnumeric', 'isnumericscalar', 'isnumericarray', 'is_empty_arraylike'])

p('C26', 'Array helpers: safe division, scaling, broadcasting, reshaping',
  '''zero_safe_divide is the elementwise quotient, with the default wherever that is not finite; scale_to_range maps an array affinely so that its minimum and maximum become the two bounds. bsxfun applies
  the operation elementwise to arrays of matching shape and to every combination of a row and a column; row and col reshape to a
  single row or column; sparse builds the matrix with the given entries, duplicates added, and shape. np_reshape_safe returns a view of the same data in the new shape or raises (with just_warn, warns and copies) when a view is
  impossible, and np_make_readonly protects exactly the arrays in its list.''',
  ['inputs'], 'every array, shape, memory layout and operation',
  'the tests check one or two arrays for some of these functions and none for the others',
  ['numerics/operations.py', 'numerics/matlab.py', 'numerics/numpy_ext.py'],
  [('zero_safe_divide, scale_to_range', 'numerics/operations.py'), ('bsxfun, row, col, sparse', 'numerics/matlab.py'), ('np_reshape_safe', 'numerics/numpy_ext.py')],
  ['zero_safe_divide', 'scale_to_range', 'matlab.bsxfun', 'matlab.sparse', 'np_reshape_safe', 'np_make_readonly'])

p('C27', 'Gram-Schmidt and change of basis are algebraically exact',
  '''orthogonalize turns linearly independent row vectors into mutually orthogonal ones such that each leading subset spans the same space, the first is unchanged, and each differs from its original only by a combination of the
  earlier ones; orthonormalize also gives them (or only those with the given indices) unit length; proj(u, v) projects v on u. isomorphism returns the matrix
  M with basis1 M = basis2 (basis vectors as columns), so converting there and back is the identity, and raises its DimensionalityError or
  LinearDependenceError for frames of different sizes or dependent vectors.''',
  ['inputs'], 'every linearly independent set of m vectors in n dimensions, every pair of bases, and dependent or mismatched ones',
  'the tests use one or two small matrices',
  ['numerics/linalg/gram_schmidt.py', 'numerics/linalg/isomorphism.py'],
  [('orthogonalize, orthonormalize', 'numerics/linalg/gram_schmidt.py'), ('isomorphism', 'numerics/linalg/isomorphism.py')],
  ['gram_schmidt.orthogonalize', 'gram_schmidt.orthonormalize', 'gram_schmidt.proj', 'isomorphism'])

p('C28', 'Sparse Cholesky factors satisfy L L^T = S^T A S',
  '''For every sparse symmetric positive definite matrix A, of which only the lower triangle is read, lchol returns a lower triangular L with positive diagonal and a permutation matrix S with
  L L^T = S^T A S, and reports success as 0. For a symmetric matrix which is not positive definite it reports the column at which the factorization failed (counted from 1) and the factor of the leading block before it. It leaves A as it was,
  never reads or writes memory outside its arrays, and repeated factorizations do not use up memory.''',
  ['inputs'], 'every sparsity pattern, size, ordering of entries, integer or floating data, and definiteness',
  'the tests factor one stored matrix',
  ['numerics/linalg/lchol.py', 'numerics/linalg/cholmod.c'],
  [('lchol', 'numerics/linalg/lchol.py'), ('cholmod_lchol_c', 'numerics/linalg/cholmod.c')],
  ['lchol'])

p('C29', 'Block-sparse matrices act as the matrix, and CG solves the system',
  '''However rows and columns are split into sparse and dense (by threshold or explicitly), a StaticBlockSparseMatrix multiplies vectors and matrices, and forms M M^T and M^T M, exactly as the matrix it was
  built from, including through its linear operator, and its row and column classification partitions the indices; a sparse matrix masked by rows or columns keeps exactly the entries which are marked. conjGradSolve (from any start, also the solution itself) and block_sparse_cg_solve (also with
  empty and with dense columns) return the solution of symmetric positive definite systems to their tolerance; a conjGradSolve which is out of iterations, or at the limit of rounding, returns as good an approximation as conjugate gradients give.''',
  ['inputs'], 'every sparse matrix shape and pattern, every split, every right-hand side and starting point',
  'the tests solve one stored system',
  ['numerics/linalg/static_block_sparse_matrix.py', 'numerics/linalg/sparse_cg.py'],
  [('the four blocks, matvec, MMT', 'numerics/linalg/static_block_sparse_matrix.py'), ('block_sparse_cg_solve', 'numerics/linalg/sparse_cg.py')],
  ['StaticBlockSparseMatrix', 'block_sparse_cg_solve'])

p('C30', 'Mesh normal objectives have right values and derivatives',
  '''For every triangle mesh without degenerate faces, TriNormals gives each face's unit normal by the right-hand rule, TriNormalsScaled the cross product of its edges, TriEdges the requested edge
  vectors, CrossProduct and NormalizedNx3 the rowwise cross product and normalization, and VertNormals each vertex's normalized sum of the edge cross products of its
  faces (or, with normalized=False, their mean, shortened to the square root of its length). Their derivatives are those of these functions. Both stay right when the vertices, their number, the faces or the settings are replaced any number of times.''',
  ['inputs', 'histories'], 'every mesh, every vertex of it, and every sequence of changes',
  'these modules have no test which passes in this environment; derivatives need comparison at every input',
  ['optimization/objectives/normals.py', 'numerics/matlab.py'],
  [('compute_r and compute_dr_wrt of each term', 'optimization/objectives/normals.py'), ('on_changed', 'optimization/objectives/normals.py')],
  ['TriNormals', 'TriNormalsScaled', 'TriEdges', 'CrossProduct', 'NormalizedNx3', 'VertNormals'])

p('C31', 'Console prompts return exactly the number entered',
  '''input_float shows the prompt and returns the float which was entered, asking again after every entry which is not a number, or is empty unless allow_empty, in which case an empty entry returns
  None. input_value does the same with a prompt which shows label and units, and returns the number as a Value in those units, also when it is zero,
  or None if allowed and empty.''',
  ['histories', 'inputs'], 'every sequence of entered lines, label and units',
  'the module has no tests',
  ['console.py', 'value.py'],
  [('input_float, input_value', 'console.py')],
  ['console.input_float', 'console.input_value'])

p('C32', 'Calculations leave their inputs alone and do not depend on history',
  '''Apart from the methods documented to change their object (assigning a polyline's v or closed, flip, partition_by_length, appending transforms, tagging and assigning, np_make_readonly), no call changes the arrays, lists or objects it is given. The same call with equal arguments
  gives the same result whatever calls came before, and also if one array is given for several arguments; no call changes the process-wide
  settings of numpy, the warning filters or the global random state. Changing a returned result in place does not change the object it came from (unless the result is a part of it, as the arrays v and e of a polyline, one of its vertices, or the point and normal of a plane), another object, or the result of later calls
  with fresh arguments; nor does it change the arguments of the call, except where the result is one of the given points (apex, farthest, line_intersect3), a given array seen in another form (as_numeric_array, row, col,
  np_reshape_safe, convert_44_to_33), the given curve or start vector (convexify_planar_curve of a curve with at most one point, conjugate gradients), or an object or matrix which keeps the arrays it was made from. Objects of the same class do not share state.''',
  ['inputs', 'histories'], 'every public function over its whole domain, in every order of calls',
  'the tests call each function once with fresh inputs and look only at the result',
  ['geometry/primitives/plane.py', 'geometry/primitives/polyline.py', 'geometry/segment.py', 'geometry/barycentric.py', 'geometry/apex.py', 'geometry/convexify.py', 'geometry/transform/rotation.py', 'geometry/transform/rigid_transform.py', 'geometry/transform/rodrigues.py',
   'numerics/vector_shortcuts.py', 'numerics/operations.py', 'numerics/matlab.py', 'numerics/linalg/gram_schmidt.py', 'numerics/linalg/lchol.py', 'units.py', 'value.py'],
  [('functions work on copies', 'numerics/vector_shortcuts.py'), ('default_units returns a new dict', 'units.py')],
  ['every public function'])

p('C33', 'Correspondences between vertex sets carry over to new vertices',
  '''apply_correspondence maps new vertices as the destination is related to the source: applying it to the source itself gives the destination, and to a moved source the destination moved likewise. The result is a chumpy object, which follows the vertices, if any argument is one, and a numpy array otherwise.''',
  ['inputs'], 'every pair of vertex sets and new vertices with the topology of the source',
  'the only test needs a package which is not available',
  ['geometry/transform/correspondence.py'],
  [('apply_correspondence', 'geometry/transform/correspondence.py')],
  ['apply_correspondence'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
