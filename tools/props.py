"""The properties and how they are decided (source of properties.jsonl and MANIFEST.json)"""

NOTES = ('Every check runs the real Patro code imported from /repo (VERIF_REPO overrides it) under seeded workloads and '
         'decides with oracles observing the executions; checks/core.py is the common harness. '
         'properties.jsonl and this file are generated by tools/mkprops.py from tools/props.py.')

GE = 'Patro/GeometryEngine/'

PROPS = [

dict(id='C01', title='2D vectors obey vector algebra',
     statement='Sums, differences, scalings, products, rotations, quarter turns, projections, orientations, signed angles, '
     'normalisation, comparisons and in-place updates of 2D vectors give the values of plane vector algebra, for any finite '
     'coordinates including null and axis-aligned vectors. An operation that returns a new vector leaves its operands '
     'unchanged and shares no state with them; only the null vector is false.',
     over=['inputs'], text='all pairs of finite vectors, scalars and angles',
     why='the suite evaluates a few fixed vectors; sign, quadrant, aliasing and null-vector errors depend on the input',
     files=[GE+'Vector.py'],
     mechanism=[('Vector2DBase, Vector2D, NormalisedVector2D', GE+'Vector.py')],
     observe=['results and operands after each vector operation'],
     technique='reference monitor (float/rational algebra) over random operation histories on live vectors',
     note='Holds on the sampled vectors (about 5000 quick, 140000 thorough), magnitudes up to 1e8, tolerances relative.'),

dict(id='C02', title='Transformations compose and act like matrices',
     statement='A 2D or affine transformation built from rotations, scales, reflections, translations, rotations about a point '
     'and matrices acts on points as the composition of its factors, in the order of multiplication, and composition leaves the '
     'factors unchanged. A transformation never claims to be the identity, a rotation, a scaling, a reflection, a parity or a '
     'translation when its action is not one, and scaling a length by a similarity multiplies it by the similarity ratio. Homogeneous vectors are transformed '
     'too: translations move points (weight 1) and not directions (weight 0).',
     over=['inputs', 'histories'], text='all words over the elementary transformations, composed with * and *=, applied to any point',
     why='the suite composes two or three fixed transformations; wrong order, wrong type tags and shared matrices need specific words',
     files=[GE+'Transformation.py'],
     mechanism=[('Transformation, AffineTransformation2D, type deduction', GE+'Transformation.py')],
     observe=['matrix, action on points, type and identity flags after each composition'],
     technique='shadow 3x3 matrix monitor over random composition histories',
     note='Holds on sampled words of at most 6 factors; shear classification is only checked for soundness.'),

dict(id='C04', title='Lines and segments: incidence, projection, distance, predicates',
     statement='Line and segment queries (intersection and its abscissae, parallelism, orthogonality, projection, signed distance, '
     'parallel and orthogonal lines, clipping against a box, side, collinearity, containment, distance from a point, shared vertex, '
     'interpolation) agree with exact plane geometry, whatever the position, order or direction of the operands, and do not '
     'modify them. In particular the segment intersection test is right for touching, collinear, overlapping and shared-vertex '
     'segments.',
     over=['inputs'], text='all lines with a non-null direction, all segments and points, degenerate positions included',
     why='the suite has a handful of general positions; degenerate contacts and sign errors need other ones',
     files=[GE+'Line.py', GE+'Segment.py'],
     mechanism=[('Line2D', GE+'Line.py'), ('Segment2D', GE+'Segment.py')],
     observe=['results of the line and segment queries'],
     technique='exact rational oracle monitors over dense degenerate and random configurations',
     note='Holds on about 11000 (quick) or 360000 (thorough) sampled configurations; integer grids decide predicates exactly.'),

dict(id='C05', title='Triangles, rectangles, polylines: measures, classes, inside tests',
     statement='Perimeter, area, orientation, classification (equilateral, isosceles, scalene, right, acute, obtuse), bisectors, '
     'edges, corners, point-inside tests, lengths and distances to a point of triangles, rectangles and polylines have their '
     'geometric values, before and after an in-place transformation, whatever the vertex order. A flat triangle and a polyline of '
     'one point are rejected, and conversions to a polygon or a path keep the vertices in order.',
     over=['inputs', 'histories'], text='all triangles, axis-aligned rectangles and polylines, vertex orders, transformations in between',
     why='the suite checks one or two shapes; classification thresholds, orders and stale caches need others',
     files=[GE+'Triangle.py', GE+'Rectangle.py', GE+'Polyline.py', GE+'Primitive.py'],
     mechanism=[('Triangle2D', GE+'Triangle.py'), ('Rectangle2D', GE+'Rectangle.py'), ('Polyline2D', GE+'Polyline.py')],
     observe=['measures and predicates of live shapes, before and after transform'],
     technique='exact and numeric reference monitors over generated shapes and transform histories',
     note='Holds on the sampled shapes; points are tested away from the boundary.'),

dict(id='C06', title='Polygon area, barycenter, orientation, simplicity, convexity, inside',
     statement='For any vertex list without repetition, a polygon reports its perimeter and edges, whether it is simple and convex, '
     'and when simple its area, orientation, barycenter and the inside test exactly as the geometry says, for both orientations and '
     'any starting vertex; area, barycenter and orientation are undefined for a self-intersecting polygon. The axes of a simple polygon are the principal axes of '
     'the second moments of its vertices about the origin. The answers follow the '
     'points after in-place transformation, recentring, cloning, reversing, and do not depend on which was asked first; '
     'simplification only drops vertices, never far corners, and regular polygons have their closed-form measures and their name.',
     over=['inputs', 'histories'], text='all polygons with distinct vertices (collinear vertices, spikes, touching and crossing edges), all query orders, transformations in between',
     why='the suite has a few fixed polygons; cached answers, collinear vertices and self-contacts need specific ones',
     files=[GE+'Polygon.py', GE+'Primitive.py'],
     mechanism=[('Polygon2D caches, is_simple, _test_is_simple, winding', GE+'Polygon.py'), ('RegularPolygon', GE+'Polygon.py')],
     observe=['answers of live polygons along query/transform histories'],
     technique='exact rational oracle over generated polygons and random query/transform histories',
     note='Holds on sampled polygons of at most 14 vertices; nearly degenerate float polygons are skipped.'),

dict(id='C07', title='Convex hull of a point set',
     statement='The convex hull of any set of points is the counter-clockwise polygon, starting at the lowest then leftmost point, '
     'whose vertices are input points, which contains every input point and every extreme point, without repetition. It does not '
     'depend on the order of the points, on duplicates or on collinear points, and does not modify the input.',
     over=['inputs'], text='all finite point lists, with duplicates, collinear points and ties, in any order',
     why='the suite has one point set in general position',
     files=[GE+'Polygon.py'],
     mechanism=[('convex_hull (Graham scan)', GE+'Polygon.py')],
     observe=['hull vertices and the input list after the call'],
     technique='exact monotone-chain oracle over generated point sets and their permutations',
     note='Holds on the sampled sets of at most 60 points.'),
dict(id='C03', title='Generic operations on point primitives',
     statement='Every primitive made of points (segment, triangle, polyline, polygon, Bezier, spline) exposes its points in order, '
     'clones into an independent equal primitive, reverses its points only, moves by an in-place transformation exactly as its points '
     'do, reports the smallest axis-aligned box of its points and converts to lists, arrays and closed lists of the same points; two '
     'primitives are close exactly when all their points are.',
     over=['inputs', 'histories'], text='all point primitives, and histories of clone, reverse, transform and edit on them',
     why='the suite checks a few constructors; aliasing and order need histories over each class',
     files=[GE+'Primitive.py', GE+'BoundingBox.py', GE+'Mixin.py'],
     mechanism=[('Primitive, ReversiblePrimitiveMixin, PrimitiveNP', GE+'Primitive.py'), ('bounding_box_from_points', GE+'BoundingBox.py')],
     observe=['points, boxes and clones of live primitives'],
     technique='shadow point list monitor over histories on each primitive class',
     note='Holds on sampled histories of every point primitive; float coordinates up to 1e5.'),

dict(id='C08', title='Bezier curves: evaluation, split, length, area, derivatives',
     statement='A quadratic or cubic Bezier curve evaluates, derives, splits at a parameter, restricts to an interval, reverses, '
     'elevates its degree, transforms, and gives its tangents, normals, length, area and abscissa-parameter conversions with the '
     'values of the polynomial curve of its control points, at every parameter and for degenerate (aligned, closed, coincident) '
     'control points.',
     over=['inputs'], text='all control points, parameters and abscissae, degenerate curves included',
     why='the suite evaluates one curve; closed forms fail only on degenerate control polygons',
     files=[GE+'Bezier.py'],
     mechanism=[('QuadraticBezier2D, CubicBezier2D, BezierMixin2D', GE+'Bezier.py')],
     observe=['results of each curve operation'],
     technique='independent de Casteljau and quadrature reference monitors over generated and degenerate curves',
     note='Holds on sampled curves; lengths within the documented numerical tolerance.'),

dict(id='C09', title='Bezier-line intersection and closest point',
     statement='The intersection of a Bezier curve with a line returns exactly the curve points on the line, each once, and the closest '
     'point of a curve to a point is on the curve and as near as any curve point, for every relative position, including lines through '
     'the ends, tangent lines and curves degenerated to a lower degree.',
     over=['inputs'], text='all curves, lines and points',
     why='the suite has no such test of completeness; missing roots need specific positions',
     files=[GE+'Bezier.py', 'Patro/Common/Math/Root.py'],
     mechanism=[('intersect_line, closest_point', GE+'Bezier.py')],
     observe=['returned parameters and points'],
     technique='Bernstein sign-change and dense-scan oracle monitors over generated curves and lines',
     note='Holds on sampled curves; tangencies are only checked for soundness.'),

dict(id='C10', title='B-splines: bases, evaluation, conversion to Bezier',
     statement='A B-spline of any degree evaluates, at every parameter of its domain including knots and both ends, to the de Boor value '
     'of its control points and knots, its basis functions are a non-negative partition of unity with local support, naive and fast '
     'evaluations agree, and its conversion to Bezier curves covers the same points in the same order; clones and reversals '
     'keep the curve. A degree which cannot be converted is rejected.',
     over=['inputs'], text='all degrees, control points, uniform and non-uniform knots, parameters including knots',
     why='the suite evaluates one cubic spline; end knots and multiplicities need others',
     files=[GE+'Spline.py'],
     mechanism=[('BSpline2D, QuadraticUniformSpline2D, CubicUniformSpline2D', GE+'Spline.py')],
     observe=['basis, points and Bezier pieces of live splines'],
     technique='independent de Boor reference monitor over generated splines',
     note='Holds on sampled splines of degree 1 to 5 and at most 12 control points; periodic splines are not claimed.'),

dict(id='C11', title='Circles, arcs and angular domains',
     statement='A circle or an arc gives its points, angles, tangents, perimeter, area, distances, inside test, bounding box and its '
     'intersections with a segment line or another circle with their geometric values, tangent and disjoint positions included; an '
     'angular domain measures its counter-clockwise sweep and tests angles modulo a turn; a similarity moves the circle and its arc '
     'as their points, and a clone shares nothing with its source.',
     over=['inputs', 'histories'], text='all circles, arcs (domains past a turn, negative or by 0), points, segments, circles, similarity histories',
     why='the suite checks one circle; quadrant, wrap-around and tangent cases need others',
     files=[GE+'Conic.py', GE+'Mixin.py'],
     mechanism=[('Circle2D', GE+'Conic.py'), ('AngularDomain', GE+'Mixin.py')],
     observe=['results of each query on live circles and arcs'],
     technique='polar reference monitor over generated circles, arcs and similarity histories',
     note='Holds on sampled circles with radii from 0.1 to 200; tangency on representable cases.'),

dict(id='C12', title='Ellipses, elliptic arcs and the SVG arc conversion',
     statement='An ellipse of any axis order and orientation gives its points, quadric, eccentricity, exact bounding box, inside test, '
     'distance and nearest point of a point (axes and center included) and line intersections with their geometric values, and follows '
     'any affine map as its points do. An SVG arc is the arc of the W3C definition for every flag combination, radii too small, '
     'negative or null, and its Bezier conversion follows the arc in the same direction.',
     over=['inputs', 'histories'], text='all ellipses, arcs in both directions, points, lines, affine maps, SVG arc parameters',
     why='the suite draws a few ellipses; axis order, flags, directions and points near an axis need specific inputs',
     files=[GE+'Conic.py'],
     mechanism=[('Ellipse2D', GE+'Conic.py'), ('svg_arc, to_bezier, distance_to_point', GE+'Conic.py')],
     observe=['results of each query on live ellipses and arcs'],
     technique='brute-force and constraint-based reference monitors over generated ellipses, arcs and affine histories',
     note='Holds on sampled ellipses of ratio at most 16 (3000 for the intersection with a segment); the distance of an arc is that of the whole ellipse as documented in the code.'),

dict(id='C14', title='Real roots of polynomials and numeric functions',
     statement='The quadratic, cubic and quintic solvers return all the real roots of the polynomial, each once and nothing else, '
     'whatever the magnitude of the coefficients and when the leading ones vanish; the numeric helpers (sign, comparison, epsilon '
     'comparison, rounding, middle, clamping to the trigonometric range) return their mathematical value.',
     over=['inputs'], text='all real coefficients, multiple and clustered roots, null leading coefficients',
     why='the suite checks a few polynomials; cancellation and degenerate leading coefficients need others',
     files=['Patro/Common/Math/Root.py', 'Patro/Common/Math/Functions.py'],
     mechanism=[('quadratic_root, cubic_root, fifth_root', 'Patro/Common/Math/Root.py'), ('numeric functions', 'Patro/Common/Math/Functions.py')],
     observe=['returned roots and values'],
     technique='constructed-roots and rational residual monitors over generated polynomials',
     note='Holds on sampled polynomials with separated or exactly multiple roots.'),

dict(id='C13', title='Paths: absolute geometry, rounded corners, transformation, arrow heads',
     statement='A path of relative, absolute, directional, smooth Bezier and arc parts follows the absolute geometry its commands define; a part '
     'radius replaces the corner by the arc tangent to both neighbours, also on the closing corner, and has no effect on a straight corner; closing, cloning (with independent '
     'clones), moving, transforming and converting to absolute parts keep the geometry, and the bounding box contains it. An invalid part is '
     'rejected. An arrow head has its tip, axis, sides and dimensions where defined; the sides of a curvy head are mirrored by its axis.',
     over=['inputs', 'histories'], text='all sequences of parts of every kind, radii, clones, moves, transformations; arrow head dimensions',
     why='the suite builds a few fixed paths; stale caches, relative chains and closing corners need histories',
     files=[GE+'Path.py', GE+'Shape/ArrowHead.py'],
     mechanism=[('Path2D and its segments', GE+'Path.py'), ('TriangularHead, TriangularCurvyHead', GE+'Shape/ArrowHead.py')],
     observe=['start and stop points, geometries, bulge arcs, bounding box of live paths'],
     technique='shadow-path model monitor over random part sequences and edit histories',
     note='Holds on sampled paths; rounded corners between 15 and 165 degrees with a radius which fits.'),

dict(id='C15', title='Directed acyclic graph',
     statement='After any history of node and edge additions and disconnections, a graph has exactly the nodes and edges added and not '
     'removed, its roots and leafs, ancestors and descendants agree with the edges, a breadth-first search visits each reachable '
     'node once by increasing distance, and the topological sort gives every node once, each before the nodes it leads to; a cycle and a '
     'duplicate node are rejected, and queries never change the graph, whatever its depth.',
     over=['inputs', 'histories'], text='all edit histories, graph shapes including deep, disconnected and cyclic ones',
     why='the suite sorts one small graph',
     files=['Patro/Common/Graph/DirectedAcyclicGraph.py'],
     mechanism=[('DirectedAcyclicGraph', 'Patro/Common/Graph/DirectedAcyclicGraph.py')],
     observe=['query results after each edit of a live graph'],
     technique='shadow adjacency model monitor over random edit histories',
     note='Holds on sampled graphs of at most 60 nodes and chains of at most 20000.'),

dict(id='C16', title='Counters, global ids and singletons stay consistent under threads',
     statement='Concurrent increments of an atomic counter each return a distinct value consistent with some sequential order, and the counter '
     'ends at their sum; setting it backwards is rejected. Objects of a class with global ids never share one, explicit ids included. A '
     'singleton class is constructed once whatever the number of threads, per class, and a failed construction leaves no broken instance; '
     'monostate instances share their state.',
     over=['schedules', 'histories'], text='all interleavings of threads over counters, ids and singletons',
     why='the suite is single-threaded; a lost update needs a preemption at one bytecode',
     files=['Patro/Common/AtomicCounter.py', 'Patro/Common/Object.py', 'Patro/Common/Singleton.py'],
     mechanism=[('AtomicCounter', 'Patro/Common/AtomicCounter.py'), ('ObjectGlobalIdMixin', 'Patro/Common/Object.py'), ('SingletonMetaClass, singleton, monostate', 'Patro/Common/Singleton.py')],
     observe=['recorded call and return events of each operation'],
     technique='linearizability check of recorded histories under injected bytecode-level preemption',
     note='Holds on the interleavings observed with 2 to 6 threads.'),

dict(id='C17', title='XML object adaptors: values, defaults, round trip',
     statement='An adaptor instance made from XML text, from an element or from Python values holds the typed values its attributes define '
     '(inherited and mixed-in ones too), absent ones their default, never shared with another instance; writing it to XML and reading it again '
     'gives the same values, null ones being omitted; malformed booleans and numbers are rejected; the text of an element is kept.',
     over=['inputs', 'histories'], text='all adaptor class hierarchies, attribute values, XML notations, edits',
     why='the suite has no test of the layer; each attribute kind and hierarchy shape needs its own input',
     files=['Patro/Common/Xml/Objectivity.py', 'Patro/Common/Xml/XmlFile.py'],
     mechanism=[('attribute classes and metaclass', 'Patro/Common/Xml/Objectivity.py'), ('XmlFileMixin', 'Patro/Common/Xml/XmlFile.py')],
     observe=['attribute values and produced XML of live adaptors'],
     technique='shadow-value model monitor over generated adaptor classes and edit histories',
     note='Holds on sampled classes and values without XML-invalid characters.'),

dict(id='C18', title='SVG import: path data, transforms, lengths, documents',
     statement='Valid SVG path data, transform lists and lengths in any notation the W3C grammar allows give the geometry and values they '
     'define, malformed ones are rejected, and writing an element and reading it again keeps them. Reading a document reports each group and graphic item '
     'once in document order, with its class, attributes, and the transform and style inherited from its own ancestors only; comments, '
     'hidden and unknown elements are skipped. A written document holds its elements, size and global transform.',
     over=['inputs'], text='all path data, transform lists, lengths, element trees with attributes and styles',
     why='the suite reads one document with absolute spaced commands; each notation and nesting needs its own input',
     files=['Patro/FileFormat/Svg/SvgFormat.py', 'Patro/FileFormat/Svg/SvgFile.py'],
     mechanism=[('PathDataAttribute, TransformAttribute, PercentLengthAttribute, Rect.geometry', 'Patro/FileFormat/Svg/SvgFormat.py'),
                ('RenderState, SvgDispatcher, SvgFileInternal, SvgFileWriter', 'Patro/FileFormat/Svg/SvgFile.py')],
     observe=['reader events and states, parsed geometry, written elements'],
     technique='grammar-generated documents with a shadow geometry and inherited-state monitor, output re-parsed independently',
     note='Holds on sampled documents; further subpaths of a path are a recorded finding, rectangles with two distinct radii are not claimed.'),

dict(id='C24', title='Graphic scene',
     statement='After any history of additions, removals, moves and edits, a scene holds exactly the items added and not removed, in insertion order, and '
     'iterates the visible ones by increasing z value; each item has the positions, geometry and bounding box its coordinates give under the scene '
     'transformation. A query at a point finds exactly the items (segments, polylines, Bezier curves, circles and their arcs, full ellipses) within the '
     'radius, by increasing distance. A geometry, a Bezier chain, a spline or a path added to a scene, as segments or as one item, covers that geometry.',
     over=['inputs', 'histories'], text='all item kinds, coordinates, transformations, edit and query histories, paths',
     why='the suite has no test of the scene; stale index and geometry states need edit sequences',
     files=['Patro/GraphicEngine/GraphicScene/Scene.py', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py', 'Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py'],
     mechanism=[('GraphicSceneScope', 'Patro/GraphicEngine/GraphicScene/Scene.py'), ('items', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py'),
                ('GraphicItem.dirty, geometry, bounding_box', 'Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py')],
     observe=['items, iteration orders, geometries and query results of a live scene'],
     technique='shadow-scene model monitor over random edit and query histories',
     note='Holds on sampled histories of at most 25 steps, circles and ellipses under translations, the index being refreshed before each query.'),

dict(id='C25', title='Styles, colours, units and paper sizes',
     statement='A colour made from any notation (name, string, integer, float or hue components, another colour) has the components it denotes, compares by '
     'them, and copies do not share edits; the colour database gives each name the colour of the first table which defines it. A style keeps what '
     'it is given, its clone has the same properties and is independent. Typography units convert consistently (1 in = 25.4 mm = 72 pt). Paper '
     'sizes are those of ISO 216 within 1 mm. Invalid values are rejected.',
     over=['inputs', 'histories'], text='all colour notations, style properties and edits, unit conversion chains, paper sizes',
     why='the suite has no test of styles, colours or units',
     files=['Patro/GraphicStyle/Color/ColorDataBase.py', 'Patro/GraphicStyle/Color/__init__.py', 'Patro/GraphicEngine/GraphicScene/GraphicStyle.py',
            'Patro/GraphicEngine/GraphicScene/TypographyUnit.py', 'Patro/GraphicEngine/Painter/Paper.py', 'Patro/Pattern/SketchStyle.py'],
     mechanism=[('Color, ColorDataBase', 'Patro/GraphicStyle/Color/ColorDataBase.py'), ('GraphicPathStyle, GraphicBezierStyle', 'Patro/GraphicEngine/GraphicScene/GraphicStyle.py'),
                ('TypographyUnit', 'Patro/GraphicEngine/GraphicScene/TypographyUnit.py'), ('PaperSize', 'Patro/GraphicEngine/Painter/Paper.py')],
     observe=['property values of live colours, styles, units and papers'],
     technique='shadow-value model monitor over constructions, edits and clones',
     note='Holds on sampled values; every ISO A, B and C size and every colour name is covered.'),

dict(id='C20', title='Measurements',
     statement='Whatever the order in which measurements are defined, the value of each one is its number or its arithmetic expression evaluated over the values of the '
     'measurements it names, at float precision; a missing reference or a cycle is rejected, and resolved as soon as the missing measurement is added. A name is '
     'registered once, custom Valentina measurements answer to both notations. A measurement file (.vit) or a YAML dump gives back the same measurements, texts, '
     'unit and person. The standard measurement table holds each entry of its data file.',
     over=['inputs', 'histories'], text='all reference graphs, definition orders, expressions, documents',
     why='the suite has no test of measurements; the value depends on the definition order and on the shape of the reference graph',
     files=['Patro/Measurement/Measurement.py', 'Patro/Measurement/ValentinaMeasurement.py', 'Patro/Measurement/PersonalData.py', 'Patro/Measurement/StandardMeasurement.py',
            'Patro/Measurement/ValentinaStandardMeasurement.py', 'Patro/FileFormat/Valentina/Measurement.py', 'Patro/Common/Datetime.py'],
     mechanism=[('Measurement.value, MeasurementSet', 'Patro/Measurement/Measurement.py'), ('ValentinaMeasurements', 'Patro/Measurement/ValentinaMeasurement.py'),
                ('VitFile', 'Patro/FileFormat/Valentina/Measurement.py'), ('PersonalData', 'Patro/Measurement/PersonalData.py')],
     observe=['values, names and texts of live measurement sets, files read back'],
     technique='shadow evaluator as online monitor over random reference graphs and definition orders, YAML and .vit read back',
     note='Holds on sampled graphs of at most 45 measurements and arithmetic expressions; YAML keeps the measurements only, not the person and unit.'),

dict(id='C21', title='Expressions of a sketch',
     statement='The value of an expression of a sketch is its arithmetic over numbers, measurements (standard or custom names, whatever names are prefixes of others), lengths and '
     'angles of lines between points, lengths, angles and control lengths of curves, and the length of the current segment (only for an operation which has one). The dependencies of an expression are the operations it '
     'names. A value is kept until the expression is marked dirty. An undefined name has no value until it is defined, and an unknown point or curve is rejected; points are those of the scope.',
     over=['inputs', 'histories'], text='all arithmetic expressions over the names of a sketch, all current segments',
     why='the suite has no test of expressions; parsing errors depend on which names occur together',
     files=['Patro/Pattern/Calculator.py'],
     mechanism=[('Expression, Calculator, NodeVisitor', 'Patro/Pattern/Calculator.py')],
     observe=['values and dependencies of live expressions'],
     technique='shadow tree evaluator as online monitor over random expressions of a live calculator',
     note='Holds on sampled expressions (+ - * / and parentheses); no power operator nor mathematical functions; the length of a curve within 0.2 %.'),

dict(id='C22', title='Sketch operations, dependencies, scene and Python code',
     statement='Each operation of a sketch places its point, line or curve where its construction says, for any reference (name, id, object) and any expression, and evaluating again '
     'gives the same. Operations depend on exactly the operations they refer to and the graph orders them. Ids are unique over a pattern, lookups by id or name give the operation of '
     'the scope, unknown references and duplicate ids are rejected without effect. The scene of a sketch has the points, labels, lines and curves of its operations with their style '
     'and a bounding box which covers them; the Python code of the operations rebuilds the same sketch.',
     over=['inputs', 'histories'], text='all well conditioned sketches over several scopes, all orders of construction and evaluation',
     why='the suite has no test of sketches; a wrong dependency, alias or sign needs specific chains of operations',
     files=['Patro/Pattern/SketchOperation.py', 'Patro/Pattern/Sketch.py', 'Patro/Pattern/Pattern.py', 'Patro/Pattern/SketchStyle.py', 'Patro/Pattern/__init__.py', 'Patro/Common/Object.py'],
     mechanism=[('operations', 'Patro/Pattern/SketchOperation.py'), ('Sketch.eval, detail_scene', 'Patro/Pattern/Sketch.py'), ('Pattern, PatternScope, OperationIds', 'Patro/Pattern/Pattern.py')],
     observe=['vectors, geometries, dependencies, ids, scenes and Python code of live sketches'],
     technique='shadow geometry monitor over random construction and evaluation histories of live sketches',
     note='Holds on sampled sketches of at most 20 operations, well conditioned; no claim on parallel lines or missing contacts.'),

dict(id='C23', title='Valentina pattern files',
     statement='Reading a pattern file gives the pieces, operations (ids, names, references, expressions, labels, styles, colours) and measurements of the document, and the geometry they '
     'define; operations which are not supported, or depend on such operations, are skipped and the others are kept; the modeling items and the detail nodes have the attributes of the document. A pattern written by the library and read back is the same '
     'pattern, and the file has the elements and attributes of the format. A file without unit, or whose measurement file is missing, is rejected.',
     over=['inputs', 'histories'], text='all documents made of the supported operations, with unsupported ones in between, several files in one process',
     why='the suite has no test of pattern files; losses depend on which optional attributes and elements occur',
     files=['Patro/FileFormat/Valentina/Pattern.py', 'Patro/FileFormat/Valentina/VitFormat.py', 'Patro/FileFormat/Valentina/Measurement.py', 'Patro/Common/Xml/XmlFile.py', 'Patro/Common/Xml/Objectivity.py'],
     mechanism=[('ValFileReader, ValFileWriter', 'Patro/FileFormat/Valentina/Pattern.py'), ('XML adaptors of the operations', 'Patro/FileFormat/Valentina/VitFormat.py')],
     observe=['patterns read, files written and parsed independently, patterns read back'],
     technique='differential monitor: independent writer and parser of the format against the live reader and writer',
     note='Holds on sampled documents of at most 3 pieces and 30 operations; groups are not read, modeling items and details are read but not written.'),

dict(id='C19', title='Exports of a scene and tiles of a page',
     statement='Every visible text, dot, segment and cubic curve of a scene is in the SVG, PDF, DXF, TeX and Matplotlib output exactly once and in the order of the z values (dots are not '
     'exported to DXF), at its position under the scene transformation and the page transformation of the format, with its text, colour, line width and line style; hidden items and '
     'lines without pen or colour are not drawn, an item which is not supported by the painter is rejected. The scene is not modified. The page has the size and orientation of the '
     'paper. The tiles of a page have the size of the usable area of the paper, do not overlap, cover the bounding box with its margin and no more than needed, and a tiled TeX document '
     'has one figure clipped to each tile.',
     over=['inputs'], text='all scenes made of the supported items, all papers, bounding boxes and margins',
     why='the suite only instantiates one painter without scene; a wrong order, transform or style depends on the combination of items',
     files=['Patro/GraphicEngine/Painter/Painter.py', 'Patro/GraphicEngine/Painter/SvgPainter.py', 'Patro/GraphicEngine/Painter/PdfPainter.py',
            'Patro/GraphicEngine/Painter/DxfPainter.py', 'Patro/GraphicEngine/Painter/TexPainter.py', 'Patro/GraphicEngine/Painter/MplPainter.py',
            'Patro/GraphicEngine/Painter/Paper.py', 'Patro/GraphicEngine/TeX/Tikz.py', 'Patro/GraphicEngine/TeX/Document.py', 'Patro/GraphicEngine/GraphicScene/Scene.py'],
     mechanism=[('Painter.paint, cast_position, Tiler', 'Patro/GraphicEngine/Painter/Painter.py'), ('painters', 'Patro/GraphicEngine/Painter/'), ('Document, Environment, TikzFigure', 'Patro/GraphicEngine/TeX/')],
     observe=['files written, read by independent readers', 'artists of the Matplotlib figure', 'tiles'],
     technique='offline monitor: independent readers of each output format compared with the shadow primitives of random scenes',
     note='Holds on sampled scenes of at most 14 items and 8 coordinates; fonts, anchors, the radius of dots and the Qt painter are not claimed.'),

dict(id='C26', title='Import of DXF drawings',
     statement='The import of a DXF drawing gives one item per supported entity of the model space (line, circle, arc, ellipse and elliptic arc, polyline, spline), in the order of the file, '
     'and skips the other ones. The imported curve is the curve of the entity: end points, centre, radii, rotation, swept angles, vertices and bulge arcs (side, direction and closing '
     'segment) of polylines, control points and knots of splines, the fit points of a spline which has no control points, and its Bézier form follows the same curve. A scene exported to DXF and imported again gives its lines.',
     over=['inputs'], text='all drawings of the supported entities in the XY plane',
     why='the suite has no test of DXF files; a wrong side or direction of an arc depends on signs of bulges, angles and parameters',
     files=['Patro/FileFormat/Dxf/Importer.py', 'Patro/FileFormat/Dxf/Polyline.py', 'Patro/GeometryEngine/Spline.py', 'Patro/GeometryEngine/Conic.py'],
     mechanism=[('DxfImporter', 'Patro/FileFormat/Dxf/Importer.py'), ('PolylineVertex, Polyline.geometry', 'Patro/FileFormat/Dxf/Polyline.py')],
     observe=['items imported from drawings written by ezdxf'],
     technique='differential monitor: reference evaluation of the DXF entities (de Boor, bulge arcs) against the curves imported by the live code',
     note='Holds on sampled drawings of at most a dozen entities; no claim on extrusions, rational or periodic splines.'),

dict(id='C27', title='Textile tables, iteration, path and logging helpers',
     statement='The tables of fibres and stitches give every entry of their file with its fields, the first one when a name of fibre is repeated, and tables loaded in the same process do not '
     'mix. The units of a yarn are consistent (denier = 9 tex, metric number = 1000 / tex, and their inverses), needles, fabrics and seams keep their characteristics. The iteration '
     'helpers give the closed, pairwise and multiwise sequences of any input. The path helpers give absolute and parent paths, the first directory holding a file is the one found and '
     'a missing file is an error, path arguments are converted whatever their number. The logging level is the one of the environment.',
     over=['inputs', 'histories'], text='all sequences, file trees, argument lists, tables and levels',
     why='the suite only samples some sequences; losses depend on empty or short inputs, missing fields and repeated names',
     files=['Patro/Common/IterTools.py', 'Patro/Common/Path.py', 'Patro/Common/ArgparseAction.py', 'Patro/Common/Logging/Logging.py', 'Patro/Config/ConfigInstall.py',
            'Patro/TextileTechnology/Database.py', 'Patro/TextileTechnology/Fiber.py', 'Patro/TextileTechnology/StitchType.py', 'Patro/TextileTechnology/Yarn.py',
            'Patro/TextileTechnology/Fabric.py', 'Patro/TextileTechnology/Seam.py', 'Patro/TextileTechnology/Needle.py'],
     mechanism=[('iteration helpers', 'Patro/Common/IterTools.py'), ('find', 'Patro/Common/Path.py'), ('Database', 'Patro/TextileTechnology/Database.py'), ('Yarn', 'Patro/TextileTechnology/Yarn.py')],
     observe=['return values', 'tables', 'log output of subprocesses'],
     technique='reference monitor: list models, independent reading of the tables and recorded log output against the live helpers',
     note='Holds on sampled inputs; sewing machines are not claimed.'),

dict(id='C28', title='Qt view of a scene',
     statement='The Qt view paints every visible item of a scene exactly once and in the order of the z values, with its shape (rotation and sweep of conics, closure of paths, control points '
     'when shown), pen, brush, text and font, at the pixel position given by the size, centre and zoom of the view; an invisible outline is never painted, a selected item is highlighted, '
     'and an item which is not supported is rejected. Fitting shows the whole bounding box centred with its margin, whatever the order in which the scene and the size are set; zooming and '
     'panning move the centre by the right amount, the coordinates of a pixel are the inverse of the view, a click selects the nearest item within 10 pixels and only it. The SVG file '
     'made by Qt has the same items, upright, in a page which covers the bounding box. Every change of the view or of its scene requests a repaint. Painting does not modify the scene.',
     over=['inputs', 'histories'], text='all scenes made of the supported items, all sequences of operations on the view',
     why='the suite has no test of the Qt painter; a wrong pen or position depends on the previous item, the transformation and the history of the view',
     files=['Patro/GraphicEngine/Painter/QtPainter.py', 'Patro/GraphicEngine/Painter/Painter.py', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py', 'Patro/GraphicEngine/GraphicScene/Scene.py'],
     mechanism=[('QtPainter, ViewportArea, QtQuickPaintedSceneItem', 'Patro/GraphicEngine/Painter/QtPainter.py'), ('items', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py')],
     observe=['primitives received by a recording Qt paint engine', 'view coordinates', 'selected items', 'SVG files'],
     technique='shadow view monitor over the primitives received by a recording Qt paint engine, and independent reader of the SVG files',
     note='Holds on sampled scenes of at most 12 items and histories of at most 12 operations; the QML application is not claimed.'),

dict(id='C29', title='Qt application, user scripts and platform',
     statement='The application runs the user script of its command line once, when its window is loaded, with a variable which is the application; a script which fails, does not compile or is missing '
     'stops the application with an exit code of 1 and the first two print the error, the exit code of a script is the one of the application. There is a single application. Qt messages are logged at their level, critical '
     'ones are printed. The window shows the last scene set by a script, notified once for each change, or none; arrow keys pan by 10 pixels, a drag with the middle button pans by 1.5 times the move, the wheel zooms by '
     '2 at the pointer, the buttons fit or zoom by 10 % about the centre, a click selects the nearest item, the coordinates of the pointer are displayed, whatever the sequence of events and the size of the window. The platform '
     'describes the processor, cores, memory and screens of the host.',
     over=['inputs', 'histories'], text='all scripts, arguments, sequences of user events, hosts',
     why='the suite never starts the application; errors depend on the sequence of events and on the scripts',
     files=['Patro/QtApplication/QmlApplication.py', 'Patro/QtApplication/qml/main.qml', 'Patro/Common/Platform.py', 'Patro/GraphicEngine/Painter/QtPainter.py', 'Patro/Common/ArgparseAction.py'],
     mechanism=[('Application, QmlApplication', 'Patro/QtApplication/QmlApplication.py'), ('window', 'Patro/QtApplication/qml/main.qml'), ('Platform', 'Patro/Common/Platform.py')],
     observe=['events recorded in the application', 'output and exit codes', 'state of the view after each user event'],
     technique='offline checker over event logs recorded in the live application, driven by random user events and scripts',
     note='Holds on sampled scripts and histories of at most 24 events, on the Qt offscreen platform.'),
]

PROPS.sort(key=lambda p: int(p['id'][1:]))

NOT_APPLICABLE = {}
