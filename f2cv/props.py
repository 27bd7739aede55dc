"""The properties: statement, what decides it (contracts in specs/, replay drivers in drivers/), and what stays assumed.
tools/gen.py writes properties.jsonl and MANIFEST.json from this table."""
PROPS = {}
NOT_APPLICABLE = {}
TECH = 'contract-based deductive verification of the C++ source (weakest preconditions over the clang AST, z3/cvc5); failing obligations replayed on the real code'
SRC, INC = 'src/fields2cover/', 'include/fields2cover/'


def P(pid, title, statement, over, text, why, files, mech, specs, drivers, note, **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, specs=specs, drivers=drivers, note=note, **kw)


P('C01', 'Ordering swaths loses, duplicates and alters nothing',
  'Sorting the swaths of a cell with any pattern (boustrophedon, snake, spiral of any size, custom order) or with the container\'s own sort returns exactly the given swaths, each once, with id, width, type and geometry kept up to the travel direction (points are reversed exactly when the direction flag flips). '
  'A custom order that is not a permutation of the swath positions is rejected: std::invalid_argument for repeated or too large entries, std::length_error for the wrong number of entries.',
  ['inputs', 'configurations'], 'every set of swaths (0 to any number), every start variant, every spiral size, every custom order',
  'the tests run each pattern on a few sizes (5 to 12 swaths) with one or two spiral sizes; the index arithmetic depends on size parity and on remainders',
  [SRC + 'route_planning/single_cell_swaths_order_base.cpp', SRC + 'route_planning/boustrophedon_order.cpp', SRC + 'route_planning/snake_order.cpp',
   SRC + 'route_planning/spiral_order.cpp', SRC + 'route_planning/custom_order.cpp', SRC + 'types/Swaths.cpp', SRC + 'types/Swath.cpp'],
  [('genSortedSwaths: clone, pattern, alternate directions', SRC + 'route_planning/single_cell_swaths_order_base.cpp'),
   ('rotate calls of the snake pattern', SRC + 'route_planning/snake_order.cpp'), ('rotate/reverse per spiral', SRC + 'route_planning/spiral_order.cpp')],
  ['order'], ['order'],
  'Every obligation of the ordering functions is discharged for any number of swaths; library algorithms (rotate, reverse, sort, unique_copy) enter through models of their standard specification.')

P('C02', 'Ordered swaths follow the pattern and alternate in direction',
  'The ordered swaths follow the definition of their pattern position by position (boustrophedon: by position; snake: even ones up, odd ones down; spiral: groups visited alternately from both ends; custom: the given order), after the start corner chosen by the variant. '
  'Consecutive ordered swaths are driven in opposite directions.',
  ['inputs', 'configurations'], 'every number of swaths, every start variant, every spiral size, every direction the swaths come in with',
  'tests compare a few fixed sizes against literal sequences; off-by-one errors for other parities or remainders, and direction flags of unusual inputs, stay unseen',
  [SRC + 'route_planning/single_cell_swaths_order_base.cpp', SRC + 'route_planning/snake_order.cpp', SRC + 'route_planning/spiral_order.cpp', SRC + 'types/Swaths.cpp', SRC + 'types/Swath.cpp'],
  [('changeStartPoint', SRC + 'route_planning/single_cell_swaths_order_base.cpp'), ('reverseDirOddSwaths', SRC + 'types/Swaths.cpp')],
  ['order'], ['order'],
  'Every obligation is discharged for any number of swaths; the closed form of the snake pattern is checked by the replay driver on all sizes up to 33, its rotations are under contract.')

P('C03', 'Ordering leaves its input alone and clones are independent',
  'Computing an order never changes the swaths handed in, and the returned swaths share no geometry with them: changing the result does not change the input. '
  'Cloning a swath (or a collection of swaths) keeps id, width, type, direction and points, in objects of their own.',
  ['inputs', 'histories'], 'every collection of swaths and every pattern',
  'geometry is held by shared pointers: tests look at the values returned, rarely at the input afterwards, and a shared path only shows when one side is modified later',
  [SRC + 'route_planning/single_cell_swaths_order_base.cpp', SRC + 'types/Swaths.cpp', SRC + 'types/Swath.cpp', INC + 'types/Geometry_impl.hpp'],
  [('genSortedSwaths works on a clone', SRC + 'route_planning/single_cell_swaths_order_base.cpp'), ('Swath::clone', SRC + 'types/Swath.cpp')],
  ['order'], ['order'],
  'Frame conditions over an explicit heap of geometry objects; the WKT round trip inside the geometry clone is trusted to reproduce the points.')

P('C04', 'Graph shortest paths are optimal, realised, and follow every change',
  'For a graph with costs that are not negative, the cost reported between two nodes is the least total cost of any walk along its current edges, the path returned starts and ends at these nodes, uses existing edges only and costs exactly that much, and no path is reported exactly when there is none. '
  'This holds after every sequence of adding and removing edges and of queries in between; all paths between two nodes are exactly the simple paths.',
  ['inputs', 'histories'], 'every graph with costs in [0, bound), every sequence of edge changes and queries',
  'tests use two or three small graphs, built completely before the first query; stale caches and the relaxation on other graphs stay unseen',
  [SRC + 'types/Graph.cpp', INC + 'types/Graph.h'],
  [('Floyd-Warshall with next matrix', SRC + 'types/Graph.cpp'), ('caches cleared on change', SRC + 'types/Graph.cpp')],
  ['graph'], ['graph'],
  'Floyd-Warshall, path reconstruction, cache handling and edge updates are proved for all graphs; termination is not proved; the enumeration of all simple paths (recursion) and numEdges are checked by the replay driver only (bounded).', seconds=15)

P('C05', 'A graph of points indexes each point once and mirrors its edges',
  'Every point added to a planar graph has exactly one index below the number of points, looking up the point of an index and the index of a point are inverse to each other, indices never change, and unknown points or indices raise std::out_of_range. '
  'Edges and shortest paths between points are those of the graph of their indices: an edge without given cost costs the scaled distance, one added through another graph costs the shortest path there.',
  ['inputs', 'histories'], 'every sequence of added and removed edges and of queries',
  'tests build one graph of a few points once; index collisions and stale entries need longer histories',
  [SRC + 'types/Graph2D.cpp', INC + 'types/Graph2D.h', INC + 'types/Point.h'],
  [('insert keeps the first index of a point', SRC + 'types/Graph2D.cpp')],
  ['graph2d'], ['graph'],
  'Proved for points that are equal only when their coordinates are (the tolerance of the point comparison is not modelled); the overloads that take another graph and the enumeration of all paths are checked by the replay driver only (bounded).')

P('C06', 'Swaths of a cell are the parallel strips inside it, all of them',
  'The swaths generated for a cell at an angle are exactly the parts inside the cell (outside its holes) of the lines with that direction at (k + 1/2) widths from the lowest side of the cell turned by the opposite angle, for every k up to the far side, and nothing else. '
  'They are numbered by position, have the given width, type mainland and forward direction; for several cells there is one collection per cell in order. Cutting lines with a cell (also when appending them to existing swaths) keeps exactly the parts inside, existing swaths stay as they were.',
  ['inputs', 'configurations'], 'every cell or collection of cells with or without holes, every angle, every positive width',
  'tests count the swaths of a few squares at a few angles; holes, concave cells, lines that touch a corner and narrow remainders at the far side stay unseen',
  [SRC + 'swath_generator/swath_generator_base.cpp', SRC + 'types/Swaths.cpp', SRC + 'types/Cell.cpp', SRC + 'types/Cells.cpp', SRC + 'types/MultiLineString.cpp', INC + 'types/Point.h'],
  [('generateSwaths: turn, lines, turn back, cut', SRC + 'swath_generator/swath_generator_base.cpp'), ('append per part', SRC + 'types/Swaths.cpp'), ('linesInside', SRC + 'types/MultiLineString.cpp')],
  ['swathgen'], ['swathgen'],
  'Proved with the GEOS intersection as an uninterpreted function of the two geometries and trigonometry uninterpreted; that cutting (MultiLineString::linesInside) keeps exactly the parts inside is checked by the replay driver against an independent oracle only (bounded). Numbers are mathematical reals.', seconds=15)

P('C07', 'The best angle is a true minimum and is the one used',
  'The search for the best swath angle returns a multiple i * step with 0 <= i < floor(2 pi / step) whose cost for the given objective, width and cell is least among all of these, the first one of equal ones; objectives that are to be maximised are negated, and fast objectives are asked by angle. '
  'Generating the best swaths of a cell gives the swaths at exactly that angle, for several cells each cell at its own best angle; generator settings are kept as set and changed by nothing else.',
  ['inputs', 'configurations'], 'every objective, cell, width and step between 2 pi / 2^31 and 2 pi',
  'tests compare one angle of one square for two objectives; ties, other steps, maximising objectives and the last angle of the range are not looked at',
  [SRC + 'swath_generator/brute_force.cpp', SRC + 'swath_generator/swath_generator_base.cpp', INC + 'objectives/base_objective.h'],
  [('computeBestAngle', SRC + 'swath_generator/brute_force.cpp'), ('computeCostOfAngle', SRC + 'swath_generator/swath_generator_base.cpp'), ('sign', INC + 'objectives/base_objective.h')],
  ['swathgen'], ['swathgen'],
  'Proved for every objective that answers with a function of its arguments; the number of steps is computed in real arithmetic.')

P('C08', 'Swath objectives measure what they are named for',
  'The objectives of the swath and headland generation compute what they are named for: number of swaths (rounded up from the height over the width), the modified number of swaths (sum over the vertices of the cell), total length, covered share of the area (inside the strips around all paths), remaining area of a headland, and zero without input. '
  'Asked for one cell, several cells or swaths by cells, an objective answers with the sum over (or the collection of) the parts, and an objective to be maximised is negated and only then.',
  ['inputs', 'configurations'], 'every cell, every collection of cells, every collection of swaths, every angle and width',
  'tests evaluate each objective on one or two squares; sums over several parts, empty parts and unusual shapes are not looked at',
  [SRC + 'objectives/sg_obj/sg_objective.cpp', SRC + 'objectives/sg_obj/n_swath.cpp', SRC + 'objectives/sg_obj/n_swath_modified.cpp', SRC + 'objectives/sg_obj/swath_length.cpp',
   SRC + 'objectives/sg_obj/field_coverage.cpp', SRC + 'objectives/sg_obj/overlaps.cpp', SRC + 'objectives/hg_obj/hg_objective.cpp', SRC + 'objectives/hg_obj/rem_area.cpp', INC + 'objectives/base_objective.h'],
  [('overloads add up their parts', SRC + 'objectives/sg_obj/sg_objective.cpp'), ('formulae of the objectives', SRC + 'objectives/sg_obj/n_swath_modified.cpp'), ('sign', INC + 'objectives/base_objective.h')],
  ['sgobj'], ['objectives'],
  'Proved with GEOS areas, buffers and intersections as uninterpreted functions of the geometries and trigonometry uninterpreted; the overlap objective is checked by the replay driver only (bounded).')

P('C09', 'Headlands have the width and the rings that were asked for',
  'The headland of a field by width is the field shrunk by exactly that width, by number of swaths the field shrunk by that many widths, so the rest lies inside the field and no closer to its border than the width. '
  'Headland swaths are one ring per swath, each half a swath width from the next border, in the order asked for (inside to outside or outside to inside), none for zero swaths; the settings and the given field are left as they are.',
  ['inputs', 'configurations'], 'every field, width, number of swaths and order',
  'tests compare areas for squares and one order; concave fields, holes, several cells and the middle of the rings are not looked at',
  [SRC + 'headland_generator/constant_headland.cpp', SRC + 'types/Cells.cpp', INC + 'headland_generator/constant_headland.h'],
  [('generateHeadlands, generateHeadlandArea, generateHeadlandSwaths', SRC + 'headland_generator/constant_headland.cpp'), ('buffer', SRC + 'types/Cells.cpp')],
  ['sgobj', 'headland'], ['headland'],
  'Proved with the GEOS buffer as an uninterpreted function of the geometry and the width; that the buffer is what its name says is checked on generated fields by the replay driver (bounded).')

P('C10', 'Decomposition splits the field along its lines and loses nothing',
  'Decomposing cells is splitting and merging them: splitting cuts the given cells by the split lines, one after the other, each taking away only a strip of 1e-8 around its line, so the parts do not overlap, cover the field and are cut along every line; merging keeps them; the given cells are not changed. '
  'The split lines of the trapezoidal decomposition are, for every point of every ring of every cell, the lines from the point at the split angle and against it to the border of the cell that holds it: the nearest other point in which the ray leaves or meets the cell, or nothing.',
  ['inputs', 'configurations'], 'every collection of cells, every split angle, every set of lines',
  'tests count the parts of one field at one angle; points on several lines, holes, several cells and rays through vertices are not looked at',
  [SRC + 'decomposition/decomposition_base.cpp', SRC + 'decomposition/trapezoidal_decomp.cpp', SRC + 'decomposition/boustrophedon_decomp.cpp', SRC + 'types/Cells.cpp', SRC + 'types/Cell.cpp'],
  [('split, merge, decompose', SRC + 'decomposition/decomposition_base.cpp'), ('genSplitLines', SRC + 'decomposition/trapezoidal_decomp.cpp'), ('splitByLine, getCellWherePoint', SRC + 'types/Cells.cpp'), ('createLineUntilBorder', SRC + 'types/Cell.cpp')],
  ['swathgen', 'sgobj', 'decomp'], ['decomp'],
  'Proved with GEOS difference, intersection and buffer as uninterpreted functions of the geometries; that the parts are a partition, and the boustrophedon lines, are checked by the replay driver only (bounded).')

P('C11', 'A field stays where it is, whatever is read, set, copied or transformed',
  'The absolute position of a field is its cells moved by its reference point: construction takes the first point as reference point and keeps the absolute position, a clone is equal in every setting and position and independent of the field, and each setter changes its own setting only. '
  'Transforming a field, swath, route, strip or point to another coordinate system moves every point as the projection says and keeps everything else (identifiers, widths, types, directions, names); the field notes the system it came from, transforming back restores the position, and a system that is not recognised is refused with std::invalid_argument before anything changed.',
  ['inputs', 'histories'], 'every field (cells, holes, no cells, two and three dimensions), every sequence of settings, copies and transformations',
  'tests use one or two fields and compare a single coordinate; rings inside, the third coordinate, fields without cells, the previous coordinate system and failing transformations stay unseen, and the tests of the transformations are not part of the tests that run',
  [SRC + 'types/Field.cpp', INC + 'types/Field.h', SRC + 'types/Point.cpp', INC + 'types/Point.h', SRC + 'utils/transformation.cpp', INC + 'utils/transformation.h', SRC + 'types/Cells.cpp', SRC + 'types/Cell.cpp', SRC + 'types/LinearRing.cpp'],
  [('constructor, clone, getCellsAbsPosition', SRC + 'types/Field.cpp'), ('cells moved by a point', INC + 'types/Point.h'), ('transform, transformToUTM, transformToPrevCRS', SRC + 'utils/transformation.cpp')],
  ['field'], ['field'],
  'Every obligation of Field and of moving rings, cells and collections by a point is discharged for any number of cells, rings and points, in real arithmetic. '
  'Reading the text of a coordinate system (regular expressions) and the transformations (the projection library) are out of reach of the contracts: the replay driver compares them with the projection library applied point by point, bounded.')

P('C12', 'Angle and planar point arithmetic is right modulo full turns',
  'Angles brought into one turn lie in [0, 2 pi) and differ from the given one by whole turns; differences lie in [0, pi] and are symmetric, averages lie on the shorter arc between both, continuous angle sequences never jump by more than half a turn and keep every direction. '
  'Rotating a point about another keeps the distance and turns the direction by the angle, the angle and distance of a point and the point at an angle and distance are inverse, signed distances, line intersections and projections satisfy their defining equations.',
  ['inputs'], 'all angles, all points',
  'tests check a handful of angles in the first turns; wrap-around at the boundaries and negative or many-turn angles fail first',
  [INC + 'types/Geometry_impl.hpp', INC + 'types/Geometry.h', INC + 'types/Point.h', SRC + 'types/Point.cpp'],
  [('mod_2pi, getAngContinuity, getAngleDiffAbs, getAngleAvg', INC + 'types/Geometry_impl.hpp'), ('rotateFromPoint, intersectionOfLines, signedDistanceToLine', SRC + 'types/Point.cpp')],
  ['angles', 'swathgen'], ['angles'],
  'Proved in real arithmetic with sine and cosine axiomatised by their identities (period, Pythagoras, addition at the instances used); rounding is not modelled.')

P('C13', 'Route and path costs are the travelled distances, added up',
  'The cost of a step between points, swaths and ends of swaths is the distance travelled; the cost of a sequence of swaths, of several points, and of a route is the sum of its lengths and of the steps between consecutive parts in order, and zero for nothing or a single point. '
  'Each overload agrees with the others on the same journey.',
  ['inputs', 'configurations'], 'every sequence of swaths or points and every route',
  'tests compare one route of a few swaths; a part counted twice or left out at the ends, and empty parts, stay unseen',
  [SRC + 'objectives/rp_obj/rp_objective.cpp', SRC + 'objectives/rp_obj/direct_dist_path_obj.cpp', INC + 'objectives/rp_obj/rp_objective.h'],
  [('computeCost overloads', SRC + 'objectives/rp_obj/rp_objective.cpp')],
  ['rpobj'], ['objectives'],
  'Every obligation of the overloads is discharged for sequences of any length, with the distance an uninterpreted function of the two points.')

P('C14', 'A route keeps swaths and connections in travel order',
  'However a route is built, its connections and groups of swaths alternate, the connection with number i before group i: swaths that follow a connection (or nothing) begin a new group, others join the last group; points that follow swaths begin a new connection, others join the last one behind its points; a swath added through a graph is connected by the shortest path from the end of the route to its start. '
  'Nothing already in the route changes. The route as a line is the points of all its parts in travel order, its length is the length of that line, start and end points are those of the first and last part; a clone is equal and independent.',
  ['inputs', 'histories'], 'every sequence of additions and replacements',
  'tests build a few routes of one shape; empty groups, leading or trailing connections, several calls in a row and routes that begin with swaths are not looked at',
  [SRC + 'types/Route.cpp', INC + 'types/Route.h'],
  [('addSwaths, addSwath, addConnection', SRC + 'types/Route.cpp'), ('asLineString, startPoint, endPoint', SRC + 'types/Route.cpp')],
  ['order', 'groups', 'route'], ['containers'],
  'Every obligation is discharged for routes of any size with the alternation of groups and connections as class invariant; the shortest path between points is the contract of C05.')

P('C15', 'Swath collections answer by position over all cells',
  'A collection of swaths by cells answers for the swath with number i with the i-th swath counted over all cells (a reference to the one it holds) and raises std::out_of_range exactly when there is none, whatever cells are empty; its total size is the sum of the sizes, the flattened collection holds all swaths cell by cell, reversing and appending keep every member, a clone is equal and independent.',
  ['inputs'], 'every collection, with empty cells anywhere, every position',
  'tests use two or three cells that are not empty; empty first, middle or last cells and the positions at the borders between cells stay unseen',
  [SRC + 'types/SwathsByCells.cpp', SRC + 'types/Swaths.cpp'],
  [('getSwath', SRC + 'types/SwathsByCells.cpp'), ('sizeTotal, flatten, clone', SRC + 'types/SwathsByCells.cpp')],
  ['order', 'groups'], ['containers'],
  'Every obligation is discharged for any number of cells and swaths, less than 2^31 swaths in total.')

P('C17', 'A robot keeps valid settings, each independent of the others',
  'A robot can only be built with a positive width and a coverage width that is not negative, otherwise std::out_of_range is raised; a coverage width of zero means the width. Every setting is kept as set and setting one changes no other; curvatures are kept without sign, turning radius and largest curvature are inverse to each other (finite for zero), and the turning velocity is the cruise velocity until it is set.',
  ['inputs', 'histories'], 'all numbers, every sequence of settings',
  'tests set each value once; the boundary of the width check, zero and negative curvatures, and a setter that touches another setting stay unseen',
  [SRC + 'types/Robot.cpp', INC + 'types/Robot.h'],
  [('constructor, setters, getters', SRC + 'types/Robot.cpp')],
  ['robot'], ['containers'],
  'Every obligation is discharged in real arithmetic; the regularisation of the inverse (1e-7) is allowed up to 1e-6.')
