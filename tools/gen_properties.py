#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one entry per property)."""
import json
import os

P = []


def prop(pid, title, statement, over, quant, why, files, mech, observe,
         state=()):
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': quant},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s))
                      for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': observe, 'hook_needed': None}})


prop('C01', 'Caller data is never modified; results are independent copies',
     'Adding rings or polygons, reading the bounds and running any set '
     'operation never changes a coordinate, a ring or a polygon that the '
     'caller passed in, nor anything inside a result returned earlier. The '
     'points, rings and box returned are newly built and shared with neither '
     'the caller\'s input nor the accumulator.',
     ['inputs', 'histories'],
     'every sequence of add / bounds / operation calls with any geometry',
     'Tests compare results with an oracle but never re-check the inputs '
     'afterwards, and reading the bounds is not tested at all; an aliasing '
     'write corrupts data only for particular call sequences.',
     ['wagyu/wagyu.py', 'wagyu/linear_ring.py', 'wagyu/edge.py',
      'wagyu/point_node.py', 'wagyu/polygon.py', 'wagyu/ring_manager.py'],
     [('bounds accumulates into its own corner points', 'wagyu/wagyu.py Wagyu.bounds'),
      ('edges re-point instead of writing through', 'wagyu/edge.py Edge.reverse_horizontal; wagyu/linear_ring.py LinearRing.edges'),
      ('output points copied from vertices', 'wagyu/point_node.py point_node_to_point')],
     ['input points after a call', 'earlier results after a later call'])

prop('C02', 'Operations are repeatable on one accumulator',
     'Running any sequence of set operations and bounds queries on one '
     'accumulator leaves what was added to it unchanged, and each operation '
     'returns exactly what it would have returned as the first operation on a '
     'fresh accumulator given the same rings in the same order.',
     ['histories'],
     'every finite sequence of operations with any operation kinds and fill rules',
     'Every test runs one operation per accumulator; state left behind by a '
     'sweep shows only in the second operation of particular histories.',
     ['wagyu/wagyu.py', 'wagyu/local_minimum.py', 'wagyu/bound.py',
      'wagyu/ring_manager.py'],
     [('per-sweep reset of stored chains', 'wagyu/local_minimum.py LocalMinimum.initialize'),
      ('a new manager per operation', 'wagyu/wagyu.py Wagyu.execute'),
      ('re-indexing in the snap-point pass', 'wagyu/ring_manager.py RingManager.insert_local_minima_into_abl_hot_pixel')],
     ['result of the n-th operation on one accumulator'],
     [('sweep state of stored chains', 'edge cursor, winding numbers, side, owning ring kept on objects that outlive an operation', 'wagyu/bound.py Bound')])

prop('C03', 'Results are a function of the input history only',
     'The outcome of an operation is determined by the rings added, the order '
     'of adding, the operation and the flags. It never depends on object '
     'addresses, hash values or hash order, randomness, time, the '
     'environment, or the iteration order of an unordered container.',
     ['inputs', 'schedules', 'configurations'],
     'every input, every process, interpreter hash seed and memory layout',
     'Tests run in one process with one memory layout; an order taken from '
     'addresses or a set usually agrees there by luck.',
     ['wagyu/ring_manager.py', 'wagyu/utils.py', 'wagyu/point_node.py',
      'wagyu/ring.py'],
     [('address-keyed maps are only looked up, never ordered or iterated', 'wagyu/ring_manager.py find_intersect_loop, process_single_intersection'),
      ('deterministic sorts with value keys', 'wagyu/ring_manager.py sort_hot_pixels, correct_topology, sorted_rings')],
     ['result of the same operation in two processes'])

prop('C04', 'Accumulators are isolated from each other',
     'Work on one accumulator, ring, polygon or any other object never '
     'influences another one that was built separately: no state is shared '
     'through module level or class level containers, default argument '
     'values, caches or registries.',
     ['histories', 'schedules'],
     'every interleaving of work on several accumulators in one process',
     'Tests build objects afresh and compare them with an oracle one at a '
     'time; sharing shows only when two live objects are used in a '
     'particular order.',
     ['wagyu/bound.py', 'wagyu/ring.py', 'wagyu/ring_manager.py',
      'wagyu/local_minimum.py', 'wagyu/utils.py'],
     [('optional containers are created per instance', 'wagyu/bound.py Bound.__init__; wagyu/ring.py Ring.__init__; wagyu/ring_manager.py RingManager.__init__')],
     ['a second accumulator after work on a first'])

prop('C05', 'Operations and fill rules are routed to where they belong',
     'Intersect, unite, subtract and symmetric subtract perform exactly the '
     'operation they name. At every step of an operation the subject fill '
     'rule is applied as the subject rule and the clip fill rule as the clip '
     'rule, both default to even-odd, and a ring added as subject or clip is '
     'treated as that kind throughout.',
     ['inputs', 'configurations'],
     'all operations x all pairs of fill rules x every event of the sweep',
     'Differential tests draw few examples with differing fill rules, and a '
     'swap at one call site shows only for asymmetric rules at rare events.',
     ['wagyu/wagyu.py', 'wagyu/ring_manager.py', 'wagyu/bound.py',
      'wagyu/local_minimum.py'],
     [('named operations delegate to one executor', 'wagyu/wagyu.py Wagyu.intersect, unite, subtract, symmetric_subtract, execute'),
      ('rules and operation passed down the sweep', 'wagyu/ring_manager.py RingManager.execute_vatti and callees')],
     ['result of each named operation with distinct fill rules'])

prop('C06', 'Contribution decision of an edge chain follows the set operation',
     'An edge chain contributes to the result exactly when its own winding '
     'number bounds the inside of its own polygon set under its fill rule and '
     'its winding number in the other set satisfies the operation: inside for '
     'intersection, outside for union, outside for subject and inside for '
     'clip chains in a difference, anything in a symmetric difference.',
     ['inputs', 'configurations'],
     'all operations x fill rule pairs x polygon kinds x winding number pairs (all integers)',
     'The decision has hundreds of cells over unbounded integers; tests draw '
     'forty random cells.',
     ['wagyu/bound.py'],
     [('contribution predicate', 'wagyu/bound.py Bound.is_contributing'),
      ('even-odd predicates', 'wagyu/bound.py Bound.is_even_odd_fill_kind, is_even_odd_alt_fill_kind')],
     ['answer of the contribution query', 'rings emitted by an operation'])

prop('C07', 'Winding numbers of a newly inserted edge chain are right',
     'When an edge chain enters the sweep its own winding number is derived '
     'from the nearest chain of its own polygon set to its left and its '
     'opposite winding number from every chain of the other set between or '
     'carried over by that chain, per the fill rules, for every order and '
     'kind of chains on the left; its partner chain receives the same numbers.',
     ['inputs', 'configurations'],
     'all active chain sequences, winding numbers, directions and fill rules',
     'The only test of this computation fails for an unrelated overflow in '
     'the oracle, so nothing settles it today.',
     ['wagyu/bound.py', 'wagyu/ring_manager.py'],
     [('winding number computation', 'wagyu/bound.py set_winding_count'),
      ('partner copy at insertion', 'wagyu/ring_manager.py RingManager.insert_lm_left_and_right_bound')],
     ['winding numbers of inserted chains', 'rings emitted by an operation'])

prop('C08', 'Crossing edges update winding numbers and emit the right vertices',
     'When two active edge chains cross, their winding numbers are exchanged '
     'or adjusted by the other chain\'s direction per the fill rules, and the '
     'crossing then closes, opens or passes through an output contour exactly '
     'as the operation, fill rules and both chains\' winding numbers require.',
     ['inputs', 'configurations'],
     'all operations x fill rules x kinds x winding numbers x contributing states',
     'Thousands of cells over unbounded integers against forty sampled ones.',
     ['wagyu/ring_manager.py'],
     [('crossing rule', 'wagyu/ring_manager.py RingManager.intersect_bounds')],
     ['winding numbers after a crossing', 'vertices emitted at a crossing'])

prop('C09', 'Sweep and topology orderings are exact',
     'Every ordering the algorithm relies on ranks its elements exactly as '
     'documented for every combination of ties: local minima by height then '
     'flatness, crossings by height then winding, snap points and vertices '
     'top-down then left to right (deeper ring first), rings by absolute area '
     'with emptied rings last, chains by current position then by direction.',
     ['inputs'],
     'every relative order, including every tie, of the compared coordinates',
     'Ties in several keys at once are rarely drawn, and a wrong tie-break '
     'only matters for degenerate inputs.',
     ['wagyu/local_minimum.py', 'wagyu/intersect_node.py', 'wagyu/ring.py',
      'wagyu/point_node.py', 'wagyu/ring_manager.py', 'wagyu/bound.py'],
     [('rich comparisons', 'LocalMinimum.__lt__, IntersectNode.__lt__, PointNode.__lt__, Ring.__lt__'),
      ('comparators and keys', 'hot_pixels_compare, node_key, bound_insert_location, intersection_compare')],
     ['order of sorted elements'])

prop('C10', 'Value objects compare by value and behave as sequences',
     'Points, boxes, edges, rings, polygons, multipolygons and the sweep '
     'records are equal exactly when all their defining components are equal, '
     'decline comparison with foreign types, and the geometry containers '
     'report the length and elements of the geometry they were built from.',
     ['inputs'],
     'all pairs of values, each differing in any one component',
     'Random pairs almost always differ in the first component compared.',
     ['wagyu/point.py', 'wagyu/box.py', 'wagyu/edge.py',
      'wagyu/linear_ring.py', 'wagyu/polygon.py', 'wagyu/bound.py',
      'wagyu/local_minimum.py', 'wagyu/intersect_node.py', 'wagyu/ring.py',
      'wagyu/ring_manager.py', 'wagyu/wagyu.py', 'wagyu/point_node.py'],
     [('equality methods', '__eq__ of every value class'),
      ('sequence protocol', '__len__ and __getitem__ of the geometry containers')],
     ['equality, length and indexing of values'])

prop('C11', 'Results are assembled completely, closed and uniformly oriented',
     'Every surviving output contour appears in the result exactly once, as a '
     'closed ring: contours at even nesting levels as the border of their own '
     'polygon, each followed by its direct holes only, islands inside holes '
     'as further polygons at any depth. The orientation flag flips the '
     'direction of every ring alike.',
     ['inputs', 'configurations'],
     'every forest of output contours, with and without removed entries, both flag values',
     'Deep nests and removed entries are rare in random inputs, and the '
     'orientation flag is hardly varied.',
     ['wagyu/polygon.py', 'wagyu/ring_manager.py', 'wagyu/wagyu.py'],
     [('forest to polygons', 'wagyu/polygon.py rings_to_polygons, Polygon.from_ring, Polygon.append'),
      ('closing and direction', 'wagyu/polygon.py point_node_to_linear_ring')],
     ['rings of the returned multipolygon'])

prop('C12', 'Contour vertices stay a consistent two-way circle',
     'Whenever a vertex is inserted, contours are joined, split, reversed or '
     'cleaned, following a contour forwards and backwards visits the same '
     'vertices: whenever one vertex is made the successor of another, the '
     'other is made its predecessor by the end of that step. No vertex is on '
     'two contours, and no remaining vertex leads to a removed one.',
     ['inputs'],
     'every path through every step that relinks vertices',
     'Tests compare the forward walk of small contours; a one-sided link '
     'shows only when a later step walks the other way.',
     ['wagyu/point_node.py', 'wagyu/ring_manager.py'],
     [('paired link updates', 'PointNode.place_before, PointNode.reverse, fix_collinear_path, RingManager.append_ring, correct_self_intersection, remove_duplicate_points, process_single_intersection')],
     ['forward and backward walks over a contour'])

prop('C13', 'The nesting forest of contours stays consistent',
     'A placed contour is listed exactly once, under its parent or among the '
     'roots when it has none: attaching, moving, replacing or removing a '
     'contour updates the child\'s parent and the parent\'s list together, and '
     'no removed contour stays listed. Only contours just split off, and '
     'children of a contour removed while cleaning, may wait unlisted until '
     'they are placed; rebuilding the tree lists every remaining contour.',
     ['inputs'],
     'every path through every step that changes nesting',
     'An inconsistent forest usually still prints correctly for shallow nests.',
     ['wagyu/ring_manager.py', 'wagyu/ring.py'],
     [('attach and detach primitives', 'RingManager.assign_as_child, assign_as_sibling, reassign_as_child, replace_ring, remove_ring, remove_ring_and_points, set_hole_state; ring.set_to_children, remove_from_children')],
     ['parent and children of contours', 'polygons in the result'])

prop('C14', 'Contour measurements and vertex ownership are never stale',
     'Whenever topology correction changes the outline of a contour, its '
     'cached area, box and orientation are recomputed or invalidated '
     'together, and every vertex it now contains is marked as belonging to '
     'it, before the step ends; a removed vertex or contour keeps neither '
     'owner nor measurements. (Dropping a vertex that merely repeats its '
     'neighbour may leave the cached count.)',
     ['inputs'],
     'every path through every correction step',
     'A stale cache changes the result only when a later comparison falls '
     'between the old and the new value.',
     ['wagyu/ring_manager.py', 'wagyu/ring.py'],
     [('refresh after change', 'Ring.recalculate_stats, set_stats, reset_stats, update_points and their callers in RingManager')],
     ['area, size, box, orientation of contours after a correction step'])

prop('C15', 'Inconsistent nesting or sweep state is reported, never returned',
     'If a contour would be nested under one of its own orientation, a hole '
     'would end up without a parent, crossing order cannot be resolved or '
     'edges expected to cross do not, the operation fails with an error; '
     'consistent states never fail, and no such error is swallowed.',
     ['inputs'],
     'all orientation and parent combinations; every error raised inside an operation',
     'Correct inputs never reach the guards, so tests cannot see a guard '
     'weakened, inverted or swallowed.',
     ['wagyu/ring_manager.py', 'wagyu/point_node.py', 'wagyu/intersect_node.py',
      'wagyu/local_minimum.py'],
     [('guards', 'assign_as_child, assign_as_sibling, reassign_as_child, correct_tree, do_maxima, process_intersect_list, hot_pixels_on_swap, build_intersect_list, inside_or_outside_special, add_linear_ring')],
     ['error raised by an operation'])

prop('C16', 'Accumulator bookkeeping: what was added is what is processed',
     'Adding a ring reports success exactly when the ring has usable edges, '
     'adding a polygon processes all of its rings and reports success when '
     'any of them was usable, clearing forgets everything, and an operation '
     'on an empty accumulator returns an empty result.',
     ['inputs', 'histories'],
     'all rings, polygons with any mix of usable and degenerate rings, all histories',
     'Mixed polygons with degenerate rings first or last are rarely drawn.',
     ['wagyu/wagyu.py', 'wagyu/local_minimum.py'],
     [('accumulator methods', 'Wagyu.add_linear_ring, add_polygon, clear, execute; LocalMinimumList')],
     ['return values of the add methods', 'result after clear'])

prop('C17', 'Horizontal and vertical coordinates are never mixed',
     'No step adds, compares, stores or returns a horizontal quantity where a '
     'vertical one belongs or the reverse: coordinates, distances, slopes and '
     'areas keep their axis through every computation.',
     ['inputs'],
     'every arithmetic, comparison, call and store on coordinates',
     'With coordinates drawn from one small range on both axes a swapped '
     'axis agrees by symmetry on many examples.',
     ['wagyu/edge.py', 'wagyu/point.py', 'wagyu/point_node.py',
      'wagyu/bound.py', 'wagyu/ring_manager.py', 'wagyu/wagyu.py',
      'wagyu/box.py', 'wagyu/ring.py'],
     [('consistent use of axes in all formulas', 'all modules of wagyu/')],
     ['coordinates of results, predicates on geometry'])

prop('C18', 'No latent crash: names, attributes, calls and locals resolve',
     'No public call can die because a name, attribute or keyword does not '
     'exist, an argument is missing or superfluous, a local is read before '
     'any assignment, a value is forgotten on return, or a routine calls '
     'itself without end: every path is well formed.',
     ['inputs'],
     'every path of every function in the package, reached by tests or not',
     'Rare branches and unused methods are never executed by the tests.',
     ['wagyu/'],
     [('well-formed code on every path', 'all modules of wagyu/')],
     ['absence of NameError, AttributeError, TypeError, RecursionError'])

prop('C19', 'No loop can spin in place',
     'On every way around every loop something the loop\'s exit depends on '
     'changes, in the direction of the exit, so no operation hangs by '
     'repeating a step that changes nothing.',
     ['inputs'],
     'every path around every loop',
     'A missing advance on a rare path hangs only for degenerate input that '
     'no test contains.',
     ['wagyu/ring_manager.py', 'wagyu/point_node.py', 'wagyu/linear_ring.py',
      'wagyu/utils.py', 'wagyu/bubble_sort.py', 'wagyu/ring.py',
      'wagyu/bound.py', 'wagyu/local_minimum.py'],
     [('advance on each cycle', 'all loops of wagyu/')],
     ['termination of an operation'])

prop('C20', 'Output vertices lie on the grid, rounded one way everywhere',
     'For input on the integer grid every vertex of an operation\'s result '
     'lies on the integer grid, because every computed crossing or sweep '
     'position is rounded before it can become a snap point or a vertex, and '
     'the same rounding is used to collect snap points and to emit vertices. '
     'Snap points are all collected and sorted before any vertex is emitted.',
     ['inputs'],
     'every flow of a computed coordinate into a snap point or an output vertex',
     'Fractional crossings at horizontals or in rare event orders are not '
     'drawn often enough.',
     ['wagyu/ring_manager.py', 'wagyu/point.py', 'wagyu/utils.py',
      'wagyu/intersect_node.py', 'wagyu/wagyu.py'],
     [('rounding', 'Point.round, utils.round_half_up, round_towards_max'),
      ('phases', 'Wagyu.execute; RingManager.build_hot_pixels, sort_hot_pixels')],
     ['coordinates of results'])

prop('C21', 'Edge geometry formulas are exact',
     'An edge runs from its lower to its upper end whichever way it is given, '
     'reports slope, horizontality, position at a height and its pixel span '
     'at a height by the defining formulas, and two edges meet in the point '
     'common to their lines exactly when it lies within both, ends included.',
     ['inputs'],
     'all edges and heights, including every boundary case',
     'Boundary cases (shared end, parallel, horizontal, height at an end) are '
     'a vanishing part of random pairs.',
     ['wagyu/edge.py', 'wagyu/point.py'],
     [('edge formulas', 'Edge.__init__, __and__, get_current_x, get_min_x, get_max_x, reverse_horizontal; are_edges_slopes_equal, are_points_slopes_equal, is_point_between_others')],
     ['edge attributes and intersections'])

prop('C22', 'Containment tests classify every relative position',
     'Testing a point against a contour tells on, inside and outside apart by '
     'the crossing rule for every relative position of the point to every '
     'contour segment, and one contour is inside another only if its box and '
     'absolute area fit and its first vertex off the border is inside.',
     ['inputs'],
     'every sign combination of the point against a segment; every box and area order',
     'Touching and collinear placements are a thin part of random inputs.',
     ['wagyu/point_node.py', 'wagyu/ring.py', 'wagyu/box.py'],
     [('point classification', 'point_in_polygon'),
      ('contour containment', 'Ring.inside_of, Box.inside_of')],
     ['nesting of results'])

prop('C23', 'The bounds enclose exactly the stored geometry',
     'The reported bounds are the smallest axis-parallel box around all '
     'vertices of usable rings added: each side comes from the right extreme '
     'on the right axis over all stored chains, left and right.',
     ['inputs', 'histories'],
     'all contents of an accumulator',
     'The bounds query has no test at all.',
     ['wagyu/wagyu.py'],
     [('extent accumulation', 'wagyu/wagyu.py Wagyu.bounds')],
     ['value of the bounds query'])

prop('C24', 'Ring chains are paired, directed and linked at every extremum',
     'Splitting a ring pairs at every local minimum a left with a right '
     'chain, gives the falling and the rising chain opposite directions of '
     'winding, the kind of the ring, and links the chains meeting at every '
     'local maximum with each other, closing the circle.',
     ['inputs'],
     'every ring with any number of extrema, either orientation, horizontal minima',
     'Rings with many extrema and flat minima on one side are rare.',
     ['wagyu/local_minimum.py', 'wagyu/bound.py'],
     [('chain construction', 'LocalMinimumList.add_linear_ring, Bound.move_horizontals, fix_horizontals')],
     ['chains stored for a ring'])

prop('C25', 'No event height of the sweep is skipped',
     'Whenever a chain enters the sweep or advances to its next edge, its '
     'position restarts at that edge\'s lower end and the edge\'s upper height '
     'is scheduled once in order, so every height where an edge ends is '
     'visited, in both passes of the sweep.',
     ['inputs'],
     'every chain and every step at which its edge changes',
     'A missing height is usually scheduled by a neighbouring chain too.',
     ['wagyu/bound.py', 'wagyu/ring_manager.py', 'wagyu/utils.py'],
     [('schedule on insert and advance', 'Bound.to_next_edge, RingManager.insert_lm_left_and_right_bound, insert_local_minima_into_abl_hot_pixel, utils.insort_unique')],
     ['heights scheduled'])

prop('C26', 'Output contours grow and join at the correct end',
     'A new vertex is put at the open end of its contour that its chain is '
     'building and never repeats the vertex there; opening, closing and '
     'joining contours assigns sides and orders the combined vertices by the '
     'sides of the chains involved, and every surviving chain follows the '
     'kept contour.',
     ['inputs'],
     'all side combinations, equal and different contours, ties of position',
     'Wrong-end joins need particular side combinations that few inputs reach.',
     ['wagyu/ring_manager.py'],
     [('contour growth', 'RingManager.add_point, add_first_point, add_point_to_ring, add_local_minimum_point, add_local_maximum_point, append_ring')],
     ['vertex order of contours'])

prop('C27', 'Both implementations expose one vocabulary with one meaning',
     'The Python package and the compiled module of the repository name the '
     'same operations, fill rules, polygon kinds and results with the same '
     'numeric meaning, and their contribution decision agrees on every input.',
     ['configurations', 'inputs'],
     'all enumeration members, named operations and decision cells',
     'Differential tests sample members and cells.',
     ['wagyu/enums.py', 'src/main.cpp', 'include/mapbox/geometry/wagyu/config.hpp'],
     [('enumerations', 'wagyu/enums.py; src/main.cpp; config.hpp'),
      ('operation bindings', 'src/main.cpp Wagyu methods')],
     ['enumeration values', 'named operations'])

prop('C28', 'Topology correction keeps the boundary it was given',
     'Splitting, joining and cleaning contours never adds, drops or moves a '
     'stretch of boundary: the directed boundary pieces of all contours '
     'before and after a correction step are the same, except for pieces run '
     'through in both directions and vertices without area.',
     ['inputs'],
     'every placement of repeated vertices and collinear runs in one or two contours',
     'A lost piece changes the result only for contours that touch themselves '
     'or each other in particular ways, which random rings rarely do.',
     ['wagyu/ring_manager.py'],
     [('splitting and joining', 'RingManager.correct_self_intersection, process_single_intersection, merge_rings_for_chain and helpers'),
      ('collinear cleaning', 'RingManager.fix_collinear_path, correct_collinear_path, remove_duplicate_points')],
     ['boundary of contours after a correction step'])

prop('C29', 'Every coincidence of output vertices is examined and resolved',
     'Topology correction looks at every group of vertices at one position, '
     'including the last, and at every pair in it: a contour that visits a '
     'position twice is split there, contours of a chain of touching contours '
     'are joined, back-and-forth runs are removed, and the passes repeat '
     'until nothing changes.',
     ['inputs'],
     'every grouping of the sorted vertices; every pair in a group',
     'A skipped group or pair shows only when exactly it needed a repair.',
     ['wagyu/ring_manager.py'],
     [('group scans', 'RingManager.correct_collinear_edges, correct_self_intersections, correct_chained_rings'),
      ('pairwise repair', 'correct_collinear_repeats, correct_repeated_points, correct_chained_repeats'),
      ('passes', 'RingManager.correct_topology')],
     ['vertices of contours after correction'])

prop('C30', 'Contours are nested under the smallest contour around them',
     'Whenever the nesting tree is built or extended, each contour ends up '
     'under the smallest contour of opposite orientation that contains it, '
     'children of a contour that was split follow the part that contains '
     'them, and a contour opened during the sweep is nested by the nearest '
     'contour to its left with an odd number of chains there.',
     ['inputs'],
     'every nesting of contours, any order of creation, any part split off',
     'Several levels of nesting with a split in the middle are rare in '
     'random inputs, and a wrong parent is often corrected by luck.',
     ['wagyu/ring_manager.py', 'wagyu/ring.py'],
     [('tree building', 'RingManager.correct_tree'),
      ('placing parts', 'RingManager.assign_new_ring_parents, find_parent_in_tree, reassign_children_if_necessary'),
      ('nesting in the sweep', 'RingManager.set_hole_state')],
     ['parents of contours', 'polygons of the result'])

prop('C31', 'Snap points on the way of an edge become vertices',
     'When an edge chain advances, every snap point within the pixel span of '
     'its edge between the last emitted vertex and the new one becomes a '
     'vertex of its contour, once, in the direction of travel, whether the '
     'edge rises to the right, to the left, or runs flat.',
     ['inputs'],
     'every placement of snap points around an edge, every direction of travel',
     'A missed snap point shows only when another edge crosses in the same '
     'pixel row and the contour is later compared exactly.',
     ['wagyu/ring_manager.py'],
     [('snapping of an advancing edge', 'RingManager.insert_hot_pixels_in_path, hot_pixel_set_left_to_right, hot_pixel_set_right_to_left')],
     ['vertices of contours'])

prop('C40', 'Result region equals the set operation on the input regions',
     'Up to snapping to the grid the region covered by a result is the named '
     'set operation applied to the regions the inputs cover under their fill '
     'rules.',
     ['inputs', 'configurations'], 'all inputs, operations and fill rules',
     'Sampled differential tests only.',
     ['wagyu/'], [('the whole sweep', 'wagyu/ring_manager.py')],
     ['region of the result'])

prop('C41', 'Results are valid polygons',
     'Rings of a result do not cross themselves or each other, touch only in '
     'points, and have non-zero area.',
     ['inputs'], 'all inputs', 'Sampled differential tests only.',
     ['wagyu/ring_manager.py'],
     [('topology correction', 'RingManager.correct_topology')],
     ['rings of the result'])

prop('C42', 'Every operation terminates with a result on valid input',
     'For every finite ring with integer coordinates every operation returns '
     'within time bounded by the input size, without an error.',
     ['inputs'], 'all valid inputs', 'Sampled inputs only.',
     ['wagyu/ring_manager.py'], [('the whole sweep', 'wagyu/')],
     ['termination'])

prop('C43', 'Port and reference return identical results',
     'For every input the Python package and the compiled module return the '
     'same polygons, rings and vertices in the same order.',
     ['inputs', 'configurations'], 'all inputs', 'Forty examples per operation.',
     ['wagyu/', 'include/', 'src/main.cpp'],
     [('line by line port', 'wagyu/ against include/')],
     ['results of both implementations'])

prop('C44', 'Set-algebraic laws hold between operations',
     'Results satisfy commutativity of union, intersection and symmetric '
     'difference, and areas satisfy inclusion-exclusion up to snapping.',
     ['inputs'], 'all pairs of inputs', 'No such test exists.',
     ['wagyu/'], [('the whole sweep', 'wagyu/')], ['areas of results'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                   'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
