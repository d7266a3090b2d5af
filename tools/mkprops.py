"""Writes properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, G, Q = 'bpypolyskel/bpypolyskel.py', 'bpypolyskel/poly2FacesGraph.py', 'bpypolyskel/bpyeuclid.py'
P = []


def prop(pid, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


DOM = ('every simple footprint with holes whose skeleton nodes are clearly apart (0.15) from each other and from foreign '
       'skeleton edges and whose faces have no corner sharper than 9 degrees at a node, i.e. where none of the documented '
       'simplifications applies; every placement, layout of the vertex list and pitch')
SAMPLE = ('The tests run about 700 fixed OSM outlines and compare node counts or edge crossings with recorded values; ')

prop('P01', 'The faces of a roof partition the footprint',
     'The faces returned for a simple footprint (with or without holes) cover the footprint exactly once: projected to the '
     'ground they are simple polygons inside of it, do not overlap, and their areas add up to its area. '
     'Every edge of a face is either a wall of the footprint, used once in its own direction, or is shared with exactly one '
     'other face that runs through it in the opposite direction.',
     ['inputs', 'configurations'], DOM,
     SAMPLE + 'whether a new outline with another sequence of edge and split events gets holes or overlaps in its roof is not '
     'decided by them.',
     [M, G], [('event loop', 'skeletonize(), _SLAV.handle_edge_event/handle_split_event/handle_dormer_event'),
              ('tracing of faces', 'poly2FacesGraph.circular_embedding(), faces()'),
              ('removal of spikes and of straight vertices', 'polygonize(), loops after graph.faces()')])
prop('P02', 'Every wall has exactly one roof face, which starts with it',
     'Every edge of the outer contour and of the holes belongs to exactly one returned face, and every face starts with its wall '
     'in the direction of the contour and runs counterclockwise seen from above. There are no other faces; only walls in line '
     'with each other on both sides of a detected dormer may have a face in common.',
     ['inputs', 'configurations'], DOM,
     SAMPLE + 'none looks at the first edge or the orientation of the faces, on which texturing of roofs depends.',
     [M, G], [('first edge of a face', 'poly2FacesGraph.faces(), rotation to the edge of the contour; polygonize(), rotation of mergedFace'),
              ('exclusion of the contours', 'poly2FacesGraph.faces(), final_faces')])
prop('P03', 'Every face is planar and rises from its wall with the same pitch',
     'Each vertex of a face lies on the plane that contains the wall of the face and rises to the inside with the requested '
     'pitch. The plane follows from the wall, the pitch (or the maximum height) and the z-coordinate of the footprint alone.',
     ['inputs', 'configurations'], DOM,
     SAMPLE + 'heights of nodes are not checked against the geometry at all.',
     [M], [('heights of nodes', 'next_event(), handle_*_event(): distance of events; polygonize(): arc.height*tan_alpha+zBase')])
prop('P04', 'skeletonize() computes the straight skeleton',
     'For edge contours that describe a simple footprint, the nodes returned by skeletonize() are those of its straight '
     'skeleton, with their distance from the walls as height, and the sinks connect exactly the nodes that the skeleton connects; '
     'every contour vertex is the sink of exactly one node. The input is not modified and the result has no crossing edges.',
     ['inputs', 'configurations'], DOM + '; edges given by vectors, by indices with a center, or with unit vectors',
     SAMPLE + 'a wrong but planar skeleton is accepted by most of them.',
     [M, Q], [('events', '_LAVertex.next_event()'), ('wavefront', '_LAV, _SLAV'), ('simplification', 'mergeNodeClusters(), removeGhosts()')])
prop('P05', 'height, tan and the z-coordinate of the footprint determine the roof heights',
     'A node at distance d from the walls gets z = zBase + d * tan, or zBase + d * height / dmax when a height is given, so that '
     'the furthest node is exactly height above the footprint (below it, when the height is negative); a height other than zero takes '
     'precedence over tan and the roof is flat when both are zero. Neither argument nor the z-coordinate influences the faces or the x and y of the nodes.',
     ['inputs', 'configurations'], 'every simple footprint (also those with documented simplifications) and every combination of height, tan and base elevation',
     'The tests call polygonize() with one height and no elevation; the independence of the plan from the heights needs pairs of runs.',
     [M], [('pitch', 'polygonize(), tan_alpha and skeleton_nodes3D')])
prop('P06', 'polygonize() only appends to its arguments; faces use contour and new nodes',
     'The vertices given to polygonize() stay the same objects with the same values, new nodes (finite 3D vectors) are appended '
     'behind them, and a given list of faces is extended and returned as the same object with its old content. New faces are '
     'lists of at least three different vertices, never the same one twice in a row, all of the given contours or new nodes; no other argument is modified.',
     ['inputs', 'configurations'], 'every simple footprint (also hostile ones), every layout of the blocks in the vertex list, faces and unit vectors given or not',
     'The tests discard their arguments after the call; add-ons keep whole buildings in the same lists.',
     [M], [('argument handling', 'polygonize(), firstSkelIndex, verts.extend, faces.extend'), ('graph indices', 'polygonize(), sIndex')])
prop('P07', 'The roof is made of the skeleton that skeletonize() computes',
     'The nodes that polygonize() appends are, in order, the nodes of the skeleton that it offers as debug output, shifted back by the '
     'center of the footprint. Every sink of that skeleton is a contour vertex or the source of one of its nodes, and every contour '
     'vertex is the sink of exactly one node (unless walls meet at less than 9 degrees). A debug output is requested by its key in debugOutputs, whatever the value; it is only written when it was requested and does not influence the result.',
     ['inputs', 'histories'], 'every simple footprint (also hostile ones), debug output requested or not, before and after other calls',
     'No test looks at sinks that refer to nothing; they silently produce roofs with edges to the last vertex.',
     [M], [('sinks', 'mergeNodeClusters(), removeGhosts()'), ('node indices', 'polygonize(), "search in input edges"'), ('debug', 'debugOutputs')])
prop('P08', 'The roof does not depend on position, orientation, scale or first vertex',
     'Moving, rotating, mirroring or scaling the footprint, or starting its contours at another vertex, moves, rotates, mirrors or scales '
     'the roof in the same way: same nodes, same faces.',
     ['inputs', 'histories'], DOM + '; transformations that keep the footprint within the documented thresholds',
     'Relations between runs on transformed input are not sampled by any test; every outline occurs once, at one place.',
     [M, Q], [('tolerances', 'EPSILON, identicalThresh, group thresholds'), ('pattern detection across the start', 'detectApses(), detectDormers()'),
              ('center', 'polygonize(), center')])
prop('P09', 'polygonize() completes for every simple footprint',
     'For every simple footprint with consistent orientation polygonize() returns in bounded time and raises nothing, '
     'whatever the number of simultaneous events, nearly parallel walls, needles or clusters of nodes.',
     ['inputs'], 'every simple polygon with holes: zigzags, needles, lattices with many simultaneous events, nearly regular, squeezed, huge, tiny and noisy outlines',
     'Tests with expected successes only cover outlines that did not fail when they were recorded; a hang or an exception needs a particular constellation.',
     [M, G], [('event loop', 'skeletonize(), while not (prioque.empty() or slav.empty())'), ('spike removal', 'polygonize(), while hadSpikes'),
              ('tracing', 'poly2FacesGraph.faces()')])
prop('P10', 'The result depends on nothing but the arguments',
     'Repeating a call, other calls in between (also failing ones), debug outputs, earlier content of the lists and the hash seed of the interpreter '
     'do not change nodes or faces in any bit.',
     ['histories', 'configurations'], 'every sequence of calls with good and malformed footprints in one process, and several processes with different hash seeds',
     'Tests run every outline once in a fixed order.',
     [M, G], [('module state', 'debugOutputs, EPSILON'), ('sets', 'poly2FacesGraph.add_edge(), faces(): edgeset'), ('default arguments', 'Edge2(center), polygonize()')])
prop('P11', 'The layout of the vertex list and redundant arguments do not matter',
     'The same footprint gives the same roof wherever its blocks lie in the vertex list, with unrelated vertices before, between and '
     'behind them, in whatever order the holes are listed, with no holes given as None or [], and with unit vectors given or computed.',
     ['inputs', 'configurations'], DOM + '; every arrangement of the blocks',
     'Tests use one contour at the beginning of the list, without unit vectors.',
     [M, G], [('index arithmetic', 'polygonize(), lastVertIndexHole, uIndex'), ('limit between contour and nodes', 'firstSkelIndex')])
prop('P12', 'checkEdgeCrossing() counts exactly the crossings of skeleton edges',
     'checkEdgeCrossing() returns the number of pairs of different skeleton edges that properly cross each other; edges that share a node '
     'or do not meet are not counted, whatever their order and direction.',
     ['inputs'], 'every list of arcs, with distinct nodes or edges sharing nodes',
     'Tests call it for skeletons without crossings; whether it would notice one is not tested.',
     [M, Q], [('pairs of edges', 'checkEdgeCrossing()'), ('segment intersection', 'bpyeuclid.intersect(), ccw()')])
prop('P13', 'The faces graph traces exactly the bounded faces of a planar drawing',
     'For a planar straight-line drawing, tracing its embedding visits every directed edge once and yields the cyclic vertex sequences of its '
     'faces; returned are all that contain a vertex other than the contour vertices, each starting with a contour edge if it has one. '
     'The order in which vertices and edges were added and repeated edges do not matter.',
     ['inputs', 'histories'], 'every connected planar straight-line graph, in every order of insertion',
     'No test uses the graph directly.',
     [G], [('order around a vertex', 'pseudoangle(), compare_angles(), circular_embedding()'), ('tracing', 'faces()'), ('insertion', 'add_edge()')])
prop('P14', 'The 2D geometry primitives agree with exact geometry',
     'Intersections of lines and rays, distances from lines, the orientation and segment predicates, edge vectors and the circle through three '
     'points agree with exact arithmetic within rounding; parallel lines, rays pointing away and points in line give no result.',
     ['inputs'], 'every pair of lines and rays, including parallel, axis-parallel, touching and degenerate ones',
     'No test calls the primitives; their degenerate branches are taken by few footprints.',
     [Q], [('intersection', '_intersect_line2_line2()'), ('parameter test', 'Ray2.intsecttest()'), ('circle', 'fitCircle3Points()'), ('predicates', 'ccw(), intersect()')])
prop('P15', 'Detected dormers and apses still give a roof over the whole footprint',
     'Footprints with bays that are closed as dormers although they are uneven (sides of different length, slanted, walls beside them not in line) get faces '
     'that cover the footprint once, one per wall; walls on both sides of such a dormer may share one. The nodes of a noisy apse that are near to its center '
     'are kept apart and connected as in the straight skeleton, instead of being merged, unless they coincide.',
     ['inputs', 'configurations'], 'every footprint with rectangular bays up to 10 wide whose unevenness is less than half the distance of the skeleton nodes, and '
     'with circular apses of six or more low angles, at any place of the contour',
     'The tests contain a handful of such buildings; bays that interact with other events are rare.',
     [M], [('dormers', 'detectDormers(), processDormers(), handle_dormer_event()'), ('apses', 'detectApses(), findClusters()')])
prop('P16', 'Clusters of nearly coincident nodes become one node at their mean',
     'Skeleton nodes nearer to each other than the merging threshold (0.1, Manhattan) are replaced by one node at the mean of their positions and heights, '
     'which keeps all connections of the cluster to the outside, once each; all other nodes, heights and connections remain, and the roof still covers '
     'the footprint with one face per wall. A cluster connected with two contour vertices less than 0.2 apart (an architectural detail) is kept as it is.',
     ['inputs'], 'every footprint whose skeleton has clusters of nodes nearer than 0.09 to each other, 0.25 away from contour vertices and outside of apses and dormers',
     'Tests compare node counts of some outlines; positions and connections of merged nodes are not checked.',
     [M], [('clusters', 'findClusters()'), ('merging', 'mergeNodeClusters(), mergeCluster()')])
prop('P17', 'The demo and the add-on build the advertised mesh',
     'For every pitch of its slider (0 to 80, at first 30), in any order, the demo draws the walls and skeleton edges of its footprint at that pitch, and '
     'nothing else. For every scale the add-on adds one mesh to the scene: its footprint is that of scale 1 stretched by scale.x and scale.y, its walls are vertical quads 5 * scale.z high, its roof covers the '
     'footprint once, walls and roof join without gaps and enclose the volume of a roof with tangent 0.6; its menu entry offers the registered operator and unregister() undoes register().',
     ['histories', 'configurations'], 'every sequence of slider positions; every positive scale that keeps the walls longer than the merging thresholds (0.6 and more in the plan)',
     'Neither program is run by a test.',
     ['demo.py', '__init__.py'], [('slider', 'create_roof()'), ('operator', 'add_object()')])
prop('P18', 'Cutting needles off faces keeps the faces of all walls and the cover',
     'When a face of the roof (with four or more corners) runs out in a needle of less than 8.1 degrees, polygonize() cuts the needle off and gives the '
     'sliver to the face beside it. Even so every wall has exactly one face of its own, which starts with it and runs counterclockwise; every inner edge '
     'is shared by two faces in opposite directions, the areas of the faces add up to that of the footprint, and no face gains or loses more than slivers. '
     'Faces aside of needles are those of the straight skeleton.',
     ['inputs', 'configurations'], 'every simple footprint whose roof has corners between 0.8 and 9 degrees at skeleton nodes, else as P01',
     'The tests look at node counts; a face that swallows the face of another wall passes them.',
     [M], [('removal of spikes', 'polygonize(), while hadSpikes'), ('straight vertices', 'polygonize(), fix adjacent parallel edges')])
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
