"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, T, N, E, O, V = ("foronoi/graph/", "foronoi/tree/", "foronoi/nodes/", "foronoi/events/", "foronoi/observers/", "foronoi/visualization/")
ALGO = "foronoi/algorithm.py"
CORE = [ALGO, G + "polygon.py", G + "half_edge.py", G + "point.py", N + "breakpoint.py", E + "circle_event.py", T + "tree.py"]
TESTS = "The tests look at 23 fixed sets of points, most of them with at most seven sites; "

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), state=[dict(name=n, meaning=m, where=w) for n, m, w in state]),
                  _technique=technique, _note=note))


ENUM = "Every state of the listed pools (all subsets of small pools, all prefixes and windows of long sequences) is explored; nothing is sampled. "
TRUST = "Trusted: the exact reference model mc/ref.py (integer half-plane clipping), the Python interpreter. Inputs outside of the pools are not covered."
DIRECT = "bounded exhaustive exploration of the real code over all small site sets (insertion lattice), compared with an exact reference model"

prop("C01", "The area of every cell is the exact area of its Voronoi region",
     "For all distinct sites in a convex bounding polygon, the area reported for a site is the area of the points of the polygon that are at "
     "least as close to this site as to any other. The areas of all sites add up to the area of the polygon, adding a site never makes another "
     "cell grow, and an area rounded to some digits is the exact area rounded to these digits. This holds wherever the polygon is, however large or "
     "small it is (as far as the digits of the decimals in use reach), and also for sites outside of the polygon, which own the part of their region inside of it.",
     ["inputs"], "every finite set of distinct sites, inside, on or outside of any strictly convex bounding polygon, in any position and size",
     TESTS + "a wrong neighbour, a clipped corner or a lost vertex shows up only for particular (cocircular, level, boundary) arrangements.",
     CORE, [("shoelace sum over the corners of the cell", G + "point.py area"), ("clipping and closing of the cells", G + "polygon.py finish_edges, finish_polygon"),
            ("sweep", ALGO + " create_diagram")],
     DIRECT, ENUM + "Areas are compared with exact rational areas up to 1e-9 of the squared extent. " + TRUST, ["Voronoi.sites[i].area()"])

prop("C02", "Walking around a site visits exactly the corners of its region",
     "The borders and vertices listed for a site run once around exactly the region that belongs to the site, clockwise, without gaps, repeats or "
     "foreign corners, whatever arrangement the sites are in. Each listed border belongs to the site and starts at the corresponding vertex. A new "
     "site only changes the regions it touches.",
     ["inputs"], "every finite set of distinct sites in any strictly convex bounding polygon",
     TESTS + "they compare corners for a few of them, while the loop around a site depends on the order in which edges are linked in all arrangements.",
     CORE, [("linking of half-edges at circle events", ALGO + " handle_circle_event"), ("linking along the polygon", G + "polygon.py finish_polygon"),
            ("walk", G + "point.py borders, vertices")],
     DIRECT, ENUM + "Corners are compared cyclically with the exact region up to 1e-9 of the extent. " + TRUST,
     ["Point.borders()", "Point.vertices()", "Point.first_edge"])

prop("C03", "The edges and vertices are exactly those of the bounded Voronoi diagram",
     "The finished diagram lists one edge for every two regions with a common border, from end to end of this border and with the right site on each "
     "side, and one edge for every stretch of the polygon that belongs to one region. It lists every Voronoi vertex inside of the polygon, every place "
     "where an edge meets the polygon and every corner of the polygon once, and nothing else.",
     ["inputs"], "every finite set of distinct sites in any strictly convex bounding polygon",
     TESTS + "missing, duplicate or extra edges and vertices depend on where edges meet the polygon and on degenerate vertices.",
     CORE, [("clipping of edges", G + "polygon.py finish_edges"), ("edges along the polygon", G + "polygon.py finish_polygon"),
            ("vertices of circle events", ALGO + " handle_circle_event")],
     DIRECT, ENUM + "Also checked without the model: no site is closer to a vertex than the sites around it. " + TRUST, ["Voronoi.edges", "Voronoi.vertices"])

prop("C04", "The half-edges, vertices and sites form a consistent planar subdivision",
     "In a finished diagram every half-edge has a twin that points back, an origin, a target that is the origin of its twin, and a next and previous "
     "half-edge around the same site that link to each other and meet end to start. Every vertex lists exactly the half-edges that start at it, every "
     "site points at one of its own half-edges, and the numbers of vertices, edges and cells obey the formula of Euler.",
     ["inputs"], "every finite set of distinct sites in any strictly convex bounding polygon",
     TESTS + "they follow few pointers; users navigate by all of them (next, prev, twin, connected edges).",
     CORE, [("links", G + "half_edge.py set_next, twin, delete"), ("clean-up of links", ALGO + " clean_up_zero_length_edges")],
     DIRECT, ENUM + "Every pointer of every half-edge, vertex and site of every explored diagram is followed. " + TRUST,
     ["HalfEdge.next/prev/twin/origin/target/incident_point", "Vertex.connected_edges", "Point.first_edge"])

prop("C05", "Removing zero-length edges merges coinciding vertices and changes nothing else",
     "With the removal switched on, which is the default, no edge of length zero and no two vertices at the same place remain, and where four or more "
     "regions meet there is a single vertex with all its half-edges. With or without the removal the areas, regions and edges with a length are the same.",
     ["inputs", "configurations"], "every finite set of distinct sites in any strictly convex bounding polygon, both settings",
     "The tests contain few arrangements with coinciding vertices; chains of zero-length edges, those at the polygon and those next to each other never occur.",
     [ALGO, G + "half_edge.py", G + "vertex.py"], [("removal", ALGO + " clean_up_zero_length_edges"), ("deletion of a half-edge", G + "half_edge.py delete")],
     "bounded exhaustive exploration of the real code, both settings on every state, compared with each other and with the exact model",
     ENUM + "Coordinates have few digits, so that coinciding vertices coincide exactly. " + TRUST, ["Voronoi(..., remove_zero_length_edges)"])

prop("C06", "The diagram does not depend on the order or the number format of the input",
     "Handing over the same sites and corners in another order or as other kinds of numbers and sequences gives the same diagram. The sites are listed in "
     "the order they were given in, with their own cells, and are named 0, 1, 2, ... from top to bottom, left to right at the same height.",
     ["inputs", "configurations"], "every order of every finite set of distinct sites; ints, floats, decimals, numpy arrays, lists, tuples, iterators",
     "The tests use one order and one format for each set of points.",
     [ALGO, G + "coordinate.py", E + "event.py", G + "polygon.py"], [("order of events", E + "event.py"), ("conversion", G + "coordinate.py _to_dec"), ("names", ALGO + " create_diagram")],
     "exhaustive exploration of all orders and formats of all small site sets on the real code, compared with each other and the exact model",
     "All orders of all subsets up to the stated size, all rotations of longer sequences, all format combinations. " + TRUST, ["Voronoi.sites", "Point.name"])

prop("C07", "Moving, turning, mirroring or scaling everything does the same to the diagram",
     "Applying a translation, a turn, a mirror image or a scaling to the sites and the polygon gives the diagram to which the same map is applied: the same "
     "edges between the same sites, moved corners, scaled areas, as far as the digits of the decimals in use reach. In particular nothing depends on where the axes are.",
     ["inputs"], "every similarity map with decimal coefficients, every finite set of distinct sites in any strictly convex bounding polygon",
     "The tests never relate two diagrams; a dependency on the position of the axes (signs, zero) stays hidden in fixed coordinates.",
     CORE, [("sweep from top to bottom", ALGO), ("clipping of half-infinite edges", G + "polygon.py finish_edges")],
     "exhaustive exploration of all words over generators of similarity maps applied to all small site sets, on the real code",
     "All words up to the stated length over 9 generators; the images are compared with the mapped original. " + TRUST)

prop("C08", "A new site takes its cell from its neighbours; nothing else changes",
     "When a site is added, its new cell consists of exactly what its neighbours lose: every neighbour's region shrinks to a part of what it was, the losses "
     "add up to the area of the new cell, and regions that do not touch the new cell stay as they are. Removing a site gives everything back.",
     ["histories", "inputs"], "every set of sites and every single insertion or removal",
     "The tests never relate the diagram of a set to that of a subset.",
     CORE, [("whole algorithm", ALGO)],
     "exhaustive exploration of the insertion lattice (every subset, every transition by one site) of fixed pools on the real code",
     "No reference model is needed for the verdict: only diagrams of the library are related. Trusted: tolerances of mc/oracle.py.")

prop("C09", "After every event the beach line is the lower envelope of the swept parabolas",
     "While a diagram is constructed, after every handled event the arcs from left to right are exactly the visible pieces of the parabolas of the sites "
     "swept so far, in the right order, and the breakpoints between them lie where the sites next to them are equally far away.",
     ["inputs", "histories"], "every state after every event, for every finite set of distinct sites",
     "The tests look at finished diagrams only; a wrong beach line may by luck give a right diagram.",
     [ALGO, N + "breakpoint.py", T + "tree.py"], [("arc above a new site", T + "tree.py find_leaf_node"), ("replacement of arcs", ALGO + " handle_site_event, handle_circle_event")],
     "explicit-state exploration of every intermediate state of the real sweep, compared with the lower envelope computed from scratch",
     "Every state after every event of every explored set. " + TRUST, ["observer messages after every step", "the status tree"])

prop("C10", "After every event the status tree is a balanced tree of arcs and breakpoints",
     "While a diagram is constructed, after every handled event the tree behind the beach line is consistently linked, its stored heights are right and "
     "siblings differ by at most one, and each inner node is the breakpoint between the arc to its left and the arc to its right. So every step takes "
     "time logarithmic in the number of arcs.",
     ["inputs", "histories"], "every state after every event, for every finite set of distinct sites",
     "The tests never look at the tree during a run; a lost rotation only costs time, and a wrong link only matters for later events.",
     [ALGO, T + "tree.py", T + "node.py"], [("rebalancing", T + "tree.py balance_and_propagate"), ("replacement of leaves", T + "tree.py replace_leaf"), ("removal of arcs", ALGO + " handle_circle_event")],
     "explicit-state exploration of every intermediate state of the real sweep, invariants on every state",
     "Every state after every event of every explored set, including the pointers between half-edges and breakpoints. " + TRUST, ["Voronoi.status_tree after every step"])

prop("C11", "The sweep handles every event once, in order, and finds exactly the due vertices",
     "While a diagram is constructed, the sweep line only moves down, every site is handled once and from top to bottom, and at any time exactly those Voronoi "
     "vertices are found whose empty circle lies above the sweep line, with pending circle events for the ones to come next.",
     ["inputs", "histories"], "every state after every event, for every finite set of distinct sites",
     "The tests look at finished diagrams only; missed or late circle events show for particular orders of events only.",
     [ALGO, E + "event.py", E + "circle_event.py"], [("event queue", ALGO + " create_diagram"), ("false alarms", E + "circle_event.py remove"), ("new circle events", ALGO + " handle_circle_event, handle_site_event")],
     "explicit-state exploration of every intermediate state of the real sweep, compared with the exact set of due vertices",
     "Every state after every event of every explored set. " + TRUST, ["Voronoi.sweep_line, Voronoi.event, Voronoi.vertices after every step"])

prop("C12", "Every attached observer gets every message once and in order, nobody else does",
     "An observer that is attached gets each message of a run exactly once, in the order of the events, together with the diagram and the payload: one message per handled "
     "event, then one when the sweep is finished, then one when the diagram is finished. Observers that are not attached get nothing, whatever was attached "
     "and detached before, also by another observer during a message.",
     ["histories"], "every sequence of attaching, detaching and running, including observers that attach and detach during a message",
     "The tests attach no observers at all.",
     [O + "subject.py", O + "observer.py", O + "message.py", ALGO], [("subscription", O + "subject.py"), ("broadcast", ALGO + " create_diagram")],
     "exhaustive exploration of all operation sequences (attach, detach, run, re-entrant changes) on the real code, compared with a reference model",
     "All sequences up to the stated length; the number of messages is derived from the exact diagram.", ["Observer.update"])

prop("C13", "Watching or reading a diagram does not change it",
     "Attaching any of the observers that come with the library, drawing figures, or reading areas, borders, vertices, trees and texts, during the construction or afterwards and "
     "in any order, leaves the diagram exactly as it is without.",
     ["histories", "configurations"], "every sequence of observers and of reading operations",
     "The tests never compare a diagram before and after it is read or watched.",
     [O + "voronoi_observer.py", O + "tree_observer.py", O + "debug_observer.py", V + "visualizer.py", G + "point.py"],
     [("figures are made from copies", V + "visualizer.py"), ("reading", G + "point.py")],
     "exhaustive exploration of all sequences of observers and readers on the real code, exact comparison of the complete state",
     "All sequences up to the stated length over the stated sets of sites; the comparison is exact (every digit, every link).")

prop("C14", "A diagram does not depend on what was done before",
     "Creating a diagram gives the same result whatever was created or aborted before, with the same or another diagram object, and with a polygon that was already used. What was created "
     "with another object before stays as it is.",
     ["histories", "fault_sequences"], "every sequence of runs on shared and separate diagram objects and polygons, with aborts at every message",
     "The tests create one diagram per object; a polygon or an object is never used again.",
     [ALGO, G + "polygon.py"], [("clean state", ALGO + " initialize"), ("fresh vertices of the polygon", G + "polygon.py finish_edges")],
     "exhaustive exploration of all run sequences and all abort points on the real code, exact comparison with a fresh run",
     "All sequences up to the stated length, every abort point; the comparison is exact.")

prop("C15", "Diagrams that are made at the same time do not influence each other",
     "When several threads construct diagrams at the same time, each of its own sites and polygon, every diagram comes out as if it had been made alone, in "
     "whatever way the threads are interleaved.",
     ["schedules"], "every interleaving of the steps of two or three concurrent constructions",
     "The tests run one construction at a time.",
     [ALGO, T + "tree.py", N + "breakpoint.py", E + "event.py"], [("no shared mutable state", "all modules")],
     "stateless model checking of the real code: all interleavings of whole events, and all placements of one (thorough: two) preemptions at every executed line",
     "All interleavings within the stated bounds under a controlled scheduler (sys.settrace); two executions of a schedule must agree. Preemptions inside of a line are not explored.")

prop("C16", "The search tree answers like a sorted list and stays balanced",
     "Whatever distinct keys are inserted and removed in whatever order, the tree contains exactly the remaining keys in order, finds them and nothing else, and keeps the heights of "
     "siblings within one. Going to the next or previous leaf, replacing a leaf and rotating keep the order of everything else.",
     ["histories"], "every sequence of insertions and removals of distinct keys, every shape of a tree",
     "The tests insert and remove a handful of keys.",
     [T + "tree.py", T + "node.py"], [("insertion, removal", T + "tree.py insert, delete"), ("rotations", T + "tree.py rotate_left, rotate_right"), ("navigation", T + "node.py successor, predecessor")],
     "explicit-state exploration of all reachable trees of a small key set on the real code, every transition from every state, compared with a sorted list",
     "All reachable trees of the stated number of keys, all shapes up to the stated number of leaves.", ["Tree.*", "Node.*"])

prop("C17", "The point test of a polygon is right for every point off its outline",
     "A convex polygon says yes for every point strictly inside of it, and no for every point strictly outside of it, however close to the outline, on whichever side, "
     "and at the height of whichever corner.",
     ["inputs"], "every strictly convex polygon, every point that is not on the outline",
     "The tests do not test it; points at the height of a corner, in line with a side or close to the outline are special.",
     [G + "polygon.py"], [("ray crossing", G + "polygon.py inside")],
     "exhaustive exploration of all convex polygons of a lattice and all points of a finer lattice on the real code, compared with exact orientation tests",
     "Every convex polygon and every point within the stated bounds, in 8 positions and sizes.", ["Polygon.inside"])

prop("C18", "Corners of a polygon may come in any order; a box is the polygon of its corners",
     "A convex bounding polygon is the same, with its corners in clockwise order, whatever order they are listed in, and gives the same diagrams. "
     "That remains so when a corner is listed more than once, as in a closed ring, and when further corners lie in the middle of a side (which then is two sides). A bounding box is "
     "the polygon of the four corners made of its limits.",
     ["inputs", "configurations"], "every convex polygon, every order of its corners, every repetition of them; every box",
     "The tests list the corners of few polygons in one order each.",
     [G + "polygon.py", G + "bounding_box.py"], [("ordering", G + "polygon.py _order_points"), ("box", G + "bounding_box.py")],
     "exhaustive exploration of all orders of the corners of all convex lattice polygons on the real code",
     "Every polygon and every order within the stated bounds; the diagrams of the walks around it and of the swaps are compared.", ["Polygon.get_coordinates", "BoundingBox"])

prop("C19", "A location keeps the numbers it was given",
     "A location, site or vertex gives back exactly the numbers it was made from or that were assigned last, as floats and as decimals, through every way to read them. Changing one of "
     "them changes nothing else, and the difference of two locations is the exact difference of their numbers.",
     ["histories", "inputs"], "every number of the supported kinds, every sequence of assignments",
     "The tests use short numbers and never assign.",
     [G + "coordinate.py", G + "point.py", G + "vertex.py"], [("conversion by text", G + "coordinate.py _to_dec"), ("properties", G + "coordinate.py")],
     "exhaustive exploration of all assignment sequences up to a depth on the real code, compared with a reference model",
     "All sequences over the stated alphabet of numbers and ways.", ["Coordinate.x, .y, .xy, .xd, .yd, subtraction"])

prop("C20", "A breakpoint is where the parabolas of its two sites meet, on the right side",
     "For two sites on or above the sweep line, the breakpoint from one to the other is equally far from both and from the sweep line, with the first site's parabola lower to its left and the "
     "second's to its right, also for level sites and for a site on the sweep line. It moves along the bisector in one direction as the sweep line goes down, and an arc has the height of its "
     "parabola everywhere.",
     ["inputs"], "every pair of distinct sites, every position of the sweep line",
     "The tests check a few breakpoints; the choice of the root, level sites and sites on the sweep line are special.",
     [N + "breakpoint.py", N + "arc.py"], [("root of the quadratic equation", N + "breakpoint.py get_intersection"), ("parabola", N + "arc.py get_plot")],
     "exhaustive exploration of all site pairs of a lattice and all positions of the sweep line on the real code, compared with 60 digit arithmetic",
     "Every pair and position within the stated bounds.", ["Breakpoint.get_intersection", "Arc.get_plot"])

prop("C21", "A figure shows the state of the moment: what was asked for and nothing else",
     "At every moment of the construction and at the end, a figure contains exactly the parts that are switched on, each at the place where it is at that moment: polygon, edges, vertices, "
     "sites, labels, arcs, beach line, sweep line, circle events and pointers. Parts that are switched off are not there, whatever the combination of switches.",
     ["configurations", "histories"], "every combination of switches at every moment of a run",
     "The tests draw no figures.",
     [V + "visualizer.py", N + "arc.py"], [("plot functions", V + "visualizer.py")],
     "exhaustive exploration of all moments of a run times all small combinations of switches on the real code, compared with the contents computed from the state",
     "All moments of the stated runs, all combinations up to the stated size; the contents of the figures are compared, not the pixels.", ["Visualizer.plot_*", "Visualizer.get_canvas"])

prop("C22", "A circle can bound a diagram: exact point test, edges end at the circle",
     "A bounding circle says yes for exactly the points strictly inside of it, and a figure shows it where it is. A diagram bounded by a circle has the edges of the Voronoi diagram, cut off "
     "where they meet the circle, once each, with their sites on their sides and the edges around every site linked to a closed loop, also if the circle was used before. Figures show this at every moment.",
     ["inputs"], "every circle, every point that is not on it, every set of sites",
     "The tests never use a bounding circle.",
     ["foronoi/contrib/bounding_circle.py", V + "visualizer.py"], [("point test", "foronoi/contrib/bounding_circle.py inside"), ("clipping", "foronoi/contrib/bounding_circle.py finish_edges")],
     "exhaustive exploration of all circles, points and small site sets of lattices on the real code, compared with exact distances and a reference model",
     "The edges are compared with the exact clipped model, and the loops and figures as they are. How the circle itself is divided is not specified, nor the loops where several edges meet the circle in one place.",
     ["BoundingCircle.inside", "Voronoi.edges", "Point.borders", "Visualizer.plot_all"])

prop("C23", "The built-in observers report every moment they were asked for, as it is",
     "The figure observer makes one figure for every step, for the clipping and for the result if and only if it was asked to, each with the settings that were given and showing the state of that moment. The tree observer "
     "gives the tree of that moment with its arcs in order, the debug observer passes every debug text on once, and none of them changes the settings of another.",
     ["configurations", "histories"], "every combination of settings of one or two observers at every moment of a run",
     "The tests attach no observers.",
     [O + "voronoi_observer.py", O + "tree_observer.py", O + "debug_observer.py", V + "tree_visualizer.py"],
     [("choice of moments", O + "voronoi_observer.py update"), ("tree text", O + "tree_observer.py")],
     "exhaustive exploration of all settings of the observers at all messages of a run on the real code, compared with the state of the moment",
     "All settings within the stated bounds.", ["VoronoiObserver", "TreeObserver", "DebugObserver"])

prop("C24", "Linking and deleting half-edges keeps the loops around the cells closed",
     "Deleting half-edges of a closed loop around a site in any order, or inserting new ones, leaves the closed loop of the others in the same order, with previous and next pointing at each other, the site "
     "pointing at an existing half-edge and the vertices listing exactly the half-edges that are left. Twins are always each other's twins.",
     ["histories"], "every sequence of linking and deleting in loops of any length",
     "The tests delete half-edges in finished diagrams of a few sets of points only.",
     [G + "half_edge.py", G + "point.py"], [("deletion", G + "half_edge.py delete"), ("links", G + "half_edge.py set_next, twin")],
     "exhaustive exploration of all sequences of deletions and insertions up to a depth on the real code, compared with a cyclic list",
     "All sequences within the stated bounds from all first edges.", ["HalfEdge.delete, set_next, twin", "Point.borders, vertices"])

prop("C25", "A circle event is the circle through its sites, and events come in sweep order",
     "For three sites not on a line the circle event has their exact circumcircle and is due at its lowest point; there is none for three sites on a line. Events leave the queue from top to bottom, from left "
     "to right at the same height, and with circle events before site events at the same place, in whatever order they enter.",
     ["inputs", "histories"], "every triple of distinct sites; every order in which events enter and leave the queue",
     "The tests check the circles of a few triples and no order of events.",
     [E + "circle_event.py", E + "event.py", E + "site_event.py", G + "algebra.py"], [("circumcircle", E + "circle_event.py create_circle"), ("order", E + "event.py __lt__"), ("orientation", G + "algebra.py check_clockwise")],
     "exhaustive exploration of all triples of a lattice and all queue histories of an event set on the real code, compared with exact arithmetic and a sorted list",
     "Every triple and every history within the stated bounds.", ["CircleEvent", "SiteEvent"])

prop("C26", "Distances, directions and crossings of rays with segments are right",
     "Distance, length and direction are right in all quadrants and at all scales, also nearly along an axis; angles go counter-clockwise from the right, from 0 to 360 degrees. The crossing of a ray with a segment is "
     "where they cross, and there is none if the ray goes past the segment, away from it or in parallel, whatever the direction of either and however the locations are given.",
     ["inputs"], "every two locations, every ray and every segment that it does not just touch",
     "The tests call none of these helpers on their own.",
     [G + "algebra.py"], [("ray and segment", G + "algebra.py line_ray_intersection_point"), ("angle", G + "algebra.py calculate_angle")],
     "exhaustive exploration of all pairs, rays and segments of a lattice in several sizes and places on the real code, compared with exact fractions",
     "All pairs, rays and segments within the stated bounds; rays that touch an end of the segment or run along it are not specified.", ["Algebra.distance, magnitude, norm, calculate_angle", "Algebra.get_intersection"])

prop("C27", "The debug texts tell what happens, and texts of objects name what they are",
     "Every event is announced by one debug text before it is handled, with its height and its site, or its center and three sites in order. Each circle event that enters the queue or is removed by another one, each triple "
     "that is rejected because it is not clockwise, each edge that is deleted by the clipping, and the end of the sweep and of the construction are told, and nothing else. Half-edges, breakpoints, arcs, nodes, "
     "events, vertices and sites shown as text name their own sites in order and their own numbers at every moment.",
     ["inputs", "histories"], "every set of sites, at every moment of the construction",
     "The tests read no texts.",
     [ALGO, G + "polygon.py", G + "half_edge.py", G + "point.py", E + "circle_event.py", N + "internal_node.py"], [("debug texts", ALGO + " notify_observers"), ("texts of nodes", N + "internal_node.py get_label")],
     "exhaustive exploration of all messages of the construction for all subsets of site pools on the real code, the texts compared with what changes in the state",
     "All messages of all runs within the stated bounds; only names and numbers are compared, not the wording.", ["DebugObserver", "repr of HalfEdge, Vertex, Point, Arc, Breakpoint, Node, CircleEvent, SiteEvent"])

prop("C28", "The library leaves data, settings and process of the caller as they are",
     "Importing the library, and making, reading, showing as text, drawing or observing diagrams, in any order, also after a failure, changes nothing that belongs to the caller: not the lists and arrays of sites and "
     "corners that were handed over, not the decimal context, random numbers, NumPy, Matplotlib or interpreter settings, files or environment; and nothing is printed without being asked for. The diagrams are right "
     "whatever rounding mode and traps the caller has chosen for decimals, with a precision of 28 digits or more.",
     ["histories", "configurations"], "every sequence of operations, every container of sites, every decimal context with at least 28 digits",
     "The tests look at results, not at what else happens, and run with the default settings.",
     [ALGO, G + "polygon.py", G + "coordinate.py", E + "circle_event.py", V + "visualizer.py"], [("conversion of the input", ALGO + " create_diagram"), ("conversion of the corners", G + "polygon.py __init__")],
     "exhaustive exploration of all operation sequences up to a depth on the real code, with the state of the process compared after each, and of all decimal contexts of a list against an exact reference model",
     "All sequences and settings within the stated bounds. A new figure closes all others on purpose.", ["Polygon, BoundingBox, BoundingCircle, Voronoi", "Visualizer, observers"])

prop("C29", "Dropped diagrams are freed, and repeated use does not pile anything up",
     "When the caller lets go of a diagram, its polygon, observers and figures, nothing of them stays in memory, whatever was done with them, also after a failure. Creating, observing, reading and drawing again and again with the "
     "same diagram object, the same polygon or the same observers takes no more memory than doing it twice.",
     ["histories"], "every sequence of operations, every number of repetitions",
     "The tests make each diagram once and never look at what is left.",
     [ALGO, "foronoi/observers/subject.py", G + "polygon.py", E + "circle_event.py", V + "visualizer.py"], [("clean state", ALGO + " initialize"), ("children of a subject", "foronoi/observers/subject.py _add_child")],
     "exhaustive exploration of all operation sequences up to a depth on the real code, with all living objects of the library counted after repetitions and after everything was dropped",
     "All sequences within the stated bounds; the garbage collector is asked to run before counting.", ["Voronoi, Polygon, BoundingBox, BoundingCircle", "observers, Visualizer"])


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    run = "/opt/venv/bin/python -B -m mc.run"
    checks = [dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick {run} {p['id']}", thorough_cmd=f"VERIF_TIER=thorough {run} {p['id']}",
                   evidence_file=f"evidence/{p['id']}.json", technique="model checking: " + p["_technique"], level="model_checking", level_note=p["_note"])
              for p in P]
    manifest = dict(version=1, setup_cmd="/opt/venv/bin/python -B -c 'import mc.core, mc.spaces; print(len(mc.spaces.SPACES))'", checks=checks, not_applicable=[],
                    notes="Every check imports /repo as it is and needs no build. One counterexample is replayed with: cd /verif && /opt/venv/bin/python -B -m mc.replay evidence/replay-<id>.json")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
