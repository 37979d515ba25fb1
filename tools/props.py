#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py).
Each entry: id, title, statement, over, quant text, why, files, mechanism[(name,where)], technique, level_note.
An entry whose id is not in CLAIMED is listed under not_applicable with NA[id]."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/cslibs_path_planning/"
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, technique=technique, note=note))

TESTS = "The only existing test calls the integer rounding helper on a handful of literals; "
SAMPLED = ("Exploration: held on the executions of this run (seeded, counted by case, replayable); "
           "every execution is also watched by ASan+UBSan and enabled assertions. ")

# ------------------------------------------------------------------ legacy A*
prop("C01", "Grid A* finds a valid path exactly when the goal can be reached",
 "For every map, start and goal, the 8-connected grid A* planner reports success exactly when the goal can be reached from the start over free in-map cells (the goal cell itself may be non-free; start equal to goal always succeeds), and reports failure for a start or goal outside the map. On success the returned path begins at the start, ends at the goal, moves to one of the 8 neighbour cells at every step without visiting a cell twice, and every cell on it except the goal is free and inside the map. On failure the returned path is empty.",
 ["inputs"], "every map size and contents (free/occupied/unknown cells), every start/goal including out-of-map and blocked ones",
 TESTS+"no planner is ever run. Reachability quantifies over all maps.",
 [I+"a_star/AStar.h", "src/a_star/AStar.cpp", "src/a_star/OpenList.cpp", "src/a_star/Node.cpp"],
 [("backward expansion from the goal", "AStar::search"), ("bounds and free check", "AStar::isFreeWay")],
 "reference-model monitor (BFS reachability + path validator) under ASan/UBSan",
 SAMPLED+"Trusts the harness BFS and the map class' own free/occupied query.")
prop("C02", "Grid A* paths are near-shortest",
 "For every map, start and goal, the length of a path returned by the 8-connected grid A* planner (1 per straight step, sqrt(2) per diagonal step) is never shorter than the true shortest path over free cells and never exceeds it by more than two cells plus a sixth of the shortest length; in obstacle-free maps it exceeds it by at most two cells.",
 ["inputs"], "every map, start and goal",
 TESTS+"path length is never examined.",
 ["src/a_star/AStar.cpp", "src/a_star/OpenList.cpp", "src/a_star/Node.cpp"],
 [("integer-truncated f value ordering", "Node::getValue"), ("Euclidean prediction", "AStar::getDistanceToStart")],
 "differential monitor against reference Dijkstra under ASan/UBSan",
 SAMPLED+"The planner documents occasional slight suboptimality (integer priorities); the margin was measured on millions of searches.")
prop("C03", "Reused grid A* planners answer like fresh ones",
 "For every sequence of searches and map changes (contents or size) on one grid A* planner instance, each search succeeds or fails and yields a path of the same length as a fresh planner instance given the same map, start and goal, and the path reported last always belongs to the latest search.",
 ["histories"], "every history of searches, in-place map edits and map replacements, with sizes growing and shrinking",
 TESTS+"a single-call test cannot reveal state leaking from one search into a later one.",
 ["src/a_star/AStar.cpp", "src/a_star/OpenList.cpp"],
 [("reset of used nodes", "OpenList::prepareNewSearch"), ("reallocation on size change", "AStar::setNewMap")],
 "history monitor: reused instance vs fresh instance, under ASan/UBSan",
 SAMPLED)
prop("C04", "The A* open list is a correct updatable priority queue",
 "For every history of insertions, extractions and resets on the A* open list, each extraction yields a queued cell whose truncated total cost (distance plus prediction) is minimal among all queued cells, and yields nothing exactly when no cell is queued. A cell is queued at most once and never again after it was extracted, until the next reset; offering a queued cell again replaces its distance and predecessor exactly when the offered total cost does not exceed its truncated current total cost. Cells with a row outside the map are ignored.",
 ["histories"], "every sequence of add / extract / reset operations over every grid size",
 TESTS+"the open list is compiled by the test build but never exercised.",
 ["src/a_star/OpenList.cpp", "src/a_star/Node.cpp", I+"a_star/OpenList.h"],
 [("multiset keyed by value", "OpenList::addNode/getFirstNode"), ("visited flag", "Node::setVisited")],
 "history monitor against a sequential model, under ASan/UBSan",
 SAMPLED)

# ------------------------------------------------------------------ generic 2D search
prop("C05", "Generic grid search finds a valid path exactly when one exists",
 "For every map, start and goal inside the map and every neighborhood (4- or 8-connected) of the generic 2D A* searches, a non-empty path is returned exactly when neither start nor goal is occupied and some cell within one step (distance at most 1) of the goal is reachable from the start over free cells. A returned path begins at the start, takes only moves of the neighborhood, visits only free in-map cells after the start, visits no cell twice, and ends within one step of the goal.",
 ["inputs", "configurations"], "every map size and contents, start, goal, neighborhood and heuristic",
 TESTS+"no generic search is ever run.",
 [I+"generic/SearchAlgorithm.hpp", I+"generic/DirectNeighborhood.hpp", I+"generic/MapManager.hpp", I+"generic/Algorithms.hpp"],
 [("expansion loop", "GenericSearchAlgorithm::findPathImpl"), ("neighbor iteration", "DirectNeighborhood::iterateFreeNeighbors")],
 "reference-model monitor (BFS + path validator) under ASan/UBSan",
 SAMPLED)
prop("C06", "Generic grid search with an admissible heuristic returns a cheapest path",
 "For every map, start and goal, when a generic 2D A* search uses a heuristic that never overestimates (Euclidean, maximum or their maximum with either neighborhood; Manhattan with the 4-neighborhood; or one of the user's, whether consistent or not), the cost of the returned path plus the heuristic at its last cell never exceeds the cost of the cheapest path from start to goal, and no returned path is cheaper than the cheapest path to its own last cell.",
 ["inputs", "configurations"], "every map, start, goal, neighborhood and admissible heuristic",
 TESTS+"optimality quantifies over all maps.",
 [I+"generic/SearchAlgorithm.hpp", I+"generic/Heuristics.hpp", I+"generic/DirectNeighborhood.hpp"],
 [("best-first expansion", "findPathImpl"), ("relaxation", "DirectNeighborhood")],
 "differential monitor against reference Dijkstra under ASan/UBSan",
 SAMPLED+"Costs compared with a 1e-6 relative tolerance.")
prop("C07", "A search planner given a map again behaves like a fresh planner",
 "For every sequence of map assignments (same or different size and contents) and searches on one planner instance, a search that follows a map assignment returns the same path (for the 2D planners also the same search statistics) as a fresh planner given that map, start and goal, and offers no solution of an earlier search, also when other planners with other maps were used in between.",
 ["histories"], "every history of setMap / search calls of one or several planners, 2D and steering, growing and shrinking maps, different cell sizes",
 TESTS+"state leaking between searches needs multi-step histories.",
 [I+"generic/SearchAlgorithm.hpp", I+"generic/MapManager.hpp"],
 [("node reset", "initMap"), ("buffers reset", "GenericSearchAlgorithm")],
 "history monitor: reused planner vs fresh planner, under ASan/UBSan",
 SAMPLED)
prop("C08", "Invalid planning requests raise the documented errors",
 "A search without a map, or with a start or goal outside the map, never returns a path: it raises the planner's exception for the missing map, the start or the goal respectively, and the planner remains usable: after assigning the map again the next valid request gives the same answer as a fresh planner.",
 ["inputs", "histories"], "every out-of-map start/goal position around the map and every interleaving of invalid and valid requests",
 TESTS+"error paths are never executed.",
 [I+"generic/SearchAlgorithm.hpp", I+"generic/MapManager.hpp"],
 [("exceptions", "GenericSearchAlgorithm::findPathImpl")],
 "fault-injecting workload with exception monitor, under ASan/UBSan",
 SAMPLED)
prop("C09", "Expansion callbacks, time limits and extended goal search are honoured",
 "The user's progress callback is invoked with the configured period and never changes the search result; a search stops at the first expansion after its own time limit is over, with the best goal candidate met until then or no path, and a search within its limit is not affected; with an extended-search distance the planner returns a path at least as cheap under the goal test's costs as the first goal candidate it met and never worse than without it.",
 ["inputs", "configurations"], "every map, callback period, oversearch distance and candidate-cost function",
 TESTS+"callbacks and candidate handling are never executed.",
 [I+"generic/SearchAlgorithm.hpp", I+"generic/Intermission.hpp"],
 [("candidate bookkeeping", "addGoalCandidate"), ("intermission", "CallbackIntermission::callN")],
 "trace monitor over callback/candidate events, under ASan/UBSan",
 SAMPLED)

# ------------------------------------------------------------------ steering search
prop("C10", "Steering-search paths are kinematically drivable",
 "In every path returned by the steering planners, consecutive poses are connected by one motion of the vehicle model: the heading change, travelled distance and direction correspond to one of the allowed steering angles and the configured step (up to one cell of grid snapping), and forward/backward flags match the actual motion. Motions in a direction the configuration forbids never occur, and where the configuration demands it, direction changes happen only on straight motions.",
 ["inputs", "configurations"], "every map, start pose, goal pose and supported vehicle configuration",
 TESTS+"the steering planner is never run.",
 [I+"generic/SteeringNeighborhood.hpp", I+"generic/DynamicSteeringNeighborhood.h", I+"generic/SteeringNode.hpp"],
 [("motion model", "SteeringNeighborhood::advance")],
 "path validator (independent kinematic model) under ASan/UBSan",
 SAMPLED)
prop("C11", "Steering-search paths are collision free",
 "No pose of a path returned by the steering planners (analytic end aside) lies in an occupied cell, for every map size, and the straight connection between consecutive poses crosses no occupied region wider than the planner's documented cell skip. No pose of a path's analytic (Reeds-Shepp) end lies more than three cells deep inside a region that is not free or more than five cells outside the map.",
 ["inputs", "configurations"], "every map (including maps smaller than the planner's internal padding), obstacle layout, start and goal",
 TESTS+"collision checking is never exercised.",
 [I+"generic/MapManager.hpp", I+"generic/SteeringNeighborhood.hpp", "src/common/Bresenham2d.cpp"],
 [("occupancy and line check", "DynamicDirectionalStateSpaceManager::isFreeOrUnknown")],
 "path validator against the raw map, under ASan/UBSan",
 SAMPLED)
prop("C12", "Steering-search paths start at the start and reach the goal pose",
 "A path returned by the steering planners begins at the requested start pose and ends within the goal tolerance in position and in heading; when start and goal are close together or in the same cell this still holds, and an unreachable goal yields an empty path.",
 ["inputs", "configurations"], "every start and goal pose pair, including same-cell and opposite headings",
 TESTS+"goal tests are never exercised.",
 [I+"generic/SearchAlgorithm.hpp", I+"generic/SteeringNeighborhood.hpp", I+"generic/DynamicSteeringNeighborhood.h", I+"generic/SteeringNode.hpp"],
 [("goal test", "isGoal")],
 "path validator under ASan/UBSan",
 SAMPLED)
prop("C34", "Steering search charges each motion its length times its penalties",
 "In every steering search, each motion that is recorded adds exactly its driven length times the configured backward penalty (if driven backwards) and the configured turn penalty (if it changes the driving direction) to the distance of the pose it starts from, and along every returned path the distances grow by these amounts.",
 ["inputs", "configurations"], "every map, start, goal and vehicle configuration",
 TESTS+"the steering planner is never run.",
 [I+"generic/SteeringNeighborhood.hpp", I+"generic/DynamicSteeringNeighborhood.h"],
 [("distance update", "SteeringNeighborhood::processNeighbor")],
 "trace monitor over every expansion of the real search, under ASan/UBSan",
 SAMPLED)
prop("C13", "State lookup maps each pose to exactly one in-map state",
 "For every map and query pose, state lookup returns the state of the cell (and heading sector) that contains the pose, the same state for every pose of that cell and sector and different states for different cells or sectors; membership queries agree with the map bounds, and lookups outside the map raise the out-of-map error.",
 ["inputs"], "every map size, cell, fractional offset, heading and out-of-map position",
 TESTS+"state lookup is never exercised.",
 [I+"generic/MapManager.hpp"],
 [("angle binning", "angle2index"), ("lookup", "lookup/contains")],
 "model-based monitor under ASan/UBSan",
 SAMPLED)
prop("C14", "Obstacle-aware heuristic equals true holonomic distances",
 "For every map and goal, the obstacle-aware heuristic assigns every cell that is not occupied and is connected to the goal its shortest 8-connected distance to the goal around the occupied cells times the cell size, and zero to cells that are not connected to it, on the plain and on the padded state space.",
 ["inputs"], "every map, goal and query cell",
 TESTS+"heuristics are never evaluated.",
 [I+"generic/Heuristics.hpp"],
 [("wavefront", "HeuristicHolonomicObstacles::setMap")],
 "differential monitor against reference Dijkstra under ASan/UBSan",
 SAMPLED)
prop("C15", "Closed-form heuristics equal their metric and combine by maximum",
 "For every pair of nodes, the closed-form heuristics return the Euclidean, Manhattan and maximum distance times the cell resolution (zero for the no-op one), are non-negative, symmetric and obey the triangle inequality, and the combined heuristic returns the maximum of its parts.",
 ["inputs"], "every pair/triple of positions and every resolution",
 TESTS+"heuristics are never evaluated.",
 [I+"generic/Heuristics.hpp"],
 [("metrics", "HeuristicL1/L2/LInf"), ("maximum", "MaxHeuristic")],
 "metamorphic and reference-formula monitor under ASan/UBSan",
 SAMPLED)

# ------------------------------------------------------------------ Reeds-Shepp
prop("C16", "Reeds-Shepp curves connect start and goal within the turning radius",
 "For every start, goal, turning radius and sampling distance, the samples of a returned Reeds-Shepp curve start at the start pose, end at the goal pose, are never further apart than the sampling distance, and between samples the vehicle moves along the reported heading (forwards or backwards), straight or on a circle of the turning radius, following the segments of one of the enabled curve words; iterating over the curve or over a copy of it again gives the same samples.",
 ["inputs", "configurations"], "every start/goal pose pair, curve word, radius and sampling distance",
 TESTS+"curve generation is never run.",
 ["src/ReedsShepp/Curve.cpp", "src/ReedsShepp/CircleSegment.cpp", "src/ReedsShepp/LineSegment.cpp", "src/ReedsShepp/GeometryHelper.cpp"],
 [("segment construction", "Curve::init_segments"), ("iteration", "Segment::get_next")],
 "independent curve validator under ASan/UBSan",
 SAMPLED)
prop("C17", "Reeds-Shepp curves respect obstacles unless told to ignore them",
 "With obstacle checking on, no sample of a returned curve lies more than three cells deep inside a region that is not free or more than five cells outside the map; whenever the curve found without obstacles, of all enabled words or of one of them alone, keeps five cells clear of obstacles and map borders, a curve of at most its weight is found; further obstacles make no curve cheaper (unless a maximum arc is set). With obstacle checking off the result does not depend on the map.",
 ["inputs", "configurations"], "every map, start/goal pair, curve word set and radius",
 TESTS+"curve generation is never run.",
 ["src/ReedsShepp/Curve.cpp", "src/ReedsShepp/CircleSegment.cpp", "src/ReedsShepp/LineSegment.cpp", "src/ReedsShepp/CurveGenerator.cpp"],
 [("raster check", "is_free")],
 "map-based curve validator and metamorphic runs under ASan/UBSan",
 SAMPLED)
prop("C18", "The cheapest enabled Reeds-Shepp curve is returned with its true cost",
 "Ignoring obstacles, the reported weight of a curve equals the sum over its segments of their length times the configured forward/backward and curve/straight costs (1 where none is set); the returned curve is the cheapest of the enabled words' curves whose total arc stays below the configured maximum (none if there is none; a word of three or four circles contributes the cheaper of its two symmetric solutions), as if each word were enabled on its own.",
 ["inputs", "configurations"], "every start/goal pair, cost assignment, word set and maximum arc",
 TESTS+"curve generation is never run.",
 ["src/ReedsShepp/CurveGenerator.cpp", "src/ReedsShepp/Curve.cpp"],
 [("weights", "CurveSegment/…/weight"), ("selection", "CurveGenerator::find_path")],
 "cost-recomputation and word-by-word differential monitor under ASan/UBSan",
 SAMPLED)
prop("C19", "Reeds-Shepp word patterns parse to exactly the documented words",
 "Parsing a pattern returns true exactly when it is well-formed: letters L, R and S, the direction change |, and closed unnested parentheses that hold only b (after a circle) and p. A well-formed pattern enables exactly the curve word it denotes, an ill-formed one changes nothing but prints a message, and no pattern ever crashes the parser or later searches.",
 ["inputs"], "every pattern string over and near the grammar",
 TESTS+"the parser is never run.",
 ["src/ReedsShepp/CurveGenerator.cpp", "src/ReedsShepp/Curve.cpp"],
 [("parser", "CurveGenerator::parse")],
 "grammar-based fuzzing against a reference grammar under ASan/UBSan",
 SAMPLED)

# ------------------------------------------------------------------ sampling
prop("C20", "The sampling planner returns the cheapest curve into its goal region",
 "For every goal region, the sampling planner returns a curve of minimal cost (curve weight times the region's gain for that goal) among the curves to the offered goals inside the map, and none when the start is outside the map or no offered goal can be connected.",
 ["inputs", "configurations"], "every goal region, start pose and map",
 TESTS+"the sampling planner is never run.",
 ["src/sampling/SamplingPlanner.cpp", "src/sampling/GoalRegion.cpp", "src/sampling/CentroidRadiusGoalRegion.cpp", "src/sampling/RingGoalRegion.cpp"],
 [("minimisation loop", "SamplingPlanner::createPath")],
 "event monitor on offered goals + reference minimisation under ASan/UBSan",
 SAMPLED)
prop("C21", "Goal regions offer exactly the promised goals inside the region",
 "After initialisation with a number of goals, the ring region offers exactly that many goals, evenly spaced in angle, within half its width of its radius, oriented tangentially (counterclockwise for positive, clockwise for negative radius); the approach region offers that many (one if its angle is zero) goals on the circle around its centre, facing the centre, evenly spread over its angle around the direct approach; the gain of an approach goal grows linearly with its angle to the direct approach, from one to two at the maximum.",
 ["inputs"], "every centre, radius, spread, ring bounds and number of goals",
 TESTS+"goal regions are never exercised beyond linking.",
 ["src/sampling/GoalRegion.cpp", "src/sampling/CentroidRadiusGoalRegion.cpp", "src/sampling/RingGoalRegion.cpp"],
 [("next goal", "nextGoal")],
 "geometric monitor under ASan/UBSan",
 SAMPLED)

# ------------------------------------------------------------------ maps
prop("C22", "Map/cell coordinate conversions agree with each other and the map bounds",
 "For every grid map (any size, resolution, origin and, for rotated maps, rotation), converting a cell to a point and back returns the same cell, every point converts to the cell that geometrically contains it, and the conversion and the in-map test report true exactly for points inside the map rectangle (lower borders included, upper borders not).",
 ["inputs", "configurations"], "every map geometry and every point, including negative coordinates and points just outside each border",
 TESTS+"maps are never exercised.",
 [I+"common/SimpleGridMap2d.h", I+"common/RotatedGridMap2d.h", "src/common/MapMath.cpp"],
 [("conversion", "point2cell/cell2point"), ("bounds", "isInMap")],
 "metamorphic and reference-geometry monitor under ASan/UBSan",
 SAMPLED+"Points within 1e-6 cells of a border are not judged.")
prop("C23", "Cells are classified free, unknown or occupied by the thresholds",
 "For every cell value and threshold setting, a cell is free when its value is at most the lower threshold, occupied when at least the upper one, and without information when it lies between or equals the no-information value (which overrides the thresholds); the three-argument and point-based queries agree with the cell-based ones, a point outside the map is in no class, and reading a cell returns the value last written to it.",
 ["inputs", "histories"], "every value, threshold pair and write history",
 TESTS+"maps are never exercised.",
 [I+"common/SimpleGridMap2d.h", "src/common/GridMap2d.cpp"],
 [("thresholds", "isFree/isOccupied/isNoInformation")],
 "model-based monitor under ASan/UBSan",
 SAMPLED)
prop("C24", "Map areas cover exactly their cells, once, and buffers restore them",
 "Iterating a circular area visits each in-map cell within its radius and none beyond its bounding square, and a line area every in-map cell of the raster line between its end points (both included); writing an area changes exactly those in-map cells, area queries (free and without information: all its in-map cells are; occupied: one of them is) agree with the individual cells, and buffering an area, overwriting it and writing the buffer back restores the map.",
 ["inputs", "histories"], "every area centre, radius, line and map, including areas reaching over the border",
 TESTS+"areas are never exercised.",
 [I+"common/GridMap2d.h", "src/common/GridMap2d.cpp"],
 [("iteration", "CircleArea/LineArea::next/getCell")],
 "reference-raster monitor with write/restore histories under ASan/UBSan",
 SAMPLED)
prop("C25", "The line rasteriser walks a connected minimal cell chain to its end",
 "For every pair of cells, the line rasteriser yields a chain of 8-connected cells starting at the first and ending at the second with the minimal number of steps, none further than half a cell from the ideal line; with a map attached, the rasteriser's cell queries (free, occupied, no information, value) agree with the map at each of these cells.",
 ["inputs"], "every pair of cells in every direction and map contents",
 TESTS+"the rasteriser is never exercised.",
 ["src/common/Bresenham2d.cpp", I+"common/Bresenham2d.h"],
 [("stepping", "Bresenham2d::next")],
 "reference-raster monitor under ASan/UBSan",
 SAMPLED)
prop("C26", "Footprint queries test the robot rectangle at the queried heading",
 "For every robot rectangle, map, cell and heading, the footprint query reports occupied when a block of obstacle cells about an eighth of the robot's width across lies inside the robot rectangle rotated to the queried heading, reports free when no non-free cell is within the rectangle's reach, and never depends on cells clearly outside the rotated rectangle.",
 ["inputs", "configurations"], "every footprint, heading, cell and obstacle layout",
 TESTS+"collision maps are never exercised.",
 ["src/common/CollisionGridMap2d.cpp", I+"common/CollisionGridMap2d.h"],
 [("precomputed footprints", "CollisionGridMap2d areas")],
 "reference-geometry monitor under ASan/UBSan",
 SAMPLED)

# ------------------------------------------------------------------ geometry
prop("C27", "Arc and line primitives report consistent lengths, points and poses",
 "For every line segment and arc, the reported length, nearest point and distances agree with the geometric definition, and sampling them as poses gives points on the primitive in travel order from start to end, spaced by less than twice the requested distance and ending within one spacing of the end (arcs: at the end), with headings tangential to the primitive.",
 ["inputs"], "every segment, arc (both directions, all angles) and sampling distance",
 TESTS+"geometry is never exercised.",
 ["src/geometry/circle.cpp", "src/geometry/line.cpp", "src/geometry/shape.cpp"],
 [("sampling", "toPoses")],
 "reference-geometry monitor under ASan/UBSan",
 SAMPLED)
prop("C28", "Intersection queries return exactly the common points",
 "For every pair of lines, circles or arcs in general position, the intersection query returns all common points and only points lying on both shapes (touching circles have one); two arcs meet only within both arcs' angular ranges, while lines meet the arc's full circle.",
 ["inputs"], "every pair of shapes away from degenerate tangency",
 TESTS+"geometry is never exercised.",
 ["src/geometry/intersector.cpp"],
 [("intersections", "Intersector::intersect")],
 "reference-geometry monitor under ASan/UBSan",
 SAMPLED)
prop("C29", "Tangent constructions touch both shapes tangentially",
 "For every pair of shapes for which a tangent construction returns results, each returned line or arc touches the given shapes tangentially and connects them in the stated direction, and the documented number of tangents is returned when they exist.",
 ["inputs"], "every configuration of circles, lines and points in general position",
 TESTS+"geometry is never exercised.",
 ["src/geometry/tangentor.cpp"],
 [("tangents", "Tangentor")],
 "reference-geometry monitor under ASan/UBSan",
 SAMPLED)
prop("C30", "Point and pose algebra obeys the rules of plane geometry",
 "Point and pose arithmetic (addition, subtraction, scaling, rotation, distance, heading difference, identity tests) agrees with plane vector algebra: rotations preserve lengths and compose, distances are symmetric, and identity tests accept exactly poses equal within the tolerance in position and heading.",
 ["inputs"], "every point, pose and angle in the normal coordinate range",
 TESTS+"points and poses are never exercised.",
 [I+"common/Point2d.h", I+"common/Pose2d.h", "src/common/Point2d.cpp", "src/common/Pose2d.cpp", I+"generic/Common.hpp"],
 [("operators", "Point2d/Pose2d")],
 "metamorphic and reference-formula monitor under ASan/UBSan",
 SAMPLED)
prop("C31", "Compile-time rounding returns the nearest integer for every number",
 "For every finite number in integer range the rounding helper returns the nearest integer, halves rounded away from zero.",
 ["inputs"], "every double in the int range, including neighbours of halves",
 "The existing test samples a few literals and no value adjacent to a half.",
 [I+"common/TmpMath.hpp"],
 [("rounding", "tmpmath::round")],
 "differential monitor against exact rounding under UBSan",
 SAMPLED)

# ------------------------------------------------------------------ cross-cutting
prop("C32", "Independent planners on a shared map can run concurrently",
 "Independent planner instances (grid A*, generic 2D and steering searches, Reeds-Shepp curve generators, sampling planners) that share one unmodified map of any kind can run in different threads at the same time without data races, as can the map's constant queries including areas and footprints, and each returns the result it returns when run alone.",
 ["schedules"], "every interleaving of requests to independent planners on a shared constant map; the process-wide settings of the obstacle-aware heuristic and of the dynamic steering neighborhood are made before",
 TESTS+"no test starts a thread.",
 [I+"generic/SearchAlgorithm.hpp", I+"generic/MapManager.hpp", "src/a_star/AStar.cpp", "src/ReedsShepp/CurveGenerator.cpp"],
 [("per-instance state", "planner members")],
 "ThreadSanitizer stress + result comparison with sequential runs",
 "Exploration: held on the interleavings that occurred under stress with TSan (happens-before race detection also reports races whose accesses did not collide); the obstacle-aware heuristic shares one cost table by design and is left out.")
prop("C33", "No documented use corrupts memory or has undefined behaviour",
 "Whatever valid inputs and histories the public API is given, the library performs no invalid or uninitialised memory access, no leak of memory it owns, no undefined arithmetic or conversion and no failing internal assertion.",
 ["inputs", "histories", "configurations"], "every documented use of every library component",
 TESTS+"undefined behaviour rarely changes the result of a sampled call.",
 ["src/", I],
 [("whole library", "all sources")],
 "AddressSanitizer/UBSan/LeakSanitizer and valgrind memcheck over all workloads",
 "Exploration: no report on the executions of this run; red-zone tools and sampled inputs.")

prop("C35", "Aborted searches stop at once and leave the planner usable",
 "When the thread of a generic 2D or steering search is interrupted, or a progress callback or goal test it calls throws, the search expands no further node, returns no path and lets the interruption or exception reach its caller; once a map has been assigned again, the planner answers every request as a fresh planner does.",
 ["histories", "schedules"], "every map, request, search extension and moment of the abort; histories of several aborted and completed searches on one planner",
 TESTS+"no test interrupts a search or lets a callback throw.",
 [I+"generic/SearchAlgorithm.hpp", I+"generic/NodeManager.hpp", I+"generic/MapManager.hpp"],
 [("interruption point", "GenericSearchAlgorithm::findPath_*"), ("per-search initialisation", "GenericSearchAlgorithm::init*, MapManager::setMap")],
 "fault injection (thread interruptions and exceptions at sampled moments) with a history monitor and fresh-planner differential under ASan/UBSan",
 SAMPLED)

prop("C36", "Cell and line queries of the searches' state spaces agree with the map",
 "A state space of the searches answers cell queries as the map does for that cell and heading, and treats the padding around the map as unknown; its line queries pass exactly if every cell of the line after the first passes for the line's heading (the padded state space may step over at most its documented number of cells, never over the end), and a line is either occupied or free-or-unknown.",
 ["inputs"], "every map, also heading-dependent ones, cell size, pair of cells and offset within them; lines around the map for the padded state space",
 TESTS+"the state spaces' queries are never exercised.",
 [I+"generic/MapManager.hpp"],
 [("queries", "Manager, DynamicDirectionalStateSpaceManager: isFree/isOccupied/isFreeOrUnknown")],
 "reference-raster monitor on the real state spaces under ASan/UBSan",
 SAMPLED)

prop("C37", "Map costs weigh Reeds-Shepp curves by the cells they pass",
 "With map costs switched on, a curve's weight is, summed over its segments, the values of the map cells the segment passes (each cell once per segment and with at least the minimum cell cost) times the segment's forward/backward and curve/straight costs, divided by the cell size; cells away from the curve do not count, the same request gives the same weight again, and the returned curve is the cheapest by this weight among the enabled words.",
 ["inputs", "configurations"], "every map, start/goal pair, cost assignment, minimum cell cost and word set, with and without obstacle checking",
 TESTS+"curve generation is never run.",
 ["src/ReedsShepp/CircleSegment.cpp", "src/ReedsShepp/LineSegment.cpp", "src/ReedsShepp/CurveGenerator.cpp"],
 [("cell sums", "CircleSegment::checkCircle, LineSegment::weight"), ("settings", "CurveGenerator::set_use_map_cost, set_min_cell_cost")],
 "cell-count and value-bound monitor on the returned curves' segments, raised-cells and word-by-word differentials, under ASan/UBSan",
 SAMPLED)

CLAIMED = ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C36 C37").split()
NA = {}
DEFAULT_NA = "check under construction"

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])))+"\n")
    checks, na = [], []
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        if p["id"] in CLAIMED:
            checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                technique=p["technique"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], DEFAULT_NA)))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
             notes="All checks: check.py builds /repo's working tree with sanitizers and runs the monitored workloads in harness/.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
