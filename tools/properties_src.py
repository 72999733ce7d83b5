prop("C01", "A lanelet map is self-contained and its layers agree with what was added",
 """After any sequence of additions a map contains exactly the added elements plus everything they reference
 (points, linestrings, polygons, lanelets, areas, regulatory elements and their parameters), each findable under its id in the
 layer of its kind, so that membership, lookup, size and iteration all agree. Adding an element again changes nothing, and an
 element added without an id receives a fresh one that no element of the map uses. Looking up an absent id reports absence
 (or throws on 'get') and never returns another element.""",
 ["histories"], "every order of creating, linking and adding points, linestrings, polygons, lanelets, areas and regulatory elements, including cycles between lanelets and regulatory elements",
 "Unit tests add a handful of fixed elements in one order; closure has to hold for every reference graph (shared sub-elements, cycles through regulatory elements) and every order of additions.",
 [CORE+"src/LaneletMap.cpp", INC+"LaneletMap.h"],
 [("recursive add / AddVisitor", CORE+"src/LaneletMap.cpp LaneletMap::add"), ("per layer id index and r-tree", CORE+"src/LaneletMap.cpp PrimitiveLayer")],
 [("layers", "id -> element per kind", INC+"LaneletMap.h PrimitiveLayer::elements_")],
 ["LaneletMap::add, PrimitiveLayer::exists/find/get/size/begin"])

prop("C02", "Reverse lookups return exactly the elements that use a given element",
 """For every element of a map, asking a layer which of its elements use it (points in linestrings and polygons, linestrings in lanelets
 and areas, regulatory elements in lanelets and areas, parameters in regulatory elements) returns exactly the layer's elements
 that referenced it when they were added (a lookup by linestring handle means that orientation of the linestring). Elements that were never added, or that
 do not reference it, are never returned.""",
 ["histories"], "every reference graph and order of additions, including elements used many times, in inverted form and by several owners",
 "Tests look up the usages of two or three elements of one fixed map; the answer depends on the reference graph and on the order the index was filled.",
 [CORE+"src/LaneletMap.cpp", INC+"LaneletMap.h"],
 [("UsageLookup index per layer", CORE+"src/LaneletMap.cpp UsageLookup"), ("utils::findUsages helpers", CORE+"src/LaneletMap.cpp findUsagesInLanelets")],
 [("usage index", "sub element -> owners", CORE+"src/LaneletMap.cpp UsageLookup::ownedLookup")],
 ["PrimitiveLayer::findUsages, utils::findUsages"])

prop("C03", "A submap holds what was put into it and keeps its elements alive",
 """A submap contains exactly the elements that were added to it explicitly, without pulling in what they reference.
 Lanelets and areas referenced by the regulatory elements of what was added stay alive and accessible as long as
 the submap does, even when every other owner is gone. Converting it to a full map yields exactly the closure of its elements.""",
 ["histories"], "every order of additions and of dropping the other owners of the elements",
 "Tests build one submap with a lanelet and a regulatory element; lifetime and contents depend on the reference graph and on which owners have been dropped.",
 [CORE+"src/LaneletMap.cpp", INC+"LaneletMap.h"],
 [("LaneletSubmap::add / trackParameters", CORE+"src/LaneletMap.cpp"), ("laneletMap()", CORE+"src/LaneletMap.cpp")],
 [("regelemObjects_", "keeps parameters of regulatory elements alive", INC+"LaneletMap.h LaneletSubmap")],
 ["LaneletSubmap::add, laneletMap, utils::createSubmap"])

prop("C04", "Spatial queries of map layers return the same answer as a linear scan",
 """For every layer and every history of additions, an area search returns exactly the elements whose bounding box touches the area, and
 a nearest-n query returns the min(n,size) elements whose boxes are closest, in ascending order of distance.
 The variants that stop on a predicate visit elements in that same order and return the first accepted one, and the
 exact-distance queries (findNearest, findWithin2d) return the elements a linear scan over true distances would return, sorted ascending.""",
 ["inputs", "histories"], "every set of points, linestrings, polygons, lanelets and areas in a layer and every query point, box, count, radius and predicate",
 "Tests query a map with a few elements at a few places; the r-tree answer has to agree with the definition for every configuration, including touching boxes, duplicates and elements added after the index was built.",
 [CORE+"src/LaneletMap.cpp", INC+"LaneletMap.h", INC+"geometry/impl/LaneletMap.h"],
 [("R-tree queries", CORE+"src/LaneletMap.cpp PrimitiveLayer::search/nearest"), ("exact refinement over box order", INC+"geometry/impl/LaneletMap.h")],
 [("tree", "r-tree over bounding boxes", CORE+"src/LaneletMap.cpp Tree")],
 ["PrimitiveLayer::search/searchUntil/nearest/nearestUntil, geometry::findNearest, geometry::findWithin2d"])

prop("C05", "Ids handed out are unique and never collide with registered ids",
 """Every id handed out by the library's id generator is different from every id it handed out before and from every id
 registered before, no matter how threads interleave requests and registrations. Ids of all elements that are put into a map or
 submap, by adding, creating or loading them, count as registered. The generator only ever moves forward.""",
 ["schedules", "histories"], "every interleaving of concurrent getId and registerId calls and every sequence of registered ids, lower, equal and higher than the counter",
 "Tests call the generator sequentially; a lost update between reading and storing the counter only shows under particular interleavings.",
 [CORE+"src/LaneletMap.cpp", INC+"utility/Utilities.h"],
 [("atomic counter with compare-exchange", CORE+"src/LaneletMap.cpp utils::getId/registerId")],
 [("currId", "next id to hand out", CORE+"src/LaneletMap.cpp")],
 ["utils::getId, utils::registerId"])

prop("C06", "Reading an attribute value depends only on its current text",
 """Converting an attribute value to a bool, integer, id, floating point number or physical quantity yields a result determined by
 the value's current text alone: it is the parsed value if the text is of that type and absent otherwise. Earlier conversions, copies,
 assignments to other attributes and conversions running concurrently in other threads never change the outcome, and a conversion
 after a value was changed reflects the new text.""",
 ["schedules", "histories", "inputs"], "every text, every sequence of conversions, changes and copies and every interleaving of concurrent conversions",
 "Tests convert a few fresh values once; stale or torn caches need a particular history of conversions or an interleaving of two readers.",
 [CORE+"src/Attribute.cpp", INC+"Attribute.h"],
 [("type tagged cache swapped atomically", CORE+"src/Attribute.cpp load/store"), ("cache reset on setValue", CORE+"src/Attribute.cpp Attribute::setValue")],
 [("cache_", "last parsed value", INC+"Attribute.h")],
 ["Attribute::asBool/asInt/asId/asDouble/asVelocity/..., setValue, copy/move"])

prop("C07", "Attribute lookup by name constant equals lookup by string",
 """For every history of insertions, erasures, assignments, copies, moves, swaps and clears of an attribute map, looking an attribute up
 through the fast name constant and through the equivalent string finds the same entry, or neither finds one.
 The map's size, iteration order and contents are those of an ordinary string-keyed ordered map with the same history.""",
 ["histories"], "every sequence of mutating operations over names with and without a fast constant",
 "The fast path keeps a second index that every mutating operation has to keep in step; tests exercise few operations one at a time.",
 [INC+"utility/HybridMap.h", INC+"Attribute.h"],
 [("vector of iterators beside std::map", INC+"utility/HybridMap.h")],
 [("v_", "iterators by enum", INC+"utility/HybridMap.h")],
 ["HybridMap find/at/operator[]/insert/emplace/erase/clear/swap, copy/move"])

prop("C08", "All views of a linestring or polygon show and change the same sequence",
 """A linestring behaves like a plain sequence of points under every history of insertions, removals, assignments and resizes made
 through any of its handles; an inverted handle sees exactly the reversed sequence, for reading and for writing, and inverting twice gives the
 original. Copies, 2d, 3d, hybrid and polygon views of the same data observe every change immediately, and elements, segments, front, back and iteration
 (forward and reverse) of a view are consistent with each other.""",
 ["histories"], "every sequence of operations through forward and inverted handles of 2d and 3d type",
 "Tests apply each operation to one or two lines; index arithmetic for inverted handles goes wrong only at particular positions, lengths and orders of operations.",
 [INC+"primitives/LineString.h", INC+"primitives/Polygon.h", INC+"utility/ReverseAndForwardIterator.h"],
 [("ReverseAndForwardIterator", INC+"utility/ReverseAndForwardIterator.h"), ("inverted_ flag", INC+"primitives/LineString.h")],
 [("points_", "shared point sequence", INC+"primitives/LineString.h LineStringData")],
 ["LineString2d/3d, Polygon2d/3d, Hybrid types: insert/erase/push_back/pop_back/resize/clear/assign/segment/iterators"])

prop("C09", "Lanelet and area geometry always reflects the current bounds and orientation",
 """A lanelet seen inverted has its bounds swapped and reversed, and inverting twice restores it; its outline, centerline and
 every handle sharing its data reflect the current bounds after any history of setting bounds, centerlines and attributes through any handle.
 An explicitly set centerline is returned (in the handle's direction) until it is replaced, a computed one always belongs to the current bounds, and reading the
 centerline never changes what is observed, also when several threads read concurrently.""",
 ["histories", "schedules"], "every sequence of bound, centerline and inversion operations through several handles, and every interleaving of concurrent centerline reads",
 "The centerline is cached lazily behind a const interface; stale or half published caches need a particular history or schedule that tests do not sample.",
 [CORE+"src/Lanelet.cpp", INC+"primitives/Lanelet.h", INC+"primitives/Area.h"],
 [("lazy centerline cache", CORE+"src/Lanelet.cpp LaneletData::centerline"), ("reset on setLeftBound/setRightBound", INC+"primitives/Lanelet.h")],
 [("centerline_", "cached or custom centerline", INC+"primitives/Lanelet.h LaneletData")],
 ["Lanelet::leftBound/rightBound/centerline/polygon3d/invert, Area::outerBound/innerBounds"])

prop("C10", "Regulatory elements keep their parameters consistent under every edit",
 """For traffic lights, traffic signs, speed limits, right-of-way and all-way-stop elements, what the accessors report always equals the result
 of the sequence of add/remove/set operations made on the element, and equals what is stored in its parameters under the documented roles.
 An all-way stop always has either no stop line or exactly one per yielding lanelet, and each lanelet's stop line stays its own; edits that would break this are refused
 and leave the element unchanged. A lanelet's manoeuvre in a right-of-way element is yield, right of way or unknown according to the role it is in.""",
 ["histories"], "every sequence of add, remove and set operations on every kind of regulatory element",
 "Tests perform one add and one remove on a fixed element; pairing of stop lines and lanelets breaks only after particular sequences.",
 [CORE+"src/BasicRegulatoryElements.cpp", CORE+"src/RegulatoryElement.cpp", INC+"primitives/BasicRegulatoryElements.h"],
 [("parameters() map with role names", CORE+"src/BasicRegulatoryElements.cpp"), ("RegulatoryElementFactory", CORE+"src/RegulatoryElement.cpp")],
 [("parameters", "role -> parameters", INC+"primitives/RegulatoryElement.h")],
 ["TrafficLight, TrafficSign, SpeedLimit, RightOfWay, AllWayStop accessors and editors"])

prop("C11", "Writing a map as OSM and loading it again gives the same map",
 """Every self-contained map without invalid geometry, written to the OSM format and read back, contains the same elements with the same ids,
 attributes, reference structure (including bound order, custom centerlines, area rings, regulatory element roles and parameters) and
 coordinates up to the format's resolution. No element or attribute is lost, added or attached to another element, and no error is reported.
 If a map refers to elements that it does not contain, each element with such a reference is reported, and everything else is written as if nothing was missing.""",
 ["inputs"], "every map, with shared and cyclic references, with any attributes not reserved by the format, self-contained or with any elements missing",
 "Tests round-trip one or two elements of each kind; the guarantee is about every combination of element kinds, references and attributes.",
 ["lanelet2_io/src/OsmHandlerWrite.cpp", "lanelet2_io/src/OsmHandlerLoad.cpp", "lanelet2_io/src/OsmFile.cpp"],
 [("ToFileWriter", "lanelet2_io/src/OsmHandlerWrite.cpp"), ("OsmFileParser/FromFileLoader", "lanelet2_io/src/OsmFile.cpp, OsmHandlerLoad.cpp")],
 [], ["lanelet::write, lanelet::load, OsmWriter::toOsmFile, OsmParser::fromOsmFile"])

prop("C12", "Loading a damaged OSM file reports every defect and keeps the intact rest",
 """When elements of an OSM document are missing, deleted, duplicated, of the wrong kind or incompletely described, loading still
 succeeds, reports an error for each element it could not resolve, and the loaded map contains every element whose references are intact,
 unchanged. A dangling reference never becomes a reference to a different element.
 A document without defects loads without errors, and loading without asking for the errors throws exactly if there are any.""",
 ["fault_sequences", "inputs"], "every combination of removed, deleted, re-typed and re-pointed elements and members in a valid document",
 "Tests load a few hand-written faulty files; which reference dangles, where in a member list, and how many do, is combinatorial.",
 ["lanelet2_io/src/OsmFile.cpp", "lanelet2_io/src/OsmHandlerLoad.cpp"],
 [("placeholder resolution", "lanelet2_io/src/OsmFile.cpp removeAndFixPlaceholders"), ("getOrGetDummy", "lanelet2_io/src/OsmHandlerLoad.cpp")],
 [], ["lanelet::load with ErrorMessages, osm::read"])

prop("C13", "Binary serialization restores the same object graph",
 """Every map written in the binary format and read back is identical: same ids, attributes, exact coordinates, inversion of references, parameters and
 custom centerlines. Objects shared in the original are shared in the result, cycles between lanelets and regulatory elements
 are restored, and later generated ids do not collide with loaded ones.""",
 ["inputs"], "every self-contained map, including sharing, cycles, inverted references and regulatory elements of every kind",
 "Tests serialize a few small objects; identity preservation depends on the shape of the object graph and the order objects are visited in.",
 ["lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h", "lanelet2_io/src/BinHandler.cpp"],
 [("RegelemDeserialization", "lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h"), ("load/save_construct_data", "lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h")],
 [], ["lanelet::write/load with .bin, boost archives"])

prop("C14", "Routing relations are exactly those implied by the map and the traffic rules",
 """For every map and traffic rules, two passable lanelets or areas are following, left, right, adjacent or conflicting in the routing graph exactly when
 shared boundaries, overlap and the rules for passing and changing lanes say so; 'previous' is the inverse of 'following', left neighbours of a lanelet
 are its right neighbours seen from the other side, and multi-step queries (all lefts, all rights, besides) are the ordered chains of the single-step ones.
 Lanelets the participant may not use never appear, and lanelets usable in both directions appear once per direction.""",
 ["inputs", "configurations"], "every road network topology, marking and access attributes, participant and direction of travel",
 "Tests use one hand-made map; relations must be right for every combination of shared bounds, markings, inversion, two-way lanelets and areas.",
 ["lanelet2_routing/src/RoutingGraphBuilder.cpp", "lanelet2_routing/src/RoutingGraph.cpp", "lanelet2_routing/include/lanelet2_routing/internal/Graph.h"],
 [("RoutingGraphBuilder edges", "lanelet2_routing/src/RoutingGraphBuilder.cpp"), ("filtered graph queries", "lanelet2_routing/src/RoutingGraph.cpp")],
 [], ["RoutingGraph::following/previous/left/right/adjacentLeft/adjacentRight/lefts/rights/besides/conflicting/routingRelation/passableSubmap"])

prop("C15", "Shortest paths are connected and have minimal cost",
 """A shortest path (directly or via intermediate lanelets, with or without lane changes, over lanelets only or including areas) is returned exactly when the destination is reachable;
 it starts and ends as requested, passes the intermediate lanelets in order, consecutive elements are connected by permitted relations, and no other such path is cheaper under the chosen cost.
 A cost that does not exist, or costs that are negative, are rejected rather than producing a path.""",
 ["inputs", "configurations"], "every road network, cost module, cost id, start, destination and list of intermediate lanelets",
 "Tests compare a few paths on one map; optimality is a statement about all alternative paths of every network and every assignment of costs.",
 ["lanelet2_routing/src/RoutingGraph.cpp", "lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h"],
 [("DijkstraStyleSearch", "lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h"), ("shortestPathImpl", "lanelet2_routing/src/RoutingGraph.cpp")],
 [], ["RoutingGraph::shortestPath/shortestPathVia/shortestPathIncludingAreas"])

prop("C16", "Reachability and path enumeration return exactly the qualifying lanelets",
 """The reachable set for a cost limit contains exactly the lanelets (or areas) whose cheapest cost from the start, or towards it, is within the limit.
 Enumerated possible paths are simple cheapest-tree paths from the start that meet the requested length or count, cover every such
 end point exactly once, and contain no path that is too short unless asked for or blocked. Visitor searches present every reachable element at most once, in
 non-decreasing cost with correct predecessor, length and lane change count, and honour the visitor's decision to stop expanding.""",
 ["inputs", "configurations"], "every network, start, cost limit, element limit, lane change permission and visitor decision",
 "Tests check a few counts on one map; the sets are defined over all paths of every network and limit.",
 ["lanelet2_routing/src/RoutingGraph.cpp", "lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h"],
 [("possiblePathsImpl, StopIfCostMoreThan", "lanelet2_routing/src/RoutingGraph.cpp")],
 [], ["RoutingGraph::reachableSet*/possiblePaths*/forEachSuccessor*/forEachPredecessor*"])

prop("C17", "A route contains its shortest path and all relations among its lanelets",
 """A route from the routing graph contains every lanelet of its shortest path, only lanelets of the map connected to it, and reports between its lanelets exactly the
 following, previous, left, right and conflicting relations the routing graph has between them. Lanes, remaining lanes, the remaining shortest path and successor/predecessor searches are
 the ones defined by those relations, asking about a lanelet outside the route yields nothing, and a valid route passes its own validity check.""",
 ["inputs", "configurations"], "every network, origin, destination, cost and lane change permission, and every lanelet asked about",
 "Tests look at some routes of one map; the relations have to be consistent for every network, including circular routes and merging lanes.",
 ["lanelet2_routing/src/RouteBuilder.cpp", "lanelet2_routing/src/Route.cpp", "lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h"],
 [("RouteBuilder fixpoint", "lanelet2_routing/src/RouteBuilder.cpp"), ("Route queries", "lanelet2_routing/src/Route.cpp")],
 [], ["RoutingGraph::getRoute/getRouteVia, Route::*"])

prop("C18", "Right to pass and change lanes follows tags, overrides and markings",
 """Whether a participant may use a lanelet or area is decided by regulatory elements first, then by the participant override for the level of the
 participant hierarchy it belongs to, then by the type of the element, and, for a lanelet travelled against its direction, by the one-way tags; passing between
 two elements requires both to be usable and connected by a boundary that may be crossed in that direction. Lane changes are permitted exactly when the
 marking between the lanelets (or its explicit override) permits crossing from that side, whichever way the marking is stored.""",
 ["inputs", "configurations"], "every combination of element type, participant, override tags, one-way tags, marking type, orientation and neighbourhood",
 "Tests sample some rows of a decision table with thousands of rows.",
 ["lanelet2_traffic_rules/src/GenericTrafficRules.cpp", "lanelet2_traffic_rules/src/GermanTrafficRules.cpp"],
 [("override lookup and type tables", "lanelet2_traffic_rules/src/GenericTrafficRules.cpp")],
 [], ["TrafficRules::canPass/canChangeLane/isOneWay/hasDynamicRules"])

prop("C19", "Speed limits follow regulatory elements, tags and defaults in that order",
 """The speed limit reported for a lanelet or area is the one of a speed limit regulatory element if there is one, otherwise the value tagged for the participant
 (or a level it belongs to) or in general, otherwise the country's default for the kind of road and location. The mandatory flag follows the same source, and the
 value does not depend on units used in the text or on the order of tags.""",
 ["inputs", "configurations"], "every combination of regulatory elements, speed tags, units, road type, location and participant",
 "Tests sample some rows of the decision table.",
 ["lanelet2_traffic_rules/src/GenericTrafficRules.cpp", "lanelet2_traffic_rules/src/GermanTrafficRules.cpp"],
 [("speedLimit lookup", "lanelet2_traffic_rules/src/GenericTrafficRules.cpp speedLimit")],
 [], ["TrafficRules::speedLimit"])

prop("C20", "Map matching returns every lanelet in range, in both directions, nearest first",
 """Deterministic matching returns, for each lanelet whose area is within the given distance of the object, one match in each driving direction with the true
 distance, and no others, sorted ascending; probabilistic matching returns the same lanelets ordered by their Mahalanobis distance. Removing matches that do not comply with traffic rules removes exactly
 those whose lanelet the participant may not use in that direction and keeps the rest in order.""",
 ["inputs", "configurations"], "every arrangement of lanelets, object pose, hull, distance limit and traffic rules",
 "Tests match two or three objects on one map.",
 ["lanelet2_matching/src/LaneletMatching.cpp", "lanelet2_matching/src/Utilities.cpp", "lanelet2_matching/include/lanelet2_matching/LaneletMatching.h"],
 [("findWithin + sort", "lanelet2_matching/src/LaneletMatching.cpp"), ("removeNonRuleCompliantMatches", "lanelet2_matching/include/lanelet2_matching/LaneletMatching.h")],
 [], ["matching::getDeterministicMatches/getProbabilisticMatches/removeNonRuleCompliantMatches/isWithin"])

prop("C21", "Map validation reports exactly the defects its rules define",
 """For every map, each selected validation rule reports exactly the elements that violate it (duplicate points, points too close, missing or unknown tags, non-boolean flags, too strong curvature,
 inconsistent routing graph) and nothing about elements that do not, and rules not selected by the filter report nothing. The report lists every issue once, under the rule that found it
 and with its severity.""",
 ["inputs", "configurations"], "every map over the relevant attributes and geometry, every filter expression and participant list",
 "Tests give each rule one offending element; exactness is about all maps, filters and combinations.",
 ["lanelet2_validation/src/Validation.cpp", "lanelet2_validation/src/ValidatorFactory.cpp", "lanelet2_validation/src/validators/CheckTags.cpp"],
 [("validator registry and filter", "lanelet2_validation/src/ValidatorFactory.cpp"), ("validators", "lanelet2_validation/src/validators")],
 [], ["validation::validateMap, availabeChecks, buildReport"])

prop("C22", "Sequences of lanelets and compound lines present their parts as one",
 """A compound linestring, polygon or lanelet sequence contains exactly the points of its parts in order, with a point shared at
 a joint appearing once, and agrees with a plain sequence for size, indexing, iteration, segments and ids; inverting it reverses it and its parts.
 A lanelet sequence's left and right bounds, centerline and regulatory elements are those of its lanelets in their driving direction.""",
 ["inputs"], "every list of parts, empty and one-point parts, shared joints and inverted parts",
 "Tests join two or three parts; index arithmetic over parts fails at particular joints and empty parts.",
 [INC+"primitives/CompoundLineString.h", INC+"primitives/CompoundPolygon.h", INC+"primitives/LaneletSequence.h", INC+"utility/CompoundIterator.h"],
 [("CompoundLineStringData ids/segments", INC+"primitives/CompoundLineString.h"), ("LaneletSequence", INC+"primitives/LaneletSequence.h")],
 [], ["CompoundLineString2d/3d, CompoundPolygon2d/3d, LaneletSequence"])
