P = {
 "id": "G01", "title": "Spatial range queries return exactly the points in range",
 "statement": "After any sequence of insertions and removals, asking a spatial index (the 2-D quad tree or the n-dimensional k-d tree) for the points within a distance of a position returns exactly the stored points inside that circle or ball, each once (the quad tree counts the border as inside, the k-d tree does not). This holds for coincident points, points on cell borders and any position or radius of the query, and every operation terminates.",
 "quantifier": {"over": ["histories", "inputs"], "text": "All histories of insertions/removals, all point multisets, all query positions and radii, all node capacities"},
 "why_tests_cant": "The unit tests try one handful of points and queries; the splitting and pruning logic depends on insertion order, coincidences and where the query lies relative to every node.",
 "anchors": {"files": ["SEUtils/SEUtils/QuadTree.h", "SEUtils/SEUtils/_impl/QuadTree.icpp", "SEUtils/SEUtils/KdTree.h", "SEUtils/SEUtils/_impl/KdTree.icpp"],
   "state": [{"name": "tree nodes", "meaning": "the stored points, split by position", "where": "QuadTree, KdTree"}],
   "mechanism": [{"name": "quadrant and half-space pruning", "where": "getPointsWithinRange, findPointsWithinRadius"}],
   "observe_at": ["QuadTree::getPointsWithinRange", "KdTree::findPointsWithinRadius"], "hook_needed": None}}
TECHNIQUE = "explicit enumeration of all operation histories / point multisets up to a bound on the real trees, compared with a flat list"
NOTE = "All histories up to the bounds in the evidence on a grid of positions that forces ties, coincident points and border hits; larger trees are covered only through nested splitting. Trusts the flat list reference."
