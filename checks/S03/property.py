from prophelp import prop
G = 'SEImplementation/src/lib/Grouping/'
P = prop("S03", "Grouping puts each source in exactly one group: its connected component",
 "For every relation between sources, order of arrival and moment of processing: each source is sent on exactly once, in one group; without a hard limit the groups are the connected components of the relation among the sources waiting, a processing signal sends exactly the groups with a selected source, whole; with a hard limit no group is larger, groups stay connected and are kept apart only when together they would be too large; the specialised groupings (split sources, association, Moffat) group as their criteria say, and sources without an association are not grouped.",
 ["histories"], "All relations among up to n sources, all early processing signals and hard limits",
 "Merging several groups through one source, at the moment another is processed, needs particular relations and orders.",
 ["SEFramework/src/lib/Pipeline/SourceGrouping.cpp", G + "MoffatGrouping.cpp", G + "SplitSourcesGrouping.cpp", G + "AssocGrouping.cpp", G + "OverlappingBoundariesCriteria.cpp", G + "LineSelectionCriteria.cpp", "SEUtils/SEUtils/QuadTree.h"],
 [("SourceGrouping::receiveSource/receiveProcessSignal", "SourceGrouping.cpp"), ("MoffatGrouping::receiveSource", "MoffatGrouping.cpp"), ("criteria", "Grouping/*.cpp")],
 ["groups received by the next stage"])
TECHNIQUE = "bounded exhaustive enumeration of relations, hard limits and processing histories on the real classes"
NOTE = "All relations among 6 sources, all hard limits, all single early processing signals."
