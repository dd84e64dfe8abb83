from prophelp import prop
A = 'SEImplementation/src/lib/Plugin/AssocMode/'
E = 'SEImplementation/src/lib/Plugin/ExternalFlag/'
P = prop("M05", "External flags and catalogue associations follow their definitions",
 "For every source, flag image and way to combine flags, the external flag is the OR, AND, minimum, maximum or most frequent non-zero value over the pixels of the source in the flag image of its own frame, with the number of pixels it stands for, and a flag image of another size is refused. For every catalogue and mode, a source matches exactly when an entry of its frame's catalogue lies within the radius, and its values are those of the first, nearest, lightest or heaviest such entry, or the (magnitude) weighted mean or sum of all. Every source has as many values as columns to copy (zeros without a match), and the filter lets exactly the matched or the unmatched ones pass.",
 ["inputs"], "All flag values of small footprints, all small catalogues around a source, catalogues across the leaf size of the search tree",
 "Which entries count, and which of them is taken, depends on positions, weights, order and the shape of the search tree; tests look at one catalogue.",
 [A + "*.cpp", E + "*.cpp", "SEImplementation/SEImplementation/Plugin/AssocMode/*.h", "SEImplementation/SEImplementation/Plugin/ExternalFlag/*.h", "SEUtils/SEUtils/_impl/KdTree.icpp"],
 [("ExternalFlagTask, Or, And, Min, Max, Most", E + "ExternalFlagTask.cpp"), ("AssocModeTask", A + "AssocModeTask.cpp"), ("AssocModePartitionStep", A + "AssocModePartitionStep.cpp")],
 ["ExternalFlag", "AssocMode"])
TECHNIQUE = "bounded exhaustive enumeration of flag values, catalogues and modes on the real tasks against their definition"
NOTE = "Exhaustive over footprints of four pixels and six flag values, and over catalogues of three entries; larger catalogues in four orders."
