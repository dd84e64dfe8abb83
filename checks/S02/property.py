from prophelp import prop
P = prop("S02", "Partitioning conserves pixels and splits as specified",
 "Partitioning a detected object yields objects that contain each of its pixels exactly once, or drops it as a whole when it fails the minimum area or the core threshold; an object that is not split is forwarded unchanged. The attractors step separates pixels exactly by the local maximum they climb to (touching maxima together); the multi-threshold step splits exactly where at least two branches of the threshold tree exceed the contrast share, keeps each core whole in one part, gives other pixels to a likely or else the nearest core, keeps the parent's detection identifier, and is reproducible for a seed. Steps are applied in order to every part, and every part reaches observers before the next stage.",
 ["inputs", "configurations", "histories"], "All small images and masks at several levels, places in the frame and settings; all chains of up to four kinds of steps",
 "Trees of nested components only arise for particular arrangements of levels; the unit tests use four-pixel objects at the origin.",
 ["SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp", "SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp", "SEImplementation/src/lib/Partition/MinAreaPartitionStep.cpp", "SEImplementation/src/lib/Plugin/CoreThresholdPartition/CoreThresholdPartitionStep.cpp", "SEFramework/src/lib/Pipeline/Partition.cpp"],
 [("MultiThresholdPartitionStep::partition, reassignPixels", "MultiThresholdPartitionStep.cpp"), ("attractPixels, mergeAttractors", "AttractorsPartitionStep.cpp")],
 ["pixel lists, identifiers and frames of the resulting sources; order of messages"])
TECHNIQUE = "exhaustive enumeration of small images and settings on the real steps against an independent definition"
NOTE = "Which of several likely cores gets an in-between pixel is drawn at random by design and only constrained."
