from prophelp import prop
P = prop("S04", "Cleaning conserves pixels and merges as specified",
 "In a group of at least two, exactly those sources are cleaned that have fewer than the minimum area of pixels above the summed models of the others; each is merged into a remaining source that contributes most to its pixels. The merged source has the pixels of both, the frame and detection identifier of the one that remains, a new source identifier and no measurement from before; all others are untouched; no pixel is lost or duplicated unless nothing remains. The deblending stage applies its steps in order, reports and forwards each group once and drops only empty groups.",
 ["inputs", "configurations", "histories"], "All groups of up to four sources of eight kinds, spacings and minimum areas; all chains of up to four steps",
 "Merging depends on which of several sources are cleaned at once and on iterators staying valid; no unit test covers it.",
 ["SEImplementation/src/lib/Deblending/Cleaning.cpp", "SEImplementation/SEImplementation/Deblending/Cleaning.h", "SEFramework/src/lib/Pipeline/Deblending.cpp", "SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelEvaluator.cpp"],
 [("Cleaning::deblend, shouldClean, findMostInfluentialSource, mergeSources", "Cleaning.cpp"), ("Deblending::receiveSource", "Deblending.cpp")],
 ["sources of the group, their pixels, identifiers, frames and properties"])
TECHNIQUE = "exhaustive enumeration of group configurations on the real step against an independent definition"
NOTE = "The Moffat fit behind the models is not judged; the evaluator is."
