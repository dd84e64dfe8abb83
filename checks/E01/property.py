from prophelp import prop
P = prop("E01", "Parameters and everything that depends on them stay consistent",
 "For every history of setting values (manual, world or engine), adding and removing observers, creating and destroying dependent parameters and reading values: a dependent parameter always has the value computed from the current values of its inputs, each observer has last seen the current value of what it observes once that changed, engine and world values correspond also as seen by observers, and destroyed parameters are not called; converters are inverses of one another, keep world values inside their limits and give the derivative of the conversion.",
 ["histories", "inputs"], "All histories up to the stated depth over a graph of seven parameters; all converter limits of a set and grids of values",
 "Values are computed lazily unless observed: staleness needs a particular order of change, observation and creation.",
 ["ModelFitting/ModelFitting/Parameters/DependentParameter.h", "ModelFitting/src/lib/Parameters/BasicParameter.cpp", "ModelFitting/src/lib/Parameters/EngineParameter.cpp", "ModelFitting/src/lib/Parameters/NormalizedConverter.cpp", "ModelFitting/src/lib/Parameters/SigmoidConverter.cpp", "ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp"],
 [("DependentParameter::getValue/update", "DependentParameter.h"), ("BasicParameter::addObserver", "BasicParameter.cpp")],
 ["values read and values notified"])
TECHNIQUE = "bounded exhaustive enumeration of operation histories on the real classes against a reference computation"
NOTE = "All histories of up to 5 operations out of 21 (thorough: 6)."
