from prophelp import prop
P = prop("E03", "The fit sees the right parameters and residuals",
 "For every set of parameters and converters, and every sequence of residual blocks: engine values are read and written in the order of registration and world values follow; the covariance is transformed with the derivative of each parameter's own conversion; residual vectors have the announced length and hold each block in order with the values of the current parameters, whichever way they are read; each comparator computes its function of weighted differences; data, model and weights of different sizes are refused; an engine is found under the name it was registered with, whatever the case, and never registered twice.",
 ["inputs", "histories"], "All converter combinations, all sequences of up to four blocks, all registration orders of up to three engines, grids of values",
 "Offsets in residual vectors and rows of the covariance only matter for mixed blocks and converters.",
 ["ModelFitting/src/lib/Engine/EngineParameterManager.cpp", "ModelFitting/src/lib/Engine/ResidualEstimator.cpp", "ModelFitting/src/lib/Engine/WorldValueResidual.cpp", "ModelFitting/src/lib/Engine/EngineValueResidual.cpp", "ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp", "ModelFitting/ModelFitting/Engine/LogChiSquareComparator.h", "ModelFitting/ModelFitting/Engine/AsinhChiSquareComparator.h"],
 [("convertCovarianceMatrixToWorldSpace", "EngineParameterManager.cpp"), ("populateResiduals", "ResidualEstimator.cpp"), ("registerEngine/create", "LeastSquareEngineManager.cpp")],
 ["engine values, covariance and residual vectors"])
TECHNIQUE = "bounded exhaustive enumeration of configurations and registration histories on the real classes, against sums written out"
NOTE = "Covariance is linear: basis matrices decide it."
