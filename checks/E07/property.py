from prophelp import prop
P = prop('E07', 'The fitting engine ends at the solution and says how well it is known',
 'For every least squares problem with a solution inside of the ranges of its parameters, the engine leaves the parameters at the smallest sum of squares, whatever their converters, also when they start in the middle of their range, with the sum of squares it reports and the standard errors that follow from the derivatives and the scatter of the residuals. Stopped early it leaves the best point it found, never one worse than the start or outside of a range, within the iterations allowed, and parameters without effect stay where they were.',
 ['inputs'],
 'Runs the real engine on every combination of problem, converter, start and limit in the bounds and compares with solutions found with exact derivatives.',
 'Every fitted column of the catalogue comes out of this engine; its unit tests need libraries that are not installed, and sample one start.',
 ['ModelFitting/src/lib/Engine/*', 'ModelFitting/src/lib/Parameters/*'],
 [('GSLEngine::solveProblem', 'ModelFitting/src/lib/Engine/GSLEngine.cpp'), ('EngineParameterManager', 'ModelFitting/src/lib/Engine/EngineParameterManager.cpp')],
 ['values of the parameters, summary of the engine'], None)
TECHNIQUE = 'exhaustive enumeration of least squares problems through the real engine against solutions found with exact derivatives'
NOTE = 'Found and repaired: parameters left at a trial point, derivatives that vanished near the middle of a range.'
