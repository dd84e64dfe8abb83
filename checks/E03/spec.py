LEVEL = 'exploration'
RULE = 'every choice of converters for up to n parameters x basis covariance; every sequence of up to l residual blocks of six kinds x three ways of reading x parameter changes; grids of values for the comparators; every registration order'
BOUNDS = {'quick': 'n = 4, l = 4, 3 engines', 'thorough': 'n = 5, l = 5'}
ASSUMPTIONS = ['a parameter observed by an EngineValueResidual is not changed after that residual is gone']
PROGRAMS = [dict(name='E03', harness=['E03/engine.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address', kflags='-DVK_NO_RLIMIT', ldflags='-fsanitize=address', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 sources=['ModelFitting/src/lib/Parameters/*.cpp', 'ModelFitting/src/lib/Engine/EngineParameterManager.cpp', 'ModelFitting/src/lib/Engine/EngineValueResidual.cpp', 'ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp',
                          'ModelFitting/src/lib/Engine/ResidualEstimator.cpp', 'ModelFitting/src/lib/Engine/WorldValueResidual.cpp'])]
