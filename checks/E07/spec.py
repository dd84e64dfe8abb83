LEVEL = 'model_checking'
RULE = ('every combination of model, converter of every parameter, start, noise, partition into blocks, prior, spare parameter and iteration limit; the real engine is run and its result compared with a solution found with exact derivatives; '
        'non-trivial: a run that was allowed to converge')
BOUNDS = {'quick': '4 models of 2 or 3 parameters, 7 converters for each parameter, 4 starts for each parameter; a seventh of the combinations for 3 parameters', 'thorough': 'all combinations'}
ASSUMPTIONS = ['only the GSL engine is installed']
PROGRAMS = [dict(name='E07', harness=['E07/engine.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 ldflags='-fsanitize=address -lboost_thread -lboost_system -lgsl -lgslcblas', whole=['ModelFitting/src/lib/Engine/GSLEngine.cpp'],
                 sources=['ModelFitting/src/lib/Engine/GSLEngine.cpp', 'ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp', 'ModelFitting/src/lib/Engine/EngineParameterManager.cpp', 'ModelFitting/src/lib/Engine/ResidualEstimator.cpp', 'ModelFitting/src/lib/Engine/WorldValueResidual.cpp', 'ModelFitting/src/lib/Parameters/*.cpp'])]
