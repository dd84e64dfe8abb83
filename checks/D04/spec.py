LEVEL = 'exploration'
RULE = 'every model of up to 3 (4) components in any groups with degrees 0 to 3, with one coefficient less and more; PSFEx files of every model with 0 to 2 components and each single fault; images of every size in each HDU; stacks in three orders with each fault; every pair of context names'
BOUNDS = {'quick': '3 components, degree 3; files with 2 components of degree 2', 'thorough': '4 components; files of degree 3'}
ASSUMPTIONS = ['files are written with cfitsio']
PROGRAMS = [dict(name='D04', harness=['D04/psf.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 ldflags='-fsanitize=address -lCCfits -lcfitsio -lboost_thread -lboost_system -lboost_program_options -lboost_filesystem',
                 sources=['SEFramework/src/lib/Psf/*.cpp', 'SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp', 'SEImplementation/src/lib/Plugin/Psf/PsfTask.cpp', 'SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp',
                          'SEFramework/src/lib/Image/*.cpp', 'SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp', 'SEImplementation/src/lib/Image/WriteableImageInterfaceTraits.cpp', 'SEFramework/src/lib/Source/*.cpp', 'SEFramework/src/lib/Property/*.cpp'])]
PROGRAMS.append(dict(name='D04t', harness=['D04/threads.cpp'], kit=['vkmain.cpp', 'mc.cpp'], flags='-fsanitize=thread', kflags='-DVK_NO_RLIMIT', opt='-O1', hopt='-O1',
                     ldflags='-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset -lCCfits -lcfitsio -lboost_thread -lboost_system -ldl',
                     sources=['SEFramework/src/lib/Psf/*.cpp', 'SEFramework/src/lib/Image/*.cpp']))
