"""Spec of a program that links the whole library and the real main program."""
import os, sysconfig
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


def program(name, *harness, **k):
    import glob
    plugins = [os.path.relpath(p, REPO) for p in sorted(glob.glob(REPO + '/SEImplementation/src/lib/Plugin/*/*Plugin.cpp')) if 'Onnx' not in p]
    env = {'PYTHONPATH': REPO + '/SEImplementation/python:' + HERE + '/py', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1'}
    d = dict(name=name, harness=list(harness), sources='ALL', python=True, opt='-O1', hopt='-O1',
             # PluginManager first: its registry exists before the plugins register themselves
             whole=['SEFramework/src/lib/Plugin/PluginManager.cpp', 'ModelFitting/src/lib/Engine/GSLEngine.cpp', 'SEImplementation/src/lib/PythonConfig/PythonModule.cpp', 'SEMain/src/program/SourceXtractor.cpp'] + plugins,
             flags='-DVERIF_PYTHON -Dmain=sx_main -I' + sysconfig.get_paths()['include'], hflags='-Umain', kflags='-DVK_NO_RLIMIT', env=env,
             ldflags='-lboost_python312 -lpython3.12 -lboost_program_options -lboost_filesystem -lboost_thread -lboost_system -lboost_locale -lboost_regex '
                     '-lCCfits -lcfitsio -lwcs -lfftw3 -lfftw3f -lgsl -lgslcblas -lreadline -lncurses -ldl')
    d.update(k)
    return d
