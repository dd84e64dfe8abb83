LEVEL = 'model_checking'
RULE = ('every history of add/remove operations over a fixed set of positions up to the stated length (quad tree), every multiset of '
        'positions up to the stated size (k-d tree); non-trivial: some query of the battery returned some but not all of the points')
BOUNDS = {'quick': 'quad tree: all histories <=5 operations, 7 positions, capacity 2..4; k-d tree: all multisets <=7 of 7 positions, 9..11 of 5',
          'thorough': 'quad tree: all histories <=6 operations; k-d tree: all multisets <=10 of 7 positions, up to 14 of 5'}
ASSUMPTIONS = ['the elements of a tree are distinct values (positions may coincide)', 'finite coordinates']
PROGRAMS = [dict(name='G01', harness=['G01/spatial.cpp'], hopt='-O2', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'}, ldflags='-fsanitize=address')]
