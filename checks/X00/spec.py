LEVEL='model_checking'
RULE='x'
BOUNDS={'quick':'x','thorough':'x'}
ASSUMPTIONS=[]
PROGRAMS=[dict(name='X00',harness=['X00/selftest.cpp'],kit=['vkmain.cpp','mc.cpp'],flags='-fsanitize=thread',kflags='-DVK_NO_RLIMIT',
  ldflags='-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset -lboost_thread -lboost_system -ldl')]
