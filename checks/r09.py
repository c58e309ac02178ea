LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking with every answer of the path facilities enumerated'
NOTE = 'The path query is one operation of the machine; dlinfo/dladdr//proc answers, fresh or stale, absent or too long, are states of the environment.'
from lib import rconf, mcrun


def check(ctx):
    mcrun.run_suite(ctx, rconf.c_path(ctx.thorough) + rconf.cxx_path(ctx.thorough), ('path', 'mem'), rconf.BUILDERS)
