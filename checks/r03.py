LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking: error text after every transition compared with the reference model'
NOTE = 'The error text is read after every transition of the exhaustive search, over failing and succeeding calls, foreign errors, long names and messages.'
from lib import rconf, mcrun


def check(ctx):
    mcrun.run_suite(ctx, rconf.c_error(ctx.thorough) + rconf.cxx_error(ctx.thorough), ('error',), rconf.BUILDERS)
