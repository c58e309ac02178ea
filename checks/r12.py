LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking including process exit from every state'
NOTE = 'Registration, its failure, and exit are operations of the machine; exit handlers are run from every reachable state.'
from lib import rconf, mcrun


def check(ctx):
    mcrun.run_suite(ctx, rconf.c_release(ctx.thorough), ('release',), rconf.BUILDERS)
