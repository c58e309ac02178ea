LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking of auto-loading calls in every load state'
NOTE = 'Every function is called from every reachable state (termination included), in lazy and eager mode, with missing libraries, symbols, null symbols.'
from lib import rconf, mcrun


def check(ctx):
    mcrun.run_suite(ctx, rconf.auto(ctx.thorough), ('auto',), rconf.BUILDERS)
