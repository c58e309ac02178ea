LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking of the minimal C++ API'
NOTE = 'All load/free/call sequences (all reachable states), exception type and content checked on every failing step.'
from lib import rconf, mcrun


def check(ctx):
    mcrun.run_suite(ctx, rconf.minimal('minimal-c++', ctx.thorough), ('state', 'balance', 'mem'), rconf.BUILDERS)
