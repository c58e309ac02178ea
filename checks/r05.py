LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking of the minimal C API'
NOTE = 'All load/free/call sequences (all reachable states), with every subset of missing symbols and failing closes, compared with a reference model.'
from lib import rconf, mcrun


def check(ctx):
    mcrun.run_suite(ctx, rconf.minimal('minimal', ctx.thorough), ('state', 'balance', 'mem'), rconf.BUILDERS)
