LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking of up to three coexisting loader objects'
NOTE = 'All constructions, method calls and destructions of 1-3 objects from every reachable state, compared with the reference model.'
from lib import rconf, mcrun


def check(ctx):
    mcrun.run_suite(ctx, rconf.cxx_state(ctx.thorough), ('state', 'balance', 'path', 'mem'), rconf.BUILDERS)
