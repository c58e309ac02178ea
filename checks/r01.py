LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking: all reachable states of the generated C code under all call sequences and loader answers, compared step by step with a reference model'
NOTE = 'Breadth-first search over saved memory images of the real generated code; every operation from every reachable state, with a mock loader that enumerates library and symbol availability, failures of closing, null symbols, foreign errors. Trusts the mock loader, gcc, and the reference model in mc_model.hpp.'
from lib import rconf, mcrun


def check(ctx):
    mcrun.run_suite(ctx, rconf.c_state(ctx.thorough), ('state',), rconf.BUILDERS)
