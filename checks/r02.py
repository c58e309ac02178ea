LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking of the generated code of all formats with a handle-accounting mock loader'
NOTE = 'Every handle opened or closed in every explored transition is accounted for; leaks, double closes, use after close are violations. Exhaustive over reachable states within the listed configurations.'
from lib import rconf, mcrun


def check(ctx):
    mcrun.run_suite(ctx, rconf.balance_all(ctx.thorough), ('balance', 'mem', 'release'), rconf.BUILDERS)
