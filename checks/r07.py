LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking of the plugin loader'
NOTE = 'All file lists up to a length and all load/release interleavings of up to three sets, with allocation accounting, compared with a reference model.'
from lib import rconf, mcrun


def check(ctx):
    mcrun.run_suite(ctx, rconf.plugin(ctx.thorough), ('state', 'balance', 'mem'), rconf.BUILDERS)
