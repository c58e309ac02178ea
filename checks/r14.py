LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking: the machines and reference models of R01-R12 run over the generated code compiled for AIX, macOS, Android, FreeBSD and Linux with PROCMAP_QUERY, on mocks of their interfaces'
NOTE = 'Platforms are simulated by their predefined macros; loadquery() and ioctl(PROCMAP_QUERY) are mocks which follow their documentation, with neighbouring address ranges, archive members, names which just fit or do not, and every failure.'
from lib import rconf, mcrun


def check(ctx):
    mcrun.run_suite(ctx, rconf.platforms(ctx.thorough), ('state', 'balance', 'error', 'path', 'release', 'wrap', 'auto', 'mem'), rconf.BUILDERS)
