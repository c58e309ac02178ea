LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking: the machines and reference models of R01-R12 run over the generated code compiled for Windows (native narrow, native wide, dlfcn), with a mock of the Windows API on top of the same enumerated loader'
NOTE = 'The compiler runs on Linux with _WIN32 defined and own <windows.h>, <tchar.h>, <dlfcn.h>; the mock follows the documented contracts of LoadLibraryEx, GetProcAddress, FreeLibrary, GetModuleFileName, FormatMessage, GetLastError and the _s functions. wchar_t has 32 bits.'
from lib import rconf, mcrun


def check(ctx):
    mcrun.run_suite(ctx, rconf.windows(ctx.thorough), ('state', 'balance', 'error', 'path', 'release', 'wrap', 'auto', 'mem'), rconf.BUILDERS)
