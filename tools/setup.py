#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (every check builds from /repo's working tree); only verifies that the compilers are there."""
import shutil, sys
missing = [t for t in ('gcc', 'g++', 'clang') if not shutil.which(t)]
if missing:
    print('missing:', missing)
    sys.exit(1)
print('ok')
