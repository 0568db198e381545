#!/usr/bin/env python3
"""Nothing is prebuilt: every check encodes /repo's current source itself. Verify the tools are there."""
import shutil, sys
missing = [t for t in ('cbmc', 'goto-cc', 'goto-instrument', 'z3', 'gcc', 'clang') if not shutil.which(t)]
print('missing: ' + ', '.join(missing) if missing else 'tools present')
sys.exit(1 if missing else 0)
