#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles its harness from /repo's working tree. This only verifies the tools."""
import shutil, sys
missing = [t for t in ('clang++-18', 'g++') if not shutil.which(t) and not shutil.which(t.replace('-18', ''))]
sys.exit('missing: ' + ' '.join(missing) if missing else 0)
