#!/usr/bin/env python3
"""Nothing is built ahead of the checks (each check builds from /repo's current tree); this only verifies the tools."""
import shutil, sys
missing = [t for t in ('g++', 'clang++', 'python3') if not shutil.which(t)]
print('missing tools: '+', '.join(missing) if missing else 'tools present')
sys.exit(1 if missing else 0)
