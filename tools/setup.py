#!/usr/bin/env python3
# nothing to install: checks build what they need. Verifies that the tools are there.
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
if missing:
    print("missing:", missing); sys.exit(1)
print("ok")
