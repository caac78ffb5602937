#!/usr/bin/env python3
"""setup_cmd: reports whether what the checks need is installed; every check builds what it needs itself."""
import shutil, sys
missing = [t for t in ("cargo", "rustc", "gcc", "z3-new", "cvc5", "python3") if not shutil.which(t)]
if missing:
    print("missing: " + " ".join(missing))
    sys.exit(1)
print("all tools found")
