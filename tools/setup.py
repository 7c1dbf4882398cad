#!/usr/bin/env python3
"""setup_cmd: check that the tools the checks need are present (checks build everything themselves)."""
import shutil, sys
missing = [t for t in ("verus", "cargo", "rustc", "python3") if not shutil.which(t)]
print("missing tools:", missing or "none")
sys.exit(1 if missing else 0)
