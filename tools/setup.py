"""Nothing is prebuilt (every check builds from /repo's current tree); this only verifies that the tools are there."""
import shutil, sys
missing = [t for t in ("clang++-18", "g++", "python3") if not shutil.which(t)]
if missing: print("missing tools:", missing)
sys.exit(1 if missing else 0)
