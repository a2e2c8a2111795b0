"""Checks that the tools the explorers need are present.  Every check builds what it
needs from /repo itself, so nothing is prepared here."""
import shutil, sys
missing = [t for t in ("g++", "cmake", "ninja", "python3") if not shutil.which(t)]
if missing: print("missing: " + " ".join(missing)); sys.exit(1)
print("toolchain present")
