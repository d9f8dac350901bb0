#!/usr/bin/env python3
"""everything the checks need is built by themselves from /repo; this only tells that the tools are there"""
import shutil, sys
missing = [t for t in ("g++", "java", "cmake", "python3") if not shutil.which(t)]
print("missing: " + " ".join(missing) if missing else "ready")
sys.exit(1 if missing else 0)
