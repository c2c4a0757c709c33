#!/usr/bin/env python3
"""Nothing is built ahead of the checks; this verifies that the tools they need are there."""
import shutil, subprocess, sys, os
for t in ("g++", "java", "javac", "python3"):
    if not shutil.which(t): sys.exit("missing " + t)
for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(f): sys.exit("missing " + f)
print("ok")
