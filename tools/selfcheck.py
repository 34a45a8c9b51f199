#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there; every check builds what it needs itself."""
import os, subprocess, sys
for p in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(p):
        sys.exit("missing " + p)
subprocess.run(["java", "-version"], check=True, capture_output=True)
print("ok")
