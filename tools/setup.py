"""Nothing to build ahead of the checks (each builds /repo's tree in its own scratch folder): verify the tools are there."""
import os, shutil, subprocess, sys
ok = True
for p in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/venv/bin/python"):
    if not os.path.exists(p):
        print("missing", p)
        ok = False
if not shutil.which("java"):
    print("missing java")
    ok = False
spec = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
sys.exit(0 if ok and os.path.isdir(spec) else 1)
