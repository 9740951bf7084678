"""Checks that the tools are there and that every specification parses."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
mods = sorted(glob.glob(os.path.join(V, "spec", "*.tla")))
r = subprocess.run(["java", "-cp", cp, "tla2sany.SANY"] + mods, cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode != 0:
    print(r.stdout[-3000:])
    bad = 1
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("%d specifications parsed" % len(mods))
sys.exit(bad)
