#!/usr/bin/env python3
"""mkseed.py < spec: make a planted bug. The spec is Python assigning
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new), ...], DEMO (demo_test.go), KIT."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
ns = {"KIT": True}
exec(sys.stdin.read(), ns)
out = os.path.join(os.path.dirname(here), "seeded", ns["ID"])
w = tempfile.mkdtemp(prefix="/tmp/mkseed-")
subprocess.check_call(["cp", "-a", os.environ.get("MUT_REPO", "/repo"), w + "/r"])
for f, old, new in ns["EDITS"]:
    p = os.path.join(w, "r", f)
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit("%s: %d matches of %r" % (f, s.count(old), old))
    open(p, "w").write(s.replace(old, new))
d = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(d)
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
shutil.copy(here + "/seedkit/demo.sh", out)
if ns["KIT"]:
    shutil.copy(here + "/seedkit/kit_test.go", out)
open(out + "/demo_test.go", "w").write(ns["DEMO"])
shutil.rmtree(w)
# which original lines it changes
subprocess.call(["git", "-C", "/repo", "apply", "--stat", out + "/patch.diff"])
