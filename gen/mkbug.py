#!/usr/bin/env python3
# usage: mkbug.py FILE.py   (defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)
import sys, os, json, subprocess, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = f"/verif/seeded/{ns['ID']}"
os.makedirs(d, exist_ok=True)
assert not subprocess.run("git -C /repo status --short", shell=True, capture_output=True, text=True).stdout.strip(), "dirty"
try:
    for f, old, new in ns['EDITS']:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
finally:
    subprocess.run("git -C /repo checkout -q -- .", shell=True)
open(d + "/demo.cpp", "w").write('#include "demo.hpp"\n' + ns['DEMO'].lstrip())
shutil.copy("/verif/gen/demo.hpp", d)
shutil.copy("/verif/gen/demo.sh", d)
json.dump({"property": ns['PROP'], "needs": ns['NEEDS'], "what_it_breaks": ns['BREAKS']}, open(d + "/meta.json", "w"), indent=1)
