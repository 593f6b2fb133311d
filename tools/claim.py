#!/usr/bin/env python3
"""claim.py ID TECHNIQUE NOTE: claims a property in checks.json and rewrites MANIFEST.json."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
f = os.path.join(here, "checks.json")
d = json.load(open(f))
d[sys.argv[1]] = dict(technique=sys.argv[2], level="exploration", note=sys.argv[3])
json.dump(d, open(f, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(here, "mkmanifest.py")])
