#!/usr/bin/env python3
"""tech.py ID TECHNIQUE NOTE: sets the manifest texts of a property and rewrites properties.jsonl and MANIFEST.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/tools/techniques.json"
t = json.load(open(p))
if len(sys.argv) > 3:
    t[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(t, open(p, "w"), indent=1)
subprocess.check_call([sys.executable, V + "/tools/mkprops.py"])
subprocess.check_call([sys.executable, V + "/tools/mkmanifest.py"])
