#!/usr/bin/env python3
"""claim.py ID TECHNIQUE NOTE: enter a property in claims.json and regenerate the manifest"""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/tools/claims.json'
c = json.load(open(p))
c['claimed'][sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(c, open(p, 'w'), indent=1)
subprocess.call([sys.executable, V + '/tools/mkmanifest.py'])
