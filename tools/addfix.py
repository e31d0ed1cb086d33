#!/usr/bin/env python3
"""addfix.py PROP "what failed": records the last /repo commit as the repair."""
import json, subprocess, sys
f = '/verif/known_findings.json'; k = json.load(open(f))
h = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h'], text=True).strip()
k['fixed'].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2]))
json.dump(k, open(f, 'w'), indent=1); open(f, 'a').write('\n')
