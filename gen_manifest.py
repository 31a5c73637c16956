#!/usr/bin/env python3
import json, os
from props import PROPS, TECH
H = os.path.dirname(os.path.abspath(__file__))
try:
    from props import NA
except ImportError: NA = []
m = dict(version=1, setup_cmd='python3 tools/verify.py --setup', checks=[], not_applicable=NA,
         notes='python3 run.py PROPERTY quick|thorough; see DESIGN.md')
for pid, p in sorted(PROPS.items()):
    m['checks'].append(dict(property=pid, quick_cmd='python3 run.py %s quick' % pid, thorough_cmd='python3 run.py %s thorough' % pid,
                            technique=p.get('technique', TECH), level=p['level'], level_note=p['level_note']))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
