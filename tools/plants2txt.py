# plants.txt from the output of tools/plant.sh given on stdin, merged with what is there
import re, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants.txt'); d = {}
if os.path.exists(p):
    for l in open(p): f = l.split(None, 1); d[f[0]] = f[1].strip()
for l in sys.stdin:
    m = re.match(r'(P\d+\w): demo 0 -> (\d+); broken stable tests: (\w+).*; check (P\d+) exit (\d)(.*)', l)
    if not m or m[2] == '0' or m[3] not in ('0', 'skipped'): continue
    d[m[1]] = ('caught by the %s check, with a failing input' % m[4] if 'failing input:' in m[6] else 'caught by the %s check, by a failed obligation only' % m[4]) if m[5] == '1' else 'missed by the %s check' % m[4]
open(p, 'w').write(''.join('%s %s\n' % x for x in sorted(d.items())))
