"""replay.py FILE: reproduces a recorded violation in a fresh process."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
import checks
checks.families()
d = json.load(open(sys.argv[1]))
r = check.replay(sys.argv[1])
if r.get('error'):
    print('error:', r['error'], file=sys.stderr)
    sys.exit(2)
for x in r['replay']:
    print('what:', x['msg'])
    print('VIOLATION property=%s replay=%s' % (d['property'], sys.argv[1]))
    same = r.get('hash') == d.get('hash') if d.get('hash') else None
    print('schedule and fault trace identical:', same)
    sys.exit(1)
print('not reproduced')
sys.exit(0)
