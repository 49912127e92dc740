#!/usr/bin/env python3
"""hrun.py P05 [tier]: build and run only the concrete harness of one property."""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools import hbuild
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
spec = json.load(open(os.path.join(hbuild.HERE, 'props', 'specs.json')))[pid]
tmp = tempfile.mkdtemp(prefix='hrun-')
try:
    r = hbuild.run(pid, spec['harness'], os.environ.get('VERIF_REPO', '/repo'), tmp, tier, int(os.environ.get('VERIF_SEED', '1')))
finally:
    shutil.rmtree(tmp)
log = r.pop('log', '')
print(json.dumps(r, indent=1))
print(log)
