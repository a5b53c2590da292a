"""(re)creates /verif/seeded from the table in seeds_table.py, keeping a change only when it builds, passes the stable tests and its demo tells it apart"""
import os, sys, subprocess, json, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_table import SEEDS
V = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))
only = sys.argv[1:]
for sid, prop, fn, old, new, needs, breaks, demo in SEEDS:
    if only and sid not in only: continue
    d = tempfile.mkdtemp(prefix='seed_'); w = d + '/repo'
    sh('cp -a /repo %s' % w)
    p = '%s/chumpy/%s' % (w, fn); s = open(p).read()
    if s.count(old) != 1: print(sid, 'OLD TEXT occurs', s.count(old)); shutil.rmtree(d); continue
    open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C %s diff' % w).stdout
    # removed lines must be lines of the original repository
    basef = sh('git -C /repo show b978be0:chumpy/%s' % fn).stdout.splitlines()
    rem = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    foreign = [l for l in rem if l not in basef]
    o = '%s/%s' % (V, sid); os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.py', 'w').write('import sys, os, warnings\nsys.path.insert(0, os.getcwd()); warnings.simplefilter("ignore")\nimport numpy as np, scipy.sparse as sp\nimport chumpy as ch\nfrom chumpy.ch import Ch\n' + demo)
    open(o + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/pypyvenv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(o + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
    g = sh('cd /repo && bash %s/demo.sh' % o, timeout=300); b = sh('cd %s && bash %s/demo.sh' % (w, o), timeout=300)
    # stable tests, in the scratch copy
    t = sh('cd %s/chumpy && PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 /opt/pypyvenv/bin/python -W ignore -m pytest -q -x --no-header -p no:cacheprovider test_ch.py test_inner_composition.py test_linalg.py test_optimization.py 2>&1 | tail -4' % (w, w))
    print(sid, prop, 'demo good rc', g.returncode, 'bad rc', b.returncode, '| foreign', foreign, '| tests:', t.stdout.strip().splitlines()[-1:], '' if g.returncode == 0 else g.stderr[-300:], '' if b.returncode else 'NOT SHOWN')
    shutil.rmtree(d)
