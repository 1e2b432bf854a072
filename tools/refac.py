"""refac.py [id ...]: runs the named properties' quick checks on each behaviour-preserving edit of refaclist.py; all must exit 0"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
from refaclist import R


def one(x):
    id, props, edits = x
    d, t = seeds.scratch()
    out = []
    try:
        seeds.apply(t, edits)
        for p in props:
            env = dict(os.environ, DV_REPO=t, VERIF_SEED='1', DV_EVIDENCE=d)
            r = seeds.sh(['timeout', '-k', '1', '900', 'python3-vt', 'check.py', p, '--tier', 'quick'], cwd=seeds.HERE, env=env)
            o = r.stdout.decode(errors='replace').splitlines()
            v = [l for l in o if l.startswith(('VIOLATION', 'failed obligation'))]
            print('%s %s rc %d %s %s' % (id, p, r.returncode, ' | '.join(v)[:300] if v else 'quiet', o[-1][:150] if o else ''), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    L = [x for x in R if len(sys.argv) < 2 or x[0] in sys.argv[1:]]
    with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as p:
        for f in [p.submit(one, x) for x in L]:
            try:
                f.result()
            except SystemExit as e:
                print(e)
