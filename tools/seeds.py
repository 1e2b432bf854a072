"""Planted bugs: builds, confirms and writes /verif/seeded/<id>/ from the list SEEDS (seedlist.py).

usage: seeds.py make [id ...]     confirm in a scratch copy of /repo and write the folders
       seeds.py check [id ...]    run this property's check against each (DV_REPO = scratch copy)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))

DEMO = '''#!/bin/bash
# run in the repository: builds demo.cpp against src/ in a scratch folder; exit 0 = property holds on this input
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -f "$T/demo" "$T"/*.o; rmdir "$T"' EXIT
F="-std=c++17 -O1 -w -pthread -Isrc -Isrc/xmss-alt -Isrc/qrl -Isrc/shasha -Isrc/api -I$D/inc"
for s in src/xmss-alt/*.c src/qrl/*.cpp src/shasha/*.cpp "$D/demo.cpp"; do
    g++ -x c++ $F -c "$s" -o "$T/$(basename "$s").o" &
done
wait
g++ -pthread "$T"/*.o -o "$T/demo" || exit 2
timeout 250 "$T/demo"
'''

RDEMO = '''#!/bin/bash
# run in the repository: builds demo.rs against the crate's own module file
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -f "$T/demo" "$T/demo.rs"; rmdir "$T"' EXIT
sed "s#@REPO@#$(pwd)#" "$D/demo.rs.in" > "$T/demo.rs"
rustc --edition 2021 -O -A warnings "$T/demo.rs" -o "$T/demo" || exit 2
timeout 250 "$T/demo"
'''

HEAD = '''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <stdexcept>
#include <set>
#include <xmss-alt/eHashFunctions.h>
#include <xmss-alt/fips202.h>
#include <shasha/shasha.h>
#include <xmss-alt/hash.h>
#include <xmss-alt/hash_address.h>
#include <xmss-alt/wots.h>
#include <xmss-alt/wots_internal.h>
#include <xmss-alt/xmss_common.h>
#include <xmss-alt/algsxmss.h>
#include <xmss-alt/algsxmss_fast.h>
#include <qrl/misc.h>
#include <qrl/hashing.h>
#include <qrl/wordlist.h>
#include <qrl/qrlDescriptor.h>
#include <qrl/qrlHelper.h>
#include <qrl/xmssBase.h>
#include <qrl/xmssBasic.h>
#include <qrl/xmssFast.h>
#include <qrl/xmssPool.h>
typedef std::vector<unsigned char> V;
static void check(bool ok, const char *what) { if (!ok) { printf("FAIL: %s\\n", what); exit(1); } }
static std::string hx(const unsigned char *p, size_t n) { std::string s; char b[3]; for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", p[i]); s += b; } return s; }
static std::string hx(const V &v) { return hx(v.data(), v.size()); }
static V seq(size_t n, int a = 7, int b = 3) { V v(n); for (size_t i = 0; i < n; i++) v[i] = (unsigned char) (i * a + b); return v; }
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='seedtree.', suffix='_z', dir='/tmp')
    t = os.path.join(d, 'repo')
    shutil.copytree('/repo/src', os.path.join(t, 'src'))
    return d, t


def apply(t, edits):
    for f, old, new in edits:
        p = os.path.join(t, f)
        s = open(p).read()
        n = 1
        if isinstance(old, tuple):
            old, n = old
        if s.count(old) != n:
            raise SystemExit('%s: %d occurrences of %r' % (f, s.count(old), old))
        with open(p, 'w') as o:
            o.write(s.replace(old, new))


def stable():
    """build and run the stable tests in /repo itself (the scripts name /repo); True if all pass"""
    o = tempfile.mktemp(suffix='.json')
    r = sh(['bash', '/opt/vp/test.sh', o], timeout=600)
    try:
        res = json.load(open(o))
        os.unlink(o)
    except (IOError, ValueError):
        return False, r.stdout[-800:]
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    txt = json.dumps(res)
    passed = res.get('passed') or [k for k, v in (res.get('tests') or {}).items() if v in ('passed', 'pass', True)]
    return all(b in passed for b in base), txt[:600]


def make(s):
    out = os.path.join(HERE, 'seeded', s['id'])
    os.makedirs(out, exist_ok=True)
    d, t = scratch()
    try:
        apply(t, s['edits'])
        p = sh(['git', 'diff', '--no-index', '--no-color', '/repo/src', os.path.join(t, 'src')]).stdout.decode()
        p = p.replace('a/repo/src', 'a/src').replace('b' + t + '/src', 'b/src')
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(p)
        if 'rust' in s:
            with open(os.path.join(out, 'demo.rs.in'), 'w') as f:
                f.write(s['rust'])
            demo = RDEMO
        else:
            shutil.copytree(os.path.join(HERE, 'tools', 'seedinc'), os.path.join(out, 'inc'), dirs_exist_ok=True)
            with open(os.path.join(out, 'demo.cpp'), 'w') as f:
                f.write(HEAD + s['demo'])
            demo = DEMO
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(demo)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, f, indent=1)
            f.write('\n')
        a = sh(['bash', os.path.join(out, 'demo.sh')], cwd='/repo')
        b = sh(['bash', os.path.join(out, 'demo.sh')], cwd=t)
        r = sh(['git', '-C', '/repo', 'apply', os.path.join(out, 'patch.diff')])
        if r.returncode:
            print(s['id'], 'PATCH DOES NOT APPLY', r.stdout.decode())
            return False
        try:
            ok, txt = stable()
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        good = a.returncode == 0 and b.returncode not in (0, 2) and ok
        print('%s %s demo clean %d, patched %d, tests %s' % (s['id'], 'ok' if good else 'BAD', a.returncode, b.returncode, ok))
        if not good:
            print(a.stdout.decode(errors='replace')[-600:], b.stdout.decode(errors='replace')[-300:], txt)
        return good
    finally:
        shutil.rmtree(d)


def check(sid, props=None, tier='quick'):
    meta = json.load(open(os.path.join(HERE, 'seeded', sid, 'meta.json')))
    d, t = scratch()
    try:
        r = sh(['patch', '-p1', '-s', '-d', t, '-i', os.path.join(HERE, 'seeded', sid, 'patch.diff')])
        if r.returncode:
            print(sid, r.stdout)
            return
        for p in props or [meta['property']]:
            env = dict(os.environ, DV_REPO=t, VERIF_SEED='1', DV_EVIDENCE=d)
            r = sh(['timeout', '-k', '1', '900', 'python3-vt', 'check.py', p, '--tier', tier], cwd=HERE, env=env)
            o = r.stdout.decode(errors='replace').splitlines()
            v = [l for l in o if l.startswith('VIOLATION')]
            f = [l for l in o if l.startswith('failed obligation')]
            rf = os.path.join(d, 'replay', p + '.json')
            how = 'MISSED'
            if r.returncode == 1 and v and os.path.exists(rf):
                j = json.load(open(rf))
                how = p + ': ' + ' and '.join((['refuted obligation (%s)' % (j['failed_obligations'][0][1].split(' at [')[0][-70:])] if j.get('failed_obligations') else []) + (['failing native input'] if j.get('failing_inputs') else []))
            rec = os.path.join(HERE, 'tools', 'seed_results.json')
            R = json.load(open(rec)) if os.path.exists(rec) else {}
            if p == meta['property']:
                R[sid] = how.replace('|', '/')
                json.dump(R, open(rec, 'w'), indent=1, sort_keys=True)
            print('%s %s rc %d %s | %s | %s' % (sid, p, r.returncode, v[0][:120] if v else 'MISSED', f[0][:160] if f else '', o[-1][:120] if o else ''), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    import seedlist
    if sys.argv[1] == 'make':
        for s in seedlist.SEEDS:
            if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
                continue
            make(s)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
        for i in ids:
            check(i)
