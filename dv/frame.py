"""Check framework: tasks in parallel, verdict, evidence."""
import importlib
import json
import os
import pickle
import select
import re
import signal
import sys
import time
import traceback
from . import build, solve, vc
from . import exec as E

HERE = build.HERE
EVID = os.environ.get('DV_EVIDENCE') or os.path.join(HERE, 'evidence')


def base(name):
    """function name out of an Itanium-mangled symbol (None if not a plain function)"""
    m = re.match(r'_ZL?(\d+)', name)
    if m:
        n = int(m.group(1))
        return name[m.end():m.end() + n]
    return name


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.trusted = []
        self.assumptions = []
        self.functions = {}

    def executor(self, mods, contracts=()):
        ex = E.Executor()
        ex.keyfn = base
        for m in mods:
            ex.add_module(m)
        for k, v in dict(contracts).items():
            ex.contracts[k] = v
        return ex


def fn(ex, name, params=None):
    """the function with this base name (extern or static) in the loaded modules"""
    c = []
    for m in ex.mods:
        for f in m.funcs.values():
            if f.name == name or base(f.name) == name:
                if params is None or len(f.params) == params:
                    c.append(f)
    return c[0] if c else None


class Result(object):
    __slots__ = ('task', 'obs', 'stats', 'wall', 'internal', 'inlined', 'contracts', 'loops', 'native', 'extra')


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


_TASKS = None
_CTX = None


def _run(i):
    name, f, limit = _TASKS[i]
    t0 = time.time()
    st0 = dict(solve.STATS)
    r = Result()
    r.task = name
    r.internal = 0
    r.inlined, r.contracts, r.loops = set(), {}, []
    r.native = None
    r.extra = {}
    vc.SEED = _CTX.seed * 1000003 + i
    sys.setrecursionlimit(100000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        out = f(_CTX)
        if isinstance(out, dict):
            r.native = out
            r.obs = []
        else:
            vcs, exs = out
            r.obs = [o for v in vcs for o in v.obs]
            for ex in exs:
                r.internal += ex.nsafe + ex.nreq
                r.inlined |= ex.inlined
                for k, v in ex.contract_uses.items():
                    r.contracts[k] = r.contracts.get(k, 0) + v
                r.loops += [(a, b, c) for (a, b, c) in ex.loop_log]
    except vc.Enough as e:
        r.obs = e.args[0].obs + [(name, 'remaining obligations', 'undecided', 'none', 'stopped after %d refuted obligations' % e.args[0].nref, None)]
    except Timeout:
        r.obs = [(name, 'time limit', 'undecided', 'none', 'task exceeded %d s' % limit, None)]
    except build.BuildError as e:
        r.obs = [(name, 'extraction', 'undecided', 'none', str(e)[-600:], None)]
    except E.Viol as e:
        r.obs = [(name, 'execution', 'undecided', 'none', 'outside exploration: %s' % e, None)]
    except Exception as e:
        r.obs = [(name, 'engine', 'undecided', 'none', traceback.format_exc()[-900:], None)]
    finally:
        signal.alarm(0)
    r.wall = time.time() - t0
    r.stats = {k: solve.STATS.get(k, 0) - st0.get(k, 0) for k in solve.STATS}
    r.loops = sorted(set((a, c if c == 'summarised' else 'unrolled: ' + str(c)[:80]) for a, b, c in r.loops))[:60]
    return r


def run_tasks(ctx, tasks, jobs=None):
    """tasks: list of (name, callable(ctx) -> ([VC], [Executor]) or dict, seconds)"""
    global _TASKS, _CTX
    _TASKS, _CTX = tasks, ctx
    jobs = jobs or min(8, os.cpu_count() or 1)
    if os.environ.get('DV_SERIAL'):
        return [_run(i) for i in range(len(tasks))]
    out = []
    todo = list(range(len(tasks)))
    running = {}
    t0 = time.time()
    budget = 720 if ctx.tier == 'quick' else 4 * 3600
    bad = None     # when the first refuted obligation or failing input was seen

    def lost(i, why):
        r = Result()
        r.task = tasks[i][0]
        r.obs = [(tasks[i][0], 'worker', 'undecided', 'none', why, None)]
        r.stats, r.wall, r.internal, r.inlined, r.contracts, r.loops, r.native, r.extra = {}, 0.0, 0, set(), {}, [], None, {}
        out.append(r)
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            rd, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rd)
                    d = pickle.dumps(_run(i))
                    with os.fdopen(wr, 'wb') as w:
                        w.write(d)
                except BaseException:
                    code = 1
                finally:
                    os._exit(code)
            os.close(wr)
            running[rd] = [i, pid, time.time() + tasks[i][2] + 10, b'']
        ready, _, _ = select.select(list(running), [], [], 1.0)
        now = time.time()
        # once something failed, the native run still gets its time (it finds the failing input); proofs do not
        late = now - t0 > budget or (bad is not None and ctx.tier == 'quick' and now > max(bad + 60, t0 + 150))
        if late and todo:
            for i in todo:
                if now - t0 <= budget and tasks[i][0] == 'native':
                    continue
                lost(i, 'not started: %s' % ('time budget used up' if now - t0 > budget else 'violation already found'))
            todo = [i for i in todo if now - t0 <= budget and tasks[i][0] == 'native']
        if late:
            for rd in list(running):
                i, pid, dl, buf = running[rd]
                if now - t0 > budget or tasks[i][0] != 'native':
                    running[rd][2] = min(dl, now)
        for rd in list(running):
            i, pid, dl, buf = running[rd]
            dead = None
            if rd in ready:
                b = os.read(rd, 1 << 20)
                if b:
                    running[rd][3] = buf + b
                    continue
                dead = 'ended'
            elif now > dl:
                os.kill(pid, signal.SIGKILL)
                dead = 'time'
            if dead:
                os.close(rd)
                os.waitpid(pid, 0)
                del running[rd]
                try:
                    r = pickle.loads(buf)
                    out.append(r)
                    if bad is None and (any(o[2] == 'refuted' and not o[1].startswith('canary') for o in r.obs) or (r.native or {}).get('failures')):
                        bad = now
                except Exception:
                    lost(i, ('time limit of %d s' % tasks[i][2] if now - t0 <= budget else 'time budget used up') if dead == 'time' else 'worker process died')
    return out


def known_findings(prop):
    """entries of KNOWN_FINDINGS.json for this property (never written at run time)"""
    p = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    try:
        with open(p) as f:
            d = json.load(f)
    except (IOError, ValueError):
        return []
    return [e for e in d.get('findings', []) if e.get('property') == prop]


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    mod = importlib.import_module('props.' + prop.lower())
    sys.stdout.reconfigure(line_buffering=True)
    prep = []
    try:
        tasks = mod.tasks(ctx)
    except Exception as e:
        tasks = []
        prep.append((prop, 'extraction', 'undecided', 'none', traceback.format_exc()[-1500:], None))
    native = getattr(mod, 'native', None)
    if native is not None:
        tasks = [('native', native, 400)] + list(tasks)
    res = run_tasks(ctx, tasks)
    obs = prep + [o for r in res for o in r.obs]
    nat = [r.native for r in res if r.native is not None]
    cases = sum(n.get('cases', 0) for n in nat)
    fails = [f for n in nat for f in n.get('failures', [])]
    for n in nat:
        for u in n.get('unfinished', []):
            obs.append(('native run', 'part ' + u[:60], 'undecided', 'none', u[-600:], None))
    disch = [o for o in obs if o[2] == 'discharged']
    ref = [o for o in obs if o[2] == 'refuted' and not o[1].startswith('canary')]
    und = [o for o in obs if o[2] == 'undecided']
    canary = [o for o in obs if o[1].startswith('canary')]
    badcanary = [o for o in canary if o[2] != 'refuted']
    # tasks that only hold up to a stated bound (BOUNDED: task pattern -> bound) are reported apart and not counted as proved
    bmap = getattr(mod, 'BOUNDED', {})

    def bound_of(task):
        for k, w in bmap.items():
            if re.match(k, task):
                return w
        return None
    bnd = {}
    for r in res:
        w = bound_of(r.task)
        if w:
            for o in r.obs:
                if not o[1].startswith('canary'):
                    b = bnd.setdefault(w, {'obligations': 0, 'discharged': 0})
                    b['obligations'] += 1
                    b['discharged'] += o[2] == 'discharged'
    unb = prep + [o for r in res if not bound_of(r.task) for o in r.obs]
    proper = [o for o in unb if not o[1].startswith('canary') and o[0] != 'native run']
    dd = [o for o in proper if o[2] == 'discharged']
    # a refutation steers the native search to the verifier's assignment
    if ref and not fails:
        try:
            r = build.native_replay(ctx, [o[5] for o in ref[:40] if len(o) > 5 and o[5]])
            fails.extend(r['failures'])
            cases += r['cases']
        except Exception:
            pass
    listed = known_findings(prop)

    def is_known(f):
        for e in listed:
            if e.get('match') and re.search(e['match'], json.dumps(f, sort_keys=True, default=str)):
                return e
        return None
    hit = {}
    newfails = []
    for f in fails:
        e = is_known(f)
        if e is not None:
            hit[e['what']] = e
        else:
            newfails.append(f)
    newref = []
    for o in ref:
        e = is_known({'obligation': o[0] + ' ' + o[1], 'detail': o[4]})
        if e is not None:
            hit[e['what']] = e
        else:
            newref.append(o)
    for e in listed:
        if e['what'] in hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    inl = sorted(set().union(*[r.inlined for r in res])) if res else []
    cons = {}
    for r in res:
        for k, v in r.contracts.items():
            cons[k] = cons.get(k, 0) + v
    stats = {}
    for r in res:
        for k, v in r.stats.items():
            stats[k] = round(stats.get(k, 0) + v, 3)
    by = {}
    for o in dd:
        by[o[3]] = by.get(o[3], 0) + 1
    fns = {}
    for o in proper:
        d = fns.setdefault(o[0], {'obligations': 0, 'discharged': 0})
        d['obligations'] += 1
        d['discharged'] += o[2] == 'discharged'
    full = not und and not ref and dd
    level = getattr(mod, 'LEVEL', 'proof')
    cov = {
        'obligations': len(proper),
        'discharged': len(dd),
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
        'trusted_base': ['dv: LLVM-IR verification-condition generator and term normaliser (this repository)', 'clang 18 / rustc front end and opt -passes=%s' % build.PASSES,
                         'z3, cvc5'] + ctx.trusted,
        'functions_under_contract': fns,
        'discharged_by': by,
        'bounded_obligations_not_counted_as_proved': bnd,
        'side_obligations_discharged': sum(r.internal for r in res),
        'contracts_used_at_call_sites': dict(sorted(cons.items())[:80]),
        'inlined_functions': inl[:200],
        'loops': sorted(set(x for r in res for x in r.loops))[:80],
        'solver': stats,
        'undischarged': [list(o[:5]) for o in und[:40]],
        'refuted': [list(o[:5]) for o in ref[:40]],
        'vacuity': {'canaries_refuted_as_they_must_be': len(canary) - len(badcanary), 'canaries': len(canary)},
        'native_replay': {'cases': cases, 'failures': len(fails), 'what': [n.get('what', '') for n in nat],
                          'note': 'bounded differential run of the real code; supports replay and stands in for undischarged obligations, not counted as proved'},
        'bounds': getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {})) if isinstance(getattr(mod, 'BOUNDS', {}), dict) else mod.BOUNDS,
        'tasks': len(tasks),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': list(ctx.assumptions) + list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': 0.0, 'violations': 0}
    if not full:
        ev['assumptions'].append('NOT fully discharged on this run: %d undecided, %d refuted; those are covered only by the bounded native run (%d cases)' % (len(und), len(ref), cases))
    rc = 0
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)

    def replay_file(d):
        p = os.path.join(EVID, 'replay', '%s.json' % prop)
        with open(p, 'w') as f:
            json.dump(d, f, indent=1, default=str)
        return p
    if newfails:
        p = replay_file({'property': prop, 'failing_inputs': newfails[:10], 'failed_obligations': [list(o) for o in newref[:20]],
                         'rerun': 'cd /verif && python3-vt check.py %s' % prop})
        print('failing input: %s' % json.dumps(newfails[0], default=str)[:600])
        for o in newref[:5]:
            print('failed obligation: %s: %s (%s) %s' % (o[0], o[1], o[3], o[4][:300]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        rc = 1
    elif newref:
        p = replay_file({'property': prop, 'failed_obligations': [list(o) for o in newref[:20]], 'note': 'refuted by the verifier; no failing input on the real code was found',
                         'rerun': 'cd /verif && python3-vt check.py %s' % prop})
        for o in newref[:5]:
            print('failed obligation: %s: %s (%s) %s' % (o[0], o[1], o[3], o[4][:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
        rc = 1
    if und:
        for o in und[:10]:
            print('UNDECIDED %s: %s: %s' % (o[0], o[1], str(o[4])[:300]))
    if badcanary:
        print('WARNING canary not refuted: %s' % [o[:2] for o in badcanary])
    ev['violations'] = len(newfails) + (len(newref) if not newfails else 0)
    ev['wall_s'] = round(time.time() - t0, 2)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d/%d obligations discharged%s, %d refuted, %d undecided, %d side obligations, %d native cases, %.1f s'
          % (prop, tier, len(dd), len(proper), ' (and %d/%d bounded)' % (sum(b['discharged'] for b in bnd.values()), sum(b['obligations'] for b in bnd.values())) if bnd else '', len(ref), len(und), cov['side_obligations_discharged'], cases, time.time() - t0))
    return rc
