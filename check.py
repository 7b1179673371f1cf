#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]   run one property's check
   check.py --replay FILE                                re-run a recorded violation"""
import hashlib, json, os, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/lib')
sys.dont_write_bytecode = True
import build as B, cfgs as CF, engprops as EP

LEVEL = 'exploration'


def known():
    try:
        return json.load(open(VERIF + '/known_findings.json'))['findings']
    except FileNotFoundError:
        return []


class Report:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed, s.t0 = prop, tier, seed, time.time()
        s.viol, s.known = [], []

    def violation(s, v):
        """v: dict with 'mon' (monitor name), 'msg', 'key' and whatever replays it"""
        for k in known():
            if k.get('status') == 'known' and k['property'] == s.prop and k['key'] == v.get('key'):
                s.known.append((k, v))
                return
        s.viol.append(v)

    def finish(s, cov, assumptions, inconclusive=None):
        ev = {'property': s.prop, 'tier': s.tier, 'seed': s.seed, 'level': LEVEL, 'coverage': cov, 'assumptions': assumptions,
              'wall_s': round(time.time() - s.t0, 2), 'violations': len(s.viol)}
        os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
        json.dump(ev, open(f'{VERIF}/evidence/{s.prop}.json', 'w'), indent=1)
        seen = set()
        for k, v in s.known:
            if k['key'] not in seen:
                seen.add(k['key'])
                print(f"KNOWN-FINDING: property={s.prop} {k['what']}")
        if s.viol:
            for n, v in enumerate(s.viol[:5]):
                path = f'{VERIF}/evidence/replay/{s.prop}_{n}.json'
                json.dump({'property': s.prop, 'seed': s.seed, 'tier': s.tier, **v}, open(path, 'w'), indent=1)
                print(f"  {v.get('mon')}: {v.get('msg')}")
                print(f'VIOLATION property={s.prop} replay={path}', flush=True)
            return 1
        if inconclusive:
            print(f'INCONCLUSIVE property={s.prop}: {inconclusive}')
            return 2
        print(f"OK property={s.prop} tier={s.tier} seed={s.seed} evaluations={cov.get('evaluations')} distinct={cov.get('distinct_nontrivial')} wall={ev['wall_s']}s")
        return 0


def engine(cmd, timeout, extra_env=None):
    e = B.env()
    if extra_env: e.update(extra_env)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return {'timeout': True}
    for l in reversed(p.stdout.splitlines()):
        if l.startswith('{'):
            try:
                return json.loads(l)
            except ValueError:
                break
    return {'crash': (p.stderr or p.stdout)[-600:], 'rc': p.returncode}


def merge(tot, d):
    for k, v in d.items():
        if isinstance(v, bool): continue
        if isinstance(v, int): tot[k] = tot.get(k, 0) + v
        elif isinstance(v, dict): merge(tot.setdefault(k, {}), v)


def run_engine(prop, tier, seed):
    rep = Report(prop, tier, seed)
    bit, fams, need = EP.P[prop]
    cfgs = CF.select(tier, seed)
    b = B.Build()
    try:
        exes = b.build(cfgs)
        so = b.engine_so()
        pys = not exes
        jobs = []
        wsum = sum(w for _, _, w in fams)
        for ci, c in enumerate(cfgs):
            if c not in exes: continue
            nl = CF.nlines(c)
            for fi, (fam, focus, w) in enumerate(fams):
                ms = CF.est_ms(c, fam)
                secs = (24 if ci < 4 else 14) * (1 if tier == 'quick' else 14)
                eps = max(2, int(secs * 1000 * w / wsum / ms))
                chunk = max(2, int((6 if tier == 'quick' else 30) * 1000 / ms))
                e0 = 0
                while e0 < eps:
                    n = min(chunk, eps - e0)
                    args = ['--cfg', c, '--seed', str(seed * 1000 + ci * 16 + fi), '--ep0', str(e0), '--eps', str(n), '--fam', fam, '--focus', focus,
                            '--cores', '3', '--reqs', '300' if nl <= 64 or nl > 512 else '800', '--props', str(1 << bit), '--tmax', '120']
                    jobs.append(([exes[c]], args, None, n * ms))
                    e0 += n
            # one long run: thousands of requests since the last reset
            fam, focus, _ = fams[ci % len(fams)]
            if nl <= 64 and fam in ('flat', 'ideal', 'ext', 'tindep', 'twin'):
                n = (70000 if ci == 0 else 9000) * (1 if tier == 'quick' else 8)
                ms = CF.est_ms(c, fam) * n / 300
                args = ['--cfg', c, '--seed', str(seed * 1000 + ci * 16 + 15), '--ep0', '0', '--eps', '1', '--fam', fam, '--focus', focus,
                        '--cores', '1', '--reqs', str(n), '--props', str(1 << bit), '--tmax', '240']
                jobs.append(([exes[c]], args, None, ms))
        jobs.sort(key=lambda j: -j[3])
        jobs = [j[:3] for j in jobs]
        # the same engine and monitors on the PyMTL simulation of the model
        npy = 2 if tier == 'quick' else 8
        pyjobs = [(CF.QUICK[[0, 1, 2, 3, 5, 7, 0, 0][i]], fams[i % len(fams)], '6' if tier == 'quick' else '60', '15' if tier == 'quick' else '200') for i in range(npy)]
        # configurations whose translation failed are explored on the PyMTL simulation alone
        lost = [c for c in cfgs if c not in exes and CF.nlines(c) <= 64]
        for c in lost:
            for f in fams: pyjobs.append((c, f, '200', '60' if tier == 'quick' else '300'))
        for i, (c, (fam, focus, w), eps, tmax) in enumerate(pyjobs):
            args = ['--cfg', c, '--seed', str(seed * 1000 + 900 + i), '--ep0', '0', '--eps', eps, '--fam', fam, '--focus', focus,
                    '--cores', '2', '--reqs', '40', '--light', '1', '--props', str(1 << bit), '--tmax', tmax]
            jobs.insert(0, ([B.VENV, '-W', 'ignore', VERIF + '/lib/pysim.py', so], args, 'py'))
        tot, percfg, samples, crashes, py = {}, {}, [], [], {}
        stop = threading.Event()

        def one(j):
            if stop.is_set(): return j, None
            d = engine(j[0] + j[1], 700)
            for v in d.get('viol', []):
                if v['props'] >> bit & 1: stop.set()
            return j, d
        skipped = 0
        with ThreadPoolExecutor(B.NPROC) as ex:
            for f in as_completed([ex.submit(one, j) for j in jobs]):
                (cmd, args, kind), d = f.result()
                if d is None:
                    skipped += 1
                    continue
                if 'crash' in d or 'timeout' in d or 'pyerr' in d:
                    crashes.append({'args': args, 'kind': kind or 'verilated', **{k: d[k] for k in ('crash', 'timeout', 'pyerr', 'rc') if k in d}})
                    if 'viol' not in d: continue
                cfg = args[1]
                if kind == 'py': merge(py, {k: v for k, v in d.items() if k not in ('viol',)})
                else: merge(tot, {k: v for k, v in d.items() if k not in ('viol',)})
                pc = percfg.setdefault(cfg, {'episodes': 0, 'accepts': 0, 'cycles': 0})
                for k in pc: pc[k] += d[k]
                for s in d['samples']:
                    if len(samples) < 6 and not any(s.split(' ')[0] == x.split(' ')[0] for x in samples): samples.append(s)
                for v in d['viol']:
                    if not (v['props'] >> bit & 1): continue
                    a = dict(zip(args[::2], args[1::2]))
                    a.update({'--ep0': str(v['ep']), '--eps': '1', '--trace': '1'})
                    rargs = [x for kv in a.items() for x in kv]
                    w = {'mon': v['mon'], 'msg': v['msg'] + f" [cfg {cfg} episode {v['ep']} cycle {v['cycle']}{' pymtl' if kind else ''}]", 'key': v['mon'],
                         'kind': kind or 'verilated', 'engine_args': rargs}
                    if len(rep.viol) < 3:
                        t = engine(cmd + rargs, 300)
                        w['trace_tail'] = (t.get('trace') or '').split('\n')[:4000][-400:]
                    rep.violation(w)
        cov = {'evaluations': tot.get('accepts', 0) + py.get('accepts', 0), 'distinct_nontrivial': tot.get('distinct_sigs', 0) + py.get('distinct_sigs', 0),
               'rule': EP.RULE, 'samples': samples or ['none'], 'configurations': percfg, 'observed': {k: v for k, v in tot.items() if k not in ('accepts', 'distinct_sigs')},
               'observed_on_pymtl_simulation': {k: v for k, v in py.items() if k not in ('cls', 'types')}, 'not_built': b.errors, 'jobs_failed': crashes[:5],
               'jobs': len(jobs), 'jobs_not_run_after_first_violation': skipped}
        inc = None
        obs = tot if exes else py
        div = 1 if exes else 50
        for k, n in need.items():
            if obs.get(k, 0) < n // div: inc = f'only {obs.get(k, 0)} {k}'
        if len(crashes) > len(jobs) // 2: inc = f'{len(crashes)} of {len(jobs)} jobs failed: {crashes[:1]}'
        return rep.finish(cov, ['Verilator and the PyMTL3 simulator and translator execute the design faithfully',
                                'requests respect the documented access rules (aligned, supported lengths); the memory answers requests in order'], inc)
    finally:
        b.close()


def replay(path):
    r = json.load(open(path))
    if 'engine_args' in r:
        b = B.Build()
        try:
            a = r['engine_args']
            cfg = a[a.index('--cfg') + 1]
            if r['kind'] == 'py': cmd = [B.VENV, '-W', 'ignore', VERIF + '/lib/pysim.py', b.engine_so()]
            else:
                exes = b.build([cfg])
                if cfg not in exes:
                    print('configuration does not build:', b.errors)
                    return 2
                cmd = [exes[cfg]]
            d = engine(cmd + a, 600)
            print(d.get('trace', ''))
            hit = [v for v in d.get('viol', []) if v['mon'] == r['mon']]
            for v in hit: print(f"{v['mon']}: {v['msg']}")
            if hit: print(f"VIOLATION property={r['property']} replay={path}")
            return 1 if hit else 0
        finally:
            b.close()
    import extra
    return extra.replay(r, path)


def main(a):
    if a and a[0] == '--replay': return replay(a[1])
    if a and a[0] == '--setup':  # nothing persists between runs: only check that the tools and the harness work
        b = B.Build()
        try:
            b.start_base()
            b.wait_base()
            print('harness compiles; tools:', ', '.join(t for t in ('verilator', 'g++') if __import__('shutil').which(t)))
            return 0
        finally:
            b.close()
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]
        elif a[i] == '--seed': seed = int(a[i + 1])
        i += 2
    seed = seed % 1000003
    if prop in EP.P: return run_engine(prop, tier, seed)
    import extra
    return extra.run(prop, tier, seed, Report)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
