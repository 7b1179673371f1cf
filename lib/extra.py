"""Checks that are not decided by the interface monitors alone: C14..C17, C19..C22."""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import build as B, cfgs as CF

VERIF = B.VERIF
ASSUME = ['Verilator and the PyMTL3 simulator and translator execute the design faithfully']


def sh(cmd, cwd=None, timeout=600, env=None):
    e = B.env()
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return None, '', 'timeout'


def lines(o):
    r = []
    for l in o.splitlines():
        if l.startswith('{'):
            try: r.append(json.loads(l))
            except ValueError: pass
    return r


def last(o):
    l = lines(o)
    return l[-1] if l else None


def cli_translate(b, cfg, replace=False):
    """Run the translation command the repository ships.  -> (verilog path, top, error)"""
    obw, abw, clw, dbw, nb, asso = cfg.split(',')
    d = f"{b.dir}/cli_{cfg.replace(',', '_')}{'_r' if replace else ''}"
    os.makedirs(d, exist_ok=True)
    top = f'BlockingCache_{nb}_{clw}_{abw}_{dbw}_{asso}'
    rc, o, e = sh([B.VENV, '-W', 'ignore', B.REPO + '/blocking_cache/translate.py', '--size', nb, '--clw', clw, '--dbw', dbw, '--abw', abw, '--obw', obw,
                   '--asso', asso] + (['--replace-sram'] if replace else []), cwd=d, timeout=300)
    v = f'{d}/{top}.v'
    if rc is None: return None, top, 'timeout'
    if rc or not os.path.isfile(v): return None, top, f'exit {rc}: ' + (e or o).strip()[-500:]
    return v, top, None


def engine(cmd, timeout=700, env=None):
    rc, o, e = sh(cmd, timeout=timeout, env=env)
    d = last(o)
    if d is None: return {'crash': (e or o)[-400:], 'rc': rc, 'timeout': rc is None}
    return d


def par(f, xs, n=None):
    with ThreadPoolExecutor(n or B.NPROC) as ex: return list(ex.map(f, xs))


# ------------------------------------------------------------------ C14 functional model
def c14(tier, seed, rep, only=None):
    r = random.Random(seed * 77 + 3)
    cf = ['8,32,128,32,64,2', '8,32,128,32,32,1', '8,32,64,64,64,2', '8,32,256,64,256,2', '8,32,128,128,256,2', '8,32,512,32,256,2', '4,32,256,128,128,1']
    if tier == 'thorough': cf += ['8,32,128,32,1024,2', '8,32,128,32,4096,2', '8,32,512,64,1024,1', '16,32,64,32,128,1', '1,32,256,256,512,2']
    n = 2 if tier == 'quick' else 10
    while n:
        f = CF.rand_cfg(r).split(',')
        f[1] = '32'
        if ','.join(f) not in cf:
            cf.append(','.join(f))
            n -= 1
    foc = ['mix', 'amo', 'inv', 'evict', 'hit', 'flush']
    if only: cf = [only['cfg']]
    b = B.Build()
    try:
        ex = b.build(cf)
        eps = 120 if tier == 'quick' else 900
        jobs = [(c, f, k) for c in cf if c in ex for f in foc for k in range(1 if tier == 'quick' else 4)]
        if only: jobs = [(only['cfg'], only['focus'], only['part'])]

        def one(j):
            c, f, k = j
            L = f"{b.dir}/fl_{c}_{f}_{k}"
            d = engine([ex[c], '--cfg', c, '--seed', str(seed * 100 + foc.index(f)), '--ep0', str(k * eps), '--eps', str(eps), '--fam', 'flat', '--focus', f, '--reqs',
                        '120', '--props', '0', '--fllog', L])
            if not os.path.exists(L): return j, d, None
            rc, o, e = sh([B.VENV, '-W', 'ignore', VERIF + '/lib/w_fl.py', c, L])
            os.unlink(L)
            return j, d, last(o) or {'fail': (e or 'no result')[-500:]}
        res = par(one, jobs)
        tot = {'episodes': 0, 'requests': 0, 'compared': 0, 'hits': 0, 'distinct': 0}
        types, fails, samples = {}, [], []
        for (c, f, k), d, w in res:
            if w is None or 'fail' in w:
                fails.append({'cfg': c, 'focus': f, 'err': (w or d)})
                continue
            for x in tot: tot[x] += w[x]
            for t, v in w['types'].items(): types[t] = types.get(t, 0) + v
            if len(samples) < 4: samples.append(f'cfg {c} focus {f}: {w["compared"]} responses compared')
            for x in w['bad'][:3]:
                rep.violation({'mon': 'fl_rtl', 'key': 'fl_rtl', 'msg': f"{x['what']}; request {x['request']} (#{x['index']} of episode {x['ep']}, cfg {c})",
                               'case': {'cfg': c, 'focus': f, 'part': k}, **x})
        cov = {'evaluations': tot['compared'], 'distinct_nontrivial': tot['distinct'],
               'rule': 'requests accepted by the simulated RTL cache are replayed on the functional model and every response compared; distinct = '
                       'type x length x hit x previous operation x line offset x address half, per job', 'samples': samples or ['none'],
               'observed': {**tot, 'types': types}, 'not_built': b.errors, 'jobs_failed': fails[:5]}
        if fails and all('ImportError' in str(x) or 'ModuleNotFound' in str(x) or 'AttributeError' in str(x) for x in fails) and not tot['compared']:
            return rep.finish(cov, ASSUME, 'the functional model could not be driven: ' + str(fails[0])[-300:])
        return rep.finish(cov, ASSUME + ['32-bit addresses, the documented scope of the functional model'], None if tot['compared'] > 1000 else f'only {tot["compared"]} responses compared: {fails[:1]} {b.errors}')
    finally:
        b.close()


# ------------------------------------------------------------------ C15 translation equivalence
def difflog(a, c):
    """first differing line of two hash logs -> (line number, left, right) or None; and lines compared"""
    n = 0
    with open(a) as fa, open(c) as fc:
        while True:
            x, y = fa.readline(), fc.readline()
            if not x and not y: return None, n
            if not x or not y:
                return (n, x.strip() or '(log ends)', y.strip() or '(log ends)'), n
            if x != y: return (n, x.strip(), y.strip()), n
            n += 1


def novel(path, budget):
    """greedy choice of the episodes that add most new signatures per cycle, until budget cycles are spent -> episode numbers, signatures covered"""
    eps = []
    for l in open(path):
        f = l.split()
        if len(f) > 2: eps.append((int(f[0]), int(f[1]), set(f[2:])))
    seen, cyc, pick = set(), 0, []
    while eps and cyc < budget:
        g, i = max((len(e[2] - seen) / (e[1] + 30), -k) for k, e in enumerate(eps))
        if not g: break
        e = eps.pop(-i)
        pick.append(e[0])
        seen |= e[2]
        cyc += e[1]
    return pick, len(seen)


def c15(tier, seed, rep, only=None):
    cf = ['8,32,128,32,64,2', '8,32,128,32,32,1', '8,32,64,64,64,2', '4,24,256,256,128,1', '8,32,512,32,256,2', '16,64,128,128,256,2']
    r = random.Random(seed * 13 + 1)
    n = 2 if tier == 'quick' else 10
    while n:
        c = CF.rand_cfg(r)
        if c not in cf and CF.nlines(c) <= 32:
            cf.append(c)
            n -= 1
    if tier == 'thorough': cf += ['8,32,128,32,4096,2', '8,8,64,32,16,1', '32,40,512,128,1024,1']
    foc = ['mix', 'evict', 'flush', 'amo', 'inv', 'hit']
    secs = 30 if tier == 'quick' else 240
    if only: cf = [only['cfg']]
    b = B.Build()
    try:
        b.start_base()
        tr = dict(zip(cf, par(lambda c: cli_translate(b, c), cf)))
        exs = dict(zip(cf, par(lambda c: b.verilate(tr[c][0], tr[c][1], 'x_' + c.replace(',', '_')) if tr[c][0] else None, cf)))
        so = b.engine_so()
        jobs = []
        for i, c in enumerate(cf):
            for k in range(1 if tier == 'quick' else 3):
                jobs.append({'cfg': c, 'focus': foc[(i + k * 2 + seed) % len(foc)], 'fam': 'flat:3,reset:1,ext:1,ideal:1', 'seed': seed * 50 + i, 'ep0': k * 1000, 'eps': 1000, 'secs': secs})
        if only: jobs = [only]
        out = {'cycles': 0, 'compared': 0, 'episodes': 0, 'resp': 0, 'memreq': 0, 'sigs': 0}
        fails, samples = [], []

        def one(j):
            c = j['cfg']
            if not exs.get(c): return j, None, None, f'not built: {tr[c][2] or b.errors}'
            n = f"{b.dir}/h_{c}_{j['ep0']}"
            a = ['--cfg', c, '--seed', str(j['seed']), '--fam', j['fam'], '--focus', j['focus'], '--reqs', '40', '--light', '1', '--props', '0']
            if 'eplist' not in j:
                # the fast simulation looks for the episodes that reach most different situations, the slow one runs those
                v = engine([exs[c]] + a + ['--ep0', str(j['ep0']), '--eps', str(j['eps']), '--tmax', '12', '--sigout', n + 's'])
                if 'crash' in v: return j, v, None, 'verilated: ' + str(v)
                j['eplist'], j['reach'] = novel(n + 's', j['secs'] * 150)
                os.unlink(n + 's')
            d = engine([B.VENV, '-W', 'ignore', VERIF + '/lib/pysim.py', so] + a + ['--eplist', '+'.join(map(str, j['eplist'])), '--tmax', str(j['secs']), '--hashlog', n + 'p'], env={'PYSIM_TRACE': '1'})
            if 'crash' in d: return j, d, None, 'pymtl: ' + str(d)
            v = engine([exs[c]] + a + ['--eplist', '+'.join(map(str, j['eplist'][:d['episodes']])), '--hashlog', n + 'v'])
            if 'crash' in v: return j, d, None, 'verilated: ' + str(v)
            df, cnt = difflog(n + 'p', n + 'v')
            o = {'lines': cnt, 'resp': 0, 'memreq': 0, 'head': ''}
            for l in open(n + 'v'):
                o['resp'] += ' RESP ' in l
                o['memreq'] += ' MEMREQ ' in l
                if ' RESP ' in l and not o['head']: o['head'] = l.strip()[:200]
            for s in 'pv': os.unlink(n + s)
            return j, d, (df, o), None
        for j, d, x, err in par(one, jobs):
            if err:
                fails.append({'job': j, 'err': err[-600:]})
                continue
            df, o = x
            if 'pyerr' in d:
                rep.violation({'mon': 'pymtl_exception', 'key': 'pymtl_exception', 'msg': f"the PyMTL simulation (with line trace) raised {d['pyerr']} on cfg {j['cfg']}, the translated Verilog simulates", 'case': j})
            elif df:
                rep.violation({'mon': 'translation_diff', 'key': 'translation_diff', 'msg': f"cfg {j['cfg']} boundary log line {df[0]}: PyMTL '{df[1][:200]}' Verilog '{df[2][:200]}'", 'case': j})
            out['cycles'] += o['lines']
            out['resp'] += o['resp']
            out['memreq'] += o['memreq']
            out['episodes'] += d['episodes']
            out['sigs'] += d['distinct_sigs']
            if len(samples) < 3: samples.append(f"cfg {j['cfg']} focus {j['focus']}: {o['lines']} cycles; {o['head']}")
        cov = {'evaluations': out['cycles'], 'distinct_nontrivial': out['sigs'], 'rule': 'one evaluation = one clock cycle whose four interface outputs are identical in the PyMTL simulation and in the Verilated output of translate.py; '
               'distinct = transaction signatures (class x predecessor x length x way x stall context) seen', 'samples': samples or ['none'], 'observed': out, 'not_built': {**b.errors, **{c: t[2] for c, t in tr.items() if t[2]}}, 'jobs_failed': fails[:4]}
        return rep.finish(cov, ['Verilator executes Verilog faithfully'], None if out['cycles'] > 500 else f'{out["cycles"]} cycles compared: {fails[:1]}')
    finally:
        b.close()


# ------------------------------------------------------------------ C16 SRAM macro replacement
MACROS = {'sram_256x128': (256, 128), 'sram_128x26': (128, 26), 'sram_512x128': (512, 128), 'sram_256x25': (256, 25)}


def standins(v, path):
    """Append behavioural stand-ins for macro cells the wrapper instantiates but the file does not define."""
    s = open(v).read()
    add = ''
    for n, (w, nb) in MACROS.items():
        if re.search(r'\b%s\s+\w+\s*\(' % n, s) and not re.search(r'module\s+%s\b' % n, s):
            ab = (w - 1).bit_length()
            add += f'''
module {n} (input CLK, input CEN, input RDWEN, input [{ab - 1}:0] A, input [{nb - 1}:0] D, input [{nb - 1}:0] BW, input T_LOGIC, input T_Q_RST,
  output reg [{nb - 1}:0] Q, output [1:0] OBSV_CTL, input MA_SAWL, input MA_WL, input MA_VD1, input MA_VD0, input MA_WRT);
  reg [{nb - 1}:0] ram [0:{w - 1}];
  assign OBSV_CTL = 0;
  always @(posedge CLK) begin
    if (!CEN && RDWEN) Q <= ram[A];
    if (!CEN && !RDWEN) ram[A] <= (ram[A] & ~BW) | (D & BW);
  end
endmodule
'''
    open(path, 'w').write(s + add)
    return add.count('endmodule')


def c16(tier, seed, rep, only=None):
    cf = ['8,32,128,32,4096,2', '8,32,128,32,4096,1', '8,32,128,32,8192,2', '8,32,128,32,64,2']
    if tier == 'thorough': cf += ['8,32,128,64,4096,2', '8,32,128,128,4096,1', '4,32,256,32,512,2', '8,32,128,32,1024,1', '8,32,64,32,64,2']
    if only: cf = [only['cfg']]
    b = B.Build()
    try:
        b.start_base()
        tr = {(c, k): t for (c, k), t in zip([(c, k) for c in cf for k in (0, 1)], par(lambda x: cli_translate(b, x[0], bool(x[1])), [(c, k) for c in cf for k in (0, 1)]))}
        macros, ex, extra = {}, {}, 0
        todo = []
        for (c, k), (v, top, err) in tr.items():
            if not v: continue
            if k:
                s = open(v).read()
                macros[c] = sorted(set(re.findall(r'SramGenericPRTL\s*#\s*\(([^;]*?)\)\s*sram\b', s)))
                extra += standins(v, v + '.sv')
                v = v + '.sv'
            todo.append((c, k, v, top))
        todo.sort(key=lambda t: -int(t[0].split(',')[4]))
        for (c, k, v, top), e in zip(todo, par(lambda t: b.verilate(t[2], t[3], f"m{t[1]}_{t[0].replace(',', '_')}"), todo)): ex[c, k] = e
        jobs, tot = [], {'cycles': 0, 'accepts': 0, 'memreqs': 0, 'sigs': 0, 'episodes': 0}
        n = 1 if tier == 'quick' else 6
        for i, c in enumerate(cf):
            for f in ('mix', 'evict', 'flush', 'inv', 'amo'):
                for k in range(n): jobs.append({'cfg': c, 'focus': f, 'seed': seed * 20 + i, 'ep0': k * 100, 'eps': 10 if CF.nlines(c) > 64 else 60})
        if only: jobs = [only]
        fails, samples = [], []

        def one(j):
            c = j['cfg']
            if not ex.get((c, 0)): return j, 'skip', None
            if not ex.get((c, 1)): return j, None, b.errors.get(f"m1_{c.replace(',', '_')}") or tr[c, 1][2]
            L = f"{b.dir}/m_{c}_{j['focus']}_{j['ep0']}"
            a = ['--cfg', c, '--seed', str(j['seed']), '--ep0', str(j['ep0']), '--eps', str(j['eps']), '--fam', 'flat:3,ext:1,reset:1', '--focus', j['focus'], '--reqs', '400', '--props', '0']
            d = [engine([ex[c, k]] + a + ['--hashlog', L + str(k)]) for k in (0, 1)]
            if 'crash' in d[0] or 'crash' in d[1]: return j, None, str(d)
            df, cnt = difflog(L + '0', L + '1')
            for k in '01': os.unlink(L + k)
            return j, (df, cnt, d), None
        for j, x, err in par(one, jobs):
            if x == 'skip':
                fails.append({'job': j, 'err': 'plain translation did not build'})
                continue
            if x is None:
                rep.violation({'mon': 'sram_replace_build', 'key': 'sram_replace_build', 'msg': f"cfg {j['cfg']}: the cache builds as translated but not after --replace-sram: {str(err)[-400:]}", 'case': j})
                continue
            df, cnt, d = x
            if df: rep.violation({'mon': 'sram_replace_diff', 'key': 'sram_replace_diff', 'msg': f"cfg {j['cfg']} boundary log line {df[0]}: plain '{df[1][:200]}' with macros '{df[2][:200]}'", 'case': j})
            for k, s in (('accepts', 'accepts'), ('memreqs', 'memreqs'), ('episodes', 'episodes'), ('sigs', 'distinct_sigs')): tot[k] += d[1][s]
            tot['cycles'] += cnt
            if len(samples) < 3: samples.append(f"cfg {j['cfg']} focus {j['focus']}: {cnt} cycles identical, {d[1]['accepts']} requests")
        cov = {'evaluations': tot['cycles'], 'distinct_nontrivial': tot['sigs'], 'rule': 'one evaluation = one clock cycle whose interface outputs agree between the translated cache and the cache with SRAM macros '
               'substituted; distinct = transaction signatures seen', 'samples': samples or ['none'], 'observed': tot, 'macro_instances': macros, 'cells_given_a_stand_in': extra, 'jobs_failed': fails[:4], 'not_built': b.errors}
        inc = None if tot['cycles'] > 1000 else f"{tot['cycles']} cycles compared: {fails[:1]} {b.errors}"
        return rep.finish(cov, ASSUME + ['macro cells the wrapper names but does not model behave as the ones it does'], inc)
    finally:
        b.close()


# ------------------------------------------------------------------ C17 SRAM
def c17(tier, seed, rep, only=None):
    r = random.Random(seed * 5 + 2)
    b = B.Build()
    n = 400 if tier == 'quick' else 6000
    try:
        b.start_base()
        py = ['shell:32:16', 'shell:128:256', 'core:128:8', 'shell:26:128', 'core:25:256']
        vs = ['32:16', '128:256', '26:128', '25:8']
        wr = [(128, 256), (26, 128), (32, 16)]
        for _ in range(5 if tier == 'quick' else 30): py.append(f"{r.choice(['shell', 'core'])}:{r.randint(2, 160)}:{r.choice([2, 4, 8, 16, 64, 128])}")
        for _ in range(2 if tier == 'quick' else 12): vs.append(f'{r.randint(2, 160)}:{r.choice([2, 4, 8, 16, 64, 128])}')
        for _ in range(2 if tier == 'quick' else 8): wr.append((r.choice([8, 16, 24, 32, 64, 72, 128]), r.choice([2, 4, 16, 64])))
        if only: py, vs, wr = only.get('py', []), only.get('vs', []), [tuple(x) for x in only.get('wr', [])]
        tot = {'writes': 0, 'reads': 0, 'idle': 0, 'partial': 0, 'masked': 0}
        shapes, samples, fails = set(), [], []

        def add(kind, item, d, case):
            if not d:
                fails.append({kind: item})
                return
            if d.get('err'):
                rep.violation({'mon': 'sram', 'key': 'sram', 'msg': f"{kind} {item}: {d['err']}", 'case': case})
            for k in tot: tot[k] += d.get(k, 0)
            shapes.add((kind, item))
            if len(samples) < 4: samples.append(f"{kind} {item}: {d.get('writes')} writes ({d.get('partial')} partial), {d.get('reads')} reads checked")

        def pyjob(it): return it, last(sh([B.VENV, '-W', 'ignore', VERIF + '/lib/w_sram.py', 'sim', str(seed), str(n), it])[1])
        for it, d in par(pyjob, py): add('pymtl', it, d, {'py': [it]})
        rc, o, e = sh([B.VENV, '-W', 'ignore', VERIF + '/lib/w_sram.py', 'tr', b.dir] + vs) if vs else (0, '', '')
        for d in lines(o):
            if d['err']: rep.violation({'mon': 'sram_translate', 'key': 'sram_translate', 'msg': f"SramPRTL {d['item']} does not translate: {d['err']}", 'case': {'vs': [d['item']]}})
        w = B.REPO + '/sram/brg_gf14_sram_generic_synopsys.v'
        jobs = []
        for it in vs:
            nb, nw = it.split(':')
            if os.path.exists(f'{b.dir}/S_{nb}_{nw}.v'): jobs.append(('verilog', it, f'{b.dir}/S_{nb}_{nw}.v', f'S_{nb}_{nw}', nb, nw, ['-DSHELL'], [], {'vs': [it]}))
        if wr and os.path.isfile(w):
            full = f'{b.dir}/wrap.sv'
            standins(w, full)
            for nb, nw in wr: jobs.append(('wrapper', f'{nb}:{nw}', full, 'SramGenericPRTL', str(nb), str(nw), [], [f'-Gnum_bits={nb}', f'-Gnum_words={nw}'], {'wr': [[nb, nw]]}))
        b.wait_base()

        def vjob(j):
            kind, it, vf, top, nb, nw, fl, gp, case = j
            d = f"{b.dir}/v_{kind}_{it.replace(':', '_')}"
            os.makedirs(d, exist_ok=True)
            rc, o = B.run(['verilator', '--cc', '-O3', '--x-initial', 'unique', '-Wno-fatal', '-Wno-lint', '-Wno-style', '--unroll-count', '1000000', '--unroll-stmts', '1000000',
                           '--top-module', top, '--prefix', 'VS', '--Mdir', d] + gp + [vf], b.dir)
            if rc: return j, None, 'verilator: ' + o[-400:]
            with open(d + '/all.cpp', 'w') as f:
                for x in sorted(os.listdir(d)):
                    if x.startswith('VS') and x.endswith('.cpp'): f.write(open(f'{d}/{x}').read() + '\n')
            R = B.vroot()
            rc, o = B.run(['g++', '-O1', '-std=c++17', '-w', '-I' + R, '-I.', '-DHDR="VS.h"', '-DMODEL=VS', f'-DNB={nb}', f'-DNW={nw}'] + fl +
                          [VERIF + '/engine/sram_drv.cpp', 'all.cpp', b.dir + '/verilated.o', b.dir + '/vthreads.o', '-o', 'drv', '-lpthread'], d)
            if rc: return j, None, 'c++: ' + o[-400:]
            rc, o, e = sh([d + '/drv', str(seed), str(n * 50)])
            return j, last(o), (e or '')[-300:]
        for (kind, it, *_, case), d, err in par(vjob, jobs):
            if d is None: fails.append({kind: it, 'err': err})
            else: add(kind, it, d, case)
        cov = {'evaluations': tot['reads'] + tot['masked'], 'distinct_nontrivial': len(shapes), 'rule': 'one evaluation = one read result (or disabled output) compared bit by bit with the oracle; distinct = model x shape exercised '
               'with reads, full, single-bit and random-mask writes, and idle cycles', 'samples': samples or ['none'], 'observed': {**tot, 'shapes': sorted(f'{a} {c}' for a, c in shapes)}, 'jobs_failed': fails[:5]}
        need = 3 if not only else 1
        return rep.finish(cov, ASSUME, None if len(shapes) >= need and tot['reads'] > 50 else f'{len(shapes)} shapes exercised: {fails[:2]}')
    finally:
        b.close()


# ------------------------------------------------------------------ C19 message types
def c19(tier, seed, rep, only=None):
    seeds = [seed * 100 + k for k in range(8)] if not only else [only['seed']]
    n = 1200 if tier == 'quick' else 12000

    def one(s):
        rc, o, e = sh([B.VENV, '-W', 'ignore', VERIF + '/lib/w_msg.py', str(s), str(n)])
        return s, last(o), e
    tot = {'types': 0, 'messages': 0, 'strings': 0, 'distinct': 0}
    samples, fails = [], []
    for s, d, e in par(one, seeds):
        if not d:
            fails.append(e[-400:])
            continue
        for k in tot: tot[k] += d[k]
        samples += d['samples'][:1]
        for x in d['bad'][:2]: rep.violation({'key': x['mon'], 'case': {'seed': s}, **x})
    cov = {'evaluations': tot['messages'], 'distinct_nontrivial': tot['distinct'], 'rule': 'one evaluation = one random message constructed, packed, unpacked, modified and printed; distinct = (opaque, address, data width, mask) combinations per job',
           'samples': samples[:6] or ['none'], 'observed': tot, 'jobs_failed': fails[:3]}
    return rep.finish(cov, ['PyMTL3 bit structs behave as specified'], None if tot['messages'] > 100 else f'no messages built: {fails[:1]}')


# ------------------------------------------------------------------ C20 generator
def ports(v, top):
    """{port: (direction, width)} of module `top`"""
    s = open(v).read()
    m = re.search(r'\bmodule\s+%s\s*\((.*?)\);' % re.escape(top), s, re.S)
    if not m: return None
    p = {}
    for x in m.group(1).split(','):
        y = re.match(r'\s*(input|output)\b(.*?)(\w+)\s*$', x, re.S)
        if not y: continue
        w = re.search(r'\[\s*(\d+)\s*:\s*0\s*\]', y.group(2))
        p[y.group(3)] = (y.group(1), int(w.group(1)) + 1 if w else None)
    return p


def want_ports(cfg):
    obw, abw, clw, dbw, nb, asso = map(int, cfg.split(','))
    lw, mlw = (dbw // 8 - 1).bit_length(), (clw // 8 - 1).bit_length()
    q, s = 4 + obw + abw + lw + dbw, 4 + obw + 2 + lw + dbw
    mq, ms = 4 + obw + abw + mlw + clw // 32 + clw, 4 + obw + 2 + mlw + clw // 32 + clw
    a, m = 'mem_minion_ifc__', 'mem_master_ifc__'
    return {'clk': ('input', 1), 'reset': ('input', 1), a + 'req__en': ('input', 1), a + 'req__msg': ('input', q), a + 'req__rdy': ('output', 1), a + 'resp__en': ('output', 1), a + 'resp__msg': ('output', s),
            a + 'resp__rdy': ('input', 1), m + 'req__en': ('output', 1), m + 'req__msg': ('output', mq), m + 'req__rdy': ('input', 1), m + 'resp__en': ('input', 1), m + 'resp__msg': ('input', ms), m + 'resp__rdy': ('output', 1)}




def c20(tier, seed, rep, only=None):
    r = random.Random(seed * 3 + 11)
    nt, ns = (40, 12) if tier == 'quick' else (300, 60)
    cf = ['8,32,128,32,4096,2', '8,32,128,32,16384,2', '8,32,128,32,65536,2', '8,32,64,32,16,1', '8,8,64,32,16,1', '32,64,512,512,256,2', '1,16,64,64,32,2']
    while len(cf) < nt:
        c = CF.rand_cfg(r)
        if r.random() < .25:
            f = c.split(',')
            f[4] = str(int(f[4]) * r.choice([4, 8, 16]))
            f[1] = str(max(int(f[1]), 30))
            c = ','.join(f)
        if c not in cf: cf.append(c)
    if only: cf = [only['cfg']]
    b = B.Build()
    try:
        b.start_base()
        tr = dict(zip(cf, par(lambda c: cli_translate(b, c), cf)))
        good, nports, fails = [], 0, []
        for c, (v, top, err) in tr.items():
            if not v:
                if err == 'timeout': fails.append({c: err})
                else: rep.violation({'mon': 'generate', 'key': 'generate', 'msg': f'cfg {c}: translation failed: {err}', 'case': {'cfg': c}})
                continue
            p = ports(v, top)
            if p is None:
                rep.violation({'mon': 'module_name', 'key': 'module_name', 'msg': f'cfg {c}: no module {top} in the generated file', 'case': {'cfg': c}})
                continue
            for n, (d, w) in want_ports(c).items():
                nports += 1
                g = p.get(n)
                if g is None or g[0] != d or (g[1] is not None and g[1] != w):
                    rep.violation({'mon': 'port', 'key': 'port', 'msg': f'cfg {c}: port {n} is {g}, documented {(d, w)}', 'case': {'cfg': c}})
            good.append(c)
        # Verilator accepts every generated file, and reports the message widths
        def lint(c):
            v, top, _ = tr[c]
            w = want_ports(c)
            tb = f"{os.path.dirname(v)}/tb.sv"
            decl = '\n'.join(f'  logic [{x[1] - 1}:0] {n};' for n, x in w.items())
            open(tb, 'w').write(f'module tb;\n{decl}\n  {top} dut(.*);\nendmodule\n')
            rc, o, e = sh(['verilator', '--lint-only', '-Wno-fatal', '-Wno-lint', '-Wno-style', '-Wwarn-WIDTH', '--unroll-count', '1000000', '--unroll-stmts', '1000000', '--top-module', 'tb', v, tb], timeout=300)
            return c, rc, o + e
        lc = [c for c in good if CF.nlines(c) <= 512]
        for c, rc, o in par(lint, lc):
            m = re.findall(r'tb\.sv:\d+:\d+: (\w+ port connection [^\n]*)', o)
            if rc is None: fails.append({c: 'lint timeout'})
            elif m: rep.violation({'mon': 'port_width', 'key': 'port_width', 'msg': f'cfg {c}: {m[0]}', 'case': {'cfg': c}})
            elif rc: rep.violation({'mon': 'verilog_rejected', 'key': 'verilog_rejected', 'msg': f'cfg {c}: generated Verilog is rejected: {o[-400:]}', 'case': {'cfg': c}})
        # and the generated cache works: all interface monitors, a few episodes
        pick = [c for c in good if CF.nlines(c) <= 32]
        r.shuffle(pick)
        big = [c for c in good if CF.nlines(c) > 32]
        rest = big[3:]
        r.shuffle(rest)
        pick = big[:3] + rest[:2 if tier == 'quick' else 12] + pick[:ns]
        exs = dict(zip(pick, par(lambda c: b.verilate(tr[c][0], tr[c][1], 'g_' + c.replace(',', '_')), pick)))
        run = {'accepts': 0, 'episodes': 0, 'cycles': 0, 'sigs': 0}

        def go(c):
            if not exs[c]: return c, {'crash': b.errors.get('g_' + c.replace(',', '_'))}
            nl = CF.nlines(c)
            n = (60 if tier == 'quick' else 600) * 32 // max(nl, 32)
            # every line of the cache touched, read back, flushed; then random traffic
            d = engine([exs[c], '--cfg', c, '--seed', str(seed), '--eps', str(max(1, n // 20)), '--fam', 'flat', '--focus', 'fill', '--tmax', '120'])
            if d.get('viol') or 'accepts' not in d or nl > 2048: return c, d
            e = engine([exs[c], '--cfg', c, '--seed', str(seed), '--eps', str(max(4, n)), '--fam', 'flat:3,ideal:1,ext:1,reset:1,tindep:1', '--reqs', '200', '--tmax', '60'])
            if 'accepts' in e:
                for k in ('accepts', 'episodes', 'cycles', 'distinct_sigs'): e[k] += d[k]
            return c, e
        for c, d in par(go, pick):
            if 'crash' in d:
                fails.append({c: d})
                continue
            for k, s in (('accepts', 'accepts'), ('episodes', 'episodes'), ('cycles', 'cycles'), ('sigs', 'distinct_sigs')): run[k] += d[s]
            for v in d['viol'][:1]:
                rep.violation({'mon': 'generated_cache', 'key': 'generated_cache', 'msg': f"cfg {c}: {v['mon']}: {v['msg']} [episode {v['ep']} cycle {v['cycle']}]", 'case': {'cfg': c}})
        cov = {'evaluations': len(cf), 'distinct_nontrivial': len(good), 'rule': 'one evaluation = one legal parameter combination taken through the translation command, its interface checked and the file compiled; a random subset is simulated under all interface monitors',
               'samples': cf[:6], 'observed': {'translated': len(good), 'ports_checked': nports, 'compiled': len(lc), 'simulated': len([c for c in pick if exs[c]]), **run}, 'jobs_failed': fails[:5], 'not_built': b.errors}
        return rep.finish(cov, ASSUME, None if len(good) > len(cf) // 2 or rep.viol else f'{len(good)} of {len(cf)} translated: {fails[:1]}')
    finally:
        b.close()


# ------------------------------------------------------------------ C21 selectors and counters
def c21(tier, seed, rep, only=None):
    q = tier == 'quick'
    r = random.Random(seed * 3 + 7)
    items = [f'sel:{c}:{d}' for c, d in ((32, 32), (64, 32), (128, 32), (512, 32), (64, 64), (128, 64), (128, 128), (256, 128), (256, 256), (512, 512), (512, 64))] + ['cnt:1', 'cnt:2', 'cnt:32', 'cnt:64']
    items += [f'cnt:{r.randint(1, 96)}' for _ in range(4 if q else 30)]
    n = 3000 if q else 40000
    cf = ['8,32,128,32,64,2', '8,32,128,128,128,1', '8,32,256,64,256,2', '8,32,512,32,256,2', '4,24,64,64,64,1'] + ([] if q else ['8,32,256,256,512,2', '16,64,512,512,1024,1', '8,32,32,32,32,2', '8,32,128,32,4096,2'])
    if only: items, cf = only.get('items', []), ([only['cfg']] if 'cfg' in only else [])
    b = B.Build()
    try:
        b.start_base()
        tot = {'vectors': 0, 'amo': 0, 'off': 0, 'steps': 0, 'wraps': 0, 'distinct': 0, 'cycles': 0, 'accepts': 0, 'sigs': 0}
        gone, fails, samples, swapped, kinds = {}, [], [], [], set()

        def unit(it): return it, last(sh([B.VENV, '-W', 'ignore', VERIF + '/lib/w_units.py', 'sim', str(seed), str(n), it])[1])
        us = par(unit, items)
        ok = {it.split(':')[0] for it, d in us if d and 'gone' not in d}
        for it, d in us:
            k = it.split(':')[0]
            if not d: fails.append(it)
            elif 'gone' in d and k not in ok: gone[it] = d['gone']
            elif d.get('err') or 'gone' in d: rep.violation({'mon': 'unit_' + k, 'key': 'unit_' + k, 'msg': d.get('err') or f"{it}: {d['gone']}", 'case': {'items': [it]}})
            if d and 'gone' not in d:
                kinds.add(k)
                for x in tot: tot[x] += d.get(x, 0)
                if len(samples) < 3: samples.append(f"{it}: { {x: y for x, y in d.items() if x not in ('item', 'err')} }")

        def tr(x):
            c, k = x
            d = last(sh([B.VENV, '-W', 'ignore', VERIF + '/lib/w_units.py', 'tr', b.dir, str(k), c], timeout=300)[1]) or {'err': 'no result'}
            if d['err'] or (k and not d['swapped']): return None, d
            top = f"U{k}_{c.replace(',', '_')}"
            return b.verilate(f'{b.dir}/{top}.v', top, 'x' + top), d
        pairs = [(c, k) for c in cf for k in (0, 1)]
        ex = dict(zip(pairs, par(tr, pairs)))

        def one(j):
            c = j['cfg']
            L = f"{b.dir}/u_{c}_{j['focus']}"
            a = ['--cfg', c, '--seed', str(j['seed']), '--eps', str(j['eps']), '--fam', 'flat:3,ext:1', '--focus', j['focus'], '--reqs', '300', '--props', '0']
            d = [engine([ex[c, k][0]] + a + ['--hashlog', L + str(k)]) for k in (0, 1)]
            if any('crash' in x for x in d): return j, None, d
            df, cnt = difflog(L + '0', L + '1')
            for k in '01': os.unlink(L + k)
            return j, (df, cnt), d
        jobs = []
        for i, c in enumerate(cf):
            e0, e1 = ex[c, 0], ex[c, 1]
            if e0[0] and e1[0]:
                swapped.append(c)
                jobs += [{'cfg': c, 'focus': f, 'seed': seed * 20 + i, 'eps': 40 if q else 600} for f in ('mix', 'amo', 'rw')]
            elif e0[0] and e1[1]['err']: rep.violation({'mon': 'selector_swap_build', 'key': 'selector_swap_build', 'msg': f"cfg {c}: with the other selector the cache does not translate: {e1[1]['err']}", 'case': {'cfg': c}})
            else: fails.append({'cfg': c, 'plain': e0[1], 'swapped': e1[1]})
        for j, x, d in par(one, [only] if only and 'focus' in only else jobs):
            if x is None:
                fails.append(str(d)[:300])
                continue
            if x[0]: rep.violation({'mon': 'selector_swap', 'key': 'selector_swap', 'msg': f"cfg {j['cfg']} boundary log line {x[0][0]}: as shipped '{x[0][1][:200]}' with the other selector '{x[0][2][:200]}'", 'case': j})
            tot['cycles'] += x[1]
            tot['accepts'] += d[1]['accepts']
            tot['sigs'] += d[1]['distinct_sigs']
        cov = {'evaluations': tot['vectors'] + tot['steps'] + tot['cycles'], 'distinct_nontrivial': tot['distinct'] + tot['sigs'], 'rule': 'one evaluation = one output of a selector compared with the addressed bytes, one counter step compared with '
               'modular arithmetic, or one cycle in which the caches built with either selector agree; distinct = (length, offset, mode) combinations plus transaction signatures', 'samples': samples or ['none'], 'observed': tot,
               'caches_with_selectors_exchanged': swapped, 'not_there': gone, 'jobs_failed': fails[:4]}
        return rep.finish(cov, ['PyMTL3 simulates and translates combinational logic faithfully'], None if kinds or swapped else f'nothing observed: {gone} {fails[:1]}')
    finally:
        b.close()


# ------------------------------------------------------------------ C22 several parameterisations in one design
BASE22 = '8,32,128,32,128,2'
VARY22 = ['16,32,128,32,128,2', '3,32,128,32,128,2', '8,40,128,32,128,2', '8,32,256,32,128,2', '8,32,128,64,128,2', '8,32,128,128,128,2', '8,32,128,32,256,2', '8,32,128,32,128,1', '8,32,128,32,64,1', '12,28,64,64,64,2']


def c22(tier, seed, rep, only=None):
    q = tier == 'quick'
    r = random.Random(seed * 17 + 5)

    def small():
        while True:
            c = CF.rand_cfg(r)
            if CF.nlines(c) <= 32: return c
    designs = [[BASE22, v] if i % 2 else [v, BASE22] for i, v in enumerate(VARY22)]
    for k in range(2 if q else 10):
        # one random cache and a neighbour that shares all parameters but one or two with it
        a, o = small(), small()
        f, g = a.split(','), o.split(',')
        for i in r.sample([0, 1, 5], r.choice([1, 2])): f[i] = str(3 - int(f[5])) if i == 5 else g[i]
        n = ','.join(f)
        if n != a and int(f[1]) >= CF.clog2(int(f[4]) // int(f[5])) + 3 and int(f[4]) * 8 // int(f[2]) // int(f[5]) >= 2: designs.append([a, n])
    designs.append([small(), BASE22, '16,32,256,64,256,2'])
    if not q:
        designs += [list(reversed(d)) for d in designs]
        designs.append(VARY22[:5])
    if only: designs = [only['design']]
    foc = ['mix', 'evict', 'amo', 'flush', 'rw', 'inv']
    b = B.Build()
    try:
        b.start_base()
        names = {f'H{k}': d for k, d in enumerate(designs)}
        alone = list(dict.fromkeys(c for d in designs for c in d))
        with ThreadPoolExecutor(2) as ex:
            fa = ex.submit(b.build, alone, True)
            fd = ex.submit(par, lambda n: last(sh([B.VENV, '-W', 'ignore', VERIF + '/lib/w_het.py', b.dir, n] + names[n], timeout=400)[1]) or {'err': 'no result'}, list(names))
            solo, tr = fa.result(), dict(zip(names, fd.result()))
        parts = [(n, i) for n, d in names.items() for i in range(len(d)) if not tr[n]['err']]
        ex = dict(zip(parts, par(lambda x: b.verilate(f'{b.dir}/{x[0]}_{x[1]}.v', f'{x[0]}_{x[1]}', f'x{x[0]}_{x[1]}', '-O1'), parts)))
        fails, samples, tot, mods = [], [], {'cycles': 0, 'accepts': 0, 'sigs': 0, 'pymtl_cycles': 0}, {}
        so = b.engine_so()
        jobs = []
        for k, (n, d) in enumerate(names.items()):
            fine = all(c in solo for c in d)
            mods[' + '.join(d)] = tr[n].get('modules')
            if not fine:
                fails.append({'design': d, 'alone': {c: b.errors.get(c) for c in d if c not in solo}})
                continue
            bad = tr[n]['err'] or next((b.errors.get(f'x{n}_{i}', 'not built') for i in range(len(d)) if not ex[n, i]), '')
            if 'no result' in bad or bad.startswith(('c++', 'link', 'not built')): fails.append({'design': d, 'err': bad[-300:]})
            elif bad: rep.violation({'mon': 'design_build', 'key': 'design_build', 'msg': f"caches {d} build each on its own, but not in one design: {bad[-300:]}", 'case': {'design': d}})
            for i in range(len(d)):
                if not tr[n]['err'] and ex[n, i]:
                    for f in (0, 1): jobs.append({'design': d, 'i': i, 'kind': 'verilog', 'focus': foc[(k + i + 3 * f) % 6], 'seed': seed * 70 + k * 4 + i, 'eps': 25 if q else 500})
            if k % 3 == seed % 3 or len(d) > 2 or not q:
                for i in range(2): jobs.insert(0, {'design': d, 'i': i, 'kind': 'pymtl', 'focus': foc[(k + i) % 6], 'seed': seed * 70 + k * 4 + i, 'eps': 3 if q else 40})
        if only and 'i' in only: jobs = [only]
        at = {tuple(d): n for n, d in names.items()}

        def one(j):
            d, i, c = j['design'], j['i'], j['design'][j['i']]
            n = at[tuple(d)]
            L = f"{b.dir}/d_{n}_{i}_{j['kind']}_{j['focus']}"
            a = ['--cfg', c, '--seed', str(j['seed']), '--fam', 'flat:3,ext:1,reset:1', '--focus', j['focus'], '--reqs', '40' if j['kind'] == 'pymtl' else '200', '--props', '0']
            if j['kind'] == 'pymtl':
                x = engine([B.VENV, '-W', 'ignore', VERIF + '/lib/pysim.py', so] + a + ['--light', '1', '--eps', str(j['eps']), '--tmax', '20', '--hashlog', L + 'd'], env={'PYSIM_DESIGN': f"{i};{' '.join(d)}"})
                a += ['--light', '1']
            else: x = engine([ex[n, i]] + a + ['--eps', str(j['eps']), '--tmax', '60', '--hashlog', L + 'd'])
            if 'crash' in x: return j, None, x
            y = engine([solo[c]] + a + ['--eps', str(x['episodes']), '--hashlog', L + 's'])
            if 'crash' in y: return j, None, y
            df, cnt = difflog(L + 's', L + 'd')
            for k in 'sd': os.unlink(L + k)
            return j, (df, cnt), {**y, 'pyerr': x.get('pyerr')}
        for j, x, y in par(one, jobs):
            w = f"cache {j['i']} ({j['design'][j['i']]}) of the design {j['design']} ({j['kind']})"
            if x is None:
                fails.append({'job': j, 'err': str(y)[:300]})
                continue
            if y['pyerr']: rep.violation({'mon': 'design_exception', 'key': 'design_exception', 'msg': f"{w} raises {y['pyerr'][:300]}", 'case': j})
            elif x[0]: rep.violation({'mon': 'design_diff', 'key': 'design_diff', 'msg': f"{w}, boundary log line {x[0][0]}: alone '{x[0][1][:200]}' in the design '{x[0][2][:200]}'", 'case': j})
            tot['cycles'] += x[1]
            if j['kind'] == 'pymtl': tot['pymtl_cycles'] += x[1]
            tot['accepts'] += y['accepts']
            tot['sigs'] += y['distinct_sigs']
            if len(samples) < 4: samples.append(f"{w}: {x[1]} cycles, {y['accepts']} requests agree" if not x[0] else f'{w} differs')
        cov = {'evaluations': tot['cycles'], 'distinct_nontrivial': tot['sigs'], 'rule': 'one evaluation = one cycle in which all interface outputs of a cache inside a design of several caches equal those of the same cache alone; '
               'distinct = transaction signatures', 'samples': samples or ['none'], 'observed': tot, 'designs_and_modules': mods, 'jobs_failed': fails[:4]}
        return rep.finish(cov, ASSUME, None if tot['cycles'] > 1000 or only else f'nothing compared: {fails[:1]}')
    finally:
        b.close()


FN = {'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22}


def run(prop, tier, seed, Report):
    return FN[prop](tier, seed, Report(prop, tier, seed))


def replay(r, path):
    class R:
        def __init__(s): s.viol = []

        def violation(s, v): s.viol.append(v)

        def finish(s, *a):
            for v in s.viol: print(f"{v['mon']}: {v['msg']}")
            if any(v['mon'] == r['mon'] for v in s.viol):
                print(f"VIOLATION property={r['property']} replay={path}")
                return 1
            return 0
    return FN[r['property']](r['tier'], r['seed'], R(), only=r['case'])
