"""Random inputs on the read-data selectors and counters of /repo against their contracts, or caches built with the selectors swapped.

usage: w_units.py sim SEED N clw:dbw ...          one JSON line per item
       w_units.py tr  OUTDIR SWAP cfg ...         translate, top U<SWAP>_<cfg>; SWAP=1 exchanges the two selectors in the data path
"""
import json, os, random, sys, warnings
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from pymtl3 import *
from pymtl3.passes.backends.verilog import VerilogTranslationPass
from mem_ifcs.MemMsg import mk_mem_msg


def selectors(clw, dbw, seed, n):
    from blocking_cache.units.muxes import DataSelectMux, FastDataSelectMux
    from blocking_cache.CacheDerivedParams import CacheDerivedParams
    r = random.Random(f'{seed}/{clw}/{dbw}')
    p = CacheDerivedParams(*mk_mem_msg(8, 32, dbw, has_wr_mask=False), *mk_mem_msg(8, 32, clw), clw // 2, 2)
    st = dict(vectors=0, amo=0, off=0, distinct=0, err='')
    seen = set()
    for T in (DataSelectMux, FastDataSelectMux):
        m = T(p)
        m.elaborate()
        m.apply(DefaultPassGroup())
        lens = [x for x in (0, 1, 2, 4, 8, 16) if x < dbw // 8]
        for k in range(n):
            d = r.choice([r.getrandbits(clw), r.getrandbits(clw), (1 << clw) - 1, 255 << 8 * r.randrange(clw // 8)])
            ln = r.choice(lens)
            sz = ln or dbw // 8
            off = r.randrange(clw // 8 // sz) * sz
            en, amo = r.random() < .88, r.random() < .15
            if amo: want = d & 0xffffffff
            elif en: want = d >> 8 * off & (1 << 8 * sz) - 1
            else: want = 0
            m.in_ @= d; m.en @= en; m.amo @= amo; m.len_ @= ln; m.offset @= off
            m.sim_eval_combinational()
            m.line_trace()
            st['vectors'] += 1; st['amo'] += amo; st['off'] += not en and not amo
            seen.add((ln, off, en, amo))
            if int(m.out) != want:
                st['err'] = f'{T.__name__} line {clw} data {dbw}: in={d:x} en={int(en)} amo={int(amo)} len={ln} offset={off} gives {int(m.out):x}, the addressed bytes are {want:x}'
                return st
    st['distinct'] = len(seen)
    return st


def counters(w, seed, n):
    from blocking_cache.units.counters import CounterEnRst, CounterUpDown
    r = random.Random(f'{seed}/cnt/{w}')
    M = (1 << w) - 1
    T = mk_bits(w)
    rv = r.choice([0, M, r.getrandbits(w)])
    st = dict(steps=0, wraps=0, err='')
    a, b = CounterEnRst(T, reset_value=rv), CounterUpDown(T, rv)
    for m in (a, b):
        m.elaborate()
        m.apply(DefaultPassGroup())
        m.sim_reset()
    x = y = rv
    for i in range(n):
        if int(a.out) != x: st['err'] = f'CounterEnRst({w} bits, reset to {rv}) step {i}: shows {int(a.out)}, {x} expected'
        b.sim_eval_combinational()
        if int(b.out) != y: st['err'] = f'CounterUpDown({w} bits, reset to {rv}) step {i}: shows {int(b.out)}, {y} expected'
        if st['err']: return st
        rst, en, dn = r.random() < .03, r.random() < .6, r.random() < .5
        a.reset @= rst; a.en @= en; a.count_down @= dn; a.load @= 0; a.load_value @= r.getrandbits(w)
        nx = rv if rst else (x + (-1 if dn else 1)) & M if en else x
        up, dw, ld = r.random() < .5, r.random() < .5, r.random() < .12
        ua, da, la = (r.choice([0, 1, 1, M, r.getrandbits(w)]) for _ in range(3))
        b.reset @= rst; b.up_en @= up; b.dw_en @= dw; b.ld_en @= ld; b.up_amt @= ua; b.dw_amt @= da; b.ld_amt @= la
        z = la if ld else y + (ua if up and not dw else -da if dw and not up else 0)
        ny = rv if rst else z & M
        st['steps'] += 2; st['wraps'] += (z & M) != z
        a.line_trace(); b.line_trace()
        a.sim_tick(); b.sim_tick()
        x, y = nx, ny
    return st


if sys.argv[1] == 'sim':
    for it in sys.argv[4:]:
        k, *w = it.split(':')
        try:
            o = selectors(int(w[0]), int(w[1]), int(sys.argv[2]), int(sys.argv[3])) if k == 'sel' else counters(int(w[0]), int(sys.argv[2]), int(sys.argv[3]))
        except (ImportError, AttributeError) as e:
            o = {'gone': f'{type(e).__name__}: {e}'[:300]}
        except Exception as e:
            o = {'err': f'{it}: {type(e).__name__}: {e}'[:400]}
        print(json.dumps({'item': it, **o}), flush=True)
else:
    os.chdir(sys.argv[2])
    from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
    import blocking_cache.BlockingCacheDpathRTL as D
    import blocking_cache.units.muxes as X
    swapped = False
    if sys.argv[3] == '1':
        for a, b in (('DataSelectMux', 'FastDataSelectMux'), ('FastDataSelectMux', 'DataSelectMux')):
            if hasattr(D, a) and hasattr(X, b):
                setattr(D, a, getattr(X, b))
                swapped = True
    for c in sys.argv[4:]:
        obw, abw, clw, dbw, nb, asso = map(int, c.split(','))
        name = f'U{sys.argv[3]}_' + c.replace(',', '_')
        try:
            m = BlockingCacheRTL(*mk_mem_msg(obw, abw, dbw, has_wr_mask=False), *mk_mem_msg(obw, abw, clw, has_wr_mask=True), nb, asso)
            m.set_metadata(VerilogTranslationPass.enable, True)
            m.set_metadata(VerilogTranslationPass.explicit_file_name, name)
            m.set_metadata(VerilogTranslationPass.explicit_module_name, name)
            m.elaborate()
            m.apply(VerilogTranslationPass())
            o = {'err': ''}
        except Exception as e:
            o = {'err': f'{type(e).__name__}: {e}'[:400]}
        print(json.dumps({'item': c, 'swapped': swapped, **o}), flush=True)
