"""Random traffic on the PyMTL SRAM models against a bit-accurate oracle, or their translation.

usage: w_sram.py sim  SEED N kind:bits:words ...      kind = shell (SramPRTL) | core (SramGenericPRTL)
       w_sram.py tr   OUTDIR bits:words ...           translate SramPRTL, top S_<bits>_<words>
One JSON line per item.
"""
import json, os, random, sys, warnings
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from pymtl3 import *
from pymtl3.passes.backends.verilog import VerilogTranslationPass
from sram.SramPRTL import SramPRTL
from sram.SramGenericPRTL import SramGenericPRTL


def sim(kind, nb, nw, seed, n):
    r = random.Random(f'{seed}/{kind}/{nb}/{nw}')
    m = (SramPRTL if kind == 'shell' else SramGenericPRTL)(nb, nw)
    m.elaborate()
    m.apply(DefaultPassGroup())
    m.sim_reset() if r.random() < .5 else None
    mem, chk = [0] * nw, None
    known = [0] * nw
    full = (1 << nb) - 1
    st = dict(writes=0, reads=0, idle=0, partial=0, masked=0, held=0, err='')
    hot = 0
    for i in range(n + nw + 1):
        fin = i >= n
        val, wr = fin or r.random() < .75, not fin and r.random() < .5
        if r.random() < .15: hot = r.randrange(nw)
        a = (i - n) % nw if fin else hot if r.random() < .66 else r.randrange(nw)
        d = r.getrandbits(nb)
        be = r.choice([full, 1 << r.randrange(nb), r.getrandbits(nb), r.getrandbits(nb)])
        oe = kind == 'shell' or fin or r.random() < .87
        if kind == 'shell':
            m.port0_val @= val; m.port0_type @= wr; m.port0_idx @= a; m.port0_wdata @= d; m.port0_wben @= be
        else:
            m.CSB1 @= not val; m.WEB1 @= not wr; m.OEB1 @= not oe; m.A1 @= a; m.I1 @= d; m.WBM1 @= be
        m.sim_eval_combinational()
        m.line_trace()
        q = int(m.port0_rdata if kind == 'shell' else m.O1)
        if not oe:
            st['masked'] += 1
            if q: st['err'] = f'cycle {i}: output enable off but data {q:x}'
        elif chk and (q ^ chk[1]) & chk[2]:
            st['err'] = f'cycle {i}: read of word {chk[0]} returned {q:x}, last written {chk[1]:x} (mask {chk[2]:x})'
        if st['err']: break
        chk = None
        if val and not wr:
            chk = (a, mem[a], known[a]); st['reads'] += 1
        elif val:
            mem[a] = mem[a] & ~be | d & be; known[a] |= be; st['writes'] += 1; st['partial'] += be != full
        else: st['idle'] += 1
        m.sim_tick()
    return st


if sys.argv[1] == 'sim':
    for it in sys.argv[4:]:
        k, nb, nw = it.split(':')
        try:
            o = sim(k, int(nb), int(nw), int(sys.argv[2]), int(sys.argv[3]))
        except Exception as e:
            o = {'err': f'{type(e).__name__}: {e}'[:400]}
        print(json.dumps({'item': it, **o}), flush=True)
else:
    os.chdir(sys.argv[2])
    for it in sys.argv[3:]:
        nb, nw = it.split(':')
        name = f'S_{nb}_{nw}'
        try:
            m = SramPRTL(int(nb), int(nw))
            m.set_metadata(VerilogTranslationPass.enable, True)
            m.set_metadata(VerilogTranslationPass.explicit_file_name, name)
            m.set_metadata(VerilogTranslationPass.explicit_module_name, name)
            m.elaborate()
            m.apply(VerilogTranslationPass())
            o = {'err': ''}
        except Exception as e:
            o = {'err': f'{type(e).__name__}: {e}'[:400]}
        print(json.dumps({'item': it, **o}), flush=True)
