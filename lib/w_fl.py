"""Feed recorded request streams to the functional model in /repo and compare its responses with the recorded ones.

usage: w_fl.py obw,abw,clw,dbw,nbytes,assoc LOGFILE     prints one JSON line
log:   E ep | M addr word | Q type opaque addr len data | R type opaque test len data   (hex except type, test, len)
"""
import json, os, sys, warnings
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from pymtl3 import *
from blocking_cache.BlockingCacheFL import ModelCache
from mem_ifcs.MemMsg import mk_mem_msg, MemMsgType as T

cfg, path = sys.argv[1:3]
obw, abw, clw, dbw, nb, asso = map(int, cfg.split(','))
C = mk_mem_msg(obw, abw, dbw, has_wr_mask=False)
M = mk_mem_msg(obw, abw, clw, has_wr_mask=True)
BA, BO, BL, BD = mk_bits(abw), mk_bits(obw), mk_bits(C[0].get_field_type('len').nbits), mk_bits(dbw)
out = {'episodes': 0, 'requests': 0, 'compared': 0, 'types': {}, 'hits': 0, 'distinct': 0, 'bad': []}
sigs = set()


def bad(ep, i, q, what):
    if len(out['bad']) < 20: out['bad'].append({'ep': ep, 'index': i, 'request': q, 'what': what})


def judge(ep, mem, qs, rs):
    if not qs: return
    out['episodes'] += 1
    try:
        m = ModelCache(nb, asso, 0, *C, *M, mem)
    except Exception as e:
        return bad(ep, -1, 'ModelCache()', f'{type(e).__name__}: {e}')
    prev = None
    for i, (q, r) in enumerate(zip(qs, rs)):
        t, o, a, l, d = int(q[0]), BO(int(q[1], 16)), BA(int(q[2], 16)), BL(int(q[3])), BD(int(q[4], 16))
        qt = ' '.join(q)
        out['requests'] += 1
        try:
            if t == T.READ: m.read(a, o, l)
            elif t == T.WRITE: m.write(a, d, o, l)
            elif T.AMO_ADD <= t <= T.AMO_XOR: m.amo(a, d, o, l, b4(t))
            elif t == T.INV: m.invalidate(o)
            elif t == T.FLUSH: m.flush(o)
            else: continue
            tr = m.get_transactions()
            if len(tr) != 2 * i + 2: return bad(ep, i, qt, f'the model has recorded {len(tr)} messages after {i + 1} requests, not a request and a response for each')
            x, y = tr[-1], tr[-2]
            if t in (T.INV, T.FLUSH): rec, giv = (int(y.type_), int(y.opaque)), (t, int(o))
            else: rec, giv = (int(y.type_), int(y.opaque), int(y.addr), int(y.len)), (t, int(o), int(a), int(l))
            k = 32 if T.AMO_ADD <= t <= T.AMO_XOR else 8 * (int(l) or dbw // 8)
            if t == T.WRITE or T.AMO_ADD <= t <= T.AMO_XOR: rec, giv = rec + (int(y.data) & ((1 << k) - 1),), giv + (int(d) & ((1 << k) - 1),)
            if rec != giv: return bad(ep, i, qt, f'the model records the request as type,opaque,addr,len,data = {["%x" % v for v in rec]}')
            got = (int(x.type_), int(x.opaque), int(x.test), int(x.len), int(x.data))
        except Exception as e:
            return bad(ep, i, qt, f'the functional model raised {type(e).__name__}: {e}')
        want = (int(r[0]), int(r[1], 16), int(r[2]), int(r[3]), int(r[4], 16))
        if t in (T.INV, T.FLUSH): got, want = got[:3] + (0,) + got[4:], want[:3] + (0,) + want[4:]
        out['compared'] += 1
        out['types'][str(t)] = out['types'].get(str(t), 0) + 1
        out['hits'] += want[2]
        sigs.add((t, l, want[2], prev, int(a) >> 31, int(a) & 63))
        prev = (t, want[2])
        if got != want:
            return bad(ep, i, qt, f'functional model answers type,opaque,test,len,data = {["%x" % v for v in got]}, the RTL {["%x" % v for v in want]}')


ep, mem, qs, rs = None, [], [], []
for ln in open(path):
    f = ln.split()
    if f[0] == 'E':
        judge(ep, mem, qs, rs)
        ep, mem, qs, rs = int(f[1]), [], [], []
    elif f[0] == 'M': mem += [int(f[1], 16), int(f[2], 16)]
    elif f[0] == 'Q': qs.append(f[1:])
    elif f[0] == 'R': rs.append(f[1:])
judge(ep, mem, qs, rs)
out['distinct'] = len(sigs)
print(json.dumps(out))
