"""Run the workload/monitor engine on the cache as simulated by PyMTL3 itself.

usage: pysim.py ENGINE_SO engine-args...   (--cfg obw,abw,clw,dbw,nbytes,assoc is required)
       PYSIM_TRACE=1 also renders the line trace every cycle.
       PYSIM_DESIGN="i;cfg cfg ..." simulates a design of several caches and drives its cache i (of configuration --cfg).
"""
import ctypes as ct, os, sys, warnings
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
from pymtl3 import *
from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
from mem_ifcs.MemMsg import mk_mem_msg

so, args = sys.argv[1], sys.argv[2:]
cfg = args[args.index('--cfg') + 1]
obw, abw, clw, dbw, nb, asso = map(int, cfg.split(','))
DESIGN = os.environ.get('PYSIM_DESIGN')
if DESIGN:
    import w_het
    (CReq, CResp), (MReq, MResp), _, _ = w_het.msgs(cfg)
else:
    CReq, CResp = mk_mem_msg(obw, abw, dbw, has_wr_mask=False)
    MReq, MResp = mk_mem_msg(obw, abw, clw, has_wr_mask=True)
NW = 24
LT = os.environ.get('PYSIM_TRACE') == '1'


class In(ct.Structure):
    _fields_ = [(n, ct.c_uint8) for n in ('reset', 'req_en', 'resp_rdy', 'memreq_rdy', 'memresp_en')] + [('pad', ct.c_uint8 * 3),
                ('req', ct.c_uint32 * NW), ('memresp', ct.c_uint32 * NW)]


class Out(ct.Structure):
    _fields_ = [(n, ct.c_uint8) for n in ('req_rdy', 'resp_en', 'memreq_en', 'memresp_rdy')] + [('pad', ct.c_uint8 * 4),
                ('resp', ct.c_uint32 * NW), ('memreq', ct.c_uint32 * NW)]


CREATE = ct.CFUNCTYPE(ct.c_void_p, ct.c_int, ct.c_uint64)
DESTROY = ct.CFUNCTYPE(None, ct.c_void_p)
EVAL = ct.CFUNCTYPE(None, ct.c_void_p, ct.POINTER(In), ct.POINTER(Out))
TICK = ct.CFUNCTYPE(None, ct.c_void_p, ct.POINTER(In))


class VT(ct.Structure):
    _fields_ = [('create', CREATE), ('destroy', DESTROY), ('eval', EVAL), ('tick', TICK)]


def nbits(T): return T.nbits


WQ, WR, WMQ, WMR = CReq.nbits, CResp.nbits, MReq.nbits, MResp.nbits
BReq, BMResp = mk_bits(WQ), mk_bits(WMR)
duts = {}
ctr = [1]
errs = []


def toint(a, n):
    return int.from_bytes(bytes(a), 'little') & ((1 << n) - 1)


def put(a, v):
    ct.memmove(a, v.to_bytes(4 * NW, 'little'), 4 * NW)


class Dut:
    def __init__(s):
        if DESIGN:
            i, cfgs = DESIGN.split(';')
            m = s.m = w_het.SeveralCaches(cfgs.split())
        else:
            m = s.m = BlockingCacheRTL(CReq, CResp, MReq, MResp, nb, asso)
        m.elaborate()
        m.apply(DefaultPassGroup())
        s.mi, s.ma = (getattr(m, 'mi' + i), getattr(m, 'ma' + i)) if DESIGN else (m.mem_minion_ifc, m.mem_master_ifc)
        s.req = s.mresp = None


def guard(f):
    def g(*a):
        try:
            return f(*a)
        except BaseException as e:
            if not errs: errs.append(f'{type(e).__name__}: {e}')
            return None
    return g


@guard
def create(core, seed):
    h = ctr[0]; ctr[0] += 1
    duts[h] = Dut()
    return h


@guard
def destroy(h):
    duts.pop(h, None)


@guard
def ev(h, pi, po):
    d = duts[h]; m = d.m; i = pi.contents; o = po.contents
    q = toint(i.req, WQ); r = toint(i.memresp, WMR)
    m.reset @= i.reset
    d.mi.req.en @= i.req_en
    d.mi.resp.rdy @= i.resp_rdy
    d.ma.req.rdy @= i.memreq_rdy
    d.ma.resp.en @= i.memresp_en
    if q != d.req:
        d.mi.req.msg @= CReq.from_bits(BReq(q)); d.req = q
    if r != d.mresp:
        d.ma.resp.msg @= MResp.from_bits(BMResp(r)); d.mresp = r
    m.sim_eval_combinational()
    o.req_rdy = int(d.mi.req.rdy); o.resp_en = int(d.mi.resp.en)
    o.memreq_en = int(d.ma.req.en); o.memresp_rdy = int(d.ma.resp.rdy)
    put(o.resp, int(d.mi.resp.msg.to_bits())); put(o.memreq, int(d.ma.req.msg.to_bits()))


@guard
def tick(h, pi):
    d = duts[h]
    if LT: d.m.line_trace()
    d.m.sim_tick()


lib = ct.CDLL(so)
lib.engine_run.restype = ct.c_void_p
vt = VT(CREATE(create), DESTROY(destroy), EVAL(ev), TICK(tick))
arr = (ct.c_char_p * len(args))(*[a.encode() for a in args])
p = lib.engine_run(len(args), arr, ct.byref(vt))
s = ct.string_at(p).decode()
if errs:
    s = s[:-1] + ',"pyerr":' + __import__('json').dumps(errs[0]) + '}'
print(s)
