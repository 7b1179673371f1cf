"""Check the message types built by the generator in /repo against the documented layout.   usage: w_msg.py SEED N"""
import json, os, random, sys, warnings
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from pymtl3 import *
from mem_ifcs import MemMsg as MM
from mem_ifcs.MemMsg import mk_mem_msg, mk_mem_req_msg, mk_mem_resp_msg, MemMsgType

NAMES = ['READ', 'WRITE', 'WRITE_INIT', 'AMO_ADD', 'AMO_AND', 'AMO_OR', 'AMO_SWAP', 'AMO_MIN', 'AMO_MINU', 'AMO_MAX', 'AMO_MAXU', 'AMO_XOR', 'LR', 'SC', 'INV', 'FLUSH']
STR = 'rd wr in ad an or sw mi mu mx xu xo lr sc iv fl'.split()
r = random.Random(int(sys.argv[1]) * 31 + 5)
N = int(sys.argv[2])
out = {'types': 0, 'messages': 0, 'strings': 0, 'distinct': 0, 'bad': [], 'samples': []}


def clog2_(n): return (n - 1).bit_length()


def bad(mon, msg):
    if len(out['bad']) < 12: out['bad'].append({'mon': mon, 'msg': msg})


def hx(v, w): return '%0*x' % ((w + 3) // 4, v)


def enc():
    for i, n in enumerate(NAMES):
        if getattr(MemMsgType, n, None) != i: bad('encoding', f'MemMsgType.{n} is {getattr(MemMsgType, n, None)}, documented {i}')
        c = getattr(MM, 'MemMsgType_' + n, None)
        if c is None or int(c) != i: bad('encoding', f'MemMsgType_{n} is {c}, documented {i}')
        if getattr(MemMsgType, 'str', {}).get(i) != STR[i]: bad('encoding', f'MemMsgType.str has {MemMsgType.str.get(i)} for {n}, documented {STR[i]}')


def one(obw, abw, dbw, mask, full=False):
    Q, S = mk_mem_msg(obw, abw, dbw, has_wr_mask=mask)
    if r.random() < .3: Q = mk_mem_req_msg(obw, abw, dbw, mask)
    if r.random() < .3: S = mk_mem_resp_msg(obw, dbw, mask)
    out['types'] += 2
    lw, mw = clog2_(dbw >> 3), dbw >> 5
    fq = [('type_', 4), ('opaque', obw), ('addr', abw), ('len', lw)] + ([('wr_mask', mw)] if mask else []) + [('data', dbw)]
    fs = [('type_', 4), ('opaque', obw), ('test', 2), ('len', lw)] + ([('wr_mask', mw)] if mask else []) + [('data', dbw)]
    for T, f, blank, nm in ((Q, fq, 0, 'request'), (S, fs, 1, 'response')):
        tag = f'{nm}({obw},{abw},{dbw},mask={mask})'
        tot = sum(w for _, w in f)
        if T.nbits != tot: bad('width', f'{tag} is {T.nbits} bits, documented fields total {tot}')
        for n, w in f:
            if T.get_field_type(n).nbits != w: bad('width', f'{tag}.{n} is {T.get_field_type(n).nbits} bits, documented {w}')
        dn = getattr(T, 'data_nbits', None if nm == 'request' else dbw)
        if dn != dbw: bad('width', f'{tag}.data_nbits is {dn}')
        if names.setdefault(T.__name__, f) != f: bad('name_clash', f'{tag} is named {T.__name__}, like the different format {names[T.__name__]}')
        z = T()
        if int(z.to_bits()) or any(int(getattr(z, n)) for n, _ in f): bad('field', f'{tag} default message is not all zeros: {z}')
        for k in range(4 if not full else 20 + 2 * len(f)):
            v = [r.getrandbits(w) if r.random() < .8 else r.choice([0, 1, 1 << w - 1, (1 << w) - 1]) for _, w in f]
            if k == 0: v[0] = r.choice([0, 1])
            if full and k >= 20:  # one field all ones or all zeros, the others the opposite
                v = [((1 << w) - 1) * ((i == k // 2 - 10) ^ (k & 1)) for i, (_, w) in enumerate(f)]
            elif full and k >= 4: v[0] = k - 4
            m = T(*v)
            c = m.clone()
            if c is m or not c == m: bad('field', f'{tag} clone differs')
            out['messages'] += 1
            for (n, w), x in zip(f, v):
                if int(getattr(m, n)) != x: bad('field', f'{tag}.{n} reads {int(getattr(m, n)):x} after construction with {x:x}')
            p = 0
            for (n, w), x in zip(f, v): p = p << w | x
            b = m.to_bits()
            if b.nbits != tot or int(b) != p: bad('pack', f'{tag} {v} packs to {int(b):x}, documented order gives {p:x}')
            if T.from_bits(mk_bits(tot)(p)) != m: bad('unpack', f'{tag} does not unpack its own packed form {p:x}')
            s = str(m)
            want = [STR[v[0]]] + [hx(x, w) for (n, w), x in zip(f[1:], v[1:])]
            if v[0] == blank: want[-1] = ' ' * (dbw // 4)
            out['strings'] += 1
            if s != ':'.join(want): bad('string', f'{tag} {v} prints "{s}", expected "{":".join(want)}"')
            i = r.randrange(len(f))
            y = r.getrandbits(f[i][1])
            setattr(m, f[i][0], mk_bits(f[i][1])(y))
            v2 = v[:]; v2[i] = y
            if [int(getattr(c, n)) for n, _ in f] != v or (y != v[i]) != (m != c): bad('field', f'{tag}: writing {f[i][0]} changed a copy, or equality ignores it')
            if [int(getattr(m, n)) for n, _ in f] != v2: bad('field', f'{tag}: writing {f[i][0]} changed another field')
            if len(out['samples']) < 3: out['samples'].append(s)
    seen.add((obw, abw, dbw, mask))


seen, names = set(), {}
try:
    enc()
    J = int(sys.argv[1]) % 8
    for i, (d, o, k) in enumerate((d, o, k) for d in (32, 64, 96, 128, 256, 512, 768) for o in (1, 2, 3, 4, 7, 8, 9, 12, 16, 31, 32) for k in (False, True)):
        if i % 8 == J: one(o, r.choice([8, 20, 32, 32, 40, 64]), d, k, True)
    for i in range(N):
        one(r.randint(1, 32), r.randint(4, 64), r.choice([32, 40, 64, 64, 128, 256, 512, 8 * r.randint(4, 64)]), r.random() < .5)
except Exception as e:
    import traceback
    bad('exception', f'{type(e).__name__}: {e} {traceback.format_exc()[-300:]}')
out['distinct'] = len(seen)
print(json.dumps(out))
