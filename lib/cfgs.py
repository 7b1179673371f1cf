"""Cache configurations: "obw,abw,clw,dbw,nbytes,assoc"."""
import random

QUICK = ['8,32,128,32,64,2', '8,32,128,32,32,1', '8,32,64,64,64,2', '8,32,256,64,256,2', '4,24,256,256,128,1', '8,32,512,32,256,2',
         '1,20,128,64,128,1', '16,64,128,128,256,2', '8,32,128,32,4096,2', '8,32,128,32,16384,2']
MORE = ['8,32,64,32,64,1', '8,32,512,512,256,2', '8,8,64,32,16,1', '8,32,128,32,4096,1', '32,40,512,128,1024,1', '8,32,128,32,65536,1',
        '8,32,256,32,512,1', '8,32,128,32,1024,2']


def clog2(n): return (n - 1).bit_length()


def rand_cfg(r):
    clw = r.choice([64, 128, 128, 256, 512])
    dbw = r.choice([d for d in (32, 32, 64, 128, 256, 512) if d <= clw])
    assoc = r.choice([1, 2, 2])
    nsets = r.choice([2, 2, 4, 8, 16, 32])
    nb = clw // 8 * assoc * nsets
    ob, ib = clog2(clw // 8), clog2(nsets)
    abw = r.choice([32, 32, r.randint(ob + ib + 3, 64)])
    obw = r.choice([8, r.randint(1, 32)])
    return f'{obw},{abw},{clw},{dbw},{nb},{assoc}'


def select(tier, seed):
    r = random.Random(seed * 1000 + 7)
    n = 3 if tier == 'quick' else 14
    base = QUICK + (MORE if tier == 'thorough' else [])
    out = list(base)
    while n:
        c = rand_cfg(r)
        if c not in out:
            out.append(c)
            n -= 1
    return out


def nlines(c):
    f = list(map(int, c.split(',')))
    return f[4] * 8 // f[2]


def est_ms(c, fam):
    """rough cost of one episode, to give every configuration and family its share of the time"""
    nl, clw = nlines(c), int(c.split(',')[2])
    f = {'multi': 3, 'tindep': 2.6, 'reset': 2.1, 'twin': 2}.get(fam, 1)
    if fam == 'multi' and nl > 64: f *= 4 if nl <= 512 else 10
    return {64: 15, 128: 30, 256: 45}.get(clw, 85) * f * (1 if nl <= 16 else 1.3 if nl <= 64 else 2.6 if nl <= 256 else 4 if nl <= 512 else 7)
