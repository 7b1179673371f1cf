"""Build per-configuration monitored simulators from /repo's working tree."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
VL = None
NPROC = os.cpu_count() or 4


def vroot():
    global VL
    if VL is None:
        VL = '/usr/share/verilator/include'
        try:
            for l in subprocess.run(['verilator', '--getenv', 'VERILATOR_ROOT'], capture_output=True, text=True).stdout.split():
                if os.path.isdir(l + '/include'): VL = l + '/include'
        except Exception:
            pass
    return VL


def env():
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONWARNINGS'] = 'ignore'
    return e


def run(cmd, cwd, timeout=600, log=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env())
    return p.returncode, p.stdout


def fast_arrays(text):
    """The SRAM model copies its whole array every cycle with an element loop of delayed assignments, which Verilator can only
    unroll. In a module whose single always_ff block does nothing else with that array, the same loop with plain assignments
    means the same and stays a loop."""
    out = []
    for mod in re.split(r'(?<=\nendmodule)', text):
        ff = re.findall(r'always_ff.*?(?=\n  (?:always|assign|//)|\nendmodule|\Z)', mod, re.S)
        if len(ff) == 1:
            new = ff[0]
            for m in re.finditer(r"(for \( int unsigned (\w+) = [^\n]*\n\s*(\w+)\[\d+'\(\2\)\]) <= (\w+\[\d+'\(\2\)\];)", ff[0]):
                a, b = m[3], m[4].split('[')[0]
                others = mod.replace(ff[0], '')
                if a != b and len(re.findall(rf'\b{a}\b', ff[0])) == 1 and not re.search(rf'assign[^;]*\b{a}\b|\.\w+\([^)]*\b{a}\b', others):
                    new = new.replace(m[0], m[1] + ' = ' + m[4])
            mod = mod.replace(ff[0], new)
        out.append(mod)
    return ''.join(out)


class Build:
    """Scratch directory holding translated Verilog and compiled simulators."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='pmem_')
        self.pool = ThreadPoolExecutor(max_workers=NPROC)
        self.base = None
        self.errors = {}

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    def start_base(self):
        if self.base is None:
            d = self.dir
            R = vroot()
            jobs = [['g++', '-O2', '-std=c++17', '-w', '-fPIC', '-c', VERIF + '/engine/engine.cpp', '-o', 'engine.o'],
                    ['g++', '-O2', '-std=c++17', '-w', '-I' + R, '-c', R + '/verilated.cpp', '-o', 'verilated.o'],
                    ['g++', '-O2', '-std=c++17', '-w', '-I' + R, '-c', R + '/verilated_threads.cpp', '-o', 'vthreads.o']]
            self.base = [self.pool.submit(run, j, d) for j in jobs]

    def wait_base(self):
        for f in self.base:
            rc, o = f.result()
            if rc: raise RuntimeError('harness build failed: ' + o[-2000:])

    def engine_so(self):
        self.start_base()
        self.wait_base()
        so = self.dir + '/engine.so'
        if not os.path.exists(so):
            rc, o = run(['g++', '-shared', 'engine.o', '-o', 'engine.so'], self.dir)
            if rc: raise RuntimeError(o)
        return so

    def translate(self, cfgs, apart=False):
        """cfgs -> {cfg: verilog path or None}; errors in self.errors; apart: one process for each"""
        res = {}
        n = min(NPROC, max(1, (len(cfgs) + 1) // 2))
        shards = [[c] for c in cfgs] if apart else [cfgs[i::n] for i in range(n)]

        def one(sh):
            r = {}
            try:
                p = subprocess.run([VENV, '-W', 'ignore', VERIF + '/lib/pm_translate.py', self.dir] + sh, cwd=self.dir,
                                   capture_output=True, text=True, timeout=300, env=env())
                for l in p.stdout.splitlines():
                    if l.startswith('{'):
                        j = json.loads(l)
                        r[j['cfg']] = (j['ok'], j['err'])
                for c in sh:
                    r.setdefault(c, (False, (p.stderr or 'translator produced no result')[-600:]))
            except subprocess.TimeoutExpired:
                for c in sh: r[c] = (False, 'timeout')
            return r
        for r in ThreadPoolExecutor(n).map(one, [s for s in shards if s]):
            for c, (ok, err) in r.items():
                res[c] = self.dir + '/C_' + c.replace(',', '_') + '.v' if ok else None
                if not ok: self.errors[c] = 'translate: ' + str(err)
        return res

    def verilate(self, vfile, top, exe, opt='-O2'):
        """Verilator model of `top` from vfile linked with the engine; returns exe path or None."""
        d = self.dir
        o = f'{d}/o_{exe}'
        os.makedirs(o, exist_ok=True)
        vl = ['verilator', '--cc', '-O3', '--x-assign', 'unique', '--x-initial', 'unique', '-Wno-fatal', '-Wno-lint', '-Wno-style']
        tail = ['--top-module', top, '--prefix', 'V' + top, '--Mdir', o]
        fast = fast_arrays(open(vfile).read())
        open(o + '/fast.v', 'w').write(fast)
        rc, out = run(vl + tail + [o + '/fast.v'], d)
        if rc: rc, out = run(vl + ['--unroll-count', '1000000', '--unroll-stmts', '1000000'] + tail + [vfile], d)
        if rc:
            self.errors[exe] = 'verilator: ' + out[-800:]
            return None
        with open(o + '/all.cpp', 'w') as f:
            for x in sorted(os.listdir(o)):
                if x.startswith('V' + top) and x.endswith('.cpp'): f.write(open(f'{o}/{x}').read() + '\n')
        R = vroot()
        flags = [opt, '-std=c++17', '-w', '-I' + R, '-I.', '-I' + VERIF + '/engine', f'-DHDR="V{top}.h"', f'-DMODEL=V{top}']
        rc, out = run(['g++'] + flags + [VERIF + '/engine/vglue.cpp', 'all.cpp', '-c'], o)
        if rc:
            self.errors[exe] = 'c++: ' + out[-800:]
            return None
        self.wait_base()
        rc, out = run(['g++', 'vglue.o', 'all.o', d + '/engine.o', d + '/verilated.o', d + '/vthreads.o', '-o', f'{d}/{exe}', '-lpthread'], o)
        shutil.rmtree(o, ignore_errors=True)
        if rc:
            self.errors[exe] = 'link: ' + out[-800:]
            return None
        return f'{d}/{exe}'

    def build(self, cfgs, apart=False):
        """{cfg: exe} for every configuration that builds"""
        cfgs = list(dict.fromkeys(cfgs))
        self.start_base()
        tr = self.translate(cfgs, apart)
        fs = {}
        for c in sorted(cfgs, key=lambda c: -int(c.split(',')[4])):
            if tr.get(c):
                n = 'C_' + c.replace(',', '_')
                fs[c] = self.pool.submit(self.verilate, tr[c], n, 'sim_' + n)
        res = {}
        for c, f in fs.items():
            try:
                e = f.result()
                if e: res[c] = e
            except Exception as ex:
                self.errors[c] = repr(ex)[-400:]
        return res
