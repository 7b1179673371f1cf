"""One design holding several caches of different parameterisations.

usage: w_het.py OUTDIR NAME cfg cfg ...    translate it: NAME.v holds module NAME and, for cache i, a module NAME_i with the ports of that cache
Prints one JSON line.
"""
import functools, json, os, sys, warnings
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from pymtl3 import *
from pymtl3.stdlib.mem import MemMasterIfcRTL, MemMinionIfcRTL
from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
from mem_ifcs.MemMsg import mk_mem_msg


@functools.lru_cache(None)
def pair(obw, abw, w, mask): return mk_mem_msg(obw, abw, w, has_wr_mask=mask)


def msgs(cfg):
    obw, abw, clw, dbw, nb, asso = map(int, cfg.split(','))
    return pair(obw, abw, dbw, False), pair(obw, abw, clw, True), nb, asso


class SeveralCaches(Component):
    def construct(s, cfgs):
        for i, cfg in enumerate(cfgs):
            C, M, nb, asso = msgs(cfg)
            c = BlockingCacheRTL(*C, *M, nb, asso)
            mi, ma = MemMinionIfcRTL(*C), MemMasterIfcRTL(*M)
            setattr(s, f'cache{i}', c)
            setattr(s, f'mi{i}', mi)
            setattr(s, f'ma{i}', ma)
            c.mem_minion_ifc //= mi
            c.mem_master_ifc //= ma


def shim(name, cfgs, i):
    """Verilog module with the ports of cache i alone; the other caches of the design stay idle"""
    (Q, R), (MQ, MR), _, _ = msgs(cfgs[i])
    ports = [('input', 'mem_minion_ifc__req__en', 1), ('input', 'mem_minion_ifc__req__msg', Q.nbits), ('output', 'mem_minion_ifc__req__rdy', 1),
             ('output', 'mem_minion_ifc__resp__en', 1), ('output', 'mem_minion_ifc__resp__msg', R.nbits), ('input', 'mem_minion_ifc__resp__rdy', 1),
             ('output', 'mem_master_ifc__req__en', 1), ('output', 'mem_master_ifc__req__msg', MQ.nbits), ('input', 'mem_master_ifc__req__rdy', 1),
             ('input', 'mem_master_ifc__resp__en', 1), ('input', 'mem_master_ifc__resp__msg', MR.nbits), ('output', 'mem_master_ifc__resp__rdy', 1)]
    con = ['.clk(clk)', '.reset(reset)']
    for j in range(len(cfgs)):
        for d, p, _ in ports:
            t = p.replace('mem_minion_ifc', f'mi{j}').replace('mem_master_ifc', f'ma{j}')
            con.append(f'.{t}({p})' if i == j else f".{t}({'' if d == 'output' else chr(39) + ('1' if p.endswith('rdy') else '0')})")
    return f'\nmodule {name}_{i} (\n  input logic clk,\n  input logic reset,\n' + ',\n'.join(f'  {d} logic [{w - 1}:0] {p}' for d, p, w in ports) + f'\n);\n  {name} design_ (' + ',\n    '.join(con) + ');\nendmodule\n'


if __name__ == '__main__':
    from pymtl3.passes.backends.verilog import VerilogTranslationPass
    name, cfgs = sys.argv[2], sys.argv[3:]
    os.chdir(sys.argv[1])
    try:
        m = SeveralCaches(cfgs)
        m.set_metadata(VerilogTranslationPass.enable, True)
        m.set_metadata(VerilogTranslationPass.explicit_file_name, name)
        m.set_metadata(VerilogTranslationPass.explicit_module_name, name)
        m.elaborate()
        m.apply(VerilogTranslationPass())
        v = open(name + '.v').read()
        for i in range(len(cfgs)): open(f'{name}_{i}.v', 'w').write(v + shim(name, cfgs, i))
        o = {'err': '', 'modules': sum(l.startswith('module ') for l in v.splitlines())}
    except Exception as e:
        o = {'err': f'{type(e).__name__}: {str(e).strip()[-400:]}'}
    print(json.dumps(o))
