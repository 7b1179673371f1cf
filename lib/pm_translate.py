"""Translate caches with the generator in /repo (run under /opt/venv/bin/python).

usage: pm_translate.py OUTDIR cfg [cfg ...]      cfg = obw,abw,clw,dbw,nbytes,assoc
Prints one JSON line per configuration: {"cfg":..., "ok":..., "err":...}
"""
import json, os, sys, traceback, warnings
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
out = sys.argv[1]
os.chdir(out)
from pymtl3 import *
from pymtl3.passes.backends.verilog import VerilogTranslationPass
from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
from mem_ifcs.MemMsg import mk_mem_msg

for c in sys.argv[2:]:
    obw, abw, clw, dbw, nb, asso = map(int, c.split(','))
    name = 'C_' + c.replace(',', '_')
    try:
        C = mk_mem_msg(obw, abw, dbw, has_wr_mask=False)
        M = mk_mem_msg(obw, abw, clw, has_wr_mask=True)
        m = BlockingCacheRTL(*C, *M, nb, asso)
        m.set_metadata(VerilogTranslationPass.enable, True)
        m.set_metadata(VerilogTranslationPass.explicit_file_name, name)
        m.set_metadata(VerilogTranslationPass.explicit_module_name, name)
        m.elaborate()
        m.apply(VerilogTranslationPass())
        ok, err = os.path.isfile(name + '.v'), 'no output file'
    except Exception as e:
        ok, err = False, f'{type(e).__name__}: {str(e).strip()[-400:]}'
    print(json.dumps({'cfg': c, 'ok': ok, 'err': None if ok else err}), flush=True)
