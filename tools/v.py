"""developer tool: verify functions:  v.py PROP func [func..]"""
import sys, os
sys.path.insert(0, '/verif')
from pyverify.prog import Program
from pyverify.specs import Specs
from pyverify.verify import verify
root = os.environ.get('SRC', '/repo/src')
prog = Program(root)
sp = Specs().load_dir('/verif/contracts').link(prog)
prop = sys.argv[1] if sys.argv[1] != '-' else None
names = sys.argv[2:] or list(sp.contracts)
for q in sp.contracts:
    if any(n == q or n in q for n in names):
        r = verify(prog, sp, q, prop, {'debug': 'DEBUG' in os.environ, 'hlog': 'HLOG' in os.environ}, timeout=int(os.environ.get('TO', 8000)), log=(print if 'LOG' in os.environ else None))
        st = 'ERR ' + r.error if r.error else ('VACUOUS' if r.vacuous else ('OK' if not r.failed else 'FAILED'))
        print(f'{q}: {st} obligs={len(r.obligs)} {r.time:.1f}s used={sorted(r.used)} inl={sorted(r.inlined)}', flush=True)
        for n, k, l, w in r.failed: print('    FAIL', k, f'line {l}', n, '|', w)
