"""developer tool: verify contracts in parallel:  pv.py [PATTERN..]  (every function for every one of its properties)"""
import sys, os, time
sys.path.insert(0, '/verif')
from multiprocessing import Pool
from pyverify.prog import Program
from pyverify.specs import Specs
from pyverify.verify import verify
prog = Program(os.environ.get('SRC', '/repo/src'))
sp = Specs().load_dir('/verif/contracts').link(prog)
def job(a):
    q, p = a
    try: r = verify(prog, sp, q, p, {}, timeout=int(os.environ.get('TO', 8000)))
    except Exception as e: return f'{p} {q}: EXC {type(e).__name__} {e}', 1, 0
    st = 'ERR ' + r.error if r.error else ('VACUOUS' if r.vacuous else ('OK' if not r.failed else 'FAILED'))
    out = f'{p} {q}: {st} {len(r.obligs)} {r.time:.1f}s'
    for n, k, l, w in r.failed: out += f'\n    FAIL {k} line {l} {n} | {w}'
    return out, st != 'OK', r.time
if __name__ == '__main__':
    pats = [a for a in sys.argv[1:] if not (len(a) == 3 and a[0] == 'C')]; props = [a for a in sys.argv[1:] if a not in pats]
    jobs = [(q, p) for q, c in sp.contracts.items() for p in (props if props and any(x in ('ALL',) for x in pats) else ((c.props or []) if not props else [p for p in c.props or [] if p in props])) if not pats or 'ALL' in pats or any(x in q for x in pats)]
    t = time.time(); bad = 0; cpu = 0
    with Pool(8) as pool:
        for o, b, c in pool.imap_unordered(job, jobs, chunksize=1):
            bad += b; cpu += c
            if b or len(jobs) < 40: print(o, flush=True)
    print(f'{len(jobs)} jobs, {bad} bad, wall {time.time()-t:.0f}s cpu {cpu:.0f}s')
