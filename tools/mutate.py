"""developer tool: mutants of the functions under contract, each run through the contracts of its function (all clauses)
   mutate.py OUT.jsonl PER_FUNCTION SEED [PATTERN..]   (mutants live in a scratch directory that is removed)"""
import sys, os, ast, copy, json, random, shutil, tempfile, time
sys.path.insert(0, '/verif')
from multiprocessing import Pool
from pyverify.prog import Program
from pyverify.specs import Specs
from pyverify.verify import verify
SRC = '/repo/src'
KEYS = {}
def keyname(n): return isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)
def sites(fn):
    """(node, description, edit) of every mutation of the function"""
    keys = sorted({n.slice.value for n in ast.walk(fn) if keyname(n)})
    names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)})
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Call,)) and ast.unparse(n.func).startswith('logging.'): skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.JoinedStr, ast.Raise, ast.AnnAssign)) :
            skip |= {id(x) for x in ast.walk(n if not isinstance(n, ast.AnnAssign) else n.annotation)}
    out = []
    for n in ast.walk(fn):
        if id(n) in skip: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = n.ops[0]
            for a, b in ((ast.Lt, ast.LtE), (ast.LtE, ast.Lt), (ast.Gt, ast.GtE), (ast.GtE, ast.Gt), (ast.Eq, ast.NotEq), (ast.NotEq, ast.Eq), (ast.In, ast.NotIn), (ast.NotIn, ast.In), (ast.Is, ast.IsNot), (ast.IsNot, ast.Is)):
                if isinstance(o, a): out.append((n, f'{a.__name__}->{b.__name__}', lambda m, b=b: m.ops.__setitem__(0, b())))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1): out.append((n, f'{n.value}->{n.value + d}', lambda m, d=d: setattr(m, 'value', m.value + d)))
        elif isinstance(n, ast.Constant) and type(n.value) is bool: out.append((n, 'flip', lambda m: setattr(m, 'value', not m.value)))
        elif keyname(n):
            for k in keys:
                if k != n.slice.value: out.append((n, f'key {n.slice.value}->{k}', lambda m, k=k: setattr(m.slice, 'value', k)))
        elif isinstance(n, ast.BoolOp): out.append((n, 'and/or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And())))
        elif isinstance(n, ast.BinOp):
            for a, b in ((ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.FloorDiv, ast.Mod), (ast.Mod, ast.FloorDiv), (ast.Mult, ast.FloorDiv)):
                if isinstance(n.op, a): out.append((n, f'{a.__name__}->{b.__name__}', lambda m, b=b: setattr(m, 'op', b())))
        elif isinstance(n, ast.If): out.append((n, 'negate if', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test))))
        for f in ('body', 'orelse'):
            for i, x in enumerate(getattr(n, f, []) if isinstance(getattr(n, f, None), list) else []):
                if isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise)) and id(x) not in skip or isinstance(x, ast.Raise):
                    if isinstance(x, ast.Expr) and (isinstance(x.value, ast.Constant) or ast.unparse(x).startswith('logging.')): continue
                    out.append((n, 'drop: ' + ast.unparse(x)[:60], lambda m, f=f, i=i: getattr(m, f).__setitem__(i, ast.Pass())))
    return out
def make(prog, q, rnd, per):
    fi = prog.func(q)
    path = fi.mod.path
    tree = ast.parse(open(path).read())
    fn = next(n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.lineno == fi.node.lineno)
    ss = sites(fn)
    order = list(range(len(ss))); rnd.shuffle(order)
    out = []
    for i in order[:per]:
        t = ast.parse(open(path).read())
        f2 = next(n for n in ast.walk(t) if isinstance(n, ast.FunctionDef) and n.lineno == fi.node.lineno)
        n, d, ed = sites(f2)[i]
        ed(n)
        out.append((q, i, getattr(n, 'lineno', 0), d, os.path.relpath(path, SRC), ast.unparse(ast.fix_missing_locations(t))))
    return out
def job(a):
    q, i, line, d, rel, text = a
    tmp = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree(SRC + '/acetimetools', tmp + '/acetimetools', ignore=shutil.ignore_patterns('__pycache__'))
        with open(os.path.join(tmp, rel), 'w') as h: h.write(text)
        t = time.time()
        try:
            prog = Program(tmp)
            sp = Specs().load_dir('/verif/contracts').link(prog)
            r = verify(prog, sp, q, None, dict(stop=True, forks=1), timeout=3000, deadline=120)
            v = ('err', r.error) if r.error and not r.failed else ('fail', r.failed[0][2] and r.failed[0][0]) if r.failed else ('ok', '')
        except Exception as e: v = ('err', f'{type(e).__name__}: {e}')
        return dict(q=q, site=i, line=line, what=d, rel=rel, verdict=v[0], why=str(v[1])[:200], t=round(time.time() - t, 1), text=text if v[0] != 'fail' else None)
    finally: shutil.rmtree(tmp)
if __name__ == '__main__':
    outp, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    prog = Program(SRC); sp = Specs().load_dir('/verif/contracts').link(prog)
    rnd = random.Random(seed)
    ms = []
    for q, c in sp.contracts.items():
        if c.trusted or not c.props or prog.func(q) is None: continue
        if len(sys.argv) > 4 and not any(p in q for p in sys.argv[4:]): continue
        ms += make(prog, q, rnd, per)
    print(len(ms), 'mutants', flush=True)
    cnt = {}
    with Pool(int(os.environ.get('JOBS', 5))) as pool, open(outp, 'w') as h:
        for r in pool.imap_unordered(job, ms, chunksize=1):
            cnt[r['verdict']] = cnt.get(r['verdict'], 0) + 1
            h.write(json.dumps(r) + '\n'); h.flush()
            if r['verdict'] != 'fail': print(r['verdict'], r['q'].split(':')[1], 'line', r['line'], r['what'], r['why'][:100], flush=True)
    print(cnt)
