"""Function-by-function verification: generate and discharge obligations."""
import ast, time, traceback, subprocess, tempfile, os
import z3
from .prog import Program, Unsupported
from .vals import *
from .vals import And, Or, Not, Implies, If
from .ev import Ex, St, Restart, Oblig
from .shape import reshaped

class Result:
    def __init__(s, qual, prop):
        s.qual, s.prop = qual, prop
        s.obligs = []          # (name, kind, status, backend, time, why)
        s.failed = []
        s.error = None         # unsupported construct
        s.used, s.inlined = set(), set()
        s.time = 0.0; s.queries = 0
        s.trivial = 0
        s.vacuous = False
        s.models = []
        s.unproved_soft = 0
        s.lemmas = []
        s.reshaped = None      # the annotations of loops belong to another text (shape.py)

def param_env(ex, fi, con, st):
    a = fi.node.args
    env = {}
    for i, p in enumerate(a.args + a.kwonlyargs):
        if i == 0 and fi.cls is not None and p.arg == 'self':
            t = ('obj', fi.cls.name)
        else:
            t = con.param_type(ex.prog, p, fi.mod)
            if t is None: raise Unsupported(f'untyped parameter {p.arg} of {fi.qual}')
        v = ex.fresh_val('p.' + p.arg, t)
        env[p.arg] = v
        ex.refs_allocated(st, v)
        for r in ex.refs_in(v): ex.births[r.get_id()] = (0, 0, r)
    return env

def gen(prog, specs, qual, prop, site_types, opts, pool=False):
    fi = prog.func(qual)
    con = specs.contracts[qual]
    ex = Ex(prog, specs, fi, con.strmode or 'abs', prop, dict(con.opts, **(opts or {})))
    ex.site_types = site_types
    ex.pool_mode = pool
    ex.allow_implicit = set(con.allow) | {x for x, _ in con.raises}
    st = St(alloc=ex.alloc0)
    st.pc.append(ex.alloc0 >= 1)
    env = param_env(ex, fi, con, st)
    st.vars = dict(env)
    for k in con.calls:
        c = 'called:' + k
        ex.comp_sorts[c] = B; st.heap[c] = ex.init[c] = z3.BoolVal(False)
    entry = st.copy()
    st.old = entry
    for nm, tree in con.req(prop):
        st.pc.append(ex.spec_bool(tree, st, fi))
    prepc = list(st.pc)
    for nm, c in con.facts:
        if c.relevant(prop): st.pc.append(ex.spec_bool(c.tree, st, fi)); ex.lemmas_used.add(nm)
    ex.reveal = con.opts.get('reveal', ())
    ex.cutbase = prepc; ex.rootmods = ex.mod_comps(con, fi, entry, env)
    ex.freemods = {c for c, o in ex.mod_comps(con, fi, entry, env).items() if o[1] is None and '[' not in c}
    ex.callstack.append(fi)
    outs = ex.block(fi.node.body, st)
    ex.callstack.pop()
    entry_env = dict(env)
    rets = []
    for k, q, v in outs:
        if k in ('normal', 'return'):
            rets.append((q, v if k == 'return' else VNone()))
        elif k == 'raise':
            conds = [c for e, c in con.raises if e in (v.name, 'Exception') or v.name == '*']
            if any(c is None for c in conds): continue
            e = entry.copy(); e.pc = q.pc
            goal = Or(*[ex.spec_bool(c.tree, e, fi) for c in conds if c.relevant(prop)])
            if any(not c.relevant(prop) for c in conds): continue
            ex.oblige(q, goal, 'raises', f'{qual}: {v.name} escapes only when ' + (' or '.join(c.text for c in conds) or 'never'))
    for k in con.calls:
        if k not in ex.watched and not any("called('" + k + "')" in c.text for c in con.ensures): raise Unsupported(f'no call of {k} seen in {qual}')
    if len(rets) > opts.get('maxrets', 8) if opts else len(rets) > 8:
        for q, v in rets: q.vars['$ret'] = v
        m = ex.merge_all([q for q, _ in rets])
        v = m.vars['$ret']
        rets = [(m, v)]
    rt = con.rettype or (prog.parse_type(fi.node.returns, fi.mod) if fi.node.returns is not None else ('none',))
    reach = []
    for n, (q, v) in enumerate(rets):
        tag = f' [return {n + 1}/{len(rets)}]' if len(rets) > 1 else ''
        q.vars = dict(entry_env)
        if isinstance(v, VMaybe): v = v.v
        if rt[0] != 'none' and not isinstance(v, (VRef, VConst, VFun)):
            v = ex.pack(rt, ex.unpack(v, rt))
        elif isinstance(v, VRef): ex.unify(v.t, rt[1] if rt[0] == 'opt' else rt)
        q.vars['result'] = v
        q.old = entry; q.pre = None
        reach.append(list(q.pc))
        for nm, tree in con.ens(prop):
            ex.oblige(q, ex.spec_bool(tree, q, fi), 'ensures', f'{qual}: postcondition: {nm}{tag}')
        if not con.opts.get('opaque'): frame(ex, con, fi, q, entry, env, v, qual, tag)
    return ex, prepc, reach

def frame(ex, con, fi, q, entry, env, rv, qual, tag):
    pre = entry.copy(); pre.vars = dict(env)
    mods = ex.mod_comps(con, fi, pre, env)
    newalloc = con.allocs or any(o[2] or ex.comp_is_ref(c) for c, o in mods.items())
    if not newalloc and isinstance(rv, VRef) and not q.alloc.eq(ex.alloc0):
        ex.oblige(q, rv.e < ex.alloc0, 'frame', f'{qual}: result is not freshly allocated{tag}')
    for comp, a in sorted(q.heap.items()):
        so = ex.comp_sorts[comp]
        b = ex.init.get(comp)
        if b is None or a.eq(b): continue
        so_, refs, newok = mods.get(comp, (so, [], False))
        if refs is None: continue
        x = strip_stores(ex, a, b, refs)
        if x is True: continue
        r = ex.fresh('fr', I)
        guard = [r != z for z in refs] + [0 < r, r < ex.alloc0]     # what happens to objects of its own is not visible
        goal = Implies(And(*guard), z3.Select(a, r) == z3.Select(b, r))
        ex.oblige(q, goal, 'frame', f'{qual}: {comp} unchanged outside modifies{tag}')

def strip_stores(ex, a, b, refs):
    while z3.is_store(a) and any(a.arg(1).eq(r) for r in refs): a = a.arg(0)
    return True if a.eq(b) else a

def verify(prog, specs, qual, prop, opts=None, timeout=8000, pool=False, log=None, deadline=None, rounds=0, t0=None):
    res = Result(qual, prop)
    t0 = t0 or time.time()
    site_types = {}
    opts = dict(opts or {})
    dropped = opts.get('dropped', frozenset())
    try:
        if prog.func(qual) is None: raise Unsupported('function not found: ' + qual)
        for attempt in range(60):
            try:
                ex, prepc, reach = gen(prog, specs, qual, prop, site_types, opts, pool)
                break
            except Restart: continue
        else: raise Unsupported('type inference of container literals did not settle')
    except Unsupported as e:
        res.error = str(e); res.time = time.time() - t0
        if opts.get('debug'): traceback.print_exc()
        return res
    except (z3.Z3Exception, RecursionError, KeyError, AttributeError, AssertionError, TypeError, IndexError, ValueError) as e:
        res.error = f'{type(e).__name__}: {e}'; res.time = time.time() - t0
        if opts.get('debug'): traceback.print_exc()
        return res
    res.used, res.inlined = ex.used_contracts, ex.inlined
    res.reshaped = reshaped(prog, specs.contracts[qual], ex.inlined)
    res.trivial = getattr(ex, 'trivial', 0)
    # vacuity guards
    r, _ = ex.solve(prepc, z3.BoolVal(False), 1000)
    if r == 'unsat': res.vacuous = True
    if reach:
        if all(ex.solve(pc, z3.BoolVal(False), 700)[0] == 'unsat' for pc in reach): res.vacuous = True
    outs = discharge_all(ex, timeout, opts, (t0 + deadline) if deadline else None)
    # ghost assertions that do not hold where they stand are dropped there (a later one, or a postcondition, fails if they are needed)
    lost = {o.key for o, out in zip(ex.obligs, outs) if o.kind == 'lemma' and out is not None and not out[0]} - set(dropped)
    if lost and rounds < 6 and not (deadline and time.time() - t0 > deadline * .6):
        o2 = dict(opts); o2['dropped'] = dropped | lost
        r2 = verify(prog, specs, qual, prop, o2, timeout, pool, log, deadline, rounds + 1, t0)
        return r2
    for o, out in zip(ex.obligs, outs):
        if out is None: res.error = f'time budget of {deadline}s used up'; break
        ok, be, why, model, o.t = out
        res.obligs.append((o.name, o.kind, 'proved' if ok else 'failed', be, o.t, why))
        if not ok:
            res.failed.append((o.name, o.kind, o.line, why))
            res.models.append(model)
        if log: log(f"  {'ok ' if ok else 'FAIL'} {o.t:5.1f}s {be} {o.kind}: {o.name}")
    res.dropped = sorted(map(str, dropped))
    if res.failed and dropped:
        n, k, l, w = res.failed[0]
        res.failed[0] = (n, k, l, w + ' | no longer established: ' + '; '.join(f'after {a}: {b}' for a, b in sorted(dropped))[:1500])
    res.time = time.time() - t0
    res.queries = ex.queries
    res.solver_time = ex.solver_time
    res.assumed = sorted(ex.assumed)
    res.lemmas = sorted(ex.lemmas_used)
    res.ex = ex
    return res

def discharge_all(ex, timeout, opts, until):
    """-> list of (proved, back end, why, model, seconds) or None (no time left); large sets are split over forked processes"""
    obs = ex.obligs
    def run(o):
        if until and time.time() > until: return None
        t = time.time()
        r = discharge(ex, o, timeout if o.kind != 'lemma' else min(timeout, 5000), opts)
        return r + (time.time() - t,)
    k = int(opts.get('forks', 6))
    if opts.get('stop'):        # developer tools: enough to know that something fails
        out = []
        for o in obs:
            out.append(run(o))
            if out[-1] is not None and not out[-1][0]: break
        return out + [(True, 'skipped', '', None, 0.0)] * (len(obs) - len(out))
    if len(obs) < 200 or k < 2: return [run(o) for o in obs]
    import pickle
    out = [None] * len(obs)
    kids = []
    for w in range(k):
        r, fd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                ex.solver_time = 0.0; ex.queries = 0
                got = []
                for n in range(w, len(obs), k):
                    x = run(obs[n])
                    if x is not None: x = x[:3] + (str(x[3])[:4000] if x[3] is not None else None, x[4])
                    got.append((n, x))
                with os.fdopen(fd, 'wb') as f: pickle.dump((got, ex.solver_time, ex.queries), f)
            except BaseException: pass
            finally: os._exit(0)
        os.close(fd); kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f: data = f.read()
        os.waitpid(pid, 0)
        if not data: continue
        got, st, q = pickle.loads(data)
        ex.solver_time += st; ex.queries += q
        for n, x in got: out[n] = x
    return out

def discharge(ex, o, timeout, opts):
    why = ''
    short, mid = min(1000, timeout), min(3000, timeout)
    for seed, to in ((0, short), (-41, short), (7, short), (-23, short), (-37, short), ('c', 2 * short), (-11, mid), (-6, mid), (8, mid), (0, timeout), (7, timeout), ('c', timeout)):
        if seed == 'c':
            if opts.get('nocvc5'): continue
            r = cvc5(ex, o, to)
            if r == 'unsat': return True, 'cvc5', '', None
            why += f' cvc5 {to}ms: {r}'
            continue
        r, m = ex.solve(o.pc, o.goal, to, want_model=True, seed=seed)
        if r == 'unsat': return True, 'z3', '', None
        why += f' z3 {to}ms: {r}'
        if r == 'sat': break
    return False, 'z3', why.strip(), m

def cvc5(ex, o, timeout):
    try:
        sv = z3.Solver()
        for a in ex.strth.axioms() + ex.axioms: sv.add(a)
        for a in o.pc: sv.add(a)
        sv.add(z3.Not(o.goal))
        txt = sv.to_smt2()
        if len(txt) > 3_000_000: return 'too large'
        txt = '(set-logic ALL)\n' + txt
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
        try:
            p = subprocess.run(['cvc5', f'--tlimit={timeout}', '--strings-exp', f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
            out = p.stdout.strip().split('\n')[0] if p.stdout else 'error'
            if os.environ.get('CVCDBG'): print(p.stdout[:500], p.stderr[:500]); open('/tmp/cvc.smt2', 'w').write(txt)
            return out if out in ('sat', 'unsat', 'unknown') else 'error'
        finally: os.unlink(f.name)
    except Exception as e:
        return 'error'
