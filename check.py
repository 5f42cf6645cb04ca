"""Decides one property on /repo's current working tree.
   check.py PROPERTY            proof (contracts over the real sources), then the bounded search
   check.py --replay FILE       runs one reported input again
Exit 0: held on everything explored; exit 1: VIOLATION line on stdout."""
import json, os, re, sys, time, random, hashlib, traceback
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
SRC = os.environ.get('VERIF_SRC', '/repo/src')
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1
JOBS = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()
EVD = os.path.join(HERE, 'evidence')

# ---------------------------------------------------------------- proof part
_ctx = {}
def proof_init():
    from pyverify.prog import Program
    from pyverify.specs import Specs
    _ctx['prog'] = Program(SRC)
    _ctx['sp'] = Specs().load_dir(os.path.join(HERE, 'contracts')).link(_ctx['prog'])

def proof_one(a):
    q, P, timeout, soft = a
    from pyverify.verify import verify
    t = time.time()
    try:
        r = verify(_ctx['prog'], _ctx['sp'], q, P, {}, timeout=timeout, deadline=soft)
    except Exception as e:              # a fault of the verifier is never a verdict
        return dict(q=q, error=f'verifier: {type(e).__name__}: {e}', obligs=[], failed=[], used=[], inlined=[], vacuous=False, time=time.time() - t, solver=0.0, trivial=0, queries=0, models=[])
    if r.failed and r.reshaped and not r.error:      # no alarm on hints that belong to another text
        r.error = f'{r.reshaped}; not shown: ' + '; '.join(f[0] for f in r.failed[:3])[:400]
        r.failed, r.models = [], []
    return dict(q=q, error=r.error, obligs=r.obligs, failed=r.failed, used=sorted(r.used), inlined=sorted(r.inlined), vacuous=r.vacuous,
        assumed=getattr(r, 'assumed', []), lemmas=getattr(r, 'lemmas', []), time=r.time, solver=getattr(r, 'solver_time', 0.0), trivial=r.trivial, queries=r.queries, models=[str(m)[:4000] if m is not None else '' for m in r.models])

def proof(P, budget):
    """-> list of per-function results, worklist closed under the contracts used"""
    try: proof_init()
    except SyntaxError as e: return [], f'source does not parse: {e}'
    except Exception as e: return [], f'{type(e).__name__}: {e}'
    sp = _ctx['sp']
    roots = [q for q, c in sp.contracts.items() if c.props and P in c.props and not c.trusted]
    done, out, pend = set(roots), [], []
    ctx = mp.get_context('fork')
    to = 20000 if TIER == 'quick' else 60000
    order = {q: i for i, q in enumerate(roots)}
    with ctx.Pool(JOBS) as pool:
        pend = [(q, pool.apply_async(proof_one, ((q, P, to, budget),))) for q in sorted(roots, key=lambda q: not sp.contracts[q].after)]
        t = time.time()
        while pend:
            rest = []
            for q, h in pend:
                if h.ready():
                    r = h.get(); out.append(r)
                    for u in r['used']:
                        if u not in done and u in sp.contracts:
                            done.add(u)
                            if not sp.contracts[u].trusted:
                                rest.append((u, pool.apply_async(proof_one, ((u, P, to, budget),))))
                else: rest.append((q, h))
            pend = rest
            if time.time() - t > budget + 60:
                for q, h in pend: out.append(dict(q=q, error='time budget of the proof part used up', obligs=[], failed=[], used=[], inlined=[], vacuous=False, time=budget, solver=0.0, trivial=0, queries=0, models=[]))
                pool.terminate(); break
            time.sleep(.02)
    from pyverify import lemmas
    for n in sorted({x for r in out for x in r.get('lemmas', []) if not x.startswith('lib:')}):
        t = time.time(); ls = lemmas.prove(n)
        out.append(dict(q='lemma ' + n, error=None, obligs=[(o, 'lemma', 'proved' if b else 'failed', b or 'z3, cvc5', dt, '') for o, b, dt in ls], failed=[(o, 'lemma', 0, 'not proved') for o, b, dt in ls if not b],
            used=[], inlined=[], vacuous=False, time=time.time() - t, solver=time.time() - t, trivial=0, queries=len(ls), models=[]))
    out.sort(key=lambda r: (order.get(r['q'], 10**6), r['q']))
    return out, None

# ---------------------------------------------------------------- bounded part
_real = []
def real_cases():
    from search import model
    if not _real:
        d = os.path.join(HERE, 'data', 'tzdata')
        _real.append({f: open(os.path.join(d, f)).read() for f in model.FILES})
    out = []
    for scope, a, b in (('basic', 2000, 2100), ('extended', 2000, 2100), ('complete', 1800, 2100), ('basic', 1980, 2200), ('extended', 1974, 2100), ('complete', 2000, 10000), ('complete', 2023, 2024)):
        hi = scope == 'complete'
        out.append(dict(files=_real[0], tcf='high' if hi else 'low', opts=dict(scope=scope, start_year=a, until_year=b,
            until_at_granularity=1 if hi else 60, offset_granularity=1 if hi else 60, delta_granularity=60 if hi else 900, strict=True,
            tiny=not hi, tiny_base=2100, include=[], compress=True)))
    return out

def in_source(e):
    """the exception was raised inside the code under test"""
    fs = traceback.extract_tb(e.__traceback__)
    return bool(fs) and os.path.realpath(fs[-1].filename).startswith(os.path.realpath(SRC) + os.sep)

def search_one(a):
    kind, P, x, y = a
    from search import engine, units, run
    run.forked()
    res, n, nontriv, errs, t = [], 0, 0, [], time.time()
    sample = None
    try:
        if kind == 'eng':
            for i in range(x, y):
                if time.time() > _ctx['deadline']: break
                case = engine.case_for(P, i)
                n += 1
                try: out = engine.problems(case, P)
                except Exception as e:
                    if in_source(e): out = [({P}, f'the code raised {type(e).__name__}: {e}')]
                    else: errs.append(f'case {i}: {type(e).__name__}: {e}'); continue
                nontriv += 1
                if sample is None: sample = dict(case=i, opts=case['opts'], lines=sum(v.count('\n') for v in case['files'].values()))
                for m in engine.relevant(out, P)[:1]: res.append((dict(kind='case', n=i), m))
                if len(res) >= 3: break
        elif kind == 'real':
            case = real_cases()[x]; n = 1; nontriv = 1
            out = engine.problems(case, P)
            for m in engine.relevant(out, P)[:1]: res.append((dict(kind='real', n=x), m))
            sample = dict(tzdata=True, opts=case['opts'])
        elif kind == 'unit':
            f = units.UNIT[P]
            n = nontriv = y
            for inp, m in f(random.Random(f'{P}-{x}'), y):
                res.append((dict(kind='unit', seed=x, n=y, input=inp), m))
                if len(res) >= 3: break
    except Exception as e:
        if in_source(e): res.append((dict(kind=kind, n=x, y=y, seed=x), f'the code raised {type(e).__name__}: {e}'))
        else: errs.append(f'{kind} {x}: {type(e).__name__}: {e} {traceback.format_exc()[-600:]}')
    return dict(kind=kind, res=res, n=n, nontriv=nontriv, errs=errs, sample=sample, time=time.time() - t)

QUICK_CASES = {'C24': 4000, 'C14': 6000, 'C22': 0, 'C11': 0, 'C13': 2000, 'C07': 16000, 'C02': 16000}
def tasks(P, deep):
    from search import engine, units
    thorough = TIER == 'thorough'
    k = (20 if thorough else 1) * (6 if deep else 1)
    ts = []
    if P in units.UNIT:
        n = {'C22': 60, 'C15': 2}.get(P, 400)
        ts += [('unit', P, SEED * 1000 + j, n) for j in range(min(8 * k, 200) if P not in ('C15',) else min(4 * k, 40))]
    if P in engine.PROF:
        total = QUICK_CASES.get(P, 8000) * k
        step = 50
        base = SEED * 10_000_000
        ts += [('real', P, i, 0) for i in range(7 if thorough or deep else 3)]
        ts += [('eng', P, base + i, base + min(i + step, total)) for i in range(0, total, step)]
    return ts

def search(P, deep, secs):
    _ctx['deadline'] = time.time() + secs
    from search import run
    try: run.setup()
    except Exception: pass
    ts = tasks(P, deep)
    ctx = mp.get_context('fork')
    outs = []
    pool = ctx.Pool(JOBS)
    try:
        it = pool.imap_unordered(search_one, ts, chunksize=1)
        found = 0
        for _ in ts:
            left = _ctx['deadline'] + 30 - time.time()
            try: o = it.next(timeout=max(1, left))
            except mp.TimeoutError: break
            outs.append(o); found += len(o['res'])
            if found >= 3 or time.time() > _ctx['deadline']: break
    finally:
        pool.terminate(); pool.join()
    return outs

def clean_tmp():
    import glob, shutil
    base = '/dev/shm' if os.path.isdir('/dev/shm') else '/tmp'
    for d in glob.glob(os.path.join(base, f'verif-tz-{os.getpid()}-*')): shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------- reports
def known():
    try: lines = open(os.path.join(HERE, 'known-findings.txt')).read().split('\n')
    except OSError: return []
    out = []
    for l in lines:
        m = re.match(r'finding: property=(\S+) match=(".*?") (.*)', l)
        if m: out.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return out

def write_replay(P, body):
    os.makedirs(EVD, exist_ok=True)
    h = hashlib.sha256(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(EVD, f'replay-{P}-{h}.json')
    with open(path, 'w') as f: json.dump(dict(body, property=P), f, indent=1, default=str)
    return path

def replay(path):
    b = json.load(open(path)); P = b['property']
    inp = b.get('input')
    if not inp:
        print('no failing input in this file; the failed obligation is:'); print(json.dumps(b, indent=1)); return 1
    from search import engine, units
    if inp['kind'] in ('case', 'real'):
        case = engine.case_for(P, inp['n']) if inp['kind'] == 'case' else real_cases()[inp['n']]
        print(json.dumps(case['opts']))
        if inp['kind'] == 'case':
            for f, t in case['files'].items():
                if t.strip(): print(f'--- {f}'); print(t)
        ms = engine.relevant(engine.problems(case, P), P)
    else:
        ms = [m for i, m in units.UNIT[P](random.Random(f"{P}-{inp['seed']}"), inp['n']) if json.dumps(i, default=str) == json.dumps(inp['input'], default=str)]
    for m in ms: print('FAILS:', m)
    if not ms: print('holds on the current tree')
    return 1 if ms else 0

def main(P):
    import claims
    info = claims.CLAIMS[P]
    os.makedirs(EVD, exist_ok=True)
    import glob
    for f in glob.glob(os.path.join(EVD, f'replay-{P}-*.json')): os.unlink(f)
    thorough = TIER == 'thorough'
    os.environ['VERIF_TMP_TAG'] = str(os.getpid())
    results, perr = proof(P, 500 if not thorough else 3000)
    failed = [(r, f) for r in results for f in r['failed']]
    vac = [r for r in results if r['vacuous']]
    undecided = [r for r in results if r['error']]
    t1 = time.time()
    outs = search(P, bool(failed or vac or undecided or perr), (120 if not thorough else 1500))
    clean_tmp()
    kf = known()
    viol, seen = [], set()
    for o in outs:
        for inp, m in o['res']:
            hit = next((k for k in kf if k[0] == P and k[1] in m), None)
            if hit:
                if hit not in seen: seen.add(hit); print(f'KNOWN-FINDING: property={P} {hit[2]}')
                continue
            viol.append((inp, m))
    errs = [e for o in outs for e in o['errs']]
    lines = []
    obl_failed = [dict(function=r['q'], obligation=f[0], kind=f[1], line=f[2], verifier=f[3], counterexample=(r['models'][i] if i < len(r['models']) else ''))
                  for r in results for i, f in enumerate(r['failed'])]
    obl_failed += [dict(function=r['q'], obligation='some input satisfies the precondition and some path returns', kind='vacuity', line=0, verifier='unsat') for r in vac]
    if viol:
        inp, m = viol[0]
        path = write_replay(P, dict(input=inp, message=m, failed_obligations=obl_failed[:20], others=[x[1] for x in viol[1:5]]))
        print(f'{P}: {m}'[:1500])
        lines.append(f'VIOLATION property={P} replay={path}')
    elif obl_failed:
        path = write_replay(P, dict(input=None, failed_obligations=obl_failed))
        for o in obl_failed[:5]: print(f"{P}: obligation not discharged: {o['obligation']} ({o['kind']}, line {o['line']}; {o['verifier']})"[:600])
        lines.append(f'VIOLATION property={P} replay={path} no-failing-input-found')
    # evidence
    obl = [x for r in results for x in r['obligs']]
    be = {}
    for x in obl:
        if x[2] == 'proved': be[x[3]] = be.get(x[3], 0) + 1
    evals = sum(o['n'] for o in outs)
    sp = _ctx.get('sp')
    used = sorted({u for r in results for u in r['used']})
    trusted = [f'{q}: {c.note or "assumed contract"}' for q, c in sp.contracts.items() if c.trusted and q in used] if sp else []
    entry = {r['q']: [t for t, _ in sp.contracts[r['q']].req(P)] for r in results if r['q'] not in used and r['q'] in sp.contracts and sp.contracts[r['q']].req(P)} if sp else {}
    cov = dict(
        obligations=len(obl) + sum(r['trivial'] for r in results), discharged=sum(1 for x in obl if x[2] == 'proved') + sum(r['trivial'] for r in results),
        discharged_by_backend=dict(be, simplifier=sum(r['trivial'] for r in results)),
        checker_cmd=f'python3-vt /verif/check.py {P}',
        trusted_base=claims.TRUSTED + trusted,
        functions_under_contract=[dict(function=r['q'], obligations=len(r['obligs']) + r['trivial'], status='undecided: ' + r['error'] if r['error'] else 'failed' if r['failed'] else 'discharged', seconds=round(r['time'], 2), solver_seconds=round(r['solver'], 2), inlined=r['inlined']) for r in results],
        preconditions_not_checked_at_a_caller=entry, lemmas_assumed=sorted({x for r in results for x in r.get('assumed', [])}), library_facts_assumed=sorted({x for r in results for x in r.get('lemmas', []) if x.startswith('lib:')}),
        solver_seconds=round(sum(r['solver'] for r in results), 2), solver_queries=sum(r['queries'] for r in results),
        undecided=[f"{r['q']}: {r['error']}" for r in undecided] + ([perr] if perr else []),
        failed_obligations=obl_failed[:20],
        bounded_part=info.get('bounded', ''),
        evaluations=evals, distinct_nontrivial=sum(o['nontriv'] for o in outs),
        rule='bounded stand-in (not counted as proved): seeded random TZ databases and settings per case number, the real tz data, and calls of single functions; '
             'a case counts when the real code ran on it to a verdict; case numbers and inputs are distinct',
        samples=[o['sample'] for o in outs if o['sample']][:3], harness_errors=errs[:5], harness_error_count=len(errs))
    if not results: cov['explanation'] = 'no function of this property is under contract yet; bounded search only'
    ev = dict(property=P, tier=TIER, seed=SEED, level=info['level'], coverage=cov, assumptions=info.get('assumes', []) + claims.ASSUME,
              wall_s=round(time.time() - T0, 2), violations=len(viol) + (len(obl_failed) if not viol else 0))
    with open(os.path.join(EVD, f'{P}.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print(f'{P}: {cov["discharged"]}/{cov["obligations"]} obligations over {len(results)} functions ({t1 - T0:.1f}s), {len(undecided)} undecided, {evals} bounded cases, {len(errs)} harness errors ({time.time() - t1:.1f}s)')
    for r in undecided: print(f"{P}: undecided, bounded part stands in: {r['q']}: {r['error']}"[:300])
    for l in lines: print(l)
    return 1 if lines else 0

if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
