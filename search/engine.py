"""Runs cases and collects (properties, message)."""
from copy import deepcopy
from . import gen, model, run, oracles, files

PROF = {
 'C01': (('time', 'day', 'badday', 'include', 'untilorder', 'nopolicy', 'linkmissing', 'basic', 'suffix'), .08),
 'C02': (('names', 'linklink', 'linkmissing', 'nopolicy', 'time', 'basic'), .1),
 'C03': (('untilorder', 'lastuntil', 'basic'), .15),
 'C04': (('nosave0', 'day'), .08),
 'C05': (('time', 'suffix', 'basic'), .08),
 'C06': (('day', 'badday', 'basic'), .12),
 'C07': (('malformed', 'time', 'badday', 'suffix', 'format', 'basic', 'nopolicy', 'dup'), .2),
 'C08': (('tinyout', 'lastuntil'), .2),
 'C09': (('names', 'linkmissing'), .15),
 'C10': (('time', 'basic', 'suffix'), .05),
 'C12': (('letter',), .05), 'C13': (('frags',), .1), 'C14': (('time', 'day'), .03), 'C15': ((), .1),
 'C16': (('include', 'linkmissing', 'names'), .3),
 'C17': (('basic', 'onday1', 'suffix', 'day'), .25),
 'C18': (('format', 'basic'), .05),
 'C19': (('lastuntil', 'basic', 'far'), .15),
 'C20': (('lastuntil',), .1), 'C24': (('time', 'suffix'), .03),
 'C21': (('time', 'basic', 'day', 'suffix'), .06),
}
POST = {'C10': 'est ar cfiles', 'C13': 'est ar cfiles', 'C15': 'est com ar go', 'C18': 'est ar go cfiles', 'C20': 'est', 'C24': 'est com ar files', 'C08': 'est ar cfiles', 'C09': 'est ar cfiles', 'C19': 'est ar cfiles', 'C12': 'go', 'C14': 'go gofiles', 'C21': 'com'}

def case_for(P, n):
    import random
    r = random.Random(f'{P}-{n}')
    dirt, p = PROF.get(P, ((), .1))
    clean = r.random() < .35
    scope = None
    if P == 'C17': scope = 'basic' if r.random() < .75 else None
    elif P == 'C01': scope = r.choice(['basic', 'basic', 'extended', 'complete'])
    elif P in ('C10', 'C12', 'C13', 'C14', 'C18'): scope = r.choice(['complete', 'extended', 'extended', 'basic'])
    big = P in ('C13',) and r.random() < .5 or P in ('C12', 'C14', 'C15') and r.random() < .15
    c = gen.case(f'{P}-{n}', () if clean else dirt, p * r.choice([.3, 1, 2]), std=r.random() < .25, big=big, scope=scope)
    c['prop'] = P
    c['tcf'] = 'high' if c['opts']['scope'] == 'complete' else 'low'
    if r.random() < .2: c['tcf'] = r.choice(['low', 'high'])
    if P in ('C10', 'C14') and r.random() < .5:
        c['opts']['strict'] = False
    return c

def problems(case, P, drain=200):
    """[(props, message)] of the real code on this case"""
    out = []
    try: ex = run.extract(case)
    except Exception as e:
        return [({'C07'}, f'parsing failed with {type(e).__name__}: {e}')]
    db = model.parse(case['files'])
    out += list(oracles.extraction(case, ex, db))
    if P == 'C07' or out: return out
    inputs = {k: dict(v) if isinstance(v, dict) else v for k, v in db.items()}
    M = model.run(deepcopy(db), case['opts'])
    tr, tf, exc = run.transform(case, ex)
    out += list(oracles.transformed(case, tr, tf, exc, M, inputs))
    if exc is not None or M.must_raise: return out
    post = POST.get(P, '').split()
    if not tr.zones_map and post: return out
    if 'est' in post: out += list(files.estimate(case, tr))
    if 'est' in post and any('C20' in ps for ps, m in out): return out
    if 'com' in post: out += list(oracles.commenter(case, tr))
    std = case['tcf'] == ('high' if case['opts']['scope'] == 'complete' else 'low')
    if 'ar' in post:
        n = len(out)
        ok = []
        def g(): ok.append((yield from oracles.arduino(case, tr, case['tcf'])))
        out += list(g())
        if ok and ok[0] and std and len(out) == n and tr.buf_sizes:
            if 'cfiles' in post: out += list(files.files(case, tr, ('arduino', 'c')))
            elif 'files' in post: out += list(files.files(case, tr))
    if 'go' in post:
        ok = []
        def g(): ok.append((yield from oracles.go(case, tr)))
        out += list(g())
        if ok and ok[0] and 'gofiles' in post: out += list(oracles.go_files(case, tr))
    return out

def relevant(out, P): return [m for ps, m in out if P in ps]
