"""Reads generated Arduino, C, Python, JSON and zone-list files back and compares
them with the transformed data (C24, and C10, C13, C20 where they concern them)."""
import json, os, re, sys, types
from . import model, run
from .model import djb2, symbol, resolve
from .oracles import c_bytes, expand, zidb_of

SFX = {0: 'w', 16: 's', 32: 'u'}

def strip_comments(t):
    return re.sub(r'^\s*//.*$', '', t, flags=re.M)

_IDX = {}
def positions(text, name):
    ix = _IDX.get(text)
    if ix is None:
        if len(_IDX) > 8: _IDX.clear()
        ix = _IDX[text] = {}
        for m in re.finditer(r'\b(\w+)(?:\[\w*\])?[^;{}=\[\]\w](?:[^;{}=\[\]"]*)=\s*["{\n]', text):
            for w in re.finditer(r'\b\w+\b', m.group(0)[:m.group(0).index('=')]): ix.setdefault(w.group(0), []).append(m.start() + w.start())
        for m in re.finditer(r'\b(\w+)\[\w*\][^;{}=]*=', text):
            ix.setdefault(m.group(1), []).append(m.start())
    return ix.get(name, ())
def find(pat, text, name, flags=0):
    """like re.search, for a pattern that starts with the definition's name"""
    rx = re.compile(re.escape(name) + pat, flags)
    for p in positions(text, name):
        m = rx.match(text, p)
        if m: return m
    return None

def array(text, name):
    """records of the C array `name[] = { {..}, {..} };` as [{field: value}]"""
    m = find(r'\[\w*\][^;{=]*=\s*\{\n(.*?)\n\};', text, name, re.S)
    if not m: return None
    return [fields(b) for b in re.findall(r'^  \{\n(.*?)^  \},$', m.group(1), re.S | re.M)]

def struct(text, name):
    m = find(r'\b[^;{=\[\]]*=\s*\{\n(.*?)\n\};', text, name, re.S)
    return fields(m.group(1)) if m else None

def fields(body):
    out = {}
    for l in body.split('\n'):
        m = re.match(r'\s*(.*?)\s*/\*(\w+)[^\n]*\*/,\s*$', l)
        if m:
            k = re.sub(r'_(\w)', lambda x: x.group(1).upper(), m.group(2))
            if k in out: out['DUP'] = k
            out[k] = m.group(1)
        elif l.strip() and not l.strip().startswith('//'): out['BAD'] = l
    return out

def cstr(text, name):
    m = find(r'\[\][^;{=]*=\s*(.*?);\s*$', text, name, re.S | re.M)
    return c_bytes(m.group(1)) if m else None

def plain(lit):
    m = re.match(r'"((?:[^"\\]|\\.)*)"$', lit)
    return m.group(1).replace('\\\\', '\\') if m else None

def pointers(text, name):
    m = find(r'\[(\d+)\][^;{=]*=\s*\{\n(.*?)\n\};', text, name, re.S)
    if not m: return None
    return int(m.group(1)), re.findall(r'&(\w+)\s*,', strip_comments(re.sub(r'//.*$', '', m.group(2), flags=re.M)))

def year(v, tiny, base, inf, tinf):
    """what the runtime reads: the original year of a tiny code, with saturation classes"""
    v = int(v)
    if not tiny: return v
    if v == -127: return model.MIN_YEAR
    if v == tinf: return inf
    return v + base

def eq_year(code, y, tiny, base, inf, tinf):
    if tiny: return int(code) == model.tiny(y, base, inf, tinf)
    return int(code) == y

def c_files(case, tr, lang, d):
    """lang: 'arduino' | 'c'"""
    P = {'C24'}
    o = case['opts']
    ext = 'cpp' if lang == 'arduino' else 'c'
    T = {n: open(os.path.join(d, f'zone_{n}.{e}'), encoding='utf-8').read() for n, e in (('policies', ext), ('infos', ext), ('registry', ext))}
    H = {n: open(os.path.join(d, f'zone_{n}.h'), encoding='utf-8').read() for n in ('policies', 'infos', 'registry')}
    pre = 'k' if lang == 'arduino' else 'kZdb'
    loc = 'k' if lang == 'arduino' else 'kAtc'
    null = 'nullptr' if lang == 'arduino' else 'NULL'
    high = o['scope'] == 'complete'
    lo, hi = (60, 900) if not high else (1, 15)
    letters = [None] * len(tr.letters_map)
    if lang == 'arduino':
        m = re.search(r'\bkLetters\[\][^;{=]*=\s*\{\n(.*?)\n\};', T['infos'], re.S)
        ls = [cstr(T['infos'], x) for x in re.findall(r'^\s*(\w+),', m.group(1), re.M)] if m else None
        m = re.search(r'\bkFragments\[\][^;{=]*=\s*\{\n(.*?)\n\};', T['infos'], re.S)
        fs = [None if x == 'nullptr' else cstr(T['infos'], x) for x in re.findall(r'^\s*(\w+),', m.group(1), re.M)] if m else None
    else:
        m = re.search(r'\bkAtcLetters\[\][^;{=]*=\s*\{\n(.*?)\n\};', T['infos'], re.S)
        ls = [c_bytes(x) for x in re.findall(r'/\*\d+\*/\s*("[^\n]*"),', m.group(1))] if m else None
        m = re.search(r'\bkAtcFragments\[\][^;{=]*=\s*\{\n(.*?)\n\};', T['infos'], re.S)
        fs = [None if x == 'NULL' else c_bytes(x) for x in re.findall(r'/\*\\x[0-9a-f]+\*/\s*(NULL|"[^\n]*"),', m.group(1))] if m else None
    if ls is None or fs is None: yield P, f'{lang}: letters or fragments cannot be read back'; return
    if not fs or fs[0] is not None: yield P | {'C13'}, f'{lang}: fragment 0 is {fs[:1]}'
    inv = {i: f for i, f in enumerate(fs) if i}
    ctx = struct(T['infos'], f'{pre}ZoneContext')
    if ctx is None: yield P, f'{lang}: no context'; return
    for k, v in (('startYear', o['start_year']), ('untilYear', o['until_year']), ('startYearAccurate', tr.start_year_accurate), ('untilYearAccurate', tr.until_year_accurate),
                 ('maxTransitions', tr.max_buf_size), ('numFragments', len(fs)), ('numLetters', len(ls)), ('baseYear', o['tiny_base'])):
        if k in ctx and ctx[k] != str(v): yield P | ({'C19'} if 'Accurate' in k else {'C20'} if k == 'maxTransitions' else set()), f'{lang}: context {k} = {ctx[k]}, should be {v}'
    def t(f, c, m):
        a, b = int(f[c]), int(f[m])
        return a * hi + (b & 15) * lo, SFX.get(b & 0xf0)
    for p, x in tr.policies_map.items():
        who = f'{lang}: policy {p}'
        rs = array(T['policies'], f'{loc}ZoneRules{symbol(p)}')
        s = struct(T['policies'], f'{pre}ZonePolicy{symbol(p)}')
        if rs is None or s is None: yield P, f'{who} is not in the generated files'; continue
        if s.get('rules') != f'{loc}ZoneRules{symbol(p)}' or s.get('numRules') != str(len(x['rules'])): yield P, f'{who}: {s} for {len(x["rules"])} rules'
        if len(rs) != len(x['rules']): yield P, f'{who}: {len(rs)} rules generated, should be {len(x["rules"])}'; continue
        if not re.search(r'\b' + pre + 'ZonePolicy' + re.escape(symbol(p)) + ';', H['policies']): yield P, f'{who} is not declared'
        for i, (f, r) in enumerate(zip(rs, x['rules'])):
            try:
                fy, ty = ('fromYearTiny', 'toYearTiny') if o['tiny'] else ('fromYear', 'toYear')
                got = [int(f['inMonth']), int(f['onDayOfWeek']), int(f['onDayOfMonth']), *t(f, 'atTimeCode', 'atTimeModifier'), int(f['deltaMinutes']) * 60 if high else (int(f['deltaCode']) - 4) * 900, ls[int(f['letterIndex'])]]
                ok = eq_year(f[fy], r['from_year'], o['tiny'], o['tiny_base'], model.INF_TO, 126) and eq_year(f[ty], r['to_year'], o['tiny'], o['tiny_base'], model.INF_TO, 126)
            except (KeyError, ValueError, IndexError) as e: yield P | {'C10'}, f'{who} rule {i} cannot be read back: {f} ({e})'; continue
            want = [r['in_month'], r['on_day_of_week'], r['on_day_of_month'], r['at_seconds_truncated'], r['at_time_suffix'], r['delta_seconds_truncated'], r['letter']]
            if got != want or not ok: yield P | ({'C10'} if got[3:6] != want[3:6] else set()) | ({'C18'} if got[6] != want[6] else set()) | (set() if ok else {'C08'}), f'{who} rule {i} reads back as {f[fy]}, {f[ty]}, {got}, should be {r["from_year"]}, {r["to_year"]}, {want}'
    for n, x in tr.zones_map.items():
        who = f'{lang}: zone {n}'
        es = array(T['infos'], f'{loc}ZoneEra{symbol(n)}')
        if es is None: yield P, f'{who} is not in the generated files'; continue
        if len(es) != len(x['eras']): yield P, f'{who}: {len(es)} eras generated, should be {len(x["eras"])}'; continue
        for i, (f, e) in enumerate(zip(es, x['eras'])):
            try:
                uy = 'untilYearTiny' if o['tiny'] else 'untilYear'
                if high: off, dl = int(f['offsetCode']) * 15 + int(f['offsetRemainder']), int(f['deltaMinutes']) * 60
                else: off, dl = int(f['offsetCode']) * 900 + (int(f['deltaCode']) >> 4) * 60, ((int(f['deltaCode']) & 15) - 4) * 900
                got = [f['zonePolicy'], plain(f['format']), off, dl, int(f['untilMonth']), int(f['untilDay']), *t(f, 'untilTimeCode', 'untilTimeModifier')]
                ok = eq_year(f[uy], e['until_year'], o['tiny'], o['tiny_base'], model.INF_UNTIL, 127)
            except (KeyError, ValueError, IndexError) as ex: yield P | {'C10'}, f'{who} era {i} cannot be read back: {f} ({ex})'; continue
            pol = null if e['policy_name'] is None else f'&{pre}ZonePolicy{symbol(e["policy_name"])}'
            want = [pol, e['format_short'], e['offset_seconds_truncated'], e['era_delta_seconds_truncated'], e['until_month'], e['until_day'], e['until_seconds_truncated'], e['until_time_suffix']]
            if got != want or not ok: yield P | ({'C10'} if got[2:4] + got[6:] != want[2:4] + want[6:] else set()) | (set() if ok else {'C08'}), f'{who} era {i} reads back as {f[uy]}, {got}, should be {e["until_year"]}, {want}'
    for n in list(tr.zones_map) + list(tr.links_map):
        who = f'{lang}: {n}'
        tgt = tr.links_map.get(n) if n not in tr.zones_map else None
        f = struct(T['infos'], f'{pre}Zone{symbol(n)}')
        nm = cstr(T['infos'], f'{loc}ZoneName{symbol(n)}')
        if f is None or nm is None: yield P, f'{who} has no info record'; continue
        if expand(nm, inv) != n: yield P | {'C13'}, f'{who}: name {nm!r} expands to {expand(nm, inv)!r}'
        z = tgt or n
        want = dict(name=f'{loc}ZoneName{symbol(n)}', zoneId=f'0x{djb2(n):08x}', zoneContext=f'&{pre}ZoneContext', numEras=str(len(tr.zones_map[z]['eras'])), eras=f'{loc}ZoneEra{symbol(z)}', targetInfo=f'&{pre}Zone{symbol(tgt)}' if tgt else null)
        if f != want: yield P | ({'C09'} if f.get('zoneId') != want['zoneId'] else set()), f'{who}: record {f}, should be {want}'
        ids = re.search(r'\b' + pre + 'ZoneId' + re.escape(symbol(n)) + r'(?: =)? (0x[0-9a-f]+)', H['infos'])
        if not ids or int(ids.group(1), 16) != djb2(n): yield P | {'C09'}, f'{who}: published id {ids and ids.group(1)}'
        if n in tr.zones_map and tr.buf_sizes:
            b = re.search(r'\b' + pre + 'ZoneBufSize' + re.escape(symbol(n)) + r'(?: =)? (\d+)', H['infos'])
            if not b or int(b.group(1)) != tr.buf_sizes[n].number: yield P | {'C20'}, f'{who}: published buffer size {b and b.group(1)}, should be {tr.buf_sizes[n].number}'
    for reg, names in (('ZoneRegistry', list(tr.zones_map)), ('ZoneAndLinkRegistry', list(tr.zones_map) + list(tr.links_map))):
        r = pointers(T['registry'], pre + reg)
        want = [f'{pre}Zone{symbol(n)}' for n in sorted(names, key=djb2)]
        if r is None: yield P, f'{lang}: no {reg}'; continue
        if r[1] != want or r[0] != len(want): yield P | {'C12'}, f'{lang}: {reg}[{r[0]}] = {r[1]}, should be {want}'
        h = re.search(r'\b' + pre + reg + r'Size(?: =)? (\d+)', H['registry'])
        if not h or int(h.group(1)) != len(want): yield P, f'{lang}: {reg}Size = {h and h.group(1)}, should be {len(want)}'

def py_files(case, tr, d):
    P = {'C24'}
    ns = {k: dict for k in ('ZoneRule', 'ZonePolicy', 'ZoneEra', 'ZoneInfo', 'ZoneInfoMap')}
    try:
        for n in ('policies', 'infos', 'registry'):
            t = open(os.path.join(d, f'zone_{n}.py'), encoding='utf-8').read()
            t = re.sub(r'^from \.[^(\n]*import (\([^)]*\)|[^(\n]*)$', '', t, flags=re.M)
            exec(compile(t, n, 'exec'), ns)
    except Exception as e:
        yield P, f'python: generated file cannot be read: {type(e).__name__} {e}'
        return
    for p, x in tr.policies_map.items():
        q = ns.get('ZONE_POLICY_' + symbol(p))
        if q is None: yield P, f'python: policy {p} is not in the generated files'; continue
        want = dict(name=p, rules=[dict(from_year=r['from_year'], to_year=r['to_year'], in_month=r['in_month'], on_day_of_week=r['on_day_of_week'], on_day_of_month=r['on_day_of_month'],
                                        at_seconds=r['at_seconds_truncated'], at_time_suffix=r['at_time_suffix'], delta_seconds=r['delta_seconds_truncated'], letter=r['letter']) for r in x['rules']])
        if q != want: yield P, f'python: policy {p} is {q}, should be {want}'
    def era(e): return dict(offset_seconds=e['offset_seconds_truncated'], zone_policy=ns.get('ZONE_POLICY_' + symbol(e['policy_name'])) if e['policy_name'] else None, era_delta_seconds=e['era_delta_seconds_truncated'],
                            format=e['format'], until_year=e['until_year'], until_month=e['until_month'], until_day=e['until_day'], until_seconds=e['until_seconds_truncated'], until_time_suffix=e['until_time_suffix'])
    R, RL = ns.get('ZONE_REGISTRY', {}), ns.get('ZONE_AND_LINK_REGISTRY', {})
    if list(R) != sorted(tr.zones_map): yield P, f'python: registry {list(R)}, should be {sorted(tr.zones_map)}'
    if sorted(RL) != sorted(list(tr.zones_map) + list(tr.links_map)): yield P, f'python: zone and link registry {list(RL)}'
    for n, x in tr.zones_map.items():
        for reg in (R, RL):
            q = reg.get(n)
            if q is None: continue
            want = dict(name=n, eras=[era(e) for e in x['eras']])
            if q != want: yield P, f'python: zone {n} is {q}, should be {want}'; break
    for l, z in tr.links_map.items():
        q = RL.get(l)
        if q is not None and (q.get('name') != l or q.get('eras') is not RL[z]['eras'] or q.get('link_to') is not RL[z]): yield P, f'python: link {l} -> {z} is {q}'

def strings(x):
    """sets become sorted lists, tuples lists, keys strings"""
    if isinstance(x, dict): return {str(k): strings(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)): return sorted(strings(v) for v in x)
    if isinstance(x, (list, tuple)): return [strings(v) for v in x]
    return x

def json_file(case, tr, zidb, path):
    P = {'C24'}
    try: j = json.load(open(path, encoding='utf-8'))
    except ValueError as e: yield P, f'json: {e}'; return
    for k in ('zones_map', 'links_map', 'policies_map', 'zone_ids', 'link_ids', 'start_year_accurate', 'until_year_accurate', 'original_min_year', 'original_max_year', 'generated_min_year', 'generated_max_year', 'lower_truncated', 'upper_truncated', 'max_buf_size'):
        v = getattr(tr, k)
        if k not in j or j[k] != strings(v): yield P | ({'C19'} if 'year' in k or 'trunc' in k else set()), f'json: {k} = {str(j.get(k))[:200]}, should be {str(strings(v))[:200]}'
    for k, v in (('removed_zones', tr.removed_zones), ('removed_policies', tr.removed_policies), ('removed_links', tr.removed_links), ('notable_zones', tr.notable_zones), ('notable_policies', tr.notable_policies)):
        got = {n: sorted(map(str, x)) for n, x in j.get(k, {}).items()}
        if got != {n: sorted(x) for n, x in v.items()}: yield P | {'C21', 'C01'}, f'json: {k} = {got}, should be {v}'
    o = case['opts']
    for k in ('scope', 'start_year', 'until_year', 'until_at_granularity', 'offset_granularity', 'delta_granularity', 'strict', 'compress'):
        if j.get(k) != o[k]: yield P, f'json: {k} = {j.get(k)}, should be {o[k]}'
    for k, v in (('num_zones', len(tr.zones_map)), ('num_policies', len(tr.policies_map)), ('num_links', len(tr.links_map)), ('num_eras', sum(len(z['eras']) for z in tr.zones_map.values())), ('num_rules', sum(len(p['rules']) for p in tr.policies_map.values()))):
        if j.get(k) != v: yield P, f'json: {k} = {j.get(k)}, should be {v}'

def generate(case, tr, d, langs=('arduino', 'c', 'python', 'json', 'zonelist')):
    """runs the generators; -> zidb.  The estimator runs with the stand-in processor."""
    o = case['opts']
    zidb = zidb_of(case, tr)
    for l in langs:
        p = os.path.join(d, l); os.makedirs(p, exist_ok=True)
        if l in ('arduino', 'c'):
            G = run.mod('generator.argenerator').ArduinoGenerator if l == 'arduino' else run.mod('generator.cgenerator').CGenerator
            G(invocation='x', db_namespace='zonedb' if l == 'arduino' else 'Zdb', compress=o['compress'], generate_tiny_years=o['tiny'], tiny_base_year=o['tiny_base'], zidb=zidb).generate_files(p)
        elif l == 'python': run.mod('generator.pygenerator').PythonGenerator(invocation='x', zidb=zidb).generate_files(p)
        elif l == 'go': run.mod('generator.gogenerator').GoGenerator('x', 'zonedb', zidb).generate_files(p)
        elif l == 'json': run.mod('generator.jsongenerator').JsonGenerator(zidb=zidb, json_file='z.json').generate_files(p)
        else: run.mod('generator.zonelistgenerator').ZoneListGenerator(invocation='x', zidb=zidb).generate_files(p)
    return zidb

def files(case, tr, langs=('arduino', 'c', 'python', 'json', 'zonelist')):
    d = run.tmpdir()
    try: zidb = generate(case, tr, d, langs)
    except Exception as e:
        yield {'C24'}, f'unexpected {type(e).__name__}: {e} in {run.where(e)[-1]}'
        return
    for l in langs:
        p = os.path.join(d, l)
        if l in ('arduino', 'c'): yield from c_files(case, tr, l, p)
        elif l == 'python': yield from py_files(case, tr, p)
        elif l == 'json': yield from json_file(case, tr, zidb, os.path.join(p, 'z.json'))
        elif l == 'zonelist':
            z = [x for x in open(os.path.join(p, 'zones.txt'), encoding='utf-8').read().split('\n') if x and x[0] != '#']
            if z != sorted(tr.zones_map): yield {'C24'}, f'zone list {z}, should be {sorted(tr.zones_map)}'

def sizes_for(seed):
    """programmable buffer sizes: deterministic in (seed, zone, year)"""
    import zlib
    def size(name, y):
        h = zlib.crc32(f'{seed}/{name}/{y}'.encode())
        return 1 + h % 3, 1 + (h >> 8) % 7 + (1 if h % 97 == 0 else 0) + (1 if h % 1009 == 5 else 0)
    def terminal(name, y):
        h = zlib.crc32(f'{seed}/{name}'.encode())
        return y >= 1900 + h % 300
    return size, terminal

def estimate(case, tr):
    """C20: runs the estimator over the stand-in processor and checks what it publishes"""
    P = {'C20'}
    o = case['opts']
    sz, term = sizes_for(case.get('seed'))
    SP = run.StubProcessor
    run.setup()
    SP.sizes, SP.terminal, SP.log = staticmethod(sz), staticmethod(term), []
    a, b = min(tr.generated_min_year, o['start_year']), max(tr.generated_max_year + 1, o['until_year'])
    ignore = case.get('ignore_buf', False)
    want, hi = {}, 0
    for n in tr.zones_map:
        best = (0, 0)
        for y in range(a - 1, b + 1):
            s = sz(n, y)[1]
            if s > best[0]: best = (s, y)
            if term(n, y - 2): break
        want[n] = best
        hi = max(hi, best[0])
    exc = None
    try: run.mod('bufestimator.bufestimator').BufSizeEstimator(start_year=o['start_year'], until_year=o['until_year'], ignore_buf_size_too_large=ignore).transform(tr)
    except Exception as e: exc = e
    over = hi > 8 and not ignore
    if over and exc is None: yield P, f'buffer size {hi} is above the limit of 8 but was accepted'
    if exc is not None:
        if not over: yield P, f'unexpected {type(exc).__name__}: {exc}'
        return
    got = {n: tuple(c) for n, c in tr.buf_sizes.items()}
    for n in want:
        if n not in got: yield P, f'zone {n} has no buffer size'
        elif got[n][0] != want[n][0]: yield P, f'zone {n}: buffer size {got[n]}, the largest needed is {want[n][0]} in {want[n][1]}'
        elif sz(n, got[n][1])[1] != got[n][0]: yield P, f'zone {n}: size {got[n][0]} does not occur in {got[n][1]}'
    for n in got:
        if n not in want: yield P, f'buffer size for {n} which is not emitted'
    if tr.max_buf_size != hi: yield P, f'max_buf_size = {tr.max_buf_size}, should be {hi}'
    if list(got) != sorted(got): yield {'C15'}, 'buffer sizes not in sorted order'
