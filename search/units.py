"""Searches on single functions and on the command line, per property.
unit(P, rng, n) yields (input, message) for what is wrong; `input` replays it."""
import contextlib, io, os, random, shutil, subprocess, sys, datetime, json
from . import model, run, gen, files as F
from .model import djb2

def T(n): return getattr(run.mod('transformer.transformer'), n, None)

def c11(r, n):
    b = run.mod('generator.byteutils')
    for bits in (8, 16, 32):
        for sg in 'ui':
            f = getattr(b, f'write_{sg}{bits}', None)
            if f is None: continue
            lo, hi = (0, 2**bits - 1) if sg == 'u' else (-2**(bits - 1), 2**(bits - 1) - 1)
            vals = {lo, hi, lo - 1, hi + 1, 0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -2**31, -2**31 - 1, lo - 10**9, hi + 10**12, -2**40}
            vals |= {r.randint(lo, hi) for _ in range(n)} | {r.randint(-2**34, 2**34) for _ in range(n // 4)} | {1 << k for k in range(36)} | {-(1 << k) for k in range(36)}
            if bits == 8: vals |= set(range(-300, 600))
            for v in vals:
                for pre in (b'', bytes([1, 255, 0])):
                    buf = bytearray(pre)
                    try: f(buf, v); ok = True
                    except Exception: ok = False
                    want = pre + v.to_bytes(bits // 8, 'little', signed=sg == 'i') if lo <= v <= hi else pre
                    if ok != (lo <= v <= hi) or bytes(buf) != want:
                        yield [f.__name__, v, pre.hex()], f'{f.__name__}({v}) on {pre.hex()!r}: {"accepted" if ok else "rejected"}, buffer {bytes(buf).hex()}, should be {want.hex()}'
                        break
    for _ in range(n // 4):
        data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 8, 9, 40])))
        h = b.hex_encode(data)
        if h != ''.join(f'\\x{x:02x}' for x in data): yield ['hex_encode', data.hex()], f'hex_encode({data.hex()}) = {h}'
        w = r.choice([1, 4, 8, 12, 14])
        from .oracles import go_string
        try: s = b.convert_to_go_string(bytearray(data), w, '\t')
        except TypeError: continue
        if go_string(s) != data: yield ['convert_to_go_string', data.hex(), w], f'convert_to_go_string({data.hex()}, {w}) denotes {go_string(s).hex()}'

def c05(r, n):
    f, INV = T('time_string_to_seconds'), T('INVALID_SECONDS')
    g = gen.G(r)
    for i in range(n * 3):
        k = r.random()
        if k < .5: s = r.choice(['', '-']) + ':'.join([str(r.randint(0, 27))] + [r.choice([str(r.randint(0, 61)), f'{r.randint(0, 61):02}']) for _ in range(r.randint(0, 2))])
        elif k < .7: s = g.badtime()
        elif k < .8: s = '-' + g.badtime()
        else: s = ''.join(r.choice('0123456789:-: ax') for _ in range(r.randint(1, 8)))
        if any(c in s for c in ' _+'): continue
        want = model.seconds(s)
        try: v = f(s)
        except Exception as e: yield ['time_string_to_seconds', s], f'time_string_to_seconds({s!r}) raised {type(e).__name__}'; continue
        if v != (INV if want is None else want): yield ['time_string_to_seconds', s], f'time_string_to_seconds({s!r}) = {v}, should be {"invalid" if want is None else want}'
    tg, dz = T('truncate_to_granularity'), T('div_to_zero')
    for i in range(n * 2):
        a, q = r.choice([r.randint(-100000, 100000), r.randint(-20, 20)]), r.choice([1, 60, 900, 7, 15, r.randint(1, 4000)])
        if tg and tg(a, q) != model.trunc(a, q): yield ['truncate_to_granularity', a, q], f'truncate_to_granularity({a}, {q}) = {tg(a, q)}, should be {model.trunc(a, q)}'
        if dz and dz(a, q) * q != model.trunc(a, q): yield ['div_to_zero', a, q], f'div_to_zero({a}, {q}) = {dz(a, q)}'
    h = T('hms_to_seconds'); sh = T('seconds_to_hms')
    for i in range(n):
        a = r.randint(-93600, 93600)
        if sh and h and h(*sh(a)) != a: yield ['seconds_to_hms', a], f'hms_to_seconds(seconds_to_hms({a})) = {h(*sh(a))}'

def c06(r, n):
    f, d, p = T('calc_day_of_month'), T('_days_in_month'), T('_parse_on_day_string')
    for i in range(n * 4):
        y = r.choice([r.randint(1, 9998), r.randint(1900, 2100), 2000, 1900, 2400, 2100])
        m = r.choice([r.randint(1, 12), 1, 2, 12])
        if d and d(y, m) != model.dim(y, m): yield ['_days_in_month', y, m], f'_days_in_month({y}, {m}) = {d(y, m)}'
        dow = r.randint(0, 7); k = r.randint(1, model.dim(y, m))
        dom = k if dow == 0 else r.choice([0, k, -k, -1, 1, -7, 7, model.dim(y, m)])
        if y == 1 and m == 1: continue
        want = model.resolve(y, m, dow, dom)
        if want[0] != y: continue
        if f:
            try: got = f(y, m, dow, dom)
            except Exception as e: got = type(e).__name__
            if got != want[1:]: yield ['calc_day_of_month', y, m, dow, dom], f'calc_day_of_month({y}, {m}, {dow}, {dom}) = {got}, should be {want[1:]}'
    g = gen.G(r)
    for i in range(n):
        s = g.onday(2000, 5) if r.random() < .7 else g.badday()
        want = model.onday(s)
        if p:
            try: got = p(s)
            except Exception as e: got = type(e).__name__
            if tuple(got) != (want or (0, 0)): yield ['_parse_on_day_string', s], f'_parse_on_day_string({s!r}) = {got}, should be {want or (0, 0)}'

def c07(r, n):
    e = run.mod('extractor.extractor')
    f, m = getattr(e, 'parse_at_time_string', None), getattr(e, 'month_to_index', None)
    for i in range(n):
        s = r.choice(['0', '2:00', '24:00', '-1:00', '1:23:45', '2']) + r.choice(['', 'w', 's', 'u', 'g', 'z', 'q', 'x', 'W'])
        try: want = model.at_split(s)
        except ValueError: want = None
        if f:
            try: got = tuple(f(s))
            except Exception: got = None
            if got != want: yield ['parse_at_time_string', s], f'parse_at_time_string({s!r}) = {got}, should be {want}'
    if m:
        for i, x in enumerate(model.MONTHS):
            for s in (x.capitalize(), x.capitalize() + 'uary'):
                try: got = m(s)
                except Exception as ex: got = type(ex).__name__
                if got != i + 1: yield ['month_to_index', s], f'month_to_index({s!r}) = {got}, should be {i + 1}'

def c08(r, n):
    f, u = T('to_tiny_from_to_year') or T('to_tiny_from_year'), T('to_tiny_until_year')
    for i in range(n * 6):
        b = r.choice([2100, 2000, 2050, r.randint(1, 9000)])
        y = r.choice([model.INVALID_YEAR, model.MIN_YEAR, model.INF_TO, model.INF_UNTIL, b + r.randint(-135, 135), b + r.choice([-129, -128, -127, -126, 125, 126, 127, 128]), r.randint(1, 9999)])
        for fn, want in ((f, model.tiny_from), (u, model.tiny_until)):
            if fn is None: continue
            try: got = fn(y, b)
            except Exception as e: got = type(e).__name__
            if got != want(y, b) and not (want is model.tiny_until and y == model.INF_TO or want is model.tiny_from and y == model.INF_UNTIL): yield [fn.__name__, y, b], f'{fn.__name__}({y}, {b}) = {got}, should be {want(y, b)}'

def c09(r, n):
    h = T('hash_name')
    for i in range(n):
        s = r.choice(gen.REGION) + '/' + ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCXYZ_+-/0123456789') for _ in range(r.randint(0, 30)))
        if h and h(s) != djb2(s): yield ['hash_name', s], f'hash_name({s!r}) = {h(s)}, should be {djb2(s)}'

def c13(r, n):
    from .oracles import c_bytes
    f = getattr(run.mod('generator.argenerator'), 'compressed_name_to_c_string', None)
    for i in range(n * 2):
        s = ''.join(r.choice('\x01\x02\x0a\x0f\x10\x1fabcdefABCDEF0123456789_/+xyz') for _ in range(r.randint(0, 14)))
        if f and c_bytes(f(s)) != s: yield ['compressed_name_to_c_string', s], f'compressed_name_to_c_string({s!r}) = {f(s)} denotes {c_bytes(f(s))!r}'

    # databases on both sides of the limit of 31 keywords
    from . import engine
    for nf in range(28, 35):
        lines, k = [], 0
        for i in range(nf):
            for j in range(r.choice([4, 4, 5])): lines.append(f'Zone\t{chr(65 + i % 26)}{chr(97 + i % 25)}rg{i // 26}/{chr(65 + j)}{r.choice(gen.CITY)}{k}\t0\t-\tUTC'); k += 1
        r.shuffle(lines)
        case = dict(files={'africa': '\n'.join(lines) + '\n'}, tcf='high', prop='C13', opts=dict(scope='complete', start_year=2000, until_year=2100,
            until_at_granularity=1, offset_granularity=1, delta_granularity=60, strict=True, tiny=False, tiny_base=2100, include=[], compress=True))
        for m in engine.relevant(engine.problems(case, 'C13'), 'C13')[:1]: yield ['names with fragments', nf, lines[:3]], f'{nf} fragments: {m}'

def c16(r, n):
    d = run.tmpdir()
    m = run.mod('tzcompiler')
    f = getattr(m, 'read_include_list', None)
    if f is None: return
    if f('') != set(): yield ['read_include_list', ''], 'no include list must mean an empty one'
    for i in range(max(10, n // 20)):
        names = [r.choice(gen.REGION) + '/' + r.choice(gen.CITY) for _ in range(r.randint(0, 6))]
        lines = list(names)
        for _ in range(r.randint(0, 4)): lines.insert(r.randint(0, len(lines)), r.choice(['', '   ', '# x', '  # Asia/Foo', '#']))
        text = '\n'.join(r.choice(['', ' ', '\t']) + l + r.choice(['', ' ', '\t']) for l in lines) + r.choice(['', '\n'])
        p = os.path.join(d, 'inc')
        with open(p, 'w') as h: h.write(text)
        got = f(p)
        if set(got) != set(names): yield ['read_include_list', text], f'include list {text!r} read as {sorted(got)}'

def c21(r, n):
    at = run.mod('datatypes.attyping')
    add, merge = getattr(at, 'add_comment', None), getattr(at, 'merge_comments', None)
    for i in range(n):
        def rnd(): return {r.choice('abcd'): {r.choice('xyzuv') for _ in range(r.randint(1, 3))} for _ in range(r.randint(0, 4))}
        a, b = rnd(), rnd()
        if merge:
            x = {k: set(v) for k, v in a.items()}; y = {k: set(v) for k, v in b.items()}
            merge(x, y)
            want = {k: a.get(k, set()) | b.get(k, set()) for k in set(a) | set(b)}
            if {k: set(v) for k, v in x.items()} != want: yield ['merge_comments', str(a), str(b)], f'merge_comments({a}, {b}) gave {x}, should be {want}'
            # adding to the result later must not be lost and must not touch the source
        if add:
            x = {k: set(v) for k, v in a.items()}
            k, c = r.choice('abcde'), r.choice('xyzuvw')
            add(x, k, c)
            want = {**a, k: a.get(k, set()) | {c}}
            if {q: set(v) for q, v in x.items()} != want: yield ['add_comment', str(a), k, c], f'add_comment({a}, {k!r}, {c!r}) gave {x}, should be {want}'

# ---- command line (C22)

SCOPES = dict(basic=(60, 60, 900, 1980), extended=(60, 60, 900, 1974), complete=(1, 1, 60, None))

def cli_case(r):
    c = gen.case(r.randrange(10**9), (), scope='complete', std=True)
    scope = r.choice(['basic', 'extended', 'complete'])
    a = r.choice([1973, 1974, 1975, 1979, 1980, 1990, 2000, 2010]) if r.random() < .8 else None
    b = r.choice([2025, 2037, 2050, 2100]) if r.random() < .8 else None
    args = ['--scope', scope]
    if a is not None: args += ['--start_year', str(a)]
    if b is not None: args += ['--until_year', str(b)]
    g = {}
    for k in ('granularity', 'until_at_granularity', 'offset_granularity', 'delta_granularity'):
        if r.random() < .3: g[k] = r.choice([1, 60, 900, 15, 1800]); args += ['--' + k, str(g[k])]
    strict = True
    if r.random() < .5: args.append('--nostrict'); strict = False
    compress = True
    if r.random() < .5: args.append('--nocompress'); compress = False
    base = 2100
    if r.random() < .3: base = r.choice([2050, 2080, 2100]); args += ['--tiny_base_year', str(base)]
    lang = r.choice(['arduino', 'c', 'python', 'go', 'arduino,python', 'c,go', 'arduino,c,python,go', 'java'] + ['arduino'] * 3)
    act = r.choice(['zonedb,json', 'json', 'zonedb,json', 'zonedb,json,zonelist', 'zonelist,json', 'bogus', 'json,zonedb'])
    args += ['--languages', lang, '--actions', act, '--tz_version', '2024b', '--db_namespace', 'Zdb']
    names = list(model.parse(c['files'])['zones'])
    inc = None
    if r.random() < .3: inc = r.sample(names, r.randint(1, len(names)))
    if r.random() < .3: args.append('--ignore_buf_size_too_large')
    r.shuffle  # options keep their order
    return dict(files=c['files'], args=args, scope=scope, start=2000 if a is None else a, until=2100 if b is None else b, gran=g, strict=strict, compress=compress, base=base, lang=lang, act=act, inc=inc)

def cli_expect(c):
    ua, of, de, lo = SCOPES[c['scope']]
    g = c['gran']
    if 'granularity' in g: ua = of = de = g['granularity']
    else: ua, of, de = g.get('until_at_granularity', ua), g.get('offset_granularity', of), g.get('delta_granularity', de)
    bad = not set(c['lang'].split(',')) <= {'arduino', 'c', 'python', 'go'} or not set(c['act'].split(',')) <= {'zonedb', 'json', 'zonelist'} or lo is not None and c['start'] < lo
    o = dict(scope=c['scope'], start_year=c['start'], until_year=c['until'], until_at_granularity=ua, offset_granularity=of, delta_granularity=de, strict=c['strict'], tiny=c['scope'] != 'complete', tiny_base=c['base'],
             include=c['inc'] or [], compress=c['compress'])
    return o, bad

def call_main(argv):
    """-> exception or None"""
    m = run.mod('tzcompiler')
    old = sys.argv
    sys.argv = ['tzcompiler.py'] + argv
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): m.main()
    except SystemExit as e: return e if e.code not in (0, None) else None
    except Exception as e: return e
    finally: sys.argv = old
    return None

def cli(c):
    from .run import StubProcessor as SP
    run.setup()
    SP.sizes, SP.terminal = staticmethod(lambda n, y: (1, 2)), staticmethod(lambda n, y: y > 1990)
    d = run.tmpdir()
    src, out = os.path.join(d, 'src'), os.path.join(d, 'out')
    for p in (src, out):
        shutil.rmtree(p, ignore_errors=True); os.makedirs(p)
    run.write_files(c['files'], src)
    argv = c['args'] + ['--input_dir', src, '--output_dir', out]
    if c['inc'] is not None:
        with open(os.path.join(d, 'inc'), 'w') as h: h.write('\n'.join(c['inc']) + '\n')
        argv += ['--include_list', os.path.join(d, 'inc')]
    o, bad = cli_expect(c)
    e = call_main(argv)
    if bad:
        if e is None: yield 'must be rejected but was accepted'
        elif os.listdir(out): yield f'rejected but wrote {os.listdir(out)}'
        return
    db = model.parse(c['files'])
    M = model.run(db, o)
    if M.must_raise or M.may_raise:
        if M.must_raise and e is None: yield f'must be rejected ({M.must_raise[0]}) but was accepted'
        return
    if not M.zones: return
    if e is not None:
        # the encodings reject values that do not fit the granularities asked for
        if isinstance(e, SystemExit) or not encodable(M, c, o): 
            if isinstance(e, SystemExit): yield 'rejected although the options are valid'
            return
        yield f'unexpected {type(e).__name__}: {e} in {run.where(e)[-1]}'
        return
    langs, acts = set(c['lang'].split(',')), set(c['act'].split(','))
    want = set()
    if 'json' in acts: want.add('zonedb.json')
    if 'zonelist' in acts: want.add('zones.txt')
    if 'zonedb' in acts:
        for l, ext in (('arduino', ('h', 'cpp')), ('c', ('h', 'c')), ('python', ('py',)), ('go', ('go',))):
            if l in langs: want |= {f'zone_{n}.{e}' for n in (('policies', 'infos', 'registry') ) for e in ext}
    have = set(os.listdir(out))
    if not want <= have: yield f'missing output files {sorted(want - have)}'
    exts = {x.rsplit('.', 1)[1] for x in have} - {x.rsplit('.', 1)[1] for x in want}
    if exts: yield f'unexpected output files {sorted(x for x in have if x.rsplit(".", 1)[1] in exts)}'
    if 'json' in acts and 'zonedb.json' in have:
        j = json.load(open(os.path.join(out, 'zonedb.json')))
        for k in ('scope', 'start_year', 'until_year', 'until_at_granularity', 'offset_granularity', 'delta_granularity', 'strict', 'compress'):
            if j.get(k) != o[k]: yield f'{k} = {j.get(k)}, should be {o[k]}'
        if set(j.get('zones_map', ())) != set(M.zones): yield f'zones {sorted(j["zones_map"])}, should be {sorted(M.zones)}'
        rules = [r for p in j['policies_map'].values() for r in p['rules']]
        eras = [e for z in j['zones_map'].values() for e in z['eras']]
        for p, x in M.policies.items():
            got = [(r['at_seconds_truncated'], r['delta_seconds_truncated']) for r in j['policies_map'].get(p, {}).get('rules', [])]
            if got != [(r['at_seconds_truncated'], r['delta_seconds_truncated']) for r in x['rules']]: yield f'policy {p}: AT and SAVE {got}'
        for n, x in M.zones.items():
            got = [(e['until_seconds_truncated'], e['offset_seconds_truncated'], e['era_delta_seconds_truncated']) for e in j['zones_map'].get(n, {}).get('eras', [])]
            if got != [(e['until_seconds_truncated'], e['offset_seconds_truncated'], e['era_delta_seconds_truncated']) for e in x['eras']]: yield f'zone {n}: UNTIL, STDOFF and RULES {got}'
        if any(('from_year_tiny' in r) != o['tiny'] for r in rules) or any(('until_year_tiny' in e) != o['tiny'] for e in eras): yield f'tiny years {"missing" if o["tiny"] else "generated"}'
        if o['tiny'] and any(e['until_year_tiny'] != model.tiny_until(e['until_year'], o['tiny_base']) for e in eras): yield f'tiny years not based on {o["tiny_base"]}'
        if langs & {'arduino', 'c'} and eras and ('until_time_seconds_code' in eras[0]) != (c['scope'] == 'complete'): yield 'wrong time code format for the scope'
        if langs & {'arduino', 'c'} and bool(j.get('compressed_names')) != c['compress'] and M.zones: yield 'compression does not follow the option'
    for l, ext in (('arduino', 'cpp'), ('c', 'c')):
        if 'zonedb' in acts and l in langs and f'zone_infos.{ext}' in have:
            t = open(os.path.join(out, f'zone_infos.{ext}')).read()
            if not ('untilYearTiny' in t or 'until_year_tiny' in t) == o['tiny']: yield f'{l} files: tiny years {"missing" if o["tiny"] else "generated"}'

def encodable(M, c, o):
    langs = set(c['lang'].split(','))
    low = o['scope'] != 'complete'
    for p in M.policies.values():
        for r in p['rules']:
            a, d = r['at_seconds_truncated'], r['delta_seconds_truncated']
            if langs & {'arduino', 'c'} and (low and (a % 60 or d % 900) or not low and (d % 60 or not -128 <= d // 60 <= 127)): return False
            if 'go' in langs and (d % 60 or not -128 <= d // 60 <= 127): return False
    for z in M.zones.values():
        for e in z['eras']:
            a, d, f = e['until_seconds_truncated'], e['era_delta_seconds_truncated'], e['offset_seconds_truncated']
            if langs & {'arduino', 'c'} and (low and (a % 60 or d % 900 or f % 60 or not 0 <= d // 900 + 4 <= 15) or not low and (d % 60 or not -128 <= d // 60 <= 127)): return False
            if 'go' in langs and (d % 60 or not -128 <= d // 60 <= 127): return False
    return True

def c22(r, n):
    for i in range(max(20, n // 3)):
        c = cli_case(r)
        for m in cli(c): yield ['cli', c], f'{" ".join(c["args"])}: {m}'

# ---- same output under different hash seeds (C15)

CHILD = '''
import sys, hashlib, os, json
sys.path.insert(0, %r)
from search import engine, run, gen, files, oracles, model
case = json.load(open(sys.argv[1]))
ex = run.extract(case)
tr, tf, exc = run.transform(case, ex)
out = {}
if exc is None and tr.zones_map:
    files.estimate(case, tr) and None
    list(files.estimate(case, tr))
    run.mod('transformer.commenter').Commenter().transform(tr)
    langs = ['python', 'json', 'zonelist']
    try:
        run.mod('transformer.artransformer').ArduinoTransformer(case['opts']['scope'], case['opts']['compress'], case['tcf']).transform(tr); langs += ['arduino', 'c']
    except Exception: pass
    try: run.mod('transformer.gotransformer').GoTransformer().transform(tr); langs.append('go')
    except Exception: pass
    d = run.tmpdir()
    for l in langs:
        try: files.generate(case, tr, d, (l,))
        except Exception as e: out[l] = 'failed'; continue
        for n in sorted(os.listdir(os.path.join(d, l))): out[l + '/' + n] = open(os.path.join(d, l, n), 'rb').read().decode('utf-8', 'replace')
print(json.dumps(out))
'''

def same_output(case, seeds=(0, 1, 2, 3)):
    d = run.tmpdir()
    p = os.path.join(d, 'case.json')
    with open(p, 'w') as h: json.dump(case, h)
    env = dict(os.environ)
    ps = []
    for s in seeds:
        env['PYTHONHASHSEED'] = str(s)
        ps.append(subprocess.Popen([sys.executable, '-B', '-c', CHILD % os.path.dirname(os.path.dirname(os.path.abspath(__file__))), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    outs = []
    for q in ps:
        o, e = q.communicate(timeout=120)
        if q.returncode: return f'run failed: {e.strip().splitlines()[-1] if e.strip() else q.returncode}', False
        outs.append(json.loads(o))
    for k in sorted(set().union(*outs)):
        if len({o.get(k) for o in outs}) > 1:
            a = [o.get(k) or '' for o in outs]
            i = next(j for j in range(1, len(a)) if a[j] != a[0])
            x, y = a[0].split('\n'), a[i].split('\n')
            l = next((l for l in range(min(len(x), len(y))) if x[l] != y[l]), min(len(x), len(y)))
            return f'{k} differs between hash seeds {seeds[0]} and {seeds[i]} at line {l + 1}: {x[l:l + 1]} / {y[l:l + 1]}', True
    return None, bool(outs[0])

def c15(r, n):
    from . import engine
    for i in range(max(4, n // 25)):
        c = engine.case_for('C15', r.randrange(10**6))
        m, real = same_output(c)
        if m and real: yield ['same_output', c], m

UNIT = dict(C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C11=c11, C13=c13, C15=c15, C16=c16, C21=c21, C22=c22)
