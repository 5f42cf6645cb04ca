"""Property oracles on the observable results of the real code.  Each yields
(properties, message) for what it finds wrong on one case."""
import re
from . import model, run
from .model import djb2

FUNC_PROP = [('include', 'C16'), ('links_to_links', 'C02'), ('similar', 'C02'), ('hash', 'C09'), ('_ids', 'C09'), ('tzdb_years', 'C19'), ('trunc', 'C19'),
             ('accurate', 'C19'), ('count', 'C01'), ('era', 'C03'), ('monotonic', 'C03'), ('until_day', 'C06'), ('day_of_month', 'C06'), ('days_in_month', 'C06'),
             ('on_day', 'C06'), ('time', 'C05'), ('offset', 'C05'), ('rules_expansion', 'C05'), ('granularity', 'C05'), ('div', 'C05'), ('tiny', 'C08'),
             ('format', 'C18'), ('letter', 'C18'), ('anchor', 'C04'), ('prior', 'C04'), ('too_old', 'C04'), ('interval', 'C04'), ('missing', 'C02'),
             ('without_rules', 'C02'), ('unused', 'C02'), ('multiple', 'C17'), ('border', 'C17'), ('simple', 'C17'), ('comment', 'C21'), ('from_year', 'C04')]

def props_of_exception(e):
    out = set()
    for f in run.where(e):
        for k, p in FUNC_PROP:
            if k in f: out.add(p); break
    return out or {'C01'}

def props_of_reason(r):
    if 'include list' in r: return {'C16'}
    if 'not found' in r or 'Target Zone' in r: return {'C02'}
    if 'contains month' in r or 'fixed RULES' in r or 'ransition' in r: return {'C17'}
    if 'too old or too new' in r: return {'C04'}
    if re.search(r'ncreasing|final UNTIL|eras|ZoneEra', r): return {'C03'}
    if re.search(r'until_day|on_day|hift', r): return {'C06'}
    if 'suffix' in r: return {'C05', 'C17'}
    if re.search(r'UNTIL|AT|STDOFF|SAVE|RULES', r): return {'C05'}
    if r == 'unused': return {'C02'}
    return {'C01'}

def extraction(case, ex, db):
    """C07"""
    P = {'C07'}
    pm, zm, lm = ex.get_data()
    for what, real, want, key in (('zone', zm, db['zones'], 'eras'), ('policy', pm, db['rules'], 'rules')):
        for n in want:
            if n not in real: yield P, f'{what} {n} missing from the parsed database'; continue
            items = real[n][key]
            if len(items) != len(want[n]): yield P, f'{what} {n}: {len(items)} {key} parsed, source has {len(want[n])}'; continue
            for i, (a, b) in enumerate(zip(items, want[n])):
                for k, v in b.items():
                    if a.get(k) != v: yield P, f'{what} {n} {key}[{i}].{k} = {a.get(k)!r}, source says {v!r}'
        for n in real:
            if n not in want: yield P, f'{what} {n} is not in the source'
    if dict(lm) != db['links']: yield P, f'links {dict(lm)} but the source says {db["links"]}'
    got = [ex.invalid_rule_lines, ex.invalid_zone_lines, ex.invalid_link_lines]
    if got != db['dropped']: yield P, f'counted {got} invalid rule/zone/link lines, source has {db["dropped"]}'

ERA_C05 = ['until_seconds', 'until_seconds_truncated', 'offset_seconds', 'offset_seconds_truncated', 'era_delta_seconds', 'era_delta_seconds_truncated', 'until_time_suffix']
RULE_C05 = ['at_seconds', 'at_seconds_truncated', 'delta_seconds', 'delta_seconds_truncated']

def transformed(case, tr, tf, exc, M, inputs):
    """C01-C06, C08, C09, C16-C19 against the model outcome M"""
    o = case['opts']
    if exc is not None:
        if M.must_raise or M.may_raise: return
        ps = props_of_exception(exc)
        if 'C01' in ps or re.search(r'Expected \d+', str(exc)):
            for d, keep in ((tf.all_removed_zones, M.zones), (tf.all_removed_policies, M.policies), (tf.all_removed_links, M.links)):
                for n in keep:
                    for r in d.get(n, ()): ps |= props_of_reason(r)
        yield ps, f'unexpected {type(exc).__name__}: {exc}'
        return
    if M.must_raise:
        for p, why in M.must_raise: yield {p, 'C01'} if p == 'C01' else {p}, f'must be rejected ({why}) but was accepted'
        return
    for what, key, out, rem, src, mo, mr in (
            ('zone', 'zones', tr.zones_map, tr.removed_zones, inputs['zones'], M.zones, M.removed_zones),
            ('policy', 'policies', tr.policies_map, tr.removed_policies, inputs['rules'], M.policies, M.removed_policies),
            ('link', 'links', tr.links_map, tr.removed_links, inputs['links'], M.links, M.removed_links)):
        for n in src:
            if (n in out) == (n in rem): yield {'C01'}, f'{what} {n} is in {"both" if n in out else "neither"} the output and the removed list'
            if n in rem and not rem[n]: yield {'C01'}, f'{what} {n} removed without a reason'
            if n in out and n in mr: yield mr[n] | ({'C02'} if what != 'zone' else set()), f'{what} {n} emitted but must be removed'
            if n in mo and n not in out:
                ps = set()
                for r in rem.get(n, ['']): ps |= props_of_reason(r)
                if what == 'zone' and 'C02' in ps:
                    for p in {e['policy_name'] for e in mo[n]['eras']} - {None}:
                        for r in tr.removed_policies.get(p, ()): ps |= props_of_reason(r)
                yield ps, f'{what} {n} must be emitted but was removed: {sorted(rem.get(n, []))}'
            if o['include'] and n not in o['include'] and what != 'policy' and n in rem and not any('include' in r for r in rem[n]): yield {'C16'}, f'{what} {n}: not reported as missing from the include list'
        for n in list(out) + list(rem):
            if n not in src: yield {'C01'}, f'{what} {n} in the output is not in the input'
    for n, z in tr.zones_map.items():
        for e in z['eras']:
            p = e.get('policy_name')
            if p and p not in tr.policies_map: yield {'C02'}, f'zone {n} refers to policy {p} which is not emitted'
    for l, t in tr.links_map.items():
        if t not in tr.zones_map: yield {'C02'}, f'link {l} points at {t} which is not an emitted zone'
        if l in inputs['links'] and t != inputs['links'][l]: yield {'C02'}, f'link {l} points at {t}, source says {inputs["links"][l]}'
    for n, m in M.zones.items():
        if n not in tr.zones_map: continue
        z = tr.zones_map[n]
        raw = lambda es: [(e['offset_string'], e['rules'], e['format'], e['until_year']) for e in es]
        if raw(z['eras']) != raw(m['eras']):
            yield {'C03'}, f'zone {n}: eras {raw(z["eras"])} but should be {raw(m["eras"])}'
            continue
        for f in ('lower_era_truncated', 'upper_era_truncated'):
            if bool(z[f]) != m[f]: yield {'C03', 'C19'}, f'zone {n}: {f} = {z[f]}, should be {m[f]}'
        for f in ('lower_zone_truncated', 'upper_zone_truncated'):
            if bool(z[f]) != m[f]: yield {'C03', 'C19'}, f'zone {n}: {f} = {z[f]}, should be {m[f]}'
        for i, (a, b) in enumerate(zip(z['eras'], m['eras'])):
            last = i == len(m['eras']) - 1
            for f in ERA_C05:
                if a.get(f) != b[f]: yield {'C05', 'C03'} if last else {'C05'}, f'zone {n} era {i}: {f} = {a.get(f)!r}, should be {b[f]!r}'
            for f in ('until_month', 'until_day'):
                if a.get(f) != b[f]: yield {'C06', 'C03'} if last else {'C06'}, f'zone {n} era {i}: {f} = {a.get(f)!r}, should be {b[f]!r}'
            if a.get('until_year_only') != b['until_year_only']: yield {'C03'}, f'zone {n} era {i}: until_year_only = {a.get("until_year_only")}, should be {b["until_year_only"]}'
            if a.get('format_short') != b['format_short'] or a.get('format') != b['format']: yield {'C18'}, f'zone {n} era {i}: format_short = {a.get("format_short")!r}, should be {b["format_short"]!r}'
            if a.get('policy_name') != b['policy_name']: yield {'C02', 'C05'}, f'zone {n} era {i}: policy_name = {a.get("policy_name")!r}, should be {b["policy_name"]!r}'
            if o['tiny'] and a.get('until_year_tiny') != b['until_year_tiny']: yield {'C08'}, f'zone {n} era {i}: until_year_tiny = {a.get("until_year_tiny")} for {b["until_year"]}, should be {b["until_year_tiny"]}'
    for n, m in M.policies.items():
        if n not in tr.policies_map: continue
        p = tr.policies_map[n]
        raw = lambda rs: [(r['from_year'], r['to_year'], r['in_month']) for r in rs]
        if raw(p['rules']) != raw(m['rules']):
            yield {'C04'}, f'policy {n}: rules (from, to, month) {raw(p["rules"])} but should be {raw(m["rules"])}'
            continue
        for f in ('lower_rule_truncated', 'upper_rule_truncated'):
            if bool(p[f]) != m[f]: yield {'C04', 'C19'}, f'policy {n}: {f} = {p[f]}, should be {m[f]}'
        for i, (a, b) in enumerate(zip(p['rules'], m['rules'])):
            anchor = {'C04'} if i == 0 else set()
            for f in RULE_C05 + ['at_time_suffix']:
                if a.get(f) != b[f]: yield {'C05'} | anchor, f'policy {n} rule {i}: {f} = {a.get(f)!r}, should be {b[f]!r}'
            for f in ('on_day_of_week', 'on_day_of_month'):
                if a.get(f) != b[f]: yield {'C06'} | anchor, f'policy {n} rule {i}: {f} = {a.get(f)!r}, should be {b[f]!r}'
            if a.get('letter') != b['letter']: yield {'C18'} | anchor, f'policy {n} rule {i}: letter = {a.get("letter")!r}, should be {b["letter"]!r}'
            if o['tiny']:
                for f in ('from_year_tiny', 'to_year_tiny'):
                    if a.get(f) != b[f]: yield {'C08'}, f'policy {n} rule {i}: {f} = {a.get(f)!r} for {b["from_year"]}..{b["to_year"]}, should be {b[f]!r}'
    for what, ids, names in (('zone', tr.zone_ids, tr.zones_map), ('link', tr.link_ids, tr.links_map)):
        if set(ids) != set(names): yield {'C09'}, f'{what} ids are given for {sorted(ids)} but emitted are {sorted(names)}'
        for n, i in ids.items():
            if i != djb2(n): yield {'C09'}, f'{what} id of {n} is {i}, djb2 says {djb2(n)}'
            if i == 0: yield {'C09'}, f'{what} id of {n} is zero'
        if list(ids) != sorted(ids): yield {'C15'}, f'{what} ids are not in sorted order: {list(ids)}'
    if (bool(tr.lower_truncated), bool(tr.upper_truncated)) != (M.lower, M.upper): yield {'C19'}, f'lower/upper_truncated = {tr.lower_truncated}/{tr.upper_truncated}, should be {M.lower}/{M.upper}'
    if (tr.start_year_accurate, tr.until_year_accurate) != (M.start_acc, M.until_acc):
        yield {'C19'}, f'accurate years {tr.start_year_accurate}..{tr.until_year_accurate}, should be {M.start_acc}..{M.until_acc}'
    if (tr.original_min_year, tr.original_max_year) != M.orig_years: yield {'C19'}, f'original years {tr.original_min_year}..{tr.original_max_year}, should be {M.orig_years}'
    if (tr.generated_min_year, tr.generated_max_year) != M.gen_years: yield {'C19'}, f'generated years {tr.generated_min_year}..{tr.generated_max_year}, should be {M.gen_years}'
    if o['scope'] == 'basic':
        for n, z in tr.zones_map.items():
            for e in z['eras']:
                if not e['until_year_only'] or e['until_time_suffix'] != 'w' or ':' in e['rules'] or (e['until_month'], e['until_day'], e['until_seconds']) != (1, 1, 0):
                    yield {'C17'}, f'basic scope emitted zone {n} with era {e}'
        for n, p in tr.policies_map.items():
            seen = set()
            for r in p['rules']:
                if r['from_year'] == model.MIN_YEAR: continue
                if r['in_month'] == 1 and r['on_day_of_month'] == 1: yield {'C17'}, f'basic scope emitted policy {n} with a January 1 transition'
                for y in range(max(r['from_year'], 0), min(r['to_year'], 3000) + 1):
                    if (y, r['in_month']) in seen: yield {'C17'}, f'basic scope emitted policy {n} with two transitions in {y}-{r["in_month"]}'; break
                    seen.add((y, r['in_month']))
    yield from notes(case, tr, M)

def notes(case, tr, M):
    """C21: notes that must have been recorded and kept"""
    o = case['opts']
    for n, m in M.zones.items():
        if n not in tr.zones_map: continue
        need = set()
        for e in m['eras']:
            if e['until_seconds'] % 900: need.add('UNTIL')
            if e['offset_seconds'] % 1800: need.add('STDOFF')
            if e['era_delta_seconds'] not in (0, 3600): need.add('RULES')
            if e['policy_name'] and not ('%s' in e['format'] or '/' in e['format']): need.add('FORMAT')
        if m['upper_era_truncated']: need.add('eras')
        got = ' '.join(tr.notable_zones.get(n, ()))
        for k in need:
            if k not in got: yield {'C21'}, f'zone {n}: a note about {k} was lost (notes: {got!r})'
        if not need and o['strict'] and n in tr.notable_zones and 'until_month' not in got: yield {'C21'}, f'zone {n} has a note that nothing calls for: {got!r}'
    for n, m in M.policies.items():
        if n not in tr.policies_map: continue
        need = set()
        for r in m['rules'][1:]:
            if r['at_seconds'] % 900: need.add('AT ')
            if r['delta_seconds'] not in (0, 3600): need.add('SAVE')
            if len(r['letter']) > 1: need.add('LETTER')
        got = ' '.join(tr.notable_policies.get(n, ()))
        for k in need:
            if k not in got: yield {'C21'}, f'policy {n}: a note about {k} was lost (notes: {got!r})'

def commenter(case, tr):
    """C21"""
    run.mod('transformer.commenter').Commenter().transform(tr)
    ztp = {}
    for n, z in tr.zones_map.items():
        for e in z['eras']:
            if e['policy_name']: ztp.setdefault(n, set()).add(e['policy_name'])
    if {k: set(v) for k, v in tr.zones_to_policies.items()} != ztp: yield {'C21'}, f'zones_to_policies = {tr.zones_to_policies}, should be {ztp}'
    for n in set(tr.merged_notable_zones) | set(tr.notable_zones) | set(ztp):
        own = set(tr.notable_zones.get(n, ()))
        pol = {p: set(tr.notable_policies[p]) for p in ztp.get(n, ()) if p in tr.notable_policies}
        got = tr.merged_notable_zones.get(n)
        if got is None:
            if own or pol: yield {'C21'}, f'zone {n} has notes {own} {pol} but no merged notes'
            continue
        s = [x for x in got if isinstance(x, str)]
        d = {}
        for x in got:
            if not isinstance(x, str):
                for k, v in x.items(): d.setdefault(k, []).extend(v)
        if set(s) != own or len(s) != len(own): yield {'C21'}, f'zone {n}: merged own notes {s}, should be {sorted(own)}'
        if {k: set(v) for k, v in d.items()} != pol: yield {'C21'}, f'zone {n}: merged policy notes {d}, should be {pol}'
        if s != sorted(s) or any(list(v) != sorted(v) for v in d.values()): yield {'C15', 'C21'}, f'zone {n}: merged notes not sorted'

def arduino(case, tr, tcf):
    """C10, C13, C15, C18 on the Arduino/C tables"""
    from copy import deepcopy
    o = case['opts']
    art = run.mod('transformer.artransformer')
    t = art.ArduinoTransformer(o['scope'], o['compress'], tcf)
    rules = [(p, i, r) for p, x in tr.policies_map.items() for i, r in enumerate(x['rules'])]
    eras = [(n, i, e) for n, x in tr.zones_map.items() for i, e in enumerate(x['eras'])]
    bad = []
    for p, i, r in rules:
        a, d = r['at_seconds_truncated'], r['delta_seconds_truncated']
        if tcf == 'low' and (a % 60 or d % 900 or not 0 <= d // 900 + 4 <= 15): bad.append(f'{p} rule {i}')
        if tcf == 'high' and (d % 60 or not -128 <= d // 60 <= 127): bad.append(f'{p} rule {i}')
    for n, i, e in eras:
        a, d, f = e['until_seconds_truncated'], e['era_delta_seconds_truncated'], e['offset_seconds_truncated']
        if tcf == 'low' and (a % 60 or d % 900 or f % 60 or not 0 <= d // 900 + 4 <= 15): bad.append(f'{n} era {i}')
        if tcf == 'high' and (d % 60 or not -128 <= d // 60 <= 127): bad.append(f'{n} era {i}')
    frs = {}
    for n in list(tr.zones_map) + list(tr.links_map):
        cs = n.split('/')
        for c in cs[:-1]:
            if len(c) >= 3: frs[c + '/'] = frs.get(c + '/', 0) + 1
    nfr = sum(1 for f, c in frs.items() if c > 3)
    before = deepcopy((tr.zones_map, tr.policies_map, tr.links_map))
    try: t.transform(tr)
    except Exception as e:
        if not bad and not (o['compress'] and nfr >= 31):
            fs = ' '.join(run.where(e))
            ps = {'C13'} if 'ragment' in fs or 'ompress' in fs else {'C18'} if 'letter' in fs or 'format' in fs else {'C10'}
            yield ps, f'unexpected {type(e).__name__}: {e}'
        return False
    if bad: yield {'C10'}, f'{tcf}: not representable but accepted: {bad[:3]}'; return False
    if o['compress'] and nfr > 31: yield {'C13'}, f'{nfr} fragments accepted'
    for p, i, r in rules: yield from rule_codes(f'policy {p} rule {i}', r, tcf)
    for n, i, e in eras: yield from era_codes(f'zone {n} era {i}', e, tcf)
    letters = {r['letter'] for _, _, r in rules} | {''}
    formats = {e['format_short'] for _, _, e in eras}
    for what, m, want in (('letters_map', tr.letters_map, letters), ('formats_map', tr.formats_map, formats)):
        ks = list(m)
        if set(ks) != want: yield {'C18'}, f'{what} holds {ks}, should hold {sorted(want)}'
        if ks != sorted(ks) or list(m.values()) != list(range(len(m))): yield {'C15', 'C18'}, f'{what} not sorted with consecutive positions: {m}'
    inv = {v: k for k, v in tr.letters_map.items()}
    for p, i, r in rules:
        if inv.get(r.get('letter_index')) != r['letter']: yield {'C18'}, f'policy {p} rule {i}: letter_index {r.get("letter_index")} selects {inv.get(r.get("letter_index"))!r}, letter is {r["letter"]!r}'
    yield from compressed(case, tr, frs)
    return True

def dec(r, pre, tcf):
    if tcf == 'low': c, m, q, mul, unit = r[pre + '_code'], r[pre + '_modifier'], r[pre + '_minute'], 900, 60
    else: c, m, q, mul, unit = r[pre + '_seconds_code'], r[pre + '_seconds_modifier'], r[pre + '_seconds_remainder'], 15, 1
    return c, m, q, c * mul + (m & 0x0f) * unit, {0: 'w', 0x10: 's', 0x20: 'u'}.get(m & 0xf0)

def rule_codes(who, r, tcf):
    P = {'C10'}
    try:
        c, m, q, s, sfx = dec(r, 'at_time', tcf)
        if s != r['at_seconds_truncated'] or sfx != r['at_time_suffix'] or q != m & 15: yield P, f'{who}: AT code {c}/{q}/{m} decodes to {s}{sfx}, should be {r["at_seconds_truncated"]}{r["at_time_suffix"]}'
        if not (0 <= c <= (255 if tcf == 'low' else 65535) and 0 <= m <= 255): yield P, f'{who}: AT code {c}/{m} does not fit'
        if tcf == 'low':
            d = (r['delta_code_encoded'] - 4) * 900
            if not 0 <= r['delta_code_encoded'] <= 15 or r['delta_code'] * 900 != r['delta_seconds_truncated']: yield P, f'{who}: SAVE code {r["delta_code"]}/{r["delta_code_encoded"]} for {r["delta_seconds_truncated"]}s'
        else:
            d = r['delta_minutes'] * 60
            if not -128 <= r['delta_minutes'] <= 127: yield P, f'{who}: SAVE code {r["delta_minutes"]} does not fit'
        if d != r['delta_seconds_truncated']: yield P, f'{who}: SAVE decodes to {d}, should be {r["delta_seconds_truncated"]}'
    except KeyError as e: yield P, f'{who}: no field {e}'

def era_codes(who, e, tcf):
    P = {'C10'}
    try:
        c, m, q, s, sfx = dec(e, 'until_time', tcf)
        if s != e['until_seconds_truncated'] or sfx != e['until_time_suffix'] or q != m & 15: yield P, f'{who}: UNTIL code {c}/{q}/{m} decodes to {s}{sfx}, should be {e["until_seconds_truncated"]}{e["until_time_suffix"]}'
        if not (0 <= c <= (255 if tcf == 'low' else 65535) and 0 <= m <= 255): yield P, f'{who}: UNTIL code {c}/{m} does not fit'
        if tcf == 'low':
            x = e['delta_code_encoded']
            o = e['offset_code'] * 900 + (x >> 4) * 60
            d = ((x & 15) - 4) * 900
            if not 0 <= x <= 255 or not -128 <= e['offset_code'] <= 127 or e['offset_minute'] != x >> 4 or e['delta_code'] * 900 != d: yield P, f'{who}: offset/SAVE codes {e["offset_code"]}/{e["offset_minute"]}/{e["delta_code"]}/{x}'
        else:
            o = e['offset_seconds_code'] * 15 + e['offset_seconds_remainder']
            d = e['delta_minutes'] * 60
            if not -32768 <= e['offset_seconds_code'] <= 32767 or not 0 <= e['offset_seconds_remainder'] <= 14 or not -128 <= e['delta_minutes'] <= 127: yield P, f'{who}: offset/SAVE codes do not fit'
        if o != e['offset_seconds_truncated']: yield P, f'{who}: STDOFF decodes to {o}, should be {e["offset_seconds_truncated"]}'
        if d != e['era_delta_seconds_truncated']: yield P, f'{who}: SAVE decodes to {d}, should be {e["era_delta_seconds_truncated"]}'
    except KeyError as x: yield P, f'{who}: no field {x}'

def expand(s, inv): return ''.join(inv.get(ord(c), c) if ord(c) < 32 else c for c in s)

def c_bytes(lit):
    """bytes denoted by a sequence of C string literals, or None"""
    out, pos = '', 0
    lit = lit.strip()
    while pos < len(lit):
        if lit[pos] in ' \n\t': pos += 1; continue
        if lit[pos] != '"': return None
        pos += 1
        while pos < len(lit) and lit[pos] != '"':
            if lit[pos] == '\\':
                m = re.match(r'\\x([0-9a-fA-F]+)', lit[pos:])
                if not m:
                    m = re.match(r'\\([0-7]{1,3})', lit[pos:])
                    if not m: return None
                    out += chr(int(m.group(1), 8))
                elif int(m.group(1), 16) > 255: return None
                else: out += chr(int(m.group(1), 16))
                pos += m.end()
            else: out += lit[pos]; pos += 1
        if pos >= len(lit): return None
        pos += 1
    return out

def compressed(case, tr, frs=None):
    P = {'C13'}
    o = case['opts']
    fm = tr.fragments_map
    if not o['compress']:
        if tr.compressed_names or fm: yield P, 'names compressed although compression is off'
        return
    inv = {}
    for f, k in fm.items():
        if not 0 < k < 32: yield P, f'fragment {f!r} has keyword {k}'
        if k in inv: yield P, f'keyword {k} used twice'
        inv[k] = f
    if list(fm) != sorted(fm) or list(fm.values()) != list(range(1, len(fm) + 1)): yield {'C15'}, f'fragments not sorted and consecutive: {fm}'
    names = list(tr.zones_map) + list(tr.links_map)
    if set(tr.compressed_names) != set(names): yield P, f'compressed names {sorted(tr.compressed_names)}, should be {sorted(names)}'
    lit = run.mod('generator.argenerator').compressed_name_to_c_string
    for n, c in tr.compressed_names.items():
        if expand(c, inv) != n: yield P, f'{n} is compressed to {c!r} which expands to {expand(c, inv)!r}'
        if c_bytes(lit(c)) != c: yield P, f'C literal {lit(c)} of {c!r} denotes {c_bytes(lit(c))!r}'
    zn, ln = sorted(tr.zones_map), sorted(tr.links_map)
    if list(tr.compressed_names) not in (zn + ln, sorted(zn + ln)): yield {'C15'}, f'compressed names not sorted: {list(tr.compressed_names)}'

def go(case, tr):
    """C12, C14, C15, C18 on the Go tables"""
    mod = run.mod('transformer.gotransformer')
    rules = [(p, i, r) for p, x in sorted(tr.policies_map.items()) for i, r in enumerate(x['rules'])]
    eras = [(n, i, e) for n, x in sorted(tr.zones_map.items()) for i, e in enumerate(x['eras'])]
    bad = [f'{p} rule {i}' for p, i, r in rules if r['delta_seconds_truncated'] % 60] + [f'{n} era {i}' for n, i, e in eras if e['era_delta_seconds_truncated'] % 60]
    letters = sorted({r['letter'] for _, _, r in rules} | {''})
    formats = sorted({e['format'].replace('%s', '%') for _, _, e in eras} | {''})
    names = sorted(set(tr.zones_map) | set(tr.links_map))
    if any('~' in x for x in (letters, formats, names)): return False
    over = sum(map(len, letters)) > 255 or sum(map(len, formats)) > 65535 or sum(map(len, names)) > 65535 or len(rules) > 65535 or len(tr.policies_map) > 254
    try: mod.GoTransformer().transform(tr)
    except Exception as e:
        if not bad and not over: yield {'C12'}, f'unexpected {type(e).__name__}: {e}'
        return False
    if bad: yield {'C14'}, f'SAVE not in whole minutes but accepted: {bad[:3]}'; return False
    if over: yield {'C12'}, 'a table overflows its index type but was accepted'; return False
    P = {'C12'}
    for what, m, want in (('letters', tr.go_letters_map, letters), ('formats', tr.go_formats_map, formats), ('names', tr.go_names_map, names)):
        ks = list(m)
        if not ks or ks[-1] != '~': yield P, f'Go {what}: no sentinel at the end'; continue
        if ks[:-1] != sorted(ks[:-1]): yield {'C15'}, f'Go {what} not sorted'
        need = set(want) - ({'%z'} if what == 'formats' else set())
        if not need <= set(ks[:-1]): yield P, f'Go {what}: {sorted(need - set(ks[:-1]))} missing'
        if set(ks[:-1]) - set(want): yield P, f'Go {what}: {sorted(set(ks[:-1]) - set(want))} not in the data'
        off = 0
        for i, k in enumerate(ks):
            if tuple(m[k]) != (i, off): yield P, f'Go {what}: {k!r} has (index, offset) {m[k]}, should be {(i, off)}'
            off += len(k)
    idx, off = 1, 0
    want = {'': (0, 0, 0)}
    for p, x in sorted(tr.policies_map.items()): want[p] = (idx, off, len(x['rules'])); idx += 1; off += len(x['rules'])
    if list(tr.go_policy_index_size_map.items()) != list(want.items()): yield P, f'Go policies {tr.go_policy_index_size_map}, should be {want}'
    want, idx, off = {}, 0, 0
    for n, x in sorted(tr.zones_map.items()): want[n] = (idx, off, len(x['eras'])); idx += 1; off += len(x['eras'])
    if list(tr.go_info_index_size_map.items()) != list(want.items()): yield P, f'Go infos {tr.go_info_index_size_map}, should be {want}'
    ids = dict(tr.zone_ids); ids.update(tr.link_ids)
    order = sorted(names, key=lambda n: ids[n])
    if list(tr.go_zone_and_link_index_map.items()) != [(n, i) for i, n in enumerate(order)]:
        yield P, f'Go registry {tr.go_zone_and_link_index_map} is not numbered in id order'
    for p, i, r in rules:
        c, m = r['go_at_seconds_code'], r['go_at_seconds_modifier']
        if c * 15 + (m & 15) != r['at_seconds_truncated'] or {0: 'w', 16: 's', 32: 'u'}.get(m & 0xf0) != r['at_time_suffix'] or r['go_delta_minutes'] * 60 != r['delta_seconds_truncated']: yield {'C14'}, f'policy {p} rule {i}: Go codes wrong'
    for n, i, e in eras:
        c, m = e['go_until_seconds_code'], e['go_until_seconds_modifier']
        if c * 15 + (m & 15) != e['until_seconds_truncated'] or {0: 'w', 16: 's', 32: 'u'}.get(m & 0xf0) != e['until_time_suffix'] or e['go_era_delta_minutes'] * 60 != e['era_delta_seconds_truncated']: yield {'C14'}, f'zone {n} era {i}: Go codes wrong'
        if e['go_offset_seconds_code'] * 15 + e['go_offset_seconds_remainder'] != e['offset_seconds_truncated'] or not 0 <= e['go_offset_seconds_remainder'] <= 14: yield {'C14'}, f'zone {n} era {i}: Go offset codes wrong'
    return True

def zidb_of(case, tr):
    o = case['opts']
    at = run.mod('datatypes.attyping')
    return at.create_zone_info_database(tz_version='2024b', tz_files=list(model.FILES), scope=o['scope'], start_year=o['start_year'], until_year=o['until_year'],
        until_at_granularity=o['until_at_granularity'], offset_granularity=o['offset_granularity'], delta_granularity=o['delta_granularity'],
        strict=o['strict'], compress=o['compress'], tresult=tr)

def go_const(text, name):
    m = re.search(r'(?:const|var) ' + name + r' = (.*?)(?=\n\n|\n//|\nconst|\nvar|\Z)', text, re.S)
    return m.group(1) if m else None
def go_string(s):
    """bytes of a Go string constant expression "..." + "..." """
    out = b''
    for lit in re.findall(r'"((?:[^"\\]|\\.)*)"', s):
        pos = 0
        while pos < len(lit):
            if lit[pos] == '\\' and lit[pos + 1] == 'x': out += bytes([int(lit[pos + 2:pos + 4], 16)]); pos += 4
            elif lit[pos] == '\\': out += lit[pos + 1].encode(); pos += 2
            else: out += lit[pos].encode('utf-8'); pos += 1
    return out

def go_files(case, tr, names=('zone_policies.go', 'zone_infos.go')):
    """C14: what a reader of the generated Go strings gets back"""
    P = {'C14'}
    import struct
    gen = run.mod('generator.gogenerator').GoGenerator('x', 'zonedb', zidb_of(case, tr))
    d = run.tmpdir()
    fits = all(-32768 <= r['from_year'] <= 32767 and -32768 <= r['to_year'] <= 32767 and -128 <= r['delta_seconds_truncated'] // 60 <= 127 for p in tr.policies_map.values() for r in p['rules']) \
        and all(-128 <= e['era_delta_seconds_truncated'] // 60 <= 127 and -32768 <= e['until_year'] <= 32767 for z in tr.zones_map.values() for e in z['eras'])
    try: gen.generate_files(d)
    except Exception as e:
        if fits: yield P, f'unexpected {type(e).__name__}: {e}'
        return
    if not fits: yield P, 'a value that does not fit its field was written'; return
    pol, inf = (open(f'{d}/{n}', encoding='utf-8').read() for n in names)
    try:
        data = {k: go_string(go_const(pol if k in ('ZoneRulesData', 'ZonePoliciesData', 'LetterData') else inf, k)) for k in ('ZoneRulesData', 'ZonePoliciesData', 'ZoneErasData', 'ZoneInfosData', 'LetterData', 'FormatData', 'NameData')}
        num = {k: int(go_const(pol if 'Rule' in k or 'Polic' in k else inf, k)) for k in ('ZoneRuleCount', 'ZonePolicyCount', 'ZoneEraCount', 'ZoneInfoCount', 'ZoneRuleChunkSize', 'ZonePolicyChunkSize', 'ZoneEraChunkSize', 'ZoneInfoChunkSize')}
        offs = {k: [int(x) for x in re.findall(r'\d+', go_const(pol if k == 'LetterOffsets' else inf, k).split('{', 1)[1])] for k in ('LetterOffsets', 'FormatOffsets', 'NameOffsets')}
    except (TypeError, ValueError, IndexError) as e:
        yield P, f'generated Go file cannot be read back: {e}'
        return
    if [num[k] for k in ('ZoneRuleChunkSize', 'ZonePolicyChunkSize', 'ZoneEraChunkSize', 'ZoneInfoChunkSize')] != [12, 4, 14, 12]: yield P, f'chunk sizes {num}'
    def rec(key, size, i, fmt): return struct.unpack(fmt, data[key][i * size:(i + 1) * size])
    def text(key, i):
        o = offs[key + 'Offsets']
        return data[key + 'Data'][o[i]:o[i + 1]].decode('utf-8')
    rules = [r for p, x in sorted(tr.policies_map.items()) for r in x['rules']]
    eras = [e for n, x in sorted(tr.zones_map.items()) for e in x['eras']]
    if not (len(data['ZoneRulesData']) == 12 * len(rules) and num['ZoneRuleCount'] == len(rules)): yield P, f'{len(data["ZoneRulesData"]) / 12} rule records, {num["ZoneRuleCount"]} counted, {len(rules)} rules'; return
    if not (len(data['ZoneErasData']) == 14 * len(eras) and num['ZoneEraCount'] == len(eras)): yield P, f'era records wrong in number'; return
    npol, nz = len(tr.policies_map) + 1, len(tr.zones_map) + len(tr.links_map)
    if not (len(data['ZonePoliciesData']) == 4 * npol and num['ZonePolicyCount'] == npol): yield P, f'policy records wrong in number'; return
    if not (len(data['ZoneInfosData']) == 12 * nz and num['ZoneInfoCount'] == nz): yield P, f'info records wrong in number'; return
    sfx = {0: 'w', 16: 's', 32: 'u'}
    try:
        pols = [rec('ZonePoliciesData', 4, i, '<HH') for i in range(npol)]
        pname = {}
        for i, (p, x) in enumerate(sorted(tr.policies_map.items())):
            o, c = pols[i + 1]
            if c != len(x['rules']): yield P, f'policy {p}: rule count {c}'; continue
            pname[i + 1] = p
            for j, r in enumerate(x['rules']):
                fy, ty, mo, dw, dm, md, co, de, le = rec('ZoneRulesData', 12, o + j, '<hhBBbBHbB')
                got = (fy, ty, mo, dw, dm, co * 15 + (md & 15), sfx.get(md & 0xf0), de * 60, text('Letter', le))
                want = (r['from_year'], r['to_year'], r['in_month'], r['on_day_of_week'], r['on_day_of_month'], r['at_seconds_truncated'], r['at_time_suffix'], r['delta_seconds_truncated'], r['letter'])
                if got != want: yield P, f'policy {p} rule {j} reads back as {got}, should be {want}'
        if pols[0] != (0, 0): yield P, f'null policy record {pols[0]}'
        infos = [rec('ZoneInfosData', 12, i, '<IHHHH') for i in range(nz)]
        byname = {}
        for i, (zid, ni, eo, ec, ti) in enumerate(infos):
            n = text('Name', ni)
            if n in byname: yield P, f'{n} has two info records'
            byname[n] = i
        if set(byname) != set(tr.zones_map) | set(tr.links_map): yield P, f'info records for {sorted(byname)}'; return
        if [x[0] for x in infos] != sorted(x[0] for x in infos): yield {'C12', 'C14'}, 'info records not in id order'
        for n, i in byname.items():
            zid, ni, eo, ec, ti = infos[i]
            if zid != djb2(n): yield P, f'{n}: id {zid:#x}'
            if n in tr.links_map:
                if (eo, ec) != (0, 0) or ti != byname[tr.links_map[n]]: yield P, f'link {n}: record {infos[i]}, target is at {byname[tr.links_map[n]]}'
                continue
            z = tr.zones_map[n]
            if ec != len(z['eras']) or ti != 0: yield P, f'zone {n}: record {infos[i]} for {len(z["eras"])} eras'; continue
            for j, e in enumerate(z['eras']):
                fi, pi, rem, oc, uy, de, um, ud, md, uc = rec('ZoneErasData', 14, eo + j, '<HBBhhbBBBH')
                got = (text('Format', fi), pname.get(pi) if pi else None, oc * 15 + rem, uy, de * 60, um, ud, uc * 15 + (md & 15), sfx.get(md & 0xf0))
                want = (e['format_short'], e['policy_name'], e['offset_seconds_truncated'], e['until_year'], e['era_delta_seconds_truncated'], e['until_month'], e['until_day'], e['until_seconds_truncated'], e['until_time_suffix'])
                if got != want: yield P, f'zone {n} era {j} reads back as {got}, should be {want}'
    except (struct.error, IndexError, UnicodeDecodeError) as e:
        yield P, f'generated Go data cannot be read back: {type(e).__name__} {e}'
