"""Independent reference model of the compiler, written from the property
statements (properties.jsonl), used only by the bounded search/replay layer.
It shares no code with /repo."""
import datetime

FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward', 'etcetera', 'europe', 'northamerica', 'southamerica']
MONTHS = ['jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec']
DOWS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
INF_UNTIL, INF_TO, MIN_YEAR, INVALID_YEAR = 32767, 32766, -32767, -32768

def month(s):
    return MONTHS.index(s[:3].lower()) + 1

def at_split(s):
    if s[-1:].isdigit() or s == '': return s, ''
    if s[-1] not in 'wsugz': raise ValueError(s)
    return s[:-1], s[-1]

def parse_rule(line):
    t = line.split()
    fy = int(t[2])
    ty = fy if t[3] == 'only' else INF_TO if t[3] == 'max' else int(t[3])
    at, sfx = at_split(t[7])
    return dict(from_year=fy, to_year=ty, in_month=month(t[5]), on_day=t[6], at_time=at, at_time_suffix=sfx, delta_offset=t[8], letter=t[9])

def parse_era(line):
    t = line.split()
    at, sfx = at_split(t[6]) if len(t) > 6 else ('00:00', 'w')
    return dict(offset_string=t[0], rules=t[1], format=t[2], until_year=int(t[3]) if len(t) > 3 else INF_UNTIL,
                until_year_only=len(t) < 5, until_month=month(t[4]) if len(t) > 4 else 1, until_day_string=t[5] if len(t) > 5 else '1',
                until_time=at, until_time_suffix=sfx)

def parse(files):
    rules, zones, links, dropped = {}, {}, {}, [0, 0, 0]
    rl, zl, ll = {}, {}, {}
    for f in FILES:
        zone = None
        for line in files.get(f, '').split('\n'):
            line = line.split('#')[0].rstrip()
            if not line: continue
            t = line.split()
            bare = ('Rule', 'Zone', 'Link').index(line[:4]) if line[:4] in ('Rule', 'Zone', 'Link') and len(t) < (3 if line[:4] == 'Link' else 2) else None
            if bare is not None: dropped[bare] += 1; zone = None
            elif line[:4] == 'Rule': rl.setdefault(t[1], []).append(line); zone = None
            elif line[:4] == 'Link': ll.setdefault(t[2], []).append(t[1]); zone = None
            elif line[:4] == 'Zone': zone = t[1]; zl.setdefault(zone, []).append(' '.join(t[2:]))
            elif line[0] == '\t' and zone is not None: zl[zone].append(line)
    for n, ls in rl.items():
        for l in ls:
            try: rules.setdefault(n, []).append(parse_rule(l))
            except (ValueError, IndexError): dropped[0] += 1
        if n in rules and not rules[n]: del rules[n]
    for n, ls in zl.items():
        for l in ls:
            try:
                e = parse_era(l); zones.setdefault(n, []).append(e)
            except (ValueError, IndexError): dropped[1] += 1
        if n in zones and not zones[n]: del zones[n]
    for n, ts in ll.items():
        if len(ts) > 1: dropped[2] += len(ts)
        else: links[n] = ts[0]
    return dict(rules={n: r for n, r in rules.items() if r}, zones={n: z for n, z in zones.items() if z}, links=links, dropped=dropped)

def seconds(s):
    """exact seconds denoted by [-]h[:mm[:ss]] or None"""
    neg = s.startswith('-')
    ps = (s[1:] if neg else s).split(':')
    if not 1 <= len(ps) <= 3 or not all(p.isascii() and p.isdigit() for p in ps): return None
    v = [int(p) for p in ps] + [0, 0]
    if v[0] > 25 or v[1] > 59 or v[2] > 59: return None
    n = v[0] * 3600 + v[1] * 60 + v[2]
    return -n if neg else n

def trunc(a, g):
    return (a // g) * g if a >= 0 else -((-a) // g) * g

def onday(s):
    """(dow, dom) or None"""
    if s.isascii() and s.isdigit(): return (0, int(s)) if int(s) != 0 else None
    if s.startswith('last'): return (DOWS.index(s[4:]) + 1, 0) if s[4:] in DOWS else None
    for op, sg in (('>=', 1), ('<=', -1)):
        if op in s:
            d, n = s.split(op, 1)
            if d not in DOWS: return None
            return (DOWS.index(d) + 1, sg * int(n))
    return None

def dim(y, m):
    return (datetime.date(y + (m == 12), m % 12 + 1, 1) - datetime.timedelta(days=1)).day if y < 9999 or m < 12 else 31

def resolve(y, m, dow, dom):
    """calendar (year, month, day) of a day expression"""
    if dow == 0: return (y, m, dom)
    one = datetime.timedelta(days=1)
    if dom == 0:
        d = datetime.date(y, m, dim(y, m))
        while d.isoweekday() != dow: d -= one
    elif dom > 0:
        d = datetime.date(y, m, dom)
        while d.isoweekday() != dow: d += one
    else:
        d = datetime.date(y, m, -dom)
        while d.isoweekday() != dow: d -= one
    return (d.year, d.month, d.day)

def djb2(s):
    h = 5381
    for c in s: h = (h * 33 + ord(c)) & 0xffffffff
    return h

def symbol(s):
    s = s.replace('+', '_PLUS_')
    return ''.join(c if c.isascii() and (c.isalnum() or c == '_') else '_' for c in s)

def tiny(y, base, inf, tinf):
    if y == INVALID_YEAR: return -128
    if y == MIN_YEAR: return -127
    if y == inf: return tinf
    return max(-127, min(tinf, y - base))

def tiny_from(y, base): return tiny(y, base, INF_TO, 126)
def tiny_until(y, base): return tiny(y, base, INF_UNTIL, 127)

class Outcome:
    """what the compiler must produce"""
    def __init__(s):
        s.must_raise = []      # [(property, reason)]
        s.may_raise = []
        s.zones = {}           # name -> dict(eras=[...], flags)
        s.removed_zones = {}   # name -> set of properties that call for the removal
        s.policies = {}
        s.removed_policies = {}
        s.links = {}
        s.removed_links = {}
        s.maybe_zones = set()

def run(db, o):
    """o: dict(scope,start_year,until_year,until_at_granularity,offset_granularity,delta_granularity,strict,tiny,tiny_base,include)"""
    R = Outcome()
    zones, rules, links = db['zones'], db['rules'], db['links']
    basic = o['scope'] == 'basic'
    start, until = o['start_year'], o['until_year']
    if o['tiny']:
        for y in (start, until):
            if not (y in (INVALID_YEAR, MIN_YEAR, INF_TO, INF_UNTIL) or -127 < y - o['tiny_base'] < 126): R.must_raise.append(('C08', 'year %d not tiny' % y))
    for l, t in links.items():
        if t in links: R.must_raise.append(('C02', 'link to link ' + l))
    seen = {}
    hseen = {}
    for n in list(zones) + list(links):
        if symbol(n) in seen: R.must_raise.append(('C02', 'similar names ' + n))
        seen[symbol(n)] = n
        h = djb2(n)
        if h in hseen: R.must_raise.append(('C09', 'hash collision ' + n))
        hseen[h] = n
    # include list
    inc = o['include']
    for n in zones:
        if inc and n not in inc: R.removed_zones[n] = {'C16'}
    for n in links:
        if inc and n not in inc: R.removed_links[n] = {'C16'}
    zc = [n for n in zones if n not in R.removed_zones]
    lc = [n for n in links if n not in R.removed_links]
    zout = {}
    for n in zc:
        why = set()
        kept = [e for e in zones[n] if e['until_year'] >= start - 1]
        lower = len(kept) < len(zones[n])
        if not kept: R.removed_zones[n] = {'C03'}; continue
        k2, st = [], None
        for e in kept:
            if st is None or st <= until + 1: k2.append(e)
            st = e['until_year']
        upper = len(k2) < len(kept)
        eras = [dict(e) for e in k2]
        last = eras[-1]
        if last['until_year'] != INF_UNTIL:
            last.update(until_year=INF_UNTIL, until_year_only=True, until_month=1, until_day_string='1', until_time='00:00', until_time_suffix='w')
        prev = None
        raises = []
        for e in eras:
            if basic and not e['until_year_only']: why.add('C17')
            od = onday(e['until_day_string'])
            bad = False
            if od is None: why.add('C06'); bad = True
            else:
                try: y, m, d = resolve(e['until_year'], e['until_month'], *od)
                except (ValueError, OverflowError): y = None
                if y is None or y != e['until_year']: why.add('C06'); bad = True
                else: e['until_month'], e['until_day'] = m, d
            us = seconds(e['until_time'])
            if us is None or us < 0: why.add('C05'); bad = True
            else:
                e['until_seconds'] = us; e['until_seconds_truncated'] = trunc(us, o['until_at_granularity'])
                if us != e['until_seconds_truncated'] and o['strict']: why.add('C05')
            e['until_time_suffix'] = e['until_time_suffix'] or 'w'
            if e['until_time_suffix'] not in (['w'] if basic else ['w', 's', 'u']): why.add('C17' if basic and e['until_time_suffix'] in 'su' else 'C05')
            os = seconds(e['offset_string'])
            if os is None: why.add('C05')
            else:
                e['offset_seconds'] = os; e['offset_seconds_truncated'] = trunc(os, o['offset_granularity'])
                if os != e['offset_seconds_truncated'] and o['strict']: why.add('C05')
            r = e['rules']
            if ':' in r:
                if basic: why.add('C17')
                ds = seconds(r)
                if ds is None or ds == 0: why.add('C05')
                else:
                    e['era_delta_seconds'] = ds; e['era_delta_seconds_truncated'] = trunc(ds, o['delta_granularity'])
                    if ds != e['era_delta_seconds_truncated'] and o['strict']: why.add('C05')
                e['policy_name'] = None
            else:
                e['era_delta_seconds'] = e['era_delta_seconds_truncated'] = 0
                e['policy_name'] = None if r == '-' else r
            f = e['format']
            if not f or ('%z' in f and f != '%z'): raises.append(('C18', f'{n}: FORMAT {f!r}'))
            elif '%s' in f and e['policy_name'] is None: raises.append(('C18', f'{n}: %s without policy'))
            e['format_short'] = f.replace('%z', '').replace('%s', '%')
            if not bad:
                c = (e['until_year'], e['until_month'], e['until_day'], e['until_seconds'])
                if prev is not None and c <= prev: why.add('C03')
                prev = c
            if o['tiny']: e['until_year_tiny'] = tiny_until(e['until_year'], o['tiny_base'])
        if raises:
            (R.may_raise if why else R.must_raise).extend(raises)
        if why: R.removed_zones[n] = why; continue
        zout[n] = dict(eras=eras, lower_era_truncated=lower, upper_era_truncated=upper)
    # policies
    used = {e['policy_name'] for z in zout.values() for e in z['eras'] if e['policy_name']}
    for p in rules:
        if p not in used: R.removed_policies[p] = {'C01'}; continue
        why = set()
        ks, lo, hi = [], start - 1, until + 1
        rs = rules[p]
        prior = [r for r in rs if r['to_year'] < lo]
        best = max(((r['to_year'], r['in_month']) for r in prior), default=None)
        lower = upper = False
        for r in rs:
            if r['to_year'] < lo:
                if (r['to_year'], r['in_month']) == best: ks.append(r)
                else: lower = True
            elif r['from_year'] >= hi: upper = True
            else: ks.append(r)
        if not ks: R.removed_policies[p] = {'C04'}; continue
        ks = [dict(r) for r in ks]
        if basic:
            cnt = set()
            for r in ks:
                for y in range(max(r['from_year'], -100), min(r['to_year'], 12000) + 1):
                    if (y, r['in_month']) in cnt: why.add('C17')
                    cnt.add((y, r['in_month']))
        for r in ks:
            s = seconds(r['at_time'])
            if s is None or s < 0: why.add('C05')
            else:
                r['at_seconds'] = s; r['at_seconds_truncated'] = trunc(s, o['until_at_granularity'])
                if s != r['at_seconds_truncated'] and o['strict']: why.add('C05')
            r['at_time_suffix'] = r['at_time_suffix'] or 'w'
            if r['at_time_suffix'] not in 'wsu': why.add('C05')
            s = seconds(r['delta_offset'])
            if s is None: why.add('C05')
            else:
                t = trunc(s, o['delta_granularity'])
                r['delta_seconds'] = s; r['delta_seconds_truncated'] = t
                if s != t and o['strict']: why.add('C05')
                if not -4 <= t // 900 <= 11: why.add('C05')
            od = onday(r['on_day'])
            if od is None: why.add('C06')
            else:
                r['on_day_of_week'], r['on_day_of_month'] = od
                if od[0] and od[1] < 0 and r['in_month'] == 1 and -od[1] <= 7: why.add('C06')
                if od[0] and od[1] >= 26 and r['in_month'] == 12: why.add('C06')
            r['letter'] = '' if r['letter'] == '-' else r['letter']
        if why: R.removed_policies[p] = why; continue
        cands = [(resolve(r['from_year'], r['in_month'], r['on_day_of_week'], r['on_day_of_month']), i) for i, r in enumerate(ks) if r['delta_seconds'] == 0]
        cands = [c for c in cands if c[0] < (INF_UNTIL, 12, 31)]
        if not cands: R.must_raise.append(('C04', f'{p}: no zero SAVE rule')); R.removed_policies[p] = {'C04'}; continue
        src = ks[min(cands)[1]]
        a = dict(src, from_year=MIN_YEAR, to_year=MIN_YEAR, in_month=1, on_day_of_week=0, on_day_of_month=1, at_time_suffix='w',
                 at_seconds=0, at_seconds_truncated=0, delta_seconds=0, delta_seconds_truncated=0)
        ks = [a] if len(ks) == 1 else [a] + ks
        if basic and any(r['from_year'] > MIN_YEAR and r['in_month'] == 1 and r['on_day_of_month'] == 1 for r in ks): R.removed_policies[p] = {'C17'}; continue
        if o['tiny']:
            for r in ks:
                r['from_year_tiny'], r['to_year_tiny'] = tiny_from(r['from_year'], o['tiny_base']), tiny_from(r['to_year'], o['tiny_base'])
        R.policies[p] = dict(rules=ks, lower_rule_truncated=lower, upper_rule_truncated=upper)
    # referential integrity
    for n, z in zout.items():
        miss = {e['policy_name'] for e in z['eras'] if e['policy_name'] and e['policy_name'] not in R.policies}
        if miss:
            why = {'C02'}
            for p in miss: why |= R.removed_policies.get(p, set())
            R.removed_zones[n] = why
        else:
            ps = [R.policies[e['policy_name']] for e in z['eras'] if e['policy_name']]
            z['lower_zone_truncated'] = z['lower_era_truncated'] or any(p['lower_rule_truncated'] for p in ps)
            z['upper_zone_truncated'] = z['upper_era_truncated'] or any(p['upper_rule_truncated'] for p in ps)
            R.zones[n] = z
    for l in lc:
        if links[l] in R.zones: R.links[l] = links[l]
        else: R.removed_links[l] = {'C02'} | R.removed_zones.get(links[l], set())
    if not basic and (len(R.zones) != len(zc) or len(R.links) != len(lc)):
        R.must_raise.append(('C01', 'zones or links would be dropped'))
        for n in zc:
            for p in R.removed_zones.get(n, ()): R.must_raise.append((p, f'zone {n} cannot be emitted'))
    for n in list(R.zones) + list(R.links):
        if djb2(n) == 0: R.must_raise.append(('C09', 'zero id'))
    R.lower = any(z['lower_zone_truncated'] for z in R.zones.values())
    R.upper = any(z['upper_zone_truncated'] for z in R.zones.values())
    R.start_acc = start if R.lower else MIN_YEAR
    R.until_acc = until if R.upper else INF_UNTIL
    ey = [e['until_year'] for z in R.zones.values() for e in z['eras']]
    ry = [r['from_year'] for p in R.policies.values() for r in p['rules'] if r['from_year'] != MIN_YEAR]
    R.gen_years = years(ey, ry)
    R.orig_years = years([e['until_year'] for z in zones.values() for e in z], [r['from_year'] for rs in rules.values() for r in rs])
    return R

def years(ey, ry):
    lo = min([INF_TO] + ey + ry)
    hi = max([MIN_YEAR] + [y for y in ey if y != INF_UNTIL] + [y for y in ry if y != INF_TO])
    return lo, hi
