"""Seeded generator of synthetic TZ source files and compiler settings."""
import random
from .model import FILES, djb2, symbol

DOW = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
MONALT = ['January', 'Febr', 'March', 'April', 'may', 'June', 'JUL', 'August', 'Sept', 'oct', 'Nove', 'December']
REGION = ['Africa', 'America', 'Asia', 'Europe', 'Pacific', 'Etc', 'Atlantic', 'America/Argentina', 'America/Indiana', 'Antarctica', 'Australia', 'Indian']
CITY = ['Foo', 'Bar', 'Los_Angeles', 'New_York', 'GMT+1', 'GMT-1', 'St_Johns', 'Baz', 'Abidjan', 'UTC', 'X', 'Port-au-Prince', 'Knox', 'EST5EDT', 'Tunis', 'zulu', 'Ambon', 'Dili', 'Qux', 'Ee', 'Aa', 'Bb']

class G:
    def __init__(s, rng, dirt=(), p=0.15):
        s.r, s.dirt, s.p = rng, set(dirt), p
    def d(s, kind, p=None):
        return kind in s.dirt and s.r.random() < (s.p if p is None else p)
    def choice(s, *a): return s.r.choice(a)

    def hms(s, h, gran):
        r = s.r
        if gran == 1: m, sec = r.choice([0, 0, 30, 59, 1]), r.choice([0, 0, 1, 14, 15, 16, 59])
        elif gran == 60: m, sec = r.choice([0, 0, 30, 59, 1, 14, 15, 20, 45]), 0
        else: m, sec = r.choice([0, 15, 30, 45]), 0
        if sec: return f'{h}:{m:02}:{sec:02}'
        if m: return f'{h}:{m:02}'
        return r.choice([f'{h}', f'{h}:00', f'{h:02}:00', f'{h}:00:00'])
    def badtime(s):
        return s.choice('26:00', '2:60', '2:00:60', '1:2:3:4', 'x', '2:', ':30', '24:99', '99', '2:-5', '--1:00', '2:30:-1', '1:00:00:00', '26', '1:x')
    def tod(s, gran):
        r = s.r
        if s.d('time'):
            k = r.random()
            if k < .35: return s.badtime()
            if k < .55: return '-' + s.hms(r.choice([0, 1, 2, 25]), gran)
            return s.hms(r.choice([0, 2, 24, 25]), r.choice([1, 60, 900]))
        return s.hms(r.choice([0, 0, 1, 2, 3, 12, 22, 23, 24, 25]), gran)
    def sfx(s, basic=False, zone=False):
        if s.d('suffix'): return s.choice('g', 'z', 's', 'u')
        if basic and zone: return s.choice('', 'w')
        return s.choice('', '', 'w', 's', 'u', 'u')
    def onday(s, y, m):
        """m: 1-12"""
        r = s.r
        k = r.random()
        big = [29, 30, 31][: {2: 0, 4: 2, 6: 2, 9: 2, 11: 2}.get(m, 3)]
        if k < .25: return str(r.choice([1, 2, 9, 10, 28] + big))
        if k < .5: return 'last' + r.choice(DOW)
        if k < .75:
            if s.d('day'): n = r.choice([1, 7, 8, 22, 23, 24, 25, 26, 27, 28] + big)
            else: n = r.choice([1, 2, 7, 8, 15, 20, 22, 25] + ([26, 28] + big if m != 12 else []))
            return f'{r.choice(DOW)}>={n}'
        if s.d('day'): n = r.choice([1, 2, 6, 8, 9, 28])
        else: n = r.choice([8, 14, 25, 28] + big + ([1, 2, 3, 6, 7] if m != 1 else []))
        return f'{r.choice(DOW)}<={n}'
    def badday(s):
        return s.choice('0', 'lastXxx', 'Sunday>=1', 'last', 'foo', 'Sun=1', '>=8', 'sun>=8', 'Su>=1', 'lastsun', '1st')

    def rule_set(s, name, o):
        r = s.r
        a, b = o['start_year'], o['until_year']
        n = r.choice([1, 2, 2, 3, 4, 6, 8])
        out = []
        basic = o['scope'] == 'basic'
        dg = o['delta_granularity']
        used = set()
        for i in range(n):
            fy = r.choice([a - 40, a - 10, a - 3, a - 2, a - 1, a, a + 1, b - 1, b, b + 1, b + 2, b + 30, r.randint(a - 20, b + 20)])
            fy = min(max(fy, 2), 9990)
            k = r.random()
            if k < .3: to = 'only'
            elif k < .55: to = 'max'
            else: to = str(r.choice([fy, fy + 1, fy + 5, a - 2, a - 1, a, a + 1, b, b + 1, max(fy, a), fy + 50]))
            if to.isdigit() and int(to) > 9990: to = 'max'
            if to.isdigit() and int(to) < fy or to[0] == '-': to = 'only'
            m = r.randint(1, 12) if r.random() < .7 else r.choice([1, 12, 2])
            day = s.badday() if s.d('badday', .08) else s.onday(fy, m)
            if s.d('onday1', .3) and m == 1: day = s.choice('1', 'Sun>=1')
            at = s.tod(o['until_at_granularity'] if o['strict'] else r.choice([1, 60, 900])) + s.sfx()
            zero = i == 0 or r.random() < .45
            if s.d('nosave0'): zero = False
            if zero: sv = s.choice('0', '0:00', '0', '-0:00' if s.d('time') else '0')
            elif s.d('time'): sv = r.choice(['-1:00', '-2:00', '3:59', '4:00', '2:45', '-1:15', '3:45', '0:59:59', '0:00:01', '-0:30', '1:07', '-0:01', '-1:01', '2:06', '2:07', '2:08', '2:09', s.badtime()])
            else: sv = r.choice(['1:00', '1:00', '0:30', '0:15', '2:00', '1:30', '-1:00', '-0:45', '1'] + (['0:20', '1:01', '-0:01', '2:07'] if dg <= 60 else []) + ([] if o['strict'] else ['0:20', '0:40', '-0:20', '1:59:59', '0:00:30']))
            lt = r.choice(['-', 'S', 'D', 'DD', 'CAT', 'AT', 's', '+01', 'X', 'WAT', 'L', 'M', '~' if s.d('letter', .02) else 'T'])
            sep = r.choice(['\t', ' ', '  ', '\t'])
            mon = MON[m - 1] if r.random() < .9 else MONALT[m - 1]
            line = sep.join(['Rule', name, str(fy), to, '-', mon, day, at, sv, lt])
            out.append(line)
            if s.d('dup', .12): out.append(line)
        return out

    def zone(s, name, o, pols):
        r = s.r
        a, b = o['start_year'], o['until_year']
        n = r.choice([1, 1, 2, 2, 3, 4, 5])
        cand = [a - 60, a - 20, a - 3, a - 2, a - 1, a, a + 1, a + 2, b - 1, b, b + 1, b + 2, b + 3, b + 20, (a + b) // 2]
        ys = sorted(min(max(2, r.choice(cand)), 9990) for _ in range(n - 1))
        if s.d('untilorder'): r.shuffle(ys)
        basic = o['scope'] == 'basic'
        lines = []
        for i in range(n):
            if s.d('time'): off = r.choice([s.badtime(), '-0:30', '25:00', '-25:59:59', '5:45:15', '-0:00:01', '0:00:59', '-1:00:30', '14', '-'])
            else: off = r.choice(['', '-']) + s.hms(r.randint(0, 14), o['offset_granularity'] if o['strict'] else r.choice([1, 60, 900]))
            k = r.random()
            if k < .3 or not pols: ru = '-'
            elif k < .45 and (not basic or s.d('basic')):
                ru = r.choice(['1:00', '0:30', '-1:00', '2:00', '-0:15'] + (['0:20', '0:01', '-0:01', '2:07'] if o['delta_granularity'] <= 60 else []) + ([] if o['strict'] else ['0:20', '0:00:30']))
                if s.d('time'): ru = r.choice(['0:00', '1:00:30', '26:00', '1:60', '0:20', '-0:40', '1:0x', '2:08', '-2:09'])
            else: ru = r.choice(pols)
            if s.d('nopolicy', .05): ru = 'Nope'
            haspol = ru != '-' and ':' not in ru
            if s.d('format', .1): f = r.choice(['A%zT', '%z%s', 'E%sT', '%s', 'X%z', '%z%z'])
            elif haspol: f = r.choice(['E%sT', 'GMT/BST', 'C%sT', '%s', '%z', 'LMT', 'A/B', '+03/+04', '%sS', 'Q%sR%sZ'])
            else: f = r.choice(['LMT', '%z', 'EST', '+03', 'A/B', '-00', '%', 'A%', 'E%T'])
            line = [off, ru, f]
            if i < n - 1:
                y = ys[i]
                line.append(str(y))
                k = r.random()
                if not basic or s.d('basic'):
                    if k < .75:
                        m = r.randint(1, 12) if r.random() < .7 else r.choice([1, 12, 2])
                        line.append(MON[m - 1] if r.random() < .9 else MONALT[m - 1])
                        if k < .6:
                            line.append(s.badday() if s.d('badday', .08) else s.onday(y, m))
                            if k < .45: line.append(s.tod(o['until_at_granularity'] if o['strict'] else r.choice([1, 60, 900])) + s.sfx(basic, True))
            elif s.d('lastuntil', .2): line.append(str(min(9990, r.choice([b - 1, b, b + 1, b + 2, b + 10]))))
            sep = r.choice(['\t', ' ', '\t', '  '])
            if i == 0: lines.append(sep.join(['Zone', name] + line))
            else: lines.append('\t\t\t' + sep.join(line))
        return lines

def noise(r, lines, p=.12):
    out = []
    for l in lines:
        while r.random() < p: out.append(r.choice(['', '# comment', '   ', '\t# Zone Foo/Bar 0 - X', '#Rule X 1990 only - Jan 1 0 0 -', ' # x']))
        if r.random() < p: l += r.choice(['  ', '\t# note', ' # Zone', '#x', '\t'])
        out.append(l)
    return out

def options(r, g, scope=None):
    scope = scope or r.choice(['basic', 'extended', 'complete', 'complete'])
    strict = r.random() < .6
    tiny = r.random() < .5
    base = r.choice([2100, 2000, 2050, 2038])
    if tiny:
        lo, hi = base - 126, base + 125
        if g.d('tinyout', .25): start, until = r.choice([(base - 127, base), (base - 128, base + 3), (base, base + 126), (base - 5, base + 127), (base + 126, base + 130)])
        else:
            start = r.choice([max(lo, 1974), lo, 2000, 1980, base - 10, base])
            start = min(max(start, lo), hi - 3)
            until = r.choice([start + 1, start + 2, start + 10, hi, 2038, base])
            until = min(max(until, start + 1), hi)
    else:
        start = r.choice([1, 1800, 1900, 1950, 1974, 1980, 2000, 2000, 2012, 2023])
        until = max(start + 1, r.choice([start + 1, start + 2, start + 10, 2038, 2100, 2500, 10000 if g.d('far', .1) else 2100]))
    grans = r.choice([(1, 1, 60), (60, 60, 900), (60, 60, 900), (1, 1, 1), (900, 900, 900), (60, 900, 60), (15, 1, 900), (3600, 60, 1800), (10, 7, 60)])
    return dict(scope=scope, start_year=start, until_year=until, until_at_granularity=grans[0], offset_granularity=grans[1], delta_granularity=grans[2],
                strict=strict, tiny=tiny, tiny_base=base, include=[], compress=r.random() < .8)

def standard(r, o):
    """settings as the command line would choose them"""
    if o['scope'] == 'complete': o.update(until_at_granularity=1, offset_granularity=1, delta_granularity=60, tiny=False)
    else:
        o.update(until_at_granularity=60, offset_granularity=60, delta_granularity=900, tiny=True, tiny_base=2100)
        o['start_year'] = max(1980, min(o['start_year'], 2200)); o['until_year'] = max(o['start_year'] + 1, min(o['until_year'], 2225))
    return o

def twin(r, n):
    """another name with the same generated symbol, or the same 32-bit hash, or None"""
    if r.random() < .5:
        i = [k for k, c in enumerate(n) if c in '-/_']
        if not i: return None
        k = r.choice(i)
        return n[:k] + r.choice([c for c in '-_.' if c != n[k]]) + n[k + 1:]
    if len(n) > 2 and 'a' <= n[-1] <= 'z' and n[-1] != 'a' and ('a' <= n[-2] < 'z' or 'A' <= n[-2] < 'Z'):
        return n[:-2] + chr(ord(n[-2]) + 1) + chr(ord(n[-1]) - 33)
    return None

def case(seed, dirt=(), p=0.15, std=False, big=False, scope=None):
    r = random.Random(seed)
    g = G(r, dirt, p)
    o = options(r, g, scope)
    if std: o = standard(r, o)
    names, syms = [], {}
    nz = r.choice([1, 2, 3, 4, 6]) if not big else r.choice([10, 25, 40])
    pols = r.sample(['US', 'EU', 'Foo', 'A', 'Russia', 'Zed', 'a', 'B-x'], r.choice([0, 1, 1, 2, 3])) if not big else [f'P{i}' for i in range(r.choice([3, 8, 15]))]
    nf = r.choice([30, 31, 32, 33]) if g.d('frags', .3) else 0
    for i in range(nf):
        for k in range(r.choice([4, 4, 4, 5])): names.append(f'{chr(65 + i % 26)}{chr(97 + i % 25)}rg{i // 26}/{chr(65 + k)}')
    if nf: nz = len(names)
    while len(names) < nz:
        n = r.choice(CITY) if r.random() < .15 else r.choice(REGION) + '/' + r.choice(CITY)
        if big: n += r.choice(['', str(r.randint(0, 99))])
        if names and g.d('names', .2): n = twin(r, r.choice(names)) or n
        if n in names: continue
        if symbol(n) in syms and not g.d('names', .3): continue
        syms[symbol(n)] = n; names.append(n)
    lines = []
    for pn in pols: lines.append(g.rule_set(pn, o))
    for n in names:
        lines.append(g.zone(n, o, pols))
        if len(lines[-1]) > 2 and g.d('dup', .1): lines[-1].insert(2, lines[-1][1])
        if g.d('dup', .1): lines.append(['Zone\t%s\t1:00\t-\tDUP' % n])
    links = []
    for i in range(r.choice([0, 0, 1, 2, 3]) if not big else r.choice([3, 20])):
        n = r.choice(REGION) + '/' + r.choice(CITY) + r.choice(['2', 'L', ''])
        if g.d('names', .3): n = twin(r, r.choice(links + names if r.random() < .4 or not links else links)) or n
        if n in names or n in links: continue
        if symbol(n) in syms and not g.d('names', .3): continue
        t = r.choice(names)
        if links and g.d('linklink', .2): t = r.choice(links)
        if g.d('linkmissing', .1): t = 'No/Where'
        syms[symbol(n)] = n
        links.append(n)
        lines.append([r.choice(['Link\t%s\t%s', 'Link %s %s']) % (t, n)])
        if g.d('malformed', .1): lines.append(['Link\t%s\t%s' % (r.choice(names), n)])
    if g.d('malformed', .3): lines.append([r.choice(['Rule', 'Zone', 'Link', 'Link\tA/B', 'Zone # X', 'Rule\t'])] + (['\t1:00\t-\tX'] if r.random() < .3 else []))
    if g.d('malformed', .5):
        pn = r.choice(pols or ['US'])
        k = r.random()
        if k < .5: lines.append([r.choice(['Rule\t%s\t2000\tonly\t-\tXyz\t1\t0\t0\t-', 'Rule %s 20x0 max - Jan 1 0 0 S', 'Rule %s 2000 max - Jan 1 2:00q 0 S', 'Rule %s 2000 max - Jan 1 2:00 0', 'Rule %s 2000 mx - Jan 1 2:00 0 -']) % pn])
        else: lines.append(['Zone\tBad/Zone\t' + r.choice(['1:00\t-', '1:00', '1:00\t-\tX\t20a0', '1:00\t-\tX\t2000\tFoo', '1:00 - X 2000 Jan 1 2:00q'])])
    r.shuffle(lines)
    flat = {f: [] for f in FILES}
    for grp in lines:
        # rules may be split between files; zones stay together
        if grp[0].startswith('Rule') and r.random() < .3:
            for l in grp: flat[r.choice(FILES)].append(l)
        else: flat[r.choice(FILES)].extend(grp)
    files = {f: '\n'.join(noise(r, ls)) + ('\n' if r.random() < .8 else '') for f, ls in flat.items() if ls}
    if g.d('include', .7):
        inc = r.sample(names, r.randint(0, len(names))) + r.sample(links, r.randint(0, len(links)))
        if r.random() < .3: inc.append('Not/There')
        o['include'] = inc
    return dict(seed=seed, files=files, opts=o)
