# extractor/extractor.py: lines of the TZ source files (C07)
EXT = 'extractor.extractor:'
MONTHS = ['jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec']
@spec
def monthno(m):
    """number of the month whose name starts with the same three letters; 0 for none"""
    p = m[:3].lower()
    return 1 if p == 'jan' else 2 if p == 'feb' else 3 if p == 'mar' else 4 if p == 'apr' else 5 if p == 'may' else 6 if p == 'jun' else 7 if p == 'jul' else 8 if p == 'aug' else 9 if p == 'sep' else 10 if p == 'oct' else 11 if p == 'nov' else 12 if p == 'dec' else 0
contract(EXT + 'month_to_index', props=['C07'], raises=[('Exception', 'monthno(month) == 0')], ensures=['result == monthno(month)', '1 <= result <= 12'])
@spec
def attext(t):
    return t if isdigits(t[-1:]) else t[:-1]
@spec
def atsuffix(t):
    return '' if isdigits(t[-1:]) else t[-1:]
@spec
def atok(t):
    return atsuffix(t) in ['', 'w', 's', 'u', 'g', 'z']
contract(EXT + 'parse_at_time_string', props=['C07'], raises=[('Exception', 'not atok(at_string)')], ensures=['atok(at_string)', 'result[0] == attext(at_string)', 'result[1] == atsuffix(at_string)'])
@spec
def ruleline(x):
    """line x has the shape of a Rule: NAME FROM TO - IN ON AT SAVE LETTER"""
    return (nwords(x) >= 10 and isint(word(x, 2)) and (word(x, 3) == 'only' or word(x, 3) == 'max' or isint(word(x, 3))) and monthno(word(x, 5)) != 0 and atok(word(x, 7)))
@spec
def rulesays(r, x):
    """r holds what line x says"""
    return (has(r, 'from_year') and has(r, 'to_year') and has(r, 'in_month') and has(r, 'on_day') and has(r, 'at_time') and has(r, 'at_time_suffix') and has(r, 'delta_offset') and has(r, 'letter') and has(r, 'raw_line')
        and r['from_year'] == intval(word(x, 2)) and r['to_year'] == (intval(word(x, 2)) if word(x, 3) == 'only' else 32766 if word(x, 3) == 'max' else intval(word(x, 3)))
        and r['in_month'] == monthno(word(x, 5)) and r['on_day'] == word(x, 6) and r['at_time'] == attext(word(x, 7)) and r['at_time_suffix'] == atsuffix(word(x, 7))
        and r['delta_offset'] == word(x, 8) and r['letter'] == word(x, 9) and r['raw_line'] == x)
contract(EXT + '_process_rule_line', props=['C07'], raises=[('Exception', 'not ruleline(line)'), ('ValueError', 'not ruleline(line)'), ('IndexError', 'not ruleline(line)')], modifies=['new:ZoneRuleRaw'], allocs=True,
    ensures=['fresh(result)', 'ruleline(line)', 'rulesays(result, line)'])
@spec
def eraline(x):
    """line x has the shape of an era: STDOFF RULES FORMAT [UNTIL]"""
    return (nwords(x) >= 3 and (nwords(x) < 4 or isint(word(x, 3))) and (nwords(x) < 5 or monthno(word(x, 4)) != 0) and (nwords(x) < 7 or atok(word(x, 6))))
@spec
def erasays(e, x):
    return (has(e, 'offset_string') and has(e, 'rules') and has(e, 'format') and has(e, 'until_year') and has(e, 'until_year_only') and has(e, 'until_month') and has(e, 'until_day_string') and has(e, 'until_time') and has(e, 'until_time_suffix') and has(e, 'raw_line')
        and e['offset_string'] == word(x, 0) and e['rules'] == word(x, 1) and e['format'] == word(x, 2)
        and e['until_year'] == (intval(word(x, 3)) if nwords(x) >= 4 else 32767) and iff(e['until_year_only'], nwords(x) < 5)
        and e['until_month'] == (monthno(word(x, 4)) if nwords(x) >= 5 else 1) and e['until_day_string'] == (word(x, 5) if nwords(x) >= 6 else '1')
        and e['until_time'] == (attext(word(x, 6)) if nwords(x) >= 7 else '00:00') and e['until_time_suffix'] == (atsuffix(word(x, 6)) if nwords(x) >= 7 else 'w')
        and e['raw_line'] == x)
contract(EXT + '_process_zone_line', props=['C07'], raises=[('Exception', 'not eraline(line)'), ('ValueError', 'not eraline(line)'), ('IndexError', 'not eraline(line)')], modifies=['new:ZoneEraRaw'], allocs=True,
    ensures=['fresh(result)', 'eraline(line)', 'erasays(result, line)'])

# ---- lines collected under each name -> records (insertion order, invalid lines counted and left out)
@spec
def eracnt(L: List[str], k: int) -> int:
    """valid era lines among the first k"""
    return 0 if k <= 0 else eracnt(L, k - 1) + (1 if eraline(L[k - 1]) else 0)
@spec
def rulecnt(L: List[str], k: int) -> int:
    return 0 if k <= 0 else rulecnt(L, k - 1) + (1 if ruleline(L[k - 1]) else 0)
@spec(reads=['List[str]'])
def baderas(d: Dict[str, List[str]], k: int) -> int:
    """lines under the first k names that do not have the shape"""
    return 0 if k <= 0 else baderas(d, k - 1) + len(d[kat(d, k - 1)]) - eracnt(d[kat(d, k - 1)], len(d[kat(d, k - 1)]))
@spec(reads=['List[str]'])
def badrules(d: Dict[str, List[str]], k: int) -> int:
    return 0 if k <= 0 else badrules(d, k - 1) + len(d[kat(d, k - 1)]) - rulecnt(d[kat(d, k - 1)], len(d[kat(d, k - 1)]))
@spec
def wfz0(zs):
    return wfz(zs) and all(not zs[n]['lower_era_truncated'] and not zs[n]['upper_era_truncated'] for n in zs)
contract(EXT + '_add_zones_map', props=['C07'],
    requires=['wfz0(zones_map)', 'okey(era) == name', 'wfera(era)', 'all(zones_map[n]["eras"][i] is not era for n in zones_map for i in range(len(zones_map[n]["eras"])))'],
    modifies=['at:zones_map', 'type:List[ZoneEraRaw]', 'new:ZoneInfoRaw', 'okey'], allocs=True,
    ensures=['wfz0(zones_map)', 'all(iff(n in zones_map, old(n in zones_map) or n == name) for n in strs())',
        'all(implies(old(n in zones_map), zones_map[n] is old(zones_map[n]) and zones_map[n]["eras"] is old(zones_map[n]["eras"]) and len(zones_map[n]["eras"]) == old(len(zones_map[n]["eras"])) + (1 if n == name else 0)) for n in strs())',
        'implies(not old(name in zones_map), len(zones_map[name]["eras"]) == 1)',
        'all(implies(old(n in zones_map) and 0 <= i and i < old(len(zones_map[n]["eras"])), zones_map[n]["eras"][i] is old(zones_map[n]["eras"][i])) for n in strs() for i in ints())',
        'zones_map[name]["eras"][len(zones_map[name]["eras"]) - 1] is era'])
@spec
def zdone(d, zs, n):
    """the eras of zone n are exactly its valid lines, in order"""
    return (iff(n in zs, eracnt(d[n], len(d[n])) > 0) and implies(n in zs, len(zs[n]['eras']) == eracnt(d[n], len(d[n])))
        and all(implies(eraline(d[n][i]), n in zs and 0 <= eracnt(d[n], i) and eracnt(d[n], i) < len(zs[n]['eras']) and erasays(zs[n]['eras'][eracnt(d[n], i)], d[n][i])) for i in range(len(d[n]))))
_PZ = dict(d='self.zone_lines', zs='self.zones_map')
contract(EXT + 'Extractor._process_zones', props=['C07'],
    requires=['all(n not in self.zones_map for n in strs())'],
    modifies=['at:self.zones_map', 'self.invalid_zone_lines', 'self.ignored_zone_lines', 'type:List[ZoneEraRaw]', 'new:ZoneInfoRaw', 'new:ZoneEraRaw', 'okey'], allocs=True,
    opts={'newonly': True}, ghost={'_process_zone_line': ['ghost zone_era = name']},
    ensures=['wfz0(self.zones_map)', 'all(n in self.zone_lines for n in self.zones_map)', 'all(zdone(self.zone_lines, self.zones_map, n) for n in self.zone_lines)',
        'self.invalid_zone_lines == old(self.invalid_zone_lines) + baderas(self.zone_lines, len(self.zone_lines))', 'self.ignored_zone_lines == old(self.ignored_zone_lines)'],
    loops={0: ['wfz0(self.zones_map)', 'all(n in self.zone_lines and idxof(n, 0) < _i for n in self.zones_map)', 'all(implies(idxof(n, 0) < _i, zdone(self.zone_lines, self.zones_map, n)) for n in self.zone_lines)',
               'self.invalid_zone_lines == old(self.invalid_zone_lines) + baderas(self.zone_lines, _i)', 'self.ignored_zone_lines == old(self.ignored_zone_lines)'],
           1: ['wfz0(self.zones_map)', 'all(n in self.zone_lines and idxof(n, 0) <= _i0 for n in self.zones_map)', 'all(implies(idxof(n, 0) < _i0, zdone(self.zone_lines, self.zones_map, n)) for n in self.zone_lines)',
               'self.invalid_zone_lines == old(self.invalid_zone_lines) + baderas(self.zone_lines, _i0) + _i - eracnt(lines, _i)', 'self.ignored_zone_lines == old(self.ignored_zone_lines)',
               'eracnt(lines, _i) >= 0', 'iff(name in self.zones_map, eracnt(lines, _i) > 0)', 'implies(name in self.zones_map, len(self.zones_map[name]["eras"]) == eracnt(lines, _i))',
               'all(implies(eraline(lines[i]), name in self.zones_map and 0 <= eracnt(lines, i) and eracnt(lines, i) < len(self.zones_map[name]["eras"]) and erasays(self.zones_map[name]["eras"][eracnt(lines, i)], lines[i])) for i in range(_i))']})
@spec
def wfp0(ps):
    return wfp(ps) and rawpols(ps)
@spec
def yearsok(x):
    """years of a rule line that the compiler is made for: FROM below the number that stands for `for ever', TO not negative"""
    return implies(ruleline(x), intval(word(x, 2)) < 32767 and (word(x, 3) == 'max' or (intval(word(x, 2)) if word(x, 3) == 'only' else intval(word(x, 3))) >= 0))
contract(EXT + '_add_policies_map', props=['C07'],
    requires=['wfp0(policies_map)', 'okey(rule) == name', 'wfrule(rule)', 'rule["to_year"] >= 0', 'all(policies_map[n]["rules"][i] is not rule for n in policies_map for i in range(len(policies_map[n]["rules"])))'],
    modifies=['at:policies_map', 'type:List[ZoneRuleRaw]', 'new:ZonePolicyRaw', 'okey'], allocs=True,
    ensures=['wfp0(policies_map)', 'all(iff(n in policies_map, old(n in policies_map) or n == name) for n in strs())',
        'all(implies(old(n in policies_map), policies_map[n] is old(policies_map[n]) and policies_map[n]["rules"] is old(policies_map[n]["rules"]) and len(policies_map[n]["rules"]) == old(len(policies_map[n]["rules"])) + (1 if n == name else 0)) for n in strs())',
        'implies(not old(name in policies_map), len(policies_map[name]["rules"]) == 1)',
        'all(implies(old(n in policies_map) and 0 <= i and i < old(len(policies_map[n]["rules"])), policies_map[n]["rules"][i] is old(policies_map[n]["rules"][i])) for n in strs() for i in ints())',
        'policies_map[name]["rules"][len(policies_map[name]["rules"]) - 1] is rule'])
@spec
def pdone(d, ps, n):
    """the rules of policy n are exactly its valid lines, in order"""
    return (iff(n in ps, rulecnt(d[n], len(d[n])) > 0) and implies(n in ps, len(ps[n]['rules']) == rulecnt(d[n], len(d[n])))
        and all(implies(ruleline(d[n][i]), n in ps and 0 <= rulecnt(d[n], i) and rulecnt(d[n], i) < len(ps[n]['rules']) and rulesays(ps[n]['rules'][rulecnt(d[n], i)], d[n][i])) for i in range(len(d[n]))))
contract(EXT + 'Extractor._process_rules', props=['C07'],
    requires=['all(n not in self.policies_map for n in strs())', 'all(yearsok(self.rule_lines[n][i]) for n in self.rule_lines for i in range(len(self.rule_lines[n])))'],
    modifies=['at:self.policies_map', 'self.invalid_rule_lines', 'self.ignored_rule_lines', 'type:List[ZoneRuleRaw]', 'new:ZonePolicyRaw', 'new:ZoneRuleRaw', 'okey'], allocs=True,
    opts={'newonly': True}, ghost={'_process_rule_line': ['ghost rule_entry = name']},
    ensures=['wfp0(self.policies_map)', 'all(n in self.rule_lines for n in self.policies_map)', 'all(pdone(self.rule_lines, self.policies_map, n) for n in self.rule_lines)',
        'self.invalid_rule_lines == old(self.invalid_rule_lines) + badrules(self.rule_lines, len(self.rule_lines))', 'self.ignored_rule_lines == old(self.ignored_rule_lines)'],
    loops={0: ['wfp0(self.policies_map)', 'all(n in self.rule_lines and idxof(n, 0) < _i for n in self.policies_map)', 'all(implies(idxof(n, 0) < _i, pdone(self.rule_lines, self.policies_map, n)) for n in self.rule_lines)',
               'self.invalid_rule_lines == old(self.invalid_rule_lines) + badrules(self.rule_lines, _i)', 'self.ignored_rule_lines == old(self.ignored_rule_lines)'],
           1: ['wfp0(self.policies_map)', 'all(n in self.rule_lines and idxof(n, 0) <= _i0 for n in self.policies_map)', 'all(implies(idxof(n, 0) < _i0, pdone(self.rule_lines, self.policies_map, n)) for n in self.rule_lines)',
               'self.invalid_rule_lines == old(self.invalid_rule_lines) + badrules(self.rule_lines, _i0) + _i - rulecnt(lines, _i)', 'self.ignored_rule_lines == old(self.ignored_rule_lines)',
               'rulecnt(lines, _i) >= 0', 'iff(name in self.policies_map, rulecnt(lines, _i) > 0)', 'implies(name in self.policies_map, len(self.policies_map[name]["rules"]) == rulecnt(lines, _i))',
               'all(implies(ruleline(lines[i]), name in self.policies_map and 0 <= rulecnt(lines, i) and rulecnt(lines, i) < len(self.policies_map[name]["rules"]) and rulesays(self.policies_map[name]["rules"][rulecnt(lines, i)], lines[i])) for i in range(_i))']})
@spec(reads=['List[str]'])
def badlinks(d: Dict[str, List[str]], k: int) -> int:
    """Link lines of names that are given more than once"""
    return 0 if k <= 0 else badlinks(d, k - 1) + (len(d[kat(d, k - 1)]) if len(d[kat(d, k - 1)]) > 1 else 0)
contract(EXT + 'Extractor._process_links', props=['C07'],
    requires=['all(n not in self.links_map for n in strs())', 'all(len(self.link_lines[n]) >= 1 for n in self.link_lines)'],
    modifies=['at:self.links_map', 'self.invalid_link_lines'],
    ensures=['all(iff(n in self.links_map, n in self.link_lines and len(self.link_lines[n]) == 1) for n in strs())', 'all(self.links_map[n] == self.link_lines[n][0] for n in self.links_map)',
        'self.invalid_link_lines == old(self.invalid_link_lines) + badlinks(self.link_lines, len(self.link_lines))'],
    loops={0: ['all(iff(n in self.links_map, n in self.link_lines and idxof(n) < _i and len(self.link_lines[n]) == 1) for n in strs())', 'all(self.links_map[n] == self.link_lines[n][0] for n in self.links_map)',
               'self.invalid_link_lines == old(self.invalid_link_lines) + badlinks(self.link_lines, _i)']})

# ---- the text files: what the lines say, line by line
@spec(opaque=True)
def fcount(f: str) -> int:
    """number of lines of file f"""
    return 0
@spec(opaque=True)
def fline(f: str, i: int) -> str:
    """line i of file f with its line end"""
    return ''
contract('textfile:TextIO.readline', trusted=True, requires=['0 <= self.pos <= fcount(self.path)'], modifies=['self.pos'],
    ensures=['result == (fline(self.path, old(self.pos)) if old(self.pos) < fcount(self.path) else "")', 'self.pos == old(self.pos) + (1 if old(self.pos) < fcount(self.path) else 0)', 'iff(result == "", old(self.pos) >= fcount(self.path))'],
    note='TextIO.readline returns the lines of the file in order, then empty strings (Python library)')
@spec
def ltext(x):
    """line x without its comment and trailing white space"""
    return (x[:x.find('#')] if x.find('#') >= 0 else x).rstrip()
@spec
def isrule(t): return t[:4] == 'Rule' and nwords(t) >= 2
@spec
def islink(t): return t[:4] == 'Link' and nwords(t) >= 3
@spec
def iszone(t): return t[:4] == 'Zone' and nwords(t) >= 2
@spec
def other(t): return t != '' and t[:4] != 'Rule' and t[:4] != 'Link' and t[:4] != 'Zone'
@spec
def inz(f: str, k: int) -> bool:
    """a zone is open after the first k lines of f"""
    return False if k <= 0 else inz(f, k - 1) if ltext(fline(f, k - 1)) == '' or other(ltext(fline(f, k - 1))) else iszone(ltext(fline(f, k - 1)))
@spec
def zn(f: str, k: int) -> str:
    """name on the last Zone line among the first k lines of f"""
    return '' if k <= 0 else word(ltext(fline(f, k - 1)), 1) if iszone(ltext(fline(f, k - 1))) else zn(f, k - 1)
@spec
def iscont(f, i):
    """line i of f continues the zone that is open there"""
    return other(ltext(fline(f, i))) and ltext(fline(f, i))[:4][0] == '\t' and inz(f, i)
@spec
def rcount(f: str, k: int, n: str) -> int:
    """Rule lines of policy n among the first k lines of f"""
    return 0 if k <= 0 else rcount(f, k - 1, n) + (1 if isrule(ltext(fline(f, k - 1))) and word(ltext(fline(f, k - 1)), 1) == n else 0)
@spec
def lcount(f: str, k: int, n: str) -> int:
    return 0 if k <= 0 else lcount(f, k - 1, n) + (1 if islink(ltext(fline(f, k - 1))) and word(ltext(fline(f, k - 1)), 2) == n else 0)
@spec
def ecount(f: str, k: int, n: str) -> int:
    """Zone and continuation lines of zone n among the first k lines of f"""
    return 0 if k <= 0 else ecount(f, k - 1, n) + (1 if iszone(ltext(fline(f, k - 1))) and word(ltext(fline(f, k - 1)), 1) == n or iscont(f, k - 1) and zn(f, k - 1) == n else 0)
@spec
def bare(f: str, k: int, tag: str) -> int:
    """lines among the first k of f that start with tag but name nothing"""
    return 0 if k <= 0 else bare(f, k - 1, tag) + (1 if ltext(fline(f, k - 1))[:4] == tag and nwords(ltext(fline(f, k - 1))) < (3 if tag == 'Link' else 2) else 0)
@spec
def skipped(f, a, b):
    """lines a..b-1 of f change nothing"""
    return (iff(inz(f, a), inz(f, b)) and zn(f, a) == zn(f, b) and bare(f, a, 'Rule') == bare(f, b, 'Rule') and bare(f, a, 'Link') == bare(f, b, 'Link') and bare(f, a, 'Zone') == bare(f, b, 'Zone') and all(rcount(f, a, n) == rcount(f, b, n) for n in strs()) and all(lcount(f, a, n) == lcount(f, b, n) for n in strs()) and all(ecount(f, a, n) == ecount(f, b, n) for n in strs()))
_UQ = {'unfoldq': ('rcount', 'lcount', 'ecount')}
contract(EXT + '_read_line', props=['C07'], requires=['0 <= input.pos <= fcount(input.path)'], modifies=['input.pos'], opts=_UQ,
    ensures=['old(input.pos) <= input.pos <= fcount(input.path)',
        'implies(isnone(result), input.pos == fcount(input.path) and skipped(input.path, old(input.pos), input.pos) and all(ltext(fline(input.path, i)) == "" for i in range(old(input.pos), input.pos)))',
        'implies(not isnone(result), input.pos > old(input.pos) and result == ltext(fline(input.path, input.pos - 1)) and result != "" and skipped(input.path, old(input.pos), input.pos - 1) and all(ltext(fline(input.path, i)) == "" for i in range(old(input.pos), input.pos - 1)))'],
    loops={0: ['old(input.pos) <= input.pos <= fcount(input.path)', 'skipped(input.path, old(input.pos), input.pos)', 'all(ltext(fline(input.path, i)) == "" for i in range(old(input.pos), input.pos))']})
contract(EXT + '_add_item', props=['C07'], types={'table': 'Dict[str, List[str]]', 'line': 'str'},
    requires=['all(okey(table[n]) == n and len(table[n]) >= 1 for n in table)'],
    modifies=['at:table', 'at:table.get(name)', 'new:List[str]', 'okey'], allocs=True,
    ensures=['all(iff(n in table, old(n in table) or n == name) for n in strs())', 'all(okey(table[n]) == n and len(table[n]) >= 1 for n in table)',
        'all(implies(old(n in table), table[n] is old(table[n])) for n in strs())', 'implies(not old(name in table), fresh(table[name]) and len(table[name]) == 1)',
        'all(implies(old(n in table), len(table[n]) == old(len(table[n])) + (1 if n == name else 0)) for n in strs())', 'table[name][len(table[name]) - 1] == line',
        'all(implies(old(n in table) and 0 <= i and i < old(len(table[n])), table[n][i] == old(table[n][i])) for n in strs() for i in ints())'])
LISTS = ['self.rule_lines is not self.zone_lines and self.rule_lines is not self.link_lines and self.zone_lines is not self.link_lines', *['all(okey(self.%s_lines[n]) == n and len(self.%s_lines[n]) >= 1 for n in self.%s_lines)' % (k, k, k) for k in ('rule', 'zone', 'link')],
    *['all(implies(n in self.%s_lines and n in self.%s_lines, self.%s_lines[n] is not self.%s_lines[n]) for n in strs())' % (a, b, a, b) for a, b in (('rule', 'zone'), ('rule', 'link'), ('zone', 'link'))]]
@spec
def cnt(d, n):
    return len(d[n]) if n in d else 0
@spec(opaque=True)
def zbody(y: str, x: str) -> bool:
    """y has the words of x after the first two"""
    return nwords(y) == nwords(x) - 2 and all(word(y, j) == word(x, j + 2) for j in range(nwords(y)))
def _COLL(k):
    """after k lines of the file the tables hold, after what they held before, the lines under their names in order"""
    out = []
    for d, c in (('rule', 'rcount'), ('link', 'lcount'), ('zone', 'ecount')):
        out.append('all(cnt(self.%s_lines, n) == old(cnt(self.%s_lines, n)) + %s(input.path, %s, n) for n in strs())' % (d, d, c, k))
        out.append('all(implies(old(n in self.%s_lines), n in self.%s_lines and len(self.%s_lines[n]) >= old(len(self.%s_lines[n]))) for n in strs())' % ((d,) * 4))
        out.append('all(implies(old(n in self.%s_lines) and 0 <= i and i < old(len(self.%s_lines[n])), n in self.%s_lines and self.%s_lines[n][i] == old(self.%s_lines[n][i])) for n in strs() for i in ints())' % ((d,) * 5))
    return out
@spec
def stored(d, base, x, i, n):
    """line x stands in list n at the place base + i"""
    return n in d and 0 <= base + i and base + i < len(d[n]) and d[n][base + i] == x
@spec
def storedz(d, base, x, i, n):
    return n in d and 0 <= base + i and base + i < len(d[n]) and zbody(d[n][base + i], x)
@spec
def tline(f, i):
    return ltext(fline(f, i))
def _STORED(k):
    return ['all(implies(isrule(tline(input.path, i)), stored(self.rule_lines, old(cnt(self.rule_lines, word(tline(input.path, i), 1))), tline(input.path, i), rcount(input.path, i, word(tline(input.path, i), 1)), word(tline(input.path, i), 1))) for i in range(%s))' % k,
        'all(implies(islink(tline(input.path, i)), stored(self.link_lines, old(cnt(self.link_lines, word(tline(input.path, i), 2))), word(tline(input.path, i), 1), lcount(input.path, i, word(tline(input.path, i), 2)), word(tline(input.path, i), 2))) for i in range(%s))' % k,
        'all(implies(iscont(input.path, i), stored(self.zone_lines, old(cnt(self.zone_lines, zn(input.path, i))), tline(input.path, i), ecount(input.path, i, zn(input.path, i)), zn(input.path, i))) for i in range(%s))' % k,
        'all(implies(iszone(tline(input.path, i)), storedz(self.zone_lines, old(cnt(self.zone_lines, word(tline(input.path, i), 1))), tline(input.path, i), ecount(input.path, i, word(tline(input.path, i), 1)), word(tline(input.path, i), 1))) for i in range(%s))' % k,
        "self.invalid_rule_lines == old(self.invalid_rule_lines) + bare(input.path, %s, 'Rule') and self.invalid_link_lines == old(self.invalid_link_lines) + bare(input.path, %s, 'Link') and self.invalid_zone_lines == old(self.invalid_zone_lines) + bare(input.path, %s, 'Zone')" % (k, k, k)]
YEARS = 'all(yearsok(self.rule_lines[n][i]) for n in self.rule_lines for i in range(len(self.rule_lines[n])))'
contract(EXT + 'Extractor._parse_zone_file', props=['C07'], requires=[*LISTS, 'input.pos == 0', 'fcount(input.path) >= 0', YEARS, 'all(yearsok(tline(input.path, i)) for i in range(fcount(input.path)))'],
    modifies=['input.pos', 'at:self.rule_lines', 'at:self.zone_lines', 'at:self.link_lines', 'type:List[str]', 'new:List[str]', 'okey', 'self.invalid_rule_lines', 'self.invalid_zone_lines', 'self.invalid_link_lines'], allocs=True,
    opts=dict(_UQ, newonly=True), ghost={'_read_line': ['unfold zbody(y, line)']},
    ensures=[*LISTS, YEARS, *_COLL('fcount(input.path)'), *_STORED('fcount(input.path)')],
    loops={0: ['0 <= input.pos <= fcount(input.path)', *LISTS, YEARS, *_COLL('input.pos'), 'iff(in_zone_mode, inz(input.path, input.pos))', 'implies(in_zone_mode, prev_name == zn(input.path, input.pos))', *_STORED('input.pos')]})
# ---- all files
@spec
def zfile(k):
    return 'africa' if k == 0 else 'antarctica' if k == 1 else 'asia' if k == 2 else 'australasia' if k == 3 else 'backward' if k == 4 else 'etcetera' if k == 5 else 'europe' if k == 6 else 'northamerica' if k == 7 else 'southamerica'
@spec(opaque=True)
def fpath(d: str, k: int) -> str:
    return pathjoin(d, zfile(k))
@spec
def rtot(d: str, k: int, n: str) -> int:
    """Rule lines of policy n in the first k files"""
    return 0 if k <= 0 else rtot(d, k - 1, n) + rcount(fpath(d, k - 1), fcount(fpath(d, k - 1)), n)
@spec
def ltot(d: str, k: int, n: str) -> int:
    return 0 if k <= 0 else ltot(d, k - 1, n) + lcount(fpath(d, k - 1), fcount(fpath(d, k - 1)), n)
@spec
def etot(d: str, k: int, n: str) -> int:
    return 0 if k <= 0 else etot(d, k - 1, n) + ecount(fpath(d, k - 1), fcount(fpath(d, k - 1)), n)
@spec
def baretot(d: str, k: int, tag: str) -> int:
    return 0 if k <= 0 else baretot(d, k - 1, tag) + bare(fpath(d, k - 1), fcount(fpath(d, k - 1)), tag)
_UQ2 = {'unfoldq': ('rtot', 'ltot', 'etot')}
def _TOT(k):
    return [*['all(cnt(self.%s_lines, n) == %s(self.input_dir, %s, n) for n in strs())' % (d, c, k) for d, c in (('rule', 'rtot'), ('link', 'ltot'), ('zone', 'etot'))],
        'all(implies(isrule(tline(fpath(self.input_dir, j), i)), stored(self.rule_lines, rtot(self.input_dir, j, word(tline(fpath(self.input_dir, j), i), 1)), tline(fpath(self.input_dir, j), i), rcount(fpath(self.input_dir, j), i, word(tline(fpath(self.input_dir, j), i), 1)), word(tline(fpath(self.input_dir, j), i), 1))) for j in range(%s) for i in range(fcount(fpath(self.input_dir, j))))' % k,
        'all(implies(islink(tline(fpath(self.input_dir, j), i)), stored(self.link_lines, ltot(self.input_dir, j, word(tline(fpath(self.input_dir, j), i), 2)), word(tline(fpath(self.input_dir, j), i), 1), lcount(fpath(self.input_dir, j), i, word(tline(fpath(self.input_dir, j), i), 2)), word(tline(fpath(self.input_dir, j), i), 2))) for j in range(%s) for i in range(fcount(fpath(self.input_dir, j))))' % k,
        'all(implies(iscont(fpath(self.input_dir, j), i), stored(self.zone_lines, etot(self.input_dir, j, zn(fpath(self.input_dir, j), i)), tline(fpath(self.input_dir, j), i), ecount(fpath(self.input_dir, j), i, zn(fpath(self.input_dir, j), i)), zn(fpath(self.input_dir, j), i))) for j in range(%s) for i in range(fcount(fpath(self.input_dir, j))))' % k,
        'all(implies(iszone(tline(fpath(self.input_dir, j), i)), storedz(self.zone_lines, etot(self.input_dir, j, word(tline(fpath(self.input_dir, j), i), 1)), tline(fpath(self.input_dir, j), i), ecount(fpath(self.input_dir, j), i, word(tline(fpath(self.input_dir, j), i), 1)), word(tline(fpath(self.input_dir, j), i), 1))) for j in range(%s) for i in range(fcount(fpath(self.input_dir, j))))' % k,
        "self.invalid_rule_lines == old(self.invalid_rule_lines) + baretot(self.input_dir, %s, 'Rule') and self.invalid_link_lines == old(self.invalid_link_lines) + baretot(self.input_dir, %s, 'Link') and self.invalid_zone_lines == old(self.invalid_zone_lines) + baretot(self.input_dir, %s, 'Zone')" % (k, k, k)]
EMPTY = ['all(n not in self.%s_lines for n in strs())' % k for k in ('rule', 'zone', 'link')]
DIST = LISTS[0]
FYEARS = 'all(yearsok(tline(fpath(self.input_dir, j), i)) for j in range(9) for i in range(fcount(fpath(self.input_dir, j))))'
contract(EXT + 'Extractor._parse_zone_files', props=['C07'], requires=[DIST, *EMPTY, FYEARS, 'all(fcount(f) >= 0 for f in strs())'],
    modifies=['new:TextIO', 'at:self.rule_lines', 'at:self.zone_lines', 'at:self.link_lines', 'type:List[str]', 'new:List[str]', 'okey', 'self.invalid_rule_lines', 'self.invalid_zone_lines', 'self.invalid_link_lines'], allocs=True,
    opts=dict(_UQ2, newonly=True, rolled=True), ghost={'join': ['unfold fpath(d, k)'], 'open': ['unfold fpath(d, k)']},
    ensures=[*LISTS, YEARS, *_TOT('9')],
    loops={0: [*LISTS, YEARS, *_TOT('_i')]})
contract(EXT + 'Extractor.__init__', props=['C07'], modifies=['self.input_dir', 'self.rule_lines', 'self.zone_lines', 'self.link_lines', 'self.policies_map', 'self.zones_map', 'self.links_map', 'self.ignored_rule_lines', 'self.ignored_zone_lines', 'self.ignored_link_lines', 'self.invalid_rule_lines', 'self.invalid_zone_lines', 'self.invalid_link_lines', 'new:Dict[str, List[str]]', 'new:PoliciesMap', 'new:ZonesMap', 'new:LinksMap', 'okey'], allocs=True,
    ensures=['self.input_dir == input_dir', DIST, *EMPTY, *['all(n not in self.%s for n in strs())' % m for m in ('policies_map', 'zones_map', 'links_map')],
        *['self.%s_%s_lines == 0' % (a, k) for a in ('ignored', 'invalid') for k in ('rule', 'zone', 'link')]])
def _LINE(cond, n, body):
    """clause about every line i of every file j; F the file, T its text, N the name"""
    return ('all(implies(%s, %s) for j in range(9) for i in range(fcount(fpath(self.input_dir, j))))' % (cond, body)).replace('{N}', n).replace('{T}', 'tline({F}, i)').replace('{F}', 'fpath(self.input_dir, j)')
RPOS, EPOS = 'rtot(self.input_dir, j, {N}) + rcount({F}, i, {N})', 'etot(self.input_dir, j, {N}) + ecount({F}, i, {N})'
contract(EXT + 'Extractor.parse', props=['C07'],
    requires=[DIST, *EMPTY, FYEARS, 'all(fcount(f) >= 0 for f in strs())', *['all(n not in self.%s for n in strs())' % m for m in ('policies_map', 'zones_map', 'links_map')]],
    modifies=['new:TextIO', 'at:self.rule_lines', 'at:self.zone_lines', 'at:self.link_lines', 'type:List[str]', 'new:List[str]', 'okey', 'self.invalid_rule_lines', 'self.invalid_zone_lines', 'self.invalid_link_lines',
        'at:self.policies_map', 'at:self.zones_map', 'at:self.links_map', 'self.ignored_rule_lines', 'self.ignored_zone_lines', 'type:List[ZoneRuleRaw]', 'type:List[ZoneEraRaw]', 'new:ZonePolicyRaw', 'new:ZoneRuleRaw', 'new:ZoneInfoRaw', 'new:ZoneEraRaw'], allocs=True,
    opts={'newonly': True},
    ensures=['wfp0(self.policies_map)', 'wfz0(self.zones_map)',
        # every valid Rule line gives one rule of its policy, in the order of the lines
        _LINE('isrule({T}) and ruleline({T})', 'word({T}, 1)', '{N} in self.policies_map and rulesays(self.policies_map[{N}]["rules"][rulecnt(self.rule_lines[{N}], %s)], {T})' % RPOS),
        'all(n in self.rule_lines and len(self.policies_map[n]["rules"]) == rulecnt(self.rule_lines[n], len(self.rule_lines[n])) for n in self.policies_map)', 'all(cnt(self.rule_lines, n) == rtot(self.input_dir, 9, n) for n in strs())',
        # every valid Zone or continuation line gives one era of its zone
        _LINE('iscont({F}, i) and eraline({T})', 'zn({F}, i)', '{N} in self.zones_map and erasays(self.zones_map[{N}]["eras"][eracnt(self.zone_lines[{N}], %s)], {T})' % EPOS),
        _LINE('iszone({T})', 'word({T}, 1)', '{N} in self.zone_lines and zbody(self.zone_lines[{N}][%s], {T}) and implies(eraline(self.zone_lines[{N}][%s]), {N} in self.zones_map and erasays(self.zones_map[{N}]["eras"][eracnt(self.zone_lines[{N}], %s)], self.zone_lines[{N}][%s]))' % ((EPOS,) * 4)),
        'all(n in self.zone_lines and len(self.zones_map[n]["eras"]) == eracnt(self.zone_lines[n], len(self.zone_lines[n])) for n in self.zones_map)', 'all(cnt(self.zone_lines, n) == etot(self.input_dir, 9, n) for n in strs())',
        # a Link line whose name is given once is a link to its target
        'all(iff(n in self.links_map, ltot(self.input_dir, 9, n) == 1) for n in strs())',
        _LINE('islink({T})', 'word({T}, 2)', 'implies({N} in self.links_map, self.links_map[{N}] == word({T}, 1))'),
        "self.invalid_rule_lines == old(self.invalid_rule_lines) + baretot(self.input_dir, 9, 'Rule') + badrules(self.rule_lines, len(self.rule_lines)) and self.ignored_rule_lines == old(self.ignored_rule_lines)",
        "self.invalid_zone_lines == old(self.invalid_zone_lines) + baretot(self.input_dir, 9, 'Zone') + baderas(self.zone_lines, len(self.zone_lines)) and self.ignored_zone_lines == old(self.ignored_zone_lines)",
        "self.invalid_link_lines == old(self.invalid_link_lines) + baretot(self.input_dir, 9, 'Link') + badlinks(self.link_lines, len(self.link_lines))"])
