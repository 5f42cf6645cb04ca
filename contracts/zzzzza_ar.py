# transformer/artransformer.py: codes of the Arduino and C tables
AR = 'transformer.artransformer:ArduinoTransformer.'
A = 'transformer.artransformer:'
@spec
def sec_ok(v):
    """seconds that a time text of the supported range can denote"""
    return -93599 <= v <= 93599
@spec
def outera(e):
    """fields of an era that transform() emits"""
    return (wfera(e) and has(e, 'offset_seconds_truncated') and has(e, 'era_delta_seconds_truncated') and has(e, 'until_seconds_truncated')
        and has(e, 'policy_name') and has(e, 'format_short') and has(e, 'until_day') and sec_ok(e['offset_seconds_truncated']) and sec_ok(e['era_delta_seconds_truncated']) and 0 <= e['until_seconds_truncated'] <= 93599)
@spec
def outrule(r):
    """fields of a rule that transform() emits"""
    return (wfrule(r) and has(r, 'at_seconds_truncated') and has(r, 'delta_seconds_truncated') and has(r, 'on_day_of_week') and has(r, 'on_day_of_month')
        and 0 <= r['at_seconds_truncated'] <= 93599 and -3600 <= r['delta_seconds_truncated'] < 10800)
@spec
def outz(zs):
    return wfz(zs) and all(outera(zs[n]['eras'][i]) for n in zs for i in range(len(zs[n]['eras'])))
@spec
def outp(ps):
    return wfp(ps) and all(outrule(ps[n]['rules'][i]) for n in ps for i in range(len(ps[n]['rules'])))
@spec
def sfx_ok(x):
    return x == 'w' or x == 's' or x == 'u'

def over(kind, clause, k=None):
    """clause over every record X of the map (kind: zones/policies), or of the first names only"""
    m, l, v = ('zones_map', 'eras', 'info') if kind == 'z' else ('policies_map', 'rules', 'policy')
    x = f'{m}[n]["{l}"][i]'
    full = f'all(%s for n in {m} for i in range(len({m}[n]["{l}"])))'
    X = lambda t, e: t.replace('X', e)
    return (full % X(clause, x), full % ('implies(idxof(n) < _i, %s)' % X(clause, x)), 'all(%s for i in range(_i))' % X(clause, f'{v}["{l}"][i]'))
CODERS = {}
def coder(name, kind, fields, low, high, tags, fails):
    m = 'zones_map' if kind == 'z' else 'policies_map'
    rec, shape = ('ZoneEraRaw', 'outz') if kind == 'z' else ('ZoneRuleRaw', 'outp')
    cl = f'implies(self.time_code_format == "low", {low}) and implies(self.time_code_format == "high", {high})'
    f, o, i = over(kind, cl)
    CODERS[name] = f
    contract(AR + name, props=tags, requires=[f'{shape}({m})'], modifies=[f'{rec}.{x}' for x in fields],
        raises=[('Exception', fails)], ensures=[f], loops={0: [o], 1: [i]})

def tcode(p, q, s, x):
    """time in code units and remainder, with the suffix in the modifier"""
    a, r, md, u, v = (f'{p}_code', f'{p}_{q}', f'{p}_modifier', *((900, 60) if q == 'minute' else (15, 1)))
    top = 255 if q == 'minute' else 65535
    return (f'(has(X, "{a}") and has(X, "{r}") and has(X, "{md}") and X["{a}"] * {u} + X["{r}"] * {v} == X["{s}"] and 0 <= X["{r}"] <= 14 and sfx_ok(X["{x}"])'
            f' and X["{md}"] == X["{r}"] + suffix_code(X["{x}"]) and 0 <= X["{a}"] <= {top} and 0 <= X["{md}"] <= 255)')
coder('_process_rules_from_to_at', 'p', ['at_time_code', 'at_time_minute', 'at_time_modifier', 'at_time_seconds_code', 'at_time_seconds_remainder', 'at_time_seconds_modifier'],
    tcode('at_time', 'minute', 'at_seconds_truncated', 'at_time_suffix'), tcode('at_time_seconds', 'remainder', 'at_seconds_truncated', 'at_time_suffix'), ['C10'],
    'not ' + over('p', 'sfx_ok(X["at_time_suffix"]) and implies(self.time_code_format == "low", X["at_seconds_truncated"] % 60 == 0)')[0])
coder('_process_eras_until', 'z', ['until_time_code', 'until_time_minute', 'until_time_modifier', 'until_time_seconds_code', 'until_time_seconds_remainder', 'until_time_seconds_modifier'],
    tcode('until_time', 'minute', 'until_seconds_truncated', 'until_time_suffix'), tcode('until_time_seconds', 'remainder', 'until_seconds_truncated', 'until_time_suffix'), ['C10'],
    'not ' + over('z', 'sfx_ok(X["until_time_suffix"]) and implies(self.time_code_format == "low", X["until_seconds_truncated"] % 60 == 0)')[0])
coder('_process_rules_delta', 'p', ['delta_code', 'delta_code_encoded', 'delta_minutes'],
    '(has(X, "delta_code") and has(X, "delta_code_encoded") and X["delta_code"] * 900 == X["delta_seconds_truncated"] and X["delta_code_encoded"] == X["delta_code"] + 4 and 0 <= X["delta_code_encoded"] <= 15)',
    '(has(X, "delta_minutes") and X["delta_minutes"] * 60 == X["delta_seconds_truncated"] and -128 <= X["delta_minutes"] <= 127)', ['C10'],
    'not ' + over('p', 'implies(self.time_code_format == "low", X["delta_seconds_truncated"] % 900 == 0) and implies(self.time_code_format == "high", X["delta_seconds_truncated"] % 60 == 0 and -7680 <= X["delta_seconds_truncated"] <= 7620)')[0])
coder('_process_eras_stdoff_delta', 'z', ['offset_code', 'offset_minute', 'delta_code', 'delta_code_encoded', 'offset_seconds_code', 'offset_seconds_remainder', 'delta_minutes'],
    '(has(X, "offset_code") and has(X, "offset_minute") and has(X, "delta_code") and has(X, "delta_code_encoded") and X["offset_code"] * 900 + X["offset_minute"] * 60 == X["offset_seconds_truncated"] and 0 <= X["offset_minute"] <= 14 and -128 <= X["offset_code"] <= 127'
    ' and X["delta_code"] * 900 == X["era_delta_seconds_truncated"] and X["delta_code_encoded"] == X["offset_minute"] * 16 + X["delta_code"] + 4 and -4 <= X["delta_code"] <= 11 and 0 <= X["delta_code_encoded"] <= 255)',
    '(has(X, "offset_seconds_code") and has(X, "offset_seconds_remainder") and has(X, "delta_minutes") and X["offset_seconds_code"] * 15 + X["offset_seconds_remainder"] == X["offset_seconds_truncated"] and 0 <= X["offset_seconds_remainder"] <= 14 and -32768 <= X["offset_seconds_code"] <= 32767'
    ' and X["delta_minutes"] * 60 == X["era_delta_seconds_truncated"] and -128 <= X["delta_minutes"] <= 127)', ['C10'],
    'not ' + over('z', 'implies(self.time_code_format == "low", X["offset_seconds_truncated"] % 60 == 0 and X["era_delta_seconds_truncated"] % 900 == 0 and -3600 <= X["era_delta_seconds_truncated"] <= 9900) and implies(self.time_code_format == "high", X["era_delta_seconds_truncated"] % 60 == 0 and -7680 <= X["era_delta_seconds_truncated"] <= 7620)')[0])

# ---- tables (C15, C18)
NOLETTER = 'all(policies_map[n]["rules"][i]["letter"] != x for n in policies_map for i in range(len(policies_map[n]["rules"])))'
contract(A + '_collect_letter_strings', props=['C15', 'C18', 'C24'], requires=['wfp(policies_map)'], modifies=['new:Dict[str,int]'],
    ensures=['fresh(result)', '"" in result', 'all(policies_map[n]["rules"][i]["letter"] in result for n in policies_map for i in range(len(policies_map[n]["rules"])))',
        f'all(x == "" or not {NOLETTER} for x in result)',
        'all(result[x] == lpos(result, x) and result[x] >= 0 for x in result)',
        ('C15', 'all(lpos(result, x) == sidx(result, x) for x in result)')],
    loops={0: ['"" in all_letters', 'all(implies(idxof(n) < _i, policies_map[n]["rules"][i]["letter"] in all_letters) for n in policies_map for i in range(len(policies_map[n]["rules"])))',
               f'all(x == "" or not {NOLETTER} for x in all_letters)'],
           1: ['"" in all_letters', 'all(rules[i]["letter"] in all_letters for i in range(_i))', f'all(x == "" or not {NOLETTER} for x in all_letters)', 'all(implies(pre(x in all_letters), x in all_letters) for x in strs())'],
           2: ['index == _i', 'all(iff(x in letters_map, x in all_letters and idxof(x) < _i) for x in strs())', 'all(letters_map[x] == idxof(x) and lpos(letters_map, x) == idxof(x) for x in letters_map)', 'len(letters_map) == _i']})
NOFORMAT = 'all(zones_map[n]["eras"][i]["format_short"] != x for n in zones_map for i in range(len(zones_map[n]["eras"])))'
contract(A + '_collect_format_strings', props=['C15', 'C18', 'C24'], requires=['outz(zones_map)'], modifies=['new:Dict[str,int]'],
    ensures=['fresh(result)', 'all(zones_map[n]["eras"][i]["format_short"] in result for n in zones_map for i in range(len(zones_map[n]["eras"])))',
        f'all(not {NOFORMAT} for x in result)',
        'all(result[x] == lpos(result, x) and result[x] >= 0 for x in result)',
        ('C15', 'all(lpos(result, x) == sidx(result, x) for x in result)')],
    loops={0: ['all(implies(idxof(n) < _i, zones_map[n]["eras"][i]["format_short"] in short_formats) for n in zones_map for i in range(len(zones_map[n]["eras"])))',
               f'all(not {NOFORMAT} for x in short_formats)'],
           1: ['all(eras[i]["format_short"] in short_formats for i in range(_i))', f'all(not {NOFORMAT} for x in short_formats)', 'all(implies(pre(x in short_formats), x in short_formats) for x in strs())'],
           2: ['index == _i', 'all(iff(x in short_formats_map, x in short_formats and idxof(x) < _i) for x in strs())', 'all(short_formats_map[x] == idxof(x) and lpos(short_formats_map, x) == idxof(x) for x in short_formats_map)', 'len(short_formats_map) == _i']})
contract(AR + '_process_rules_letter', props=['C18'], requires=['outp(policies_map)', 'all(policies_map[n]["rules"][i]["letter"] in self.letters_map for n in policies_map for i in range(len(policies_map[n]["rules"])))', 'all(self.letters_map[x] >= 0 for x in self.letters_map)'],
    modifies=['ZoneRuleRaw.letter_index'],
    ensures=[over('p', 'has(X, "letter_index") and X["letter_index"] == self.letters_map[X["letter"]]')[0]],
    loops={0: [over('p', 'has(X, "letter_index") and X["letter_index"] == self.letters_map[X["letter"]]')[1]], 1: [over('p', 'has(X, "letter_index") and X["letter_index"] == self.letters_map[X["letter"]]')[2]]})

# ---- compressed names (C13)
@spec
def fragtext(name, i):
    return part(name, '/', i) + '/'
contract(A + '_extract_fragments', props=['C13'], modifies=['new:List[str]'],
    ensures=['fresh(result)', 'len(result) == nparts(name, "/") - 1', 'all(result[i] == fragtext(name, i) for i in range(len(result)))'])
contract(A + '_generate_fragments', props=['C13', 'C15'], modifies=['new:Dict[str,int]', 'new:List[str]'], raises=['Exception'],
    ensures=['fresh(result)', 'all(1 <= result[f] <= 31 for f in result)', 'all(implies(result[f] == result[g], f == g) for f in result for g in result)', 'all(len(f) > 3 for f in result)',
        'all(result[f] == lpos(result, f) + 1 for f in result)', ('C15', 'all(implies(lpos(result, f) < lpos(result, g), f < g) for f in result for g in result)')],
    loops={0: ['all(len(f) > 3 for f in fragments)'], 1: ['all(len(f) > 3 for f in fragments)'],
        2: ['index == len(fragments_map) + 1', 'all(implies(fragments_map[f] == fragments_map[g], f == g) for f in fragments_map for g in fragments_map)', 'all(1 <= fragments_map[f] < index and fragments_map[f] == lpos(fragments_map, f) + 1 and idxof(f) < _i and f in fragments and len(f) > 3 for f in fragments_map)',
            ('C15', 'all(implies(lpos(fragments_map, f) < lpos(fragments_map, g), idxof(f) < idxof(g)) for f in fragments_map for g in fragments_map)')]})
@spec(opaque=True)
def expand(c: str) -> str:
    """a compressed name with every keyword byte replaced by the fragment it stands for (lemmas.py)"""
    return c
@spec(opaque=True)
def frag(i: int) -> str:
    """the fragment that byte i stands for: any table, see decodes()"""
    return ''
@spec(opaque=True)
def plain(c: str) -> bool:
    """no character below 32"""
    return True
@spec
def decodes(fs):
    """frag is the table of the fragments in fs"""
    return all(frag(fs[g]) == g for g in fs)
@spec(opaque=True)
def upto(name: str, n: int) -> str:
    """the first n components, each with its slash"""
    return ''
_EXP = [('expand', 'all(expand(a + b) == expand(a) + expand(b) for a in strs() for b in strs())'), ('expand', 'expand("") == ""'),
        ('expand', 'all(implies(0 <= i < 32, expand(chr(i)) == frag(i)) for i in ints())'), ('expand', 'all(implies(plain(a), expand(a) == a) for a in strs())'),
        ('expand', 'all(iff(plain(a + b), plain(a) and plain(b)) for a in strs() for b in strs())'), ('expand', 'plain("/")')]
contract(A + '_compress_name', props=['C13'], requires=['plain(name)', 'all(1 <= fragments[f] <= 31 for f in fragments)'],
    facts=_EXP + [('lib:str.split gives the components that the text is joined from', 'upto(name, 0) == "" and all(implies(0 <= i < nparts(name, "/"), upto(name, i + 1) == upto(name, i) + (part(name, "/", i) + "/") and plain(part(name, "/", i))) for i in ints()) and name == upto(name, nparts(name, "/") - 1) + part(name, "/", nparts(name, "/") - 1)')],
    ensures=['implies(decodes(fragments), expand(result) == name)'],
    loops={0: ['implies(decodes(fragments), expand(compressed) == upto(name, _i))']})
_PLAIN = ['all(plain(n) for n in zones_map)', 'all(plain(n) for n in links_map)']
_EX = lambda m, v, c: f'implies(decodes(fragments_map), all({c}n in {v} and expand({v}[n]) == n{")" if c else ""} for n in {m}))'
contract(A + '_generate_compressed_names', props=['C13', 'C15'], requires=_PLAIN + ['all(1 <= fragments_map[f] <= 31 for f in fragments_map)'], modifies=['new:Dict[str,str]'],
    ensures=['all(iff(n in result, n in zones_map or n in links_map) for n in strs())', 'implies(decodes(fragments_map), all(expand(result[n]) == n for n in result))'],
    loops={0: ['all(iff(n in compressed_names, n in zones_map and idxof(n) < _i) for n in strs())', 'implies(decodes(fragments_map), all(expand(compressed_names[n]) == n for n in compressed_names))'],
           1: ['all(iff(n in compressed_names, n in zones_map or n in links_map and idxof(n) < _i) for n in strs())', 'implies(decodes(fragments_map), all(expand(compressed_names[n]) == n for n in compressed_names))']})
contract(AR + '_generate_memory_map', props=['C10'], requires=['has(sizes, "context") and has(sizes, "rule") and has(sizes, "policy") and has(sizes, "era") and has(sizes, "info") and has(sizes, "pointer")', 'wfz(self.zones_map) and wfp(self.policies_map)', 'implies(self.compress, all(n in self.compressed_names for n in self.zones_map) and all(n in self.compressed_names for n in self.links_map))'], allocs=True, ensures=['fresh(result)'])
contract(AR + 'print_summary', props=['C10'], ensures=[])
def _tr(f):
    for m in ('zones_map', 'policies_map', 'links_map'): f = f.replace(m, 'tresult.' + m)
    return f
def _coded():
    out = []
    for q in ('_process_rules_from_to_at', '_process_eras_until', '_process_rules_delta', '_process_eras_stdoff_delta'): out.append(('C10', _tr(CODERS[q])))
    return out
contract(AR + 'transform', props=['C10', 'C13', 'C15', 'C18'], requires=['outz(tresult.zones_map)', 'outp(tresult.policies_map)'] + [_tr(x) for x in _PLAIN],
    modifies=['TransformerResult.*', 'ArduinoTransformer.*', 'ZoneEraRaw.*', 'ZoneRuleRaw.*', 'new:Dict[str,int]', 'new:Dict[str,str]', 'new:List[str]'], allocs=True, raises=['Exception', 'UnboundLocalError'],
    ensures=_coded() + [
        ('C18', 'all(has(tresult.policies_map[n]["rules"][i], "letter_index") and tresult.policies_map[n]["rules"][i]["letter"] in tresult.letters_map and tresult.policies_map[n]["rules"][i]["letter_index"] == tresult.letters_map[tresult.policies_map[n]["rules"][i]["letter"]] for n in tresult.policies_map for i in range(len(tresult.policies_map[n]["rules"])))'),
        ('C18', 'all(tresult.zones_map[n]["eras"][i]["format_short"] in tresult.formats_map for n in tresult.zones_map for i in range(len(tresult.zones_map[n]["eras"])))'),
        ('C15, C18', 'all(tresult.letters_map[x] == lpos(tresult.letters_map, x) for x in tresult.letters_map) and all(tresult.formats_map[x] == lpos(tresult.formats_map, x) for x in tresult.formats_map)'),
        ('C15', 'all(lpos(tresult.letters_map, x) == sidx(tresult.letters_map, x) for x in tresult.letters_map) and all(lpos(tresult.formats_map, x) == sidx(tresult.formats_map, x) for x in tresult.formats_map)'),
        ('C15', 'all(implies(lpos(tresult.fragments_map, f) < lpos(tresult.fragments_map, g), f < g) for f in tresult.fragments_map for g in tresult.fragments_map)'),
        ('C13', 'all(1 <= tresult.fragments_map[f] <= 31 for f in tresult.fragments_map) and all(implies(tresult.fragments_map[f] == tresult.fragments_map[g], f == g) for f in tresult.fragments_map for g in tresult.fragments_map)'),
        ('C13', 'implies(self.compress, all(n in tresult.compressed_names for n in tresult.zones_map) and all(n in tresult.compressed_names for n in tresult.links_map))'),
        ('C13', 'implies(decodes(tresult.fragments_map), all(expand(tresult.compressed_names[n]) == n for n in tresult.compressed_names))'),
    ])
