# transformer/gotransformer.py: tables of the Go library (C12), Go time codes (C10, C14)
G = 'transformer.gotransformer:'
def offsets(m, tail=True, n=None):
    """items are numbered in emission order, offsets add up the lengths of the items before; the sentinel comes last"""
    d = f'for x in {m}'
    return [f'all({m}[x][0] == lpos({m}, x) {d})',
            f'all(implies(lpos({m}, x) == 0, {m}[x][1] == 0) {d})',
            f'all(implies(lpos({m}, y) == lpos({m}, x) + 1, {m}[y][1] == {m}[x][1] + len(x)) for x in {m} for y in {m})']
def strtable(name, src, args, m, pre_loops, nloop, requires, members, elems, tags, more=(), mods=()):
    """a table of strings built from a set: members (clauses about `in result`), in sorted order, with offsets"""
    contract(G + name, props=tags, requires=requires, modifies=['new:Dict[str,Tuple[int,int]]', *mods],
        ensures=['fresh(result)', '"~" in result and lpos(result, "~") == len(result) - 1', *members,
            ('C12, C15', 'all(implies(lpos(result, x) < lpos(result, y) and y != "~", x < y) for x in result for y in result)'),
            *[('C12', c) for c in offsets('result')], *more],
        loops={**pre_loops, nloop: ['index == _i', f'all(iff(x in {m}, x in {src} and idxof(x) < _i) for x in strs())', f'all(lpos({m}, x) == idxof(x) for x in {m})', f'len({m}) == _i',
            f'all({m}[x][0] == lpos({m}, x) for x in {m})',
            ('C12', f'all(implies(lpos({m}, x) == 0, {m}[x][1] == 0) for x in {m})'),
            ('C12', f'all(implies(lpos({m}, y) == lpos({m}, x) + 1, {m}[y][1] == {m}[x][1] + len(x)) for x in {m} for y in {m})'),
            ('C12', f'implies(_i == 0, offset == 0) and all(implies(lpos({m}, x) == _i - 1, offset == {m}[x][1] + len(x)) for x in {m})'),
            ('C12', f'offset >= 0 and all(0 <= {m}[x][1] <= offset for x in {m})')]})
LET = 'policies_map[n]["rules"][i]["letter"]'
GT = ['C12', 'C14', 'C15', 'C18', 'C24']
strtable('_collect_letter_strings', 'all_letters', 'policies_map', 'letters_map',
    {0: ['"" in all_letters', f'all(implies(idxof(n) < _i, {LET} in all_letters) for n in policies_map for i in range(len(policies_map[n]["rules"])))', f'all(x == "" or not {NOLETTER} for x in all_letters)'],
     1: ['"" in all_letters', 'all(policy["rules"][i]["letter"] in all_letters for i in range(_i))', f'all(x == "" or not {NOLETTER} for x in all_letters)', 'all(implies(pre(x in all_letters), x in all_letters) for x in strs())']},
    2, ['wfp(policies_map)', 'all(policies_map[n]["rules"][i]["letter"] != "~" for n in policies_map for i in range(len(policies_map[n]["rules"])))'],
    ['"" in result', f'all({LET} in result for n in policies_map for i in range(len(policies_map[n]["rules"])))', f'all(x == "" or x == "~" or not {NOLETTER} for x in result)'], None, GT)
FMT = 'zones_map[n]["eras"][i]["format"].replace("%s", "%")'
NOFMT = f'all({FMT} != x for n in zones_map for i in range(len(zones_map[n]["eras"])))'
strtable('_collect_format_strings', 'formats', 'zones_map', 'formats_map',
    {0: ['"" in formats', f'all(implies(idxof(n) < _i, {FMT} in formats) for n in zones_map for i in range(len(zones_map[n]["eras"])))', f'all(x == "" or not {NOFMT} for x in formats)'],
     1: ['"" in formats', 'all(info["eras"][i]["format"].replace("%s", "%") in formats for i in range(_i))', f'all(x == "" or not {NOFMT} for x in formats)', 'all(implies(pre(x in formats), x in formats) for x in strs())']},
    2, ['wfz(zones_map)', f'all({FMT} != "~" for n in zones_map for i in range(len(zones_map[n]["eras"])))'],
    ['"" in result', f'all({FMT} in result for n in zones_map for i in range(len(zones_map[n]["eras"])))', f'all(x == "" or x == "~" or not {NOFMT} for x in result)'], None, GT)
strtable('_collect_name_strings', 'names', 'zone_and_link_names', 'names_map', {}, 0, ['"~" not in zone_and_link_names'],
    ['all(iff(x in result, x == "~" or x in zone_and_link_names) for x in strs())'], None, ['C12', 'C14', 'C15'])
contract(G + '_generate_zone_and_link_index_map', props=['C12', 'C15'], modifies=['new:Dict[str,int]', 'new:List[str]'],
    requires=['all(lpos(zone_and_link_names, zone_and_link_names[i]) == i and zone_and_link_names[i] in zone_and_link_ids for i in range(len(zone_and_link_names)))'],
    ensures=['fresh(result)', 'all(iff(n in result, n in zone_and_link_names) for n in strs())', 'len(result) == len(zone_and_link_names)', 'all(result[n] == lpos(result, n) for n in result)',
             ('C12', 'all(implies(lpos(result, a) < lpos(result, b), zone_and_link_ids[a] <= zone_and_link_ids[b]) for a in result for b in result)')],
    loops={0: ['all(lpos(_seq, _seq[i]) == i and _seq[i] in zone_and_link_names for i in range(len(_seq)))', 'all(n in _seq for n in zone_and_link_names)', 'index == _i', 'len(zone_and_link_index_map) == _i', 'all(implies(i < _i, _seq[i] in zone_and_link_index_map) for i in range(len(_seq)))',
               'all(n in _seq and lpos(_seq, n) == lpos(zone_and_link_index_map, n) and n in zone_and_link_names and 0 <= zone_and_link_index_map[n] < _i and zone_and_link_index_map[n] == lpos(zone_and_link_index_map, n) for n in zone_and_link_index_map)']})
def ranges(m, v, l, first):
    """items numbered from first, each with the position and the count of its own records, one after the other"""
    return [f'all({v}[n][0] == lpos({v}, n) for n in {v})',
            f'all({v}[n][2] == len({m}[n]["{l}"]) for n in {m})',
            f'all(implies(lpos({v}, b) == lpos({v}, a) + 1, {v}[b][1] == {v}[a][1] + {v}[a][2]) for a in {v} for b in {v})',
            f'all(implies(lpos({v}, n) == 0, {v}[n][1] == 0) for n in {v})']
for _nm, _m, _l, _first, _shape in (('_generate_policy_index_size_map', 'policies_map', 'rules', 1, 'wfp'), ('_generate_info_index_size_map', 'zones_map', 'eras', 0, 'wfz')):
    _ix = 'policy_index' if _first else 'info_index'; _off = 'rules_index' if _first else 'eras_index'
    _nul = 'n == "" or ' if _first else ''
    contract(G + _nm, props=['C12', 'C14', 'C15'], requires=[f'{_shape}({_m})'] + ([f'"" not in {_m}'] if _first else []), modifies=['new:Dict[str,Tuple[int,int,int]]'],
        ensures=['fresh(result[0])', f'all(iff(n in result[0], {_nul}n in {_m}) for n in strs())',
            *(['lpos(result[0], "") == 0 and result[0][""] == (0, 0, 0)'] if _first else []),
            ('C12', f'all({_nul}lpos(result[0], n) == sidx({_m}, n) + {_first} for n in result[0])'),
            *[('C12', c) for c in ranges(_m, 'result[0]', _l, _first)],
            ('C12', 'all(0 <= result[0][n][1] and result[0][n][1] + result[0][n][2] <= result[1] for n in result[0])'),
            ('C12', 'all(implies(lpos(result[0], n) == len(result[0]) - 1, result[1] == result[0][n][1] + result[0][n][2]) for n in result[0])')],
        loops={0: [f'{_ix} == _i + {_first}', f'all(iff(n in index_map, {_nul}n in {_m} and idxof(n) < _i) for n in strs())', f'len(index_map) == _i + {_first}',
            *(['"" in index_map and lpos(index_map, "") == 0 and index_map[""] == (0, 0, 0)'] if _first else []),
            f'all({_nul}lpos(index_map, n) == idxof(n) + {_first} for n in index_map)',
            'all(index_map[n][0] == lpos(index_map, n) for n in index_map)', f'all({_nul}index_map[n][2] == len({_m}[n]["{_l}"]) for n in index_map)',
            f'{_off} >= 0 and all(0 <= index_map[n][1] and index_map[n][1] + index_map[n][2] <= {_off} for n in index_map)',
            'all(implies(lpos(index_map, n) == 0, index_map[n][1] == 0) for n in index_map)',
            'all(implies(lpos(index_map, b) == lpos(index_map, a) + 1, index_map[b][1] == index_map[a][1] + index_map[a][2]) for a in index_map for b in index_map)',
            f'all(implies(lpos(index_map, n) == len(index_map) - 1, {_off} == index_map[n][1] + index_map[n][2]) for n in index_map)', f'implies(len(index_map) == 0, {_off} == 0)']})

# ---- Go time codes
GOCODES = {}
def gocoder(name, kind, fields, clause, fails):
    m = 'zones_map' if kind == 'z' else 'policies_map'
    rec, shape = ('ZoneEraRaw', 'outz') if kind == 'z' else ('ZoneRuleRaw', 'outp')
    f, o, i = over(kind, clause)
    GOCODES[name] = f
    contract(G + name, props=['C10', 'C14'], requires=[f'{shape}({m})'], modifies=[f'{rec}.{x}' for x in fields], raises=[('Exception', fails)], ensures=[f], loops={0: [o], 1: [i]})
gocoder('_generate_zone_era_time_codes', 'z', ['go_offset_seconds_code', 'go_offset_seconds_remainder', 'go_era_delta_minutes', 'go_until_seconds_code', 'go_until_seconds_remainder', 'go_until_seconds_suffix_value', 'go_until_seconds_modifier'],
    '(has(X, "go_offset_seconds_code") and has(X, "go_offset_seconds_remainder") and has(X, "go_era_delta_minutes") and has(X, "go_until_seconds_code") and has(X, "go_until_seconds_remainder") and has(X, "go_until_seconds_modifier") and has(X, "go_until_seconds_suffix_value")'
    ' and X["go_offset_seconds_code"] * 15 + X["go_offset_seconds_remainder"] == X["offset_seconds_truncated"] and 0 <= X["go_offset_seconds_remainder"] <= 14 and -32768 <= X["go_offset_seconds_code"] <= 32767'
    ' and X["go_era_delta_minutes"] * 60 == X["era_delta_seconds_truncated"]'
    ' and X["go_until_seconds_code"] * 15 + X["go_until_seconds_remainder"] == X["until_seconds_truncated"] and 0 <= X["go_until_seconds_remainder"] <= 14 and 0 <= X["go_until_seconds_code"] <= 65535 and sfx_ok(X["until_time_suffix"])'
    ' and X["go_until_seconds_suffix_value"] == suffix_code(X["until_time_suffix"]) and X["go_until_seconds_modifier"] == X["go_until_seconds_remainder"] + suffix_code(X["until_time_suffix"]) and 0 <= X["go_until_seconds_modifier"] <= 255)',
    'not ' + over('z', 'sfx_ok(X["until_time_suffix"]) and X["era_delta_seconds_truncated"] % 60 == 0')[0])
gocoder('_generate_zone_rule_time_codes', 'p', ['go_delta_minutes', 'go_at_seconds_code', 'go_at_seconds_remainder', 'go_at_seconds_suffix_value', 'go_at_seconds_modifier'],
    '(has(X, "go_delta_minutes") and has(X, "go_at_seconds_code") and has(X, "go_at_seconds_remainder") and has(X, "go_at_seconds_suffix_value") and has(X, "go_at_seconds_modifier") and X["go_delta_minutes"] * 60 == X["delta_seconds_truncated"]'
    ' and X["go_at_seconds_code"] * 15 + X["go_at_seconds_remainder"] == X["at_seconds_truncated"] and 0 <= X["go_at_seconds_remainder"] <= 14 and 0 <= X["go_at_seconds_code"] <= 65535 and sfx_ok(X["at_time_suffix"])'
    ' and X["go_at_seconds_suffix_value"] == suffix_code(X["at_time_suffix"]) and X["go_at_seconds_modifier"] == X["go_at_seconds_remainder"] + suffix_code(X["at_time_suffix"]) and 0 <= X["go_at_seconds_modifier"] <= 255)',
    'not ' + over('p', 'sfx_ok(X["at_time_suffix"]) and X["delta_seconds_truncated"] % 60 == 0')[0])
contract(G + '_generate_memory_map', props=['C12'], requires=['wfz(zones_map) and wfp(policies_map)'], allocs=True, ensures=['fresh(result)'])
contract(G + 'GoTransformer.print_summary', props=['C12'], ensures=[])
ZR = 'for n in tresult.zones_map for i in range(len(tresult.zones_map[n]["eras"]))'; PR = 'for n in tresult.policies_map for i in range(len(tresult.policies_map[n]["rules"]))'
GOREQ = ['outz(tresult.zones_map)', 'outp(tresult.policies_map)', '"" not in tresult.policies_map', '"~" not in tresult.zones_map and "~" not in tresult.links_map', 'all(n not in tresult.links_map for n in tresult.zones_map)',
    'all(n in tresult.zone_ids for n in tresult.zones_map) and all(n in tresult.link_ids for n in tresult.links_map)', 'all(n in tresult.zones_map for n in tresult.zone_ids) and all(n in tresult.links_map for n in tresult.link_ids)',
    f'all({_tr(LET)} != "~" {PR})', f'all({_tr(FMT)} != "~" {ZR})']
def _last(m): return f'{m}["~"]'
def gomap(m): return 'tresult.go_' + m
contract(G + 'GoTransformer.transform', props=['C10', 'C12', 'C14', 'C15', 'C18'], requires=GOREQ,
    modifies=['TransformerResult.*', 'ZoneEraRaw.*', 'ZoneRuleRaw.*', 'new:Dict[str,Tuple[int,int]]', 'new:Dict[str,Tuple[int,int,int]]', 'new:Dict[str,int]', 'new:List[str]'], allocs=True, raises=['Exception'],
    ensures=[('C10, C14', _tr(GOCODES['_generate_zone_era_time_codes'])), ('C10, C14', _tr(GOCODES['_generate_zone_rule_time_codes'])),
        ('C18, C14', f'all({_tr(LET)} in tresult.go_letters_map {PR})'), ('C18, C14', f'all({_tr(FMT)} in tresult.go_formats_map {ZR})'),
        ('C12, C14', 'all(iff(x in tresult.go_names_map, x == "~" or x in tresult.zones_map or x in tresult.links_map) for x in strs())'),
        *[('C12', c) for m in ('letters_map', 'formats_map', 'names_map') for c in offsets(gomap(m))],
        *[('C12', f'"~" in {gomap(m)} and lpos({gomap(m)}, "~") == len({gomap(m)}) - 1 and {gomap(m)}["~"][1] <= {k}') for m, k in (('letters_map', 255), ('formats_map', 65535), ('names_map', 65535))],
        *[('C15', f'all(implies(lpos({gomap(m)}, x) < lpos({gomap(m)}, y) and y != "~", x < y) for x in {gomap(m)} for y in {gomap(m)})') for m in ('letters_map', 'formats_map', 'names_map')],
        ('C12', 'all(iff(n in tresult.go_zone_and_link_index_map, n in tresult.zones_map or n in tresult.links_map) for n in strs())'),
        ('C12', 'all(tresult.go_zone_and_link_index_map[n] == lpos(tresult.go_zone_and_link_index_map, n) for n in tresult.go_zone_and_link_index_map)'),
        ('C12', 'all(implies(lpos(tresult.go_zone_and_link_index_map, a) < lpos(tresult.go_zone_and_link_index_map, b), (tresult.zone_ids[a] if a in tresult.zones_map else tresult.link_ids[a]) <= (tresult.zone_ids[b] if b in tresult.zones_map else tresult.link_ids[b])) for a in tresult.go_zone_and_link_index_map for b in tresult.go_zone_and_link_index_map)'),
        *[('C12', c) for c in ranges('tresult.policies_map', 'tresult.go_policy_index_size_map', 'rules', 1)], *[('C12', c) for c in ranges('tresult.zones_map', 'tresult.go_info_index_size_map', 'eras', 0)],
        ('C12', 'all(iff(n in tresult.go_policy_index_size_map, n == "" or n in tresult.policies_map) for n in strs()) and all(iff(n in tresult.go_info_index_size_map, n in tresult.zones_map) for n in strs())'),
        ('C12', 'lpos(tresult.go_policy_index_size_map, "") == 0 and tresult.go_policy_index_size_map[""] == (0, 0, 0)'),
        ('C12', 'all(n == "" or lpos(tresult.go_policy_index_size_map, n) == sidx(tresult.policies_map, n) + 1 for n in tresult.go_policy_index_size_map) and all(lpos(tresult.go_info_index_size_map, n) == sidx(tresult.zones_map, n) for n in tresult.go_info_index_size_map)'),
        ('C12', 'len(tresult.go_policy_index_size_map) <= 255 and len(tresult.go_info_index_size_map) <= 65535'),
        ('C12', 'all(tresult.go_policy_index_size_map[n][1] + tresult.go_policy_index_size_map[n][2] <= 65535 for n in tresult.go_policy_index_size_map) and all(tresult.go_info_index_size_map[n][1] + tresult.go_info_index_size_map[n][2] <= 65535 for n in tresult.go_info_index_size_map)')])
