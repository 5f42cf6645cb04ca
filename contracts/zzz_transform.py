# Filters, detectors, verification and the composition transform() of transformer/transformer.py
TR = 'transformer.transformer:Transformer.'
T = 'transformer.transformer:'

# ---- include list (C16)
_FM = ['type:Set[str]', 'new:CommentsMap', 'okey', 'new:List[Tuple[str,Set[str]]]']
@spec
def apart(t, inc):
    """the include list is not one of the reason sets"""
    return all(t.all_removed_zones[n] is not inc for n in t.all_removed_zones) and all(t.all_removed_links[n] is not inc for n in t.all_removed_links)
contract(TR + '_filter_include_zones', props=['C01', 'C16'], requires=['selfok(self)', 'wfz(zones_map)', ('C01, C16', 'apart(self, include_list)')],
    modifies=_FM + ['at:self.all_removed_zones', 'new:ZonesMap'],
    ensures=['selfok(self)', 'wfz(result)', 'sub(result, zones_map)', ('C01, C16', 'gone(self.all_removed_zones, zones_map, result)'), 'grown()',
        ('C01, C16', 'all(iff(n in result, n in zones_map and old(not bool(include_list) or n in include_list)) for n in strs())'), ('C01, C16', 'apart(self, include_list)'), ('C01, C16', 'all(iff(x in include_list, old(x in include_list)) for x in strs())'), ('C01, C16', 'iff(bool(include_list), old(bool(include_list)))')],
    loops={0: ['parts(zones_map, results, removed_zones, _i)', ('C01, C16', 'all(iff(n in include_list, n in results) for n in zones_map if idxof(n) < _i)')]})
@spec
def lparts(ls, res, rem, k):
    return (all(n in ls and idxof(n, 0) < k and res[n] == ls[n] for n in res)
        and all(n in ls and idxof(n, 0) < k and n not in res and bool(rem[n]) and okey(rem[n]) == n and fresh(rem[n]) for n in rem)
        and all(implies(idxof(n, 0) < k, n in res or n in rem) for n in ls))
contract(TR + '_filter_include_links', props=['C01', 'C16'], requires=['selfok(self)', ('C01, C16', 'apart(self, include_list)')],
    modifies=_FM + ['at:self.all_removed_links', 'new:LinksMap'],
    ensures=['selfok(self)', 'all(n in links_map and result[n] == links_map[n] for n in result)', ('C01, C16', 'gone(self.all_removed_links, links_map, result)'), 'grown()',
        ('C01, C16', 'all(iff(n in result, n in links_map and old(not bool(include_list) or n in include_list)) for n in strs())'), ('C01, C16', 'apart(self, include_list)'), ('C01, C16', 'all(iff(x in include_list, old(x in include_list)) for x in strs())'), ('C01, C16', 'iff(bool(include_list), old(bool(include_list)))')],
    loops={0: ['lparts(links_map, results, removed_links, _i)', ('C01, C16', 'all(iff(n in include_list, n in results) for n in links_map if idxof(n) < _i)')]})

# ---- references (C02)
zpass('_remove_zones_without_rules', ['C01', 'C02'], requires=['all(has(zones_map[n]["eras"][i], "policy_name") for n in zones_map for i in range(len(zones_map[n]["eras"])))'],
    ensures=['all(polok(result[n]["eras"][i], policies_map) for n in result for i in range(len(result[n]["eras"])))',
             ('C02', 'all(implies(n not in result, not all(polok(zones_map[n]["eras"][i], policies_map) for i in range(len(zones_map[n]["eras"])))) for n in zones_map)')],
    outer=['all(polok(results[n]["eras"][i], policies_map) for n in results for i in range(len(results[n]["eras"])))',
           ('C02', 'all(implies(idxof(n) < _i and n not in results, not all(polok(zones_map[n]["eras"][i], policies_map) for i in range(len(zones_map[n]["eras"])))) for n in zones_map)')],
    inner=['all(polok(info["eras"][i], policies_map) for i in range(_i))', 'valid'])
@spec
def polok(e, ps):
    """the policy an era refers to exists"""
    return isnone(e['policy_name']) or e['policy_name'] == '' or e['policy_name'] in ps
contract(TR + '_remove_links_to_missing_zones', props=['C01', 'C02'], requires=['selfok(self)', 'wfz(zones_map)'],
    modifies=_FM + ['at:self.all_removed_links', 'new:Dict[str,str]'],
    ensures=['selfok(self)', 'all(n in links_map and result[n] == links_map[n] for n in result)', ('C01', 'gone(self.all_removed_links, links_map, result)'), 'grown()',
        ('C02', 'all(iff(n in result, n in links_map and links_map[n] in zones_map) for n in strs())')],
    loops={0: ['lparts(links_map, results, removed_links, _i)', ('C02', 'all(iff(links_map[n] in zones_map, n in results) for n in links_map if idxof(n) < _i)')]})
contract(T + '_detect_links_to_links', props=['C02'],
    raises=[('Exception', 'not all(links_map[n] not in links_map for n in links_map)')],
    ensures=['all(links_map[n] not in links_map for n in links_map)'],
    loops={0: ['all(implies(idxof(n) < _i, links_map[n] not in links_map) for n in links_map)']})

# ---- final verification (C01, C03, C04)
contract(TR + '_verify_zones_until_year', props=['C03', 'C08'],
    requires=['wfz(zones_map)', 'implies(self.generate_tiny_years, all(has(zones_map[n]["eras"][len(zones_map[n]["eras"]) - 1], "until_year_tiny") for n in zones_map))'],
    raises=[('Exception', 'not all(lastera(zones_map[n])["until_year"] == 32767 and implies(self.generate_tiny_years, lastera(zones_map[n])["until_year_tiny"] == 127) for n in zones_map)')],
    ensures=['all(lastera(zones_map[n])["until_year"] == 32767 for n in zones_map)',
             'implies(self.generate_tiny_years, all(lastera(zones_map[n])["until_year_tiny"] == 127 for n in zones_map))'],
    loops={0: ['all(implies(idxof(n) < _i, lastera(zones_map[n])["until_year"] == 32767 and implies(self.generate_tiny_years, lastera(zones_map[n])["until_year_tiny"] == 127)) for n in zones_map)']})
@spec
def lastera(z):
    return z['eras'][len(z['eras']) - 1]
contract(TR + '_verify_policies_from_year', props=['C04', 'C08'],
    requires=['wfp(policies_map)', 'implies(self.generate_tiny_years, all(has(policies_map[n]["rules"][0], "from_year_tiny") for n in policies_map))'],
    raises=[('Exception', 'not all(policies_map[n]["rules"][0]["from_year"] == -32767 and implies(self.generate_tiny_years, policies_map[n]["rules"][0]["from_year_tiny"] == -127) for n in policies_map)')],
    ensures=['all(policies_map[n]["rules"][0]["from_year"] == -32767 for n in policies_map)',
             'implies(self.generate_tiny_years, all(policies_map[n]["rules"][0]["from_year_tiny"] == -127 for n in policies_map))'],
    loops={0: ['all(implies(idxof(n) < _i, policies_map[n]["rules"][0]["from_year"] == -32767 and implies(self.generate_tiny_years, policies_map[n]["rules"][0]["from_year_tiny"] == -127)) for n in policies_map)']})
contract(TR + '_verify_zones_and_links_count', props=['C01'],
    raises=[('Exception', '(self.scope == "extended" or self.scope == "complete") and not (len(zones_map) == expected_zones_count and len(links_map) == expected_links_count)')],
    ensures=['implies(self.scope == "extended" or self.scope == "complete", len(zones_map) == expected_zones_count and len(links_map) == expected_links_count)'])

# ---- years and truncation (C19)
contract(TR + '_calc_accurate_years', props=['C19'],
    ensures=['result[0] == (self.start_year if lower_truncated else -32767)', 'result[1] == (self.until_year if upper_truncated else 32767)'])
@spec
def cutz(z, ps, f, g):
    """cut at that end: its eras, or a policy that one of its eras uses"""
    return z[f] or not all(not (not isnone(z['eras'][i]['policy_name']) and z['eras'][i]['policy_name'] != '' and ps[z['eras'][i]['policy_name']][g]) for i in range(len(z['eras'])))
@spec
def cutl(z, ps):
    return z['lower_era_truncated'] or not all(not (usedpol(z['eras'][i]) and ps[z['eras'][i]['policy_name']]['lower_rule_truncated']) for i in range(len(z['eras'])))
@spec
def cutu(z, ps):
    return z['upper_era_truncated'] or not all(not (usedpol(z['eras'][i]) and ps[z['eras'][i]['policy_name']]['upper_rule_truncated']) for i in range(len(z['eras'])))
@spec
def usedpol(e):
    return not isnone(e['policy_name']) and e['policy_name'] != ''
_TZ = 'has(zones_map[n], "lower_zone_truncated") and has(zones_map[n], "upper_zone_truncated") and iff(zones_map[n]["lower_zone_truncated"], cutl(zones_map[n], policies_map)) and iff(zones_map[n]["upper_zone_truncated"], cutu(zones_map[n], policies_map))'
contract(TR + '_update_truncation_status', props=['C19'],
    requires=['wfz(zones_map)', 'all(has(zones_map[n]["eras"][i], "policy_name") and polok(zones_map[n]["eras"][i], policies_map) for n in zones_map for i in range(len(zones_map[n]["eras"])))',
              'all(has(policies_map[p], "lower_rule_truncated") and has(policies_map[p], "upper_rule_truncated") for p in policies_map)'],
    modifies=['ZoneInfoRaw.lower_zone_truncated', 'ZoneInfoRaw.upper_zone_truncated'],
    ensures=['result is zones_map', 'wfz(result)', f'all({_TZ} for n in zones_map)'],
    loops={0: [f'all(implies(idxof(n) < _i, {_TZ}) for n in zones_map)'],
           1: ['iff(lower_zone_truncated, info["lower_era_truncated"] or not all(not (usedpol(info["eras"][i]) and policies_map[info["eras"][i]["policy_name"]]["lower_rule_truncated"]) for i in range(_i)))',
               'iff(upper_zone_truncated, info["upper_era_truncated"] or not all(not (usedpol(info["eras"][i]) and policies_map[info["eras"][i]["policy_name"]]["upper_rule_truncated"]) for i in range(_i)))']})

# ---- ids (C09)
def unique(name, tags, key, var):
    """names of zones and links have pairwise different keys, or the function raises"""
    K = lambda n: key % dict(n=n)
    c = [f'all(implies({K("a")} == {K("b")}, a == b) for a in zones_map for b in zones_map)',
         f'all({K("a")} != {K("b")} for a in zones_map for b in links_map)',
         f'all(implies({K("a")} == {K("b")}, a == b) for a in links_map for b in links_map)']
    kq = 'ints' if 'int' in var[1] else 'strs'
    back = lambda extra: f'all({K(var[0] + "[h]")} == h and ({extra}) for h in {var[0]})'
    return dict(props=tags, requires=['"" not in zones_map', '"" not in links_map'], raises=[('Exception', 'not (' + ' and '.join(c) + ')')], ensures=c,
        loops={0: [f'all(implies(idxof(n) < _i, {K("n")} in {var[0]} and {var[0]}[{K("n")}] == n) for n in zones_map)',
                   back(f'{var[0]}[h] in zones_map and idxof({var[0]}[h]) < _i')],
               1: [f'all({K("n")} in {var[0]} and {var[0]}[{K("n")}] == n for n in zones_map)',
                   f'all(implies(idxof(n) < _i, {K("n")} in {var[0]} and {var[0]}[{K("n")}] == n and n not in zones_map) for n in links_map)',
                   back(f'{var[0]}[h] in zones_map or {var[0]}[h] in links_map and idxof({var[0]}[h]) < _i')]})
contract(T + '_detect_hash_collisions', modifies=['new:Dict[int,str]'], **unique('_detect_hash_collisions', ['C09'], 'djb2(%(n)s, len(%(n)s))', ('hashes', 'Dict[int,str]')))
@spec
def symbol(n):
    """the generated symbol name"""
    return resub('[^a-zA-Z0-9_]', '_', n.replace('+', '_PLUS_'))
contract(T + 'normalize_name', props=['C02'], ensures=['result == symbol(name)'])
contract(T + '_detect_zones_and_links_with_similar_names', modifies=['new:Dict[str,str]', 'new:ZonesMap', 'new:LinksMap', 'okey'], **unique('', ['C02'], 'symbol(%(n)s)', ('normalized_names', 'Dict[str,str]')))
for _n, _m in (('zone', 'zones_map'), ('link', 'links_map')):
    contract(TR + f'_generate_{_n}_ids', props=['C09', 'C15'], modifies=['new:Dict[str,int]'],
        raises=[('Exception', f'not all(djb2(n, len(n)) != 0 for n in {_m})')],
        ensures=['fresh(result)', f'all(iff(n in result, n in {_m}) for n in strs())', 'all(result[n] == djb2(n, len(n)) and result[n] != 0 and 0 <= result[n] < 4294967296 for n in result)',
                 ('C15', 'all(lpos(result, n) == sidx(result, n) for n in result)')],
        loops={0: [f'all(n in {_m} and idxof(n) < _i and ids[n] == djb2(n, len(n)) and 0 <= ids[n] < 4294967296 for n in ids)', f'all(implies(idxof(n) < _i, n in ids) for n in {_m})'],
               1: ['all(implies(idxof(n) < _i, ids[n] != 0) for n in ids)']})

# ---- years of the data (C19)
def _years(mn, mx, zg, pg):
    """mn and mx are the smallest and largest years of the eras and rules for which zg / pg holds (infinities and anchors ignored)"""
    Z = 'for n in zones_map for i in range(len(zones_map[n]["eras"]))'; P = 'for n in policies_map for i in range(len(policies_map[n]["rules"]))'
    z, p = 'zones_map[n]["eras"][i]["until_year"]', 'policies_map[n]["rules"][i]["from_year"]'
    R = 'policies_map[n]["rules"][i]'
    return [f'{mn} <= 32766', f'{mx} >= -32767',
        f'all(implies({zg}, {mn} <= {z} and ({z} == 32767 or {z} <= {mx})) {Z})', f'all(implies({pg} and not isanch({R}), {mn} <= {p} and ({p} == 32766 or {p} <= {mx})) {P})',
        f'{mn} == 32766 or not all(implies({zg}, {z} != {mn}) {Z}) or not all(implies({pg} and not isanch({R}), {p} != {mn}) {P})',
        f'{mx} == -32767 or not all(implies({zg}, {z} != {mx} or {z} == 32767) {Z}) or not all(implies({pg} and not isanch({R}), {p} != {mx} or {p} == 32766) {P})']
@spec
def isanch(r):
    return has(r, 'anchor') and r['anchor']
contract(T + '_detect_tzdb_years', props=['C19'],
    requires=['wfz(zones_map)', 'wfp(policies_map)'],
    ensures=_years('result[0]', 'result[1]', 'True', 'True'),
    loops={0: _years('min_year', 'max_year', 'idxof(n) < _i', 'False'), 1: _years('min_year', 'max_year', '(idxof(n, 0) < _i0 or info is zones_map[n] and i < _i)', 'False'),
           2: _years('min_year', 'max_year', 'True', 'idxof(n) < _i'), 3: _years('min_year', 'max_year', 'True', '(idxof(n, 0) < _i0 or policy is policies_map[n] and i < _i)')})
