# Policy passes of transformer/transformer.py (shares the specs of zones.py)
TR = 'transformer.transformer:Transformer.'
T = 'transformer.transformer:'

@spec
def wfrule(r):
    return (has(r, 'from_year') and has(r, 'to_year') and has(r, 'in_month') and has(r, 'on_day') and has(r, 'at_time') and has(r, 'at_time_suffix')
        and has(r, 'delta_offset') and has(r, 'letter') and has(r, 'raw_line') and 1 <= r['in_month'] <= 12 and r['from_year'] < 32767)
@spec
def wfp(ps):
    """each policy has its own record, its own rule list and at least one rule; no rule is shared"""
    return (all(okey(ps[n]) == n and has(ps[n], 'rules') and has(ps[n], 'lower_rule_truncated') and has(ps[n], 'upper_rule_truncated') and okey(ps[n]['rules']) == n and len(ps[n]['rules']) >= 1 for n in ps)
        and all(okey(ps[n]['rules'][i]) == n and wfrule(ps[n]['rules'][i]) and lpos(ps[n]['rules'], ps[n]['rules'][i]) == i for n in ps for i in range(len(ps[n]['rules']))))

def ppass(name, props, fields=(), requires=(), ensures=(), outer=(), inner=None, notes=False, raises=(), var='name', loops=None):
    """a pass that keeps some policies and writes fields of their rules"""
    mods = ['ZoneRuleRaw.' + f for f in fields] + ['at:self.all_removed_policies', 'type:Set[str]', 'new:PoliciesMap', 'new:CommentsMap', 'okey', 'new:List[Tuple[str,Set[str]]]', 'new:List[str]']
    if notes: mods.append('at:self.all_notable_policies')
    o = ['parts(policies_map, results, removed_policies, _i)'] + (['fresh_notes(notable_policies)'] if notes else []) + list(outer)
    i = ['all(implies(n != %s, pre(n in removed_policies) and removed_policies[n] is pre(removed_policies[n])) for n in removed_policies)' % var,
         'all(implies(pre(n in removed_policies), n in removed_policies) for n in strs())',
         'iff(%s in removed_policies, not valid)' % var,
         'implies(%s in removed_policies, bool(removed_policies[%s]) and okey(removed_policies[%s]) == %s and fresh(removed_policies[%s]))' % ((var,) * 5)] if inner is not None else []
    if inner is not None and notes: i.append('fresh_notes(notable_policies)')
    L = {0: o}
    if inner is not None: L[1] = i + list(inner)
    if loops: L.update(loops)
    contract(TR + name, props=list(props), requires=['selfok(self)', 'wfp(policies_map)'] + list(requires), modifies=mods, raises=list(raises),
        ensures=['selfok(self)', 'wfp(result)', 'sub(result, policies_map)', ('C01', 'gone(self.all_removed_policies, policies_map, result)'), 'grown()'] + (['noted(self.all_notable_policies)'] if notes else []) + list(ensures),
        loops=L)

def ALLR(m, f):
    """f holds for every rule R of map m"""
    return 'all(%s for n in %s for i in range(len(%s[n]["rules"])))' % (f.replace('R', '%s[n]["rules"][i]' % m), m, m)
def each(tags, f, old='R'):
    """(ensures, outer, inner) of: f holds for every rule R"""
    return ([(tags, ALLR('result', f))], [(tags, ALLR('results', f))], [(tags, 'all(%s for i in range(_i))' % f.replace('R', 'policy["rules"][i]'))])

# ---- AT (C05)
@spec
def at_ok(r, gran, strict):
    return (has(r, 'at_seconds') and has(r, 'at_seconds_truncated') and time_ok(r['at_time']) and r['at_seconds'] == time_secs(r['at_time'])
        and 0 <= r['at_seconds'] <= 93599 and 0 <= r['at_seconds_truncated'] <= 93599 and r['at_seconds_truncated'] == trunc0(r['at_seconds'], gran)
        and implies(strict, r['at_seconds_truncated'] == r['at_seconds']))
e, o, i = each('C05, C10', 'at_ok(R, self.until_at_granularity, self.strict)')
i = [('C05, C10', 'all(implies(valid, at_ok(policy["rules"][i], self.until_at_granularity, self.strict)) for i in range(_i))')]
ppass('_create_rules_with_expanded_at_time', ['C01', 'C05'], fields=['at_seconds', 'at_seconds_truncated'], notes=True, raises=['IndexError'], var='policy_name',
    requires=['self.until_at_granularity > 0'], ensures=e, outer=o, inner=i)

ppass('_remove_policies_invalid_at_time_suffix', ['C01', 'C05'], fields=['at_time_suffix'],
    ensures=[('C05, C10', 'all(result[n]["rules"][i]["at_time_suffix"] == (old(policies_map[n]["rules"][i]["at_time_suffix"]) or "w") for n in result for i in range(len(result[n]["rules"])))'),
             'all(result[n]["rules"][i]["at_time_suffix"] in ["w", "s", "u"] for n in result for i in range(len(result[n]["rules"])))'],
    outer=[('C05, C10', 'all(results[n]["rules"][i]["at_time_suffix"] == (old(policies_map[n]["rules"][i]["at_time_suffix"]) or "w") for n in results for i in range(len(results[n]["rules"])))'),
             'all(results[n]["rules"][i]["at_time_suffix"] in ["w", "s", "u"] for n in results for i in range(len(results[n]["rules"])))'],
    inner=[('C05, C10', 'all(policy["rules"][i]["at_time_suffix"] == (pre(policy["rules"][i]["at_time_suffix"]) or "w") for i in range(_i))'),
           ('C05, C10', 'all(policy["rules"][i]["at_time_suffix"] == pre(policy["rules"][i]["at_time_suffix"]) for i in range(_i, len(policy["rules"])))'),
           'all(policy["rules"][i]["at_time_suffix"] in ["w", "s", "u"] for i in range(_i))'])

# ---- SAVE (C05, C10)
@spec
def save_ok(r, gran, strict):
    return (has(r, 'delta_seconds') and has(r, 'delta_seconds_truncated') and time_ok(r['delta_offset']) and r['delta_seconds'] == time_secs(r['delta_offset'])
        and r['delta_seconds_truncated'] == trunc0(r['delta_seconds'], gran) and -3600 <= r['delta_seconds_truncated'] < 10800
        and implies(strict, r['delta_seconds_truncated'] == r['delta_seconds']))
e, o, i = each('C05, C10', 'save_ok(R, self.delta_granularity, self.strict)')
e2, o2, i2 = each(None, 'has(R, "delta_seconds")')
ppass('_update_rules_with_expanded_delta_offset', ['C01', 'C05'], fields=['delta_seconds', 'delta_seconds_truncated'], notes=True, raises=['IndexError'],
    requires=['self.delta_granularity > 0'], ensures=e + e2, outer=o + o2, inner=i + i2)

# ---- ON (C06)
@spec
def on_ok(r):
    """day of week and day of month mean what the expression says, and the date stays in the year"""
    return (has(r, 'on_day_of_week') and has(r, 'on_day_of_month') and r['on_day_of_week'] == onday_dow(r['on_day']) and r['on_day_of_month'] == onday_dom(r['on_day'])
        and 0 <= r['on_day_of_week'] <= 7 and not (r['on_day_of_week'] == 0 and r['on_day_of_month'] == 0)
        and not (r['on_day_of_week'] != 0 and -7 <= r['on_day_of_month'] <= -1 and r['in_month'] == 1)
        and not (r['on_day_of_week'] != 0 and r['on_day_of_month'] >= 26 and r['in_month'] == 12))
e, o, i = each('C06', 'on_ok(R)')
e2, o2, i2 = each(None, 'has(R, "on_day_of_week") and has(R, "on_day_of_month") and 0 <= R["on_day_of_week"] <= 7')
ppass('_create_rules_with_on_day_expansion', ['C01', 'C04', 'C06'], fields=['on_day_of_week', 'on_day_of_month'], raises=['ValueError'], ensures=e + e2, outer=o + o2, inner=i + i2)

# ---- basic scope (C17)
@spec
def not_border(r):
    return not (r['from_year'] > -32767 and r['to_year'] > -32767 and r['in_month'] == 1 and r['on_day_of_month'] == 1)
e, o, i = each('C17', 'not_border(R)')
ppass('_remove_policies_with_border_transitions', ['C01', 'C17'], requires=[ALLR('policies_map', 'has(R, "on_day_of_month")')], ensures=e, outer=o, inner=i)

# ---- letters (C18)
contract(TR + '_normalize_rule_letters', props=['C18', 'C01'],
    requires=['selfok(self)', 'wfp(policies_map)'],
    modifies=['ZoneRuleRaw.letter', 'at:self.all_notable_policies', 'type:Set[str]', 'new:CommentsMap', 'okey'],
    ensures=['selfok(self)', 'result is policies_map', 'wfp(result)', 'grown()', 'noted(self.all_notable_policies)',
        ('C18', 'all(result[n]["rules"][i]["letter"] == ("" if old(policies_map[n]["rules"][i]["letter"]) == "-" else old(policies_map[n]["rules"][i]["letter"])) for n in result for i in range(len(result[n]["rules"])))')],
    loops={0: ['fresh_notes(notable_policies)',
               ('C18', 'all(implies(idxof(n) < _i, policies_map[n]["rules"][i]["letter"] == ("" if old(policies_map[n]["rules"][i]["letter"]) == "-" else old(policies_map[n]["rules"][i]["letter"]))) for n in policies_map for i in range(len(policies_map[n]["rules"])))')],
           1: ['fresh_notes(notable_policies)',
               ('C18', 'all(policy["rules"][i]["letter"] == ("" if pre(policy["rules"][i]["letter"]) == "-" else pre(policy["rules"][i]["letter"])) for i in range(_i))'),
               ('C18', 'all(policy["rules"][i]["letter"] == pre(policy["rules"][i]["letter"]) for i in range(_i, len(policy["rules"])))')]})

# ---- tiny years (C08)
TINY = 'has(R, "from_year_tiny") and has(R, "to_year_tiny") and R["from_year_tiny"] == tiny_from_to(R["from_year"], self.tiny_base_year) and R["to_year_tiny"] == tiny_from_to(R["to_year"], self.tiny_base_year)'
contract(TR + '_update_rules_tiny_from_to_years', props=['C08'], modifies=['ZoneRuleRaw.from_year_tiny', 'ZoneRuleRaw.to_year_tiny'],
    requires=['wfp(policies_map)', '-16000 <= self.tiny_base_year <= 16000'],
    raises=[('Exception', 'not ' + ALLR('policies_map', 'R["from_year"] != -32768 and R["to_year"] != -32768'))],
    ensures=['result is policies_map', 'wfp(result)', ALLR('result', TINY)],
    loops={0: [ALLR('policies_map', 'implies(idxof(n) < _i, %s)' % TINY)], 1: ['all(%s for i in range(_i))' % TINY.replace('R[', 'policy["rules"][i][').replace('(R,', '(policy["rules"][i],')]})

# ---- used policies (C02)
@spec
def refers(e, p):
    return not isnone(e['policy_name']) and e['policy_name'] == p
contract(T + '_create_policies_to_zones', props=['C02'],
    requires=['wfz(zones_map)', 'all(has(zones_map[n]["eras"][i], "policy_name") for n in zones_map for i in range(len(zones_map[n]["eras"])))'],
    modifies=['new:PoliciesToZones', 'new:List[str]'],
    ensures=['all(implies(refers(zones_map[n]["eras"][i], p) and p != "", p in result) for p in strs() for n in zones_map for i in range(len(zones_map[n]["eras"])))',
             'all(not all(not refers(zones_map[n]["eras"][i], p) for n in zones_map for i in range(len(zones_map[n]["eras"]))) for p in result)'],
    loops={0: ['all(implies(idxof(n) < _i and refers(zones_map[n]["eras"][i], p) and p != "", p in policies_to_zones) for p in strs() for n in zones_map for i in range(len(zones_map[n]["eras"])))',
               'all(not all(not refers(zones_map[n]["eras"][i], p) for n in zones_map for i in range(len(zones_map[n]["eras"]))) for p in policies_to_zones)',
               'all(fresh(policies_to_zones[p]) for p in policies_to_zones)',],
           1: ['all(implies(refers(info["eras"][i], p) and p != "", p in policies_to_zones) for p in strs() for i in range(_i))',
               'all(implies(pre(p in policies_to_zones), p in policies_to_zones) for p in strs())',
               'all(not all(not refers(zones_map[n]["eras"][i], p) for n in zones_map for i in range(len(zones_map[n]["eras"]))) for p in policies_to_zones)',
               'all(fresh(policies_to_zones[p]) for p in policies_to_zones)',]})
ppass('_remove_unused_policies', ['C01', 'C02'],
    requires=['wfz(zones_map)', 'all(has(zones_map[n]["eras"][i], "policy_name") for n in zones_map for i in range(len(zones_map[n]["eras"])))'],
    ensures=[('C02', 'all(implies(refers(zones_map[n]["eras"][i], p) and p in policies_map and p != "", p in result) for p in strs() for n in zones_map for i in range(len(zones_map[n]["eras"])))')],
    outer=['all(implies(idxof(n) < _i and n in policies_to_zones, n in results) for n in policies_map)'])

# ---- rules in the requested years (C04, C19)
@spec
def prior(r, rules, year):
    """r ends before year, and no rule that does so ends in a later year or takes effect in a later month of that year"""
    return r['to_year'] < year and all(implies(rules[j]['to_year'] < year, rules[j]['to_year'] < r['to_year'] or rules[j]['to_year'] == r['to_year'] and rules[j]['in_month'] <= r['in_month']) for j in range(len(rules)))
@spec
def rlist(rules):
    return all(wfrule(rules[i]) and rules[i]['to_year'] >= 0 and lpos(rules, rules[i]) == i for i in range(len(rules)))
contract(T + 'find_latest_prior_rules', props=['C04'], requires=['rlist(rules)'], modifies=['new:List[ZoneRuleRaw]'],
    ensures=['fresh(result)', 'all(result[i] in rules and prior(result[i], rules, year) for i in range(len(result)))',
             'all(implies(prior(rules[i], rules, year), rules[i] in result) for i in range(len(rules)))'],
    loops={0: ['fresh(candidates)', 'candidate_date[0] >= 0', 'implies(len(candidates) > 0, candidates[0] in rules and candidates[0]["to_year"] < year and candidates[0]["to_year"] == candidate_date[0] and candidates[0]["in_month"] == candidate_date[1])', 'implies(len(candidates) == 0, candidate_date[0] == 0 and candidate_date[1] == 0)',
               'all(candidates[i] in rules and candidates[i]["to_year"] < year and candidates[i]["to_year"] == candidate_date[0] and candidates[i]["in_month"] == candidate_date[1] for i in range(len(candidates)))',
               'all(implies(rules[j]["to_year"] < year, rules[j]["to_year"] < candidate_date[0] or rules[j]["to_year"] == candidate_date[0] and rules[j]["in_month"] <= candidate_date[1]) for j in range(_i))',
               'all(implies(rules[j]["to_year"] < year and rules[j]["to_year"] == candidate_date[0] and rules[j]["in_month"] == candidate_date[1], rules[j] in candidates) for j in range(_i))',
               ]})

@spec
def cmp_years(r, start, until):
    return -1 if r['to_year'] < start else (1 if r['from_year'] >= until else 0)
@spec
def used(r, rules, t):
    """in force in the requested years widened by one, or one of the latest before them"""
    return cmp_years(r, t.start_year - 1, t.until_year + 1) == 0 or prior(r, rules, t.start_year - 1)
@spec
def rinorder(n, res, pm):
    return all(implies(e in res[n]["rules"] and f in res[n]["rules"] and lpos(res[n]["rules"], e) < lpos(res[n]["rules"], f),
        old(lpos(pm[n]["rules"], e) < lpos(pm[n]["rules"], f))) for e in refs(ZoneRuleRaw) for f in refs(ZoneRuleRaw))
_K = lambda m: [
    ('C04', f'all(old(n in policies_map and r in policies_map[n]["rules"] and used(r, policies_map[n]["rules"], self)) for n in {m} for r in refs(ZoneRuleRaw) if r in {m}[n]["rules"])'),
    ('C04', f'all(implies(old(r in policies_map[n]["rules"] and used(r, policies_map[n]["rules"], self)), r in {m}[n]["rules"]) for n in {m} for r in refs(ZoneRuleRaw))'),
    ('C04', f'all(rinorder(n, {m}, policies_map) for n in {m})'),
    ('C04, C19', f'all(iff({m}[n]["lower_rule_truncated"], not all(r in {m}[n]["rules"] or cmp_years(r, self.start_year - 1, self.until_year + 1) > 0 for r in refs(ZoneRuleRaw) if old(r in policies_map[n]["rules"]))) for n in {m})'),
    ('C04, C19', f'all(iff({m}[n]["upper_rule_truncated"], not all(r in {m}[n]["rules"] or cmp_years(r, self.start_year - 1, self.until_year + 1) <= 0 for r in refs(ZoneRuleRaw) if old(r in policies_map[n]["rules"]))) for n in {m})'),
]
CMP = 'cmp_years(R, self.start_year - 1, self.until_year + 1)'
contract(TR + '_remove_rules_too_old_or_new', props=['C01', 'C04', 'C19'],
    requires=['selfok(self)', 'wfp(policies_map)', 'all(rlist(policies_map[n]["rules"]) for n in policies_map)', 'all(not policies_map[n]["lower_rule_truncated"] and not policies_map[n]["upper_rule_truncated"] for n in policies_map)'],
    modifies=['ZonePolicyRaw.rules', 'ZonePolicyRaw.lower_rule_truncated', 'ZonePolicyRaw.upper_rule_truncated', 'ZoneRuleRaw.truncated', 'at:self.all_removed_policies', 'type:Set[str]', 'new:PoliciesMap', 'new:CommentsMap', 'new:List[ZoneRuleRaw]', 'okey', 'new:List[Tuple[str,Set[str]]]'],
    ensures=['selfok(self)', 'wfp(result)', 'sub(result, policies_map)', ('C01', 'gone(self.all_removed_policies, policies_map, result)'), 'grown()'] + _K('result'),
    loops={0: ['parts(policies_map, results, removed_policies, _i)', 'wfp(results)'] + _K('results'),
           1: ['all(has(rules[j], "truncated") and rules[j]["truncated"] == %s for j in range(_i))' % CMP.replace('R', 'rules[j]')],
           2: ['all(has(rules[j], "truncated") and (rules[j]["truncated"] == 0 or rules[j]["truncated"] == %s) for j in range(len(rules)))' % CMP.replace('R', 'rules[j]'),
               ('C04, C19', 'all(implies(rules[j]["truncated"] == 0 and %s != 0, rules[j] in priors) for j in range(len(rules)))' % CMP.replace('R', 'rules[j]')),
               ('C04, C19', 'all(priors[j]["truncated"] == 0 for j in range(_i))')],
           3: ['all(used_rules[i]["truncated"] == 0 and okey(used_rules[i]) == name and wfrule(used_rules[i]) and lpos(used_rules, used_rules[i]) == i and lpos(rules, used_rules[i]) < _i and used_rules[i] in rules for i in range(len(used_rules)))',
               'len(used_rules) <= _i',
               ('C04', 'all(lpos(rules, used_rules[j]) < lpos(rules, used_rules[i]) for i in range(len(used_rules)) for j in range(i))'),
               ('C04', 'implies(len(used_rules) == _i, all(rules[j] is used_rules[j] for j in range(_i)))'),
               ('C04, C19', 'all(implies(rules[j]["truncated"] == 0, rules[j] in used_rules) for j in range(_i))'),
               ('C04, C19', 'iff(lower_truncated, not all(rules[j]["truncated"] >= 0 for j in range(_i)))'),
               ('C04, C19', 'iff(upper_truncated, not all(rules[j]["truncated"] <= 0 for j in range(_i)))'),
               ]})

# ---- one transition per month (C17)
@spec
def active(r, y, m):
    return r['from_year'] <= y <= r['to_year'] and r['in_month'] == m
@spec
def later(a, b):
    return a if a >= b else b
@spec
def clash(r, q):
    """both take effect in the same month of some year"""
    return r['in_month'] == q['in_month'] and r['from_year'] <= r['to_year'] and q['from_year'] <= q['to_year'] and r['from_year'] <= q['to_year'] and q['from_year'] <= r['to_year']
@spec
def once(rules):
    """no two rules take effect in the same month"""
    return all(implies(i < j, not clash(rules[i], rules[j])) for i in range(len(rules)) for j in range(len(rules)))
contract(TR + '_remove_policies_multiple_transitions_in_month', props=['C01', 'C17'],
    requires=['selfok(self)', 'wfp(policies_map)'],
    modifies=['at:self.all_removed_policies', 'type:Set[str]', 'new:PoliciesMap', 'new:CommentsMap', 'okey', 'new:List[Tuple[str,Set[str]]]', 'new:Dict[Tuple[str,int,int],int]', 'new:Dict[str,Tuple[int,int,int]]'],
    ensures=['selfok(self)', 'wfp(result)', 'sub(result, policies_map)', ('C01', 'gone(self.all_removed_policies, policies_map, result)'), 'grown()',
             ('C17', 'all(once(result[n]["rules"]) for n in result)'),
             ('C17', 'all(implies(n not in result, not once(policies_map[n]["rules"])) for n in policies_map)')],
    loops={0: [('C17', 'all(implies((n, y, m) in counts, n in policies_map and idxof(n) < _i and counts[(n, y, m)] >= 1) for n in strs() for y in ints() for m in ints())'),
               ('C17', 'all(implies(idxof(n) < _i and active(policies_map[n]["rules"][i], y, m), (n, y, m) in counts and counts[(n, y, m)] >= 1) for n in policies_map for i in range(len(policies_map[n]["rules"])) for y in ints() for m in ints())'),
               ('C17', 'all(implies(idxof(n) < _i and i < j and clash(policies_map[n]["rules"][i], policies_map[n]["rules"][j]), (n, later(policies_map[n]["rules"][i]["from_year"], policies_map[n]["rules"][j]["from_year"]), policies_map[n]["rules"][i]["in_month"]) in counts and counts[(n, later(policies_map[n]["rules"][i]["from_year"], policies_map[n]["rules"][j]["from_year"]), policies_map[n]["rules"][i]["in_month"])] >= 2) for n in policies_map for i in range(len(policies_map[n]["rules"])) for j in range(len(policies_map[n]["rules"])))'),
               ('C17', 'all(implies((n, y, m) in counts and counts[(n, y, m)] >= 2, not once(policies_map[n]["rules"])) for n in strs() for y in ints() for m in ints())')],
           1: [('C17', x) for x in ['all(implies(n != name, iff((n, y, m) in counts, pre((n, y, m) in counts)) and counts[(n, y, m)] == pre(counts[(n, y, m)])) for n in strs() for y in ints() for m in ints())'] + [
               'all(implies(active(policy["rules"][i], y, m), (name, y, m) in counts and counts[(name, y, m)] >= 1) for i in range(_i) for y in ints() for m in ints())',
               'all(implies(i < j and clash(policy["rules"][i], policy["rules"][j]), (name, later(policy["rules"][i]["from_year"], policy["rules"][j]["from_year"]), policy["rules"][i]["in_month"]) in counts and counts[(name, later(policy["rules"][i]["from_year"], policy["rules"][j]["from_year"]), policy["rules"][i]["in_month"])] >= 2) for i in range(_i) for j in range(_i))',
               'all(implies((name, y, m) in counts, counts[(name, y, m)] >= 1 and not all(not active(policy["rules"][i], y, m) for i in range(_i))) for y in ints() for m in ints())',
               'all(implies((name, y, m) in counts and counts[(name, y, m)] >= 2, not all(implies(i < j, not clash(policy["rules"][i], policy["rules"][j])) for i in range(_i) for j in range(_i))) for y in ints() for m in ints())']],
           2: [('C17', x) for x in ['all(implies(not (n == name and m == month and from_year <= y < from_year + _i), iff((n, y, m) in counts, pre((n, y, m) in counts)) and counts[(n, y, m)] == pre(counts[(n, y, m)])) for n in strs() for y in ints() for m in ints())',
               'all(implies(from_year <= y < from_year + _i, (name, y, month) in counts and counts[(name, y, month)] == (pre(counts[(name, y, month)]) if pre((name, y, month) in counts) else 0) + 1) for y in ints())']],
           3: [('C17', 'all(implies((n, y, m) in counts and counts[(n, y, m)] >= 2 and idxof((n, y, m)) < _i, n in removals) for n in strs() for y in ints() for m in ints())'),
               ('C17', 'all(removals[n][0] >= 2 and (n, removals[n][1], removals[n][2]) in counts and counts[(n, removals[n][1], removals[n][2])] >= 2 for n in removals)')],
           4: ['parts(policies_map, results, removed_policies, _i)', ('C17', 'all(n not in removals for n in results)'), ('C17', 'all(implies(idxof(n) < _i and n not in removals, n in results) for n in policies_map)')]})


# ---- the anchor rule (C04)
@spec
def isanchor(r):
    """in force from minus infinity, January 1 00:00, standard time"""
    return (has(r, 'from_year') and has(r, 'to_year') and has(r, 'in_month') and has(r, 'on_day_of_week') and has(r, 'on_day_of_month') and has(r, 'at_seconds')
        and has(r, 'at_seconds_truncated') and has(r, 'at_time_suffix') and has(r, 'delta_seconds') and has(r, 'delta_seconds_truncated') and has(r, 'anchor')
        and r['from_year'] == -32767 and r['to_year'] == -32767 and r['in_month'] == 1 and r['on_day_of_week'] == 0 and r['on_day_of_month'] == 1
        and r['at_seconds'] == 0 and r['at_seconds_truncated'] == 0 and r['at_time_suffix'] == 'w' and r['delta_seconds'] == 0 and r['delta_seconds_truncated'] == 0 and r['anchor'])
_AF = ['from_year', 'to_year', 'in_month', 'on_day_of_week', 'on_day_of_month', 'at_time', 'at_time_suffix', 'delta_offset', 'at_seconds', 'at_seconds_truncated', 'delta_seconds', 'delta_seconds_truncated', 'raw_line', 'anchor']
contract(T + '_convert_to_anchor', props=['C04'], inline=True, requires=['has(rule, "raw_line")'], modifies=['at:rule'], ensures=['isanchor(rule)', 'has(rule, "at_time") and has(rule, "delta_offset") and has(rule, "raw_line")',
    'iff(has(rule, "letter"), old(has(rule, "letter"))) and rule["letter"] == old(rule["letter"])', 'iff(has(rule, "on_day"), old(has(rule, "on_day"))) and rule["on_day"] == old(rule["on_day"])'])
@spec
def before(a, b):
    """a takes effect on an earlier date than b"""
    return (a['from_year'] < b['from_year'] or a['from_year'] == b['from_year'] and (rmonth(a) < rmonth(b) or rmonth(a) == rmonth(b) and rday(a) < rday(b)))
@spec
def rmonth(r):
    return cal_month(r['from_year'], r['in_month'], r['on_day_of_week'], r['on_day_of_month'])
@spec
def rday(r):
    return cal_day(r['from_year'], r['in_month'], r['on_day_of_week'], r['on_day_of_month'])
@spec
def frule(r):
    """rule with expanded day and SAVE, of a real year"""
    return wfrule(r) and has(r, 'on_day_of_week') and has(r, 'on_day_of_month') and 0 <= r['on_day_of_week'] <= 7 and has(r, 'delta_seconds') and r['from_year'] < 32767
@spec
def std(r):
    return r['delta_seconds'] == 0
contract(T + '_get_anchor_rule', props=['C04'], requires=['all(frule(rules[i]) and lpos(rules, rules[i]) == i for i in range(len(rules)))'],
    modifies=['new:ZoneRuleRaw'], raises=['ValueError', ('AssertionError', 'all(not std(rules[i]) for i in range(len(rules)))')], allow={'AssertionError'},
    ensures=['fresh(result)', 'isanchor(result)', 'wfrule(result)',
        # its letter is that of an earliest rule of standard time
        ('C04', 'not all(not (std(rules[i]) and result["letter"] == rules[i]["letter"] and all(implies(std(rules[j]), not before(rules[j], rules[i])) for j in range(len(rules)))) for i in range(len(rules)))')],
    loops={0: ['has(anchor_info, "rule") and has(anchor_info, "earliestDate")',
        'implies(isnone(anchor_info["rule"]), all(not std(rules[j]) for j in range(_i)) and anchor_info["earliestDate"][0] == 32767)',
        'implies(not isnone(anchor_info["rule"]), anchor_info["rule"] in rules)',
        'implies(not isnone(anchor_info["rule"]), frule(anchor_info["rule"]))',
        'implies(not isnone(anchor_info["rule"]), std(anchor_info["rule"]) and anchor_info["rule"]["from_year"] == anchor_info["earliestDate"][0])',
        ('C04', 'implies(not isnone(anchor_info["rule"]), rmonth(anchor_info["rule"]) == anchor_info["earliestDate"][1])'),
        ('C04', 'implies(not isnone(anchor_info["rule"]), rday(anchor_info["rule"]) == anchor_info["earliestDate"][2])'),
        ('C04', 'all(implies(std(rules[j]), not isnone(anchor_info["rule"]) and not before(rules[j], anchor_info["rule"])) for j in range(_i))')]})

@spec
def samerule(r):
    return (r['from_year'] == old(r['from_year']) and iff(has(r, 'from_year'), old(has(r, 'from_year'))) and r['to_year'] == old(r['to_year']) and iff(has(r, 'to_year'), old(has(r, 'to_year'))) and r['in_month'] == old(r['in_month']) and iff(has(r, 'in_month'), old(has(r, 'in_month'))) and r['on_day'] == old(r['on_day']) and iff(has(r, 'on_day'), old(has(r, 'on_day'))) and r['on_day_of_week'] == old(r['on_day_of_week']) and iff(has(r, 'on_day_of_week'), old(has(r, 'on_day_of_week'))) and r['on_day_of_month'] == old(r['on_day_of_month']) and iff(has(r, 'on_day_of_month'), old(has(r, 'on_day_of_month'))) and r['at_time'] == old(r['at_time']) and iff(has(r, 'at_time'), old(has(r, 'at_time'))) and r['at_time_suffix'] == old(r['at_time_suffix']) and iff(has(r, 'at_time_suffix'), old(has(r, 'at_time_suffix'))) and r['delta_offset'] == old(r['delta_offset']) and iff(has(r, 'delta_offset'), old(has(r, 'delta_offset'))) and r['letter'] == old(r['letter']) and iff(has(r, 'letter'), old(has(r, 'letter'))) and r['at_seconds'] == old(r['at_seconds']) and iff(has(r, 'at_seconds'), old(has(r, 'at_seconds'))) and r['at_seconds_truncated'] == old(r['at_seconds_truncated']) and iff(has(r, 'at_seconds_truncated'), old(has(r, 'at_seconds_truncated'))) and r['delta_seconds'] == old(r['delta_seconds']) and iff(has(r, 'delta_seconds'), old(has(r, 'delta_seconds'))) and r['delta_seconds_truncated'] == old(r['delta_seconds_truncated']) and iff(has(r, 'delta_seconds_truncated'), old(has(r, 'delta_seconds_truncated'))) and r['raw_line'] == old(r['raw_line']) and iff(has(r, 'raw_line'), old(has(r, 'raw_line'))))

@spec
def alone(rules):
    return len(rules) == 1 and std(rules[0])
@spec
def noearlier(r, rules):
    return std(r) and all(implies(std(rules[j]), not before(rules[j], r)) for j in range(len(rules)))
@spec
def anchored(n, pm):
    """policy n starts with its anchor, and the rules it had follow unchanged"""
    return (len(pm[n]["rules"]) >= 1 and isanchor(pm[n]["rules"][0]) and pm[n]["rules"] is old(pm[n]["rules"])
        and implies(old(alone(pm[n]["rules"])), len(pm[n]["rules"]) == 1 and pm[n]["rules"][0] is old(pm[n]["rules"][0]) and pm[n]["rules"][0]["letter"] == old(pm[n]["rules"][0]["letter"]))
        and implies(not old(alone(pm[n]["rules"])), len(pm[n]["rules"]) == old(len(pm[n]["rules"])) + 1 and fresh(pm[n]["rules"][0])
            and all(pm[n]["rules"][i] is old(pm[n]["rules"][i - 1]) and samerule(pm[n]["rules"][i]) for i in range(1, len(pm[n]["rules"])))))
@spec
def lettered(n, pm):
    return not all(not (old(noearlier(pm[n]["rules"][i], pm[n]["rules"])) and pm[n]["rules"][0]["letter"] == old(pm[n]["rules"][i]["letter"])) for i in range(old(len(pm[n]["rules"]))))
contract(TR + '_create_rules_with_anchor_transition', props=['C04'],
    requires=['wfp(policies_map)', 'all(frule(policies_map[n]["rules"][i]) for n in policies_map for i in range(len(policies_map[n]["rules"])))'],
    modifies=['ZoneRuleRaw.' + f for f in _AF] + ['type:List[ZoneRuleRaw]', 'new:ZoneRuleRaw', 'okey'],
    raises=['ValueError', ('AssertionError', 'not all(not all(not std(policies_map[n]["rules"][i]) for i in range(len(policies_map[n]["rules"]))) for n in policies_map)')],
    ensures=['result is policies_map', 'wfp(result)', 'all(anchored(n, result) for n in result)', ('C04', 'all(lettered(n, result) for n in result)'), ALLR('result', 'has(R, "on_day_of_month")')],
    loops={0: ['wfp(policies_map)', ALLR('policies_map', 'has(R, "on_day_of_month")'), 'all(implies(idxof(n) < _i, anchored(n, policies_map)) for n in policies_map)',
               ('C04', 'all(implies(idxof(n) < _i, lettered(n, policies_map)) for n in policies_map)'),
               'all(implies(idxof(n) >= _i, policies_map[n]["rules"] is old(policies_map[n]["rules"]) and len(policies_map[n]["rules"]) == old(len(policies_map[n]["rules"]))) for n in policies_map)',
               'all(implies(idxof(n) >= _i, policies_map[n]["rules"][i] is old(policies_map[n]["rules"][i]) and samerule(policies_map[n]["rules"][i])) for n in policies_map for i in range(len(policies_map[n]["rules"])))',
               'all(implies(idxof(n) >= _i, old(policies_map[n]["rules"][i]) is policies_map[n]["rules"][i] and samerule(old(policies_map[n]["rules"][i]))) for n in policies_map for i in range(old(len(policies_map[n]["rules"]))))']})
contract(TR + '_verify_rules_have_anchors', props=['C04'], requires=['wfp(policies_map)'],
    raises=[('Exception', 'not all(len(policies_map[n]["rules"]) > 0 and policies_map[n]["rules"][0]["from_year"] == -32767 for n in policies_map)')],
    ensures=['result is policies_map', 'all(policies_map[n]["rules"][0]["from_year"] == -32767 for n in policies_map)'],
    loops={0: ['all(implies(idxof(n) < _i, policies_map[n]["rules"][0]["from_year"] == -32767) for n in policies_map)']})
