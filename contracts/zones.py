# Zone passes of transformer/transformer.py
TR = 'transformer.transformer:Transformer.'
AT = 'datatypes.attyping:'

# ---- comment maps (C01, C21)
@spec
def said(c):
    """every name has at least one reason"""
    return all(bool(c[n]) for n in c)
@spec
def kept(c):
    """earlier reasons of c are kept"""
    return all(implies(old(n in c), n in c) for n in strs()) and all(implies(old(n in c and x in c[n]), x in c[n]) for n in strs() for x in strs())
@spec
def grown():
    """sets of strings only grow"""
    return all(implies(not fresh(c) and old(x in c), x in c) for c in refs(Set[str]) for x in strs())
@spec
def sep(c):
    """the reason set stored under a name belongs to that name"""
    return all(okey(c[n]) == n for n in c)

contract(AT + 'add_comment', props=['C21'],
    requires=['sep(comments)'],
    modifies=['at:comments', 'at:comments.get(name)', 'new:Set[str]', 'okey'],
    ensures=['name in comments', 'reason in comments[name]', 'sep(comments)',
        'all(iff(n in comments, n == name or old(n in comments)) for n in strs())',
        'all(implies(old(n in comments) and n != name, comments[n] is old(comments[n])) for n in strs())',
        'fresh(comments[name]) or old(name in comments) and comments[name] is old(comments[name])',
        'all(iff(x in comments[name], x == reason or old(name in comments and x in comments[name])) for x in strs())',
        'implies(old(name in comments and bool(comments[name])), comments[name] is old(comments[name]))', 'grown()',
        ])
contract(AT + 'merge_comments', props=['C21'],
    requires=['sep(target)', 'sep(new)', 'target is not new', 'all(implies(n in new, target[n] is not new[n]) for n in target)'],
    modifies=['at:target', 'type:Set[str]', 'okey'],
    allocs=True,
    ensures=['sep(target)',
        'all(iff(n in target, old(n in target) or n in new) for n in strs())',
        # every earlier reason and every new one, and no other
        'all(implies(n in target, iff(x in target[n], old(n in target and x in target[n]) or old(n in new and x in new[n]))) for n in strs() for x in strs())',
        'grown()',
        'all(implies(n in target, fresh(target[n]) or old(n in target) and target[n] is old(target[n])) for n in strs())',
        'implies(old(said(target) and said(new)), said(target))',
        ('C01, C16', 'all(implies(not fresh(c) and x in c, old(x in c) or okey(c) in target and target[okey(c)] is c) for c in refs(Set[str]) for x in strs())'),
        ],
    loops={0: ['sep(target)',
        'all(iff(n in target, pre(n in target) or (n in new and idxof(n) < _i)) for n in strs())',
        'all(implies(n in target, iff(x in target[n], pre(n in target and x in target[n]) or (n in new and idxof(n) < _i and pre(x in new[n])))) for n in strs() for x in strs())',
        'all(implies(not fresh(c) and pre(x in c), x in c) for c in refs(Set[str]) for x in strs())',
        'all(implies(n in target, fresh(target[n]) or pre(n in target) and target[n] is pre(target[n])) for n in strs())',
        'all(implies(not fresh(c) and x in c, pre(x in c) or okey(c) in target and target[okey(c)] is c) for c in refs(Set[str]) for x in strs())',
        ]})

contract(TR + '_print_comments_map', props=['C01'], requires=['max_comments >= 0'], modifies=['new:List[Tuple[str,Set[str]]]'], ensures=[])

@spec
def selfok(t):
    """the six comment maps of a Transformer are different maps"""
    return (t.all_removed_zones is not t.all_removed_policies and t.all_removed_zones is not t.all_removed_links
        and t.all_removed_zones is not t.all_notable_zones and t.all_removed_zones is not t.all_notable_policies
        and t.all_removed_zones is not t.all_notable_links
        and t.all_removed_policies is not t.all_removed_links and t.all_removed_policies is not t.all_notable_zones
        and t.all_removed_policies is not t.all_notable_policies and t.all_removed_policies is not t.all_notable_links
        and t.all_removed_links is not t.all_notable_zones and t.all_removed_links is not t.all_notable_policies
        and t.all_removed_links is not t.all_notable_links
        and t.all_notable_zones is not t.all_notable_policies and t.all_notable_zones is not t.all_notable_links
        and t.all_notable_policies is not t.all_notable_links
        and sep(t.all_removed_zones) and sep(t.all_removed_policies) and sep(t.all_removed_links)
        and sep(t.all_notable_zones) and sep(t.all_notable_policies) and sep(t.all_notable_links)
        and said(t.all_removed_zones) and said(t.all_removed_policies) and said(t.all_removed_links))


@spec
def noted(m):
    """notes keep their names"""
    return all(implies(old(n in m), n in m) for n in strs())
@spec
def fresh_notes(m):
    """a map collected by this call: own reason sets"""
    return all(okey(m[n]) == n and fresh(m[n]) for n in m)
@spec
def wfera(e):
    return (has(e, 'offset_string') and has(e, 'rules') and has(e, 'format') and has(e, 'until_year') and has(e, 'until_year_only')
        and has(e, 'until_month') and has(e, 'until_day_string') and has(e, 'until_time') and has(e, 'until_time_suffix') and has(e, 'raw_line')
        and 1 <= e['until_month'] <= 12 and bool(e['until_day_string']))
@spec
def wfz(zs):
    """each zone has its own record, its own era list and at least one era; no era is shared"""
    return (all(okey(zs[n]) == n and has(zs[n], 'eras') and has(zs[n], 'lower_era_truncated') and has(zs[n], 'upper_era_truncated') and okey(zs[n]['eras']) == n and len(zs[n]['eras']) >= 1 for n in zs)
        and all(okey(zs[n]['eras'][i]) == n and wfera(zs[n]['eras'][i]) and lpos(zs[n]['eras'], zs[n]['eras'][i]) == i for n in zs for i in range(len(zs[n]['eras']))))
@spec
def sub(a, b):
    """a is part of b: same records under the same names"""
    return all(n in b and a[n] is b[n] for n in a)
@spec
def gone(removed, zs, res):
    """exactly the names of zs that are not in res are added to removed"""
    return all(iff(n in removed, old(n in removed) or old(n in zs) and n not in res) for n in strs())
@spec
def parts(zs, res, rem, k):
    """loop invariant: the first k names are either in res, unchanged, or in rem with a reason"""
    return (all(n in zs and idxof(n, 0) < k and res[n] is zs[n] for n in res)
        and all(n in zs and idxof(n, 0) < k and n not in res and bool(rem[n]) and okey(rem[n]) == n and fresh(rem[n]) for n in rem)
        and all(implies(idxof(n, 0) < k, n in res or n in rem) for n in zs))
@spec
def broken(n, valid, res, rem):
    """inner loop: this name is not in the results yet, and in the removed map exactly when found invalid"""
    return iff(n in rem, not valid) and n not in res

def zpass(name, props, fields=(), requires=(), ensures=(), outer=(), inner=None, notes=False, raises=(), extra=None, reqsub=None, var='name', loops=None):
    """a pass that keeps some zones and writes fields of their eras"""
    mods = ['ZoneEraRaw.' + f for f in fields] + ['at:self.all_removed_zones', 'type:Set[str]', 'new:ZonesMap', 'new:CommentsMap', 'okey', 'new:List[Tuple[str,Set[str]]]', 'new:List[str]']
    if notes: mods.append('at:self.all_notable_zones')
    o = ['parts(zones_map, results, removed_zones, _i)'] + (['fresh_notes(notable_zones)'] if notes else []) + list(outer)
    i = ['broken(%s, valid, results, removed_zones)' % var, 'bool(removed_zones[%s]) and okey(removed_zones[%s]) == %s and fresh(removed_zones[%s]) if %s in removed_zones else True' % ((var,) * 5),
         'parts(zones_map, results, removed_zones, idxof(%s, 0)) or not valid' % var] if inner is not None else []
    i = ['all(implies(n != %s, pre(n in removed_zones) and removed_zones[n] is pre(removed_zones[n])) for n in removed_zones)' % var,
         'all(implies(pre(n in removed_zones), n in removed_zones) for n in strs())',
         'iff(%s in removed_zones, not valid)' % var,
         'implies(%s in removed_zones, bool(removed_zones[%s]) and okey(removed_zones[%s]) == %s and fresh(removed_zones[%s]))' % ((var,) * 5)] if inner is not None else []
    if inner is not None and notes: i.append('fresh_notes(notable_zones)')
    L = {0: o}
    if inner is not None: L[1] = i + list(inner)
    if loops: L.update(loops)
    contract(TR + name, props=list(props), requires=['selfok(self)', 'wfz(zones_map)'] + list(requires), modifies=mods, raises=list(raises),
        ensures=['selfok(self)', 'wfz(result)', 'sub(result, zones_map)', ('C01', 'gone(self.all_removed_zones, zones_map, result)'), 'grown()'] + (['noted(self.all_notable_zones)'] if notes else []) + list(ensures),
        loops=L)


# ---- eras in the requested years (C03)
@spec
def inorder(n, res, zm):
    """the eras that are kept stand in the order they had"""
    return all(implies(e in res[n]["eras"] and f in res[n]["eras"] and lpos(res[n]["eras"], e) < lpos(res[n]["eras"], f),
        old(lpos(zm[n]["eras"], e) < lpos(zm[n]["eras"], f))) for e in refs(ZoneEraRaw) for f in refs(ZoneEraRaw))
contract(TR + '_remove_zone_eras_too_old', props=['C01', 'C03', 'C19'],
    requires=['selfok(self)', 'wfz(zones_map)'],
    modifies=['ZoneInfoRaw.eras', 'ZoneInfoRaw.lower_era_truncated', 'at:self.all_removed_zones', 'type:Set[str]', 'new:ZonesMap', 'new:CommentsMap', 'new:List[ZoneEraRaw]', 'okey', 'new:List[Tuple[str,Set[str]]]'],
    ensures=['selfok(self)', 'wfz(result)', 'sub(result, zones_map)', ('C01', 'gone(self.all_removed_zones, zones_map, result)'), 'grown()',
        # exactly the eras that end in start_year - 1 or later, in their order
        ('C03', 'all(old(n in zones_map and e in zones_map[n]["eras"]) and e["until_year"] >= self.start_year - 1 for n in result for e in refs(ZoneEraRaw) if e in result[n]["eras"])'),
        ('C03', 'all(implies(old(e in zones_map[n]["eras"]) and e["until_year"] >= self.start_year - 1, e in result[n]["eras"]) for n in result for e in refs(ZoneEraRaw))'),
        ('C03', 'all(inorder(n, result, zones_map) for n in result)'),
        ('C19', 'all(iff(result[n]["lower_era_truncated"], old(zones_map[n]["lower_era_truncated"]) or len(result[n]["eras"]) < old(len(zones_map[n]["eras"]))) for n in result)'),
        ],
    loops={0: ['parts(zones_map, results, removed_zones, _i)',
               'wfz(results)',
               ('C03', 'all(old(n in zones_map and e in zones_map[n]["eras"]) and e["until_year"] >= self.start_year - 1 for n in results for e in refs(ZoneEraRaw) if e in results[n]["eras"])'),
               ('C03', 'all(implies(old(e in zones_map[n]["eras"]) and e["until_year"] >= self.start_year - 1, e in results[n]["eras"]) for n in results for e in refs(ZoneEraRaw))'),
               ('C03', 'all(inorder(n, results, zones_map) for n in results)'),
               ('C19', 'all(iff(results[n]["lower_era_truncated"], old(zones_map[n]["lower_era_truncated"]) or len(results[n]["eras"]) < old(len(zones_map[n]["eras"]))) for n in results)'),
            ],
           1: ['all(keep_eras[i]["until_year"] >= self.start_year - 1 and okey(keep_eras[i]) == name and wfera(keep_eras[i]) and lpos(keep_eras, keep_eras[i]) == i and lpos(eras, keep_eras[i]) < _i and keep_eras[i] in eras for i in range(len(keep_eras)))',
               'len(keep_eras) <= _i',
               ('C03', 'all(lpos(eras, keep_eras[j]) < lpos(eras, keep_eras[i]) for i in range(len(keep_eras)) for j in range(i))'),
               ('C03', 'implies(len(keep_eras) == _i, all(eras[j] is keep_eras[j] for j in range(_i)))'),
               ('C03', 'all(implies(eras[j]["until_year"] >= self.start_year - 1, eras[j] in keep_eras) for j in range(_i))'),
              ]})


@spec
def eraend(zm, n, i):
    """year in which era i of zone n starts"""
    return -32767 if i == 0 else zm[n]["eras"][i - 1]["until_year"]
contract(TR + '_remove_zone_eras_too_new', props=['C01', 'C03', 'C19'],
    requires=['selfok(self)', 'wfz(zones_map)'],
    modifies=['ZoneInfoRaw.eras', 'ZoneInfoRaw.upper_era_truncated', 'at:self.all_removed_zones', 'at:self.all_notable_zones', 'type:Set[str]', 'new:ZonesMap', 'new:CommentsMap', 'new:List[ZoneEraRaw]', 'okey', 'new:List[Tuple[str,Set[str]]]'],
    ensures=['selfok(self)', 'wfz(result)', 'sub(result, zones_map)', ('C01', 'gone(self.all_removed_zones, zones_map, result)'), 'grown()', 'noted(self.all_notable_zones)',
        # exactly the eras that start in until_year + 1 or earlier, in their order
        ('C03', 'all(implies(e in result[n]["eras"], old(n in zones_map and e in zones_map[n]["eras"])) for n in result for e in refs(ZoneEraRaw))'),
        ('C03', 'all(iff(old(eraend(zones_map, n, i)) <= self.until_year + 1, old(zones_map[n]["eras"][i]) in result[n]["eras"]) for n in result for i in range(old(len(zones_map[n]["eras"]))))'),
        ('C03', 'all(inorder(n, result, zones_map) for n in result)'),
        ('C19', 'all(iff(result[n]["upper_era_truncated"], old(zones_map[n]["upper_era_truncated"]) or len(result[n]["eras"]) < old(len(zones_map[n]["eras"]))) for n in result)'),
        ],
    loops={0: ['parts(zones_map, results, removed_zones, _i)', 'fresh_notes(notable_zones)',
               'wfz(results)',
               ('C03', 'all(implies(e in results[n]["eras"], old(n in zones_map and e in zones_map[n]["eras"])) for n in results for e in refs(ZoneEraRaw))'),
               ('C03', 'all(iff(old(eraend(zones_map, n, i)) <= self.until_year + 1, old(zones_map[n]["eras"][i]) in results[n]["eras"]) for n in results for i in range(old(len(zones_map[n]["eras"]))))'),
               ('C03', 'all(inorder(n, results, zones_map) for n in results)'),
               ('C19', 'all(iff(results[n]["upper_era_truncated"], old(zones_map[n]["upper_era_truncated"]) or len(results[n]["eras"]) < old(len(zones_map[n]["eras"]))) for n in results)'),
            ],
           1: ['all(okey(keep_eras[i]) == name and wfera(keep_eras[i]) and lpos(keep_eras, keep_eras[i]) == i and lpos(eras, keep_eras[i]) < _i and keep_eras[i] in eras for i in range(len(keep_eras)))',
               'len(keep_eras) <= _i', 'start_year == eraend(zones_map, name, _i)',
               ('C03', 'all(lpos(eras, keep_eras[j]) < lpos(eras, keep_eras[i]) for i in range(len(keep_eras)) for j in range(i))'),
               ('C03', 'implies(len(keep_eras) == _i, all(eras[j] is keep_eras[j] for j in range(_i)))'),
               ('C03', 'all(iff(eraend(zones_map, name, j) <= self.until_year + 1, eras[j] in keep_eras) for j in range(_i))'),
              ]})

UNTIL = ('until_year', 'until_year_only', 'until_month', 'until_day_string', 'until_time', 'until_time_suffix')
@spec
def samuntil(e):
    """UNTIL of e is what it was on entry"""
    return (e["until_year"] == old(e["until_year"]) and e["until_year_only"] == old(e["until_year_only"]) and e["until_month"] == old(e["until_month"])
        and e["until_day_string"] == old(e["until_day_string"]) and e["until_time"] == old(e["until_time"]) and e["until_time_suffix"] == old(e["until_time_suffix"]))
@spec
def extended(e):
    """the last era: to infinity, unconditionally; an era that was infinite already is as it was"""
    return (e["until_year"] == 32767 and (samuntil(e) if old(e["until_year"]) == 32767 else e["until_year_only"] and e["until_month"] == 1
        and e["until_day_string"] == '1' and e["until_time"] == '00:00' and e["until_time_suffix"] == 'w'))
contract(TR + '_extend_zone_eras_until', props=['C01', 'C03'],
    requires=['wfz(zones_map)'],
    modifies=['ZoneEraRaw.until_year', 'ZoneEraRaw.until_year_only', 'ZoneEraRaw.until_month', 'ZoneEraRaw.until_day_string', 'ZoneEraRaw.until_time', 'ZoneEraRaw.until_time_suffix', 'ZoneEraRaw.raw_line'],
    ensures=['result is zones_map', 'wfz(result)',
        ('C03', 'all(extended(result[n]["eras"][len(result[n]["eras"]) - 1]) for n in result)'),
        ('C03', 'all(samuntil(result[n]["eras"][i]) for n in result for i in range(len(result[n]["eras"]) - 1))')],
    loops={0: ['wfz(zones_map)',
        ('C03', 'all(implies(idxof(n) < _i, extended(zones_map[n]["eras"][len(zones_map[n]["eras"]) - 1])) for n in zones_map)'),
        ('C03', 'all(samuntil(zones_map[n]["eras"][i]) for n in zones_map for i in range(len(zones_map[n]["eras"]) - 1))'),
        ('C03', 'all(implies(idxof(n) >= _i, samuntil(zones_map[n]["eras"][len(zones_map[n]["eras"]) - 1])) for n in zones_map)')]})

zpass('_remove_zones_without_eras', ['C01'], ensures=['all(n in result for n in zones_map)'], outer=['all(implies(idxof(n) < _i, n in results) for n in zones_map)'])

# ---- basic scope: UNTIL has a year only (C17)
zpass('_remove_zone_with_non_simple_until_year', ['C01', 'C17'],
    ensures=[('C17', 'all(result[n]["eras"][i]["until_year_only"] for n in result for i in range(len(result[n]["eras"])))')],
    outer=[('C17', 'all(results[n]["eras"][i]["until_year_only"] for n in results for i in range(len(results[n]["eras"])))')],
    inner=[('C17', 'implies(valid, all(info["eras"][i]["until_year_only"] for i in range(_i)))')])

# ---- UNTIL time (C05)
@spec
def until_time_ok(e, gran, strict):
    return (has(e, 'until_seconds') and has(e, 'until_seconds_truncated') and time_ok(e['until_time']) and e['until_seconds'] == time_secs(e['until_time'])
        and 0 <= e['until_seconds'] <= 93599 and 0 <= e['until_seconds_truncated'] <= 93599 and e['until_seconds_truncated'] == trunc0(e['until_seconds'], gran)
        and implies(strict, e['until_seconds_truncated'] == e['until_seconds']))
zpass('_create_zones_with_expanded_until_time', ['C01', 'C05'], fields=['until_seconds', 'until_seconds_truncated'], notes=True, raises=['IndexError'],
    requires=['self.until_at_granularity > 0'],
    ensures=['all(until_time_ok(result[n]["eras"][i], self.until_at_granularity, self.strict) for n in result for i in range(len(result[n]["eras"])))'],
    outer=['all(until_time_ok(results[n]["eras"][i], self.until_at_granularity, self.strict) for n in results for i in range(len(results[n]["eras"])))'],
    inner=['all(until_time_ok(info["eras"][i], self.until_at_granularity, self.strict) for i in range(_i))'])

# ---- UNTIL day (C06)
@spec
def era_day(e, m0):
    """UNTIL month and day are the date the day expression denotes in month m0 of that year"""
    return (has(e, 'until_day') and not (onday_dow(e['until_day_string']) == 0 and onday_dom(e['until_day_string']) == 0)
        and resolved(e['until_year'], m0, onday_dow(e['until_day_string']), onday_dom(e['until_day_string']), e['until_month'], e['until_day'])
        and 1 <= e['until_month'] <= 12)
zpass('_create_zones_with_until_day', ['C01', 'C06'], fields=['until_month', 'until_day'], notes=True, raises=['ValueError'],
    ensures=['all(has(result[n]["eras"][i], "until_day") for n in result for i in range(len(result[n]["eras"])))', ('C06', 'all(era_day(result[n]["eras"][i], old(zones_map[n]["eras"][i]["until_month"])) for n in result for i in range(len(result[n]["eras"])))')],
    outer=['wfz(results)', 'all(has(results[n]["eras"][i], "until_day") for n in results for i in range(len(results[n]["eras"])))', ('C06', 'all(era_day(results[n]["eras"][i], old(zones_map[n]["eras"][i]["until_month"])) for n in results for i in range(len(results[n]["eras"])))')],
    inner=['all(implies(valid, has(info["eras"][i], "until_day")) for i in range(_i))', 'all(implies(valid, 1 <= info["eras"][i]["until_month"] <= 12) for i in range(_i))',
           'all(info["eras"][i]["until_month"] == pre(info["eras"][i]["until_month"]) for i in range(_i, len(info["eras"])))',
           ('C06', 'implies(valid, all(era_day(info["eras"][i], pre(info["eras"][i]["until_month"])) for i in range(_i)))')])

# ---- UNTIL suffix (C05, C17)
zpass('_remove_zones_invalid_until_time_suffix', ['C01', 'C05', 'C17'], fields=['until_time_suffix'],
    ensures=[('C05, C10', 'all(result[n]["eras"][i]["until_time_suffix"] == (old(zones_map[n]["eras"][i]["until_time_suffix"]) or "w") for n in result for i in range(len(result[n]["eras"])))'),
             'all(result[n]["eras"][i]["until_time_suffix"] in ["w", "s", "u"] and implies(self.scope == "basic", result[n]["eras"][i]["until_time_suffix"] == "w") for n in result for i in range(len(result[n]["eras"])))'],
    outer=[('C05, C10', 'all(results[n]["eras"][i]["until_time_suffix"] == (old(zones_map[n]["eras"][i]["until_time_suffix"]) or "w") for n in results for i in range(len(results[n]["eras"])))'),
             'all(results[n]["eras"][i]["until_time_suffix"] in ["w", "s", "u"] and implies(self.scope == "basic", results[n]["eras"][i]["until_time_suffix"] == "w") for n in results for i in range(len(results[n]["eras"])))'],
    inner=[('C05, C10', 'all(info["eras"][i]["until_time_suffix"] == (pre(info["eras"][i]["until_time_suffix"]) or "w") for i in range(_i))'),
           ('C05, C10', 'all(info["eras"][i]["until_time_suffix"] == pre(info["eras"][i]["until_time_suffix"]) for i in range(_i, len(info["eras"])))'),
           'all(info["eras"][i]["until_time_suffix"] in ["w", "s", "u"] and implies(self.scope == "basic", info["eras"][i]["until_time_suffix"] == "w") for i in range(_i))'])

# ---- STDOFF (C05)
@spec
def offset_ok(e, gran, strict):
    return (has(e, 'offset_seconds') and has(e, 'offset_seconds_truncated') and time_ok(e['offset_string']) and e['offset_seconds'] == time_secs(e['offset_string'])
        and -93599 <= e['offset_seconds'] <= 93599 and -93599 <= e['offset_seconds_truncated'] <= 93599 and e['offset_seconds_truncated'] == trunc0(e['offset_seconds'], gran)
        and implies(strict, e['offset_seconds_truncated'] == e['offset_seconds']))
zpass('_create_zones_with_expanded_offset_string', ['C01', 'C05'], fields=['offset_seconds', 'offset_seconds_truncated'], notes=True, raises=['IndexError'],
    requires=['self.offset_granularity > 0'],
    ensures=[('C05, C10', 'all(offset_ok(result[n]["eras"][i], self.offset_granularity, self.strict) for n in result for i in range(len(result[n]["eras"])))')],
    outer=[('C05, C10', 'all(offset_ok(results[n]["eras"][i], self.offset_granularity, self.strict) for n in results for i in range(len(results[n]["eras"])))')],
    inner=[('C05, C10', 'all(offset_ok(info["eras"][i], self.offset_granularity, self.strict) for i in range(_i))')])

# ---- RULES (C05, C17)
@spec
def rules_ok(e, gran, strict, basic):
    r = e['rules']
    return (has(e, 'era_delta_seconds') and has(e, 'era_delta_seconds_truncated') and has(e, 'policy_name')
        and (not basic and isnone(e['policy_name']) and time_ok(r) and e['era_delta_seconds'] == time_secs(r) and e['era_delta_seconds'] != 0 and -93599 <= e['era_delta_seconds_truncated'] <= 93599
             and e['era_delta_seconds_truncated'] == trunc0(e['era_delta_seconds'], gran)
             and implies(strict, e['era_delta_seconds_truncated'] == e['era_delta_seconds'])
            if r.find(':') >= 0 else
            e['era_delta_seconds'] == 0 and e['era_delta_seconds_truncated'] == 0 and (isnone(e['policy_name']) if r == '-' else e['policy_name'] == r)))
zpass('_create_zones_with_rules_expansion', ['C01', 'C02', 'C05', 'C17'], fields=['era_delta_seconds', 'era_delta_seconds_truncated', 'policy_name'], notes=True, raises=['IndexError'],
    requires=['self.delta_granularity > 0'],
    ensures=['all(has(result[n]["eras"][i], "policy_name") for n in result for i in range(len(result[n]["eras"])))', ('C02, C05, C10, C17', 'all(rules_ok(result[n]["eras"][i], self.delta_granularity, self.strict, self.scope == "basic") for n in result for i in range(len(result[n]["eras"])))')],
    outer=['all(has(results[n]["eras"][i], "policy_name") for n in results for i in range(len(results[n]["eras"])))', ('C02, C05, C10, C17', 'all(rules_ok(results[n]["eras"][i], self.delta_granularity, self.strict, self.scope == "basic") for n in results for i in range(len(results[n]["eras"])))')],
    inner=['all(has(info["eras"][i], "policy_name") for i in range(_i))', ('C02, C05, C10, C17', 'all(rules_ok(info["eras"][i], self.delta_granularity, self.strict, self.scope == "basic") for i in range(_i))')])

# ---- FORMAT (C18)
@spec
def format_ok(e):
    return (bool(e['format']) and implies('%z' in e['format'], e['format'] == '%z') and implies(isnone(e['policy_name']), not ('%s' in e['format'])))
zpass('_remove_zones_with_invalid_rules_format_combo', ['C01', 'C18'], notes=True, var='zone_name',
    requires=['all(has(zones_map[n]["eras"][i], "policy_name") for n in zones_map for i in range(len(zones_map[n]["eras"])))'],
    raises=[('Exception', 'not all(format_ok(zones_map[n]["eras"][i]) for n in zones_map for i in range(len(zones_map[n]["eras"])))')],
    ensures=['all(n in result for n in zones_map)', ('C18', 'all(format_ok(result[n]["eras"][i]) for n in result for i in range(len(result[n]["eras"])))')],
    outer=['all(implies(idxof(n) < _i, n in results) for n in zones_map)', ('C18', 'all(format_ok(results[n]["eras"][i]) for n in results for i in range(len(results[n]["eras"])))')],
    inner=['valid', ('C18', 'all(format_ok(info["eras"][i]) for i in range(_i))')])
contract(TR + '_create_short_format_strings', props=['C18'], modifies=['ZoneEraRaw.format_short'],
    requires=['wfz(zones_map)'],
    raises=[('Exception', 'not all(implies("%z" in zones_map[n]["eras"][i]["format"], zones_map[n]["eras"][i]["format"] == "%z") for n in zones_map for i in range(len(zones_map[n]["eras"])))')],
    ensures=['result is zones_map', 'wfz(result)', 'all(has(result[n]["eras"][i], "format_short") and result[n]["eras"][i]["format_short"] == result[n]["eras"][i]["format"].replace("%z", "").replace("%s", "%") for n in result for i in range(len(result[n]["eras"])))'],
    loops={0: ['all(implies(idxof(n) < _i, has(zones_map[n]["eras"][i], "format_short") and zones_map[n]["eras"][i]["format_short"] == zones_map[n]["eras"][i]["format"].replace("%z", "").replace("%s", "%")) for n in zones_map for i in range(len(zones_map[n]["eras"])))'],
           1: ['all(has(info["eras"][i], "format_short") and info["eras"][i]["format_short"] == info["eras"][i]["format"].replace("%z", "").replace("%s", "%") for i in range(_i))']})

# ---- UNTIL order (C03)
@spec
def until_lt(a, b):
    return (a['until_year'] < b['until_year'] or a['until_year'] == b['until_year'] and (a['until_month'] < b['until_month'] or a['until_month'] == b['until_month']
        and (a['until_day'] < b['until_day'] or a['until_day'] == b['until_day'] and a['until_seconds'] < b['until_seconds'])))
@spec
def rising(es, k):
    return all(until_lt(es[i], es[i + 1]) for i in range(k - 1))
zpass('_remove_zones_with_non_monotonic_until', ['C01', 'C03'],
    requires=['all(has(zones_map[n]["eras"][i], "until_day") and has(zones_map[n]["eras"][i], "until_seconds") for n in zones_map for i in range(len(zones_map[n]["eras"])))'],
    ensures=[('C03', 'all(rising(result[n]["eras"], len(result[n]["eras"])) and result[n]["eras"][len(result[n]["eras"]) - 1]["until_year"] == 32767 for n in result)')],
    outer=[('C03', 'all(rising(results[n]["eras"], len(results[n]["eras"])) and results[n]["eras"][len(results[n]["eras"]) - 1]["until_year"] == 32767 for n in results)')],
    inner=['implies(_i > 0, c[0] == info["eras"][_i - 1]["until_year"])',
           ('C03', 'rising(info["eras"], _i)'),
           ('C03', 'implies(_i == 0, isnone(prev_until)) and implies(_i > 0, not isnone(prev_until) and prev_until[0] == info["eras"][_i - 1]["until_year"] and prev_until[1] == info["eras"][_i - 1]["until_month"] and prev_until[2] == info["eras"][_i - 1]["until_day"] and prev_until[3] == info["eras"][_i - 1]["until_seconds"])')])

# ---- tiny years (C08)
contract(TR + '_create_tiny_until_years', props=['C08'], modifies=['ZoneEraRaw.until_year_tiny'],
    requires=['wfz(zones_map)', '-16000 <= self.tiny_base_year <= 16000'],
    raises=[('Exception', 'not all(zones_map[n]["eras"][i]["until_year"] != -32768 for n in zones_map for i in range(len(zones_map[n]["eras"])))')],
    ensures=['result is zones_map', 'wfz(result)', 'all(has(result[n]["eras"][i], "until_year_tiny") and result[n]["eras"][i]["until_year_tiny"] == tiny_until(result[n]["eras"][i]["until_year"], self.tiny_base_year) for n in result for i in range(len(result[n]["eras"])))'],
    loops={0: ['all(implies(idxof(n) < _i, has(zones_map[n]["eras"][i], "until_year_tiny") and zones_map[n]["eras"][i]["until_year_tiny"] == tiny_until(zones_map[n]["eras"][i]["until_year"], self.tiny_base_year)) for n in zones_map for i in range(len(zones_map[n]["eras"])))'],
           1: ['all(has(info["eras"][i], "until_year_tiny") and info["eras"][i]["until_year_tiny"] == tiny_until(info["eras"][i]["until_year"], self.tiny_base_year) for i in range(_i))']})
