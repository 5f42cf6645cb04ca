# The composition: Transformer.transform()
TR = 'transformer.transformer:Transformer.'
@spec
def sane_input(t, r):
    """shape of the data base that the parser hands over (see contracts of extractor.py) and of the settings"""
    return (selfok(t) and apart(t, t.include_list) and wfz(r.zones_map) and wfp(r.policies_map)
        and t.until_at_granularity > 0 and t.offset_granularity > 0 and t.delta_granularity > 0
        and '' not in r.zones_map and '' not in r.links_map
        and rawpols(r.policies_map))
@spec
def rawpols(ps):
    return (all(not ps[n]['lower_rule_truncated'] and not ps[n]['upper_rule_truncated'] and rlist(ps[n]['rules']) for n in ps))

@spec
def finite(a, b):
    """finite sets: a part with as many members is the whole"""
    return implies(len(a) == len(b) and all(n in b for n in a), all(n in a for n in b))
@spec
def wanted(n, inc):
    return not bool(inc) or n in inc
def _compose():
    """ghost assertions: {callee: facts that hold once it has been called}; a fact is carried on from call to call until it is
    forgotten or can no longer be shown -> (them, facts that hold at the end)"""
    EZ = lambda f: 'all(%s for n in zones_map for i in range(len(zones_map[n]["eras"])))' % f.replace('E', 'zones_map[n]["eras"][i]')
    EP = lambda f: 'all(%s for n in policies_map for i in range(len(policies_map[n]["rules"])))' % f.replace('R', 'policies_map[n]["rules"][i]')
    own = []
    for k, v in (('zones', 'zones_map[n] is old(tresult.zones_map[n])'), ('policies', 'policies_map[n] is old(tresult.policies_map[n])'), ('links', 'links_map[n] == old(tresult.links_map[n])')):
        own += [('C01', f'all(old(n in tresult.{k}_map) and {v} for n in {k}_map)'),
                ('C01', f'all(iff(n in self.all_removed_{k}, old(n in self.all_removed_{k}) or old(n in tresult.{k}_map) and n not in {k}_map) for n in strs())')]
    A, facts = {}, []
    def after(fn, *new, forget=()):
        A[fn] = list(new) + ['forget ' + (x if isinstance(x, str) else x[1]) for x in forget]
        facts.extend(x for x in new if not (x if isinstance(x, str) else x[1]).startswith(('ghost ', 'assume ')))
        for x in forget: facts.remove(x)
    inc = lambda k: ('C16', f'all(old(wanted(n, self.include_list)) for n in {k}_map)')
    full = lambda k, v: [f'ghost {v} = {k}_map', ('C01', f'all(iff(n in {v}, old(n in tresult.{k}_map) and old(wanted(n, self.include_list))) for n in strs())'), ('C01', f'all(n in {v} for n in {k}_map)')]
    after('_filter_include_zones', *full('zones', 'z0'), inc('zones'), INC, 'selfok(self)', 'wfz(zones_map)', 'wfp(policies_map)', 'rawpols(policies_map)', *own)
    after('_filter_include_links', *full('links', 'l0'), inc('links'), forget=[INC])
    for f in ('_remove_zone_eras_too_old', '_remove_zone_eras_too_new', '_extend_zone_eras_until', '_remove_zones_without_eras', '_remove_zone_with_non_simple_until_year',
              '_remove_policies_multiple_transitions_in_month', '_verify_rules_have_anchors'): after(f)
    uday, usec, upol = EZ('has(E, "until_day")'), EZ('has(E, "until_seconds")'), EZ('has(E, "policy_name")')
    after('_create_zones_with_until_day', uday)
    after('_create_zones_with_expanded_until_time', usec, ('C05, C10', EZ('until_time_ok(E, self.until_at_granularity, self.strict)')))
    after('_remove_zones_invalid_until_time_suffix', ('C05, C10, C17', EZ(SUFFIX)))
    after('_create_zones_with_expanded_offset_string', ('C05, C10', EZ('offset_ok(E, self.offset_granularity, self.strict)')))
    after('_create_zones_with_rules_expansion', upol, ('C05, C10, C17', EZ('rules_ok(E, self.delta_granularity, self.strict, self.scope == "basic")')))
    after('_remove_zones_with_invalid_rules_format_combo', ('C18', EZ('format_ok(E)')))
    after('_remove_zones_with_non_monotonic_until', ('C03', RISING))
    after('_create_short_format_strings', EZ('has(E, "format_short")'), ('C18', EZ(SHORT)))
    after('_create_tiny_until_years', EZ('implies(self.generate_tiny_years, has(E, "until_year_tiny"))'), ('C08', EZ(ZTINY)))
    after('_remove_unused_policies')
    after('_remove_rules_too_old_or_new', forget=['rawpols(policies_map)'])
    at, sv, on = [(t, EP(f)) for t, f in (('C05, C10', 'at_ok(R, self.until_at_granularity, self.strict)'), ('C05, C10', 'save_ok(R, self.delta_granularity, self.strict)'), ('C06', 'on_ok(R)'))]
    dlt, day = EP('has(R, "delta_seconds")'), EP('has(R, "on_day_of_week") and has(R, "on_day_of_month") and 0 <= R["on_day_of_week"] <= 7')
    after('_create_rules_with_expanded_at_time', at)
    after('_remove_policies_invalid_at_time_suffix', ('C05, C10', EP('R["at_time_suffix"] in ["w", "s", "u"]')))
    after('_update_rules_with_expanded_delta_offset', dlt, sv)
    after('_create_rules_with_on_day_expansion', day, on)
    rest = [(t, f.replace('all(', 'all(i == 0 or ', 1)) for t, f in (at, sv, on)]       # the first rule is the anchor
    after('_create_rules_with_anchor_transition', EP('has(R, "on_day_of_month")'), ('C04, C10', 'all(isanchor(policies_map[n]["rules"][0]) for n in policies_map)'), *rest, ('C10', EP('outrule(R)')), forget=[dlt, day, at, sv, on])
    after('_normalize_rule_letters', ('C18', EP('R["letter"] != "-"')))
    after('_remove_policies_with_border_transitions', ('C17', EP('implies(self.scope == "basic", not_border(R))')))
    after('_update_rules_tiny_from_to_years', EP('implies(self.generate_tiny_years, has(R, "from_year_tiny"))'), ('C08', EP(PTINY)))
    after('_remove_zones_without_rules', EZ('polok(E, policies_map)'))
    after('_remove_links_to_missing_zones', ('C02', 'all(links_map[n] in zones_map for n in links_map)'))
    all0 = [('C01', 'implies(self.scope == "extended" or self.scope == "complete", all(n in zones_map for n in z0) and all(n in links_map for n in l0))')]
    after('_verify_zones_and_links_count', ('C01', 'assume finite(zones_map, z0)'), ('C01', 'assume finite(links_map, l0)'), *all0)
    after('_update_truncation_status', 'all(has(zones_map[n], "lower_zone_truncated") and has(zones_map[n], "upper_zone_truncated") for n in zones_map)', ('C19', CUT))
    return A, facts
INC = ('C01, C16', 'apart(self, self.include_list) and all(iff(x in self.include_list, old(x in self.include_list)) for x in strs()) and iff(bool(self.include_list), old(bool(self.include_list)))')
SUFFIX = 'E["until_time_suffix"] in ["w", "s", "u"] and implies(self.scope == "basic", E["until_time_suffix"] == "w")'
RISING = 'all(rising(zones_map[n]["eras"], len(zones_map[n]["eras"])) and zones_map[n]["eras"][len(zones_map[n]["eras"]) - 1]["until_year"] == 32767 for n in zones_map)'
SHORT = 'has(E, "format_short") and E["format_short"] == E["format"].replace("%z", "").replace("%s", "%")'
ZTINY = 'implies(self.generate_tiny_years, E["until_year_tiny"] == tiny_until(E["until_year"], self.tiny_base_year))'
PTINY = 'implies(self.generate_tiny_years, R["from_year_tiny"] == tiny_from_to(R["from_year"], self.tiny_base_year) and R["to_year_tiny"] == tiny_from_to(R["to_year"], self.tiny_base_year))'
CUT = 'all(iff(zones_map[n]["lower_zone_truncated"], cutl(zones_map[n], policies_map)) and iff(zones_map[n]["upper_zone_truncated"], cutu(zones_map[n], policies_map)) for n in zones_map)'
_AFTER, _FACTS = _compose()
def _final():
    """what holds of the result: the last ghost assertions, about tresult"""
    out = []
    for x in _FACTS:
        t, f = x if isinstance(x, tuple) else (None, x)
        if t is None or 'old(' in f or 'z0' in f or 'l0' in f or f.startswith('all(has('): continue
        for m in ('zones_map', 'policies_map', 'links_map'): f = f.replace(m, 'tresult.' + m)
        out.append((t, f))
    return out
contract(TR + 'transform', props=['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10', 'C15', 'C16', 'C17', 'C18', 'C19'],
    requires=['sane_input(self, tresult)', '-16000 <= self.tiny_base_year <= 16000'],
    modifies=['TransformerResult.*', 'self.tresult', 'ZoneInfoRaw.*', 'ZoneEraRaw.*', 'ZonePolicyRaw.*', 'ZoneRuleRaw.*', 'type:List[ZoneRuleRaw]', 'type:List[ZoneEraRaw]', 'type:Set[str]', 'okey',
              'at:self.all_removed_zones', 'at:self.all_removed_policies', 'at:self.all_removed_links', 'at:self.all_notable_zones', 'at:self.all_notable_policies', 'at:self.all_notable_links',
              'new:ZonesMap', 'new:PoliciesMap', 'new:LinksMap', 'new:CommentsMap', 'new:PoliciesToZones', 'new:List[str]', 'new:List[bool]', 'new:Dict[str,int]'],
    raises=['Exception', 'ValueError', 'IndexError', 'AssertionError'],
    after=_AFTER,
    ensures=['selfok(self)', 'wfz(tresult.zones_map)', 'wfp(tresult.policies_map)',
        ('C10', 'outz(tresult.zones_map)'), ('C10', 'outp(tresult.policies_map)'),
        ('C01', 'all(n in old(tresult.zones_map) and tresult.zones_map[n] is old(tresult.zones_map[n]) for n in tresult.zones_map)'),
        ('C01', 'all(iff(n in self.all_removed_zones, old(n in self.all_removed_zones) or old(n in tresult.zones_map) and n not in tresult.zones_map) for n in strs())'),
        ('C01', 'all(n in old(tresult.policies_map) and tresult.policies_map[n] is old(tresult.policies_map[n]) for n in tresult.policies_map)'),
        ('C01', 'all(iff(n in self.all_removed_policies, old(n in self.all_removed_policies) or old(n in tresult.policies_map) and n not in tresult.policies_map) for n in strs())'),
        ('C01', 'all(old(n in tresult.links_map) and tresult.links_map[n] == old(tresult.links_map[n]) for n in tresult.links_map)'),
        ('C01', 'all(iff(n in self.all_removed_links, old(n in self.all_removed_links) or old(n in tresult.links_map) and n not in tresult.links_map) for n in strs())'),
        ('C01', 'tresult.removed_zones is self.all_removed_zones and tresult.removed_policies is self.all_removed_policies and tresult.removed_links is self.all_removed_links'),
        ('C01', 'implies(self.scope == "extended" or self.scope == "complete", all(implies(old(n in tresult.zones_map) and old(wanted(n, self.include_list)), n in tresult.zones_map) for n in strs()))'),
        ('C01', 'implies(self.scope == "extended" or self.scope == "complete", all(implies(old(n in tresult.links_map) and old(wanted(n, self.include_list)), n in tresult.links_map) for n in strs()))'),
        ('C16', 'all(old(wanted(n, self.include_list)) for n in tresult.zones_map)'),
        ('C16', 'all(old(wanted(n, self.include_list)) for n in tresult.links_map)'),
        ('C02', 'all(polok(tresult.zones_map[n]["eras"][i], tresult.policies_map) for n in tresult.zones_map for i in range(len(tresult.zones_map[n]["eras"])))'),
        ('C04', 'all(tresult.policies_map[n]["rules"][0]["from_year"] == -32767 for n in tresult.policies_map)'),
        ('C09', 'all(iff(n in tresult.zone_ids, n in tresult.zones_map) for n in strs())'),
        ('C09', 'all(iff(n in tresult.link_ids, n in tresult.links_map) for n in strs())'),
        ('C09', 'all(tresult.zone_ids[n] == djb2(n, len(n)) and tresult.zone_ids[n] != 0 for n in tresult.zone_ids)'),
        ('C09', 'all(tresult.link_ids[n] == djb2(n, len(n)) and tresult.link_ids[n] != 0 for n in tresult.link_ids)'),
        ('C15', 'all(lpos(tresult.zone_ids, n) == sidx(tresult.zone_ids, n) for n in tresult.zone_ids)'),
        ('C15', 'all(lpos(tresult.link_ids, n) == sidx(tresult.link_ids, n) for n in tresult.link_ids)'),
        ('C19', 'iff(tresult.lower_truncated, not all(not tresult.zones_map[n]["lower_zone_truncated"] for n in tresult.zones_map))'),
        ('C19', 'iff(tresult.upper_truncated, not all(not tresult.zones_map[n]["upper_zone_truncated"] for n in tresult.zones_map))'),
        ('C19', 'tresult.start_year_accurate == (self.start_year if tresult.lower_truncated else -32767) and tresult.until_year_accurate == (self.until_year if tresult.upper_truncated else 32767)'),
    ] + _final())
