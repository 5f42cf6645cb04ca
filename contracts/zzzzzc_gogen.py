# generator/gogenerator.py: binary records of the Go library (C14)
GG = 'generator.gogenerator:GoGenerator.'
@spec
def u8(d, p, x):
    return 0 <= x <= 255 and d[p] == x
@spec
def i8(d, p, x):
    return -128 <= x <= 127 and d[p] == x % 256
@spec
def u16(d, p, x):
    return 0 <= x <= 65535 and d[p] == x % 256 and d[p + 1] == x // 256 % 256
@spec
def i16(d, p, x):
    return -32768 <= x <= 32767 and d[p] == x % 256 and d[p + 1] == x // 256 % 256
@spec
def u32(d, p, x):
    return 0 <= x <= 4294967295 and d[p] == x % 256 and d[p + 1] == x // 256 % 256 and d[p + 2] == x // 65536 % 256 and d[p + 3] == x // 16777216 % 256
@spec
def gorule(d, p, r, letter):
    """the 12 bytes of rule r at p"""
    return (i16(d, p, r['from_year']) and i16(d, p + 2, r['to_year']) and u8(d, p + 4, r['in_month']) and u8(d, p + 5, r['on_day_of_week']) and i8(d, p + 6, r['on_day_of_month'])
        and u8(d, p + 7, r['go_at_seconds_modifier']) and u16(d, p + 8, r['go_at_seconds_code']) and i8(d, p + 10, r['go_delta_minutes']) and u8(d, p + 11, letter))
@spec
def goera(d, p, e, fmt, pol):
    """the 14 bytes of era e at p"""
    return (u16(d, p, fmt) and u8(d, p + 2, pol) and u8(d, p + 3, e['go_offset_seconds_remainder']) and i16(d, p + 4, e['go_offset_seconds_code']) and i16(d, p + 6, e['until_year'])
        and i8(d, p + 8, e['go_era_delta_minutes']) and u8(d, p + 9, e['until_month']) and u8(d, p + 10, e['until_day']) and u8(d, p + 11, e['go_until_seconds_modifier']) and u16(d, p + 12, e['go_until_seconds_code']))
@spec
def gofields_r(r):
    return (outrule(r) and has(r, 'go_at_seconds_modifier') and has(r, 'go_at_seconds_code') and has(r, 'go_delta_minutes'))
@spec
def gofields_e(e):
    return (outera(e) and has(e, 'go_offset_seconds_remainder') and has(e, 'go_offset_seconds_code') and has(e, 'go_era_delta_minutes') and has(e, 'go_until_seconds_modifier') and has(e, 'go_until_seconds_code'))
@spec
def letkey(x):
    return '' if x == '-' else x
_KEEP = 'all(data[k] == old(data[k]) for k in range(old(len(data))))'
contract(GG + '_generate_rule_data', props=['C14'], requires=['gofields_r(rule)', 'letkey(rule["letter"]) in self.letters_map'], modifies=['at:data'], raises=['ValueError'],
    ensures=['len(data) == old(len(data)) + 12', _KEEP, ('C14', 'gorule(data, old(len(data)), rule, self.letters_map[letkey(rule["letter"])][0])')])
@spec
def polkey(p):
    return '' if isnone(p) else p
contract(GG + '_generate_era_data', props=['C14'], requires=['gofields_e(era)', 'polkey(era["policy_name"]) in self.policy_index_size_map', 'era["format_short"] in self.formats_map'], modifies=['at:data'], raises=['ValueError'],
    ensures=['len(data) == old(len(data)) + 14', _KEEP, ('C14', 'goera(data, old(len(data)), era, self.formats_map[era["format_short"]][0], self.policy_index_size_map[polkey(era["policy_name"])][0])')])
_PIM = ['all(gofields_r(policies_map[n]["rules"][i]) and letkey(policies_map[n]["rules"][i]["letter"]) in self.letters_map for n in policies_map for i in range(len(policies_map[n]["rules"])))',
    'outp(policies_map)'] + ['all(iff(n in self.policy_index_size_map, n == "" or n in policies_map) for n in strs())', '"" not in policies_map', 'all(n == "" or lpos(self.policy_index_size_map, n) == sidx(policies_map, n) + 1 for n in self.policy_index_size_map)',
    'lpos(self.policy_index_size_map, "") == 0 and self.policy_index_size_map[""] == (0, 0, 0)', 'len(self.policy_index_size_map) == len(policies_map) + 1'] + ranges('policies_map', 'self.policy_index_size_map', 'rules', 1)
_RB = lambda d: f'gorule({d}, 12 * (self.policy_index_size_map[n][1] + i), policies_map[n]["rules"][i], self.letters_map[letkey(policies_map[n]["rules"][i]["letter"])][0])'
contract(GG + '_generate_rules_data', props=['C14'], requires=_PIM, modifies=['new:bytearray'], allocs=True, raises=['ValueError'],
    ensures=['fresh(result[0])', 'result[1] == 12', 'len(result[0]) == 12 * result[2]', 'all(implies(lpos(self.policy_index_size_map, n) == len(self.policy_index_size_map) - 1, result[2] == self.policy_index_size_map[n][1] + self.policy_index_size_map[n][2]) for n in self.policy_index_size_map)',
        'all(self.policy_index_size_map[n][1] + self.policy_index_size_map[n][2] <= result[2] for n in policies_map)',
        ('C14', f'all({_RB("result[0]")} for n in policies_map for i in range(len(policies_map[n]["rules"])))')],
    loops={0: ['len(data) == 12 * count', 'implies(_i == 0, count == 0)', 'all(implies(lpos(self.policy_index_size_map, n) == _i + 1, count == self.policy_index_size_map[n][1]) for n in self.policy_index_size_map)',
               'all(implies(idxof(n) == _i - 1, count == self.policy_index_size_map[n][1] + self.policy_index_size_map[n][2]) for n in policies_map)',
               'all(implies(idxof(n) < _i, self.policy_index_size_map[n][1] >= 0 and self.policy_index_size_map[n][1] + self.policy_index_size_map[n][2] <= count) for n in policies_map)',
               ('C14', f'all(implies(idxof(n) < _i, {_RB("data")}) for n in policies_map for i in range(len(policies_map[n]["rules"])))')],
           1: ['len(data) == 12 * (count - len(rules) + _i)', 'count >= len(rules)', 'all(data[k] == pre(data[k]) for k in range(pre(len(data))))',
               ('C14', 'all(gorule(data, 12 * (count - len(rules) + i), rules[i], self.letters_map[letkey(rules[i]["letter"])][0]) for i in range(_i))')]})
_PB = lambda d: f'u16({d}, 4 * lpos(policy_index_size_map, n), policy_index_size_map[n][1]) and u16({d}, 4 * lpos(policy_index_size_map, n) + 2, policy_index_size_map[n][2])'
contract(GG + '_generate_policies_data', props=['C14'], modifies=['new:bytearray'], allocs=True, raises=['ValueError'],
    ensures=['fresh(result[0])', 'result[1] == 4', 'result[2] == len(policy_index_size_map)', 'len(result[0]) == 4 * result[2]', ('C14', f'all({_PB("result[0]")} for n in policy_index_size_map)')],
    loops={0: ['len(data) == 4 * _i', ('C14', f'all(implies(idxof(n) < _i, {_PB("data")}) for n in policy_index_size_map)')]})
def forall_eras(c, m='self.zones_map'):
    return 'all(%s for n in %s for i in range(len(%s[n]["eras"])))' % (c.replace('E', m + '[n]["eras"][i]'), m, m)
_ZIM = [forall_eras('gofields_e(E) and polkey(E["policy_name"]) in self.policy_index_size_map and E["format_short"] in self.formats_map'), 'outz(self.zones_map)',
    'all(iff(n in self.info_index_size_map, n in self.zones_map) for n in strs())', 'all(lpos(self.info_index_size_map, n) == sidx(self.zones_map, n) for n in self.info_index_size_map)', 'len(self.info_index_size_map) == len(self.zones_map)'] + ranges('self.zones_map', 'self.info_index_size_map', 'eras', 0)
_EB = lambda d: f'goera({d}, 14 * (self.info_index_size_map[n][1] + i), self.zones_map[n]["eras"][i], self.formats_map[self.zones_map[n]["eras"][i]["format_short"]][0], self.policy_index_size_map[polkey(self.zones_map[n]["eras"][i]["policy_name"])][0])'
contract(GG + '_generate_eras_data', props=['C14'], requires=_ZIM, modifies=['new:bytearray'], allocs=True, raises=['ValueError'],
    ensures=['fresh(result[0])', 'result[1] == 14', 'len(result[0]) == 14 * result[2]', 'all(implies(lpos(self.info_index_size_map, n) == len(self.info_index_size_map) - 1, result[2] == self.info_index_size_map[n][1] + self.info_index_size_map[n][2]) for n in self.info_index_size_map)',
        'all(self.info_index_size_map[n][1] + self.info_index_size_map[n][2] <= result[2] for n in self.zones_map)',
        ('C14', f'all({_EB("result[0]")} for n in self.zones_map for i in range(len(self.zones_map[n]["eras"])))')],
    loops={0: ['len(data) == 14 * count', 'implies(_i == 0, count == 0)', 'all(implies(lpos(self.info_index_size_map, n) == _i, count == self.info_index_size_map[n][1]) for n in self.info_index_size_map)',
               'all(implies(idxof(n) == _i - 1, count == self.info_index_size_map[n][1] + self.info_index_size_map[n][2]) for n in self.zones_map)',
               'all(implies(idxof(n) < _i, self.info_index_size_map[n][1] >= 0 and self.info_index_size_map[n][1] + self.info_index_size_map[n][2] <= count) for n in self.zones_map)',
               ('C14', f'all(implies(idxof(n) < _i, {_EB("data")}) for n in self.zones_map for i in range(len(self.zones_map[n]["eras"])))')],
           1: ['len(data) == 14 * (count - len(eras) + _i)', 'count >= len(eras)', 'all(data[k] == pre(data[k]) for k in range(pre(len(data))))',
               ('C14', 'all(goera(data, 14 * (count - len(eras) + i), eras[i], self.formats_map[eras[i]["format_short"]][0], self.policy_index_size_map[polkey(eras[i]["policy_name"])][0]) for i in range(_i))')]})
@spec
def goinfo(d, p, t, n):
    """the 12 bytes of zone or link n at p: id, name index, position and count of its eras, index of its target"""
    return (u32(d, p, t.link_ids[n] if n in t.links_map else t.zone_ids[n]) and u16(d, p + 4, t.names_map[n][0]) and u16(d, p + 6, 0 if n in t.links_map else t.info_index_size_map[n][1])
        and u16(d, p + 8, 0 if n in t.links_map else t.info_index_size_map[n][2]) and u16(d, p + 10, t.zone_and_link_index_map[t.links_map[n]] if n in t.links_map else 0))
contract(GG + '_generate_infos_data', props=['C14'], modifies=['new:bytearray'], allocs=True, raises=['ValueError'],
    requires=['all(n in self.names_map and (n in self.links_map and n in self.link_ids and self.links_map[n] in self.zone_and_link_index_map or n not in self.links_map and n in self.zone_ids and n in self.info_index_size_map) for n in self.zone_and_link_index_map)'],
    ensures=['fresh(result[0])', 'result[1] == 12', 'result[2] == len(self.zone_and_link_index_map)', 'len(result[0]) == 12 * result[2]', ('C14', 'all(goinfo(result[0], 12 * lpos(self.zone_and_link_index_map, n), self, n) for n in self.zone_and_link_index_map)')],
    loops={0: ['len(data) == 12 * _i', ('C14', 'all(implies(idxof(n) < _i, goinfo(data, 12 * lpos(self.zone_and_link_index_map, n), self, n)) for n in self.zone_and_link_index_map)')]})
