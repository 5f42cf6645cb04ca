# bufestimator: transition buffer sizes (C20)
ZP = 'zone_processor:ZoneProcessor.'
B_ = 'bufestimator.bufestimator:'
@spec(opaque=True)
def bufsize(z, y: int) -> int:
    """transition buffer size that the library computes for zone z in year y"""
    return 0
@spec(opaque=True)
def actsize(z, y: int) -> int:
    return 0
@spec(opaque=True)
def terminal(z, y: int) -> bool:
    """the library says that the last rule set of z is in force in year y"""
    return True
contract(ZP + 'init_for_year', trusted=True, modifies=['self.year'], ensures=['self.year == year'], note='acetime.ZoneProcessor.init_for_year selects the year (library not installed)')
contract(ZP + 'get_buffer_sizes', trusted=True, ensures=['result.buffer_size == bufsize(self.info, self.year)', 'result.active_size == actsize(self.info, self.year)'], note='acetime.ZoneProcessor.get_buffer_sizes depends on the zone and the selected year only')
contract(ZP + 'is_terminal_year', trusted=True, ensures=['iff(result, terminal(self.info, year))'], note='acetime.ZoneProcessor.is_terminal_year depends on the zone and the year only')
@spec
def steady(z):
    """assumed of the library: two years after a terminal year the buffer size no longer changes"""
    return all(implies(terminal(z, y - 2) and x >= y, bufsize(z, x) == bufsize(z, y)) for y in ints() for x in ints())
@spec
def largest(c, z, lo, hi):
    """c is the largest buffer size of zone z over the years, with the first year where it occurs"""
    return (all(implies(lo <= y < hi, bufsize(z, y) <= c.number) for y in ints())
        and (c.number == 0 or lo <= c.year < hi and bufsize(z, c.year) == c.number and all(implies(lo <= y < c.year, bufsize(z, y) < c.number) for y in ints())))
contract(B_ + '_find_max_buffer_sizes', props=['C20'], requires=['start_year < until_year'], facts=[('lib:acetime: two years after a terminal year the buffer size no longer changes', 'steady(zone_processor.info)')], modifies=['zone_processor.year'],
    ensures=['largest(result.max_buffer_size, zone_processor.info, start_year, until_year)', 'start_year <= result.terminal_year < until_year',
        'result.terminal_year == until_year - 1 or terminal(zone_processor.info, result.terminal_year - 2)'],
    loops={0: ['max_buffer_size.number >= 0', 'implies(_i > 0, year == start_year + _i - 1)',
        'largest(max_buffer_size, zone_processor.info, start_year, start_year + _i)']})
contract(B_ + '_calculate_buf_sizes_per_zone', props=['C20'], requires=['start_year < until_year'], modifies=['new:ZoneProcessor', 'new:Dict[str,CountAndYear]'], allocs=True,
    ensures=['fresh(result[0])', 'all(iff(n in result[0], n in zone_infos) for n in strs())', 'all(largest(result[0][n], zone_infos[n], start_year, until_year) for n in zone_infos)'],
    loops={0: ['all(iff(n in buf_sizes, n in zone_infos and idxof(n) < _i) for n in strs())', 'all(implies(idxof(n) < _i, largest(buf_sizes[n], zone_infos[n], start_year, until_year)) for n in zone_infos)']})
contract(B_ + 'calculate_max_buf_size', props=['C20'], requires=['len(buf_sizes) > 0'], allocs=True,
    ensures=['all(buf_sizes[n].number <= result for n in buf_sizes)', 'not all(buf_sizes[n].number != result for n in buf_sizes)'])
# the zone database handed to the library: every rule and every era, unchanged
ZI = 'bufestimator.zone_info_inliner:ZoneInfoInliner.'
@spec
def haspol(e, ps):
    """era without a policy, or with one of the database (transform() and a RULES field that is not empty)"""
    return isnone(e['policy_name']) or e['policy_name'] in ps
def _same(q, r, pairs, more=''):
    return '(' + ' and '.join(f'has({q}, "{a}") and {q}["{a}"] == {r}["{b}"]' for a, b in pairs) + more + ')'
RPAIRS = [(a, a) for a in ('from_year', 'to_year', 'in_month', 'on_day_of_week', 'on_day_of_month', 'at_time_suffix', 'letter')] + [('at_seconds', 'at_seconds_truncated'), ('delta_seconds', 'delta_seconds_truncated')]
EPAIRS = [(a, a) for a in ('format', 'until_year', 'until_month', 'until_day', 'until_time_suffix')] + [('offset_seconds', 'offset_seconds_truncated'), ('era_delta_seconds', 'era_delta_seconds_truncated'), ('until_seconds', 'until_seconds_truncated')]
def _rs(q, r): return _same(q, r, RPAIRS)
def _es(q, e, pm):
    return _same(q, e, EPAIRS, f' and has({q}, "zone_policy") and iff(isnone({q}["zone_policy"]), isnone({e}["policy_name"])) and implies(not isnone({e}["policy_name"]), {q}["zone_policy"] is {pm}[{e}["policy_name"]])')
def _pol(zp, pm, cond='True'):
    rs = _rs(f'{zp}[n]["rules"][i]', f'{pm}[n]["rules"][i]')
    return [f'all(implies({cond}, has({zp}[n], "name") and has({zp}[n], "rules") and {zp}[n]["name"] == n and len({zp}[n]["rules"]) == len({pm}[n]["rules"])) for n in {pm})',
            f'all(implies({cond}, {rs}) for n in {pm} for i in range(len({pm}[n]["rules"])))']
def _inf(zi, zm, zp, cond='True'):
    es = _es(f'{zi}[n]["eras"][i]', f'{zm}[n]["eras"][i]', zp)
    return [f'all(implies({cond}, has({zi}[n], "name") and has({zi}[n], "eras") and {zi}[n]["name"] == n and len({zi}[n]["eras"]) == len({zm}[n]["eras"])) for n in {zm})',
            f'all(implies({cond}, {es}) for n in {zm} for i in range(len({zm}[n]["eras"])))']
contract(ZI + '_generate_policies', props=['C20'], requires=['outp(self.policies_map)', 'all(n not in self.zone_policies for n in strs())'], allocs=True,
    modifies=['at:self.zone_policies', 'new:ZonePolicy', 'new:ZoneRule', 'new:List[ZoneRule]'],
    ensures=['all(iff(n in self.zone_policies, n in self.policies_map) for n in strs())', *_pol('self.zone_policies', 'self.policies_map')],
    loops={0: ['all(iff(n in self.zone_policies, n in self.policies_map and idxof(n) < _i) for n in strs())', *_pol('self.zone_policies', 'self.policies_map', 'idxof(n) < _i')],
           1: ['len(policy_rules) == _i', 'all(' + _rs('policy_rules[i]', 'rules[i]') + ' for i in range(_i))']})
contract(ZI + '_generate_infos', props=['C20'], requires=['outz(self.zones_map)', 'all(n not in self.zone_infos for n in strs())', 'all(iff(n in self.zone_policies, n in self.policies_map) for n in strs())',
        'all(haspol(self.zones_map[n]["eras"][i], self.policies_map) for n in self.zones_map for i in range(len(self.zones_map[n]["eras"])))'], allocs=True,
    modifies=['at:self.zone_infos', 'new:ZoneInfo', 'new:ZoneEra', 'new:List[ZoneEra]'],
    ensures=['all(iff(n in self.zone_infos, n in self.zones_map) for n in strs())', *_inf('self.zone_infos', 'self.zones_map', 'self.zone_policies')],
    loops={0: ['all(iff(n in self.zone_infos, n in self.zones_map and idxof(n) < _i) for n in strs())', *_inf('self.zone_infos', 'self.zones_map', 'self.zone_policies', 'idxof(n) < _i')],
           1: ['len(zone_eras) == _i', 'all(haspol(eras[i], self.policies_map) for i in range(len(eras)))', 'all(' + _es('zone_eras[i]', 'eras[i]', 'self.zone_policies') + ' for i in range(_i))']})
INL = ['outz(%szones_map)', 'outp(%spolicies_map)', 'all(haspol(%szones_map[n]["eras"][i], %spolicies_map) for n in %szones_map for i in range(len(%szones_map[n]["eras"])))']
def inl(p): return [x.replace('%s', p) for x in INL]
contract(ZI + 'generate_zonedb', props=['C20'], requires=inl('self.') + ['all(n not in self.zone_policies for n in strs())', 'all(n not in self.zone_infos for n in strs())'], allocs=True,
    modifies=['at:self.zone_policies', 'at:self.zone_infos', 'new:ZonePolicy', 'new:ZoneRule', 'new:List[ZoneRule]', 'new:ZoneInfo', 'new:ZoneEra', 'new:List[ZoneEra]'],
    ensures=['result[0] is self.zone_infos and result[1] is self.zone_policies', 'all(iff(n in result[0], n in self.zones_map) for n in strs())', 'all(iff(n in result[1], n in self.policies_map) for n in strs())',
        *_pol('result[1]', 'self.policies_map'), *_inf('result[0]', 'self.zones_map', 'result[1]')])
_CARRIES = 'all(%s for i in range(len(zones_map[n]["eras"])))' % _same('z["eras"][i]', 'zones_map[n]["eras"][i]', EPAIRS)
_CARRY = 'all(%s for n in zones_map for i in range(len(zones_map[n]["eras"])))' % _same('zone_infos[n]["eras"][i]', 'zones_map[n]["eras"][i]', EPAIRS)
_SPAN = 'all(not all(not (bufsize(z, start_year) <= %s[n].number and largest(%s[n], z, start_year - 1, until_year + 1) and has(z, "name") and z["name"] == n and len(z["eras"]) == len(zones_map[n]["eras"]) and ' + _CARRIES + ') for z in refs("ZoneInfo")) for n in zones_map)'
contract(B_ + 'calculate_buf_size_map', props=['C20'], requires=inl('') + ['start_year < until_year'], allocs=True,
    modifies=['new:ZonePolicy', 'new:ZoneRule', 'new:List[ZoneRule]', 'new:ZoneInfo', 'new:ZoneEra', 'new:List[ZoneEra]', 'new:Dict[str,ZonePolicy]', 'new:Dict[str,ZoneInfo]', 'new:ZoneProcessor', 'new:Dict[str,CountAndYear]'],
    ensures=['fresh(result[0])', 'all(iff(n in result[0], n in zones_map) for n in strs())', 'all(lpos(result[0], n) == sidx(result[0], n) for n in result[0])', _SPAN.replace('%s', 'result[0]')],
    after={'generate_zonedb': ['all(iff(n in zone_infos, n in zones_map) for n in strs())', 'all(has(zone_infos[n], "name") and zone_infos[n]["name"] == n and len(zone_infos[n]["eras"]) == len(zones_map[n]["eras"]) for n in zones_map)', _CARRY], '_calculate_buf_sizes_per_zone': ['all(iff(n in zone_infos, n in zones_map) for n in strs())', 'all(iff(n in buf_size_map, n in zones_map) for n in strs())', 'all(has(zone_infos[n], "name") and zone_infos[n]["name"] == n and len(zone_infos[n]["eras"]) == len(zones_map[n]["eras"]) for n in zones_map)', _CARRY, 'all(bufsize(zone_infos[n], start_year) <= buf_size_map[n].number and largest(buf_size_map[n], zone_infos[n], start_year - 1, until_year + 1) for n in zone_infos)']})
_LO, _HI = 'min(old(tresult.generated_min_year), self.start_year) - 1', 'max(old(tresult.generated_max_year) + 1, self.until_year) + 1'
contract(B_ + 'BufSizeEstimator.transform', props=['C20'], requires=inl('tresult.') + ['self.start_year < self.until_year', 'len(tresult.zones_map) > 0'], allocs=True,
    raises=[('Exception', 'not self.ignore_buf_size_too_large')],
    modifies=['self.zones_map', 'self.policies_map', 'TransformerResult.buf_sizes', 'TransformerResult.max_buf_size', 'TransformerResult.estimator_min_year', 'TransformerResult.estimator_max_year',
              'new:ZonePolicy', 'new:ZoneRule', 'new:List[ZoneRule]', 'new:ZoneInfo', 'new:ZoneEra', 'new:List[ZoneEra]', 'new:Dict[str,ZonePolicy]', 'new:Dict[str,ZoneInfo]', 'new:ZoneProcessor', 'new:Dict[str,CountAndYear]', 'new:List[int]'],
    after={'calculate_buf_size_map': ['all(0 <= lpos(buf_sizes, n) < len(buf_sizes) for n in tresult.zones_map)', 'len(buf_sizes) > 0']},
    ensures=['all(iff(n in tresult.buf_sizes, n in tresult.zones_map) for n in strs())', 'implies(not self.ignore_buf_size_too_large, tresult.max_buf_size <= 8)',
        'all(tresult.buf_sizes[n].number <= tresult.max_buf_size for n in tresult.buf_sizes)', 'not all(tresult.buf_sizes[n].number != tresult.max_buf_size for n in tresult.buf_sizes)',
        _SPAN.replace('%s', 'tresult.buf_sizes').replace('start_year - 1', _LO).replace('until_year + 1', _HI).replace('bufsize(z, start_year)', f'bufsize(z, {_LO} + 1)').replace('zones_map', 'tresult.zones_map'),
        'all(lpos(tresult.buf_sizes, n) == sidx(tresult.buf_sizes, n) for n in tresult.buf_sizes)'])
