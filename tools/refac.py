"""developer tool: behaviour-preserving edits; the contracts of the functions they touch are run on each
   refac.py [ids]   -> per edit: ok / undecided / failed (an alarm without an input)"""
import sys, os, shutil, tempfile, time
sys.path.insert(0, '/verif')
from multiprocessing import Pool
from pyverify.prog import Program
from pyverify.specs import Specs
from pyverify.verify import verify
SRC = '/repo/src'
T, A, G, D, B, Q, E = ('transformer/transformer.py', 'transformer/artransformer.py', 'transformer/gotransformer.py', 'datatypes/attyping.py', 'generator/byteutils.py', 'bufestimator/bufestimator.py', 'generator/gogenerator.py')
R = {}
def r(id, rel, funcs, *edits): R[id] = (rel, funcs, edits)
r('continue', T, ['_remove_zones_without_eras'], ('''            if info['eras']:
                results[name] = info
            else:
                add_comment(removed_zones, name, "no ZoneEra found")
''', '''            if not info['eras']:
                add_comment(removed_zones, name, "no ZoneEra found")
                continue
            results[name] = info
'''))
r('helper-trunc', T, ['_create_zones_with_expanded_until_time'], ('''                until_seconds_truncated = truncate_to_granularity(
                    until_seconds, self.until_at_granularity)
                if until_seconds''', '''                until_seconds_truncated = self._truncate_time(until_seconds)
                if until_seconds'''), ('''    def _remove_zones_invalid_until_time_suffix(''', '''    def _truncate_time(self, seconds: int) -> int:
        return truncate_to_granularity(seconds, self.until_at_granularity)

    def _remove_zones_invalid_until_time_suffix('''))
r('helper-valid', T, ['_remove_zones_without_rules'], ('''            valid = True
            for era in info['eras']:
                policy_name = era['policy_name']
                if policy_name and policy_name not in policies_map:
                    valid = False
                    add_comment(
                        removed_zones, name,
                        f"policy '{policy_name}' not found")
                    break
            if valid:
                results[name] = info

        self._print_comments_map(
            'Removed %s zone infos without rules',''', '''            missing = _find_missing_policy(info['eras'], policies_map)
            if missing is not None:
                add_comment(
                    removed_zones, name,
                    f"policy '{missing}' not found")
            else:
                results[name] = info

        self._print_comments_map(
            'Removed %s zone infos without rules','''), ('''def compare_rule_to_interval(''', '''def _find_missing_policy(
    eras: List[ZoneEraRaw], policies_map: PoliciesMap,
) -> Optional[str]:
    for era in eras:
        policy_name = era['policy_name']
        if policy_name and policy_name not in policies_map:
            return policy_name
    return None


def compare_rule_to_interval('''), ('from typing import Dict\n', 'from typing import Dict\nfrom typing import Optional\n'))
r('any', T, ['_update_truncation_status'], ('''            lower_zone_truncated = False
            upper_zone_truncated = False
            if info['lower_era_truncated']:
                lower_zone_truncated = True
            if info['upper_era_truncated']:
                upper_zone_truncated = True
''', '''            lower_zone_truncated = info['lower_era_truncated']
            upper_zone_truncated = info['upper_era_truncated']
'''))
r('condexpr', T, ['_calc_accurate_years'], ('''        start_year_accurate = self.start_year
        if not lower_truncated:
            start_year_accurate = MIN_YEAR

        until_year_accurate = self.until_year
        if not upper_truncated:
            until_year_accurate = MAX_UNTIL_YEAR

        return start_year_accurate, until_year_accurate
''', '''        start = self.start_year if lower_truncated else MIN_YEAR
        until = self.until_year if upper_truncated else MAX_UNTIL_YEAR
        return start, until
'''))
r('reorder-extend', T, ['_extend_zone_eras_until'], ('''            last_era = info['eras'][-1]
            if last_era['until_year'] != MAX_UNTIL_YEAR:
                last_era['until_year'] = MAX_UNTIL_YEAR
                last_era['until_year_only'] = True
                last_era['until_month'] = 1
''', '''            eras = info['eras']
            last_era = eras[len(eras) - 1]
            if last_era['until_year'] != MAX_UNTIL_YEAR:
                last_era['until_month'] = 1
                last_era['until_year'] = MAX_UNTIL_YEAR
                last_era['until_year_only'] = True
'''))
r('interval', T, ['compare_rule_to_interval'], ('''    if rule['to_year'] < start_year:
        return -1
    elif rule['from_year'] >= until_year:
        return 1
    else:
        return 0
''', '''    result = 0
    if start_year > rule['to_year']:
        result = -1
    elif not rule['from_year'] < until_year:
        result = 1
    return result
'''))
r('time-parse', T, ['time_string_to_seconds'], ('''    sign = 1
    if time_string[0] == '-':
        sign = -1
        time_string = time_string[1:]
''', '''    is_negative = time_string[0] == '-'
    if is_negative:
        time_string = time_string[1:]
'''), ('''    return sign * ((hour * 60 + minute) * 60 + second)
''', '''    seconds = hour * 3600 + minute * 60 + second
    return -seconds if is_negative else seconds
'''))
r('div', T, ['div_to_zero'], ('return a // b if a >= 0 else (a - 1) // b + 1', 'return a // b if a >= 0 else -(-a // b)'))
r('trunc-inline', T, ['truncate_to_granularity'], ('    return b * div_to_zero(a, b)\n', '    quotient = div_to_zero(a, b)\n    return quotient * b\n'))
r('hash', T, ['hash_name'], ('''    U32_MOD = 2**32
    hash = 5381
    for c in name:
        hash = (33 * hash + ord(c)) % U32_MOD
    return hash
''', '''    hash = 5381
    for c in name:
        hash = (hash * 33 + ord(c)) & 0xFFFFFFFF
    return hash
'''))
r('setdefault', D, ['add_comment'], ('''    reasons = cast(Optional[Set[str]], comments.get(name))
    if not reasons:
        reasons = set()
        comments[name] = reasons
    reasons.add(reason)
''', '''    if name not in comments:
        comments[name] = set()
    cast(Set[str], comments[name]).add(reason)
'''))
r('prior', T, ['find_latest_prior_rules'], ('''        rule_year = rule['to_year']
        rule_month = rule['in_month']
        if rule_year < year:
            rule_date = (rule_year, rule_month)
            if rule_date > candidate_date:
                candidate_date = rule_date
                candidates = [rule]
            elif rule_date == candidate_date:
                candidates.append(rule)
''', '''        if rule['to_year'] >= year:
            continue
        rule_date = (rule['to_year'], rule['in_month'])
        if rule_date == candidate_date:
            candidates.append(rule)
        elif rule_date > candidate_date:
            candidates = [rule]
            candidate_date = rule_date
'''))
r('tiny', T, ['to_tiny_from_to_year', 'is_year_tiny'], ('''    if year == INVALID_YEAR:
        return INVALID_YEAR_TINY
    if year == MIN_YEAR:
        return MIN_YEAR_TINY
    if year == MAX_TO_YEAR:
        return MAX_TO_YEAR_TINY

    year_tiny = year - tiny_base_year
    if year_tiny <= MIN_YEAR_TINY:
        return MIN_YEAR_TINY
    if year_tiny >= MAX_TO_YEAR_TINY:
        return MAX_TO_YEAR_TINY
    return year_tiny
''', '''    if year == INVALID_YEAR:
        return INVALID_YEAR_TINY
    year_tiny = year - tiny_base_year
    if year == MIN_YEAR:
        return MIN_YEAR_TINY
    elif year == MAX_TO_YEAR:
        return MAX_TO_YEAR_TINY
    return max(MIN_YEAR_TINY, min(MAX_TO_YEAR_TINY, year_tiny))
'''))
r('rename-results', T, ['_remove_zones_without_eras'], ('''        results: ZonesMap = {}
        removed_zones: CommentsMap = {}
        for name, info in zones_map.items():
            if info['eras']:
                results[name] = info
            else:
                add_comment(removed_zones, name, "no ZoneEra found")
''', '''        kept: ZonesMap = {}
        removed_zones: CommentsMap = {}
        for name, info in zones_map.items():
            if info['eras']:
                kept[name] = info
            else:
                add_comment(removed_zones, name, "no ZoneEra found")
'''), ('''            'Removed %s zone infos without ZoneEras', removed_zones,
        )
        merge_comments(self.all_removed_zones, removed_zones)
        return results
''', '''            'Removed %s zone infos without ZoneEras', removed_zones,
        )
        merge_comments(self.all_removed_zones, removed_zones)
        return kept
'''))
r('rename-loopvar', T, ['_remove_unused_policies'], ('''        for policy_name, policy in policies_map.items():
            if policy_name in policies_to_zones:
                results[policy_name] = policy
            else:
                add_comment(removed_policies, policy_name, 'unused')
''', '''        for name in policies_map:
            if name not in policies_to_zones:
                add_comment(removed_policies, name, 'unused')
            else:
                results[name] = policies_map[name]
'''))
r('dictcomp', T, ['_generate_zone_ids'], ())
r('write-order', B, ['write_u16', 'write_u8'], ('''    b0 = x & 0xff
    x >>= 8
    b1 = x & 0xff
    data.append(b0)
    data.append(b1)


def write_i16''', '''    write_u8(data, x & 0xff)
    write_u8(data, (x >> 8) & 0xff)


def write_i16'''))
r('lists', T, ['_remove_rules_too_old_or_new'], ())
r('daymonth', T, ['calc_day_of_month'], ('''    if on_day_of_week == 0:
        return (month, on_day_of_month)

    if on_day_of_month >= 0:''', '''    if not on_day_of_week:
        return month, on_day_of_month

    if not on_day_of_month < 0:'''), ('''        day_of_week_shift = (on_day_of_week - limit_date.isoweekday() + 7) % 7
        day = on_day_of_month + day_of_week_shift
''', '''        day = on_day_of_month + (on_day_of_week - limit_date.isoweekday()) % 7
'''))
r('buf', Q, ['_find_max_buffer_sizes'], ('''        if buffer_size_info.buffer_size > max_buffer_size.number:
            max_buffer_size = CountAndYear(
                buffer_size_info.buffer_size, year)
''', '''        needed = buffer_size_info.buffer_size
        if needed > max_buffer_size.number:
            max_buffer_size = CountAndYear(number=needed, year=year)
'''))
def job(i):
    rel, funcs, edits = R[i]
    tmp = tempfile.mkdtemp(prefix='refac')
    try:
        shutil.copytree(SRC + '/acetimetools', tmp + '/acetimetools', ignore=shutil.ignore_patterns('__pycache__'))
        p = os.path.join(tmp, 'acetimetools', rel); s = open(p).read()
        for e in edits:
            if not e: return i, 'empty'
            if s.count(e[0]) != 1: return i, f'edit text found {s.count(e[0])} times: {e[0][:60]!r}'
            s = s.replace(*e)
        open(p, 'w').write(s)
        out = []
        prog = Program(tmp); sp = Specs().load_dir('/verif/contracts').link(prog)
        for q, c in sp.contracts.items():
            if not any(q.endswith(':' + f) or q.endswith('.' + f) for f in funcs): continue
            try: x = verify(prog, sp, q, None, {}, timeout=8000, deadline=300)
            except Exception as e: out.append(f'{q}: EXC {type(e).__name__} {e}'); continue
            out.append(f'{q.split(":")[1]}: ' + ('FAILED ' + '; '.join(f[0][:160] for f in x.failed[:3]) if x.failed else 'undecided ' + x.error if x.error else 'ok'))
        return i, '\n      '.join(out)
    finally: shutil.rmtree(tmp)
if __name__ == '__main__':
    with Pool(4) as pool:
        for i, o in pool.imap_unordered(job, sys.argv[1:] or list(R)): print(f'{i:16}{o}', flush=True)
