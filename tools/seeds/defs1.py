T='src/acetimetools/transformer/transformer.py'
AR='src/acetimetools/transformer/artransformer.py'
GT='src/acetimetools/transformer/gotransformer.py'
GG='src/acetimetools/generator/gogenerator.py'
CG='src/acetimetools/generator/cgenerator.py'
AG='src/acetimetools/generator/argenerator.py'
PG='src/acetimetools/generator/pygenerator.py'
BU='src/acetimetools/generator/byteutils.py'
CM='src/acetimetools/transformer/commenter.py'
EX='src/acetimetools/extractor/extractor.py'
BE='src/acetimetools/bufestimator/bufestimator.py'
TZ='src/acetimetools/tzcompiler.py'
AT='src/acetimetools/datatypes/attyping.py'
RULES='''Rule\tEU\t1981\tmax\t-\tMar\tlastSun\t1:00u\t1:00\tS
Rule\tEU\t1996\tmax\t-\tOct\tlastSun\t1:00u\t0\t-
'''
SEEDS = [
dict(id='c01-negative-at-noted', prop='C01', edits=[(T, """                    add_comment(
                        removed_policies, policy_name,
                        f"negative AT '{at_time}'")""", """                    add_comment(
                        notable_policies, policy_name,
                        f"negative AT '{at_time}'")""")],
  needs='basic scope and a rule whose AT time is negative', breaks='the policy is in neither the emitted nor the removed map',
  demo=r'''
t = compile('Rule\tX\t2001\tonly\t-\tMar\t5\t-1:00\t0\t-\nRule\tX\t2002\tonly\t-\tMar\t5\t1:00\t1:00\tS\nZone\tA/B\t1:00\tX\tX%sT\nZone\tA/C\t1:00\t-\tXT\n', scope='basic')
check('X' in t.policies_map or 'X' in t.removed_policies, 'policy X lost')
'''),
dict(id='c02-link-link-symbol', prop='C02', edits=[(T, "        normalized_names[nname] = link_name\n", "")],
  needs='two links whose names map to the same symbol', breaks='two links with the same generated symbol name are accepted',
  demo=r'''
check(raises(lambda: compile('Zone\tA/B\t1:00\t-\tXT\nLink\tA/B\tE/x-y\nLink\tA/B\tE/x_y\n')), 'duplicate symbol accepted')
'''),
dict(id='c03-era-too-old', prop='C03', edits=[(T, "if era['until_year'] >= self.start_year - 1:", "if era['until_year'] > self.start_year - 1:")],
  needs='an era whose UNTIL year is exactly start_year-1', breaks='that era is dropped although it is needed',
  demo=r'''
t = compile('Zone\tA/B\t1:00\t-\tXT\t1999 Jul 5 2:00\n\t\t\t2:00\t-\tYT\n', start=2000)
check(len(t.zones_map['A/B']['eras']) == 2, 'era dropped')
'''),
dict(id='c04-prior-month', prop='C04', edits=[(T, "            elif rule_date == candidate_date:\n                candidates.append(rule)\n    return candidates\n\n\ndef find_earliest", "            elif rule_date[0] == candidate_date[0]:\n                candidates.append(rule)\n    return candidates\n\n\ndef find_earliest")],
  needs='two earlier rules of the same last year in different months, the later month first', breaks='a rule outside the range is kept',
  demo=r'''
t = compile('Rule\tX\t1990\tonly\t-\tOct\t5\t1:00\t0\t-\nRule\tX\t1990\tonly\t-\tMar\t5\t1:00\t1:00\tS\nRule\tX\t2010\tonly\t-\tMar\t5\t1:00\t0\t-\nZone\tA/B\t1:00\tX\tX%sT\n', start=2000)
check([r['from_year'] for r in t.policies_map['X']['rules'][1:]] == [1990, 2010], 'rules kept: %r' % [(r['from_year'], r['in_month']) for r in t.policies_map['X']['rules']])
'''),
dict(id='c05-fixed-rules-floor', prop='C05', edits=[(T, "                    era_delta_seconds_truncated = truncate_to_granularity(\n                        era_delta_seconds, self.delta_granularity)", "                    era_delta_seconds_truncated = (\n                        era_delta_seconds // self.delta_granularity\n                        * self.delta_granularity)")],
  needs='a negative fixed RULES value that is not a multiple of the granularity, with nostrict', breaks='truncated away from zero',
  demo=r'''
t = compile('Zone\tA/B\t1:00\t-0:20\tXT\n', scope='extended', strict=False)
check(t.zones_map['A/B']['eras'][0]['era_delta_seconds_truncated'] == -900, 'not truncated toward zero')
'''),
dict(id='c06-leap-200', prop='C06', edits=[(T, "(year % 400) == 0", "(year % 200) == 0")],
  needs='a lastXxx day in February of a year such as 1800 or 2200', breaks='the date is wrong by a week',
  demo=r'''
t = compile('Zone\tA/B\t1:00\t-\tXT\t2200 Feb lastSat 2:00\n\t\t\t2:00\t-\tYT\n', start=2000, until=2300)
e = t.zones_map['A/B']['eras'][0]
check((e['until_month'], e['until_day']) == (2, 22), 'last Saturday of February 2200 is %r' % ((e['until_month'], e['until_day']),))
'''),
dict(id='c07-repeated-rule', prop='C07', edits=[(EX, "    policy['rules'].append(rule)\n", "    if rule not in policy['rules']:\n        policy['rules'].append(rule)\n")],
  needs='the same Rule line twice', breaks='the second line is dropped silently',
  demo=r'''
p, z, l = parse('Rule\tX\t2001\tonly\t-\tMar\t5\t1:00\t0\t-\nRule\tX\t2001\tonly\t-\tMar\t5\t1:00\t0\t-\n').get_data()
check(len(p['X']['rules']) == 2, 'line dropped')
'''),
dict(id='c08-tiny-bound', prop='C08', edits=[(T, "year_tiny < MAX_TO_YEAR_TINY)", "year_tiny <= MAX_TO_YEAR_TINY)")],
  needs='a run whose until year is exactly base + 126', breaks='an until year that does not fit is accepted',
  demo=r'''
check(raises(lambda: compile('Zone\tA/B\t1:00\t-\tXT\n', scope='extended', tiny=True, base=2000, start=2000, until=2126)), 'accepted')
'''),
dict(id='c09-link-link-collision', prop='C09', edits=[(T, """                f"Link {name} with existing {colliding_name}"
            )
        hashes[h] = name
""", """                f"Link {name} with existing {colliding_name}"
            )
""")],
  needs='two links with the same 32-bit hash', breaks='colliding ids are accepted',
  demo=r'''
check(raises(lambda: compile('Zone\tQ/Q\t1:00\t-\tXT\nLink\tQ/Q\tEtc/Az\nLink\tQ/Q\tEtc/BY\n')), 'collision accepted')
'''),
dict(id='c10-negative-offset-minute', prop='C10', edits=[(AR, "offset_minute = (offset_seconds % 900) // 60", "offset_minute = abs(offset_seconds) % 900 // 60")],
  needs='a negative STDOFF that is not a multiple of 15 minutes (extended)', breaks='the packed offset decodes to another offset',
  demo=r'''
from acetimetools.transformer.artransformer import ArduinoTransformer
t = compile('Zone\tA/B\t-0:44\t-\tXT\n', scope='extended', tiny=True)
ArduinoTransformer('extended', False, 'low').transform(t)
e = t.zones_map['A/B']['eras'][0]
check(e['offset_code'] * 900 + (e['delta_code_encoded'] >> 4) * 60 == -2640, 'decodes to %d' % (e['offset_code'] * 900 + (e['delta_code_encoded'] >> 4) * 60))
'''),
dict(id='c11-i16-wraps', prop='C11', edits=[(BU, "    if x < -32768:\n        raise ValueError(f\"x={x} < -32768, cannot write into int16\")\n    if x < 0:\n        x += 65536\n", "    if x < -65536:\n        raise ValueError(f\"x={x} < -32768, cannot write into int16\")\n    if x < 0:\n        x += 65536\n")],
  needs='an integer between -65536 and -32769', breaks='it is written as a positive number',
  demo=r'''
from acetimetools.generator.byteutils import write_i16
d = bytearray()
check(raises(lambda: write_i16(d, -40000)) and not d, 'accepted')
'''),
dict(id='c12-registry-order', prop='C12', edits=[(GT, "        key=lambda x: zone_and_link_ids[x],", "        key=lambda x: zone_and_link_ids[x] & 0x7fffffff,")],
  needs='a database with ids on both sides of 2^31', breaks='the registry is not ordered by id',
  demo=r'''
from acetimetools.transformer.gotransformer import GoTransformer
t = compile(''.join('Zone\tA/%s\t1:00\t-\tXT\n' % (c * k) for c in 'BCDEFG' for k in range(1, 9)))
GoTransformer().transform(t)
ids = dict(t.zone_ids)
o = [ids[n] for n in t.go_zone_and_link_index_map]
check(o == sorted(o), 'not ordered')
'''),
dict(id='c13-keyword-32', prop='C13', edits=[(AR, "    if index >= 32:\n", "    if index > 33:\n")],
  needs='more than 31 frequent fragments', breaks='keywords 32 and above are ordinary characters',
  demo=r'''
from acetimetools.transformer.artransformer import ArduinoTransformer
t = compile(''.join('Zone\tFrag%c%c/Z%d\t1:00\t-\tXT\n' % (65 + i // 26, 97 + i % 26, k) for i in range(32) for k in range(4)))
def go():
    ArduinoTransformer('complete', True, 'high').transform(t)
    for n, c in t.compressed_names.items():
        inv = {chr(i): f for f, i in t.fragments_map.items() if i < 32}
        check(''.join(inv.get(x, x) for x in c) == n, '%r for %r' % (c, n))
try: go()
except SystemExit: raise
except Exception: pass
'''),
dict(id='c14-link-target-era', prop='C14', edits=[(GG, """            else:  # Link
                zone_id = self.link_ids[name]
                era_index = 0
                era_count = 0
                target_index = self.zone_and_link_index_map[target_name]
            name_index""", """            else:  # Link
                zone_id = self.link_ids[name]
                era_index = 0
                era_count = 0
                target_index = self.info_index_size_map[target_name][0]
            name_index""")],
  needs='a link whose target has different positions by name and by id', breaks='the link record points at another record',
  demo=r'''
o = run_main(''.join('Zone\tA/%s\t1:00\t-\tXT\n' % (c * k) for c in 'BCD' for k in range(1, 5)) + 'Link\tA/CC\tL/L\nLink\tA/B\tL/M\n', '--actions', 'zonedb', '--languages', 'go', '--scope', 'complete')
import re
def recs(n):
    s = o['zone_infos.go']; i = s.index('const ' + n + ' =')
    body = s[i:s.index('\n\n', i)]
    return bytes(int(x, 16) for x in re.findall(r'\\x([0-9a-f]{2})', body))
d = recs('ZoneInfosData')
ids = {}
from acetimetools.transformer.transformer import hash_name
R = [d[i:i + 12] for i in range(0, len(d), 12)]
pos = {int.from_bytes(r[:4], 'little'): i for i, r in enumerate(R)}
for l, z in (('L/L', 'A/CC'), ('L/M', 'A/B')):
    r = R[pos[hash_name(l)]]
    check(int.from_bytes(r[10:12], 'little') == pos[hash_name(z)], 'link %s points at %d not %d' % (l, int.from_bytes(r[10:12], 'little'), pos[hash_name(z)]))
'''),
dict(id='c15-formats-by-length', prop='C15', edits=[(AR, "    for short_format in sorted(short_formats):", "    for short_format in sorted(short_formats, key=len):")],
  needs='two formats of the same length, two hash seeds', breaks='the order of the formats table depends on set order',
  demo=r'''
import subprocess
code = "import sys; sys.path.insert(0, %r); from common import *; from acetimetools.transformer.artransformer import ArduinoTransformer; t = compile(''.join('Zone\\tA/%%s\\t1:00\\t-\\t%%s\\n' %% (c, c * 3) for c in 'BCDEFGHIJK')); ArduinoTransformer('complete', False, 'high').transform(t); print(list(t.formats_map.items()))" % os.path.dirname(os.path.abspath(__file__))
out = {subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(s))).stdout for s in range(6)}
check(len(out) == 1 and out != {''}, '%d different tables' % len(out))
'''),
dict(id='c16-link-by-target', prop='C16', edits=[(T, "            if link_name in include_list:", "            if link_name in include_list or zone_name in include_list:")],
  needs='an include list with a zone that has an unlisted link', breaks='the link is emitted although it is not listed',
  demo=r'''
t = compile('Zone\tA/B\t1:00\t-\tXT\nLink\tA/B\tL/L\n', include=['A/B'])
check(list(t.links_map) == [] and 'L/L' in t.removed_links, 'unlisted link emitted')
'''),
dict(id='c17-border-weekday', prop='C17', edits=[(T, "                    if month == 1 and on_day_of_month == 1:", "                    if (\n                        month == 1 and on_day_of_month == 1\n                        and not rule['on_day_of_week']\n                    ):")],
  needs='basic scope and a rule on Sun>=1 in January', breaks='a policy with a possible transition on January 1 is emitted',
  demo=r'''
t = compile('Rule\tX\t2001\tmax\t-\tJan\tSun>=1\t1:00\t0\t-\nRule\tX\t2001\tmax\t-\tMar\t5\t1:00\t1:00\tS\nZone\tA/B\t1:00\tX\tX%sT\nZone\tA/C\t1:00\t-\tXT\n', scope='basic')
check('X' not in t.policies_map, 'policy emitted')
'''),
dict(id='c18-first-percent-s', prop='C18', edits=[(T, "format = format.replace('%s', '%')", "format = format.replace('%s', '%', 1)")],
  needs='a FORMAT with %s twice', breaks='the second %s stays',
  demo=r'''
t = compile('Rule\tX\t2001\tonly\t-\tMar\t5\t1:00\t0\t-\nZone\tA/B\t1:00\tX\tX%sT/Y%sT\n')
check(t.zones_map['A/B']['eras'][0]['format_short'] == 'X%T/Y%T', t.zones_map['A/B']['eras'][0]['format_short'])
'''),
dict(id='c19-years-elif', prop='C19', edits=[(T, "            if era_year != MAX_UNTIL_YEAR and era_year > max_year:", "            elif era_year != MAX_UNTIL_YEAR and era_year > max_year:")],
  needs='a database where the first finite year scanned is the largest', breaks='the published maximum year is wrong',
  demo=r'''
t = compile('Zone\tA/B\t1:00\t-\tXT\t2010\n\t\t\t2:00\t-\tYT\n')
check((t.generated_min_year, t.generated_max_year) == (2010, 2010), 'years %r' % ((t.generated_min_year, t.generated_max_year),))
'''),
dict(id='c20-terminal-early', prop='C20', edits=[(BE, "is_terminal_year(year - 2)", "is_terminal_year(year - 1)")],
  needs='a zone whose size still grows two years after its first terminal year', breaks='the scan stops a year early and the size is too small',
  demo=r'''
class Z:
    def __init__(s, i): pass
    def init_for_year(s, y): s.y = y
    def get_buffer_sizes(s):
        class B: active_size = 1; buffer_size = 5 if s.y >= 2012 else 2
        return B
    def is_terminal_year(s, y): return y >= 2010
stub_acetime(Z)
from acetimetools.bufestimator import bufestimator as b
r = b._find_max_buffer_sizes(Z(None), start_year=2000, until_year=2050)
check(tuple(r.max_buffer_size) == (5, 2012), 'size %r' % (tuple(r.max_buffer_size),))
'''),
dict(id='c21-first-policy', prop='C21', edits=[(CM, "                policies.add(policy_name)\n", "                if not policies or len(info['eras']) < 3:\n                    policies.add(policy_name)\n")],
  needs='a zone with three or more eras and two policies, the second with notes', breaks='the notes of the second policy are not passed on',
  demo=r'''
from acetimetools.transformer.commenter import Commenter
t = compile('Rule\tX\t2001\tonly\t-\tMar\t5\t1:00\t0\t-\nRule\tY\t2015\tonly\t-\tMar\t5\t1:00\t0:30\tS\nRule\tY\t2016\tonly\t-\tMar\t5\t1:00\t0\t-\nZone\tA/B\t1:00\tX\tX%sT\t2010\n\t\t\t1:00\tY\tX%sT\t2020\n\t\t\t1:00\t-\tXT\n')
Commenter().transform(t)
check(any(isinstance(r, dict) and 'Y' in r for r in t.merged_notable_zones['A/B']), 'notes of Y missing')
'''),
dict(id='c22-delta-override', prop='C22', edits=[(TZ, "    if args.delta_granularity:\n        delta_granularity", "    if args.delta_granularity and args.scope != 'basic':\n        delta_granularity")],
  needs='--scope basic with --delta_granularity', breaks='the option is ignored',
  demo=r'''
import json
o = run_main('Zone\tA/B\t1:00\t-\tXT\n', '--actions', 'json', '--languages', 'python', '--scope', 'basic', '--delta_granularity', '1800')
check(json.loads(o['zonedb.json'])['delta_granularity'] == 1800, 'option ignored')
'''),
dict(id='c24-link-eras', prop='C24', edits=[(PG, "    'eras': ZONE_ERAS_{zone_normalized_name},\n    'link_to'", "    'eras': ZONE_ERAS_{zone_normalized_name},\n    'link_from'"), (PG, "ZONE_INFO_{link_normalized_name}: ZoneInfo", "ZONE_INFO_{link_normalized_name}: ZoneInfo")],
  needs='a database with a link, python output', breaks='the link record no longer has its link_to field',
  demo=r'''
o = run_main('Zone\tA/B\t1:00\t-\tXT\nLink\tA/B\tL/L\n', '--actions', 'zonedb', '--languages', 'python', '--scope', 'complete')
check("'link_to': ZONE_INFO_A_B" in o['zone_infos.py'], 'link_to missing')
'''),
dict(id='c24-c-link-eras', prop='C24', edits=[(CG, "        num_eras = len(self.zones_map[zone_name]['eras'])\n", "        num_eras = max(\n            1, len(self.zones_map[zone_name]['eras']) - (zone_name > link_name))\n")],
  needs='C output, a link that sorts before its target with two or more eras', breaks='the link record counts one era too few',
  demo=r'''
import re
o = run_main('Zone\tM/B\t1:00\t-\tXT\t2010\n\t\t\t2:00\t-\tYT\nLink\tM/B\tA/L\n', '--actions', 'zonedb', '--languages', 'c', '--scope', 'complete')
s = o['zone_infos.c']; i = s.index('Link name: A/L')
check('2 /*num_eras*/' in s[i:], 'wrong num_eras')
'''),
]
