"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
T='src/acetimetools/transformer/transformer.py'; A='src/acetimetools/transformer/artransformer.py'
G='src/acetimetools/transformer/gotransformer.py'; B='src/acetimetools/generator/byteutils.py'
GG='src/acetimetools/generator/gogenerator.py'; AG='src/acetimetools/generator/argenerator.py'
CG='src/acetimetools/generator/cgenerator.py'; PG='src/acetimetools/generator/pygenerator.py'
E='src/acetimetools/extractor/extractor.py'; D='src/acetimetools/datatypes/attyping.py'
C='src/acetimetools/transformer/commenter.py'; M='src/acetimetools/tzcompiler.py'
BE='src/acetimetools/bufestimator/bufestimator.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=list(obs),hook_needed=None)))
p('C01','Every zone, link and policy is either emitted or listed as removed',
  'After a transformation, every zone, link and rule policy of the input is in exactly one of two places: the emitted database, or the matching removed list with at least one reason; nothing is emitted that was not in the input. '
  'For the extended and complete scopes a run either emits every zone and link that the include list lets through, or it fails; it never quietly emits fewer.',
  ['inputs','configurations'],'all parsed TZ databases, scopes, year ranges, granularities, strict flag and include lists',
  'The transformation pipeline has no test at all; the accounting must hold through some twenty filter passes for every mix of zones that each pass keeps or drops.',
  [T,D],[('filter passes and removal comments','Transformer._remove_* / _create_* / add_comment / merge_comments'),('count check','Transformer._verify_zones_and_links_count')],
  ['TransformerResult.zones_map/links_map/policies_map','removed_zones/removed_links/removed_policies'])
p('C02','Emitted database is referentially closed and has unique symbol names',
  'Every rule policy that an emitted zone era refers to is itself emitted, and every emitted link points directly at an emitted zone. '
  'An input with a link to another link, or with two zone or link names that map to the same generated symbol name, is rejected with an error.',
  ['inputs','configurations'],'all parsed TZ databases and settings',
  'No test runs the pipeline; dangling references appear only for specific removals of policies or zones late in the pipeline.',
  [T],[('late removal','Transformer._remove_zones_without_rules, _remove_links_to_missing_zones'),('early rejection','_detect_links_to_links, _detect_zones_and_links_with_similar_names')],
  ['TransformerResult'])
p('C03','Emitted zone eras cover the requested years, in order, to infinity',
  'An emitted zone keeps, in their original order, exactly the eras needed for the requested years: no era whose UNTIL year is at least start_year-1 and whose start is no later than until_year+1 is dropped, and no other era is kept. '
  'Its UNTIL dates strictly increase and the last era extends to infinity, with its UNTIL made unconditional when later eras were cut off; the zone is flagged as truncated at the low or high end exactly when eras were cut off there.',
  ['inputs','configurations'],'all zones (any number of eras, any UNTIL fields) and all year ranges',
  'No test covers era filtering; boundary years and cut-off eras with month, day or time in UNTIL are never sampled.',
  [T],[('era filters','Transformer._remove_zone_eras_too_old/_too_new/_extend_zone_eras_until'),('order check','Transformer._remove_zones_with_non_monotonic_until')],
  ['ZoneInfoRaw.eras'])
p('C04','Emitted rules are those in force in the requested years plus an anchor',
  'An emitted policy keeps, in original order, exactly the rules whose FROM..TO range meets the requested years widened by one year on each side, plus the latest earlier rules (all those of the last year and month before the range). '
  'They are preceded by exactly one anchor rule from minus infinity with zero SAVE, at January 1 00:00, whose LETTER is that of the earliest kept rule with zero SAVE; if there is no such rule the run fails rather than inventing standard time (a policy left with one single rule of zero SAVE is that anchor alone). '
  'The policy is flagged as truncated at the low or high end exactly when rules were dropped there.',
  ['inputs','configurations'],'all rule policies and year ranges',
  'No test covers rule selection or anchors; errors show only for particular combinations of TO years, months and SAVE values.',
  [T],[('rule filter','Transformer._remove_rules_too_old_or_new, compare_rule_to_interval, find_latest_prior_rules'),('anchor','Transformer._create_rules_with_anchor_transition, _get_anchor_rule, _convert_to_anchor')],
  ['ZonePolicyRaw.rules'])
p('C05','Time, offset and SAVE values are exact, and truncated toward zero',
  'Every UNTIL, AT, STDOFF, fixed RULES and SAVE value of an emitted zone or policy carries the exact number of seconds its text denotes, and next to it that value truncated toward zero to the configured granularity (equal to it when already a multiple). '
  'Under strict mode nothing with an inexact value is emitted, and values that are malformed (each component is an unsigned number), negative where a time of day is required, or beyond the supported range cause removal with a reason, never a wrong number.',
  ['inputs','configurations'],'all time strings, granularities and the strict flag',
  'The tests sample a handful of strings and divisions; signs, seconds and non-multiples combine over an unbounded input space, and the passes themselves are untested.',
  [T],[('parsing','time_string_to_seconds'),('truncation','truncate_to_granularity, div_to_zero'),('passes','Transformer._create_zones_with_expanded_until_time/_offset_string/_rules_expansion, _create_rules_with_expanded_at_time, _update_rules_with_expanded_delta_offset')],
  ['*_seconds and *_seconds_truncated fields'])
p('C06','Conditional days (lastSun, Sun>=8, Fri<=1) resolve to the right date',
  'The day expression of an UNTIL resolves to the calendar date it denotes for that year, moving into the neighbouring month when it must; a date that would leave the year is removed with a reason instead of being emitted. '
  'The day expression of a rule keeps its day-of-week and day-of-month meaning exactly, and a rule whose expression could fall in a different year (January for <=, December for >=) is removed with a reason.',
  ['inputs'],'all years 1..9999, months and day expressions',
  'Tests check 12 dates and 4 expressions; leap years, month shifts and year borders form a large space.',
  [T],[('resolution','_parse_on_day_string, calc_day_of_month, _days_in_month'),('passes','Transformer._create_zones_with_until_day, _create_rules_with_on_day_expansion')],
  ['until_month/until_day, on_day_of_week/on_day_of_month'])
p('C07','The parsed database says what the TZ source text says',
  'Every Zone, continuation, Rule and Link line of the source files appears exactly once, in source order, under the right name, with each column stored unchanged (years, month, day, time with its w/s/u suffix, offset, rules, format, letter) and the documented defaults for omitted UNTIL parts. '
  'Comments and blank lines change nothing, and a line that does not have the required shape is left out and counted as invalid, never stored half-read.',
  ['inputs'],'all TZ source texts in the documented format',
  'Tests cover month names and the time suffix only; no test parses a line.',
  [E],[('line parsing','_process_zone_line, _process_rule_line, parse_at_time_string, month_to_index'),('grouping','Extractor._parse_zone_file, _process_rules, _process_zones')],
  ['Extractor output maps'])
p('C08','Tiny years preserve the year, and fail instead of wrapping',
  'When 8-bit years are generated, an ordinary year is stored as its distance from the base year and the infinite-past, infinite-future and invalid years map to their reserved values, never to an ordinary year\'s code or the reverse. '
  'A year outside the representable span saturates to the matching infinity, every stored value is in the 8-bit range, and start or until years of the run that do not fit are rejected.',
  ['inputs','configurations'],'all years and base years',
  'Tests sample ten years around one base year.',
  [T],[('conversion','is_year_tiny, to_tiny_from_to_year, to_tiny_until_year'),('passes','Transformer._create_tiny_until_years, _update_rules_tiny_from_to_years')],
  ['*_year_tiny fields'])
p('C09','Zone and link ids are the stable 32-bit hash, non-zero, collision-free',
  'Each emitted zone and link has exactly one id, equal to the djb2 hash modulo 2^32 of its name, and no emitted id is zero. '
  'A database in which two zone or link names share an id is rejected with an error.',
  ['inputs'],'all zone and link names',
  'Tests hash a few names; collisions and zero ids need specific names.',
  [T],[('hash','hash_name'),('checks','_detect_hash_collisions, Transformer._generate_zone_ids, _generate_link_ids')],
  ['TransformerResult.zone_ids/link_ids'])
p('C10','Arduino and C time codes decode to the original values',
  'For every emitted rule and era, the packed codes (15-minute or 15-second units, remainder, suffix bits, shifted 4-bit or 1-byte SAVE) decode back to the same truncated seconds, the same w/s/u suffix and the same offset and SAVE. '
  'Every code fits the bit width of its field; a value that cannot be represented in the chosen format raises an error instead of being emitted wrongly.',
  ['inputs','configurations'],'all truncated seconds, suffixes and both encoding formats',
  'The encoders have no tests; decode correctness is a statement about every value and sign.',
  [A],[('encoders','_to_encoded_time_minutes, _to_encoded_time_seconds, _to_suffix_code'),('passes','ArduinoTransformer._process_rules_from_to_at/_process_rules_delta/_process_eras_stdoff_delta/_process_eras_until')],
  ['*_code/*_remainder/*_modifier fields'])
p('C11','Integers are written as little-endian bytes, or rejected',
  'Writing an 8, 16 or 32 bit signed or unsigned integer appends exactly its 1, 2 or 4 little-endian two\'s-complement bytes and changes nothing else in the buffer; the bytes decode to the same integer. '
  'Every integer in the type\'s range is accepted and every other integer is rejected with an error and no output.',
  ['inputs'],'all integers and buffer contents',
  'Tests try a few values per width; the 32-bit signed writer is wrong for half its range and no test notices.',
  [B],[('writers','write_u8..write_i32'),('escape','hex_encode, convert_to_go_string')],
  ['bytearray contents'])
p('C12','Go tables: indexes, offsets and sizes address the right records',
  'In the Go tables the strings, policies, infos and registry entries are numbered 0..n-1 without gaps in the order they are emitted, each offset equals the total size of all earlier items, and the sentinel entry holds the totals, so that index and offset select exactly the item they name. '
  'The registry is ordered by id, and table sizes that overflow their index type are rejected.',
  ['inputs'],'all sets of zones, links, policies and strings',
  'No test builds these tables; off-by-one errors in offsets or ordering need several entries to show.',
  [G],[('tables','_collect_*_strings, _generate_*_index_*map'),('limits','GoTransformer.transform')],
  ['go_*_map'])
p('C13','Compressed zone names expand back to the original names',
  'Replacing each keyword byte of a compressed zone or link name by the fragment it stands for gives back the original name, and the keyword bytes are distinct, non-zero control codes below 32 that never stand for ordinary text. '
  'The C string literal written for a compressed name denotes exactly those bytes.',
  ['inputs'],'all zone and link names and fragment tables',
  'One test renders one literal; compression has no test.',
  [A,AG],[('fragments','_generate_fragments, _extract_fragments'),('compression','_compress_name, _generate_compressed_names'),('literal','_compressed_name_to_c_string')],
  ['fragments_map, compressed_names'])
p('C14','Go data records carry the fields of every era, rule, policy and zone',
  'Each Go era, rule, policy and zone record is the little-endian layout of that item\'s own values (14, 12, 4 and 12 bytes): offset, SAVE, UNTIL or AT code, suffix, years, format or letter index, policy index, and the position and count of its eras or rules; links carry their own id and name and their target\'s records. '
  'Records are emitted in table order with none missing or repeated, so a reader indexing the byte strings gets each item back.',
  ['inputs'],'all transformed databases',
  'No test runs this generator; a swapped or mis-scaled field compiles and passes.',
  [GG,B],[('records','GoGenerator._generate_eras/_rules/_policies/_infos and the byte writers')],
  ['generated Go byte strings'])
p('C15','Output depends only on the input, not on set or hash order',
  'Tables that are collected through unordered sets (letters, formats, names, fragments, comments, ids) come out in sorted order with consecutive positions, so two runs on the same input and settings give the same tables. ',
  ['inputs','configurations'],'all inputs and all hash seeds',
  'Tests run under one process and hash seed and never compare two outputs.',
  [A,G,D,T],[('sorting','_collect_letter_strings, _collect_format_strings, _collect_name_strings, _sort_comments, _generate_zone_ids')],
  ['maps handed to the generators'])
p('C16','The include list selects exactly the named zones and links',
  'With a non-empty include list, the zones and links considered for output are exactly the input ones whose names are listed, and every other one is reported as removed for that reason; with an empty list nothing is filtered. ',
  ['inputs','configurations'],'all include lists and inputs',
  'No test uses an include list.',
  [T],[('filters','Transformer._filter_include_zones, _filter_include_links')],
  ['TransformerResult, removed lists'])
p('C17','Basic-scope output only contains what the basic processor supports',
  'With scope basic, no emitted zone has a month, day or time in UNTIL, an UNTIL suffix other than w, or a fixed RULES offset, and no emitted policy has two rules taking effect in the same year and month or a transition on January 1. '
  'Each zone or policy that breaks a restriction is removed with a reason; the other scopes do not apply these restrictions.',
  ['inputs','configurations'],'all inputs under scope basic',
  'No test runs the basic scope.',
  [T],[('restrictions','Transformer._remove_zone_with_non_simple_until_year, _remove_zones_invalid_until_time_suffix, _create_zones_with_rules_expansion, _remove_policies_multiple_transitions_in_month, _remove_policies_with_border_transitions')],
  ['TransformerResult'])
p('C18','FORMAT and LETTER are normalised without changing their meaning',
  'An emitted era\'s short format is its FORMAT with %s written as % and a bare %z as the empty string; an empty FORMAT, %z mixed with other text, or %s without a rule policy is rejected with an error. '
  'A rule LETTER of - becomes empty and every other letter is unchanged, and the letter and format indexes attached to rules select that same text.',
  ['inputs'],'all FORMAT and LETTER strings',
  'No test covers these passes.',
  [T,A],[('passes','Transformer._create_short_format_strings, _remove_zones_with_invalid_rules_format_combo, _normalize_rule_letters'),('indexes','_collect_letter_strings, _to_letter_index')],
  ['format_short, letter, letter_index'])
p('C19','Published year ranges and truncation flags describe the data',
  'A zone is flagged truncated at an end exactly when its eras or a policy it uses were cut there, and the database flags are the union over zones. '
  'The accurate-from and accurate-until years are the requested years where data was cut and the infinite years otherwise, and the published minimum and maximum years are the smallest and largest era UNTIL and rule FROM years, ignoring infinities and anchors.',
  ['inputs','configurations'],'all inputs and year ranges',
  'No test checks the metadata.',
  [T],[('flags','Transformer._update_truncation_status, _calc_accurate_years'),('years','_detect_tzdb_years')],
  ['TransformerResult metadata'])
p('C20','Transition buffer sizes cover every zone and year',
  'The buffer size published for a zone is the largest size its transition computation needs over every year of the estimated range, with the year where it occurs, and the database maximum is the largest over all zones; years after a zone has reached its last, unchanging rule set need not be scanned, and a size above the supported limit is rejected with an error.',
  ['inputs'],'all per-zone, per-year buffer measurements',
  'No test runs the estimator; an off-by-one year bound or a dropped maximum shows only for particular zones.',
  [BE],[('estimation','BufSizeEstimator')],['buf_sizes, max_buf_size'])
p('C21','Reasons recorded for a zone or policy are kept and passed on',
  'Merging removal or note lists keeps every earlier reason and adds every new one, under the same names. '
  'The combined notes of an emitted zone contain its own notes and, under their names, the notes of the policies its eras use, and nothing else.',
  ['inputs'],'all comment maps, zones and policies',
  'No test covers comments.',
  [D,C],[('merging','add_comment, merge_comments, _sort_comments'),('commenter','Commenter')],
  ['removed_*/notable_*, merged_notable_zones'])
p('C22','Command-line scope and options select the documented settings',
  'Each scope selects its documented granularities, encoding and tiny-year mode, an explicit granularity option overrides the scope default for its fields (the general one overriding the individual ones), and out-of-range start years or unknown scopes are rejected. ',
  ['configurations'],'all combinations of command-line options',
  'No test starts the command line tool; option combinations are not sampled.',
  [M],[('option handling','tzcompiler.main')],['arguments passed to the transformers'])
p('C23','The wrapper script leaves files it did not create alone',
  'The tzcompiler.sh wrapper removes only the temporary source directory it created itself, and leaves a pre-existing directory of that name untouched when it refuses to run. ',
  ['configurations'],'all working-directory states',
  'Nothing tests the shell script.',
  ['tzcompiler.sh'],[('cleanup trap','tzcompiler.sh')],['working directory'])
p('C24','Generated files carry every emitted record with its own values',
  'The Arduino, C, Python and JSON files and the zone list contain one record for every emitted zone, era, policy, rule and link, in the documented order, and each field of a record is that item\'s own value (years, offsets, SAVE, UNTIL, AT, suffix, day, letter, format, policy reference, id, counts). '
  'Context fields (years, versions, scope, counts) are those of the run.',
  ['inputs','configurations'],'all transformed databases, scopes and output languages',
  'No test runs a file generator; a swapped, repeated or dropped field still gives a file that looks right.',
  [AG,CG,PG,'src/acetimetools/generator/jsongenerator.py','src/acetimetools/generator/zonelistgenerator.py'],
  [('records','_generate_policy_item, _generate_era_item, _generate_info_item, _generate_link_item')],
  ['generated zone_infos/zone_policies/zone_registry files'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
