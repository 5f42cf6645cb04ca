# tzcompiler.py: what the command line selects (C22), the include list (C16)
TZC = 'tzcompiler:'
@spec
def inctext(f, i):
    return fline(f, i).strip()
@spec
def included(f: str, k: int, n: str) -> bool:
    """n is named on one of the first k lines of the include file"""
    return False if k <= 0 else included(f, k - 1, n) or inctext(f, k - 1) == n and n != '' and not n.startswith('#')
contract(TZC + 'read_include_list', props=['C16'], modifies=['new:Set[str]', 'new:TextIO', 'okey'], allocs=True, opts={'unfoldq': ('included',)},
    ensures=['fresh(result)', 'all(iff(n in result, filename != "" and included(filename, fcount(filename), n)) for n in strs())'],
    loops={0: ['all(iff(n in zones, included(filename, _i, n)) for n in strs())']})
@spec
def eff(own, v, dflt):
    """the setting of one field: the general option, else its own option, else the default of the scope"""
    return optint('--granularity') if optgiven('--granularity') and optint('--granularity') != 0 else v if own and v != 0 else dflt
@spec
def lores(): return optstr('--scope') in ['basic', 'extended']
@spec
def startyear(): return optint('--start_year') if optgiven('--start_year') else 2000
@spec
def untilyear(): return optint('--until_year') if optgiven('--until_year') else 2100
@spec
def tinybase(): return optint('--tiny_base_year') if optgiven('--tiny_base_year') else 2100
@spec
def settings(ua, off, delta):
    return (ua == eff(optgiven('--until_at_granularity'), optint('--until_at_granularity'), 60 if lores() else 1)
        and off == eff(optgiven('--offset_granularity'), optint('--offset_granularity'), 60 if lores() else 1)
        and delta == eff(optgiven('--delta_granularity'), optint('--delta_granularity'), 900 if lores() else 60))
VALID = "optstr('--scope') in ['basic', 'extended', 'complete'] and implies(optstr('--scope') == 'basic', startyear() >= 1980) and implies(optstr('--scope') == 'extended', startyear() >= 1974)"
def _flag(p, off, on=None):
    """the pair of switches; both together: the last one counts, which is left open"""
    return "implies(not (optgiven('%s') and optgiven('%s')), iff(%s, not optgiven('%s')))" % (on or off.replace('--no', '--'), off, p, off)
_TINY = 'iff(p_generate_tiny_years, lores())'
_RUN = ["p_scope == optstr('--scope')", 'p_start_year == startyear()', 'p_until_year == untilyear()', 'settings(p_until_at_granularity, p_offset_granularity, p_delta_granularity)', _flag('p_strict', '--nostrict')]
@spec
def action(n): return insplit(optstr('--actions'), ',', n)
@spec
def language(n): return insplit(optstr('--languages'), ',', n)
@spec
def validnames():
    return all(implies(action(n), n in ['zonedb', 'json', 'zonelist']) for n in strs()) and all(implies(language(n), n in ['arduino', 'c', 'python', 'go']) for n in strs())
_OUT = "p_output_dir == (optstr('--output_dir') if optgiven('--output_dir') else '')"
contract(TZC + 'main', props=['C22'], modifies=[], allocs=True, opts={'opaque': True, 'maxpaths': 1, 'usecontract': ('tzcompiler:read_include_list',)}, allow={'SystemExit'},
    raises=[('Exception', 'not (%s)' % VALID), ('CalleeError', None), ('SystemExit', 'not validnames()')],
    ensures=[VALID, "called('Extractor.parse')", "called('transformer:Transformer.transform')", "called('Commenter.transform')", "called('create_zone_info_database')",
        "iff(called('BufSizeEstimator.transform'), not optgiven('--skip_bufestimator'))",
        "iff(called('ArduinoTransformer.transform'), language('arduino') or language('c'))", "iff(called('GoTransformer.transform'), language('go'))",
        "iff(called('tzcompiler:generate_zonedb'), action('zonedb'))", "iff(called('tzcompiler:generate_json'), action('json'))", "iff(called('tzcompiler:generate_zonelist'), action('zonelist'))"],
    calls={'Extractor.__init__': ["p_input_dir == optstr('--input_dir')", "all(implies(action(n), n in ['zonedb', 'json', 'zonelist']) for n in strs())", "all(implies(language(n), n in ['arduino', 'c', 'python', 'go']) for n in strs())"], 'Extractor.parse': [],
        'transformer:Transformer.__init__': [VALID, *_RUN, _TINY, 'p_tiny_base_year == tinybase()',
            "all(iff(n in p_include_list, optgiven('--include_list') and optstr('--include_list') != '' and included(optstr('--include_list'), fcount(optstr('--include_list')), n)) for n in strs())"],
        'transformer:Transformer.transform': ["called('Extractor.parse')"],
        'Commenter.transform': ["called('transformer:Transformer.transform')"],
        'BufSizeEstimator.__init__': ['p_start_year == startyear()', 'p_until_year == untilyear()', "iff(p_ignore_buf_size_too_large, optgiven('--ignore_buf_size_too_large'))"],
        'BufSizeEstimator.transform': ["called('transformer:Transformer.transform')"],
        'ArduinoTransformer.__init__': ["p_scope == optstr('--scope')", _flag('p_compress', '--nocompress'), "p_time_code_format == ('low' if lores() else 'high')"],
        'ArduinoTransformer.transform': ["called('transformer:Transformer.transform')"],
        'GoTransformer.transform': ["called('transformer:Transformer.transform')"],
        'create_zone_info_database': [*_RUN, "p_tz_version == optstr('--tz_version')", _flag('p_compress', '--nocompress'), "called('Commenter.transform')", "called('transformer:Transformer.transform')",
            "implies(not optgiven('--skip_bufestimator'), called('BufSizeEstimator.transform'))", "implies(language('arduino') or language('c'), called('ArduinoTransformer.transform'))", "implies(language('go'), called('GoTransformer.transform'))"],
        'tzcompiler:generate_zonedb': [_TINY, 'p_tiny_base_year == tinybase()', _flag('p_compress', '--nocompress'), _OUT, "all(iff(n in p_languages, language(n)) for n in strs())", "implies(optgiven('--db_namespace'), p_db_namespace == optstr('--db_namespace'))"],
        'tzcompiler:generate_json': ["p_json_file == (optstr('--json_file') if optgiven('--json_file') else 'zonedb.json')", _OUT],
        'tzcompiler:generate_zonelist': [_OUT]})
# constructors keep the settings they are given
_T = 'transformer.transformer:Transformer.__init__'
_S = ['scope', 'start_year', 'until_year', 'until_at_granularity', 'offset_granularity', 'delta_granularity', 'tiny_base_year']
_C = ('removed_zones', 'removed_policies', 'removed_links', 'notable_zones', 'notable_policies', 'notable_links')
contract(_T, props=['C22'], modifies=[*['self.' + x for x in [*_S, 'strict', 'generate_tiny_years', 'include_list']], *['self.all_' + x for x in _C], 'new:CommentsMap'], allocs=True,
    ensures=[*['self.%s == %s' % (x, x) for x in _S], 'iff(self.strict, strict)', 'iff(self.generate_tiny_years, generate_tiny_years)', 'self.include_list is include_list',
        *['all(n not in self.all_%s for n in strs())' % x for x in _C],
        'selfok(self)'])
contract('transformer.artransformer:ArduinoTransformer.__init__', props=['C22'], modifies=['self.scope', 'self.compress', 'self.time_code_format'], ensures=['self.scope == scope', 'iff(self.compress, compress)', 'self.time_code_format == time_code_format'])
contract('bufestimator.bufestimator:BufSizeEstimator.__init__', props=['C22'], modifies=['self.start_year', 'self.until_year', 'self.ignore_buf_size_too_large'], ensures=['self.start_year == start_year', 'self.until_year == until_year', 'iff(self.ignore_buf_size_too_large, ignore_buf_size_too_large)'])
