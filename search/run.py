"""Runs the real code of /repo (no copy) on one case."""
import importlib, io, logging, os, shutil, sys, tempfile, types, traceback

SRC = os.environ.get('VERIF_SRC', '/repo/src')

def setup():
    if SRC not in sys.path: sys.path.insert(0, SRC)
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    # the external package 'acetime' is not installed: a stand-in for its
    # ZoneProcessor with programmable sizes (see C20)
    if 'acetime' not in sys.modules:
        a, zp, ty = types.ModuleType('acetime'), types.ModuleType('acetime.zone_processor'), types.ModuleType('acetime.typing')
        zp.ZoneProcessor = StubProcessor
        for n in ('ZoneInfoMap', 'ZonePolicyMap', 'ZoneInfo', 'ZonePolicy', 'ZoneRule', 'ZoneEra'): setattr(ty, n, dict)
        a.zone_processor, a.typing = zp, ty
        sys.modules.update({'acetime': a, 'acetime.zone_processor': zp, 'acetime.typing': ty})

class Sizes:
    def __init__(s, a, b): s.active_size, s.buffer_size = a, b

class StubProcessor:
    sizes = staticmethod(lambda name, year: (1, 1))
    terminal = staticmethod(lambda name, year: False)
    log = []
    def __init__(s, zone_info): s.zone_info = zone_info; s.year = None
    def init_for_year(s, year): s.year = year; StubProcessor.log.append((s.zone_info['name'], year))
    def get_buffer_sizes(s): return Sizes(*StubProcessor.sizes(s.zone_info['name'], s.year))
    def is_terminal_year(s, year): return StubProcessor.terminal(s.zone_info['name'], year)

def mod(name):
    setup()
    return importlib.import_module('acetimetools.' + name)

TMP = None
def tmpdir():
    global TMP
    if TMP is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        TMP = tempfile.mkdtemp(prefix='verif-tz-' + (os.environ.get('VERIF_TMP_TAG', '') + '-' if os.environ.get('VERIF_TMP_TAG') else ''), dir=base)
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(TMP, ignore_errors=True))
    return TMP
def forked():
    global TMP
    TMP = None

def write_files(files, d):
    from .model import FILES
    for f in FILES:
        with open(os.path.join(d, f), 'w', encoding='utf-8', newline='') as h: h.write(files.get(f, ''))

class Run: pass

def extract(case):
    d = tmpdir()
    write_files(case['files'], d)
    ex = mod('extractor.extractor').Extractor(d)
    ex.parse()
    return ex

def new_tresult(policies, zones, links):
    at = mod('datatypes.attyping')
    return at.TransformerResult(
        zones_map=zones, policies_map=policies, links_map=links, zones_to_policies={}, removed_zones={}, removed_policies={}, removed_links={},
        notable_zones={}, merged_notable_zones={}, notable_policies={}, notable_links={}, original_min_year=0, original_max_year=0,
        generated_min_year=0, generated_max_year=0, lower_truncated=False, upper_truncated=False, start_year_accurate=at.MIN_YEAR,
        until_year_accurate=at.MAX_UNTIL_YEAR, buf_sizes={}, max_buf_size=0, estimator_min_year=0, estimator_max_year=0, zone_ids={}, link_ids={},
        letters_map={}, formats_map={}, fragments_map={}, compressed_names={}, memory_map8={}, memory_map32={}, go_letters_map={}, go_formats_map={},
        go_names_map={}, go_zone_and_link_index_map={}, go_policy_index_size_map={}, go_info_index_size_map={}, go_memory_map={})

def transform(case, ex):
    """-> (tresult, transformer, exception)"""
    o = case['opts']
    pm, zm, lm = ex.get_data()
    tr = new_tresult(pm, zm, lm)
    t = mod('transformer.transformer').Transformer(
        scope=o['scope'], start_year=o['start_year'], until_year=o['until_year'], until_at_granularity=o['until_at_granularity'],
        offset_granularity=o['offset_granularity'], delta_granularity=o['delta_granularity'], strict=o['strict'],
        generate_tiny_years=o['tiny'], tiny_base_year=o['tiny_base'], include_list=set(o['include']))
    try: t.transform(tr)
    except Exception as e: return tr, t, e
    return tr, t, None

def where(e):
    """names of the functions on the traceback of e"""
    return [f.name for f in traceback.extract_tb(e.__traceback__)]
