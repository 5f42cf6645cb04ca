# helper for the demonstrations (lies beside each demo)
import sys, os, tempfile, shutil, logging, types
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
logging.disable(logging.CRITICAL)
FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward', 'etcetera', 'europe', 'northamerica', 'southamerica']

def stub_acetime(proc=None):
    a, zp, ty = types.ModuleType('acetime'), types.ModuleType('acetime.zone_processor'), types.ModuleType('acetime.typing')
    zp.ZoneProcessor = proc
    for n in ('ZoneInfoMap', 'ZonePolicyMap', 'ZoneInfo', 'ZonePolicy', 'ZoneRule', 'ZoneEra'): setattr(ty, n, dict)
    a.zone_processor, a.typing = zp, ty
    sys.modules.update({'acetime': a, 'acetime.zone_processor': zp, 'acetime.typing': ty})

def parse(text):
    from acetimetools.extractor.extractor import Extractor
    d = tempfile.mkdtemp(prefix='demo-tz-')
    try:
        for f in FILES:
            with open(os.path.join(d, f), 'w', encoding='utf-8') as h: h.write(text if f == 'europe' else '')
        ex = Extractor(d); ex.parse()
        return ex
    finally: shutil.rmtree(d, ignore_errors=True)

def tresult(ex):
    from acetimetools.datatypes import attyping as at
    p, z, l = ex.get_data()
    import dataclasses
    kw = {f.name: {} for f in dataclasses.fields(at.TransformerResult)}
    kw.update(zones_map=z, policies_map=p, links_map=l)
    for n in ('original_min_year', 'original_max_year', 'generated_min_year', 'generated_max_year', 'max_buf_size', 'estimator_min_year', 'estimator_max_year', 'start_year_accurate', 'until_year_accurate'): kw[n] = 0
    kw['lower_truncated'] = kw['upper_truncated'] = False
    return at.TransformerResult(**kw)

def compile(text, scope='complete', start=2000, until=2100, ua=None, off=None, delta=None, strict=True, tiny=False, base=2100, include=()):
    from acetimetools.transformer.transformer import Transformer
    hi = scope == 'complete'
    tr = tresult(parse(text))
    t = Transformer(scope=scope, start_year=start, until_year=until, until_at_granularity=ua or (1 if hi else 60), offset_granularity=off or (1 if hi else 60),
        delta_granularity=delta or (60 if hi else 900), strict=strict, generate_tiny_years=tiny, tiny_base_year=base, include_list=set(include))
    t.transform(tr)
    return tr

def check(cond, msg):
    if not cond:
        print('BROKEN:', msg); sys.exit(1)

def run_main(text, *argv, include=None):
    """Runs the command line on one source text; returns {file name: content}."""
    class Z:
        def __init__(s, i): pass
        def init_for_year(s, y): pass
        def get_buffer_sizes(s):
            class B: active_size = 1; buffer_size = 2
            return B
        def is_terminal_year(s, y): return True
    stub_acetime(Z)
    import acetimetools.tzcompiler as tz
    d, o = tempfile.mkdtemp(prefix='demo-tz-'), tempfile.mkdtemp(prefix='demo-out-')
    old = sys.argv
    try:
        for f in FILES:
            with open(os.path.join(d, f), 'w', encoding='utf-8') as h: h.write(text if f == 'europe' else '')
        extra = []
        if include is not None:
            with open(os.path.join(d, 'include'), 'w') as h: h.write(include)
            extra = ['--include_list', os.path.join(d, 'include')]
        sys.argv = ['tzcompiler', '--input_dir', d, '--output_dir', o, '--tz_version', '2024a', '--db_namespace', 'zonedb', *extra, *argv]
        tz.main()
        return {f: open(os.path.join(o, f), encoding='utf-8').read() for f in os.listdir(o)}
    finally:
        sys.argv = old
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(o, ignore_errors=True)

def raises(fn):
    try: fn()
    except Exception: return True
    return False
