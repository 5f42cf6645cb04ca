"""Contracts and specification functions (sidecar files in /verif/contracts).
The same text is translated to logic by ev.py and executed by Python for the
concrete replay (concrete.py)."""
import ast, os, textwrap

def parse(text):
    return ast.parse(textwrap.dedent(text).strip(), mode='eval').body

class SpecFun:
    def __init__(s, name, params, anns, ret, body, opaque, reads=()):
        s.reads = list(reads)                # container types whose contents the function reads (arguments of the uninterpreted symbol)
        s.name, s.params, s.anns, s.retann, s.body, s.opaque = name, params, anns, ret, body, opaque
        s.rec = any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(body)) if body is not None else False
        s.types = [None] * len(params); s.ret = None

class Subst(ast.NodeTransformer):
    def __init__(s, m): s.m = m
    def visit_Name(s, n):
        return s.m[n.id] if n.id in s.m and isinstance(n.ctx, ast.Load) else n

def to_expr(stmts):
    if not stmts: raise ValueError('specification function without return')
    x = stmts[0]
    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant): return to_expr(stmts[1:])
    if isinstance(x, ast.Return): return x.value
    if isinstance(x, ast.Assign):
        return Subst({x.targets[0].id: x.value}).visit(to_expr(stmts[1:]))
    if isinstance(x, ast.If):
        a = to_expr(x.body)
        b = to_expr(x.orelse + stmts[1:] if not returns(x.orelse) else x.orelse)
        return ast.IfExp(test=x.test, body=a, orelse=b)
    raise ValueError('specification statement ' + ast.dump(x))
def returns(b):
    return bool(b) and isinstance(b[-1], (ast.Return,)) 

class Clause:
    def __init__(s, item):
        tags, text = (None, item) if isinstance(item, str) else item
        if isinstance(tags, str): tags = [t.strip() for t in tags.split(',')]
        s.tags, s.text = tags, ' '.join(text.split())
        s.kind, s.ghost = '', None          # of a ghost statement: forget FACT, assume FACT, unfold F(ARGS), ghost NAME = EXPR
        for k in ('forget ', 'assume ', 'unfold ', 'ghost '):
            if text.startswith(k): s.kind, text = k.strip(), text[len(k):]
        if s.kind == 'ghost': s.ghost, text = [x.strip() for x in text.split('=', 1)]
        s.tree = parse(text)
    def relevant(s, prop): return s.tags is None or prop is None or prop in s.tags

class Contract:
    def __init__(s, qual, requires=(), ensures=(), modifies=(), raises=(), loops=None, inline=False, allocs=False,
                 rettype=None, strmode=None, props=None, allow=(), assumes=(), trusted=False, note='', opts=None, cases=None, after=None, facts=(), ghost=None, types=None, calls=None):
        s.qual = qual
        s.requires = [Clause(x) for x in requires]
        s.ensures = [Clause(x) for x in ensures]
        s._modifies = list(modifies)
        s.raises = [(r, None) if isinstance(r, str) else (r[0], Clause(r[1]) if isinstance(r[1], (str, tuple)) else None) for r in raises]
        s.loops = {k: [Clause(x) for x in v] for k, v in (loops or {}).items()}
        s.inline, s.allocs, s.rettype, s.strmode = inline, allocs, rettype, strmode
        s.props = props          # properties for which this contract is a verification root
        s.allow = set(allow)
        s.trusted, s.note = trusted, note
        s.opts = opts or {}
        s.cases = cases
        s.calls = {k: [Clause(x) for x in v] for k, v in (calls or {}).items()}   # clauses about every call of a function; p_X is its parameter X
        s.types = dict(types or {})      # parameter -> type: the instance of a generic function that is proved (and used)
        s.facts = [(n, Clause(x)) for n, x in facts]      # (lemma proved in lemmas.py or 'lib:…', text)
        s.after = {k: [Clause(x) for x in v] for k, v in (after or {}).items()}   # ghost assertions after calls
        s.ghost = {k: [Clause(x) for x in v] for k, v in (ghost or {}).items()}   # ghost owner updates after calls: 'ghost REF = KEY'
    def rename(s, m, clauses):
        m = {k: ast.Name(v, ast.Load()) for k, v in m.items()}
        for c in clauses:
            c.tree = ast.fix_missing_locations(Subst(m).visit(c.tree))
            if c.ghost in m: c.ghost = m[c.ghost].id
    def rename_mods(s, m):
        import re
        f = lambda t: ':'.join(t.split(':')[:-1] + [re.sub(r'\b(%s)\b' % '|'.join(map(re.escape, m)), lambda x: m[x[0]], t.split(':')[-1])]) if not re.match(r'(type|new):', t) and t.split('.')[0] in m or t.startswith('at:') else t
        s._modifies = [f(x) if isinstance(x, str) else (x[0], f(x[1])) for x in s._modifies]
    def active(s, prop): return True
    def param_type(s, prog, p, mod):
        a = ast.parse(s.types[p.arg], mode='eval').body if p.arg in s.types else p.annotation
        return prog.parse_type(a, mod) if a is not None else None
    def req(s, prop): return [(c.text, c.tree) for c in s.requires if c.relevant(prop)]
    def ens(s, prop): return [(c.text, c.tree) for c in s.ensures if c.relevant(prop)]
    def loop_clauses(s, k, prop): return [(c.text, c.tree) for c in s.loops.get(k, ()) if c.relevant(prop)]
    def pool(s, prop):
        out, seen = [], set()
        for k in s.loops:
            for c in s.loops[k]:
                if c.relevant(prop) and c.text not in seen:
                    seen.add(c.text); out.append((c.text, c.tree))
        return out
    def modifies(s, prop):
        out = []
        for m in s._modifies:
            if isinstance(m, tuple):
                tags = [t.strip() for t in m[0].split(',')]
                if prop in tags: out.append(m[1])
            else: out.append(m)
        return out
    def raises_when(s, prop):
        return [(e, c.tree if c is not None and c.relevant(prop) else None) for e, c in s.raises]
    def tagged(s, prop):
        cs = s.requires + s.ensures + sum(s.loops.values(), []) + sum(s.after.values(), []) + sum(s.calls.values(), [])
        return any(c.tags and prop in c.tags for c in cs)

class Specs:
    def __init__(s):
        s.rec_types, s.attr_types, s.contracts, s.funcs, s.consts = {}, {}, {}, {}, {}
        s.env = {}
        s.sources = {}
    def load_dir(s, d):
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'): s.load(os.path.join(d, f))
        return s
    def load(s, path):
        src = open(path).read()
        tree = ast.parse(src, path)
        def contract(qual, **kw):
            if qual in s.contracts: raise ValueError('duplicate contract ' + qual)
            s.contracts[qual] = Contract(qual, **kw)
        def spec(f=None, **kw):
            return f if f is not None else (lambda g: g)
        def attrs(cls, **kw): s.attr_types.setdefault(cls, {}).update(kw)
        import typing
        s.env.update({n: getattr(typing, n) for n in ('List', 'Dict', 'Set', 'Optional', 'Tuple')}, contract=contract, spec=spec, attrs=attrs, extend=lambda q, **kw: s.extend(q, **kw))
        for x in tree.body:
            if isinstance(x, ast.FunctionDef) and any(ast.unparse(d).startswith('spec') for d in x.decorator_list):
                opaque = any('opaque=True' in ast.unparse(d) for d in x.decorator_list)
                body = to_expr(x.body)
                reads = next((ast.literal_eval(k.value) for d in x.decorator_list if isinstance(d, ast.Call) for k in d.keywords if k.arg == 'reads'), ())
                s.funcs[x.name] = SpecFun(x.name, [a.arg for a in x.args.args], [a.annotation for a in x.args.args], x.returns, body, opaque, reads)
            elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id.isupper():
                try: s.consts[x.targets[0].id] = ast.literal_eval(x.value)
                except ValueError: pass
        exec(compile(tree, path, 'exec'), s.env)
    def extend(s, qual, **kw):
        c = s.contracts[qual]
        c.requires += [Clause(x) for x in kw.get('requires', ())]
        c.ensures += [Clause(x) for x in kw.get('ensures', ())]
        c._modifies += list(kw.get('modifies', ()))
        for k, v in kw.get('loops', {}).items(): c.loops.setdefault(k, []).extend(Clause(x) for x in v)
        if kw.get('props'): c.props = list(c.props or []) + list(kw['props'])
    def link(s, prog):
        mod = prog.module('datatypes.attyping')
        for f in s.funcs.values():
            if f.rec or f.opaque:
                f.types = [prog.parse_type(a, mod) if a is not None else None for a in f.anns]
                f.ret = prog.parse_type(f.retann, mod)
                f.readt = [prog.parse_type(parse(t), mod) for t in f.reads]
        from . import shape
        for q, c in s.contracts.items():
            fi = prog.func(q)
            if fi is None: continue
            pm, lm = shape.renamed(fi)
            if pm: c.rename(pm, list(c.requires) + c.ensures + [x for _, x in c.raises if x is not None] + [x for _, x in c.facts]); c.rename_mods(pm)
            if pm or lm: c.rename(dict(pm, **lm), sum(c.loops.values(), []) + sum(c.after.values(), []) + sum(c.ghost.values(), []) + sum(c.calls.values(), []))
        return s
