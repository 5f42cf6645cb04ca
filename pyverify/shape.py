"""Shape of the functions as they were when the contracts were written (shape.json): parameters, locals and loops.
Loop invariants and ghost assertions are annotations of a text, so they name its locals and number its loops. When a local or a
parameter has only been renamed, the annotations follow. When loops have been added, removed or moved, the annotations belong to a text that is
gone: what then cannot be shown is undecided (not a violation), and the bounded part stands in. Both only concern hints: what is claimed
(pre- and postconditions over parameters, result and state) does not change."""
import ast, json, os
FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shape.json')

def targets(t):
    if isinstance(t, ast.Name): return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)): return [x for e in t.elts for x in targets(e)]
    if isinstance(t, ast.Starred): return targets(t.value)
    return []
def shape(node):
    a = node.args
    params = [p.arg for p in a.args + a.kwonlyargs]
    loc, loops = {}, []
    def bind(t, v):
        for n in targets(t):
            if n not in params: loc.setdefault(n, v)
    def walk(stmts, depth):
        for s in stmts:
            if isinstance(s, ast.Assign):
                for t in s.targets: bind(t, ast.unparse(s.value))
            elif isinstance(s, ast.AnnAssign) and s.value is not None: bind(s.target, ast.unparse(s.value))
            elif isinstance(s, ast.AugAssign): bind(s.target, ast.unparse(s.value))
            elif isinstance(s, (ast.For, ast.While)):
                loops.append(('for' if isinstance(s, ast.For) else 'while') + str(depth))
                if isinstance(s, ast.For): bind(s.target, 'for ' + ast.unparse(s.iter))
                walk(s.body, depth + 1); walk(s.orelse, depth)
                continue
            elif isinstance(s, ast.With):
                for i in s.items:
                    if i.optional_vars is not None: bind(i.optional_vars, 'with')
            for f in ('body', 'orelse', 'finalbody'): walk(getattr(s, f, None) or [], depth)
            for h in getattr(s, 'handlers', []): walk(h.body, depth)
    walk(node.body, 0)
    return dict(params=params, locals=[[n, v] for n, v in loc.items()], loops=loops)
def functions(prog):
    for m in prog.modules.values():
        if not m.name.startswith(prog.package): continue
        for f in m.funcs.values(): yield f
        for c in m.classes.values():
            for f in c.methods.values(): yield f
_base = None
def base():
    global _base
    if _base is None:
        try: _base = json.load(open(FILE))
        except OSError: _base = {}
    return _base

def renamed(fi):
    """-> {old parameter: new}, {old local: new} of the function"""
    b = base().get(fi.qual)
    if b is None: return {}, {}
    s = shape(fi.node)
    if s == b: return {}, {}
    pm = {x: y for x, y in zip(b['params'], s['params']) if x != y} if len(b['params']) == len(s['params']) else {}
    old = [(n, v) for n, v in b['locals'] if n not in dict(s['locals'])]
    new = [(n, v) for n, v in s['locals'] if n not in dict(b['locals'])]
    lm = {}
    for n, v in list(old):          # same first value, else same order
        for m, w in new:
            if w == v and m not in lm.values(): lm[n] = m; break
    rest = [n for n, v in old if n not in lm]; more = [m for m, w in new if m not in lm.values()]
    if len(rest) == len(more): lm.update(zip(rest, more))
    return pm, lm

def called(node):
    return {(n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) for n in ast.walk(node) if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name))}
def reshaped(prog, con, inlined):
    """why the annotations do not belong to this text, or None"""
    fi = prog.func(con.qual)
    b = base()
    if fi is not None and con.qual in b:
        if shape(fi.node)['loops'] != b[con.qual]['loops'] and (con.loops or b[con.qual]['loops']): return f'{con.qual} has other loops than the ones annotated'
        lost = [k for k in con.after if k.split('#')[0] not in called(fi.node)]
        if lost: return f'{con.qual} no longer calls {lost[0]} itself'
    for q in sorted(inlined):
        f = prog.func(q)
        if f is None: continue
        l = shape(f.node)['loops']
        if l and (q not in b or b[q]['loops'] != l): return f'{q} is new or has other loops, and has no invariants'
    return None

if __name__ == '__main__':
    from .prog import Program
    prog = Program('/repo/src')
    json.dump({f.qual: shape(f.node) for f in functions(prog)}, open(FILE, 'w'), indent=0, sort_keys=True)
