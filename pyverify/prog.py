"""Loads the real source of /repo/src/acetimetools on every run: module ASTs,
functions, classes, TypedDicts, NamedTuples, dataclasses and type aliases.
Nothing is dropped or rewritten: the executor interprets these ASTs."""
import ast, os, importlib, sys, hashlib

EXT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'ext')

class Unsupported(Exception):
    pass

class FuncInfo:
    def __init__(self, mod, cls, node):
        self.mod, self.cls, self.node = mod, cls, node
        self.name = node.name
        self.qual = mod.short + ':' + ((cls.name + '.') if cls else '') + node.name
    def __repr__(self): return f'<fn {self.qual}>'

class ClassInfo:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.kind = 'class'
        self.methods = {}
        self.fields = {}       # name -> annotation AST (TypedDict/NamedTuple/dataclass)
        self.consts = {}       # class level assignments
        self.attr_types = None
        bases = [ast.unparse(b) for b in node.bases]
        if any('TypedDict' in b for b in bases): self.kind = 'rec'
        elif any('NamedTuple' in b for b in bases): self.kind = 'ntuple'
        elif any('dataclass' in ast.unparse(d) for d in node.decorator_list): self.kind = 'dataclass'
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = FuncInfo(mod, self, s)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields[s.target.id] = s.annotation
                if s.value is not None:
                    self.consts[s.target.id] = s.value
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value

class Module:
    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        self.short = name.split('.', 1)[1] if '.' in name else name
        self.src = open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.src, path)
        self.funcs, self.classes, self.aliases, self.imports = {}, {}, {}, {}
        self.assigns = {}
        for s in self.tree.body:
            self._top(s)
    def _top(self, s):
        if isinstance(s, ast.FunctionDef): self.funcs[s.name] = FuncInfo(self, None, s)
        elif isinstance(s, ast.ClassDef): self.classes[s.name] = ClassInfo(self, s)
        elif isinstance(s, ast.Import):
            for a in s.names: self.imports[a.asname or a.name.split('.')[0]] = (a.name if a.asname else a.name.split('.')[0], None)
        elif isinstance(s, ast.ImportFrom):
            m = s.module
            if s.level:          # relative to the package of this module
                pk = self.name.split('.') if os.path.basename(self.path) == '__init__.py' else self.name.split('.')[:-1]
                m = '.'.join(pk[:len(pk) - (s.level - 1)] + ([s.module] if s.module else []))
            for a in s.names: self.imports[a.asname or a.name] = (m, a.name)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            self.assigns[s.targets[0].id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            self.assigns[s.target.id] = s.value
        elif isinstance(s, (ast.If, ast.Try)):
            for b in s.body: self._top(b)

class Program:
    def __init__(self, root, package='acetimetools'):
        self.root, self.package = root, package
        self.modules = {}
        self._load(root, os.path.join(root, package))
        self._load(EXT, EXT)        # interfaces of libraries that are not installed (assumed contracts)
        self._tcache = {}
    def _load(self, root, base):
        for d, _, fs in os.walk(base):
            for f in sorted(fs):
                if not f.endswith('.py'): continue
                rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'): rel = rel[:-9]
                self.modules[rel] = Module(self, rel, os.path.join(d, f))
    def module(self, short):
        return self.modules[self.package + '.' + short]
    def func(self, qual):
        m, n = qual.split(':')
        mod = self.modules.get(self.package + '.' + m) or self.modules.get('acetime.' + m)
        if mod is None: return None
        if '.' in n:
            c, f = n.split('.')
            ci = mod.classes.get(c)
            return ci.methods.get(f) if ci else None
        return mod.funcs.get(n)
    def find_class(self, name):
        for m in self.modules.values():
            if name in m.classes: return m.classes[name]
        return None
    # ---- resolve a global name seen from a module
    def resolve(self, mod, name, depth=0):
        if name in mod.funcs: return ('func', mod.funcs[name])
        if name in mod.classes: return ('class', mod.classes[name])
        if name in mod.assigns: return ('assign', mod, name)
        if name in mod.imports:
            m, n = mod.imports[name]
            if n is None: return ('module', m)
            if m in self.modules and depth < 10:
                r = self.resolve(self.modules[m], n, depth + 1)
                if r: return r
            if (m + '.' + n) in self.modules: return ('module', m + '.' + n)
            return ('ext', m, n)
        return None
    # ---- types
    def never_stored(self, name):
        """the class attribute `name` is nowhere assigned or changed in place through an attribute"""
        if not hasattr(self, '_stored'):
            st = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load): st.add(n.attr)
                    v = n.value if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) else n.func.value if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) else n.target if isinstance(n, ast.AugAssign) else None
                    if isinstance(v, ast.Attribute): st.add(v.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr': st.add('*')
            self._stored = st
        return name not in self._stored and '*' not in self._stored
    def parse_type(self, node, mod):
        """annotation AST -> type tuple"""
        if node is None: return None
        if isinstance(node, ast.Constant):
            if node.value is None: return ('none',)
            if isinstance(node.value, str):
                return self.parse_type(ast.parse(node.value, mode='eval').body, mod)
        if isinstance(node, ast.Name):
            n = node.id
            if n in ('int', 'bool', 'str'): return (n,)
            if n == 'bytearray' or n == 'bytes': return ('list', ('int',), 'bytes')
            if n in ('Any', 'object'): return ('any',)
            if n == 'float': return ('any',)
            if n in ('TextIO',) and self.find_class(n): return self.class_type(self.find_class(n))
            if n in ('List', 'list'): return ('list', ('any',))
            if n in ('Dict', 'dict'): return ('dict', ('any',), ('any',))
            r = self.resolve(mod, n)
            if r is None:          # spec text may name a type its module does not import: unique by name over the program
                c = self.find_class(n)
                if c is None: raise Unsupported(f'type {n}')
                r = ('class', c)
            if r[0] == 'class': return self.class_type(r[1])
            if r[0] == 'assign':
                key = (r[1].name, r[2])
                if key not in self._tcache:
                    self._tcache[key] = self.parse_type(r[1].assigns[r[2]], r[1])
                return self._tcache[key]
            if r[0] == 'ext': return ('ext', r[2])
            raise Unsupported(f'type {n}')
        if isinstance(node, ast.Attribute):
            return ('ext', ast.unparse(node))
        if isinstance(node, ast.Subscript):
            b = node.value.id if isinstance(node.value, ast.Name) else node.value.attr
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            P = lambda x: self.parse_type(x, mod)
            if b in ('List', 'list'): return ('list', P(args[0]))
            if b in ('Iterable', 'Sequence'): return ('list', P(args[0]))
            if b in ('Set', 'set', 'Collection', 'FrozenSet'): return ('set', P(args[0]))
            if b in ('Dict', 'dict', 'OrderedDict', 'Mapping', 'DefaultDict'): return ('dict', P(args[0]), P(args[1]))
            if b == 'Counter': return ('dict', P(args[0]), ('int',))
            if b == 'Optional': return ('opt', P(args[0]))
            if b in ('Tuple', 'tuple'): return ('tuple', tuple(P(a) for a in args))
            if b == 'Union':
                ts = [P(a) for a in args]
                if ('none',) in ts and len(ts) == 2:
                    return ('opt', [t for t in ts if t != ('none',)][0])
                return ('any',)
            if b == 'Callable': return ('any',)
        raise Unsupported('type ' + ast.unparse(node))
    def class_type(self, ci):
        if ci.kind == 'rec': return ('rec', ci.name)
        if ci.kind == 'ntuple':
            return ('ntuple', ci.name, tuple((f, self.parse_type(a, ci.mod)) for f, a in ci.fields.items()))
        return ('obj', ci.name)
    def rec_fields(self, name):
        ci = self.find_class(name)
        return {f: self.parse_type(a, ci.mod) for f, a in ci.fields.items()}
    def infer_attr(self, e, at):
        """type of a simple expression over attributes of self already known, or None"""
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self': return at.get(e.attr)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            t = self.infer_attr(e.func.value, at)
            if t and e.func.attr == 'copy': return t
            if t and t[0] == 'dict' and e.func.attr == 'keys': return ('list', t[1])
            if t and t[0] == 'dict' and e.func.attr == 'values': return ('list', t[2])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'sorted') and len(e.args) >= 1:
            t = self.infer_attr(e.args[0], at)
            if t and t[0] in ('list', 'set', 'dict'): return ('list', t[1])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add): return self.infer_attr(e.left, at)
        return None
    def obj_attrs(self, name):
        """attribute name -> type for a class (dataclass fields, annotated or
        parameter-copied attributes assigned through self.)"""
        ci = self.find_class(name)
        if ci.attr_types is not None: return ci.attr_types
        out = {}
        ci.attr_types = out
        for f, a in ci.fields.items():
            try: out[f] = self.parse_type(a, ci.mod)
            except Unsupported: pass
        for m in ci.methods.values():
            params = {a.arg: a.annotation for a in m.node.args.args + m.node.args.kwonlyargs}
            for n in ast.walk(m.node):
                tgt = val = ann = None
                if isinstance(n, ast.AnnAssign): tgt, val, ann = n.target, n.value, n.annotation
                elif isinstance(n, ast.Assign) and len(n.targets) == 1: tgt, val = n.targets[0], n.value
                if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == 'self'): continue
                if tgt.attr in out: continue
                try:
                    if ann is not None: out[tgt.attr] = self.parse_type(ann, ci.mod)
                    elif isinstance(val, ast.Name) and params.get(val.id) is not None:
                        out[tgt.attr] = self.parse_type(params[val.id], ci.mod)
                    elif isinstance(val, ast.Attribute) and isinstance(val.value, ast.Name) and params.get(val.value.id) is not None:
                        t = self.parse_type(params[val.value.id], ci.mod)
                        if t[0] == 'obj':
                            at = self.obj_attrs(t[1])
                            if val.attr in at: out[tgt.attr] = at[val.attr]
                    elif isinstance(val, ast.Subscript) and isinstance(val.value, ast.Name) and params.get(val.value.id) is not None and isinstance(val.slice, ast.Constant):
                        t = self.parse_type(params[val.value.id], ci.mod)
                        if t[0] == 'rec':
                            ft = self.rec_fields(t[1])
                            if val.slice.value in ft: out[tgt.attr] = ft[val.slice.value]
                    elif self.infer_attr(val, out): out[tgt.attr] = self.infer_attr(val, out)
                    elif isinstance(val, ast.Constant) and type(val.value) in (int, bool, str):
                        out[tgt.attr] = (type(val.value).__name__,)
                    elif isinstance(val, ast.Call) and isinstance(val.func, ast.Name):
                        r = self.resolve(ci.mod, val.func.id)
                        if r and r[0] == 'func' and r[1].node.returns is not None:
                            out[tgt.attr] = self.parse_type(r[1].node.returns, r[1].mod)
                except Unsupported:
                    pass
        return out

def src_hash(root):
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith('.py'):
                h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()
