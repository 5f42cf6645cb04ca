"""Symbolic values, sorts, string theories and the typed heap."""
import z3
from .prog import Unsupported

RefS = z3.IntSort()
I, B = z3.IntSort(), z3.BoolSort()

class V:
    pass
class VInt(V):
    def __init__(s, e): s.e = z3.IntVal(e) if isinstance(e, int) else e
    def __repr__(s): return f'VInt({s.e})'
class VBool(V):
    def __init__(s, e): s.e = z3.BoolVal(e) if isinstance(e, bool) else e
    def __repr__(s): return f'VBool({s.e})'
class VStr(V):
    def __init__(s, e): s.e = e
    def __repr__(s): return f'VStr({s.e})'
class VNone(V):
    def __repr__(s): return 'VNone'
class VTuple(V):
    def __init__(s, items, names=None, tname=None): s.items, s.names, s.tname = list(items), names, tname
    def __repr__(s): return f'VTuple({s.items})'
class VOpt(V):
    """isnone flag plus a value valid when the flag is false"""
    def __init__(s, none, v): s.none, s.v = none, v
    def __repr__(s): return f'VOpt({s.none},{s.v})'
class VRef(V):
    def __init__(s, e, t): s.e, s.t = e, t
    def __repr__(s): return f'VRef({s.e}:{tname(s.t)})'
class VUndef(V):
    pass
class VMaybe(V):
    """possibly unbound local variable"""
    def __init__(s, d, v): s.d, s.v = d, v
class VFun(V):
    def __init__(s, kind, *data): s.kind, s.data = kind, data
class VDate(V):
    def __init__(s, y, m, d): s.y, s.m, s.d = y, m, d
class VExc(V):
    def __init__(s, name, args=()): s.name, s.args = name, args
class VConst(V):
    """a concrete Python container from module level (dict / list / set / tuple)"""
    def __init__(s, v): s.v = v
class VTypeC(V):
    pass

def tname(t):
    k = t[0]
    if k in ('int', 'bool', 'str', 'none', 'any'): return k
    if k == 'list': return f"list[{tname(t[1])}]" + ('b' if len(t) > 2 else '')
    if k == 'set': return f"set[{tname(t[1])}]"
    if k == 'dict': return f"dict[{tname(t[1])},{tname(t[2])}]"
    if k == 'opt': return f"opt[{tname(t[1])}]"
    if k in ('rec', 'obj', 'ext'): return t[1]
    if k == 'tuple': return '(' + ','.join(tname(x) for x in t[1]) + ')'
    if k == 'ntuple': return t[1]
    if k == 'tv': return f'?{t[1]}'
    raise Unsupported('tname ' + str(t))

REFKINDS = ('list', 'set', 'dict', 'rec', 'obj', 'any', 'ext')

class StrTheory:
    """mode 'native': z3 strings.  mode 'abs': an uninterpreted sort with
    uninterpreted operations and a rank embedding for the order (sound: every
    fact used is true of Python strings)."""
    def __init__(self, mode):
        self.mode = mode
        if mode == 'native':
            self.S = z3.StringSort()
        else:
            self.S = z3.DeclareSort('Str')
        S = self.S
        self.lits, self.litids = {}, {}
        F = lambda n, *s: z3.Function('py.' + n, *s)
        self.rank = F('rank', S, z3.RealSort())
        self.unrank = F('unrank', z3.RealSort(), S)
        self.flen = F('len', S, I)
        self.fcat = F('cat', S, S, S)
        self.fcontains = F('contains', S, S, B)
        self.ffind = F('find', S, S, I)
        self.fslice = F('slice', S, I, I, S)
        self.frepl = F('replace', S, S, S, S)
        self.isdigit = F('isdigit', S, B)
        self.isspace = F('isspace', S, B)
        self.int_ok = F('int_ok', S, B)
        self.to_int = F('to_int', S, I)
        self.of_int = F('of_int', I, S)
        self.nsplit = F('nsplit', S, S, I)
        self.insplit = F('insplit', S, S, S, B)       # the third is one of the parts
        self.part = F('part', S, S, I, S)
        self.nsplitw = F('nsplitw', S, I)
        self.partw = F('partw', S, I, S)
        self.isword = F('isword', S, B)
        self.chr = F('chr', I, S)
        self.ford = F('ord', S, I)
        self.lower = F('lower', S, S); self.upper = F('upper', S, S)
        self.strip = F('strip', S, S); self.rstrip = F('rstrip', S, S); self.lstrip = F('lstrip', S, S)
        self.resub = F('resub', S, S, S, S)
        self.pathjoin = F('pathjoin', S, S, S)
        self.ucache = {}
    def lit(self, s):
        if self.mode == 'native': return z3.StringVal(s)
        if s not in self.lits:
            c = self.lits[s] = z3.Const(f'lit!{len(self.lits)}!' + ''.join(c if c.isascii() and c.isalnum() else '_' for c in s)[:30], self.S)
            self.litids[c.get_id()] = s
        return self.lits[s]
    def litval(self, e):
        """python string if e is a literal, else None"""
        if self.mode == 'native':
            if z3.is_string_value(e):
                r = e.as_string()
                import re
                return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), r)
            return None
        return self.litids.get(e.get_id())
    def axioms(self):
        if self.mode == 'native': return []
        self.lit('')
        if getattr(self, '_ax', (None,))[0] != len(self.lits): self._ax = (len(self.lits), self.axioms_())
        return self._ax[1]
    def axioms_(self):
        out = []
        self.lit('')
        ls = sorted(self.lits)
        if len(ls) > 1:
            out.append(z3.Distinct(*[self.lits[l] for l in ls]))
            for a, b in zip(ls, ls[1:]):
                out.append(self.rank(self.lits[a]) < self.rank(self.lits[b]))
        for l in ls:
            c = self.lits[l]
            out.append(self.flen(c) == len(l))
            try:
                v = int(l); ok = True
            except ValueError: ok = False
            out.append(self.int_ok(c) == ok)
            if ok: out.append(self.to_int(c) == int(l))
            out.append(self.isdigit(c) == l.isdigit())
        x = z3.Const('x!s', self.S)
        out.append(z3.ForAll([x], self.unrank(self.rank(x)) == x, patterns=[self.rank(x)], qid='str_rank'))
        out.append(z3.ForAll([x], z3.And(self.flen(x) >= 0, (self.flen(x) == 0) == (x == self.lit(''))),
                             patterns=[self.flen(x)], qid='str_len'))
        if '' in self.lits:
            out.append(z3.ForAll([x], self.rank(self.lits['']) <= self.rank(x), patterns=[self.rank(x)], qid='str_min'))
        y = z3.Const('y!s', self.S)
        out.append(z3.ForAll([x, y], z3.And(self.ffind(x, y) >= -1, (self.ffind(x, y) >= 0) == self.fcontains(x, y)),
                             patterns=[self.ffind(x, y)], qid='str_find'))
        k = z3.Const('k!s', z3.IntSort()); h = z3.Const('h!s', z3.IntSort())
        n, sl = self.flen(x), self.fslice(x, k, h)
        out.append(z3.ForAll([x, k, h], z3.Implies(z3.And(0 <= k, k <= h), self.flen(sl) == z3.If(n <= k, 0, z3.If(n < h, n, h) - k)), patterns=[self.flen(sl)], qid='str_slicelen'))
        sl = self.fslice(self.fslice(x, z3.IntVal(0), h), z3.IntVal(0), k)
        out.append(z3.ForAll([x, k, h], z3.Implies(z3.And(0 <= k, k <= h), sl == self.fslice(x, z3.IntVal(0), k)), patterns=[sl], qid='str_slice2'))
        out.append(z3.ForAll([x, k], z3.Implies(z3.And(0 <= k, k < self.nsplitw(x)), z3.And(self.isword(self.partw(x, k)), self.partw(x, k) != self.lits[''])),
                             patterns=[self.partw(x, k)], qid='str_words'))
        return out
    def length(self, a):
        l = self.litval(a)
        if l is not None: return z3.IntVal(len(l))
        return z3.Length(a) if self.mode == 'native' else self.flen(a)
    def cat(self, a, b):
        la, lb = self.litval(a), self.litval(b)
        if la is not None and lb is not None: return self.lit(la + lb)
        if la == '': return b
        if lb == '': return a
        return z3.Concat(a, b) if self.mode == 'native' else self.fcat(a, b)
    def lt(self, a, b):
        la, lb = self.litval(a), self.litval(b)
        if la is not None and lb is not None: return z3.BoolVal(la < lb)
        return (a < b) if self.mode == 'native' else self.rank(a) < self.rank(b)
    def le(self, a, b):
        return (a <= b) if self.mode == 'native' else self.rank(a) <= self.rank(b)
    def contains(self, a, b):
        """b in a"""
        la, lb = self.litval(a), self.litval(b)
        if la is not None and lb is not None: return z3.BoolVal(lb in la)
        return z3.Contains(a, b) if self.mode == 'native' else self.fcontains(a, b)
    def find(self, a, b):
        if self.mode == 'native': return z3.IndexOf(a, b, 0)
        return self.ffind(a, b)
    def startswith(self, a, b):
        lb = self.litval(b)
        if self.mode == 'native': return z3.PrefixOf(b, a)
        if lb is not None:
            return self.fslice(a, z3.IntVal(0), z3.IntVal(len(lb))) == b
        raise Unsupported('startswith')
    def endswith(self, a, b):
        if self.mode == 'native': return z3.SuffixOf(b, a)
        raise Unsupported('endswith')
    def slice(self, a, lo, hi):
        """a[lo:hi] with lo, hi z3 ints or None (Python clamping semantics)"""
        la = self.litval(a)
        n = self.length(a)
        if self.mode == 'native':
            def norm(x, d):
                if x is None: return d
                x = z3.simplify(x)
                if z3.is_int_value(x):
                    c = x.as_long()
                    return z3.If(n < c, n, x) if c >= 0 else z3.If(n + c < 0, z3.IntVal(0), n + c)
                y = z3.If(x < 0, x + n, x)
                return z3.If(y < 0, z3.IntVal(0), z3.If(y > n, n, y))
            L, H = norm(lo, z3.IntVal(0)), norm(hi, n)
            return z3.simplify(z3.If(H > L, z3.SubString(a, L, H - L), z3.StringVal('')))
        if lo is None: lo = z3.IntVal(0)
        if hi is None: hi = z3.IntVal(2**62)
        return self.fslice(a, z3.simplify(lo), z3.simplify(hi))
    def char(self, a, i):
        if self.mode == 'native': return z3.SubString(a, i, z3.IntVal(1))
        return self.fslice(a, z3.simplify(i), z3.simplify(i + 1))
    def ordc(self, a):
        l = self.litval(a)
        if l is not None and len(l) == 1: return z3.IntVal(ord(l))
        return self.ford(a)
    def replace(self, a, b, c):
        la, lb, lc = self.litval(a), self.litval(b), self.litval(c)
        if None not in (la, lb, lc): return self.lit(la.replace(lb, lc))
        return self.frepl(a, b, c)
    def uf(self, name, args, ret=None):
        """uninterpreted function for a string template (f-string, % formatting)"""
        key = (name, tuple(str(a.sort()) for a in args))
        if key not in self.ucache:
            self.ucache[key] = z3.Function(f'fmt!{len(self.ucache)}', *[a.sort() for a in args], ret or self.S)
        f = self.ucache[key]
        return f(*args) if args else z3.Const(f'fmtc!{name}', ret or self.S)

def is_true(e): return z3.is_true(e)
def is_false(e): return z3.is_false(e)

def And(*xs):
    ys = []
    for x in xs:
        if z3.is_true(x): continue
        if z3.is_false(x): return z3.BoolVal(False)
        ys.append(x)
    if not ys: return z3.BoolVal(True)
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def Or(*xs):
    ys = []
    for x in xs:
        if z3.is_false(x): continue
        if z3.is_true(x): return z3.BoolVal(True)
        ys.append(x)
    if not ys: return z3.BoolVal(False)
    return ys[0] if len(ys) == 1 else z3.Or(*ys)
def Not(x):
    if z3.is_true(x): return z3.BoolVal(False)
    if z3.is_false(x): return z3.BoolVal(True)
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return z3.BoolVal(True)
    if z3.is_false(b): return Not(a)
    return z3.Implies(a, b)
def If(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)

def distinct_terms(i, j, strth=None):
    if i.eq(j): return False
    if i.sort() == I:
        d = z3.simplify(i - j)
        return z3.is_int_value(d) and d.as_long() != 0
    if strth is not None and i.sort() == strth.S:
        a, b = strth.litval(i), strth.litval(j)
        return a is not None and b is not None and a != b
    return False

def sel(arr, idx, strth=None):
    while True:
        if z3.is_store(arr) and arr.num_args() == 3:
            i = arr.arg(1)
            if i.eq(idx): return arr.arg(2)
            if distinct_terms(i, idx, strth):
                arr = arr.arg(0); continue
        elif z3.is_K(arr):
            return arr.arg(0)
        return z3.Select(arr, idx)

def _badpat(t):
    todo = [t]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_ITE: return True
            if z3.is_bool(x) and x.num_args() > 0 and k not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT): return True
        todo += x.children()
    return False
def FA(vs, body, patterns=(), qid=''):
    """ForAll with the patterns that z3 accepts"""
    if z3.is_true(body): return body
    ps = []
    for p in patterns:
        if isinstance(p, z3.PatternRef) or not _badpat(p): ps.append(p)
    kw = {'qid': qid} if qid else {}
    try:
        return z3.ForAll(vs, body, patterns=ps, **kw) if ps else z3.ForAll(vs, body, **kw)
    except z3.Z3Exception:
        return z3.ForAll(vs, body, **kw)
