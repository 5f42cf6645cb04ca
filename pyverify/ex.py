"""Symbolic executor and verification-condition generator over the real AST."""
import ast, itertools, time
import z3
from .prog import Program, Unsupported, FuncInfo, ClassInfo
from .vals import *
from .vals import And, Or, Not, Implies, If

class Restart(Exception):
    pass

class St:
    __slots__ = ('vars', 'heap', 'pc', 'alloc', 'old', 'pre', 'extra')
    def __init__(s, vars=None, heap=None, pc=None, alloc=None):
        s.vars = vars if vars is not None else {}
        s.heap = heap if heap is not None else {}
        s.pc = pc if pc is not None else []
        s.alloc = alloc
        s.old = None; s.pre = None; s.extra = {}
    def copy(s):
        n = St(dict(s.vars), dict(s.heap), list(s.pc), s.alloc)
        n.old, n.pre, n.extra = s.old, s.pre, s.extra
        return n

class Oblig:
    def __init__(s, name, pc, goal, kind, line=None, ax=None):
        s.name, s.pc, s.goal, s.kind, s.line = name, pc, goal, kind, line
        s.ok = None; s.why = None; s.t = 0.0; s.model = None; s.backend = None

class IterSeq:
    """n items; get(i) -> Value; fresh facts; optional key enumeration"""
    def __init__(s, n, get, key_of=None, dom=None, keyat=None, idxof=None, stable=(), desc=''):
        s.n, s.get, s.dom, s.keyat, s.idxof, s.stable, s.desc = n, get, dom, keyat, idxof, stable, desc

class LoopCtx:
    def __init__(s, seq, i): s.seq, s.i = seq, i

ANYREF = z3.Const('ANYREF', z3.IntSort())
BUILTIN_EXC = ('Exception', 'ValueError', 'KeyError', 'IndexError', 'TypeError', 'AssertionError', 'RuntimeError')

class _Ren(ast.NodeTransformer):
    def __init__(s, a, b): s.a, s.b = a, b
    def visit_Name(s, n): return ast.copy_location(ast.Name(id=s.b, ctx=n.ctx), n) if n.id == s.a else n
def unfilter(c):
    """[e for x in filter(lambda y: c(y), it)]  ==  [e for x in it if c(x)]   (in place)"""
    if not isinstance(c, ast.ListComp): return
    for g in c.generators:
        i = g.iter
        if (isinstance(i, ast.Call) and isinstance(i.func, ast.Name) and i.func.id == 'filter' and len(i.args) == 2 and isinstance(i.args[0], ast.Lambda)
                and len(i.args[0].args.args) == 1 and isinstance(g.target, ast.Name)):
            g.ifs.insert(0, _Ren(i.args[0].args.args[0].arg, g.target.id).visit(i.args[0].body))
            g.iter = i.args[1]

class Ex:
    MAXINLINE = 12
    def __init__(s, prog, specs, fn, strmode='abs', prop=None, opts=None):
        s.prog, s.specs, s.fn, s.prop = prog, specs, fn, prop
        s.strth = StrTheory(strmode)
        s.obligs = []
        s.nfresh = 0
        s.init = {}          # component -> initial array constant
        s.comp_sorts = {}
        s.spec = 0           # >0: evaluating a specification expression
        s.dry = 0            # >0: obligations suppressed
        s.wlogs = []         # write logs (for loop havoc)
        s.fresh_refs = []    # list of sets (per active loop) of refs allocated in body
        s.pending = []
        s.watched, s.opaque_calls, s.escaped, s.options = set(), set(), [], []
        s.try_depth = 0
        s.callstack = []
        s.axioms = []
        s.witnesses = set()
        s.loopstack = []
        s.site_types = {}
        s.loop_counter = {}
        s.rev = set()
        s.recapps = {}
        s.used_contracts = set()
        s.inlined = set()
        s.assumed = set(); s.lemmas_used = set()
        s.keysorts = {}
        s.globals_cache = {}
        s.qn = 0
        s.opts = opts or {}
        s.solver_time = 0.0
        s.queries = 0
        s.bound_depth = 0
        s.houdini = True
        s.hmemo = {}; s.scouting = 0
        s.reveal = ()          # opaque specification functions whose definition this contract uses
        s.freemods = set()     # record fields the contract under verification may change in any object
        s.pool_mode = False
        s.allow_implicit = set()
        s.cur_node = None
        s.local_hints = {}
        s.comp_types = {}
        s.clock, s.births, s.closedat, s.knownat, s.partat, s.sincememo = 0, {}, {}, {}, {}, {}
        s.allocated = []     # references allocated by the text under verification
        s.alloc0 = z3.Const('alloc0', I)
        s.assumed = set()
        s.track, s.specmemo, s.constmemo = None, {}, {}
        s.unfolding, s.recaxioms, s.unfolded, s.keep = [], [], set(), []

    # ------------------------------------------------------------ utilities
    def fresh(s, name, sort):
        s.nfresh += 1
        return z3.Const(f'{name}!{s.nfresh}', sort)
    def lit(s, x): return s.strth.lit(x)
    def unsupported(s, msg, node=None):
        raise Unsupported(f"{msg} (line {getattr(node, 'lineno', '?')} in {s.callstack[-1].qual if s.callstack else '?'})")
    def oblige(s, st, goal, kind, name, node=None):
        if s.spec: return
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(g): 
            if not s.dry: s.trivial = getattr(s, 'trivial', 0) + 1
            return
        if not s.dry:
            line = getattr(node, 'lineno', None)
            s.obligs.append(Oblig(name, list(st.pc), goal, kind, line))
        st.pc.append(goal)
    def implicit(s, st, bad, exc, node, what):
        """operation raises exc when `bad` holds"""
        if s.spec: return
        bad = z3.simplify(bad)
        if z3.is_false(bad): return
        if s.try_depth > 0 or exc in s.allow_implicit:
            s2 = st.copy(); s2.pc.append(bad)
            s.pending.append(('raise', s2, VExc(exc)))
            st.pc.append(Not(bad))
        else:
            fn = s.callstack[-1].qual if s.callstack else s.fn.qual
            s.oblige(st, Not(bad), 'no-' + exc, f"{fn}: no {exc}: {what}", node)

    # ------------------------------------------------------------ types/heap
    def tsort(s, t):
        k = t[0]
        if k == 'int': return I
        if k == 'bool': return B
        if k == 'str': return s.strth.S
        if k in REFKINDS: return I
        if k in ('tuple', 'ntuple'):
            return s.tuple_sort(t)[0]
        raise Unsupported('sort ' + tname(t))
    def tuple_sort(s, t):
        n = tname(('tuple', s.telems(t)))
        if n not in s.keysorts:
            sorts = [s.tsort(x) for x in s.telems(t)]
            s.keysorts[n] = z3.TupleSort('T' + n, sorts)
        return s.keysorts[n]
    def telems(s, t):
        if t[0] == 'tuple': return tuple(t[1])
        return tuple(x for _, x in t[2])
    def flat(s, t):
        """list of (suffix, sort)"""
        k = t[0]
        if k == 'none': return []
        if k == 'opt': return [('?', B)] + s.flat(t[1])
        if k in ('tuple', 'ntuple'):
            out = []
            for i, x in enumerate(s.telems(t)):
                out += [(f'.{i}{suf}', so) for suf, so in s.flat(x)]
            return out
        if k == 'tv': raise Restart()
        return [('', s.tsort(t))]
    def regref(s, prefix, t):
        """remember which heap components hold references"""
        k = t[0]
        if k == 'opt': return s.regref(prefix, t[1])
        if k in ('tuple', 'ntuple'):
            for i, x in enumerate(s.telems(t)): s.regref(f'{prefix}.{i}', x)
        elif k in REFKINDS: s.comp_types[prefix] = t
    def pack(s, t, es):
        """list of exprs -> Value"""
        es = list(es)
        v = s._pack(t, es)
        assert not es
        return v
    def _pack(s, t, es):
        k = t[0]
        if k == 'none': return VNone()
        if k == 'opt':
            n = es.pop(0); return VOpt(n, s._pack(t[1], es))
        if k == 'tuple': return VTuple([s._pack(x, es) for x in t[1]])
        if k == 'ntuple': return VTuple([s._pack(x, es) for _, x in t[2]], [f for f, _ in t[2]], t[1])
        e = es.pop(0)
        if k == 'int': return VInt(e)
        if k == 'bool': return VBool(e)
        if k == 'str': return VStr(e)
        return VRef(e, t)
    def unpack(s, v, t, node=None):
        """Value -> list of exprs according to type t"""
        k = t[0]
        if isinstance(v, VMaybe): v = v.v
        if k == 'none': return []
        if k == 'opt':
            if isinstance(v, VNone):
                return [z3.BoolVal(True)] + [s.default(so) for _, so in s.flat(t[1])]
            if isinstance(v, VOpt):
                return [v.none] + s.unpack(v.v, t[1])
            return [z3.BoolVal(False)] + s.unpack(v, t[1])
        if isinstance(v, VOpt):
            # value known not None by static typing; runtime None would be a type error
            return s.unpack(v.v, t)
        if k in ('tuple', 'ntuple'):
            if not isinstance(v, VTuple): s.unsupported(f'tuple expected, got {v}', node)
            ts = s.telems(t)
            if len(ts) != len(v.items): s.unsupported('tuple arity', node)
            out = []
            for x, tt in zip(v.items, ts): out += s.unpack(x, tt)
            return out
        if k == 'int': return [s.as_int(v)]
        if k == 'bool': return [s.truth_pure(v)]
        if k == 'str':
            if not isinstance(v, VStr): s.unsupported(f'str expected, got {v}', node)
            return [v.e]
        if isinstance(v, VConst): 
            s.unsupported('const container stored', node)
        if not isinstance(v, VRef): s.unsupported(f'ref expected for {tname(t)}, got {v}', node)
        s.unify(v.t, t)
        return [v.e]
    def default(s, so):
        if so == I: return z3.IntVal(0)
        if so == B: return z3.BoolVal(False)
        if so == s.strth.S: return s.lit('')
        return z3.Const('dflt!' + str(so), so)
    def unify(s, a, b):
        """resolve type variables of container literals; raises Restart when a
        new site type is learnt"""
        if a == b: return
        if a[0] == 'any' or b[0] == 'any': return
        for x, y in ((a, b), (b, a)):
            if x[0] == 'tv':
                if s.site_types.get(x[1]) is None:
                    if s.has_tv(y): return
                    s.site_types[x[1]] = y
                    raise Restart()
                return
        if a[0] == b[0] and a[0] in ('list', 'set', 'dict', 'opt'):
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, tuple) and isinstance(y, tuple): s.unify(x, y)
            return
        if a[0] in ('tuple', 'ntuple') and b[0] in ('tuple', 'ntuple'):
            for x, y in zip(s.telems(a), s.telems(b)): s.unify(x, y)
            return
        if {a[0], b[0]} <= {'int', 'bool'}: return
        raise Unsupported(f'type mismatch {tname(a)} vs {tname(b)}')
    def has_tv(s, t):
        if t[0] == 'tv': return True
        return any(s.has_tv(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) or \
            (t[0] == 'tuple' and any(s.has_tv(x) for x in t[1]))
    def typeof(s, v):
        if isinstance(v, VInt): return ('int',)
        if isinstance(v, VBool): return ('bool',)
        if isinstance(v, VStr): return ('str',)
        if isinstance(v, VNone): return ('none',)
        if isinstance(v, VTuple):
            if v.tname: return ('ntuple', v.tname, tuple(zip(v.names, [s.typeof(x) for x in v.items])))
            return ('tuple', tuple(s.typeof(x) for x in v.items))
        if isinstance(v, VOpt): return ('opt', s.typeof(v.v))
        if isinstance(v, VRef): return v.t
        if isinstance(v, VMaybe): return s.typeof(v.v)
        return ('any',)
    def fresh_val(s, name, t):
        if t[0] == 'none': return VNone()
        return s.pack(t, [s.fresh(name + suf, so) for suf, so in s.flat(t)])

    def hget(s, st, comp, sort):
        s.comp_sorts[comp] = sort
        if s.track is not None: s.track[0].add(comp)
        a = st.heap.get(comp)
        if a is None:
            a = s.init.get(comp)
            if a is None:
                a = s.init[comp] = z3.Const('H0.' + comp, sort)
                if comp.startswith('list[') and comp.endswith('.len'): s.axioms.append(s.lens_fact(a))
                if s.comp_is_ref(comp):
                    s.axioms.append(s.closed_fact(a, s.alloc0))
                    s.closedat[a.get_id()] = (0, a)
        return a
    # heap closedness: references stored anywhere in the heap are allocated
    def comp_is_ref(s, comp):
        return comp in s.comp_types
    def closed_fact(s, a, alloc):
        r = s.bv('r', I)
        x = z3.Select(a, r)
        vs = [r]
        if z3.is_array(x):
            k = s.bv('k', x.sort().domain()); vs.append(k); x = z3.Select(x, k)
        return FA(vs, Implies(r < alloc, And(0 < x, x < alloc)), patterns=[x], qid='closed')
    def closed(s, st, comp, part=None):
        """facts about a heap component with fresh content: references are allocated, lengths are not negative.
        part: only the content at some reference is fresh"""
        a = st.heap[comp]
        lens = comp.startswith('list[') and comp.endswith('.len')
        if part is not None:
            if lens: st.pc.append(part >= 0)
            if s.comp_is_ref(comp):
                if z3.is_array(part):
                    k = s.bv('k', part.sort().domain()); x = z3.Select(part, k)
                    st.pc.append(FA([k], And(0 < x, x < st.alloc), patterns=[x], qid='closed'))
                else: st.pc.append(And(0 < part, part < st.alloc))
                s.partat[part.get_id()] = (s.tick(), part)
            return
        if lens: st.pc.append(s.lens_fact(a))
        if s.comp_is_ref(comp):
            st.pc.append(s.closed_fact(a, st.alloc))
            s.closedat.setdefault(a.get_id(), (s.tick(), a))
    def lens_fact(s, a):
        r = s.bv('r', I)
        return FA([r], z3.Select(a, r) >= 0, patterns=[z3.Select(a, r)], qid='lens')
    def hset(s, st, comp, ref, val, sort):
        a = s.hget(st, comp, sort)
        st.heap[comp] = z3.Store(a, ref, val)
        s.log(comp, ref)
    def log(s, comp, ref):
        for w in s.wlogs: w.append((comp, ref))
    def hsel(s, st, comp, ref, sort):
        a = s.hget(st, comp, sort)
        while z3.is_store(a) and not a.arg(1).eq(ref) and s.apart(a.arg(1), ref): a = a.arg(0)
        return sel(a, ref, s.strth)
    # --- allocation order: a reference known to exist before another was created differs from it.
    # clock ticks at allocations and at points where a fresh heap array is known closed; births holds the first
    # tick a term was handed out by alloc, sinceall the tick at which an array's references were known allocated.
    def tick(s):
        s.clock += 1
        return s.clock
    def apart(s, a, b):
        for x, y in ((a, b), (b, a)):
            w = s.births.get(x.get_id())
            if w is not None:
                k = s.since(y)
                if k is not None and k < w[0]: return True
        return False
    def since(s, t, depth=0):
        """an upper bound of the tick by which reference t was allocated; None when unknown"""
        m = s.sincememo.get(t.get_id())
        if m is not None: return m[0]
        k = None
        w = s.births.get(t.get_id())
        if w is not None: return w[1]
        w = s.knownat.get(t.get_id()) or s.partat.get(t.get_id())
        if w is not None: return w[0]
        if depth < 30 and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT:
            a, i = t.arg(0), t.arg(1)
            w = s.partat.get(a.get_id())
            if w is not None: k = w[0]
            else:
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SELECT: a, i = a.arg(0), a.arg(1)
                r = s.since(i, depth + 1)
                c = s.contents(a, depth + 1)
                if r is not None and c is not None: k = max(r, c)
        s.sincememo[t.get_id()] = (k, t)
        return k
    def contents(s, a, depth=0):
        """the tick by which every reference stored in heap array a (at allocated objects) was allocated"""
        w = s.closedat.get(a.get_id())
        if w is not None: return w[0]
        if depth < 30 and z3.is_store(a):
            v = a.arg(2)
            c = s.contents(a.arg(0), depth + 1)
            if c is None: return None
            while z3.is_store(v):
                k = s.since(v.arg(2), depth + 1)
                if k is None: return None
                c = max(c, k); v = v.arg(0)
            if v.get_id() in s.partat: return max(c, s.partat[v.get_id()][0])
            if z3.is_array(v):
                if not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SELECT): return None
                r, k = s.since(v.arg(1), depth + 1), s.contents(v.arg(0), depth + 1)
                if r is None or k is None: return None
                return max(c, r, k)
            k = s.since(v, depth + 1)
            return None if k is None else max(c, k)
        return None
    def A(s, *so):
        r = so[-1]
        for x in reversed(so[:-1]): r = z3.ArraySort(x, r)
        return r
    def alloc(s, st, t):
        r = st.alloc
        st.alloc = z3.simplify(st.alloc + 1)
        for fr in s.fresh_refs: fr.append(r)
        s.allocated.append(r)
        k = s.tick(); w = s.births.get(r.get_id())
        s.births[r.get_id()] = (w[0] if w else k, k, r)
        s.sincememo = {}
        return VRef(r, t)
    def ordered(s, t):
        return t[0] == 'dict' and (t[2][0] in ('int', 'str', 'tuple', 'ntuple') or t[2] == ('list', ('str',)))
    # --- records / objects
    def fields(s, t):
        if t[0] == 'rec':
            ft = s.specs.rec_types.get(t[1])
            return ft if ft else s.prog.rec_fields(t[1])
        at = dict(s.prog.obj_attrs(t[1])); at.update(s.specs.attr_types.get(t[1], {}))
        return at
    def fget(s, st, ref, f, node=None):
        """read field/attribute"""
        t = ref.t
        fs = s.fields(t)
        if f not in fs:
            s.unsupported(f'field {tname(t)}.{f}', node)
        ft = fs[f]
        if t[0] == 'rec' and not s.spec:
            has = s.hsel(st, f'{t[1]}.{f}?has', ref.e, s.A(I, B))
            s.implicit(st, Not(has), 'KeyError', node, f"key '{f}'")
        s.regref(f'{t[1]}.{f}', ft)
        es = [s.hsel(st, f'{t[1]}.{f}{suf}', ref.e, s.A(I, so)) for suf, so in s.flat(ft)]
        v = s.pack(ft, es)
        s.refs_allocated(st, v)
        return v
    def refs_in(s, v):
        if isinstance(v, VRef): return [v.e]
        if isinstance(v, VTuple): return [r for x in v.items for r in s.refs_in(x)]
        return []
    def refs_allocated(s, st, v):
        """heap well-formedness: every reference read from the heap was allocated before"""
        if s.spec: return
        if isinstance(v, VRef):
            f = And(v.e > 0, v.e < st.alloc)
            st.pc.append(f)
            if z3.is_const(v.e) and v.e.get_id() not in s.births: s.knownat.setdefault(v.e.get_id(), (s.tick(), v.e)); s.sincememo.pop(v.e.get_id(), None)
        elif isinstance(v, VOpt):
            if isinstance(v.v, VRef): st.pc.append(Implies(Not(v.none), And(v.v.e > 0, v.v.e < st.alloc)))
        elif isinstance(v, VTuple):
            for x in v.items: s.refs_allocated(st, x)
    def fset(s, st, ref, f, v, node=None):
        t = ref.t
        fs = s.fields(t)
        if f not in fs:
            if t[0] == 'obj':
                at = s.specs.attr_types.setdefault(t[1], {}); at[f] = s.typeof(v); fs = s.fields(t)
            else: s.unsupported(f'field {tname(t)}.{f}', node)
        ft = fs[f]
        s.regref(f'{t[1]}.{f}', ft)
        for (suf, so), e in zip(s.flat(ft), s.unpack(v, ft, node)):
            s.hset(st, f'{t[1]}.{f}{suf}', ref.e, e, s.A(I, so))
        if t[0] == 'rec':
            s.hset(st, f'{t[1]}.{f}?has', ref.e, z3.BoolVal(True), s.A(I, B))
            if ft[0] == 'list' and isinstance(v, VRef):
                s.hset(st, 'okey', v.e, s.okey(st, ref.e), s.A(I, s.strth.S))
    def okey(s, st, e):
        return s.hsel(st, 'okey', e, s.A(I, s.strth.S))
    # --- lists
    def lcomp(s, t): return tname(t)
    def llen(s, st, r): return s.hsel(st, tname(r.t) + '.len', r.e, s.A(I, I))
    def lscalar(s, t):
        f = s.flat(t[1])
        return f[0][1] if len(f) == 1 else None
    def lget(s, st, r, i):
        s.regref(tname(r.t) + '.e', r.t[1])
        es = [sel(s.hsel(st, f'{tname(r.t)}.e{suf}', r.e, s.A(I, I, so)), i) for suf, so in s.flat(r.t[1])]
        v = s.pack(r.t[1], es)
        s.refs_allocated(st, v)
        return v
    def lpos(s, st, r):
        so = s.lscalar(r.t)
        return s.hsel(st, tname(r.t) + '.pos', r.e, s.A(I, so, I))
    def lin(s, st, r, v):
        so = s.lscalar(r.t)
        if so is None: s.unsupported('in list of tuples')
        x = s.unpack(v, r.t[1])[0]
        p = sel(s.lpos(st, r), x, s.strth)
        arr = s.hsel(st, f'{tname(r.t)}.e', r.e, s.A(I, I, so))
        return And(0 <= p, p < s.llen(st, r), sel(arr, p) == x)
    def new_list(s, st, t):
        r = s.alloc(st, t)
        tn = tname(t)
        s.hset(st, tn + '.len', r.e, z3.IntVal(0), s.A(I, I))
        so = s.lscalar(t)
        if so is not None:
            s.hset(st, tn + '.pos', r.e, z3.K(so, z3.IntVal(-1)), s.A(I, so, I))
        return r
    def lappend(s, st, r, v, node=None):
        s.unify(r.t[1], s.typeof(v)) if not isinstance(v, (VNone, VOpt)) else None
        tn = tname(r.t)
        s.regref(tn + '.e', r.t[1])
        n = s.llen(st, r)
        es = s.unpack(v, r.t[1], node)
        for (suf, so), e in zip(s.flat(r.t[1]), es):
            inner = s.hsel(st, f'{tn}.e{suf}', r.e, s.A(I, I, so))
            s.hset(st, f'{tn}.e{suf}', r.e, z3.Store(inner, n, e), s.A(I, I, so))
        so = s.lscalar(r.t)
        if so is not None:
            s.hset(st, tn + '.pos', r.e, z3.Store(s.lpos(st, r), es[0], n), s.A(I, so, I))
        s.hset(st, tn + '.len', r.e, z3.simplify(n + 1), s.A(I, I))
    def havoc_list(s, st, r, n):
        """give list r fresh content of length n; returns elem function"""
        tn = tname(r.t)
        for suf, so in s.flat(r.t[1]):
            s.hset(st, f'{tn}.e{suf}', r.e, s.fresh('lst', s.A(I, so)), s.A(I, I, so))
        so = s.lscalar(r.t)
        if so is not None:
            s.hset(st, tn + '.pos', r.e, s.fresh('lpos', s.A(so, I)), s.A(I, so, I))
        s.hset(st, tn + '.len', r.e, n, s.A(I, I))
        s.list_ghost(st, r)
    def list_ghost(s, st, r):
        """ghost invariant of .pos: every element is found at its pos"""
        so = s.lscalar(r.t)
        if so is None: return
        n = s.llen(st, r)
        arr = s.hsel(st, f'{tname(r.t)}.e', r.e, s.A(I, I, so))
        pos = s.lpos(st, r)
        i = s.bv('i', I)
        x = z3.Select(arr, i)
        p = z3.Select(pos, x)
        st.pc.append(FA([i], Implies(And(0 <= i, i < n), And(0 <= p, p < n, z3.Select(arr, p) == x)), patterns=[x], qid='list_pos'))
    def bv(s, n, so):
        s.qn += 1
        return z3.Const(f'{n}?{s.qn}', so)
    # --- dicts and sets
    def ksort(s, kt): return s.tsort(kt)
    def kexpr(s, v, kt, node=None):
        if isinstance(v, VOpt): v = v.v
        if kt[0] in ('tuple', 'ntuple'):
            if not isinstance(v, VTuple): s.unsupported('tuple key', node)
            es = [s.kexpr(x, t) for x, t in zip(v.items, s.telems(kt))]
            return s.tuple_sort(kt)[1](*es)
        return s.unpack(v, kt, node)[0]
    def kval(s, e, kt):
        if kt[0] in ('tuple', 'ntuple'):
            acc = s.tuple_sort(kt)[2]
            items = [s.kval(a(e), t) for a, t in zip(acc, s.telems(kt))]
            if kt[0] == 'ntuple': return VTuple(items, [f for f, _ in kt[2]], kt[1])
            return VTuple(items)
        return s.pack(kt, [e])
    def ddom(s, st, r):
        return s.hsel(st, tname(r.t) + '.dom', r.e, s.A(I, s.ksort(r.t[1]), B))
    def card(s, dom):
        f = z3.Function('card!' + str(dom.sort().domain()), dom.sort(), I)
        return f(dom)
    def nonempty(s, dom):
        """a set is non-empty when it holds its witness"""
        if z3.is_K(dom): return z3.BoolVal(False)
        K = dom.sort().domain()
        nm = 'wit!' + str(K)
        w = z3.Function(nm, dom.sort(), K)
        if nm not in s.witnesses:
            s.witnesses.add(nm)
            d = z3.Const('d?' + nm, dom.sort()); k = z3.Const('k?' + nm, K)
            s.axioms.append(FA([d, k], Implies(z3.Select(d, k), z3.Select(d, w(d))), patterns=[z3.MultiPattern(z3.Select(d, k), w(d))], qid='witness'))
            s.axioms.append(FA([d], (s.card(d) > 0) == z3.Select(d, w(d)), patterns=[s.card(d)], qid='witcard'))
            s.axioms.append(FA([d], s.card(d) >= 0, patterns=[s.card(d)], qid='cardpos'))
        return z3.Select(dom, w(dom))
    def emptydom(s, kt): return z3.K(s.ksort(kt), z3.BoolVal(False))
    def dhas(s, st, r, k): return sel(s.ddom(st, r), k, s.strth)
    def dval(s, st, r, k):
        s.regref(tname(r.t) + '.val', r.t[2])
        es = [sel(s.hsel(st, f'{tname(r.t)}.val{suf}', r.e, s.A(I, s.ksort(r.t[1]), so)), k, s.strth) for suf, so in s.flat(r.t[2])]
        v = s.pack(r.t[2], es)
        return v
    def new_dict(s, st, t):
        r = s.alloc(st, t)
        s.hset(st, tname(t) + '.dom', r.e, s.emptydom(t[1]), s.A(I, s.ksort(t[1]), B))
        st.pc.append(s.card(s.emptydom(t[1])) == 0)
        return r
    new_set = new_dict
    def dom_add(s, st, r, k):
        K = s.ksort(r.t[1]); tn = tname(r.t)
        dom = s.ddom(st, r)
        isin = sel(dom, k, s.strth)
        if z3.is_true(isin): return
        nd = z3.Store(dom, k, z3.BoolVal(True))
        st.pc.append(And(s.card(nd) == s.card(dom) + If(isin, z3.IntVal(0), z3.IntVal(1)), s.card(dom) >= 0))
        if s.ordered(r.t):
            o = s.hsel(st, tn + '.ord', r.e, s.A(I, I, K)); p = s.hsel(st, tn + '.pos', r.e, s.A(I, K, I))
            n = s.card(dom)
            s.hset(st, tn + '.ord', r.e, If(isin, o, z3.Store(o, n, k)), s.A(I, I, K))
            s.hset(st, tn + '.pos', r.e, If(isin, p, z3.Store(p, k, n)), s.A(I, K, I))
        s.hset(st, tn + '.dom', r.e, nd, s.A(I, K, B))
    def dset(s, st, r, k, v, node=None):
        tn = tname(r.t); K = s.ksort(r.t[1])
        s.regref(tn + '.val', r.t[2])
        if not isinstance(v, (VNone, VOpt)): s.unify(r.t[2], s.typeof(v))
        for (suf, so), e in zip(s.flat(r.t[2]), s.unpack(v, r.t[2], node)):
            inner = s.hsel(st, f'{tn}.val{suf}', r.e, s.A(I, K, so))
            s.hset(st, f'{tn}.val{suf}', r.e, z3.Store(inner, k, e), s.A(I, K, so))
        if r.t[1] == ('str',) and r.t[2][0] in ('list', 'set', 'dict') and isinstance(v, VRef) and s.is_fresh(v.e):
            s.hset(st, 'okey', v.e, k, s.A(I, s.strth.S))
        if r.t[1] == ('str',) and r.t[2][0] == 'rec' and isinstance(v, VRef) and s.is_fresh(v.e):      # a new record and its lists belong to the key
            s.hset(st, 'okey', v.e, k, s.A(I, s.strth.S))
            for f, ft in s.fields(v.t).items():
                if ft[0] == 'list':
                    l = z3.simplify(s.hsel(st, f'{v.t[1]}.{f}', v.e, s.A(I, I)))
                    if s.is_fresh(l): s.hset(st, 'okey', l, k, s.A(I, s.strth.S))
        s.dom_add(st, r, k)
    def is_fresh(s, e): return any(e.eq(f) for f in s.allocated)
    def dict_copy(s, st, r, t=None):
        n = s.new_dict(st, t or r.t)
        s.copy_container(st, r, n)
        return n
    def dict_comps(s, t):
        tn = tname(t); K = s.ksort(t[1])
        out = [(tn + '.dom', s.A(I, K, B))]
        if t[0] == 'dict':
            out += [(f'{tn}.val{suf}', s.A(I, K, so)) for suf, so in s.flat(t[2])]
            if s.ordered(t): out += [(tn + '.ord', s.A(I, I, K)), (tn + '.pos', s.A(I, K, I))]
        return out
    def list_comps(s, t):
        tn = tname(t)
        out = [(tn + '.len', s.A(I, I))] + [(f'{tn}.e{suf}', s.A(I, I, so)) for suf, so in s.flat(t[1])]
        so = s.lscalar(t)
        if so is not None: out.append((tn + '.pos', s.A(I, so, I)))
        return out
    def cont_comps(s, t):
        if t[0] == 'list': s.regref(tname(t) + '.e', t[1])
        if t[0] == 'dict': s.regref(tname(t) + '.val', t[2])
        if t[0] in ('rec', 'obj'):
            for f, ft in s.fields(t).items(): s.regref(f'{t[1]}.{f}', ft)
        if t[0] == 'list': return s.list_comps(t)
        if t[0] in ('dict', 'set'): return s.dict_comps(t)
        if t[0] in ('rec', 'obj'):
            out = []
            for f, ft in s.fields(t).items():
                try: out += [(f'{t[1]}.{f}{suf}', s.A(I, so)) for suf, so in s.flat(ft)]
                except Unsupported: continue
                if t[0] == 'rec': out.append((f'{t[1]}.{f}?has', s.A(I, B)))
            return out
        raise Unsupported('comps ' + tname(t))
    def copy_container(s, st, src, dst):
        for (c, so), (c2, so2) in zip(s.cont_comps(src.t), s.cont_comps(dst.t)):
            s.hset(st, c2, dst.e, s.hsel(st, c, src.e, so), so2)
    def dict_wf(s, st, r):
        """type invariant of insertion order (for plain iteration)"""
        if s.spec: return
        dom = s.ddom(st, r)
        st.pc.append(s.card(dom) >= 0)
        tn = tname(r.t); K = s.ksort(r.t[1])
        o = s.hsel(st, tn + '.ord', r.e, s.A(I, I, K)); p = s.hsel(st, tn + '.pos', r.e, s.A(I, K, I))
        s.enum_facts(st, dom, lambda i: z3.Select(o, i), lambda k: z3.Select(p, k), s.card(dom), K)
    def enum_facts(s, st, dom, keyat, idxof, n, K):
        k = s.bv('k', K); i = s.bv('i', I)
        st.pc.append(n >= 0)
        st.pc.append(FA([k], Implies(z3.Select(dom, k), And(0 <= idxof(k), idxof(k) < n, keyat(idxof(k)) == k)), patterns=[z3.Select(dom, k), idxof(k)], qid='enum_k'))
        st.pc.append(FA([i], Implies(And(0 <= i, i < n), And(z3.Select(dom, keyat(i)), idxof(keyat(i)) == i)), patterns=[keyat(i)], qid='enum_i'))

    # ------------------------------------------------------------ coercions
    def as_int(s, v):
        if isinstance(v, VInt): return v.e
        if isinstance(v, VBool): return If(v.e, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, VOpt): return s.as_int(v.v)
        if isinstance(v, VMaybe): return s.as_int(v.v)
        s.unsupported(f'int expected, got {v}')
    def truth_pure(s, v):
        if isinstance(v, VBool): return v.e
        if isinstance(v, VInt): return v.e != 0
        s.unsupported(f'bool expected, got {v}')
    def truth(s, v, st):
        if isinstance(v, VBool): return v.e
        if isinstance(v, VInt): return z3.simplify(v.e != 0)
        if isinstance(v, VStr): return z3.simplify(v.e != s.lit(''))
        if isinstance(v, VNone): return z3.BoolVal(False)
        if isinstance(v, VOpt): return And(Not(v.none), s.truth(v.v, st))
        if isinstance(v, VTuple): return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, VConst): return z3.BoolVal(bool(v.v))
        if isinstance(v, VRef):
            if v.t[0] == 'list': return s.llen(st, v) > 0
            if v.t[0] in ('dict', 'set'):
                return s.nonempty(s.ddom(st, v))
            if v.t[0] == 'rec':
                return Or(*[s.hsel(st, f'{v.t[1]}.{f}?has', v.e, s.A(I, B)) for f in s.fields(v.t)])
            return z3.BoolVal(True)
        s.unsupported(f'truth of {v}')
    def veq(s, a, b, st):
        """== (structural for scalars and tuples; identity for references)"""
        if isinstance(a, VMaybe): a = a.v
        if isinstance(b, VMaybe): b = b.v
        if isinstance(a, VNone) or isinstance(b, VNone):
            return s.isnone(b if isinstance(a, VNone) else a)
        if isinstance(a, VOpt) and isinstance(b, VOpt):
            return And(a.none == b.none, Or(a.none, s.veq(a.v, b.v, st)))
        if isinstance(a, VOpt): return And(Not(a.none), s.veq(a.v, b, st))
        if isinstance(b, VOpt): return And(Not(b.none), s.veq(a, b.v, st))
        if isinstance(a, (VInt, VBool)) and isinstance(b, (VInt, VBool)):
            if isinstance(a, VBool) and isinstance(b, VBool): return a.e == b.e
            return s.as_int(a) == s.as_int(b)
        if isinstance(a, VStr) and isinstance(b, VStr):
            la, lb = s.strth.litval(a.e), s.strth.litval(b.e)
            if la is not None and lb is not None: return z3.BoolVal(la == lb)
            return a.e == b.e
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            if len(a.items) != len(b.items): return z3.BoolVal(False)
            return And(*[s.veq(x, y, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, VRef) and isinstance(b, VRef):
            if s.spec: return a.e == b.e
            if a.t[0] == 'set' and b.t[0] == 'set': return s.ddom(st, a) == s.ddom(st, b)
            s.unsupported('== on references')
        ka, kb = type(a).__name__, type(b).__name__
        scal = ('VInt', 'VBool', 'VStr', 'VTuple', 'VRef')
        if ka in scal and kb in scal: return z3.BoolVal(False)
        s.unsupported(f'== on {ka} {kb}')
    def isnone(s, v):
        if isinstance(v, VNone): return z3.BoolVal(True)
        if isinstance(v, VOpt): return v.none
        if isinstance(v, VMaybe): return s.isnone(v.v)
        return z3.BoolVal(False)
    def vlt(s, a, b, strict, st):
        if isinstance(a, VOpt): a = a.v
        if isinstance(b, VOpt): b = b.v
        if isinstance(a, (VInt, VBool)) and isinstance(b, (VInt, VBool)):
            x, y = s.as_int(a), s.as_int(b)
            return x < y if strict else x <= y
        if isinstance(a, VStr) and isinstance(b, VStr):
            return s.strth.lt(a.e, b.e) if strict else s.strth.le(a.e, b.e)
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            res = z3.BoolVal(len(a.items) < len(b.items) or (not strict and len(a.items) == len(b.items)))
            for x, y in reversed(list(zip(a.items, b.items))):
                res = Or(s.vlt(x, y, True, st), And(s.veq(x, y, st), res))
            return res
        s.unsupported(f'< on {a} {b}')
    def merge_val(s, c, a, b):
        if a is b: return a
        if isinstance(a, VUndef) and isinstance(b, VUndef): return a
        if isinstance(a, VUndef): 
            if isinstance(b, VMaybe): return VMaybe(And(Not(c), b.d), b.v)
            return VMaybe(Not(c), b)
        if isinstance(b, VUndef):
            if isinstance(a, VMaybe): return VMaybe(And(c, a.d), a.v)
            return VMaybe(c, a)
        if isinstance(a, VMaybe) or isinstance(b, VMaybe):
            da, va = (a.d, a.v) if isinstance(a, VMaybe) else (z3.BoolVal(True), a)
            db, vb = (b.d, b.v) if isinstance(b, VMaybe) else (z3.BoolVal(True), b)
            return VMaybe(If(c, da, db), s.merge_val(c, va, vb))
        if isinstance(a, VNone) and isinstance(b, VNone): return a
        if isinstance(a, VNone):
            if isinstance(b, VOpt): return VOpt(If(c, z3.BoolVal(True), b.none), b.v)
            return VOpt(c, b)
        if isinstance(b, VNone):
            if isinstance(a, VOpt): return VOpt(If(c, a.none, z3.BoolVal(True)), a.v)
            return VOpt(Not(c), a)
        if isinstance(a, VOpt) or isinstance(b, VOpt):
            na, va = (a.none, a.v) if isinstance(a, VOpt) else (z3.BoolVal(False), a)
            nb, vb = (b.none, b.v) if isinstance(b, VOpt) else (z3.BoolVal(False), b)
            return VOpt(If(c, na, nb), s.merge_val(c, va, vb))
        if isinstance(a, VBool) and isinstance(b, VBool): return VBool(If(c, a.e, b.e))
        if isinstance(a, (VInt, VBool)) and isinstance(b, (VInt, VBool)):
            return VInt(If(c, s.as_int(a), s.as_int(b)))
        if isinstance(a, VStr) and isinstance(b, VStr): return VStr(If(c, a.e, b.e))
        if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
            return VTuple([s.merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.names, a.tname)
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.t != b.t: s.unify(a.t, b.t)
            return VRef(If(c, a.e, b.e), a.t if not s.has_tv(a.t) else b.t)
        if isinstance(a, VDate) and isinstance(b, VDate):
            return VDate(If(c, a.y, b.y), If(c, a.m, b.m), If(c, a.d, b.d))
        if isinstance(a, VExc): return a
        if isinstance(a, VFun) and isinstance(b, VFun) and a.kind == b.kind and a.data == b.data: return a
        if isinstance(a, VConst) and isinstance(b, VConst) and a.v is b.v: return a
        if isinstance(a, (VConst,)) and isinstance(b, VRef): return VUndef()
        # incompatible types: the variable becomes unusable after the join
        return VUndef()

    # ------------------------------------------------------------ state merging
    def merge(s, a, b, c=None):
        """join two states; c is a condition that selects a (else a fresh one)"""
        n = 0
        la, lb = len(a.pc), len(b.pc)
        while n < la and n < lb and a.pc[n] is b.pc[n]: n += 1
        if c is None: c = s.fresh('br', B)
        out = St(pc=a.pc[:n])
        out.old, out.pre, out.extra = a.old, a.pre, a.extra
        fa, fb = a.extra.get('facts', []), b.extra.get('facts', [])
        if fa is not fb: out.extra = dict(a.extra, facts=fa + [x for x in fb if x.text not in {y.text for y in fa}])
        for x in a.pc[n:]:
            if x.eq(c): continue
            out.pc.append(Implies(c, x))
        nc = Not(c)
        for x in b.pc[n:]:
            if x.eq(nc): continue
            out.pc.append(Implies(nc, x))
        for k in set(a.vars) | set(b.vars):
            va, vb = a.vars.get(k, VUndef()), b.vars.get(k, VUndef())
            v = s.merge_val(c, va, vb)
            if not isinstance(v, VUndef): out.vars[k] = v
        for k in set(a.heap) | set(b.heap):
            x = s.hget(a, k, s.comp_sorts[k]); y = s.hget(b, k, s.comp_sorts[k])
            if x.eq(y): out.heap[k] = x; continue
            p = s.fresh('phi.' + k, x.sort())
            out.pc.append(Implies(c, p == x)); out.pc.append(Implies(nc, p == y))
            out.heap[k] = p
        if a.alloc.eq(b.alloc): out.alloc = a.alloc
        else:
            out.alloc = s.fresh('alloc', I)
            out.pc.append(out.alloc == If(c, a.alloc, b.alloc))
        return out
    def merge_all(s, sts):
        if not sts: return None
        cur = sts[0]
        for x in sts[1:]: cur = s.merge(cur, x)
        return cur

    # ------------------------------------------------------------ statements
    def block(s, stmts, st):
        outs, sts = [], [st]
        cuts = s.cutmap() if len(s.callstack) == 1 and not s.spec else None
        gh = s.specs.contracts[s.fn.qual].ghost if len(s.callstack) == 1 and not s.spec and s.fn.qual in s.specs.contracts else None
        for x in stmts:
            if cuts and len(sts) > 1: sts = [s.merge_all(sts)]
            if isinstance(x, (ast.For, ast.While, ast.Try, ast.FunctionDef)) or s.try_depth > 0: sts = [s.merge_all(sts)]
            nxt = []
            for q0 in sts:
                for t in s.stmt(x, q0):
                    if gh and t[0] == 'normal': s.ghost_owner(x, t[1], gh)
                    if t[0] == 'normal': nxt.append(s.cut(x, t[1], cuts) if cuts else t[1])
                    else: outs.append(t)
            if not nxt: return outs
            while len(nxt) > s.opts.get('maxpaths', s.MAXPATHS): nxt = [s.merge_all(nxt[j:j + 2]) for j in range(0, len(nxt), 2)]
            sts = nxt
        return outs + [('normal', q, None) for q in sts]
    MAXPATHS = 24
    # ---- ghost assertions: contract(after={callee: [clauses]}) are proved after every simple statement that calls callee; the
    # rest of the verification then knows the precondition, these clauses and what relates the current state to the entry state
    def cutmap(s):
        con = s.specs.contracts.get(s.callstack[0].qual)
        return con.after if con is not None and s.callstack[0] is s.fn else None
    def ghost_owner(s, x, st, gh):
        if not isinstance(x, (ast.Assign, ast.AnnAssign, ast.Expr)): return
        for n in ast.walk(x):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
                for c in gh.get(nm, ()):
                    if c.kind == 'unfold': s.unfold_opaque(c.tree, st); continue
                    r, k = s.spec_eval(parse_expr(c.ghost), st), s.spec_eval(c.tree, st)
                    s.hset(st, 'okey', r.e, k.e, s.A(I, s.strth.S))
    def unfold_opaque(s, tree, st):
        """definition of an opaque specification function; names that are no variables of the state stand for all values"""
        sf = s.specs.funcs[tree.func.id]
        args, qs = [], []
        for a, t in zip(tree.args, sf.types):
            if isinstance(a, ast.Name) and a.id not in st.vars:
                q = s.bv(a.id, s.tsort(t)); qs.append(q); args.append(s.pack(t, [q]))
            else:
                v = s.spec_eval(a, st)
                args.append(v.v if isinstance(v, VOpt) else v)
        s.spec += 1; rv = s.reveal
        try:
            app = s.call_spec(sf, args, st)
            s.reveal = (*rv, sf.name)
            b = s.spec_body(sf, args, st)
        finally: s.spec -= 1; s.reveal = rv
        d = And(*[x == y for x, y in zip(s.unpack(app, sf.ret), s.unpack(b, sf.ret))])
        st.pc.append(FA(qs, d, patterns=s.unpack(app, sf.ret), qid='unfold_' + sf.name) if qs else d)
    def cut(s, x, st, cuts):
        if not isinstance(x, (ast.Assign, ast.AnnAssign, ast.Expr, ast.AugAssign)): return st
        hit = None
        for n in ast.walk(x):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
                if nm in cuts: hit = nm
        if hit is None: return st
        q = st.copy()
        # what held after the previous such call, and what this call establishes
        prev = q.extra.get('facts', [])
        forget = {c.text[7:].strip() for c in cuts[hit] if c.text.startswith('forget ')}
        cl, seen = [], set()
        for c in prev + cuts[hit]:
            if c.kind == 'ghost': q.vars[c.ghost] = s.spec_eval(c.tree, q); continue
            if c.kind == 'assume':
                if c.relevant(s.prop): q.pc.append(s.spec_bool(c.tree, q)); s.assumed.add(f'{s.fn.qual}: after {hit}: {c.text[7:]}')
                continue
            if c.kind == 'forget' or c.text in forget or c.text in seen or not c.relevant(s.prop): continue
            if (hit, c.text) in s.opts.get('dropped', ()): continue
            seen.add(c.text); cl.append(c)
        for c in cl:
            s.oblige(q, s.spec_bool(c.tree, q), 'lemma', f'{s.fn.qual}: after {hit}: {c.text}', x)
            if s.obligs and s.obligs[-1].kind == 'lemma' and not hasattr(s.obligs[-1], 'key'): s.obligs[-1].key = (hit, c.text)
        fr, fs = [], []
        for comp, a in sorted(q.heap.items()):
            b = s.init.get(comp)
            if b is None or a.eq(b): continue
            so_, refs, newok = s.rootmods.get(comp, (None, [], False))
            if refs is None: continue
            r = s.bv('r', I)
            f = FA([r], Implies(And(r < s.alloc0, *[r != z for z in refs]), z3.Select(a, r) == z3.Select(b, r)), patterns=[z3.Select(a, r)], qid='frame')
            fr.append((comp, refs)); fs.append(f)
        if fs: s.oblige(q, And(*fs), 'frame', f'{s.fn.qual}: after {hit}: unchanged outside modifies', x)
        h = q.copy()
        for comp, a in sorted(h.heap.items()):
            if z3.is_const(a): continue
            h.heap[comp] = s.fresh('cut.' + comp, a.sort())
        ok = set()
        def consts(e, out, seen):
            todo = [e]
            while todo:
                t = todo.pop()
                if t.get_id() in seen: continue
                seen.add(t.get_id())
                if z3.is_quantifier(t): todo.append(t.body()); continue
                if z3.is_const(t):
                    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(t.decl().name())
                else: todo += t.children()
            return out
        for a in list(h.heap.values()) + list(s.init.values()) + [h.alloc, s.alloc0]: consts(a, ok, set())
        for v in h.vars.values():
            for e in s.exprs_of(v): consts(e, ok, set())
        base = s.cutbase
        for e in base:
            if e.get_id() not in s.constmemo: s.constmemo[e.get_id()] = (consts(e, set(), set()), e)
            ok |= s.constmemo[e.get_id()][0]
        def cs(f):
            r = s.constmemo.get(f.get_id())
            if r is None: r = s.constmemo[f.get_id()] = (consts(f, set(), set()), f)
            return r[0]
        pc = list(base) + [f for f in q.pc[len(base):] if cs(f) <= ok]
        h.pc = pc + [h.alloc >= s.alloc0]
        for comp in h.heap:
            if comp not in s.init or not h.heap[comp].eq(s.init[comp]): s.closed(h, comp)
        for v in h.vars.values():
            if isinstance(v, VMaybe): v = v.v
            if isinstance(v, (VRef, VOpt, VTuple)): s.refs_allocated(h, v)
        for comp, refs in fr:
            a, b = h.heap[comp], s.init[comp]; r = s.bv('r', I)
            h.pc.append(FA([r], Implies(And(r < s.alloc0, *[r != z for z in refs]), z3.Select(a, r) == z3.Select(b, r)), patterns=[z3.Select(a, r)], qid='frame'))
        for c in cl: h.pc.append(s.spec_bool(c.tree, h))
        h.extra = dict(h.extra, facts=cl)
        return h
    def exprs_of(s, v):
        if isinstance(v, VMaybe): return [v.d] + s.exprs_of(v.v)
        if isinstance(v, VOpt): return [v.none] + s.exprs_of(v.v)
        if isinstance(v, VTuple): return sum((s.exprs_of(x) for x in v.items), [])
        if isinstance(v, (VInt, VBool, VStr, VRef)): return [v.e]
        if isinstance(v, VDate): return [v.y, v.m, v.d]
        return []
    def same_heap(s, a, b):
        return a.alloc.eq(b.alloc) and all(s.hget(a, k, s.comp_sorts[k]).eq(s.hget(b, k, s.comp_sorts[k])) for k in set(a.heap) | set(b.heap))
    def stmt(s, x, st):
        mark = len(s.pending)
        s.cur_node = x
        m = getattr(s, 'stmt_' + type(x).__name__, None)
        if m is None: s.unsupported('statement ' + type(x).__name__, x)
        v = x.value if isinstance(x, (ast.Assign, ast.AnnAssign, ast.Return)) else None
        if isinstance(v, ast.Name) and not s.spec and s.callstack and v.id not in st.vars and v.id not in (st.extra.get('closure') or ()) and v.id in s.assigned_names(s.callstack[-1].node):
            s.implicit(st, z3.BoolVal(True), 'UnboundLocalError', x, f'variable {v.id}')      # not assigned on this path
            o = []
        else: o = m(x, st)
        if len(s.pending) > mark:
            o = o + s.pending[mark:]
            del s.pending[mark:]
        return o
    def stmt_Pass(s, x, st): return [('normal', st, None)]
    def stmt_Import(s, x, st): return [('normal', st, None)]
    stmt_ImportFrom = stmt_Import
    def stmt_Global(s, x, st): return [('normal', st, None)]
    def stmt_Expr(s, x, st):
        if isinstance(x.value, ast.Constant): return [('normal', st, None)]
        s.eval(x.value, st)
        return [('normal', st, None)]
    def stmt_Return(s, x, st):
        v = s.eval(x.value, st, hint=s.ret_hint()) if x.value is not None else VNone()
        return [('return', st, v)]
    def ret_hint(s):
        fn = s.callstack[-1] if s.callstack else None
        if fn is None or fn.node.returns is None: return None
        try: return s.prog.parse_type(fn.node.returns, fn.mod)
        except Unsupported: return None
    def stmt_Raise(s, x, st):
        if x.exc is None: return [('raise', st, VExc('*'))]
        name = 'Exception'
        e = x.exc
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name): name = e.func.id
        elif isinstance(e, ast.Name): name = e.id
        return [('raise', st, VExc(name))]
    def stmt_Break(s, x, st): return [('break', st, None)]
    def stmt_Continue(s, x, st): return [('continue', st, None)]
    def stmt_Assert(s, x, st):
        c = s.cond(x.test, st)
        if s.try_depth > 0 or 'AssertionError' in s.allow_implicit:
            s2 = st.copy(); s2.pc.append(Not(c)); st.pc.append(c)
            s.narrow(x.test, st, True)
            return [('normal', st, None), ('raise', s2, VExc('AssertionError'))]
        s.oblige(st, c, 'assert', f'{s.callstack[-1].qual}: assert {ast.unparse(x.test)}', x)
        return [('normal', st, None)]
    def stmt_FunctionDef(s, x, st):
        fi = FuncInfo(s.callstack[-1].mod, None, x)
        st.vars[x.name] = VFun('local', fi)
        return [('normal', st, None)]
    def stmt_ClassDef(s, x, st): s.unsupported('local class', x)
    def ann_type(s, node):
        """type of a local annotation; local type aliases are resolved through ctx"""
        mod = s.callstack[-1].mod
        if isinstance(node, ast.Name) and (s.callstack[-1].qual, node.id) in s.local_hints:
            return s.local_hints[(s.callstack[-1].qual, node.id)]
        return s.prog.parse_type(node, mod)
    def stmt_AnnAssign(s, x, st):
        try: t = s.ann_type(x.annotation)
        except Unsupported: t = None
        if x.value is None:
            return [('normal', st, None)]
        if isinstance(x.value, (ast.DictComp, ast.SetComp)) and isinstance(x.target, ast.Name): return s.desugar_comp(x.target, x.value, st, x, x.annotation)
        unfilter(x.value)
        if isinstance(x.value, ast.ListComp) and isinstance(x.target, ast.Name) and x.value.generators[0].ifs: return s.desugar_listcomp(x.target, x.value, st, x, x.annotation)
        v = s.eval(x.value, st, hint=t)
        if t is not None and t[0] == 'opt' and not isinstance(v, (VOpt, VNone)):
            pass
        s.assign(x.target, v, st)
        return [('normal', st, None)]
    def stmt_Assign(s, x, st):
        fnq = s.callstack[-1]
        if len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            # local type alias or local TypedDict
            t = s.try_alias(x.targets[0].id, x.value)
            if t is not None:
                s.local_hints[(fnq.qual, x.targets[0].id)] = t
                return [('normal', st, None)]
        hint = None
        if len(x.targets) == 1:
            hint = s.target_hint(x.targets[0], st)
            tg = x.targets[0]
            unfilter(x.value)
            if isinstance(x.value, ast.ListComp) and isinstance(tg, ast.Name) and x.value.generators[0].ifs:
                return s.desugar_listcomp(tg, x.value, st, x)
            if isinstance(x.value, (ast.DictComp, ast.SetComp)) and isinstance(tg, ast.Name): return s.desugar_comp(tg, x.value, st, x)
        v = s.eval(x.value, st, hint=hint)
        for t in x.targets: s.assign(t, v, st)
        return [('normal', st, None)]
    def try_alias(s, name, val):
        if isinstance(val, ast.Subscript) and isinstance(val.value, ast.Name) and val.value.id in ('Dict', 'List', 'Tuple', 'Set', 'Optional'):
            if s.prog.resolve(s.callstack[-1].mod, val.value.id):
                try: return s.prog.parse_type(val, s.callstack[-1].mod)
                except Unsupported: return None
        if isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id == 'TypedDict':
            nm = 'local.' + val.args[0].value
            s.specs.rec_types[nm] = {k.value: s.prog.parse_type(v, s.callstack[-1].mod) for k, v in zip(val.args[1].keys, val.args[1].values)}
            return ('rec', nm)
        return None
    def target_hint(s, t, st):
        try:
            if isinstance(t, ast.Name):
                v = st.vars.get(t.id)
                h = s.local_hints.get((s.callstack[-1].qual, '$' + t.id))
                if h: return h
                return s.typeof(v) if v is not None and not isinstance(v, (VUndef, VNone, VFun, VConst, VDate)) else None
            if isinstance(t, ast.Attribute):
                b = s.peek_type(t.value, st)
                if b and b[0] == 'obj': return s.fields(b).get(t.attr)
            if isinstance(t, ast.Subscript):
                b = s.peek_type(t.value, st)
                if b and b[0] == 'dict': return b[2]
                if b and b[0] == 'list': return b[1]
                if b and b[0] == 'rec' and isinstance(t.slice, ast.Constant): return s.fields(b).get(t.slice.value)
        except Unsupported: pass
        return None
    def peek_type(s, e, st):
        """static type of an expression without evaluating it"""
        if isinstance(e, ast.Name):
            v = st.vars.get(e.id)
            return s.typeof(v) if v is not None and not isinstance(v, VUndef) else None
        if isinstance(e, ast.Attribute):
            b = s.peek_type(e.value, st)
            return s.fields(b).get(e.attr) if b and b[0] == 'obj' else None
        if isinstance(e, ast.Subscript):
            b = s.peek_type(e.value, st)
            if not b: return None
            if b[0] == 'rec' and isinstance(e.slice, ast.Constant): return s.fields(b).get(e.slice.value)
            if b[0] == 'dict': return b[2]
            if b[0] == 'list': return b[1]
        return None
    def stmt_AugAssign(s, x, st):
        cur = s.eval(self_load(x.target), st)
        r = s.eval(x.value, st, hint=s.typeof(cur))
        if isinstance(cur, VRef) and cur.t[0] == 'list' and isinstance(x.op, ast.Add):
            s.list_extend(st, cur, r, x)
            return [('normal', st, None)]
        v = s.binop(x.op, cur, r, st, x)
        s.assign(x.target, v, st)
        return [('normal', st, None)]
    def assign(s, t, v, st):
        if isinstance(t, ast.Name):
            st.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = s.items_of(v, len(t.elts), st, t)
            for a, b in zip(t.elts, items): s.assign(a, b, st)
        elif isinstance(t, ast.Attribute):
            o = s.eval(t.value, st)
            if not (isinstance(o, VRef) and o.t[0] == 'obj'): s.unsupported('attribute assignment', t)
            s.fset(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = s.eval(t.value, st)
            if isinstance(o, VOpt): 
                s.implicit(st, o.none, 'TypeError', t, 'subscript of None'); o = o.v
            if isinstance(o, VRef) and o.t[0] == 'rec':
                if not (isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str)): s.unsupported('dynamic record key', t)
                s.fset(st, o, t.slice.value, v, t)
            elif isinstance(o, VRef) and o.t[0] == 'dict':
                kv = s.eval(t.slice, st)
                if s.has_tv(o.t): s.unify(o.t, ('dict', s.typeof(kv), s.typeof(v)))
                s.dset(st, o, s.kexpr(kv, o.t[1], t), v, t)
            elif isinstance(o, VRef) and o.t[0] == 'list':
                i = s.as_int(s.eval(t.slice, st)); n = s.llen(st, o)
                s.implicit(st, Or(i >= n, i < -n), 'IndexError', t, 'list index')
                i = z3.simplify(If(i < 0, i + n, i))
                so0 = s.lscalar(o.t)
                if so0 is not None: s.unsupported('list item assignment', t)
                for (suf, so), e in zip(s.flat(o.t[1]), s.unpack(v, o.t[1])):
                    inner = s.hsel(st, f'{tname(o.t)}.e{suf}', o.e, s.A(I, I, so))
                    s.hset(st, f'{tname(o.t)}.e{suf}', o.e, z3.Store(inner, i, e), s.A(I, I, so))
            else: s.unsupported(f'subscript assignment to {o}', t)
        else: s.unsupported('assignment target', t)
    def items_of(s, v, n, st, node):
        if isinstance(v, VOpt):
            s.implicit(st, v.none, 'TypeError', node, 'unpack None'); v = v.v
        if isinstance(v, VTuple):
            if len(v.items) != n: s.unsupported('unpack arity', node)
            return v.items
        if isinstance(v, VRef) and v.t[0] == 'list':
            s.implicit(st, s.llen(st, v) != n, 'ValueError', node, 'unpack')
            return [s.lget(st, v, z3.IntVal(i)) for i in range(n)]
        s.unsupported('unpack', node)
    def cond(s, e, st):
        c = s.truth_of(e, st)
        return c if z3.is_quantifier(c) else z3.simplify(c)
    def narrow(s, test, st, pos):
        """flow-sensitive removal of Optional after `x is None`, `x`, `not x`"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return s.narrow(test.operand, st, not pos)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and pos or isinstance(test.op, ast.Or) and not pos:
                for v in test.values: s.narrow(v, st, pos)
            return
        tgt = None
        if isinstance(test, ast.Name) and pos: tgt = test.id
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], (ast.IsNot, ast.NotEq)) and pos: tgt = test.left.id
            if isinstance(test.ops[0], (ast.Is, ast.Eq)) and not pos: tgt = test.left.id
        if tgt and isinstance(st.vars.get(tgt), VOpt):
            st.vars[tgt] = st.vars[tgt].v
    def stmt_If(s, x, st):
        c = s.cond(x.test, st)
        if z3.is_true(c): 
            s.narrow(x.test, st, True); return s.block(x.body, st)
        if z3.is_false(c): 
            s.narrow(x.test, st, False); return s.block(x.orelse, st)
        a, b = st.copy(), st
        a.pc.append(c); b = st.copy(); b.pc.append(Not(c))
        s.narrow(x.test, a, True); s.narrow(x.test, b, False)
        oa, ob = s.block(x.body, a), s.block(x.orelse, b)
        na = [q for k, q, _ in oa if k == 'normal']; nb = [q for k, q, _ in ob if k == 'normal']
        rest = [q for q in oa + ob if q[0] != 'normal']
        # states with different heaps stay apart (simpler obligations); plain values are joined
        if len(na) == 1 and len(nb) == 1 and s.same_heap(na[0], nb[0]): rest.append(('normal', s.merge(na[0], nb[0], c), None))
        else: rest += [('normal', q, None) for q in na + nb]
        return rest
    def stmt_Try(s, x, st):
        s.try_depth += 1
        try: o = s.block(x.body, st)
        finally: s.try_depth -= 1
        out = []
        for k, q, v in o:
            if k != 'raise': out.append((k, q, v)); continue
            handled = False
            for h in x.handlers:
                names = []
                if h.type is None: names = None
                elif isinstance(h.type, ast.Tuple): names = [ast.unparse(e) for e in h.type.elts]
                else: names = [ast.unparse(h.type)]
                if names is None or 'Exception' in names or 'BaseException' in names or v.name in names:
                    q2 = q.copy()
                    if h.name: q2.vars[h.name] = v
                    for k3, q3, v3 in s.block(h.body, q2):
                        if k3 == 'raise' and v3.name == '*': v3 = v
                        out.append((k3, q3, v3))
                    handled = True; break
                elif v.name == '*':
                    s.unsupported('handler for unknown exception', x)
            if not handled: out.append((k, q, v))
        if x.orelse:
            o2 = []
            for k, q, v in out:
                if k == 'normal': o2 += s.block(x.orelse, q)
                else: o2.append((k, q, v))
            out = o2
        if x.finalbody: s.unsupported('finally', x)
        return out
    def stmt_With(s, x, st):
        """with open(..) as f: body -- closing the file has no effect that a contract speaks about"""
        if len(x.items) != 1: s.unsupported('with', x)
        c, v = x.items[0].context_expr, x.items[0].optional_vars
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'open' and s.is_builtin('open', st) and isinstance(v, ast.Name)): s.unsupported('with', x)
        a = ast.Assign(targets=[v], value=c); ast.copy_location(a, x); ast.fix_missing_locations(a)
        return s.block([a] + x.body, st)

    # ------------------------------------------------------------ loops
    def desugar_listcomp(s, tg, comp, st, node, ann=None):
        """x = [e for v in it if c]  ==  x = []; for v in it: if c: x.append(e)"""
        g = comp.generators[0]
        if len(comp.generators) != 1: s.unsupported('nested comprehension', node)
        cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
        call = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=tg.id, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[comp.elt], keywords=[]))
        loop = ast.For(target=g.target, iter=g.iter, body=[ast.If(test=cond, body=[call], orelse=[])], orelse=[])
        init = ast.Assign(targets=[tg], value=ast.List(elts=[], ctx=ast.Load()))
        if ann is not None: init = ast.AnnAssign(target=tg, annotation=ann, value=init.value, simple=1)
        for n in (init, loop):
            ast.copy_location(n, node); ast.fix_missing_locations(n)
        key = ('lc', node.lineno, node.col_offset, s.callstack[-1].qual)
        loop._key = key; init.value._key = key
        return s.block([init, loop], st)
    def desugar_comp(s, tg, comp, st, node, ann=None):
        """x = {k: v for t in it if c}  ==  x = {}; for t in it: if c: x[k] = v  (likewise for sets)"""
        if len(comp.generators) != 1: s.unsupported('nested comprehension', node)
        g = comp.generators[0]
        if any(isinstance(n, ast.Name) and n.id == tg.id for n in ast.walk(comp)): s.unsupported('comprehension that reads its own target', node)
        if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in st.vars for n in ast.walk(g.target)):
            s.unsupported('comprehension variable hides a local variable', node)
        name = ast.Name(id=tg.id, ctx=ast.Load())
        if isinstance(comp, ast.DictComp):
            body = ast.Assign(targets=[ast.Subscript(value=name, slice=comp.key, ctx=ast.Store())], value=comp.value)
            empty = ast.Dict(keys=[], values=[])
        else:
            body = ast.Expr(ast.Call(func=ast.Attribute(value=name, attr='add', ctx=ast.Load()), args=[comp.elt], keywords=[]))
            empty = ast.Call(func=ast.Name(id='set', ctx=ast.Load()), args=[], keywords=[])
        for c in reversed(g.ifs): body = ast.If(test=c, body=[body], orelse=[])
        loop = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[])
        init = ast.AnnAssign(target=tg, annotation=ann, value=empty, simple=1) if ann is not None else ast.Assign(targets=[tg], value=empty)
        for n in (init, loop):
            ast.copy_location(n, node); ast.fix_missing_locations(n)
        key = ('dc', node.lineno, node.col_offset, s.callstack[-1].qual)
        loop._key = key; init.value._key = key
        return s.block([init, loop], st)
    def stmt_For(s, x, st):
        if x.orelse: s.unsupported('for-else', x)
        itv = s.iterate(x.iter, st, x)
        if isinstance(itv, list) and s.opts.get('rolled') and len(s.callstack) == 1 and len(itv) > 4 and all(isinstance(v, VStr) for v in itv):      # a long constant list: by invariant
            def item(i, q, vs=itv):
                e = vs[-1].e
                for k in range(len(vs) - 2, -1, -1): e = If(i == k, vs[k].e, e)
                return VStr(e)
            itv = IterSeq(z3.IntVal(len(itv)), item, desc='constant list'); itv.keysort = None
        if isinstance(itv, list):      # concrete items: unroll
            return s.unroll(x, itv, st)
        return s.loop(x, st, itv)
    def unroll(s, x, items, st):
        outs, brk = [], []
        for it in items:
            s.assign(x.target, it, st)
            o = s.block(x.body, st)
            norm = [q for k, q, _ in o if k in ('normal', 'continue')]
            brk += [q for k, q, _ in o if k == 'break']
            outs += [q for q in o if q[0] in ('return', 'raise')]
            if not norm: st = None; break
            st = s.merge_all(norm)
        fin = ([st] if st is not None else []) + brk
        if fin: outs.append(('normal', s.merge_all(fin), None))
        return outs
    def stmt_While(s, x, st):
        if x.orelse: s.unsupported('while-else', x)
        return s.loop(x, st, None)
    def assigned_names(s, node):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        # comprehension variables are local to the comprehension
        for n in ast.walk(node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                pass
        return out
    def joined_type(s, a, b):
        if a == b: return a
        if a[0] == 'none': return b if b[0] == 'opt' else ('opt', b)
        if b[0] == 'none': return a if a[0] == 'opt' else ('opt', a)
        if a[0] == 'opt' and b[0] == 'opt': return ('opt', s.joined_type(a[1], b[1]))
        if a[0] == 'opt': return ('opt', s.joined_type(a[1], b))
        if b[0] == 'opt': return ('opt', s.joined_type(a, b[1]))
        if {a[0], b[0]} == {'int', 'bool'}: return ('int',)
        if a[0] in ('tuple', 'ntuple') and b[0] in ('tuple', 'ntuple'):
            if a[0] == 'ntuple' and b[0] == 'ntuple' and a[1] == b[1]: return a
            ta, tb = s.telems(a), s.telems(b)
            if len(ta) == len(tb): return ('tuple', tuple(s.joined_type(p, q) for p, q in zip(ta, tb)))
        s.unify(a, b)
        return b if s.has_tv(a) else a
    def loop(s, x, st, seq):
        fn = s.callstack[-1]
        key = getattr(x, '_key', (x.lineno, x.col_offset, fn.qual))
        ordinal = s.loop_ordinal(key)
        entry = st
        names = s.assigned_names(x)
        if isinstance(x, ast.For): 
            pass
        def cls(w): return w
        # --- discover the modified heap components (dry runs to a fixpoint)
        vtypes, maybes = {}, {}
        for n in names:
            v = entry.vars.get(n)
            if v is not None and not isinstance(v, VUndef):
                vtypes[n] = ('maybe', s.typeof(v.v)) if isinstance(v, VMaybe) else s.vtype(v)
            else: vtypes[n] = None
        writes, freshset = [], []
        prevsig = None
        havoc_comps = {}
        depth = 0
        while True:
            depth += 1
            if depth > 12: s.unsupported('loop havoc fixpoint', x)
            mark0 = s.nfresh
            h, i = s.loop_head(x, entry, seq, vtypes, havoc_comps)
            s.wlogs.append([]); s.fresh_refs.append([]); s.dry += 1; s.scouting += 1
            mark = len(s.pending)
            lc = LoopCtx(seq, i); lc.entry = entry; s.loopstack.append(lc)
            try: outs = s.loop_body(x, h.copy(), seq, i)
            finally:
                s.scouting -= 1
                s.loopstack.pop()
                w = s.wlogs.pop(); fr = s.fresh_refs.pop(); s.dry -= 1
                del s.pending[mark:]
            changed = False
            for k, q, _ in outs:
                if k not in ('normal', 'continue'): continue
                for n in names:
                    v = q.vars.get(n)
                    if v is None or isinstance(v, VUndef): continue
                    t = ('maybe', s.typeof(v.v)) if isinstance(v, VMaybe) else s.vtype(v)
                    o = vtypes.get(n)
                    if o is not None and o[0] == 'drop': continue
                    if o is None:
                        nt = ('maybe', t[1] if t[0] == 'maybe' else t)
                    else:
                        try: nt = s.jt(o[1] if o[0] == 'maybe' else o, t[1] if t[0] == 'maybe' else t)
                        except Unsupported: nt = ('drop',)      # holds values of unrelated types: unreadable from here on
                        if nt[0] != 'drop' and 'maybe' in (o[0], t[0]): nt = ('maybe', nt)
                    if nt != o: vtypes[n] = nt; changed = True
            # classify writes
            hc = {}
            consts = s.head_consts
            for comp, ref in w:
                d = hc.setdefault(comp, {'inv': [], 'fresh': False, 'unk': False})
                if ref.eq(ANYREF): d['unk'] = True
                elif any(ref.eq(f) for f in fr): d['fresh'] = True
                elif not s.mentions(ref, consts, mark0):
                    if not any(ref.eq(r) for r in d['inv']): d['inv'].append(ref)
                else: d['unk'] = True
            sig = {c: (len(d['inv']), d['fresh'], d['unk']) for c, d in hc.items()}
            for c, d in havoc_comps.items():
                if c in hc:
                    hc[c]['fresh'] |= d['fresh']; hc[c]['unk'] |= d['unk']
                    for r in d['inv']:
                        if not any(r.eq(q) for q in hc[c]['inv']): hc[c]['inv'].append(r)
                else: hc[c] = d
            sig = {c: (len(d['inv']), d['fresh'], d['unk']) for c, d in hc.items()}
            havoc_comps = hc
            if not changed and sig == prevsig: break
            prevsig = sig
        # --- invariants
        clauses, soft = s.loop_invs(x, ordinal, entry, seq, vtypes, havoc_comps)
        if s.scouting: soft = []        # only the set of writes matters here
        elif s.houdini and soft:
            soft = s.run_houdini(x, entry, seq, vtypes, havoc_comps, clauses, soft)
        where = f'{fn.qual} loop {ordinal}'
        lc0 = LoopCtx(seq, z3.IntVal(0)); lc0.entry = entry; s.loopstack.append(lc0)
        st0 = entry.copy(); st0.pre = entry
        for nm, f in clauses:
            g = f(st0)
            s.oblige(st0, g, 'inv-init', f'{where}: invariant on entry: {nm}', x)
        s.loopstack.pop()
        h, i = s.loop_head(x, entry, seq, vtypes, havoc_comps)
        lc = LoopCtx(seq, i); lc.entry = entry; s.loopstack.append(lc)
        h.pre = entry
        for nm, f in clauses + soft: h.pc.append(f(h))
        body = h.copy()
        s.wlogs.append([]); s.fresh_refs.append([])
        outs = s.loop_body(x, body, seq, i)
        s.wlogs.pop(); s.fresh_refs.pop()
        lc.i = i + 1 if seq is not None else i
        res, brk = [], []
        ends = []
        for k, q, v in outs:
            if k in ('normal', 'continue'): ends.append(q)
            elif k == 'break': brk.append(q)
            else:
                q.pre = entry.pre; res.append((k, q, v))
        for q in ends:
            q.pre = entry
            if seq is not None: q.vars.setdefault('$x', VNone())
            for nm, f in clauses:
                s.oblige(q, f(q), 'inv-step', f'{where}: invariant preserved: {nm}', x)
            if seq is not None:
                for comp, ref, so in seq.stable:
                    a, b = s.hsel(q, comp, ref, so), s.hsel(h, comp, ref, so)
                    if not a.eq(b):
                        s.oblige(q, a == b, 'iter-stable', f'{where}: iterated collection not resized or changed', x)
        s.loopstack.pop()
        # --- exit
        ex = h.copy()
        if seq is not None: ex.pc.append(i == seq.n)
        else:
            lc2 = LoopCtx(None, i); lc2.entry = entry; s.loopstack.append(lc2)
            c = s.cond(x.test, ex)
            s.loopstack.pop()
            ex.pc.append(Not(c))
        always = seq is None and z3.is_true(z3.simplify(c))
        fin = ([] if always else [ex]) + brk
        for q in fin:
            q.pre = entry.pre
            q.vars.pop('$x', None)
            res.append(('normal', q, None))
        return res
    def vtype(s, v):
        if isinstance(v, (VFun, VConst, VDate, VExc)): return ('keep', v)
        return s.typeof(v)
    def jt(s, a, b):
        if a[0] == 'keep' or b[0] == 'keep':
            if a[0] == 'keep' and b[0] == 'keep': return a
            return ('drop',)
        if a[0] == 'drop' or b[0] == 'drop': return ('drop',)
        return s.joined_type(a, b)
    def mentions(s, e, consts, mark=None):
        seen = set(); todo = [e]
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                if n in consts: return True
                if mark is not None:        # anything created after the loop head
                    k = n.rsplit('!', 1)[-1]
                    if k.isdigit() and int(k) > mark and '!' in n: return True
            todo += t.children()
        return False
    def loop_head(s, x, entry, seq, vtypes, comps):
        """havoc the loop-modified part of the state"""
        h = entry.copy()
        c0 = s.nfresh
        names0 = set()
        def F(n, so):
            c = s.fresh(n, so); names0.add(c.decl().name()); return c
        i = F('it', I)
        if seq is not None: h.pc.append(And(i >= 0, i <= seq.n))
        for n, t in vtypes.items():
            if t is None: h.vars.pop(n, None); continue
            if t[0] == 'keep': continue
            if t[0] == 'drop': h.vars.pop(n, None); continue
            mk = lambda tt: s.pack(tt, [F(n + suf, so) for suf, so in s.flat(tt)]) if tt[0] != 'none' else VNone()
            if t[0] == 'maybe': h.vars[n] = VMaybe(F(n + '?def', B), mk(t[1]))
            else: h.vars[n] = mk(t)
            vv = h.vars[n].v if isinstance(h.vars[n], VMaybe) else h.vars[n]
        a2 = F('alloc', I)
        h.pc.append(a2 >= entry.alloc)
        h.alloc = a2
        for n, t in vtypes.items():
            v = h.vars.get(n)
            if v is None or t is None or t[0] in ('keep', 'drop'): continue
            s.refs_allocated(h, v.v if isinstance(v, VMaybe) else v)
        for comp, d in comps.items():
            so = s.comp_sorts[comp]
            cur = s.hget(entry, comp, so)
            if d['unk']:
                h.heap[comp] = F('h.' + comp, so)
            elif d['fresh']:
                n = F('h.' + comp, so)
                r = s.bv('r', I)
                h.pc.append(FA([r], Implies(And(r < entry.alloc, *[r != q for q in d['inv']]), z3.Select(n, r) == z3.Select(cur, r)),
                                      patterns=[z3.Select(n, r)], qid='frame'))
                h.heap[comp] = n
            else:
                n = cur; parts = []
                for q in d['inv']:
                    parts.append(F('hc.' + comp, so.range()))
                    n = z3.Store(n, q, parts[-1])
                h.heap[comp] = n
                for c in parts: s.closed(h, comp, c)
                continue
            s.closed(h, comp)
        s.head_consts = names0
        return h, i
    def loop_body(s, x, st, seq, i):
        if seq is not None:
            st.pc.append(i < seq.n)
            v = seq.get(i, st)
            s.assign(x.target, v, st)
        else:
            c = s.cond(x.test, st)
            if z3.is_false(c): return []
            st.pc.append(c)
            s.narrow(x.test, st, True)
        return s.block(x.body, st)
    def loop_ordinal(s, key):
        d = s.loop_counter.setdefault(key[-1], {})
        if key not in d: d[key] = len(d)
        return d[key]
    def loop_invs(s, x, ordinal, entry, seq, vtypes, comps):
        """(hard clauses, soft candidates): lists of (name, state -> z3 Bool)"""
        hard, soft = [], []
        con = s.specs.contracts.get(s.callstack[-1].qual)
        poolcon = con
        if con is None:
            for f in reversed(s.callstack):
                poolcon = s.specs.contracts.get(f.qual)
                if poolcon is not None: break
        def mk(text, tree):
            def f(q):
                return s.spec_bool(tree, q)
            return (text, f)
        texts = con.loop_clauses(ordinal, s.prop) if con else []
        if (s.pool_mode or con is None) and poolcon:
            for t, tree in poolcon.pool(s.prop): soft.append(mk(t, tree))
        else:
            for t, tree in texts: hard.append(mk(t, tree))
        soft += s.auto_invs(x, entry, seq, vtypes, comps)
        return hard, soft
    def auto_invs(s, x, entry, seq, vtypes, comps):
        out = []
        lcs = s.loopstack
        # a variable defined by the body is defined once the loop has run
        for n, t in vtypes.items():
            if t is not None and t[0] == 'maybe' and seq is not None:
                def f(q, n=n):
                    v = q.vars.get(n)
                    d = z3.BoolVal(False) if v is None else (v.d if isinstance(v, VMaybe) else z3.BoolVal(True))
                    return Implies(s.loopstack[-1].i > 0, d)
                out.append((f'auto: {n} bound after first iteration', f))
        # frame of record fields written through loop-dependent references
        ok0 = s.hget(entry, 'okey', s.A(I, s.strth.S))
        for comp, d in comps.items():
            if not d['unk']: continue
            so = s.comp_sorts[comp]
            cur = s.hget(entry, comp, so)
            if z3.is_array(cur) and True:
                # (a) only objects owned by the key of an enclosing dict loop
                for li, lc in enumerate(lcs):
                    if comp == 'okey' or s.opts.get('newonly'): break
                    if lc.seq is not None and lc.seq.keyat is not None and lc.seq.keysort == s.strth.S:
                        def f(q, comp=comp, cur=cur, so=so, lc=lc, d=d):
                            r = s.bv('r', I); new = s.hget(q, comp, so)
                            k = lc.seq.keyat(lc.i)
                            return FA([r], Implies(And(0 < r, r < entry.alloc, z3.Select(ok0, r) != k, *[r != z for z in d['inv']]), z3.Select(new, r) == z3.Select(cur, r)), patterns=[z3.Select(new, r)], qid='aframe_k')
                        out.append((f'auto: {comp} changes only in objects of the current key (loop {li})', f))
                # (c) only objects allocated since function entry
                def f(q, comp=comp, cur=cur, so=so, d=d):
                    r = s.bv('r', I); new = s.hget(q, comp, so)
                    return FA([r], Implies(And(0 < r, r < s.alloc0, *[r != z for z in d['inv']]), z3.Select(new, r) == z3.Select(cur, r)), patterns=[z3.Select(new, r)], qid='aframe_n')
                if comp not in s.freemods: out.append((f'auto: {comp} changes only in objects allocated since entry', f))
                # (b) only objects owned by processed keys of this loop
                if comp != 'okey' and not s.opts.get('newonly') and seq is not None and seq.keyat is not None and seq.keysort == s.strth.S:
                    def f(q, comp=comp, cur=cur, so=so, d=d):
                        r = s.bv('r', I); new = s.hget(q, comp, so)
                        o = z3.Select(ok0, r)
                        i = s.loopstack[-1].i
                        done = And(z3.Select(seq.dom, o), seq.idxof(o) < i)
                        return FA([r], Implies(And(0 < r, r < entry.alloc, Not(done), *[r != z for z in d['inv']]), z3.Select(new, r) == z3.Select(cur, r)), patterns=[z3.Select(new, r)], qid='aframe_p')
                    out.append((f'auto: {comp} changes only in objects of processed keys', f))
        for comp in comps:
            if comp.endswith('?has'):
                so = s.comp_sorts[comp]; cur = s.hget(entry, comp, so)
                def f(q, comp=comp, so=so, cur=cur):
                    r = s.bv('r', I)
                    return FA([r], Implies(And(r < entry.alloc, z3.Select(cur, r)), z3.Select(s.hget(q, comp, so), r)), patterns=[z3.Select(s.hget(q, comp, so), r)] if q is not entry else [z3.Select(cur, r)], qid='has_mono')
                out.append((f'auto: {comp} never removed', f))
        return out
    def run_houdini(s, x, entry, seq, vtypes, comps, hard, soft):
        lc = LoopCtx(seq, z3.IntVal(0)); lc.entry = entry; s.loopstack.append(lc)
        st0 = entry.copy(); st0.pre = entry
        keep = []
        # a candidate dropped once stays dropped: later rounds assume less
        gone = s.hmemo.setdefault(getattr(x, '_key', (x.lineno, x.col_offset, s.callstack[-1].qual)), set())
        for nm, f in soft:
            if nm in gone: continue
            try: g = f(st0)
            except (Unsupported, KeyError, AttributeError): continue
            if s.quick(st0.pc, g): keep.append((nm, f))
            else: gone.add(nm)
        s.loopstack.pop()
        while keep:
            h, i = s.loop_head(x, entry, seq, vtypes, comps)
            lc = LoopCtx(seq, i); lc.entry = entry; s.loopstack.append(lc)
            h.pre = entry
            bad = []
            ok = []
            for nm, f in hard: h.pc.append(f(h))
            for nm, f in keep:
                try: h.pc.append(f(h)); ok.append((nm, f))
                except (Unsupported, KeyError, AttributeError): bad.append(nm)
            keep = ok
            s.dry += 1; mark = len(s.pending)
            s.wlogs.append([]); s.fresh_refs.append([])
            try: outs = s.loop_body(x, h.copy(), seq, i)
            finally:
                s.dry -= 1; del s.pending[mark:]
                s.wlogs.pop(); s.fresh_refs.pop()
            lc.i = i + 1
            ends = [q for k, q, _ in outs if k in ('normal', 'continue')]
            nk = []
            nk = list(keep)
            for q in ends:
                q.pre = entry
                for nm, f in list(nk):
                    try: ok = s.quick(q.pc, f(q))
                    except (Unsupported, KeyError, AttributeError): ok = False
                    if not ok:
                        bad.append(nm); nk.remove((nm, f)); gone.add(nm)
                        if s.opts.get('hlog'): print('   houdini drops', nm)
            s.loopstack.pop()
            keep = nk
            if not bad: break
        return keep
    def quick(s, pc, goal, timeout=1500):
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(g): return True
        r, _ = s.solve(pc, goal, timeout)
        return r == 'unsat'
    def solve(s, pc, goal, timeout, want_model=False, seed=0):
        t0 = time.time()
        plain = not seed or seed < 0
        sv = z3.SimpleSolver() if plain else z3.Solver()      # the simple solver keeps quantifiers as written: much faster
        sv.set('timeout', timeout)
        sv.set('auto_config', False)
        sv.set('mbqi', bool(s.opts.get('mbqi', False)))
        if seed: sv.set('random_seed', abs(seed))
        c, h = sv.ctx.ref(), sv.solver
        for a in s.strth.axioms(): z3.Z3_solver_assert(c, h, a.as_ast())
        for a in s.axioms: z3.Z3_solver_assert(c, h, a.as_ast())
        for a in pc:
            if isinstance(a, bool): a = z3.BoolVal(a)
            z3.Z3_solver_assert(c, h, a.as_ast())
        sv.add(Not(goal) if not z3.is_quantifier(goal) else z3.Not(goal))
        r = sv.check()
        s.solver_time += time.time() - t0
        s.queries += 1
        m = None
        if want_model and r != z3.unsat:
            try: m = sv.model()
            except z3.Z3Exception: m = None
        return str(r), m

def parse_expr(t): return ast.parse(t, mode='eval').body

def self_load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, 'ctx'): n.ctx = ast.Load()
    return t
