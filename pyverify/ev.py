"""Expression evaluation (program and specification mode) on top of Ex."""
import ast, copy
import z3
from . import shape
from .prog import Program, Unsupported, FuncInfo, ClassInfo
from .vals import *
from .vals import And, Or, Not, Implies, If
from .ex import Ex as ExBase, ANYREF, St, IterSeq, LoopCtx, Restart, Oblig

class Ex(ExBase):
    # ------------------------------------------------------------ eval
    def eval(s, e, st, hint=None):
        m = getattr(s, 'ev_' + type(e).__name__, None)
        if m is None: s.unsupported('expression ' + type(e).__name__, e)
        return m(e, st, hint)
    def ev_Constant(s, e, st, hint):
        return s.lift(e.value, e)
    def lift(s, v, node=None):
        if v is None: return VNone()
        if isinstance(v, bool): return VBool(v)
        if isinstance(v, int): return VInt(v)
        if isinstance(v, str): return VStr(s.lit(v))
        if isinstance(v, tuple): return VTuple([s.lift(x) for x in v])
        if isinstance(v, (dict, list, set, frozenset, bytes, float)): return VConst(v)
        if isinstance(v, FuncInfo): return VFun('func', v)
        if isinstance(v, ClassInfo): return VFun('class', v)
        s.unsupported(f'constant {type(v)}', node)
    def ev_Name(s, e, st, hint):
        n = e.id
        if s.bound and n in s.bound: return s.bound[n]
        if s.spec and n in ('_seq', '_seq0') and s.loopstack:
            q = s.loopstack[-1 if n == '_seq' else -2].seq
            if getattr(q, 'listref', None) is None: s.unsupported('_seq of a loop not over a list', e)
            return q.listref
        if s.spec and n in ('_i', '_i0') and s.loopstack:
            if n == '_i': return VInt(s.loopstack[-1].i)
            return VInt(s.loopstack[-2].i)
        if s.track is not None: s.track[1].add(n)
        v = st.vars.get(n)
        if v is None and st.extra.get('closure'):
            v = st.extra['closure'].get(n)
        if isinstance(v, VMaybe):
            s.implicit(st, Not(v.d), 'UnboundLocalError', e, f'variable {n}')
            return v.v
        if v is not None and not isinstance(v, VUndef): return v
        if s.spec and n in s.specs.funcs: return VFun('spec', s.specs.funcs[n])
        if s.spec and n in s.specs.consts: return s.lift(s.specs.consts[n])
        mod = s.cur_mod()
        r = s.prog.resolve(mod, n) if mod else None
        if r is None and s.spec:
            for m in s.prog.modules.values():
                r = s.prog.resolve(m, n)
                if r and r[0] in ('func', 'class', 'assign'): break
        if r is not None: return s.global_val(r, n, e)
        return VFun('builtin', n)
    def cur_mod(s):
        return s.callstack[-1].mod if s.callstack else s.fn.mod
    def global_val(s, r, n, e):
        if r[0] == 'func': return VFun('func', r[1])
        if r[0] == 'class': return VFun('class', r[1])
        if r[0] == 'module': return VFun('module', r[1])
        if r[0] == 'ext': return VFun('ext', r[1], r[2])
        key = (r[1].name, r[2])
        if key not in s.globals_cache:
            s.globals_cache[key] = s.const_eval(r[1].assigns[r[2]], r[1])
        return s.lift(s.globals_cache[key], e)
    def const_eval(s, node, mod, depth=0):
        if depth > 20: s.unsupported('global constant', node)
        C = lambda x: s.const_eval(x, mod, depth + 1)
        if isinstance(node, ast.Constant): return node.value
        if isinstance(node, ast.Name):
            r = s.prog.resolve(mod, node.id)
            if r and r[0] == 'assign': return s.const_eval(r[1].assigns[r[2]], r[1], depth + 1)
            if r and r[0] in ('func', 'class'): return r[1]
        if isinstance(node, ast.UnaryOp):
            v = C(node.operand)
            if isinstance(node.op, ast.USub): return -v
            if isinstance(node.op, ast.Invert): return ~v
        if isinstance(node, ast.BinOp):
            return eval(compile(ast.Expression(ast.BinOp(ast.Constant(C(node.left)), node.op, ast.Constant(C(node.right)), lineno=1, col_offset=0)) if False else ast.fix_missing_locations(ast.Expression(ast.BinOp(ast.Constant(C(node.left)), node.op, ast.Constant(C(node.right))))), '<c>', 'eval'))
        if isinstance(node, ast.Dict): return {C(k): C(v) for k, v in zip(node.keys, node.values)}
        if isinstance(node, ast.List): return [C(x) for x in node.elts]
        if isinstance(node, ast.Tuple): return tuple(C(x) for x in node.elts)
        if isinstance(node, ast.Set): return {C(x) for x in node.elts}
        s.unsupported('global constant', node)
    def pure_state(s, st): return s.spec > 0
    def eff(s, st, f):
        """evaluate f on a copy; tells whether it had effects on heap/vars"""
        q = st.copy()
        v = f(q)
        same = all(q.heap[k] is st.heap.get(k) or (k not in st.heap and q.heap[k] is s.init.get(k)) for k in q.heap) and \
            set(q.vars) == set(st.vars) and all(q.vars[k] is st.vars[k] for k in q.vars)
        return q, v, same
    def cond_eval(s, st, c, f):
        """evaluate f under condition c; effects are merged back conditionally"""
        if s.spec: return f(st)
        if z3.is_true(c): return f(st)
        q = st.copy(); q.pc.append(c)
        n0 = len(q.pc)
        v = f(q)
        same = all(x is st.heap.get(k, s.init.get(k)) for k, x in q.heap.items()) and q.alloc is st.alloc
        if same:
            for x in q.pc[n0:]: st.pc.append(Implies(c, x))
            for k, x in q.vars.items():
                if st.vars.get(k) is not x: st.vars[k] = x
            return v
        o = st.copy(); o.pc.append(Not(c))
        m = s.merge(q, o, c)
        st.vars, st.heap, st.pc, st.alloc = m.vars, m.heap, m.pc, m.alloc
        return v
    def truth_of(s, e, st):
        """truth of an expression whose value is used for nothing else"""
        return s.truth(s.ev_BoolOp(e, st, None, True) if isinstance(e, ast.BoolOp) else s.eval(e, st), st)
    def ev_BoolOp(s, e, st, hint, truth_only=False):
        isand = isinstance(e.op, ast.And)
        vals = []
        guard = []
        boolean = True
        saved = dict(st.vars)
        sb = dict(s.bound) if s.bound else None
        for i, x in enumerate(e.values):
            g = And(*guard)
            if z3.is_false(g): break
            v = s.cond_eval(st, g, lambda q: s.ev_BoolOp(x, q, None, True) if truth_only and isinstance(x, ast.BoolOp) else s.eval(x, q, hint))
            t = s.truth(v, st)
            if not z3.is_quantifier(t): t = z3.simplify(t)
            vals.append((v, t))
            if not isinstance(v, VBool): boolean = False
            guard.append(t if isand else Not(t))
            s.narrow(x, st, isand)
            if s.bound: s.narrow_bound(x, isand)
        st.vars.update({k: v for k, v in saved.items()})
        if sb is not None: s.bound = sb
        if boolean:
            return VBool((And if isand else Or)(*[t for _, t in vals]))
        r = vals[-1][0]
        try:
            for v, t in reversed(vals[:-1]):
                c = t if isand else Not(t)
                r = s.merge_val(c, r, v)
                if isinstance(r, VUndef): break
        except Unsupported:
            r = VUndef()
        if isinstance(r, VUndef) or isinstance(r, VOpt) and isinstance(r.v, VUndef) or truth_only:
            if not truth_only and not s.spec: s.unsupported('value of and/or over different types', e)
            return VBool((And if isand else Or)(*[t for _, t in vals]))
        return r
    def narrow_bound(s, test, pos): pass
    def ev_UnaryOp(s, e, st, hint):
        if isinstance(e.op, ast.Not): return VBool(Not(s.truth_of(e.operand, st)))
        v = s.eval(e.operand, st)
        if isinstance(e.op, ast.USub): return VInt(z3.simplify(-s.as_int(v)))
        if isinstance(e.op, ast.UAdd): return VInt(s.as_int(v))
        if isinstance(e.op, ast.Invert): return VInt(z3.simplify(-s.as_int(v) - 1))
    def ev_IfExp(s, e, st, hint):
        c = s.truth_of(e.test, st)
        if not z3.is_quantifier(c): c = z3.simplify(c)
        saved = dict(st.vars)
        def go(x, cc, pos):
            if z3.is_false(cc): return None
            s.narrow(e.test, st, pos)
            v = s.cond_eval(st, cc, lambda q: s.eval(x, q, hint))
            for k in saved: st.vars[k] = saved[k]
            return v
        a = go(e.body, c, True)
        b = go(e.orelse, Not(c), False)
        if a is None: return b
        if b is None: return a
        v = s.merge_val(c, a, b)
        if isinstance(v, VUndef): s.unsupported('conditional expression of mixed types', e)
        return v
    def ev_NamedExpr(s, e, st, hint):
        v = s.eval(e.value, st, hint); st.vars[e.target.id] = v; return v
    def ev_Tuple(s, e, st, hint):
        hs = s.telems(hint) if hint and hint[0] in ('tuple', 'ntuple') and len(s.telems(hint)) == len(e.elts) else [None] * len(e.elts)
        return VTuple([s.eval(x, st, h) for x, h in zip(e.elts, hs)])
    # ---- container literals
    def site(s, e, kind):
        key = getattr(e, '_key', (e.lineno, e.col_offset, s.callstack[-1].qual if s.callstack else '')) + (kind,)
        t = s.site_types.get(key)
        return key, t
    def lit_type(s, e, st, hint, kind):
        if hint is not None and hint[0] == 'opt': hint = hint[1]
        if hint is not None and hint[0] == kind and not s.has_tv(hint): return hint
        key, t = s.site(e, kind)
        if t is not None and t[0] == kind: return t
        if kind == 'dict': return ('dict', ('tv', key + (0,)) , ('tv', key + (1,)))
        return (kind, ('tv', key + (0,)))
    def rtype(s, t):
        """replace learnt type variables"""
        if t[0] == 'tv':
            u = s.site_types.get(t[1])
            return s.rtype(u) if u is not None else t
        if t[0] in ('list', 'set', 'opt'): return (t[0], s.rtype(t[1])) + tuple(t[2:])
        if t[0] == 'dict': return ('dict', s.rtype(t[1]), s.rtype(t[2]))
        if t[0] == 'tuple': return ('tuple', tuple(s.rtype(x) for x in t[1]))
        return t
    def learn(s, t, v, st):
        """element type variable t gets the type of v"""
        if t[0] == 'tv':
            u = s.typeof(v)
            if u[0] in ('none',): return t
            if isinstance(v, VConst): s.unsupported('const container element')
            s.site_types[t[1]] = u
            raise Restart()
        return t
    def ev_List(s, e, st, hint):
        t = s.rtype(s.lit_type(e, st, hint, 'list'))
        if s.spec: return VTuple([s.eval(x, st) for x in e.elts])
        vals = [s.eval(x, st, t[1] if t[1][0] != 'tv' else None) for x in e.elts]
        if t[1][0] == 'tv' and not vals: return s.lazy_cont(t, st)
        if vals: s.learn(t[1], vals[0], st)
        r = s.new_list(st, t)
        for v in vals: s.lappend(st, r, v, e)
        return r
    def lazy_cont(s, t, st):
        """empty container whose element type is not known yet: allocate a bare
        reference; the first use teaches the type and restarts the run"""
        return s.alloc(st, t)
    def ev_Set(s, e, st, hint):
        t = s.rtype(s.lit_type(e, st, hint, 'set'))
        vals = [s.eval(x, st) for x in e.elts]
        s.learn(t[1], vals[0], st)
        r = s.new_set(st, t)
        for v in vals: s.dom_add(st, r, s.kexpr(v, t[1], e))
        return r
    def ev_Dict(s, e, st, hint):
        if hint is not None and hint[0] == 'opt': hint = hint[1]
        if hint is not None and hint[0] == 'rec': return s.new_rec(e, st, hint)
        if e.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys) and (hint is None or hint[0] != 'dict'):
            key, t = s.site(e, 'rec')
            s.unsupported('record literal of unknown type', e)
        t = s.rtype(s.lit_type(e, st, hint, 'dict'))
        ks = [s.eval(k, st) for k in e.keys]
        vs = [s.eval(v, st, t[2] if t[2][0] != 'tv' else None) for v in e.values]
        if not ks and s.has_tv(t): return s.lazy_cont(t, st)
        if ks: s.learn(t[1], ks[0], st); s.learn(t[2], vs[0], st)
        r = s.new_dict(st, t)
        for k, v in zip(ks, vs): s.dset(st, r, s.kexpr(k, t[1], e), v, e)
        return r
    def new_rec(s, e, st, t):
        r = s.alloc(st, t)
        fs = s.fields(t)
        for f in fs:
            s.hset(st, f'{t[1]}.{f}?has', r.e, z3.BoolVal(False), s.A(I, B))
        if e is not None:
            for k, v in zip(e.keys, e.values):
                if not (isinstance(k, ast.Constant) and k.value in fs): s.unsupported('record literal key', e)
                s.fset(st, r, k.value, s.eval(v, st, fs[k.value]), e)
        return r
    def ev_JoinedStr(s, e, st, hint):
        tmpl, args = '', []
        acc = None
        simple = True
        for p in e.values:
            if isinstance(p, ast.Constant): tmpl += p.value.replace('{', '{{')
            else:
                v = s.eval(p.value, st)
                spec = ''.join(x.value if isinstance(x, ast.Constant) else '{}' for x in p.format_spec.values) if p.format_spec else ''
                tmpl += '{' + ('!%s' % chr(p.conversion) if p.conversion > 0 else '') + ':' + spec + '}'
                args.append(v)
        return s.fmt('f:' + tmpl, args, st)
    def fmt(s, tmpl, args, st):
        es = []
        for v in args:
            try: es += s.unpack(v, s.typeof(v)) if not isinstance(v, (VRef, VConst, VFun, VDate, VExc)) else None
            except (Unsupported, TypeError): 
                return VStr(s.fresh('fmt', s.strth.S))
        return VStr(s.strth.uf(tmpl, es))
    def ev_Lambda(s, e, st, hint): return VFun('lambda', e, dict(st.vars))
    def ev_Starred(s, e, st, hint): s.unsupported('star expression', e)

    # ---- operators
    def ev_BinOp(s, e, st, hint):
        l = s.eval(e.left, st, hint if isinstance(e.op, ast.Add) else None)
        r = s.eval(e.right, st, s.typeof(l) if isinstance(l, VRef) else None)
        return s.binop(e.op, l, r, st, e)
    def binop(s, op, l, r, st, node):
        if isinstance(l, VMaybe): l = l.v
        if isinstance(l, VOpt): s.implicit(st, l.none, 'TypeError', node, 'None operand'); l = l.v
        if isinstance(r, VOpt): s.implicit(st, r.none, 'TypeError', node, 'None operand'); r = r.v
        if isinstance(op, ast.Mod) and isinstance(l, VStr):
            return s.percent(l, r, st, node)
        if isinstance(l, VStr) and isinstance(r, VStr) and isinstance(op, ast.Add):
            return VStr(s.strth.cat(l.e, r.e))
        if isinstance(l, VStr) and isinstance(op, ast.Mult):
            return VStr(s.strth.uf('mul', [l.e, s.as_int(r)]))
        if isinstance(l, VTuple) and isinstance(r, VTuple) and isinstance(op, ast.Add):
            return VTuple(l.items + r.items)
        if isinstance(l, VRef) and l.t[0] == 'list' and isinstance(op, ast.Add):
            n = s.list_copy(st, l)
            s.list_extend(st, n, r, node)
            return n
        if isinstance(l, VRef) and l.t[0] in ('set',) and isinstance(op, ast.BitOr):
            return s.set_union(st, l, r)
        if isinstance(l, VConst) and isinstance(r, VConst):
            s.unsupported('const container op', node)
        if isinstance(op, ast.BitOr) and isinstance(l, VBool) and isinstance(r, VBool): return VBool(Or(l.e, r.e))
        if isinstance(op, ast.BitAnd) and isinstance(l, VBool) and isinstance(r, VBool): return VBool(And(l.e, r.e))
        a, b = z3.simplify(s.as_int(l)), z3.simplify(s.as_int(r))
        ca, cb = (a.as_long() if z3.is_int_value(a) else None), (b.as_long() if z3.is_int_value(b) else None)
        if isinstance(op, ast.Add): return VInt(z3.simplify(a + b))
        if isinstance(op, ast.Sub): return VInt(z3.simplify(a - b))
        if isinstance(op, ast.Mult): return VInt(z3.simplify(a * b))
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            s.implicit(st, b == 0, 'ZeroDivisionError', node, 'division')
            div = isinstance(op, ast.FloorDiv)
            if ca is not None and cb: return VInt(ca // cb if div else ca % cb)
            # z3 div/mod are Euclidean; Python floors
            if cb is not None and cb > 0: return VInt(a / b if div else a % b)
            q, m = PYDIV(a, b), PYMOD(a, b)
            if not s.has_qvar(q) and q.get_id() not in s.unfolded:
                s.unfolded.add(q.get_id()); s.keep.append(q)
                s.axioms.append(Implies(b > 0, And(a == b * q + m, 0 <= m, m < b)))
                s.axioms.append(Implies(b < 0, And(a == b * q + m, b < m, m <= 0)))
            return VInt(q if div else m)
        if isinstance(op, ast.LShift):
            if cb is not None and cb >= 0: return VInt(z3.simplify(a * (1 << cb)))
        if isinstance(op, ast.RShift):
            if cb is not None and cb >= 0: return VInt(z3.simplify(a / z3.IntVal(1 << cb)))
        if isinstance(op, ast.BitAnd):
            if ca is not None and cb is not None: return VInt(ca & cb)
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if cb is not None and cb >= 0: return VInt(s.mask(a, cb))
        if isinstance(op, ast.BitOr):
            if ca is not None and cb is not None: return VInt(ca | cb)
            r0 = s.disjoint_or(a, b)
            if r0 is not None: return VInt(r0)
        if ca is not None and cb is not None:
            if isinstance(op, ast.BitXor): return VInt(ca ^ cb)
            if isinstance(op, ast.Pow) and cb >= 0: return VInt(ca ** cb)
            if isinstance(op, ast.LShift): return VInt(ca << cb)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.BitXor)):
            f = z3.Function({ast.BitOr: 'int.or', ast.BitAnd: 'int.and', ast.BitXor: 'int.xor'}[type(op)], I, I, I)
            return VInt(s.bitfacts(f(a, b), a, b, op, st))
        s.unsupported(f'operator {type(op).__name__}', node)
    def bitfacts(s, r, a, b, op, st):
        """sound facts on an uninterpreted bit operation"""
        f = []
        if isinstance(op, ast.BitOr):
            f.append(Implies(And(a >= 0, b >= 0), And(r >= a, r >= b, r <= a + b)))
            for k in (4, 8, 16, 32):
                M = z3.IntVal(1 << k)
                # no overlap when one is a multiple of 2^k and the other is below 2^k
                f.append(Implies(And(a >= 0, a < M, b % M == 0), r == a + b))
                f.append(Implies(And(b >= 0, b < M, a % M == 0), r == a + b))
                f.append(Implies(And(a >= 0, a < M, b >= 0, b < M), And(r >= 0, r < M)))
        if isinstance(op, ast.BitAnd):
            f.append(Implies(And(a >= 0, b >= 0), And(r >= 0, r <= a, r <= b)))
        s.axioms += f
        return r
    def mask(s, a, m):
        """a & m for a constant m >= 0 as a sum over the runs of ones"""
        if m == 0: return z3.IntVal(0)
        out = None; i = 0
        while m >> i:
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1: j += 1
                part = a % z3.IntVal(1 << j)
                if i: part = part - a % z3.IntVal(1 << i)
                out = part if out is None else out + part
                i = j
            else: i += 1
        return z3.simplify(out)
    def disjoint_or(s, a, b): return None
    def percent(s, l, r, st, node):
        t = s.strth.litval(l.e)
        args = r.items if isinstance(r, VTuple) else [r]
        if t is None:
            return VStr(s.fresh('fmt', s.strth.S))
        import re
        n = len(re.findall(r'%[^%a-zA-Z]*[a-zA-Z]', t.replace('%%', '')))
        if n != len(args):
            s.implicit(st, z3.BoolVal(True), 'TypeError', node, 'not all arguments converted during string formatting')
        return s.fmt('%:' + t, args, st)
    def ev_Compare(s, e, st, hint):
        l = s.eval(e.left, st)
        out = []
        for op, rx in zip(e.ops, e.comparators):
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(rx, (ast.List, ast.Set)):      # a literal used once, not an object
                rx = ast.copy_location(ast.Tuple(elts=rx.elts, ctx=ast.Load()), rx)
            r = s.cond_eval(st, And(*out), lambda q: s.eval(rx, q, None))
            out.append(s.compare(op, l, r, st, e))
            l = r
        return VBool(And(*out))
    def compare(s, op, l, r, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(l, VRef) and isinstance(r, VRef): c = l.e == r.e
            else: c = s.isnone(l) if isinstance(r, VNone) else s.veq(l, r, st)
            return c if isinstance(op, ast.Is) else Not(c)
        if isinstance(op, ast.Eq): return s.veq(l, r, st)
        if isinstance(op, ast.NotEq): return Not(s.veq(l, r, st))
        if isinstance(op, (ast.In, ast.NotIn)):
            c = s.member(l, r, st, node)
            return c if isinstance(op, ast.In) else Not(c)
        for v in (l, r):
            if isinstance(v, VOpt): s.implicit(st, v.none, 'TypeError', node, 'comparison with None')
        if isinstance(l, VMaybe): l = l.v
        if isinstance(r, VMaybe): r = r.v
        if isinstance(op, ast.Lt): return s.vlt(l, r, True, st)
        if isinstance(op, ast.LtE): return s.vlt(l, r, False, st)
        if isinstance(op, ast.Gt): return s.vlt(r, l, True, st)
        if isinstance(op, ast.GtE): return s.vlt(r, l, False, st)
        s.unsupported('comparison', node)
    def member(s, x, c, st, node):
        if isinstance(c, VOpt):
            s.implicit(st, c.none, 'TypeError', node, 'in None'); c = c.v
        if isinstance(c, VConst):
            return Or(*[s.veq(x, s.lift(k), st) for k in c.v])
        if isinstance(c, VTuple): return Or(*[s.veq(x, k, st) for k in c.items])
        if isinstance(c, VStr): return s.strth.contains(c.e, x.e)
        if isinstance(c, VFun) and c.kind == 'view':
            kind, r = c.data
            if kind == 'keys': c = r
        if isinstance(c, VRef):
            if c.t[0] in ('dict', 'set'):
                if s.has_tv(c.t): return z3.BoolVal(False)
                if isinstance(x, VOpt):
                    return And(Not(x.none), s.dhas(st, c, s.kexpr(x.v, c.t[1], node)))
                return s.dhas(st, c, s.kexpr(x, c.t[1], node))
            if c.t[0] == 'list': return s.lin(st, c, x)
            if c.t[0] == 'rec':
                k = s.strth.litval(x.e)
                if k is not None: return s.hsel(st, f'{c.t[1]}.{k}?has', c.e, s.A(I, B))
        s.unsupported(f'in {c}', node)

    # ---- attribute / subscript
    def ev_Attribute(s, e, st, hint):
        v = s.eval(e.value, st)
        n = e.attr
        if isinstance(v, VOpt):
            s.implicit(st, v.none, 'AttributeError', e, f'None.{n}'); v = v.v
        if isinstance(v, VTuple) and v.names and n in v.names: return v.items[v.names.index(n)]
        if isinstance(v, VRef) and v.t[0] == 'obj':
            fs = s.fields(v.t)
            ci = s.prog.find_class(v.t[1])
            if ci and ci.kind == 'class' and n in ci.consts and (isinstance(ci.consts[n], ast.Dict) or isinstance(ci.consts[n], (ast.List, ast.Tuple)) and s.prog.never_stored(n)): return s.lift(s.const_eval(ci.consts[n], ci.mod))
            if n in fs:
                return s.fget(st, v, n, e)
            if ci and n in ci.methods: return VFun('method', ci.methods[n], v)
            if ci and n in ci.consts: return s.lift(s.const_eval(ci.consts[n], ci.mod))
        if isinstance(v, VFun) and v.kind == 'module':
            m = s.prog.modules.get(v.data[0])
            if m:
                r = s.prog.resolve(m, n)
                if r: return s.global_val(r, n, e)
            return VFun('ext', v.data[0], n)
        if isinstance(v, VFun) and v.kind == 'ext': return VFun('ext', v.data[0] + '.' + v.data[1], n)
        if isinstance(v, VFun) and v.kind == 'class':
            ci = v.data[0]
            if n in ci.consts: return s.lift(s.const_eval(ci.consts[n], ci.mod))
            if n in ci.methods: return VFun('func', ci.methods[n])
        if isinstance(v, VDate): return VInt({'year': v.y, 'month': v.m, 'day': v.d}[n]) if n in ('year', 'month', 'day') else VFun('bm', v, n)
        return VFun('bm', v, n)
    def ev_Subscript(s, e, st, hint):
        v = s.eval(e.value, st)
        if isinstance(v, VOpt):
            s.implicit(st, v.none, 'TypeError', e, 'subscript of None'); v = v.v
        if isinstance(v, VMaybe): v = v.v
        sl = e.slice
        if isinstance(sl, ast.Slice): return s.slice_of(v, sl, st, e)
        if isinstance(v, VFun) and v.kind in ('builtin', 'ext', 'class'): return VTypeC()
        if isinstance(v, VRef) and v.t[0] == 'rec':
            if isinstance(sl, ast.Constant) and isinstance(sl.value, str): return s.fget(st, v, sl.value, e)
            k = s.eval(sl, st)
            lv = s.strth.litval(k.e) if isinstance(k, VStr) else None
            if lv is not None: return s.fget(st, v, lv, e)
            s.unsupported('dynamic record key', e)
        k = s.eval(sl, st)
        return s.index(v, k, st, e)
    def index(s, v, k, st, e):
        if isinstance(v, VConst):
            if isinstance(v.v, dict):
                ks = list(v.v)
                hit = [s.veq(k, s.lift(x), st) for x in ks]
                s.implicit(st, Not(Or(*hit)), 'KeyError', e, 'constant table')
                r = s.lift(v.v[ks[-1]])
                for x, h in list(zip(ks, hit))[-2::-1]: r = s.merge_val(h, s.lift(v.v[x]), r)
                return r
            if isinstance(v.v, (list,)):
                i = s.as_int(k); n = len(v.v)
                s.implicit(st, Or(i >= n, i < -n), 'IndexError', e, 'constant table')
                r = s.lift(v.v[-1])
                for j in range(n - 2, -1, -1):
                    r = s.merge_val(Or(i == j, i == j - n), s.lift(v.v[j]), r)
                return r
        if isinstance(v, VTuple):
            i = z3.simplify(s.as_int(k))
            if not z3.is_int_value(i): s.unsupported('tuple index', e)
            i = i.as_long()
            if i >= len(v.items) or i < -len(v.items): s.implicit(st, z3.BoolVal(True), 'IndexError', e, 'tuple index')
            return v.items[i]
        if isinstance(v, VStr):
            i = s.as_int(k); n = s.strth.length(v.e)
            s.implicit(st, Or(i >= n, i < -n), 'IndexError', e, 'string index')
            i = z3.simplify(If(z3.simplify(i < 0), i + n, i))
            return VStr(s.strth.char(v.e, i))
        if isinstance(v, VRef) and v.t[0] == 'list':
            i = s.as_int(k); n = s.llen(st, v)
            s.implicit(st, Or(i >= n, i < -n), 'IndexError', e, 'list index')
            if s.spec and not (z3.is_int_value(i) and i.as_long() < 0): pass
            else: i = z3.simplify(If(z3.simplify(i < 0), i + n, i))
            return s.lget(st, v, i)
        if isinstance(v, VRef) and v.t[0] == 'dict':
            if s.has_tv(v.t): s.unsupported('index of untyped dict', e)
            ke = s.kexpr(k, v.t[1], e)
            if v.t[3:] == ('counter',): return VInt(If(s.dhas(st, v, ke), s.dval(st, v, ke).e, z3.IntVal(0)))
            s.implicit(st, Not(s.dhas(st, v, ke)), 'KeyError', e, 'dict key')
            r = s.dval(st, v, ke)
            s.refs_allocated(st, r)
            return r
        s.unsupported(f'index of {v}', e)
    def slice_of(s, v, sl, st, e):
        lo = s.as_int(s.eval(sl.lower, st)) if sl.lower is not None else None
        hi = s.as_int(s.eval(sl.upper, st)) if sl.upper is not None else None
        if sl.step is not None: s.unsupported('slice step', e)
        if isinstance(v, VStr): return VStr(s.strth.slice(v.e, lo, hi))
        if isinstance(v, VRef) and v.t[0] == 'list' and not s.spec:
            n = s.llen(st, v)
            norm = lambda x, d: d if x is None else z3.simplify(If(z3.simplify(x < 0), z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x)))
            lo, hi = norm(lo, z3.IntVal(0)), norm(hi, n)
            m = hi - lo if z3.is_int_value(lo) and lo.as_long() == 0 or hi.eq(n) else z3.If(hi > lo, hi - lo, z3.IntVal(0))
            r = s.new_list(st, v.t)
            s.havoc_list(st, r, z3.simplify(m))
            n = lo + m
            i = s.bv('i', I)
            for suf, so in s.flat(v.t[1]):
                a = s.hsel(st, f'{tname(v.t)}.e{suf}', r.e, s.A(I, I, so)); b = s.hsel(st, f'{tname(v.t)}.e{suf}', v.e, s.A(I, I, so))
                st.pc.append(FA([i], Implies(And(0 <= i, i < n - lo), z3.Select(a, i) == z3.Select(b, i + lo)), patterns=[z3.Select(a, i)]))
            return r
        if isinstance(v, VTuple):
            L = lo.as_long() if lo is not None else None; H = hi.as_long() if hi is not None else None
            return VTuple(v.items[L:H])
        s.unsupported('slice', e)

    # ------------------------------------------------------------ lists helpers
    def list_copy(s, st, l):
        r = s.new_list(st, l.t)
        s.copy_container(st, l, r)
        return r
    def list_extend(s, st, l, r, node):
        if isinstance(r, VTuple):
            for x in r.items: s.lappend(st, l, x, node)
            return
        if isinstance(r, VConst):
            for x in r.v: s.lappend(st, l, s.lift(x), node)
            return
        if not (isinstance(r, VRef) and r.t[0] == 'list'): s.unsupported('extend', node)
        s.unify(l.t[1], r.t[1])
        n, m = s.llen(st, l), s.llen(st, r)
        tn = tname(l.t)
        i = s.bv('i', I)
        for suf, so in s.flat(l.t[1]):
            a = s.hsel(st, f'{tn}.e{suf}', l.e, s.A(I, I, so)); b = s.hsel(st, f'{tname(r.t)}.e{suf}', r.e, s.A(I, I, so))
            c = s.fresh('ext', s.A(I, so))
            st.pc.append(FA([i], Implies(And(0 <= i, i < n), z3.Select(c, i) == z3.Select(a, i)), patterns=[z3.Select(c, i), z3.Select(a, i)]))
            st.pc.append(FA([i], Implies(And(0 <= i, i < m), z3.Select(c, n + i) == z3.Select(b, i)), patterns=[z3.Select(b, i)]))
            st.pc.append(FA([i], Implies(And(n <= i, i < n + m), z3.Select(c, i) == z3.Select(b, i - n)), patterns=[z3.Select(c, i)]))
            s.hset(st, f'{tn}.e{suf}', l.e, c, s.A(I, I, so))
        so = s.lscalar(l.t)
        if so is not None: s.hset(st, tn + '.pos', l.e, s.fresh('lpos', s.A(so, I)), s.A(I, so, I))
        s.hset(st, tn + '.len', l.e, z3.simplify(n + m), s.A(I, I))
        s.list_ghost(st, l)
    def set_union(s, st, l, r):
        n = s.new_set(st, l.t)
        a, b = s.ddom(st, l), s.ddom(st, r)
        K = s.ksort(l.t[1])
        d = s.fresh('union', a.sort())
        k = s.bv('k', K)
        st.pc.append(FA([k], z3.Select(d, k) == Or(z3.Select(a, k), z3.Select(b, k)), patterns=[z3.Select(d, k)]))
        st.pc.append(FA([k], Implies(z3.Select(a, k), z3.Select(d, k)), patterns=[z3.Select(a, k)]))
        st.pc.append(FA([k], Implies(z3.Select(b, k), z3.Select(d, k)), patterns=[z3.Select(b, k)]))
        s.hset(st, tname(l.t) + '.dom', n.e, d, s.A(I, K, B))
        return n
    def list_from(s, st, t, n, getf, both=False):
        """fresh list with elements getf(i) (Value) for symbolic i"""
        r = s.new_list(st, t)
        s.havoc_list(st, r, n)
        i = s.bv('i', I)
        v = getf(i)
        tn = tname(t)
        for (suf, so), e in zip(s.flat(t[1]), s.unpack(v, t[1])):
            a = s.hsel(st, f'{tn}.e{suf}', r.e, s.A(I, I, so))
            pats = [z3.Select(a, i)] + ([e] if both else [])
            st.pc.append(FA([i], Implies(And(0 <= i, i < n), z3.Select(a, i) == e), patterns=pats, qid='list_from'))
        return r

    # ------------------------------------------------------------ iteration
    def iterate(s, e, st, node):
        """AST of an iterable -> IterSeq or a python list of Values"""
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and s.is_builtin(f.id, st):
                if f.id == 'range':
                    a = [s.as_int(s.eval(x, st)) for x in e.args]
                    lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else (a[0], a[1])
                    if len(a) > 2: s.unsupported('range step', e)
                    if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() <= 8 and not s.spec:
                        return [VInt(k) for k in range(lo.as_long(), hi.as_long())]
                    n = If(hi > lo, hi - lo, z3.IntVal(0))
                    if not s.spec:
                        nn = s.fresh('n', I); st.pc.append(nn == n); n = nn
                    q = IterSeq(n, lambda i, q: VInt(z3.simplify(lo + i)), desc='range')
                    q.keysort = None; q.bounds = (lo, hi)
                    return q
                if f.id == 'enumerate':
                    q = s.iterate(e.args[0], st, node)
                    if isinstance(q, list): return [VTuple([VInt(i), v]) for i, v in enumerate(q)]
                    g = q.get
                    r = copy.copy(q); r.get = lambda i, st2: VTuple([VInt(i), g(i, st2)])
                    return r
                if f.id == 'zip':
                    qs = [s.iterate(a, st, node) for a in e.args]
                    if any(isinstance(q, list) for q in qs): s.unsupported('zip of literals', e)
                    n = qs[0].n
                    for q in qs[1:]: n = If(q.n < n, q.n, n)
                    r = IterSeq(n, lambda i, st2: VTuple([q.get(i, st2) for q in qs]), stable=sum((list(q.stable) for q in qs), []))
                    r.keysort = None
                    return r
                if f.id == 'reversed':
                    q = s.iterate(e.args[0], st, node)
                    if isinstance(q, list): return q[::-1]
                    g = q.get; r = copy.copy(q); r.get = lambda i, st2: g(z3.simplify(q.n - 1 - i), st2)
                    r.keyat = None; r.idxof = None
                    return r
                if f.id == 'sorted':
                    return s.iter_sorted(e, st, node)
            if isinstance(f, ast.Attribute) and f.attr in ('items', 'keys', 'values') and not e.args:
                d = s.eval(f.value, st)
                if isinstance(d, VConst): return [s.lift(x) if f.attr != 'items' else VTuple([s.lift(x[0]), s.lift(x[1])]) for x in getattr(d.v, f.attr)()]
                if isinstance(d, VOpt): s.implicit(st, d.none, 'AttributeError', e, 'None.items'); d = d.v
                if isinstance(d, VRef) and d.t[0] == 'dict': return s.iter_dict(d, f.attr, st)
            if isinstance(f, ast.Attribute) and f.attr == 'chain' and isinstance(f.value, ast.Name) and f.value.id == 'itertools' and len(e.args) == 2 and not e.keywords:
                a, b = [s.iterate(x, st, node) for x in e.args]
                if isinstance(a, list) or isinstance(b, list): s.unsupported('chain of literals', e)
                r = IterSeq(a.n + b.n, lambda i, q: s.merge_val(i < a.n, a.get(i, q.copy()), b.get(z3.simplify(i - a.n), q.copy())), stable=list(a.stable) + list(b.stable))
                r.keysort = None
                return r
        v = s.eval(e, st)
        return s.iter_val(v, st, e)
    def iter_val(s, v, st, e):
        if isinstance(v, VOpt):
            s.implicit(st, v.none, 'TypeError', e, 'iteration over None'); v = v.v
        if isinstance(v, VConst): return [s.lift(x) for x in v.v]
        if isinstance(v, VTuple): return list(v.items)
        if isinstance(v, VFun) and v.kind == 'view':
            return s.iter_dict(v.data[1], v.data[0], st)
        if isinstance(v, VFun) and v.kind == 'iter': return v.data[0]
        if isinstance(v, VStr):
            lv = s.strth.litval(v.e)
            q = IterSeq(s.strth.length(v.e), lambda i, q: VStr(s.strth.char(v.e, i)))
            q.keysort = None
            st.pc.append(q.n >= 0)
            return q
        if isinstance(v, VRef) and v.t == ('obj', 'TextIO') and not s.spec:      # the lines of a file just opened
            lines, pth = s.specs.funcs['fline'], s.fget(st, v, 'path', e)
            n = s.fresh('n', I)
            st.pc.append(n == s.as_int(s.call_spec(s.specs.funcs['fcount'], [pth], st))); st.pc.append(n >= 0)
            p0 = z3.simplify(s.as_int(s.fget(st, v, 'pos', e)))
            if not (z3.is_int_value(p0) and p0.as_long() == 0): s.unsupported('iteration over a file read before', e)
            q = IterSeq(n, lambda i, q: s.call_spec(lines, [pth, VInt(i)], q), desc='file')
            q.keysort = None
            return q
        if isinstance(v, VRef):
            if v.t[0] == 'list':
                if s.has_tv(v.t): return []
                n = s.llen(st, v)
                st.pc.append(n >= 0) if not s.spec else None
                q = IterSeq(n, lambda i, q: s.lget(q, v, i), stable=[(tname(v.t) + '.len', v.e, s.A(I, I))] + [(f'{tname(v.t)}.e{suf}', v.e, s.A(I, I, so)) for suf, so in s.flat(v.t[1])])
                q.keysort = None; q.listref = v
                return q
            if v.t[0] in ('dict', 'set'):
                if s.has_tv(v.t): return []
                return s.iter_dict(v, 'keys', st)
        s.unsupported(f'iteration over {v}', e)
    def dstable(s, v):
        return [(tname(v.t) + '.dom', v.e, s.A(I, s.ksort(v.t[1]), B))]
    def iter_dict(s, d, what, st):
        K = s.ksort(d.t[1])
        dom = s.ddom(st, d)
        n = s.card(dom)
        if s.ordered(d.t):
            tn = tname(d.t)
            s.dict_wf(st, d)
            o = s.hsel(st, tn + '.ord', d.e, s.A(I, I, K)); p = s.hsel(st, tn + '.pos', d.e, s.A(I, K, I))
            keyat = lambda i: z3.Select(o, i)
            idxof = lambda k: z3.Select(p, k)
        else:
            s.nfresh += 1
            kf = z3.Function(f'enum!{s.nfresh}', I, K); xf = z3.Function(f'eidx!{s.nfresh}', K, I)
            keyat, idxof = (lambda i: kf(i)), (lambda k: xf(k))
            if not s.spec: s.enum_facts(st, dom, keyat, idxof, n, K)
        return s.mk_dict_iter(d, what, dom, n, keyat, idxof, K)
    def mk_dict_iter(s, d, what, dom, n, keyat, idxof, K):
        def get(i, q):
            k = keyat(i)
            kv = s.kval(k, d.t[1])
            if what == 'keys':
                s.refs_allocated(q, kv)
                return kv
            v = s.dval(q, d, k)
            s.refs_allocated(q, v)
            if not s.spec:
                q.pc.append(z3.Select(dom, k))
            return v if what == 'values' else VTuple([kv, v])
        r = IterSeq(n, get, dom=dom, keyat=keyat, idxof=idxof, stable=s.dstable(d))
        r.keysort = K; r.dref = d; r.what = what
        return r
    def sorted_funs(s, dom, K):
        sk = z3.Function(f'sk!{K}', dom.sort(), I, K); si = z3.Function(f'sidx!{K}', dom.sort(), K, I)
        return (lambda i: sk(dom, i)), (lambda k: si(dom, k))
    def klt(s, a, b):
        K = a.sort()
        if K == I: return a < b
        if K == s.strth.S: return s.strth.lt(a, b)
        if K.kind() == z3.Z3_DATATYPE_SORT:
            acc = [K.accessor(0, j) for j in range(K.constructor(0).arity())]
            r = z3.BoolVal(False)
            for f in reversed(acc):
                r = Or(s.klt(f(a), f(b)), And(f(a) == f(b), r))
            return r
        raise Unsupported('order on ' + str(K))
    def sorted_facts(s, st, dom, K):
        keyat, idxof = s.sorted_funs(dom, K)
        n = s.card(dom)
        if any(dom.eq(x) for x in s.sorted_done): 
            pass
        s.enum_facts(st, dom, keyat, idxof, n, K)
        i, j = s.bv('i', I), s.bv('j', I)
        st.pc.append(FA([i, j], Implies(And(0 <= i, i < j, j < n), s.klt(keyat(i), keyat(j))), patterns=[z3.MultiPattern(keyat(i), keyat(j))], qid='sorted'))
        return keyat, idxof, n
    sorted_done = ()
    def iter_sorted(s, e, st, node):
        a = e.args[0]
        kw = {k.arg: k.value for k in e.keywords}
        if kw: return s.iter_val(s.sorted_list(e, st), st, e)
        what = 'keys'
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in ('items', 'keys') and not a.args:
            d = s.eval(a.func.value, st); what = a.func.attr
        else: d = s.eval(a, st)
        if isinstance(d, VFun) and d.kind == 'view': what, d = d.data
        if isinstance(d, VConst): 
            return [s.lift(x) for x in sorted(d.v)]
        if isinstance(d, VRef) and d.t[0] in ('dict', 'set') and what in ('keys', 'items'):
            K = s.ksort(d.t[1])
            dom = s.ddom(st, d)
            keyat, idxof, n = s.sorted_facts(st, dom, K)
            return s.mk_dict_iter(d, what, dom, n, keyat, idxof, K)
        if isinstance(d, VRef) and d.t[0] == 'list': return s.iter_val(s.sorted_list(e, st), st, e)
        s.unsupported('sorted', e)
    def sorted_list(s, e, st):
        """sorted(list[, key=f][, reverse]) -> fresh list, a permutation in key order"""
        kw = {k.arg: k.value for k in e.keywords}
        if set(kw) - {'key', 'reverse'}: s.unsupported('sorted args', e)
        rev = 'reverse' in kw and isinstance(kw['reverse'], ast.Constant) and kw['reverse'].value
        src = e.args[0]
        l = s.eval(src, st)
        if isinstance(l, VFun) and l.kind == 'view': l = s.to_list(l, st, e)
        if isinstance(l, VRef) and l.t[0] in ('set', 'dict'): l = s.to_list(l, st, e)
        if not (isinstance(l, VRef) and l.t[0] == 'list'): s.unsupported('sorted', e)
        n = s.llen(st, l)
        t = l.t
        s.nfresh += 1
        pf = z3.Function(f'perm!{s.nfresh}', I, I); qf = z3.Function(f'iperm!{s.nfresh}', I, I)
        i, j = s.bv('i', I), s.bv('j', I)
        rng = lambda x: And(0 <= x, x < n)
        st.pc.append(FA([i], Implies(rng(i), And(rng(pf(i)), qf(pf(i)) == i)), patterns=[pf(i)]))
        st.pc.append(FA([i], Implies(rng(i), And(rng(qf(i)), pf(qf(i)) == i)), patterns=[qf(i)]))
        r = s.list_from(st, t, n, lambda i: s.lget_pure(st, l, pf(i)))
        # every source element is reachable: trigger on source elements
        for suf, so in s.flat(t[1])[:1]:
            a = s.hsel(st, f'{tname(t)}.e{suf}', l.e, s.A(I, I, so)); b = s.hsel(st, f'{tname(t)}.e{suf}', r.e, s.A(I, I, so))
            st.pc.append(FA([i], Implies(rng(i), And(rng(qf(i)), z3.Select(b, qf(i)) == z3.Select(a, i))), patterns=[z3.Select(a, i)]))
        kf = s.eval(kw['key'], st) if 'key' in kw else None
        def key(ix):
            v = s.lget_pure(st, r, ix)
            return s.apply_pure(kf, [v], st) if kf else v
        a, b = key(i), key(j)
        lt = s.vlt(b, a, False, st) if rev else s.vlt(a, b, False, st)
        pats = s.patterns([i, j], lt)
        st.pc.append(FA([i, j], Implies(And(0 <= i, i < j, j < n), lt), patterns=pats) if pats else FA([i, j], Implies(And(0 <= i, i < j, j < n), lt)))
        return r
    def lget_pure(s, st, r, i):
        es = [sel(s.hsel(st, f'{tname(r.t)}.e{suf}', r.e, s.A(I, I, so)), i) for suf, so in s.flat(r.t[1])]
        return s.pack(r.t[1], es)
    def apply_pure(s, f, args, st):
        s.spec += 1
        try: return s.call_val(f, args, {}, st, None)
        finally: s.spec -= 1

    # ------------------------------------------------------------ comprehensions
    def ev_ListComp(s, e, st, hint):
        if len(e.generators) != 1: s.unsupported('nested comprehension', e)
        g = e.generators[0]
        q = s.iterate(g.iter, st, e)
        if isinstance(q, list):
            if g.ifs: s.unsupported('filtered comprehension', e)
            vals = []
            saved = dict(st.vars)
            for it in q:
                s.assign(g.target, it, st); vals.append(s.eval(e.elt, st))
            s.restore(st, saved, g.target)
            if s.spec: return VTuple(vals)
            t = hint if hint and hint[0] == 'list' else ('list', s.typeof(vals[0])) if vals else None
            if t is None: return s.ev_List(ast.copy_location(ast.List(elts=[], ctx=ast.Load()), e), st, hint)
            r = s.new_list(st, t)
            for v in vals: s.lappend(st, r, v, e)
            return r
        if g.ifs: s.unsupported('filtered comprehension in expression', e)
        et = [None]
        val, facts, i = s.pure_body(g, e.elt, q, st, e)
        t = hint if hint and hint[0] == 'list' and not s.has_tv(hint) else ('list', s.typeof(val))
        r = s.new_list(st, t)
        s.havoc_list(st, r, q.n)
        tn = tname(t)
        eqs = [z3.Select(s.hsel(st, f'{tn}.e{suf}', r.e, s.A(I, I, so)), i) == x for (suf, so), x in zip(s.flat(t[1]), s.unpack(val, t[1]))]
        pats = [z3.Select(s.hsel(st, f'{tn}.e{s.flat(t[1])[0][0]}', r.e, s.A(I, I, s.flat(t[1])[0][1])), i)]
        st.pc.append(FA([i], Implies(And(0 <= i, i < q.n), And(*(facts + eqs))), patterns=pats, qid='listcomp'))
        if getattr(q, 'dref', None) is not None and q.keyat is not None and not s.spec:
            k = s.bv('k', q.keysort)      # every key of the dict reaches its element
            st.pc.append(FA([k], Implies(z3.Select(q.dom, k), And(0 <= q.idxof(k), q.idxof(k) < q.n, q.keyat(q.idxof(k)) == k, *[z3.substitute(x, (i, q.idxof(k))) for x in eqs])), patterns=[z3.Select(q.dom, k)], qid='listcompk'))
        return r
    def restore(s, st, saved, target):
        for n in ast.walk(target):
            if isinstance(n, ast.Name):
                if n.id in saved: st.vars[n.id] = saved[n.id]
                else: st.vars.pop(n.id, None)
    def pure_body(s, g, elt, q, st, node):
        """evaluate elt for an arbitrary index; obligations hold for an arbitrary
        index; facts and fresh constants are generalised to functions of it"""
        i = s.fresh('ci', I)
        n0 = s.nfresh
        b = st.copy()
        b.pc.append(And(0 <= i, i < q.n))
        base = len(b.pc)
        saved = dict(b.vars)
        s.assign(g.target, q.get(i, b), b)
        heap0, alloc0 = dict(b.heap), b.alloc
        v = s.eval(elt, b)
        if any(b.heap[k] is not heap0.get(k, s.init.get(k)) for k in b.heap) or b.alloc is not alloc0:
            s.unsupported('comprehension with effects', node)
        iv = s.bv('i', I)
        es = s.unpack(v, s.typeof(v))
        facts = b.pc[base:]
        es2, facts2 = s.generalise(i, iv, n0, es, facts)
        return s.pack(s.typeof(v), es2), facts2, iv
    def generalise(s, i, iv, n0, es, facts):
        subs = [(i, iv)]
        seen = set(); todo = list(es) + list(facts)
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_quantifier(t): todo.append(t.body()); continue
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                if '!' in nm:
                    suf = nm.rsplit('!', 1)[1]
                    if suf.isdigit() and int(suf) > n0 and not nm.startswith('ci!') :
                        f = z3.Function('sk.' + nm, I, t.sort())
                        subs.append((t, f(iv)))
            else: todo += t.children()
        return [z3.substitute(x, *subs) for x in es], [z3.substitute(x, *subs) for x in facts]
    def ev_GeneratorExp(s, e, st, hint): return VFun('gen', e)
    def ev_SetComp(s, e, st, hint):
        s.unsupported('set comprehension', e)
    def ev_DictComp(s, e, st, hint):
        s.unsupported('dict comprehension', e)
    def quant_gen(s, e, st, isall):
        """all(...)/any(...) over a generator expression"""
        return VBool(s.quant(e.generators, e.elt, st, isall))
    def quant(s, gens, elt, st, isall):
        if not gens:
            t = s.truth(s.eval(elt, st), st)
            return t
        g = gens[0]
        saved_b = dict(s.bound) if s.bound else {}
        it = g.iter
        # specification-only infinite domains
        if s.spec and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('ints', 'strs', 'refs'):
            if it.func.id == 'refs':
                t = s.prog.parse_type(it.args[0], s.cur_mod()) if not isinstance(it.args[0], ast.Constant) else ('rec', it.args[0].value)
                x = s.bv('r', I); val = VRef(x, t)
            else:
                x = s.bv('x', I if it.func.id == 'ints' else s.strth.S)
                val = VInt(x) if it.func.id == 'ints' else VStr(x)
            return s.quant_var(g, gens, elt, st, isall, x, x > 0 if it.func.id == 'refs' else z3.BoolVal(True), lambda q: val, saved_b)
        q = s.iterate(it, st, it)
        if isinstance(q, list):
            out = []
            saved = dict(st.vars)
            for v in q:
                s.bind_target(g.target, v, st)
                c = And(*[s.truth_of(x, st) for x in g.ifs])
                b = s.quant(gens[1:], elt, st, isall)
                out.append(Implies(c, b) if isall else And(c, b))
            s.unbind(g.target, saved, st, saved_b)
            return (And if isall else Or)(*out)
        if s.spec and getattr(q, 'dref', None) is not None:
            # quantify over keys directly
            K = q.keysort
            x = s.bv('k', K)
            d = q.dref
            kv = s.kval(x, d.t[1])
            val = (lambda qq: kv) if q.what == 'keys' else ((lambda qq: s.dval(qq, d, x)) if q.what == 'values' else (lambda qq: VTuple([kv, s.dval(qq, d, x)])))
            return s.quant_var(g, gens, elt, st, isall, x, sel(q.dom, x, s.strth), val, saved_b)
        if s.spec and getattr(q, 'bounds', None):
            x = s.bv('i', I); lo, hi = q.bounds
            return s.quant_var(g, gens, elt, st, isall, x, And(lo <= x, x < hi), lambda qq: VInt(x), saved_b)
        if s.spec:
            x = s.bv('i', I)
            return s.quant_var(g, gens, elt, st, isall, x, And(0 <= x, x < q.n), lambda qq: q.get(x, qq), saved_b)
        # program mode: obligations are generated for an arbitrary index
        i = s.fresh('ci', I); n0 = s.nfresh
        b = st.copy(); b.pc.append(And(0 <= i, i < q.n)); base = len(b.pc)
        s.assign(g.target, q.get(i, b), b)
        conds = []
        for x in g.ifs:
            c = s.truth_of(x, b); b.pc.append(c); conds.append(c)
        body = s.quant(gens[1:], elt, b, isall)
        facts = b.pc[base:]
        iv = s.bv('i', I)
        (f2, *_), facts2 = s.generalise(i, iv, n0, [Implies(And(*conds), body) if isall else And(*(conds + [body]))], facts)
        facts3 = [f for f in facts2]
        r = s.fresh('quant', B)
        rng = And(0 <= iv, iv < q.n)
        if isall: Q = FA([iv], Implies(rng, f2))
        else: Q = z3.Exists([iv], And(rng, f2))
        st.pc.append(r == Q)
        return r
    def bind_target(s, t, v, st):
        if s.spec:
            s.bound = dict(s.bound or {})
            s._bind(t, v)
        else: s.assign(t, v, st)
    def _bind(s, t, v):
        if isinstance(t, ast.Name): s.bound[t.id] = v
        else:
            for a, b in zip(t.elts, v.items): s._bind(a, b)
    def unbind(s, t, saved, st, saved_b):
        s.bound = saved_b
        if not s.spec: s.restore(st, saved, t)
    bound = None
    def quant_var(s, g, gens, elt, st, isall, x, rng, valf, saved_b):
        val = valf(st)
        s.bind_target(g.target, val, st)
        conds = [rng] + [s.truth_of(c, st) for c in g.ifs]
        # flatten nested quantifiers of the same kind
        body = s.quant(gens[1:], elt, st, isall)
        s.bound = saved_b
        if isall:
            f = Implies(And(*conds), body)
            if z3.is_true(f): return f
            if z3.is_quantifier(body) and body.is_forall() and body.num_vars() == 1:
                y = s.bv('y', body.var_sort(0))
                g2 = Implies(And(*conds), z3.substitute_vars(body.body(), y))
                if s.patterns([x, y], g2): return s.mk_forall([x, y], g2)
            return s.mk_forall([x], f)
        f = And(*(conds + [body]))
        if z3.is_false(f): return f
        return z3.Exists([x], f)
    def mk_forall(s, vs, f):
        pats = s.patterns(vs, f)
        return FA(vs, f, patterns=pats) if pats else FA(vs, f)
    def patterns(s, vs, f, maxn=6):
        """minimal uninterpreted/select subterms that contain all the variables as bare arguments"""
        ids = {v.get_id() for v in vs}
        memo = {}
        def has(t):
            k = t.get_id()
            if k in memo: return memo[k]
            if k in ids: r = frozenset([k])
            elif z3.is_quantifier(t): r = has(t.body())
            else:
                r = frozenset()
                for c in t.children(): r |= has(c)
            memo[k] = r
            return r
        cands = []
        okd = {}
        def usable(t):
            """no arithmetic / boolean structure / inner bound vars on the way"""
            k = t.get_id()
            if k in okd: return okd[k]
            if k in ids: r = True
            elif z3.is_var(t) or z3.is_quantifier(t): r = False
            elif not has(t): r = not s.has_var(t, True)
            elif z3.is_app(t):
                kd = t.decl().kind()
                r = kd in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_STORE) and all(usable(c) for c in t.children())
            else: r = False
            okd[k] = r
            return r
        seen = set()
        def walk(t):
            if t.get_id() in seen: return
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                # subterms without inner bound variables still count
                walk(t.body()); return
            if not has(t): return
            if z3.is_app(t) and t.num_args() > 0:
                for c in t.children(): walk(c)
                if has(t) == ids and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and usable(t):
                    cands.append(t)
        walk(f)
        out = []
        for t in cands:
            if any(s.subterm(o, t) for o in out): continue
            out.append(t)
        if out: return out[:maxn]
        if len(vs) == 2:
            a = s.patterns([vs[0]], f, 1); b = s.patterns([vs[1]], f, 1)
            a = [t for t in a]; b = [t for t in b]
            if a and b: return [z3.MultiPattern(a[0], b[0])]
        return []
    def has_var(s, t, ite=False):
        todo = [t]; seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_var(x): return True
            if z3.is_quantifier(x): 
                if ite: return True
                continue
            if ite and z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_ITE or (z3.is_bool(x) and x.num_args() > 0 and x.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT))): return True
            todo += x.children()
        return False
    def subterm(s, a, t):
        if a.eq(t): return True
        return any(s.subterm(a, c) for c in t.children())

    # ------------------------------------------------------------ calls
    def is_builtin(s, n, st):
        return n not in st.vars and not (s.bound and n in s.bound) and s.prog.resolve(s.cur_mod(), n) is None
    def ev_Call(s, e, st, hint):
        f = e.func
        if isinstance(f, ast.Attribute):
            root = f
            while isinstance(root, ast.Attribute): root = root.value
            if isinstance(root, ast.Name) and root.id == 'sys' and 'sys' not in st.vars and f.attr == 'exit':
                q = st.copy(); s.pending.append(('raise', q, VExc('SystemExit')))
                st.pc.append(z3.BoolVal(False))
                return VNone()
            if isinstance(root, ast.Name) and root.id in IGNORED and root.id not in st.vars:
                for a in e.args: s.eval_quiet(a, st)
                return VNone()
            if isinstance(root, ast.Name) and root.id == 'argparse' and 'argparse' not in st.vars and f.attr == 'ArgumentParser':
                s.options = []
                return s.alloc(st, ('obj', 'ArgumentParser'))
            if isinstance(f.value, ast.Name) and not s.spec:
                o = st.vars.get(f.value.id)
                if isinstance(o, VRef) and o.t == ('obj', 'ArgumentParser'): return s.argparse_call(f.attr, e, st)
            if isinstance(root, ast.Name) and root.id == 'os' and 'os' not in st.vars and ast.unparse(f) == 'os.path.join' and len(e.args) == 2 and not e.keywords:
                a = [s.eval(x, st) for x in e.args]
                s.assumed.add('os.path.join is a function of its arguments (Python library)')
                return VStr(s.strth.pathjoin(a[0].e, a[1].e))
        if isinstance(f, ast.Name):
            n = f.id
            if s.spec and n in s.SPEC_FORMS: return s.spec_form(n, e, st)
            if s.spec and n in s.specs.funcs and n not in st.vars: return s.call_spec(s.specs.funcs[n], [s.eval(a, st) for a in e.args], st)
            if n == 'cast': 
                t = None
                try: t = s.prog.parse_type(e.args[0], s.cur_mod())
                except Unsupported: pass
                return s.eval(e.args[1], st, t or hint)
            if s.is_builtin(n, st) or n in ('OrderedDict', 'Counter') :
                return s.builtin(n, e, st, hint)
        fv = s.eval(f, st)
        if isinstance(fv, VFun) and fv.kind in ('bm', 'ext'):
            return s.builtin_method(fv, e, st, hint)
        # type hints for parameters
        fi = fv.data[0] if isinstance(fv, VFun) and fv.kind in ('func', 'method', 'local') else None
        hints, khints = [], {}
        if fi is not None:
            ps = [a for a in fi.node.args.args]
            if fi.cls is not None and fv.kind == 'method': ps = ps[1:]
            for a in ps + fi.node.args.kwonlyargs:
                try: t = s.prog.parse_type(a.annotation, fi.mod) if a.annotation is not None else None
                except Unsupported: t = None
                hints.append(t); khints[a.arg] = t
        elif isinstance(fv, VFun) and fv.kind == 'class':
            ci = fv.data[0]
            if ci.kind == 'rec':
                if e.args and isinstance(e.args[0], ast.Dict): return s.new_rec(e.args[0], st, ('rec', ci.name))
                r = s.new_rec(None, st, ('rec', ci.name))
                for k in e.keywords: s.fset(st, r, k.arg, s.eval(k.value, st, s.fields(r.t).get(k.arg)), e)
                return r
            if ci.kind in ('ntuple', 'dataclass'):
                names = list(ci.fields)
                for nme in names:
                    try: t = s.prog.parse_type(ci.fields[nme], ci.mod)
                    except Unsupported: t = None
                    hints.append(t); khints[nme] = t
            elif '__init__' in ci.methods:
                for a in ci.methods['__init__'].node.args.args[1:]:
                    try: t = s.prog.parse_type(a.annotation, ci.mod) if a.annotation is not None else None
                    except Unsupported: t = None
                    hints.append(t); khints[a.arg] = t
        args = []
        for i, a in enumerate(e.args):
            if isinstance(a, ast.Starred): s.unsupported('star args', e)
            args.append(s.eval(a, st, hints[i] if i < len(hints) else None))
        kws = {}
        for k in e.keywords:
            if k.arg is None: s.unsupported('** args', e)
            kws[k.arg] = s.eval(k.value, st, khints.get(k.arg))
        return s.call_val(fv, args, kws, st, e)
    def eval_quiet(s, a, st):
        """arguments of logging calls: only evaluated for implicit exceptions"""
        try: s.eval(a, st)
        except Unsupported: pass
    def call_val(s, fv, args, kws, st, e):
        if not isinstance(fv, VFun): s.unsupported(f'call of {fv}', e)
        k = fv.kind
        if k == 'func': return s.call_func(fv.data[0], args, kws, st, e)
        if k == 'local':
            return s.call_func(fv.data[0], args, kws, st, e, closure=st.vars)
        if k == 'method': return s.call_func(fv.data[0], [fv.data[1]] + args, kws, st, e)
        if k == 'lambda':
            node, env = fv.data
            q = st
            saved = st.vars
            st.vars = dict(env)
            sb = s.bound
            if s.spec: s.bound = dict(s.bound or {})
            for p, v in zip(node.args.args, args):
                if s.spec: s.bound[p.arg] = v
                st.vars[p.arg] = v
            try: return s.eval(node.body, st)
            finally: st.vars = saved; s.bound = sb
        if k == 'spec': return s.call_spec(fv.data[0], args, st)
        if k == 'class': return s.construct(fv.data[0], args, kws, st, e)
        s.unsupported(f'call of {k} {fv.data}', e)
    def construct(s, ci, args, kws, st, e):
        if ci.kind == 'ntuple':
            names = list(ci.fields)
            vals = dict(zip(names, args)); vals.update(kws)
            for n in names:
                if n not in vals:
                    if n in ci.consts: vals[n] = s.lift(s.const_eval(ci.consts[n], ci.mod))
                    else: s.unsupported('missing field ' + n, e)
            return VTuple([vals[n] for n in names], names, ci.name)
        r = s.alloc(st, ('obj', ci.name))
        if ci.kind == 'dataclass':
            names = list(ci.fields)
            vals = dict(zip(names, args)); vals.update(kws)
            for n in names:
                if n not in vals:
                    if n in ci.consts: vals[n] = s.lift(s.const_eval(ci.consts[n], ci.mod))
                    else: s.unsupported('missing field ' + n, e)
                s.fset(st, r, n, vals[n], e)
            return r
        init = ci.methods.get('__init__')
        if init: s.call_func(init, [r] + args, kws, st, e)
        return r
    def bind_params(s, fi, args, kws, e):
        a = fi.node.args
        if a.vararg or a.kwarg: s.unsupported('varargs of ' + fi.qual, e)
        params = a.args
        out = {}
        for p, v in zip(params, args): out[p.arg] = v
        if len(args) > len(params): s.unsupported('too many arguments', e)
        out.update(kws)
        defs = dict(zip([p.arg for p in params[len(params) - len(a.defaults):]], a.defaults))
        defs.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in params + a.kwonlyargs:
            if p.arg not in out:
                if p.arg not in defs: s.unsupported(f'missing argument {p.arg}', e)
                out[p.arg] = s.lift(s.const_eval(defs[p.arg], fi.mod))
        return out
    def call_func(s, fi, args, kws, st, e, closure=None):
        params = s.bind_params(fi, args, kws, e)
        con = s.specs.contracts.get(fi.qual)
        if s.spec: return s.pure_inline(fi, params, st, e)
        top = s.specs.contracts.get(s.fn.qual)
        if top is not None and top.calls: s.watched_call(top, fi, params, st, e)
        if top is not None and top.opts.get('opaque') and fi is not s.fn and not (con is None and fi.qual not in shape.base()) and not (con is not None and fi.qual in s.opts.get('usecontract', ())): return s.call_opaque(fi, params, st, e)
        if con is not None and (fi is not s.fn or s.callstack) and con.active(s.prop) and not con.inline:
            return s.call_contract(con, fi, params, st, e)
        if any(x.qual == fi.qual for x in s.callstack): s.unsupported('recursive call without contract', e)
        return s.inline_call(fi, params, st, e, closure)
    # ---- argparse: options declared one after the other, parse_args gives their values
    def argparse_call(s, n, e, st):
        body = s.callstack[-1].node.body
        if s.loopstack or len(s.callstack) > 1 or not any(x.value is e for x in body if isinstance(x, (ast.Expr, ast.Assign, ast.AnnAssign))): s.unsupported('conditional ' + n, e)
        if n == 'add_argument':
            kw = {}
            for k in e.keywords:
                if k.arg not in ('help', 'default', 'required', 'type', 'choices', 'action', 'dest'): s.unsupported(f'add_argument({k.arg}=)', e)
                if k.arg != 'help': kw[k.arg] = k.value.id if k.arg == 'type' and isinstance(k.value, ast.Name) else ast.literal_eval(k.value) if k.arg != 'type' else None
            names = [a.value for a in e.args if isinstance(a, ast.Constant)]
            long = [x for x in names if x.startswith('--')]
            act = kw.get('action', 'store')
            if len(names) != len(e.args) or not long or kw.get('type', 'int') not in ('int', 'str') or act not in ('store', 'store_true', 'store_false'): s.unsupported('add_argument', e)
            dest = kw.get('dest') or long[0][2:].replace('-', '_')
            s.options.append((long[0], dest, act, kw))
            return VNone()
        if n != 'parse_args' or e.args or e.keywords: s.unsupported('argparse ' + n, e)
        s.assumed.add('argparse: an attribute of the parsed arguments is the converted value of its option, its default when the option is absent (Python library)')
        ns = s.alloc(st, ('obj', 'Namespace'))
        at = s.specs.attr_types['Namespace'] = {}
        dests = {}
        for o in s.options: dests.setdefault(o[1], []).append(o)
        for d, os_ in dests.items():
            flag = os_[0][2] != 'store'
            if any((x[2] != 'store') != flag for x in os_) or not flag and len(os_) > 1: s.unsupported('options sharing ' + d, e)
            if flag:
                x = os_[0][3]
                dv = x['default'] if 'default' in x else os_[0][2] == 'store_false'
                if not isinstance(dv, bool): s.unsupported('default of ' + d, e)
                v = s.fresh('opt.' + d, B)
                given = [s.opt_given(x[0]) for x in os_]
                st.pc.append(Implies(Not(Or(*given)), v == z3.BoolVal(dv)))
                for k, x in enumerate(os_):
                    st.pc.append(Implies(And(given[k], *[Not(g) for j, g in enumerate(given) if j != k and os_[j][2] != x[2]]), v == z3.BoolVal(x[2] == 'store_true')))
                at[d] = ('bool',)
                s.fset(st, ns, d, VBool(v), e)
                continue
            name, _, _, kw = os_[0]
            t = ('int',) if kw.get('type') == 'int' else ('str',)
            g, v = s.opt_given(name), s.opt_value(name, t)
            if kw.get('required'): st.pc.append(g)
            if 'choices' in kw: st.pc.append(Implies(g, Or(*[v.e == s.lift(c).e for c in kw['choices']])))
            dv = kw.get('default')
            if dv is None and not kw.get('required'):
                at[d] = ('opt', t); val = VOpt(Not(g), v)
            else:
                at[d] = t
                val = v if dv is None or kw.get('required') else s.pack(t, [If(g, v.e, s.lift(dv).e)])
            s.fset(st, ns, d, val, e)
        return ns
    def opt_given(s, name): return z3.Const('optgiven.' + name, B)
    def opt_value(s, name, t): return s.pack(t, [z3.Const('opt%s.%s' % (t[0], name), s.tsort(t))])
    # ---- calls of a function under contract(calls=…): clauses about the arguments; opts['opaque']: what the called program functions do is left open
    def watched_call(s, con, fi, params, st, e):
        for k, cs in con.calls.items():
            if fi.qual == k or fi.qual.endswith((':' + k, '.' + k)):
                q = st.copy(); q.vars = dict(st.vars); q.vars.update({'p_' + p: (v.v if isinstance(v, VMaybe) else v) for p, v in params.items()})
                q.old = st.old
                for c in cs:
                    if c.relevant(s.prop): s.oblige(st, s.spec_bool(c.tree, q, s.fn), 'call', f'{s.fn.qual}: call of {k}: {c.text}', e)
                if s.loopstack: s.unsupported('call of ' + k + ' in a loop', e)
                s.watched.add(k)
                st.heap['called:' + k] = z3.BoolVal(True)
    def call_opaque(s, fi, params, st, e):
        """nothing is known after the call except that objects of this function it was not given are as before"""
        s.opaque_calls.add(fi.qual)
        for v in params.values():
            if isinstance(v, VRef): s.escaped.append(v.e)
        keep = [v for v in st.vars.values() if isinstance(v, VRef) and not any(v.e.eq(x) for x in s.escaped)]
        s.pending.append(('raise', st.copy(), VExc('CalleeError')))
        a2 = s.fresh('alloc', I); st.pc.append(a2 >= st.alloc); st.alloc = a2
        for comp in list(st.heap):
            if comp.startswith('called:'): continue
            cur = st.heap[comp]; n = s.fresh('op.' + comp, cur.sort())
            if z3.is_array(cur):
                for v in keep: st.pc.append(z3.Select(n, v.e) == z3.Select(cur, v.e))
            st.heap[comp] = n; s.logall(comp)
        if fi.node.returns is None: return VNone()
        t = s.prog.parse_type(fi.node.returns, fi.mod)
        if t[0] == 'none': return VNone()
        r = s.fresh_val('ret.' + fi.name, t); s.refs_allocated(st, r)
        return r
    def inline_call(s, fi, params, st, e, closure=None):
        if len(s.callstack) > s.MAXINLINE: s.unsupported('inline depth', e)
        s.inlined.add(fi.qual)
        saved = (st.vars, st.old, st.pre, st.extra)
        q = st.copy()
        q.vars = dict(params)
        for p, v in list(params.items()):
            if isinstance(v, VMaybe): q.vars[p] = v.v
        q.extra = dict(st.extra); q.extra['closure'] = closure
        o = q.copy(); o.old = None
        q.old = o; q.pre = None
        ls = s.loopstack
        s.callstack.append(fi)
        try: outs = s.block(fi.node.body, q)
        finally: s.callstack.pop()
        rets, vals = [], []
        for k, q2, v in outs:
            if k == 'raise':
                q2.vars, q2.old, q2.pre, q2.extra = dict(saved[0]), saved[1], saved[2], saved[3]
                s.pending.append(('raise', q2, v))
            else:
                rets.append(q2); vals.append(v if k == 'return' else VNone())
        if not rets:
            # never returns normally
            st.pc.append(z3.BoolVal(False))
            return VNone()
        for q2, v in zip(rets, vals):
            q2.vars = {'$ret': v}
        m = s.merge_all(rets) if len(rets) > 1 else rets[0]
        v = m.vars.get('$ret', VUndef())
        st.heap, st.pc, st.alloc = m.heap, m.pc, m.alloc
        if isinstance(v, VUndef): s.unsupported('return values of incompatible types in ' + fi.qual, e)
        if isinstance(v, VMaybe): v = v.v
        return v
    def pure_inline(s, fi, params, st, e):
        """a program function used inside a specification: only single-return bodies"""
        con = s.specs.contracts.get(fi.qual)
        body = [b for b in fi.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return):
            saved, sb = st.vars, s.bound
            st2 = st.copy(); st2.vars = dict(params); s.bound = None
            s.callstack.append(fi)
            try: return s.eval(body[0].value, st2)
            finally: s.callstack.pop(); s.bound = sb
        s.unsupported('program function in specification: ' + fi.qual, e)
    def call_contract(s, con, fi, params, st, e):
        s.used_contracts.add(fi.qual)
        for p, v in list(params.items()):
            if isinstance(v, VMaybe): params[p] = v.v
        # static parameter types
        for a in fi.node.args.args + fi.node.args.kwonlyargs:
            if a.annotation is None: continue
            try: t = con.param_type(s.prog, a, fi.mod)
            except Unsupported: continue
            v = params[a.arg]
            if a.arg in con.types:
                if isinstance(v, VRef) and s.has_tv(v.t): s.unify(v.t, t)
                if s.typeof(v) != t: s.unsupported(f'{fi.qual} called with another type than the instance under contract', e)
            if t[0] == 'rec' and isinstance(v, VConst) and isinstance(v.v, dict):       # a constant record of the program
                r = s.new_rec(None, st, t)
                for k, x in v.v.items(): s.fset(st, r, k, s.lift(x), e)
                v = params[a.arg] = r
            if t[0] != 'opt' and isinstance(v, VOpt):
                s.implicit(st, v.none, 'TypeError', e, f'None passed as {a.arg}'); params[a.arg] = v.v
            if isinstance(v, VRef) and s.has_tv(v.t): s.unify(v.t, t if t[0] != 'opt' else t[1])
        cs = st.copy(); cs.vars = dict(params); cs.old = None
        line = getattr(e, 'lineno', None)
        for nm, tree in con.req(s.prop):
            g = s.spec_bool(tree, cs, fi)
            s.oblige(st, g, 'requires', f'{s.callstack[-1].qual if s.callstack else s.fn.qual}: precondition of {fi.qual}: {nm}', e)
        cs = st.copy(); cs.vars = dict(params); cs.old = None
        pre = cs.copy()
        # exceptional exits
        post = cs
        s.apply_modifies(con, fi, post, pre, params)
        for exc, cond in con.raises_when(s.prop):
            q = post.copy()
            if cond is not None:
                q.pc.append(s.spec_bool(cond, pre, fi))
            q.vars, q.old, q.pre, q.extra = dict(st.vars), st.old, st.pre, st.extra
            s.pending.append(('raise', q, VExc(exc)))
        rt = None
        if fi.node.returns is not None:
            rt = con.rettype or s.prog.parse_type(fi.node.returns, fi.mod)
        elif con.rettype: rt = con.rettype
        if rt is None: rt = ('none',)
        rv = s.fresh_val('ret.' + fi.name, rt)
        post.vars['result'] = rv
        s.refs_allocated(post, rv)
        post.old = pre
        for nm, tree in con.ens(s.prop):
            post.pc.append(s.spec_bool(tree, post, fi))
        st.heap, st.pc, st.alloc = post.heap, post.pc, post.alloc
        return rv
    def mod_comps(s, con, fi, pre, params):
        """-> dict comp -> (sort, [refs] or None (whole), newok)"""
        out = {}
        def add(c, so, ref):
            o = out.setdefault(c, [so, [], False])
            if ref is None: o[1] = None
            elif o[1] is not None: o[1].append(ref)
        for m in con.modifies(s.prop):
            if m.startswith('new:'):
                t = s.prog.parse_type(ast.parse(m[4:], mode='eval').body, fi.mod)
                for c, so in s.cont_comps(t):
                    out.setdefault(c, [so, [], False])[2] = True
            elif m.startswith('type:'):
                t = s.prog.parse_type(ast.parse(m[5:], mode='eval').body, fi.mod)
                for c, so in s.cont_comps(t): add(c, so, None)
            elif m.startswith('at:'):
                s.spec += 1
                try: v = s.spec_eval(ast.parse(m[3:], mode='eval').body, pre, fi)
                finally: s.spec -= 1
                if isinstance(v, VOpt): v = VRef(If(v.none, z3.IntVal(0), v.v.e), v.v.t)     # nothing when None
                for c, so in s.cont_comps(v.t): add(c, so, v.e)
            elif m == 'okey': out.setdefault('okey', [s.A(I, s.strth.S), [], False])[2] = True    # new objects only
            elif m.startswith('self.'):
                slf = params['self']; ft = s.fields(slf.t)[m[5:]]
                for suf, so in s.flat(ft): add(f'{slf.t[1]}.{m[5:]}{suf}', s.A(I, so), slf.e)
            elif m.split('.')[0] in params and isinstance(params[m.split('.')[0]], VRef) and params[m.split('.')[0]].t[0] == 'obj':
                slf = params[m.split('.')[0]]; fn = m.split('.')[1]; ft = s.fields(slf.t)[fn]
                for suf, so in s.flat(ft): add(f'{slf.t[1]}.{fn}{suf}', s.A(I, so), slf.e)
            else:
                r, f = m.split('.')
                fs = s.fields(('rec', r)) if r in s.specs.rec_types or (s.prog.find_class(r) and s.prog.find_class(r).kind == 'rec') else s.fields(('obj', r))
                t = ('rec', r) if (r in s.specs.rec_types or s.prog.find_class(r).kind == 'rec') else ('obj', r)
                names = fs if f == '*' else [f]
                for n in names:
                    for suf, so in s.flat(fs[n]): add(f'{r}.{n}{suf}', s.A(I, so), None)
                    if t[0] == 'rec': add(f'{r}.{n}?has', s.A(I, B), None)
                    if t[0] == 'rec' and fs[n][0] == 'list': out.setdefault('okey', [s.A(I, s.strth.S), [], False])[2] = True
        return out
    def apply_modifies(s, con, fi, post, pre, params):
        mods = s.mod_comps(con, fi, pre, params)
        if any(o[2] or s.comp_is_ref(c) for c, o in mods.items()) or con.allocs:
            a2 = s.fresh('alloc', I)
            post.pc.append(a2 >= pre.alloc)
            post.alloc = a2
        for comp, (so, refs, newok) in mods.items():
            cur = s.hget(pre, comp, so)
            if refs is None:
                post.heap[comp] = s.fresh('m.' + comp, so)
                s.logall(comp)
            elif newok:
                n = s.fresh('m.' + comp, so)
                r = s.bv('r', I)
                post.pc.append(FA([r], Implies(And(r < pre.alloc, *[r != q for q in refs]), z3.Select(n, r) == z3.Select(cur, r)), patterns=[z3.Select(n, r)], qid='callframe'))
                post.heap[comp] = n
                for w in s.wlogs:
                    for q in refs: w.append((comp, q))
                for w, fr in zip(s.wlogs, s.fresh_refs):
                    m = s.fresh('newref', I); fr.append(m); w.append((comp, m))
            else:
                n = cur; parts = []
                for q in refs:
                    parts.append(s.fresh('mc.' + comp, so.range()))
                    n = z3.Store(n, q, parts[-1])
                    s.log(comp, q)
                post.heap[comp] = n
                for c in parts: s.closed(post, comp, c)
                continue
            s.closed(post, comp)
    def logall(s, comp):
        for w in s.wlogs: w.append((comp, ANYREF))
    # ------------------------------------------------------------ builtins
    def builtin(s, n, e, st, hint):
        A = e.args
        if n in ('any', 'all') and len(A) == 1 and isinstance(A[0], (ast.GeneratorExp, ast.ListComp)):
            return s.quant_gen(A[0], st, n == 'all')
        if n == 'len':
            v = s.eval(A[0], st)
            return VInt(s.length(v, st, e))
        if n in ('min', 'max'):
            kw = {k.arg: k.value for k in e.keywords}
            if len(A) >= 2:
                vs = [s.eval(a, st) for a in A]
                r = vs[0]
                for v in vs[1:]:
                    c = s.vlt(v, r, True, st) if n == 'min' else s.vlt(r, v, True, st)
                    r = s.merge_val(c, v, r)
                return r
            return s.minmax_list(n, e, st, kw)
        if n == 'int':
            v = s.eval(A[0], st)
            if isinstance(v, VStr):
                if len(A) > 1: s.unsupported('int base', e)
                lv = s.strth.litval(v.e)
                s.implicit(st, Not(s.strth.int_ok(v.e)), 'ValueError', e, 'int() of a string')
                return VInt(s.strth.to_int(v.e))
            return VInt(s.as_int(v))
        if n == 'str':
            v = s.eval(A[0], st)
            if isinstance(v, VStr): return v
            if isinstance(v, (VInt, VBool)): return s.fmt('f:{:}', [v], st)
            return VStr(s.fresh('str', s.strth.S))
        if n == 'bool': return VBool(s.truth(s.eval(A[0], st), st))
        if n == 'abs':
            a = s.as_int(s.eval(A[0], st)); return VInt(z3.If(a < 0, -a, a))
        if n == 'ord':
            v = s.eval(A[0], st)
            r = s.strth.ordc(v.e)
            st.pc.append(And(r >= 0, r <= 0x10ffff)) if not s.spec else None
            return VInt(r)
        if n == 'chr': return VStr(s.strth.chr(s.as_int(s.eval(A[0], st))))
        if n == 'divmod':
            l, r = s.eval(A[0], st), s.eval(A[1], st)
            return VTuple([s.binop(ast.FloorDiv(), l, r, st, e), s.binop(ast.Mod(), l, r, st, e)])
        if n == 'sum':
            v = A[0]
            return VInt(s.sum_of(v, st, e))
        if n == 'isinstance':
            v = s.eval(A[0], st)
            k = ast.unparse(A[1])
            m = {'int': VInt, 'str': VStr, 'bool': VBool}
            if k in m and not isinstance(v, VOpt): return VBool(isinstance(v, m[k]) or (k == 'int' and isinstance(v, VBool)))
            if k in ('list', 'dict', 'set') and isinstance(v, VRef): return VBool(v.t[0] == k)
            s.unsupported('isinstance', e)
        if n in ('list', 'tuple') :
            if not A: return s.ev_List(ast.copy_location(ast.List(elts=[], ctx=ast.Load()), e), st, hint)
            return s.to_list(s.eval(A[0], st), st, e)
        if n == 'sorted': return s.sorted_val(e, st)
        if n == 'set':
            if not A:
                t = s.rtype(s.lit_type(e, st, hint, 'set'))
                if s.has_tv(t): return s.lazy_cont(t, st)
                return s.new_set(st, t)
            v = s.eval(A[0], st)
            r = s.to_set(v, st, e)
            l = getattr(s, 'lastsplit', None)
            if isinstance(A[0], ast.Call) and isinstance(A[0].func, ast.Attribute) and A[0].func.attr == 'split' and l and isinstance(v, VRef) and l[0] is v.e and l[2] is not None:
                d, k = s.ddom(st, r), s.bv('k', s.strth.S)
                st.pc.append(FA([k], z3.Select(d, k) == s.strth.insplit(l[1], l[2], k), patterns=[z3.Select(d, k), s.strth.insplit(l[1], l[2], k)]))
            return r
        if n in ('dict', 'OrderedDict', 'Counter'):
            if not A:
                if n == 'Counter' and hint is None: hint = None
                t = s.rtype(s.lit_type(e, st, hint, 'dict'))
                if s.has_tv(t): return s.lazy_cont(t, st)
                r = s.new_dict(st, t)
                return VRef(r.e, t[:3] + ('counter',)) if n == 'Counter' else r
            if n == 'Counter': s.unsupported('Counter()', e)
            return s.to_dict(A[0], st, e)
        if n == 'bytearray' or n == 'bytes':
            t = ('list', ('int',), 'bytes')
            r = s.new_list(st, t)
            if A:
                v = s.eval(A[0], st)
                if isinstance(v, VTuple):
                    for x in v.items: s.lappend(st, r, x, e)
                else: s.unsupported('bytearray()', e)
            return r
        if n == 'open':
            mode = A[1] if len(A) > 1 else next((k.value for k in e.keywords if k.arg == 'mode'), None)
            ci = s.prog.find_class('TextIO')
            if not A or ci is None or mode is not None and not (isinstance(mode, ast.Constant) and mode.value in ('r', 'rt')): s.unsupported('open', e)
            p = s.eval(A[0], st)
            r = s.alloc(st, ('obj', 'TextIO'))
            s.fset(st, r, 'path', p, e); s.fset(st, r, 'pos', VInt(z3.IntVal(0)), e)
            s.assumed.add('open(path) gives the lines of the file from the start (Python library)')
            return r
        if n == 'print':
            for a in A: s.eval_quiet(a, st)
            return VNone()
        if n == 'enumerate' or n == 'range' or n == 'zip' or n == 'reversed':
            q = s.iterate(e, st, e)
            if isinstance(q, list): return VTuple(q)
            return VFun('iter', q)
        if n == 'hex': return s.fmt('hex', [s.eval(A[0], st)], st)
        if n == 'repr': return VStr(s.fresh('repr', s.strth.S))
        if n in ('Exception', 'ValueError', 'KeyError', 'RuntimeError'):
            for a in A: s.eval(a, st)
            return VExc(n)
        s.unsupported('builtin ' + n, e)
    def length(s, v, st, e):
        if isinstance(v, VOpt): s.implicit(st, v.none, 'TypeError', e, 'len(None)'); v = v.v
        if isinstance(v, VStr):
            r = s.strth.length(v.e)
            return r
        if isinstance(v, VTuple): return z3.IntVal(len(v.items))
        if isinstance(v, VConst): return z3.IntVal(len(v.v))
        if isinstance(v, VFun) and v.kind == 'view': v = v.data[1]
        if isinstance(v, VRef) and v.t[0] == 'list':
            if s.has_tv(v.t): return z3.IntVal(0)
            r = s.llen(st, v)
            if not s.spec: st.pc.append(r >= 0)
            return r
        if isinstance(v, VRef) and v.t[0] in ('dict', 'set'):
            if s.has_tv(v.t): return z3.IntVal(0)
            d = s.ddom(st, v); c = s.card(d)
            if not s.spec:
                st.pc.append(And(c >= 0, (c == 0) == Not(s.nonempty(d))))
            return c
        s.unsupported(f'len of {v}', e)
    def sum_of(s, a, st, e):
        if isinstance(a, (ast.GeneratorExp, ast.ListComp)):
            f = z3.Function(f'sumof!{len(ast.unparse(a))}', I, I)
            return s.fresh('sum', I)
        v = s.eval(a, st)
        return s.fresh('sum', I)
    def minmax_list(s, n, e, st, kw):
        if kw and set(kw) - {'key'}: s.unsupported('min/max args', e)
        q = s.iterate(e.args[0], st, e)
        if isinstance(q, list): s.unsupported('min of literal', e)
        s.implicit(st, q.n <= 0, 'ValueError', e, f'{n}() of empty sequence')
        j = s.fresh('mi', I)
        st.pc.append(And(0 <= j, j < q.n))
        r = q.get(j, st)
        if isinstance(r, VInt) and not s.spec:      # a ground term for the solver
            m = s.fresh('mm', I); st.pc.append(m == r.e); r = VInt(m)
        kf = s.eval(kw['key'], st) if 'key' in kw else None
        i = s.bv('i', I)
        s.spec += 1
        try:
            key = (lambda v: s.call_val(kf, [v], {}, st, e)) if kf else (lambda v: v)
            a, b = key(r), key(q.get(i, st))
            c = s.vlt(a, b, False, st) if n == 'min' else s.vlt(b, a, False, st)
        finally: s.spec -= 1
        f = Implies(And(0 <= i, i < q.n), c)
        pats = s.patterns([i], f)
        st.pc.append(FA([i], f, patterns=pats) if pats else FA([i], f))
        return r
    def to_list(s, v, st, e):
        if isinstance(v, VFun) and v.kind == 'iter': q = v.data[0]
        elif isinstance(v, VTuple):
            t = ('list', s.typeof(v.items[0]))
            r = s.new_list(st, t)
            for x in v.items: s.lappend(st, r, x, e)
            return r
        else:
            if isinstance(v, VRef) and v.t[0] == 'list': return s.list_copy(st, v)
            q = s.iter_val(v, st, e)
        if isinstance(q, list):
            t = ('list', s.typeof(q[0])); r = s.new_list(st, t)
            for x in q: s.lappend(st, r, x, e)
            return r
        return s.seq_list(q, st)
    def seq_list(s, q, st):
        j = s.bv('j', I)
        s.spec += 1
        try: t = ('list', s.typeof(q.get(j, st)))
        finally: s.spec -= 1
        def g(i):
            s.spec += 1
            try: return q.get(i, st)
            finally: s.spec -= 1
        r = s.list_from(st, t, q.n, g)
        if q.keyat is not None and getattr(q, 'what', '') == 'keys':
            # reverse direction: trigger on the domain
            K = q.keysort; k = s.bv('k', K); so = s.lscalar(t)
            if so == K:
                a = s.hsel(st, f'{tname(t)}.e', r.e, s.A(I, I, so))
                st.pc.append(FA([k], Implies(z3.Select(q.dom, k), z3.Select(a, q.idxof(k)) == k), patterns=[z3.Select(q.dom, k)]))
        return r
    def sorted_val(s, e, st):
        kw = {k.arg for k in e.keywords}
        if not kw:
            a = e.args[0]
            v = None
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in ('items', 'keys') and not a.args: ok = True
            else:
                v = s.eval(a, st)
                ok = (isinstance(v, VRef) and v.t[0] in ('dict', 'set')) or (isinstance(v, VFun) and v.kind == 'view')
            if ok:
                q = s.iter_sorted(e, st, e)
                if isinstance(q, list): return VTuple(q)
                return s.seq_list(q, st)
        return s.sorted_list(e, st)
    def to_set(s, v, st, e):
        if isinstance(v, VFun) and v.kind == 'view' and v.data[0] == 'keys': v = v.data[1]
        if isinstance(v, VRef) and v.t[0] in ('dict', 'set'):
            t = ('set', v.t[1])
            n = s.new_set(st, t)
            s.hset(st, tname(t) + '.dom', n.e, s.ddom(st, v), s.A(I, s.ksort(t[1]), B))
            return n
        if isinstance(v, VRef) and v.t[0] == 'list':
            t = ('set', v.t[1]); n = s.new_set(st, t)
            K = s.ksort(t[1]); d = s.fresh('lset', s.A(K, B)); k = s.bv('k', K)
            es = s.lin(st, v, s.kval(k, t[1]))
            st.pc.append(FA([k], z3.Select(d, k) == es, patterns=[z3.Select(d, k)]))
            i = s.bv('i', I); x = z3.Select(s.hsel(st, f'{tname(v.t)}.e', v.e, s.A(I, I, K)), i)
            st.pc.append(FA([i], Implies(And(0 <= i, i < s.llen(st, v)), z3.Select(d, x)), patterns=[x]))
            s.hset(st, tname(t) + '.dom', n.e, d, s.A(I, K, B))
            return n
        s.unsupported('set()', e)
    def to_dict(s, a, st, e):
        """dict(d) / OrderedDict(sorted(d.items())) / OrderedDict(d)"""
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'sorted' and not a.keywords:
            q = s.iter_sorted(a, st, e)
            if not isinstance(q, list) and getattr(q, 'dref', None) is not None and q.what == 'items':
                d = q.dref
                n = s.dict_copy(st, d)
                if s.ordered(d.t):
                    tn = tname(d.t); K = q.keysort
                    o = s.fresh('ord', s.A(I, K)); p = s.fresh('pos', s.A(K, I))
                    i = s.bv('i', I); k = s.bv('k', K)
                    st.pc.append(FA([i], z3.Select(o, i) == q.keyat(i), patterns=[z3.Select(o, i)]))
                    st.pc.append(FA([k], z3.Select(p, k) == q.idxof(k), patterns=[z3.Select(p, k)]))
                    s.hset(st, tn + '.ord', n.e, o, s.A(I, I, K)); s.hset(st, tn + '.pos', n.e, p, s.A(I, K, I))
                return n
            s.unsupported('dict(sorted(...))', e)
        v = s.eval(a, st)
        if isinstance(v, VRef) and v.t[0] == 'dict': return s.dict_copy(st, v)
        s.unsupported('dict()', e)
    def builtin_method(s, fv, e, st, hint):
        if fv.kind == 'ext':
            m, n = fv.data
            args = None
            if (m, n) == ('datetime', 'date') or n == 'date':
                a = [s.as_int(s.eval(x, st)) for x in e.args]
                dim = s.days_in_month(a[0], a[1])
                s.implicit(st, Or(a[0] < 1, a[0] > 9999, a[1] < 1, a[1] > 12, a[2] < 1, a[2] > dim), 'ValueError', e, 'datetime.date')
                return VDate(*a)
            if (m, n) == ('re', 'sub'):
                a = [s.eval(x, st) for x in e.args]
                return VStr(s.strth.resub(a[0].e, a[1].e, a[2].e))
            if n in ('cast',): return s.eval(e.args[1], st, hint)
            if m in IGNORED or m.split('.')[0] in IGNORED: return VNone()
            s.unsupported(f'external call {m}.{n}', e)
        o, n = fv.data
        args = e.args
        if isinstance(o, VDate):
            if n in ('isoweekday',): return VInt(s.isoweekday(o))
            s.unsupported('date.' + n, e)
        if isinstance(o, VStr): return s.str_method(o, n, e, st)
        if isinstance(o, VConst):
            if n == 'get' and isinstance(o.v, dict):
                k = s.eval(args[0], st)
                d = s.eval(args[1], st) if len(args) > 1 else VNone()
                r = d
                for x in list(o.v)[::-1]: r = s.merge_val(s.veq(k, s.lift(x), st), s.lift(o.v[x]), r)
                return r
            if n in ('keys', 'items', 'values'): return VFun('view', n, o)
            s.unsupported('constant container method ' + n, e)
        if isinstance(o, VTuple):
            s.unsupported('tuple method ' + n, e)
        if not isinstance(o, VRef): s.unsupported(f'method {n} of {o}', e)
        k = o.t[0]
        if k == 'list':
            if n == 'append':
                v = s.eval(args[0], st, o.t[1] if not s.has_tv(o.t) else None)
                if s.has_tv(o.t): s.learn_elem(o.t, (v,), st)
                s.lappend(st, o, v, e); return VNone()
            if n == 'extend':
                v = s.eval(args[0], st, o.t if not s.has_tv(o.t) else None)
                if s.has_tv(o.t):
                    if isinstance(v, VRef): s.unify(o.t, v.t)
                    s.learn_elem(o.t, (v.items[0],) if isinstance(v, VTuple) else (), st)
                s.list_extend(st, o, v, e); return VNone()
            if n == 'copy': return s.list_copy(st, o)
            if n == 'insert':
                i = z3.simplify(s.as_int(s.eval(args[0], st)))
                v = s.eval(args[1], st, o.t[1])
                if not (z3.is_int_value(i) and i.as_long() == 0): s.unsupported('insert', e)
                one = s.new_list(st, o.t); s.lappend(st, one, v, e)
                if isinstance(v, VRef) and v.t[0] == 'rec': s.hset(st, 'okey', v.e, s.okey(st, o.e), s.A(I, s.strth.S))    # ghost: the new first element belongs to the owner of the list
                cp = s.list_copy(st, o)
                s.list_extend(st, one, cp, e)
                s.copy_container(st, one, o)
                return VNone()
            if n == 'sort':
                call = ast.Call(func=ast.Name(id='sorted', ctx=ast.Load()), args=[e.func.value], keywords=e.keywords)
                ast.copy_location(call, e); ast.fix_missing_locations(call)
                r = s.sorted_list(call, st)
                s.copy_container(st, r, o)
                return VNone()
            if n == 'index': s.unsupported('list.index', e)
        if k in ('dict', 'set'):
            kt = o.t[1]
            if n in ('keys', 'items', 'values'): return VFun('view', n, o)
            if n == 'get':
                kv = s.eval(args[0], st)
                d = s.eval(args[1], st, o.t[2]) if len(args) > 1 else VNone()
                if s.has_tv(o.t): s.learn_elem(o.t, (kv,), st); return d
                if isinstance(kv, VOpt): s.unsupported('get(None)', e)
                ke = s.kexpr(kv, kt, e)
                h = s.dhas(st, o, ke)
                v = s.dval(st, o, ke)
                if isinstance(v, VRef) and not s.spec: st.pc.append(Implies(h, And(v.e > 0, v.e < st.alloc)))
                return s.merge_val(z3.simplify(h), v, d)
            if n == 'add':
                v = s.eval(args[0], st)
                if s.has_tv(o.t): s.learn_elem(o.t, (v,), st)
                s.dom_add(st, o, s.kexpr(v, kt, e)); return VNone()
            if n == 'copy': return s.dict_copy(st, o)
            if n == 'update':
                v = s.eval(args[0], st, o.t if not s.has_tv(o.t) else None)
                s.container_update(st, o, v, e); return VNone()
            if n == 'union': return s.set_union(st, o, s.as_set(s.eval(args[0], st), st, e))
            if n == 'issubset':
                r = s.as_set(s.eval(args[0], st), st, e)
                K = s.ksort(kt); x = s.bv('k', K); c = s.fresh('sub', B)
                a, b = s.ddom(st, o), s.ddom(st, r)
                w = s.fresh('notsub', K)
                st.pc.append(FA([x], Implies(And(c, z3.Select(a, x)), z3.Select(b, x)), patterns=[z3.Select(a, x)]))
                st.pc.append(Implies(Not(c), And(z3.Select(a, w), Not(z3.Select(b, w)))))
                return VBool(c)
            if n == 'setdefault':
                kv = s.eval(args[0], st); d = s.eval(args[1], st, o.t[2])
                ke = s.kexpr(kv, kt, e)
                h = z3.simplify(s.dhas(st, o, ke))
                old = s.dval(st, o, ke)
                v = s.merge_val(h, old, d)
                s.dset(st, o, ke, v, e)
                return v
            if n == 'pop': s.unsupported('dict.pop', e)
        if k == 'rec':
            if n == 'get':
                f = args[0].value if isinstance(args[0], ast.Constant) else s.unsupported('dynamic key', e)
                d = s.eval(args[1], st) if len(args) > 1 else VNone()
                has = s.hsel(st, f'{o.t[1]}.{f}?has', o.e, s.A(I, B))
                fs = s.fields(o.t)
                es = [s.hsel(st, f'{o.t[1]}.{f}{suf}', o.e, s.A(I, so)) for suf, so in s.flat(fs[f])]
                v = s.pack(fs[f], es)
                if isinstance(v, VRef) and not s.spec: st.pc.append(Implies(has, And(v.e > 0, v.e < st.alloc)))
                return s.merge_val(z3.simplify(has), v, d)
            if n == 'copy':
                r = s.alloc(st, o.t)
                s.copy_container(st, o, r)
                return r
            if n == 'update':
                d = args[0]
                if isinstance(d, ast.Dict):
                    for kk, vv in zip(d.keys, d.values): s.fset(st, o, kk.value, s.eval(vv, st, s.fields(o.t)[kk.value]), e)
                    return VNone()
        if k == 'obj' or k == 'ext':
            s.unsupported(f'method {tname(o.t)}.{n}', e)
        s.unsupported(f'method {k}.{n}', e)
    def learn_elem(s, t, vals, st):
        """teach the element types of an untyped container, then restart"""
        elems = t[1:] if t[0] == 'dict' else (t[1],)
        for tv, v in zip(elems, vals):
            if tv[0] == 'tv': s.learn(tv, v, st)
    def as_set(s, v, st, e):
        if isinstance(v, VFun) and v.kind == 'view' and v.data[0] == 'keys': return v.data[1]
        if isinstance(v, VRef) and v.t[0] in ('set', 'dict'): return v
        return s.to_set(v, st, e)
    def container_update(s, st, o, v, e):
        if s.has_tv(o.t):
            if isinstance(v, VRef): s.unify(o.t if o.t[0] == v.t[0] else ('set', o.t[1]), v.t if o.t[0] == v.t[0] else ('set', v.t[1]))
        if o.t[0] == 'set':
            r = s.as_set(v, st, e)
            u = s.set_union(st, o, r)
            s.copy_container(st, u, o)
            return
        if not (isinstance(v, VRef) and v.t[0] == 'dict'): s.unsupported('dict.update', e)
        tn = tname(o.t); K = s.ksort(o.t[1])
        a, b = s.ddom(st, o), s.ddom(st, v)
        d = s.fresh('upd', a.sort()); k = s.bv('k', K)
        st.pc.append(FA([k], z3.Select(d, k) == Or(z3.Select(a, k), z3.Select(b, k)), patterns=[z3.Select(d, k)]))
        st.pc.append(FA([k], Implies(z3.Select(a, k), z3.Select(d, k)), patterns=[z3.Select(a, k)]))
        st.pc.append(FA([k], Implies(z3.Select(b, k), z3.Select(d, k)), patterns=[z3.Select(b, k)]))
        for suf, so in s.flat(o.t[2]):
            x = s.hsel(st, f'{tn}.val{suf}', o.e, s.A(I, K, so)); y = s.hsel(st, f'{tn}.val{suf}', v.e, s.A(I, K, so))
            w = s.fresh('updv', x.sort())
            st.pc.append(FA([k], z3.Select(w, k) == If(z3.Select(b, k), z3.Select(y, k), z3.Select(x, k)), patterns=[z3.Select(w, k)]))
            s.hset(st, f'{tn}.val{suf}', o.e, w, s.A(I, K, so))
        s.hset(st, tn + '.dom', o.e, d, s.A(I, K, B))
        if s.ordered(o.t):
            s.hset(st, tn + '.ord', o.e, s.fresh('ord', s.A(I, K)), s.A(I, I, K))
            s.hset(st, tn + '.pos', o.e, s.fresh('pos', s.A(K, I)), s.A(I, K, I))
    def str_method(s, o, n, e, st):
        T = s.strth
        args = [s.eval(a, st) for a in e.args]
        if n == 'find': return VInt(T.find(o.e, args[0].e))
        if n == 'replace': return VStr(T.replace(o.e, args[0].e, args[1].e))
        if n == 'startswith': return VBool(T.startswith(o.e, args[0].e))
        if n == 'endswith': return VBool(T.endswith(o.e, args[0].e))
        if n == 'isdigit': return VBool(T.isdigit(o.e))
        if n == 'isspace': return VBool(T.isspace(o.e))
        if n in ('lower', 'upper', 'strip', 'rstrip', 'lstrip') and not args: return VStr(getattr(T, n)(o.e))
        if n == 'split':
            t = ('list', ('str',))
            if args:
                sep = args[0].e
                cnt = T.nsplit(o.e, sep)
                get = lambda i: VStr(T.part(o.e, sep, i))
                st.pc.append(cnt >= 1)
            else:
                cnt = T.nsplitw(o.e); get = lambda i: VStr(T.partw(o.e, i))
                st.pc.append(cnt >= 0)
            if s.spec: 
                return VFun('specsplit', cnt, get)
            r = s.list_from(st, t, cnt, get, bool(args)); s.lastsplit = (r.e, o.e, args[0].e if args else None)
            return r
        if n == 'join':
            r = s.fresh('join', T.S)
            v = args[0] if len(args) == 1 else None
            if isinstance(v, VRef) and v.t == ('list', ('str',)) and T.litval(o.e) == ' ' and T.mode == 'abs' and not s.spec:
                # words (no white space inside, not empty) joined with one blank are the words of the result
                n = s.llen(st, v); a = s.hsel(st, f'{tname(v.t)}.e', v.e, s.A(I, I, T.S))
                allw, k, i = s.fresh('allwords', B), s.fresh('notword', I), s.bv('i', I)
                st.pc.append(Implies(Not(allw), And(0 <= k, k < n, Not(T.isword(z3.Select(a, k))))))
                st.pc.append(Implies(allw, And(T.nsplitw(r) == n, FA([i], Implies(And(0 <= i, i < n), T.partw(r, i) == z3.Select(a, i)), patterns=[T.partw(r, i)]))))
            return VStr(r)
        if n == 'format': return VStr(s.fresh('fmt', T.S))
        if n == 'encode': return VStr(s.fresh('enc', T.S))
        s.unsupported('str.' + n, e)
    # calendar model
    def days_in_month(s, y, m):
        leap = And(y % 4 == 0, Or(y % 100 != 0, y % 400 == 0))
        return z3.If(m == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)), z3.If(Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))
    def isoweekday(s, d):
        """day of week from the proleptic Gregorian ordinal: ordinal 1 (0001-01-01) is a Monday"""
        y1 = d.y - 1
        cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
        leap = And(d.y % 4 == 0, Or(d.y % 100 != 0, d.y % 400 == 0))
        c = z3.IntVal(cum[11])
        for m in range(10, -1, -1): c = z3.If(d.m == m + 1, z3.IntVal(cum[m]), c)
        o = y1 * 365 + y1 / 4 - y1 / 100 + y1 / 400 + c + z3.If(And(leap, d.m > 2), z3.IntVal(1), z3.IntVal(0)) + d.d
        return (o + 6) % 7 + 1

    # ------------------------------------------------------------ specification
    SPEC_FORMS = ('insplit', 'called', 'optgiven', 'optint', 'optstr', 'pathjoin', 'nparts', 'part', 'nwords', 'word', 'isint', 'intval', 'isdigits', 'resub', 'weekday', 'dim', 'old', 'pre', 'has', 'implies', 'iff', 'okey', 'dom', 'isnone', 'card', 'same_heap', 'fresh', 'lpos', 'keyat', 'idxof', 'sk', 'sidx', 'oldref', 'in_old', 'hasrec', 'owner', 'kat')
    def spec_bool(s, tree, st, fi=None):
        if s.loopstack or s.track is not None: return s.truth_spec(s.spec_eval(tree, st, fi), st)
        # the same clause about the same part of the state is the same formula
        ents = s.specmemo.setdefault(id(tree), [])
        for t0, old, pre, comps, vs, r in ents:
            if old is st.old and pre is st.pre and all(st.heap.get(c) is a or (a is not None and st.heap.get(c) is not None and a.eq(st.heap.get(c))) for c, a in comps.items()) and all(st.vars.get(n) is v for n, v in vs.items()): return r
        s.track = (set(), set())
        n = len(st.pc)
        try: r = s.truth_spec(s.spec_eval(tree, st, fi), st)
        finally: tr, s.track = s.track, None
        if len(st.pc) == n and not s.usesalloc(tree): ents.append((tree, st.old, st.pre, {c: st.heap.get(c) for c in tr[0]}, {v: st.vars.get(v) for v in tr[1]}, r))
        return r
    def usesalloc(s, tree):
        return any(isinstance(n, ast.Name) and (n.id == 'refs' or n.id in s.specs.funcs and s.specs.funcs[n.id].body is not None and 'refs' in ast.dump(s.specs.funcs[n.id].body)) for n in ast.walk(tree))
    def truth_spec(s, v, st): 
        t = s.truth(v, st)
        return t if z3.is_quantifier(t) else z3.simplify(t) if False else t
    def spec_eval(s, tree, st, fi=None):
        s.spec += 1
        sb, s.bound = s.bound, None
        td = s.try_depth
        if fi is not None: s.callstack.append(fi)
        try: return s.eval(tree, st)
        finally:
            s.spec -= 1
            s.bound = sb
            if fi is not None: s.callstack.pop()
    def lc(s, k=None):
        st = [l for l in s.loopstack]
        return st[-1] if k is None else st[k]
    def spec_form(s, n, e, st):
        A = e.args
        if n == 'implies':
            a = s.truth(s.eval(A[0], st), st)
            if not z3.is_quantifier(a) and z3.is_false(z3.simplify(a)): return VBool(z3.BoolVal(True))
            return VBool(Implies(a, s.truth(s.eval(A[1], st), st)))
        if n == 'iff':
            return VBool(s.truth(s.eval(A[0], st), st) == s.truth(s.eval(A[1], st), st))
        if n in ('old', 'pre', 'in_old'):
            o = st.old if n in ('old', 'in_old') else st.pre
            if o is None: s.unsupported(f'{n}() without a reference state', e)
            q = o.copy()
            if n == 'in_old':      # heap of the old state, current variables
                q.vars = dict(st.vars)
            q.old, q.pre = st.old, st.pre
            return s.eval(A[0], q)
        if n == 'isnone': return VBool(s.isnone(s.eval(A[0], st)))
        if n == 'called':
            s.comp_sorts['called:' + A[0].value] = B
            return VBool(st.heap['called:' + A[0].value])
        if n == 'optgiven': return VBool(s.opt_given(A[0].value))
        if n in ('optint', 'optstr'): return s.opt_value(A[0].value, (n[3:],))
        if n == 'has':
            o = s.eval(A[0], st)
            if isinstance(o, VOpt): o = o.v
            return VBool(s.hsel(st, f'{o.t[1]}.{A[1].value}?has', o.e, s.A(I, B)))
        if n in ('okey', 'owner'):
            o = s.eval(A[0], st)
            return VStr(s.okey(st, o.e))
        if n == 'card':
            o = s.eval(A[0], st); return VInt(s.card(s.ddom(st, o)))
        if n == 'lpos':
            l, x = s.eval(A[0], st), s.eval(A[1], st)
            return VInt(sel(s.lpos(st, l), s.unpack(x, l.t[1])[0], s.strth))
        if n == 'kat':      # key at position i of the insertion order
            d, i = s.eval(A[0], st), s.as_int(s.eval(A[1], st))
            return s.kval(s.hselect_ord(st, d, i), d.t[1])
        if n == 'fresh':
            o = s.eval(A[0], st); return VBool(o.e >= st.old.alloc)
        if n == 'keyat': 
            l = s.lc(A[1].value if len(A) > 1 else None)
            return s.kval(l.seq.keyat(s.as_int(s.eval(A[0], st))), l.seq.dref.t[1])
        if n == 'idxof':
            l = s.lc(A[1].value if len(A) > 1 else None)
            return VInt(l.seq.idxof(s.kexpr(s.eval(A[0], st), l.seq.dref.t[1])))
        if n == 'sk' or n == 'sidx':
            d = s.eval(A[0], st); dom = s.ddom(st, d); K = s.ksort(d.t[1])
            keyat, idxof = s.sorted_funs(dom, K)
            x = s.eval(A[1], st)
            return s.kval(keyat(s.as_int(x)), d.t[1]) if n == 'sk' else VInt(idxof(s.kexpr(x, d.t[1])))
        T = s.strth
        v = [s.eval(a, st) for a in A]
        if n == 'nparts': return VInt(T.nsplit(v[0].e, v[1].e))
        if n == 'part': return VStr(T.part(v[0].e, v[1].e, s.as_int(v[2])))
        if n == 'insplit': return VBool(T.insplit(*[x.e for x in v]))
        if n == 'nwords': return VInt(T.nsplitw(v[0].e))
        if n == 'word': return VStr(T.partw(v[0].e, s.as_int(v[1])))
        if n == 'isint': return VBool(T.int_ok(v[0].e))
        if n == 'intval': return VInt(T.to_int(v[0].e))
        if n == 'isdigits': return VBool(T.isdigit(v[0].e))
        if n == 'pathjoin': return VStr(T.pathjoin(v[0].e, v[1].e))
        if n == 'resub': return VStr(T.resub(v[0].e, v[1].e, v[2].e))
        if n == 'weekday': return VInt(s.isoweekday(VDate(*[s.as_int(x) for x in v])))
        if n == 'dim': return VInt(s.days_in_month(*[s.as_int(x) for x in v]))
        s.unsupported('spec form ' + n, e)
    def call_spec(s, sf, args, st):
        """sf: SpecFun with .tree (Lambda-like), .params, .opaque, .rec"""
        if len(args) != len(sf.params): raise Unsupported('arity of spec function ' + sf.name)
        if not (sf.rec or sf.opaque) or sf.name in s.reveal: return s.spec_body(sf, args, st)
        # uninterpreted, heap-reading arguments must be scalars or containers read through value arrays
        es, sorts = [], []
        for a, t in zip(args, sf.types):
            x = s.spec_arg(a, t, st)
            es += x
        for t in sf.readt:
            es += [s.hget(st, c, so) for c, so in s.cont_comps(t) if c.endswith('.len') or '.e' in c[len(tname(t)):][:2]]
        key = sf.name
        ret = s.tsort(sf.ret)
        f = z3.Function('spec.' + sf.name, *[x.sort() for x in es], ret)
        app = f(*es)
        v = s.pack(sf.ret, [app])
        if sf.rec and not sf.opaque and sf.name in s.opts.get('unfoldq', ()) and s.has_qvar(app):
            s.unfold_q(sf, app, args, st)
        elif sf.rec and not sf.opaque and s.unfold_ok(app, es):
            s.unfolding.append(app)
            try:
                b = s.spec_body(sf, args, st)
                d = And(*[x == y for x, y in zip([app], s.unpack(b, sf.ret))])
                s.recaxioms.append(d)
                s.axioms.append(d)
            finally: s.unfolding.pop()
        return v
    def hselect_ord(s, st, d, i):
        K = s.ksort(d.t[1])
        return z3.Select(s.hsel(st, tname(d.t) + '.ord', d.e, s.A(I, I, K)), i)
    def unfold_q(s, sf, app, args, st):
        """definition of a recursive specification function at an application under quantifiers whose recursion argument (the last
        integer) is ground: stated for all values of the bound variables, triggered by the application itself"""
        if s.unfolding: return
        ints = [a for a in args if isinstance(a, VInt)]
        if not ints or s.has_qvar(ints[-1].e): return
        qs = s.qvars_of(app)
        fr = {q.get_id(): z3.Const('uq!%d!%s' % (n, q.sort()), q.sort()) for n, q in enumerate(qs)}
        key = z3.substitute(app, *[(q, fr[q.get_id()]) for q in qs])
        if key.get_id() in s.unfolded: return
        s.unfolded.add(key.get_id()); s.keep.append(key)
        s.unfolding.append(app)
        try:
            b = s.spec_body(sf, args, st)
            d = And(*[x == y for x, y in zip([app], s.unpack(b, sf.ret))])
            d = FA(qs, d, patterns=[app], qid='unfold_' + sf.name)
            s.recaxioms.append(d); s.axioms.append(d)
        finally: s.unfolding.pop()
    def qvars_of(s, t):
        todo, seen, out = [t], set(), []
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): continue
            if z3.is_const(x) and '?' in x.decl().name() and x.decl().name().rsplit('?', 1)[1].isdigit(): out.append(x)
            else: todo += x.children()
        return out
    def unfold_ok(s, app, es):
        if len(s.unfolding) >= 1: return False
        if s.has_qvar(app): return False
        k = app.get_id()
        if k in s.unfolded: return False
        s.unfolded.add(k)
        s.keep.append(app)
        return True
    def has_qvar(s, t):
        todo = [t]; seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and '?' in x.decl().name() and x.decl().name().rsplit('?', 1)[1].isdigit(): return True
            if z3.is_quantifier(x): todo.append(x.body())
            else: todo += x.children()
        return False
    def spec_arg(s, a, t, st):
        if isinstance(a, VRef) and a.t[0] == 'list':
            return [s.hsel(st, f'{tname(a.t)}.e{suf}', a.e, s.A(I, I, so)) for suf, so in s.flat(a.t[1])] + [s.llen(st, a)]
        if isinstance(a, VRef) and a.t[0] in ('dict', 'set'):
            return [s.hsel(st, c, a.e, so) for c, so in s.dict_comps(a.t)]
        return s.unpack(a, t if t else s.typeof(a))
    def spec_body(s, sf, args, st):
        sb = s.bound
        s.bound = dict(zip(sf.params, args))
        q = st.copy(); q.vars = {}
        q.old, q.pre = st.old, st.pre
        try: return s.eval(sf.body, q)
        finally: s.bound = sb

IGNORED = ('logging', 'sys')
PYDIV = z3.Function('pydiv', I, I, I)
PYMOD = z3.Function('pymod', I, I, I)
