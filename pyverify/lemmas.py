"""Lemmas about strings that contracts use as facts (`facts=[('lemma', text)]`).
The verifier treats strings of most functions as an abstract sort; a fact about
them is proved here, over z3's / cvc5's own theory of strings, from the
definition of the functions in it, by induction written out as base and step."""
import subprocess, tempfile, os, time
import z3

S, I = z3.StringSort(), z3.IntSort()

def valid(hyps, goal, ms=8000):
    """-> back end that proves hyps => goal, or None"""
    for eng in ('z3', 'cvc5'):
        sv = z3.Solver()
        for h in hyps: sv.add(h)
        sv.add(z3.Not(goal))
        if eng == 'z3':
            sv.set('timeout', ms)
            if sv.check() == z3.unsat: return 'z3'
        else:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write('(set-logic ALL)\n' + sv.to_smt2())
            try:
                p = subprocess.run(['cvc5', f'--tlimit={ms}', '--strings-exp', f.name], capture_output=True, text=True)
                if p.stdout.strip().startswith('unsat'): return 'cvc5'
            finally: os.unlink(f.name)
    return None

def expand():
    """expand(c): every character below 32 replaced by frag(its code): a homomorphism, the identity on plain strings"""
    E = z3.Function('E', S, I, S); frag = z3.Function('frag', I, S)
    ch = lambda c, k: z3.SubString(c, k, 1)
    g = lambda x: z3.If(z3.StrToCode(x) < 32, frag(z3.StrToCode(x)), x)
    unf = lambda c, k: z3.And(E(c, 0) == z3.StringVal(''), z3.Implies(z3.And(k >= 0, k < z3.Length(c)), E(c, k + 1) == z3.Concat(E(c, k), g(ch(c, k)))))
    c, d = z3.Strings('c d'); k, i, j = z3.Ints('k i j')
    cd = z3.Concat(c, d); lc = z3.Length(c)
    dk = [0 <= k, k < z3.Length(d)]
    plain = lambda x: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < z3.Length(x)), z3.StrToCode(ch(x, j)) >= 32))
    yield 'prefix: base', [unf(cd, k), unf(c, k)], E(cd, 0) == E(c, 0)
    yield 'prefix: step', [unf(cd, k), unf(c, k), 0 <= k, k < lc, ch(cd, k) == ch(c, k), E(cd, k) == E(c, k)], E(cd, k + 1) == E(c, k + 1)
    yield 'prefix: character', [0 <= k, k < lc], ch(cd, k) == ch(c, k)
    yield 'concatenation: base', [E(cd, lc) == E(c, lc), unf(d, k)], E(cd, lc + 0) == z3.Concat(E(c, lc), E(d, 0))
    yield 'concatenation: character', dk, ch(cd, lc + k) == ch(d, k)
    yield 'concatenation: step', dk + [unf(d, k), unf(cd, lc + k), lc >= 0, lc + k < z3.Length(cd), ch(cd, lc + k) == ch(d, k), E(cd, lc + k) == z3.Concat(E(c, lc), E(d, k))], E(cd, lc + k + 1) == z3.Concat(E(c, lc), E(d, k + 1))
    yield 'keyword byte', [0 <= i, i < 32, unf(z3.StrFromCode(i), z3.IntVal(0))], E(z3.StrFromCode(i), 1) == frag(i)
    yield 'plain: base', [unf(d, k)], E(d, 0) == z3.SubString(d, 0, 0)
    yield 'plain: step', dk + [unf(d, k), z3.StrToCode(ch(d, k)) >= 32, E(d, k) == z3.SubString(d, 0, k)], E(d, k + 1) == z3.SubString(d, 0, k + 1)
    yield 'empty', [unf(z3.StringVal(''), k)], E(z3.StringVal(''), z3.Length(z3.StringVal(''))) == z3.StringVal('')
    yield 'plain concatenation: character of the first', [0 <= j, j < lc], ch(cd, j) == ch(c, j)
    yield 'plain concatenation: character of the second', [0 <= j, j < z3.Length(d)], ch(cd, lc + j) == ch(d, j)

LEMMAS = {'expand': expand}

def prove(name):
    """-> [(obligation, back end or None, seconds)]"""
    out = []
    for n, h, g in LEMMAS[name]():
        t = time.time(); b = valid(h, g)
        out.append((f'lemma {name}: {n}', b, time.time() - t))
    return out
if __name__ == '__main__':
    import sys
    for n in sys.argv[1:] or LEMMAS:
        for x in prove(n): print(x)
