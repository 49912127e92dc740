from vc.ctx import *
from vc import exec as X
import itertools


class Skip(Exception):
    pass


def clear_inv(e):
    """multiply a polynomial through by the reciprocals it contains: e == 0 iff result == 0 (denominators nonzero)"""
    for _ in range(8):
        invs = [a for a in T.children(e) if a.op == 'inv']
        if not invs:
            return e
        a = invs[0]
        p = T._poly(e)
        deg = max([k for m in p for x, k in m if x is a])
        D = a.args[0]
        r = num = T.R(0)
        parts = {}
        for m, c in p.items():
            k = dict(m).get(a, 0)
            mm = tuple((x, y) for x, y in m if x is not a)
            parts.setdefault(deg - k, {})[mm] = c
        e = T.R(0)
        for k, d in parts.items():
            t = T.from_poly(d, 'R')
            for _ in range(k):
                t = T.mul(t, D)
            e = T.add(e, t)
    return e


METHODS = ['GaussElim_Original', 'GaussElim_NoPivot', 'GaussElim_CramerGlu', 'GaussElim_CramerIntel']


def run_once(cx, eng, f, method, A0, b0, decisions, strict):
    st = State()
    st.mem[('G', 'g_gaussElim')] = I(method)
    c = X.Base('A0', 'R')
    for i in range(4):
        for j in range(4):
            c = X.Upd(c, (), TRUE, (I(i), I(j)), A0[i][j])
    st.mem[('A', 'A')] = c
    c = X.Base('b0', 'R')
    for i in range(4):
        c = X.Upd(c, (), TRUE, (I(i),), b0[i])
    st.mem[('A', 'b')] = c
    used = []

    def decide(c):
        k = len(used)
        d = decisions[k] if k < len(decisions) else False
        used.append(d)
        return d

    def on_div(y):
        if strict and y.op != 'num':
            p = T._poly(y)
            if len(p) != 1 or any(not a.info.startswith('u') for mono in p for a, k in mono):
                raise Skip()
    eng.decide, eng.on_div = decide, on_div
    eng.obls = []
    try:
        eng.call_func(f, None, st, argvals=[Ptr(('A', 'A'), (), I(0), ptype('double[4]')), Ptr(('A', 'b'), (), I(0), ptype('double'))])
        b = [eng.read(st.mem[('A', 'b')], (I(i),), st) for i in range(4)]
        skipped = False
    except Skip:
        b, skipped = None, True
    finally:
        eng.decide = eng.on_div = None
    return b, used, skipped


def prove(cx):
    eng = cx.engine('src/Transport.cc')
    f = eng.find('gaussElim4')
    cx.functions.append('gaussElim4')
    enums = {}
    for tu in eng.tus:
        for i, v in tu.enums.items():
            enums[tu.ids[i]['name']] = v
    xs = [T.var('x%d' % i, 'R') for i in range(4)]
    mulv = lambda M: [T.add(*[T.mul(M[i][j], xs[j]) for j in range(4)]) for i in range(4)]
    gen = [[T.var('a%d%d' % (i, j), 'R') for j in range(4)] for i in range(4)]
    Lm = [[T.var('l%d%d' % (i, j), 'R') if j < i else T.R(1 if i == j else 0) for j in range(4)] for i in range(4)]
    Um = [[T.var('u%d%d' % (i, j), 'R') if j >= i else T.R(0) for j in range(4)] for i in range(4)]
    LU = [[T.add(*[T.mul(Lm[i][k], Um[k][j]) for k in range(4)]) for j in range(4)] for i in range(4)]
    piv = [T.ne(Um[i][i], T.R(0)) for i in range(4)]
    for m in METHODS:
        if m not in enums:
            continue
        with cx.unit('gaussElim4 [%s]' % m):
            # 1. straight-line code: generic matrix, one rational identity per unknown
            if 'Cramer' in m:
                b, used, _ = run_once(cx, eng, f, enums[m], gen, mulv(gen), [], False)
                if not used:
                    invs = []
                    for i in range(4):
                        d = T.sub(b[i], xs[i])
                        for a in T.children(d):
                            if a.op == 'inv' and a not in invs:
                                invs.append(a)
                        cx.prove('%s: b[%d] == x[%d] where A x == b on entry' % (m, i, i), T.eq(clear_inv(d), T.R(0)), piv, eng)
                    # the only divisor is the determinant
                    det = T.R(0)
                    for p in itertools.permutations(range(4)):
                        s = 1
                        for a in range(4):
                            for c in range(a):
                                if p[c] > p[a]: s = -s
                        t = T.R(s)
                        for a in range(4): t = T.mul(t, gen[a][p[a]])
                        det = T.add(det, t)
                    for a in invs:
                        r = T.sub(a.args[0], det)
                        r2 = T.add(a.args[0], det)
                        cx.prove('%s: divides only by det(A)' % m, T.or_(T.eq(r, T.R(0)), T.eq(r2, T.R(0))), (), eng)
                    continue
            # 2. elimination with branches: every path, matrix written as P L U with the pivots as symbols
            covered, paths, safe = set(), 0, set()
            perms = list(itertools.permutations(range(4))) if m == 'GaussElim_Original' else [(0, 1, 2, 3)]
            allpaths = set()
            for p in perms:
                A0 = [[None] * 4 for _ in range(4)]
                for i in range(4):
                    A0[p[i]] = LU[i]
                stack = [[]]
                while stack:
                    dec = stack.pop()
                    b, used, skipped = run_once(cx, eng, f, enums[m], A0, mulv(A0), dec, True)
                    for k in range(len(dec), len(used)):
                        stack.append(used[:k] + [True])
                    if skipped:
                        allpaths.add(tuple(used))
                        continue
                    paths += 1
                    covered.add(tuple(used))
                    bad = [i for i in range(4) if T.sub(b[i], xs[i]) is not T.R(0)]
                    tag = ''.join('T' if d else 'F' for d in used)
                    cx.prove('%s: path %s rows %s solves A x == b' % (m, tag, p),
                             T.and_(*[T.eq(clear_inv(T.sub(b[i], xs[i])), T.R(0)) for i in range(4)]), piv, eng)
                    for o in eng.obls:
                        if o.goal in safe:
                            continue
                        safe.add(o.goal)
                        cx.prove(m + ' ' + o.name(), o.goal, piv, eng, kind=o.kind)
            # every decision path (prefix) was covered by some permutation
            missing = [a for a in allpaths if not any(c[:len(a)] == a for c in covered)]
            cx.prove('%s: every pivoting path is covered (%d paths)' % (m, len(covered)), TRUE if not missing else FALSE, (), eng)
    cx.assume('gaussElim4: pivots (no-pivot variants: leading minors) are non-zero; the pivoting variant needs only a non-singular matrix')


