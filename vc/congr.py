"""Equality of two terms by descending through identical structure; only differing leaves go to the solver."""
from . import term as T, prove as P
from .term import I
from .exec import divmod_poly


def _pairs(a, b, hyps, out):
    if a is b:
        return
    if a.sort == b.sort and a.op == b.op and a.sort != 'B':
        if a.op == 'app' and a.info == b.info and len(a.args) == len(b.args):
            for x, y in zip(a.args, b.args):
                _pairs(x, y, hyps, out)
            return
        if a.op in ('inv', 'sqrt', 'abs', 'toreal'):
            _pairs(a.args[0], b.args[0], hyps, out)
            return
        if a.op in ('sum', 'fmax') and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
            k = T.fresh('bv', 'I')
            T.NONNEG.add(k.info)
            x = T.subst(a.args[2], {T.bvar(a.info): k})
            y = T.subst(b.args[2], {T.bvar(b.info): k})
            _pairs(x, y, hyps + [T.le(a.args[0], k), T.lt(k, a.args[1])], out)
            return
        if a.op == 'poly' and len(a.info) == 1 and len(b.info) == 1:
            (m1, c1), (m2, c2) = a.info[0] if False else list(a.info)[0], list(b.info)[0]
            if c1 == c2 and len(m1) == len(m2):
                f1, f2 = [x for x in m1 if x not in m2], [x for x in m2 if x not in m1]
                s1, s2 = _sig(f1), _sig(f2)
                if s1 == s2:
                    f1.sort(key=_key)
                    f2.sort(key=_key)
                    for (x, k1), (y, k2) in zip(f1, f2):
                        _pairs(x, y, hyps, out)
                    return
    out.append((a, b, hyps))


def _key(x):
    return (x[1], x[0].op, str(x[0].info) if x[0].op == 'app' else '')


def _sig(f):
    return sorted(_key(x) for x in f)


def same(cx, name, got, want, hyps=(), eng=None):
    """obligation got == want.  With cx None only the answer is returned."""
    eng = eng or cx.last
    if isinstance(got, T.E) and isinstance(want, T.E):
        hyps = list(hyps)
        got = simp(eng, got, hyps)
        want = simp(eng, want, hyps)
    out = []
    if not isinstance(got, T.E):
        if cx is None: return False
        return cx.decide(name, False, 'normal-form', got)
    _pairs(got, want, list(hyps), out)
    if cx is None:
        return all(P.valid(T.eq(a, b), list(eng.facts) + h, eng.axioms, 2000)[0] for a, b, h in out)
    if not out:
        return cx.decide(name, True, 'normal-form')
    ok = True
    for k, (a, b, h) in enumerate(out):
        ok = cx.prove(name + (' (%d)' % k if len(out) > 1 else ''), T.eq(a, b), h) and ok
    return ok


def simp(eng, e, hyps, memo=None):
    """resolve conditionals whose condition follows from the hypotheses"""
    memo = {} if memo is None else memo
    base = list(eng.facts)

    def go(x, hy):
        k = (x, len(hy))
        if k in memo:
            return memo[k]
        if not T.atoms_of(x, lambda y: y.op in ('ite', 'idiv')):
            r = x
        elif x.op in ('sum', 'fmax'):
            lo, hi, b = x.args
            nv = T.fresh('bv', 'I')
            T.NONNEG.add(nv.info)
            b2 = simp(eng, T.subst(b, {T.bvar(x.info): nv}), hy + [T.le(lo, nv), T.lt(nv, hi)])
            r = {'sum': T.mksum, 'fmax': T.fmaxover}[x.op](nv, go(lo, hy), go(hi, hy), b2)
        elif x.op == 'ite':
            c = x.args[0]
            if P.has_bvar(c):
                r = T.rebuild(x, lambda y: go(y, hy))
            elif P.valid(c, base + hy, eng.axioms, 1000)[0]:
                r = go(x.args[1], hy)
            elif P.valid(T.not_(c), base + hy, eng.axioms, 1000)[0]:
                r = go(x.args[2], hy)
            else:
                r = T.rebuild(x, lambda y: go(y, hy))
        elif x.op == 'idiv' and not P.has_bvar(x):
            q, _ = divmod_poly(eng, go(x.args[0], hy), go(x.args[1], hy))
            z = {y: I(0) for y in T.atoms_of(q, lambda y: y.op == 'idiv') if eng.quick(T.and_(T.ge0(y.args[0]), T.lt(y.args[0], y.args[1])))}
            r = T.subst(q, z) if z else q
        else:
            r = T.rebuild(x, lambda y: go(y, hy))
        memo[k] = r
        return r
    return go(e, list(hyps))
