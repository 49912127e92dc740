"""Contracts of the phase-space helpers of Util (discharged by P05), used by their callers."""
import math
from fractions import Fraction
from . import term as T
from .term import I, R
from .exec import Base, Fn, Loc, Ptr, Unsupported, container_of
from .ctx import gvar


def reader(eng, loc, st):
    """content of a container now, as a function of its indices (through a raw array when it is a view of one)"""
    al = eng.alias_of(loc)
    if al is None:
        c = st.mem.get(loc.path + ('#e',))
        if c is None:
            c = eng.default(loc.path + ('#e',), 1, None) if False else Base('.'.join(loc.path + ('#e',)), 'R')
        return lambda *i: eng.read(c, tuple(loc.idx) + tuple(i), st)
    cs = container_of(loc.ct)
    dims = eng.dims_of(loc, cs, st)
    from .exec import flat_of
    l0 = eng.elem(al, I(0), st)
    c = st.mem.get(l0.path)
    if c is None:
        c = Base('.'.join(l0.path), 'R')
    base = al.off

    def f(*i):
        return eng.read(c, tuple(l0.idx[:-1]) + (T.add(base, flat_of(i, dims)),), st)
    return f


def assign(eng, loc, f, st):
    """the container's content becomes f(indices)"""
    al = eng.alias_of(loc)
    if al is None:
        p, k = loc.path + ('#e',), len(loc.idx)
        eng.note_write(p, loc.idx, st)
        if not k:
            st.mem[p] = Fn(lambda idx: f(*idx))
            return
        old = st.mem.get(p)               # one of many containers
        if old is None:
            old = Base('.'.join(p), 'R')
        st.mem[p] = Fn(lambda idx: T.ite(T.and_(*[T.eq(a, b) for a, b in zip(idx, loc.idx)]), f(*idx[k:]), eng.read(old, idx, st)))
        return
    cs = container_of(loc.ct)
    dims = eng.dims_of(loc, cs, st)
    size = I(1)
    for d in dims:
        size = T.mul(size, d)
    l0 = eng.elem(al, I(0), st)
    old = st.mem.get(l0.path)
    if old is None:
        old = Base('.'.join(l0.path), 'R')
    base = al.off
    eng.note_write(l0.path, (), st)
    if len(l0.idx) != 1:
        raise Unsupported('view of a nested array')

    def g(idx):
        i = T.sub(idx[-1], base)
        inside = T.and_(T.ge(i, I(0)), T.lt(i, size))
        v = f(*eng.unflatten(i, dims))
        if inside is T.TRUE or eng.quick(inside, st):
            return v
        return T.ite(inside, v, eng.read(old, idx, st))
    st.mem[l0.path] = Fn(g)


PI4 = R(4) * R(Fraction(repr(math.pi)))


def weight(k):
    return T.app('G.g_quadrature.*.c_w.#e', (k,), 'R')


def sigmaS(c):
    return T.app('G.g_sigmaS.#e', (c,), 'R')


def same_dims(eng, st, *locs):
    want = {'PsiData': (gvar('g_nGroups'), I(4), gvar('g_nAngles'), gvar('g_nCells')), 'PhiData': (gvar('g_nGroups'), I(4), gvar('g_nCells'))}
    for l in locs:
        for d, w in zip(eng.dims_of(l, container_of(l.ct), st), want[l.ct.name]):
            eng.obl('pre', T.eq(d, w), st, 'the containers passed have the size of the mesh')


def util(eng):
    nA = gvar('g_nAngles')

    def psiToPhi(e, this, v, st):
        phi, psi = v
        same_dims(e, st, phi, psi)
        r = reader(e, psi, st)

        def f(g, vv, c):
            k = e.nonneg_fresh('k')
            return T.mksum(k, I(0), nA, T.mul(r(g, vv, k, c), weight(k)))
        assign(e, phi, f, st)

    def phiToPsi(e, this, v, st):
        phi, psi = v
        same_dims(e, st, phi, psi)
        r = reader(e, phi, st)
        assign(e, psi, lambda g, vv, a, c: r(g, vv, c), st)

    def calcTotalSource(e, this, v, st):
        q, phi, tot = v
        same_dims(e, st, q, phi, tot)
        rq, rp = reader(e, q, st), reader(e, phi, st)
        assign(e, tot, lambda g, vv, a, c: T.add(rq(g, vv, a, c), T.mul(T.rdiv(sigmaS(c), PI4), rp(g, vv, c))), st)

    def operatorS(e, this, v, st):
        p1, p2 = v
        same_dims(e, st, p1, p2)
        r = reader(e, p1, st)
        assign(e, p2, lambda g, vv, c: T.mul(T.rdiv(sigmaS(c), PI4), r(g, vv, c)), st)
    for n, f in (('psiToPhi', psiToPhi), ('phiToPsi', phiToPsi), ('calcTotalSource', calcTotalSource), ('operatorS', operatorS)):
        eng.contracts['Util::' + n] = f
