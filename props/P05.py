from vc.ctx import *
import math
from fractions import Fraction


def prove(cx):
    nG, nA, nC = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells')
    g, v, a, c = uvar('g'), uvar('v'), uvar('a'), uvar('c')
    rng = in_range((g, nG), (v, 4), (a, nA), (c, nC))
    pi4 = R(4) * R(Fraction(repr(math.pi)))

    def fresh():
        eng = cx.engine('src/Util.cc', 'src/Quadrature.cc')
        st = State()
        mesh(eng, st)
        st.mem[('G', 'g_sigmaS', '#n')] = nC
        wt = ('G', 'g_quadrature', '*', 'c_w')
        st.mem[wt + ('#n',)] = nA
        return eng, st

    with cx.unit('Util::psiToPhi'):
        eng, st = fresh()
        phi, psi = obj('phi', 'PhiData'), obj('psi', 'PsiData')
        phase(eng, st, phi); phase(eng, st, psi)
        pre = st.copy()
        cx.satisfiable(eng, rng)
        cx.run(eng, 'Util::psiToPhi', [phi, psi], st=st)
        w = lambda k: T.app('G.g_quadrature.*.c_w.#e', (k,), 'R')
        k = uvar('k')
        for vv in range(4):
            want = T.mksum(k, I(0), nA, T.mul(read(eng, pre, psi, g, vv, k, c), w(k)))
            cx.prove('phi(g,%d,c) == Sum_a w(a) psi(g,%d,a,c)' % (vv, vv), T.eq(read(eng, st, phi, g, vv, c), want), rng)
        cx.prove('psi unchanged', T.eq(read(eng, st, psi, g, v, a, c), read(eng, pre, psi, g, v, a, c)), rng)
        cx.discharge(eng)

    with cx.unit('Util::phiToPsi'):
        eng, st = fresh()
        phi, psi = obj('phi', 'PhiData'), obj('psi', 'PsiData')
        phase(eng, st, phi); phase(eng, st, psi)
        pre = st.copy()
        cx.run(eng, 'Util::phiToPsi', [phi, psi], st=st)
        cx.prove('psi(g,v,a,c) == phi(g,v,c)', T.eq(read(eng, st, psi, g, v, a, c), read(eng, pre, phi, g, v, c)), rng)
        cx.discharge(eng)

    with cx.unit('Util::calcTotalSource'):
        eng, st = fresh()
        phi, q, tot = obj('phi', 'PhiData'), obj('q', 'PsiData'), obj('tot', 'PsiData')
        phase(eng, st, phi); phase(eng, st, q); phase(eng, st, tot)
        pre = st.copy()
        cx.run(eng, 'Util::calcTotalSource', [q, phi, tot], st=st)
        ss = T.app('G.g_sigmaS.#e', (c,), 'R')
        want = read(eng, pre, q, g, v, a, c) + T.rdiv(ss, pi4) * read(eng, pre, phi, g, v, c)
        cx.prove('total == Q + sigmaS(cell)/4pi phi', T.eq(read(eng, st, tot, g, v, a, c), want), rng)
        cx.discharge(eng)

    with cx.unit('Util::operatorS'):
        eng, st = fresh()
        p1, p2 = obj('phi1', 'PhiData'), obj('phi2', 'PhiData')
        phase(eng, st, p1); phase(eng, st, p2)
        pre = st.copy()
        cx.run(eng, 'Util::operatorS', [p1, p2], st=st)
        ss = T.app('G.g_sigmaS.#e', (c,), 'R')
        cx.prove('phi2 == sigmaS(cell)/4pi phi1', T.eq(read(eng, st, p2, g, v, c), T.rdiv(ss, pi4) * read(eng, pre, p1, g, v, c)), rng)
        cx.discharge(eng)

    with cx.unit('Util::operatorS in place'):
        eng, st = fresh()
        p1 = obj('phi', 'PhiData')
        phase(eng, st, p1)
        pre = st.copy()
        cx.run(eng, 'Util::operatorS', [p1, p1], st=st)
        ss = T.app('G.g_sigmaS.#e', (c,), 'R')
        for vv in range(4):
            cx.prove('vertex %d: phi == sigmaS(cell)/4pi phi' % vv, T.eq(read(eng, st, p1, g, vv, c), T.rdiv(ss, pi4) * read(eng, pre, p1, g, vv, c)), rng)
        cx.discharge(eng)
