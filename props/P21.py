from vc.ctx import *
from fractions import Fraction


def prove(cx):
    nG, nA, nC = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells')
    g, v, a, c = uvar('g'), uvar('v'), uvar('a'), uvar('c')
    rng = in_range((g, nG), (a, nA), (c, nC))
    cx.assume('the mesh tables hold the coordinates, nodes and materials of the mesh file (P10, P11, P13)')
    cx.assume('a flux that is identically zero has no relative error (0/0)')

    def fresh():
        T.MX = False
        eng = cx.engine('src/Problem.cc', 'src/Util.cc', 'src/Quadrature.cc')
        st = State()
        mesh(eng, st)
        m = lambda *n: st.mem.__setitem__(MESH + n[:-1], n[-1])
        st.mem[MESH + ('c_cellMaterial', 'c_xlen')] = nC
        st.mem[MESH + ('c_cellNodes', 'c_xlen')] = nC
        st.mem[MESH + ('c_cellNodes', 'c_ylen')] = I(4)
        nN = uvar('nNodes')
        st.mem[MESH + ('c_nodeCoords', 'c_xlen')] = nN
        st.mem[MESH + ('c_nodeCoords', 'c_ylen')] = I(3)
        nm = '.'.join(MESH + ('c_cellNodes', '#e'))
        T.NONNEG.add(nm)
        eng.axioms.add(nm, lambda i: [T.lt(T.app(nm, i, 'I'), nN)])
        T.NONNEG.add('.'.join(MESH + ('c_cellMaterial', '#e')))
        for q in ('c_w', 'c_mu', 'c_eta', 'c_xi'):
            st.mem[('G', 'g_quadrature', '*', q, '#n')] = nA
        for q in ('g_sigmaS', 'g_sigmaT'):
            st.mem[('G', q, '#n')] = nC
        return eng, st

    quad = lambda n, i: T.app('G.g_quadrature.*.%s.#e' % n, (i,), 'R')
    node = lambda i, j: T.app('.'.join(MESH + ('c_cellNodes', '#e')), (i, I(j)), 'I')
    coord = lambda n, k: T.app('.'.join(MESH + ('c_nodeCoords', '#e')), (n, I(k)), 'R')
    sig = lambda n, i: T.app('G.%s.#e' % n, (i,), 'R')
    mat = lambda i: T.app('.'.join(MESH + ('c_cellMaterial', '#e')), (i,), 'I')

    with cx.unit('Problem::createCrossSections'):
        eng, st = fresh()
        s1, s2 = obj('sT', 'std::vector<double>'), obj('sS', 'std::vector<double>')
        t1, u1, t2, u2 = (T.var(n, 'R') for n in ('sigmaT1', 'sigmaS1', 'sigmaT2', 'sigmaS2'))
        eng.assume_asserts = False
        cx.run(eng, 'Problem::createCrossSections', [s1, s2, t1, u1, t2, u2], st=st)
        for s, x1, x2, n in ((s1, t1, t2, 'total'), (s2, u1, u2, 'scattering')):
            cx.prove('one %s cross section per cell' % n, T.eq(st.mem.get(s.path + ('#n',)), nC))
            cx.prove('%s cross section of a cell of material 1' % n, T.eq(read(eng, st, s, c), x1), rng + [T.eq(mat(c), I(1))])
            cx.prove('%s cross section of a cell of material 2' % n, T.eq(read(eng, st, s, c), x2), rng + [T.eq(mat(c), I(2))])
        known = T.or_(T.eq(mat(c), I(1)), T.eq(mat(c), I(2)))
        chk, rest = [], []
        for o in eng.obls:
            if o.kind != 'assert':
                rest.append(o)
                continue
            f = T.implies(T.and_(*o.hyps), o.goal)
            lv = [x for x in T.free_vars(f) if x.info.startswith('t!')]
            chk.append(T.subst(f, {x: c for x in lv}) if lv else f)
        eng.obls = rest
        cx.prove('a cell of any other material is refused', known, rng + chk)
        cx.prove('materials 1 and 2 are accepted', T.and_(*chk), rng + [known])
        cx.discharge(eng)

    with cx.unit('hatSource'):
        eng, st = fresh()
        src = obj('source', 'PsiData')
        phase(eng, st, src)
        pre = st.copy()
        cx.run(eng, 'Problem::getSource', [src], st=st)
        for vv in range(4):
            n = node(c, vv)
            x, y, z = (T.sub(coord(n, k), R(50)) for k in range(3))
            r = T.sqrt(x * x + y * y + z * z)
            got = read(eng, st, src, g, vv, a, c)
            hat = T.mul(T.sub(sig('g_sigmaT', c), sig('g_sigmaS', c)), T.sub(R(1), T.mul(R(Fraction(1, 30)), r)))
            dot = x * quad('c_xi', a) + y * quad('c_eta', a) + z * quad('c_mu', a)
            cx.prove('vertex %d: source outside the sphere is zero' % vv, T.eq(got, R(0)), rng + [T.gt(r, R(30))])
            cx.prove('vertex %d: source inside is Omega.grad(1 - r/30) + (sigmaT - sigmaS)(1 - r/30)' % vv,
                     T.eq(got, T.sub(hat, T.mul(T.mul(R(Fraction(1, 30)), dot), T.inv(r)))), rng + [T.gt(r, R(0)), T.lt(r, R(30))])
            cx.prove('vertex %d: source at the centre is the removal term' % vv,
                     T.eq(got, hat), rng + [T.eq(r, R(0)), T.eq(x, R(0)), T.eq(y, R(0)), T.eq(z, R(0))])
        cx.discharge(eng, kinds=None)

    with cx.unit('Problem::hatL2Error'):
        eng, st = fresh()
        eng.contracts['Comm::gsum'] = lambda e, t, w, s: e.store(w[0], T.app('gsum', (e.load(w[0], s),), 'R'), s)
        psi = obj('psi', 'PsiData')
        phase(eng, st, psi)
        pre = st.copy()
        st, res = cx.run(eng, 'Problem::hatL2Error', [psi], st=st)
        q = R(Fraction(1, 4))
        cen = []
        for k in range(3):
            s_ = R(0)
            for vv in range(4):
                s_ = T.add(s_, T.sub(coord(node(c, vv), k), R(50)))
            cen.append(T.mul(q, s_))
        r = T.sqrt(cen[0] * cen[0] + cen[1] * cen[1] + cen[2] * cen[2])
        mean = R(0)
        for vv in range(4):
            mean = T.add(mean, T.mul(q, read(eng, pre, psi, g, vv, a, c)))
        hat = T.sub(R(1), T.mul(R(Fraction(1, 30)), r))
        act = T.ite(T.le(r, R(30)), hat, R(0))

        def total(e):
            return T.app('gsum', (T.mksum(c, I(0), nC, T.mksum(a, I(0), nA, T.mksum(g, I(0), nG, e))),), 'R')
        d = T.sub(mean, act)
        want2 = T.rdiv(total(d * d), total(mean * mean))
        ok = T.sqrt(want2) is res
        if not ok:
            # |error| outside the sphere and inside it, as separate sums; r == 30 has hat == 0 either way
            act2 = T.ite(T.lt(r, R(30)), hat, R(0))
            d2 = T.sub(mean, act2)
            ok = T.sqrt(T.rdiv(total(d2 * d2), total(mean * mean))) is res
        if ok:
            cx.decide('the result is sqrt(gsum sum (mean - hat(centroid))^2 / gsum sum mean^2)', True, 'normal-form')
        else:
            cx.prove('the result is sqrt(gsum sum (mean - hat(centroid))^2 / gsum sum mean^2)', T.eq(res, T.sqrt(want2)))
        cx.discharge(eng, kinds=('index', 'sub', 'null'))

    with cx.unit('Util::diffBetweenGroups'):
        eng, st = fresh()
        T.MX = True
        try:
            eng.contracts['Comm::gmax'] = lambda e, t, w, s: e.store(w[0], T.app('gmax', (T.mx(R(0), e.load(w[0], s)),), 'R'), s)
            psi = obj('psi', 'PsiData')
            phase(eng, st, psi)
            pre = st.copy()
            eng.facts.append(T.lt(I(0), nG))
            st, res = cx.run(eng, 'Util::diffBetweenGroups', [psi], st=st)
            p = lambda gg, vv: read(eng, pre, psi, gg, vv, a, c)

            def total(f):
                return T.app('gmax', (T.mx(R(0), *[T.fmaxover(c, I(0), nC, T.fmaxover(a, I(0), nA, f(vv))) for vv in range(4)]),), 'R')
            dif = total(lambda vv: T.fmaxover(g, I(1), nG, T.fabs(T.sub(p(0, vv), p(g, vv)))))
            first = total(lambda vv: T.fabs(p(0, vv)))
            cx.prove('the result is gmax |psi_g - psi_0| / gmax |psi_0|', T.eq(res, T.rdiv(dif, first)))
            cx.discharge(eng, kinds=('index', 'sub', 'null'))
        finally:
            T.MX = False
