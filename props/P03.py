from vc.ctx import *


def prove(cx):
    nG, nA, nC = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells')
    ang, cell = uvar('angle'), uvar('cell')
    with cx.unit('Transport::populateLocalPsiBound'):
        eng = cx.engine('src/Transport.cc')
        st = State()
        mesh(eng, st)
        psi, pb, l = obj('psi', 'PsiData'), obj('psiBound', 'PsiBoundData'), obj('lpb', 'Mat3<double>')
        phase(eng, st, psi); phase(eng, st, pb)
        dims(eng, st, l, I(3), I(4), nG)
        pre = st.copy()
        hy = in_range((ang, nA), (cell, nC))
        eng.facts += hy
        cx.satisfiable(eng)
        cx.run(eng, 'Transport::populateLocalPsiBound', [ang, cell, psi, pb, l], st=st)
        for face in range(4):
            for fv in range(3):
                g = uvar('g')
                h = in_range((g, nG))
                got = read(eng, st, l, fv, face, g)
                inc = T.le(mapp('c_omegaDotN', ang, cell, face), R(0))
                adj = mapp('c_adjCell', cell, face)
                inner = read(eng, pre, psi, g, mapp('c_neighborVrtx', cell, face, fv), ang, adj)
                bnd = read(eng, pre, pb, g, I(fv), ang, mapp('c_side', cell, face))
                want = T.ite(T.not_(inc), R(0),
                             T.ite(T.ne(adj, BOUNDARY), inner,
                                   T.ite(T.ne(mapp('c_adjProc', cell, face), BOUNDARY), bnd, R(0))))
                cx.prove('face %d vertex %d carries the upwind value' % (face, fv), T.eq(got, want), h + [T.ne(mapp('c_omegaDotN', ang, cell, face), R(0))])
        cx.discharge(eng)


