from vc.ctx import *
from vc import mpi, contracts
from vc.exec import Base, Out, Fn
from vc.congr import same
from vc import prove as P
import itertools, os
from fractions import Fraction


def prove(cx):
    V = lambda n: [T.var('%s%d' % (n, k), 'R') for k in range(3)]
    sub = lambda a, b: [T.sub(x, y) for x, y in zip(a, b)]
    dot = lambda a, b: T.add(*[T.mul(x, y) for x, y in zip(a, b)])
    cross = lambda a, b: [T.sub(T.mul(a[1], b[2]), T.mul(a[2], b[1])), T.sub(T.mul(a[2], b[0]), T.mul(a[0], b[2])), T.sub(T.mul(a[0], b[1]), T.mul(a[1], b[0]))]

    def det3(m):
        s = I(0)
        s = R(0)
        for p in itertools.permutations(range(3)):
            sg = 1
            for i in range(3):
                for j in range(i):
                    if p[j] > p[i]: sg = -sg
            s = T.add(s, T.mul(R(sg), T.mul(m[0][p[0]], T.mul(m[1][p[1]], m[2][p[2]]))))
        return s

    def struct(name, t, pts, st):
        l = obj(name, t)
        c = Base('A.%s.c' % name, 'R')
        from vc.exec import Upd
        p = l.path + ('c',)
        for i, q in enumerate(pts):
            for d in range(3):
                c = Upd(c, (), TRUE, (I(i), I(d)), q[d])
        st.mem[p] = c
        return l
    PT = [V('p'), V('q'), V('r'), V('s')]
    with cx.unit('getTetVolume'):
        eng = cx.engine('src/TychoMesh.cc')
        st = State()
        _, r = cx.run(eng, 'getTetVolume', [struct('points', 'TychoMesh::CellCoords', PT, st)], st=st)
        d = det3([sub(PT[1], PT[0]), sub(PT[2], PT[0]), sub(PT[3], PT[0])])
        same(cx, 'volume is |det| / 6', T.mul(R(6), r), T.fabs(d))
        for k, pm in enumerate(itertools.permutations(range(4))):
            Q = [PT[x] for x in pm]
            d2 = det3([sub(Q[1], Q[0]), sub(Q[2], Q[0]), sub(Q[3], Q[0])])
            same(cx, 'independent of the vertex order (%d)' % k, T.fabs(d2), T.fabs(d))
        cx.discharge(eng)
    with cx.unit('getTriangleArea'):
        eng = cx.engine('src/TychoMesh.cc')
        st = State()
        _, r = cx.run(eng, 'getTriangleArea', [struct('points', 'TychoMesh::FaceCoords', PT[:3], st)], st=st)
        a, b = sub(PT[1], PT[0]), sub(PT[2], PT[0])
        gram = T.sub(T.mul(dot(a, a), dot(b, b)), T.mul(dot(a, b), dot(a, b)))
        # (2 area)^2 = |a|^2 |b|^2 - (a.b)^2, area >= 0
        sq = [x for x in T.atoms_of(r, lambda y: y.op == 'sqrt')]
        if len(sq) == 1:
            S = T.var('S', 'R')
            arg = sq[0].args[0]
            same(cx, 'the radicand is the Gram determinant of two edges', arg, gram)
            same(cx, 'area is half its square root', T.subst(r, {sq[0]: S}), T.mul(R(Fraction(1, 2)), S))
        else:
            raise Unsupported('area formula not recognised')
        for k, pm in enumerate(itertools.permutations(range(3))):
            Q = [PT[x] for x in pm]
            a2, b2 = sub(Q[1], Q[0]), sub(Q[2], Q[0])
            same(cx, 'independent of the vertex order (%d)' % k, T.sub(T.mul(dot(a2, a2), dot(b2, b2)), T.mul(dot(a2, b2), dot(a2, b2))), gram)
        cx.discharge(eng)

    # the cell is written as p, p+a, p+b (the face) and p+d (the fourth vertex): every tetrahedron has this form
    p, a, b, d = V('p'), V('a'), V('b'), V('d')
    plus = lambda x, y: [T.add(u, v) for u, v in zip(x, y)]
    face, q = [p, plus(p, a), plus(p, b)], plus(p, d)
    c = cross(a, b)
    D = dot(c, d)
    S, W = T.var('S', 'R'), T.var('W', 'R')
    zero = R(0)
    pts = face + [q]
    for k, pm in enumerate(itertools.permutations(range(4))):
        with cx.unit('getNormal (cell vertex order %d)' % k):
            eng = cx.engine('src/TychoMesh.cc')
            st = State()
            cell = [pts[x] for x in pm]
            # the four vertices of a cell that is not degenerate are different points
            differ = []
            for i, j in itertools.combinations(range(4), 2):
                if k == 0:
                    m = {'01': dict(zip(a, [zero] * 3)), '02': dict(zip(b, [zero] * 3)), '03': dict(zip(d, [zero] * 3)), '12': dict(zip(a, b)), '13': dict(zip(d, a)), '23': dict(zip(d, b))}['%d%d' % (i, j)]
                    same(cx, 'lemma: vertices %d and %d coincide only in a degenerate cell' % (i, j), T.subst(D, m), zero)
                differ.append(T.not_(T.and_(*[T.eq(x, y) for x, y in zip(pts[i], pts[j])])))
            eng.facts += differ
            _, r = cx.run(eng, 'getNormal', [struct('facePoints', 'TychoMesh::FaceCoords', face, st), struct('cellPoints', 'TychoMesh::CellCoords', cell, st)], st=st)
            n = [read(eng, st, r, x) for x in range(3)]
            sq = set()
            for x in n:
                sq |= set(T.atoms_of(x, lambda y: y.op == 'sqrt'))
            if len(sq) != 1:
                raise Unsupported('normalisation not recognised')
            sq = sq.pop()
            same(cx, 'the norm is the length of the cross product of two edges', sq.args[0], dot(c, c))
            # S = |a x b| > 0 and W = 1/S
            n = [T.subst(T.subst(x, {sq: S}), {T.inv(S): W}) for x in n]
            pos = [T.gt(S, zero), T.gt(W, zero), T.eq(T.mul(S, W), R(1))]
            for sign, hy in ((-1, T.gt(D, zero)), (1, T.lt(D, zero))):
                nn = [signed(cx, eng, x, D, W, pos + [hy], sign) for x in n]
                who = 'the fourth vertex on the %s side: ' % ('positive' if sign < 0 else 'negative')
                same(cx, who + 'orthogonal to the first edge', dot(nn, a), zero)
                same(cx, who + 'orthogonal to the second edge', dot(nn, b), zero)
                # n.n = W^2 |a x b|^2 = W^2 S^2 = 1
                same(cx, who + 'unit length', dot(nn, nn), T.mul(T.mul(W, W), dot(c, c)))
                # n.d = -|D| W < 0
                same(cx, who + 'pointing away from the fourth vertex', dot(nn, d), T.mul(R(sign), T.mul(W, D)))
            cx.discharge(eng, [T.gt(sq, zero)])
    with cx.unit('lemma: signs'):
        x, y = T.var('x', 'R'), T.var('y', 'R')
        eng = cx.engine('src/TychoMesh.cc')
        cx.prove('a product with a positive factor keeps its sign', T.and_(T.implies(T.gt(x, zero), T.gt(T.mul(x, y), zero)), T.implies(T.lt(x, zero), T.lt(T.mul(x, y), zero))), [T.gt(y, zero)])

        u, v = V('u'), V('v')
        cx.prove('the cross product of a cell that is not degenerate is not zero', T.gt(dot(u, u), zero), [T.ne(dot(u, v), zero)])

    ctor(cx, struct)


def signed(cx, eng, x, D, W, hyps, sign):
    """resolve the conditionals of the orientation flip under the sign of D; anything else stays"""
    key, gap = T.var('D#', 'R'), R(0)
    E = T.mul(D, W)

    memo = {}

    def go(y):
        if not T.atoms_of(y, lambda z: z.op == 'ite'):
            return y
        if y not in memo:
            r = None
            if y.op == 'ite':
                v = decide(go(y.args[0]))
                if v is not None:
                    r = go(y.args[1] if v else y.args[2])
            memo[y] = r if r is not None else T.rebuild(y, go)
        return memo[y]

    def decide(cnd):
        if cnd.op == 'not':
            v = decide(cnd.args[0])
            return None if v is None else not v
        for m in (D, E):
            for rel, v in ((T.gt(m, gap), sign < 0), (T.lt(m, gap), sign > 0), (T.ge(m, gap), sign < 0), (T.le(m, gap), sign > 0)):
                if cnd is rel: return v
        if cnd is T.TRUE: return True
        if cnd is T.FALSE: return False
        if not T.atoms_of(cnd, lambda z: z is W):
            h = list(eng.facts)
            if P.valid(cnd, h, eng.axioms, 2000)[0]: return True
            if P.valid(T.not_(cnd), h, eng.axioms, 2000)[0]: return False
            return None
        if P.valid(cnd, hyps, eng.axioms, 3000)[0]: return True
        if P.valid(T.not_(cnd), hyps, eng.axioms, 3000)[0]: return False
        return None
    return go(x)


def entry(eng, loc, i, d, st):
    """coordinate d of vertex i of a CellCoords or FaceCoords argument"""
    return eng.load(Loc(loc.path + ('c',), loc.idx + (I(i), I(d)), ptype('double')), st)


def ctor(cx, struct):
    nA, nC = gvar('g_nAngles'), gvar('g_nCells')
    with cx.unit('TychoMesh::TychoMesh'):
        eng = cx.engine('src/TychoMesh.cc', 'src/Quadrature.cc')
        st = State()
        mesh(eng, st)
        st.mem[('G', 'g_nFacePerCell')] = I(4)
        this = Loc(MESH, (), ptype('TychoMesh'))

        def readMesh(e, t, w, s):
            # the tables are whatever readTychoMesh makes of the file (P13)
            for p in e.sub_paths(MESH, s):
                e.note_write(p)
                del s.mem[p]
            mesh(e, s)
            for n, ds in (('c_nodeCoords', (uvar('nNodes'), I(3))), ('c_cellNodes', (nC, I(4)))):
                for x, v in zip(('c_xlen', 'c_ylen'), ds):
                    s.mem[MESH + (n, x)] = v
        eng.contracts['TychoMesh::readTychoMesh'] = readMesh

        def scalar(name, nv):
            return lambda e, t, w, s: T.app(name, tuple(entry(e, w[0], i, d, s) for i in range(nv) for d in range(3)), 'R')
        eng.contracts['getTetVolume'] = scalar('volume', 4)
        eng.contracts['getTriangleArea'] = scalar('area', 3)

        def normal(e, t, w, s):
            f = tuple(entry(e, w[0], i, d, s) for i in range(3) for d in range(3))
            c = tuple(entry(e, w[1], i, d, s) for i in range(4) for d in range(3))
            l = Loc((T.fresh_name('normal'),), (), ptype('std::vector<double>'))
            s.mem[l.path + ('#n',)] = I(3)
            s.mem[l.path + ('#e',)] = Fn(lambda idx: T.app('normal', (idx[0],) + f + c, 'R'))
            return l
        eng.contracts['getNormal'] = normal
        eng.assume_asserts = True
        cx.run(eng, 'TychoMesh::TychoMesh', [obj('filename', 'std::string')], this=this, st=st)
        a, c, f = uvar('angle'), uvar('cell'), uvar('face')

        def m(n, *ix):
            return eng.read(content(st, eng, Loc(MESH + (n,), (), ptype(TYPES[n]))), tuple(x if isinstance(x, T.E) else I(x) for x in ix), st)
        node = lambda v: mapp('c_cellNodes', c, v)
        at = lambda n: tuple(T.app('.'.join(MESH + ('c_nodeCoords', '#e')), (n, I(x)), 'R') for x in range(3))
        cellPts = sum((at(node(v)) for v in range(4)), ())
        hy = in_range((c, nC), (a, nA))
        same(cx, 'the stored volume is that of the four vertices of the cell', m('c_cellVolume', c), T.app('volume', cellPts, 'R'), hy)
        for f in range(4):
            facePts = sum((at(node(mapp('c_faceToCellVrtx', c, f, v))) for v in range(3)), ())
            same(cx, 'the stored area of face %d is that of its three vertices' % f, m('c_faceArea', c, f), T.app('area', facePts, 'R'), hy)
            n = [T.app('normal', (I(x),) + facePts + cellPts, 'R') for x in range(3)]
            q = [T.app('G.g_quadrature.*.%s.#e' % x, (a,), 'R') for x in ('c_xi', 'c_eta', 'c_mu')]
            same(cx, 'the stored product of face %d is the direction dotted with its normal' % f, m('c_omegaDotN', a, c, f), dot3(q, n), hy)
        cx.discharge(eng, kinds=('bounds', 'div', 'init'))
    for nm, rel in (('isOutgoing', lambda x: T.gt(x, R(0))), ('isIncoming', lambda x: T.lt(x, R(0)))):
        with cx.unit('TychoMesh::' + nm):
            eng = cx.engine('src/TychoMesh.cc')
            st = State()
            mesh(eng, st)
            f = uvar('face')
            eng.facts += in_range((a, nA), (c, nC), (f, 4))
            _, r = cx.run(eng, 'TychoMesh::' + nm, [a, c, f], this=this, st=st)
            cx.prove('decided by the sign of the stored product', iff(r, rel(mapp('c_omegaDotN', a, c, f))))
            cx.discharge(eng)


def iff(x, y):
    x = x if x.sort == 'B' else T.ne(x, I(0))
    return T.and_(T.implies(x, y), T.implies(y, x))


def dot3(a, b):
    return T.add(*[T.mul(x, y) for x, y in zip(a, b)])


TYPES = {'c_cellVolume': 'Mat1<double>', 'c_faceArea': 'Mat2<double>', 'c_omegaDotN': 'Mat3<double>'}
