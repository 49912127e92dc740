from vc.ctx import *
from vc import mpi, contracts
from vc.exec import Base, Out, Fn, FnVal
from vc.inv import Head, Driver
from vc.nest import Nest
from vc.congr import same


def prove(cx):
    nG, nA, nC = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells')
    nS = T.var('.'.join(MESH + ('c_nSides',)), 'I')

    def packing(fn, kind):
        eng = cx.engine('src/SweeperSchur.cc')
        st = State()
        mesh(eng, st)
        eng.facts += [T.gt(nG, I(0)), T.gt(nA, I(0))]
        pb = obj('psiBound', 'PsiBoundData')
        phase(eng, st, pb)
        pc = pb.path + ('#e',)
        x = Ptr(('A', 'x'), (), I(0), ptype('double'), False)
        xp = x.path
        j, jj = uvar('j'), [uvar('j%d' % k) for k in range(4)]

        def scal(head, after):
            return [(p, v) for p, v in head.mem.items() if isinstance(v, T.E) and v.sort == 'I' and v is not after.mem.get(p)]

        def effect(head, after):
            rd = lambda s, p, *ix: eng.read(s.mem[p], tuple(ix), s) if p in s.mem else eng.read(Base('.'.join(p), 'R'), tuple(ix), s)
            out = {}
            if kind == 'size':
                if xp in after.mem and after.mem.get(xp) is not head.mem.get(xp): raise Unsupported('writes')
                return {'one': I(1)}
            if kind == 'pack':
                # x[pos] = psiBound(elem), nothing else
                g = rd(after, xp, j)
                pos = [v for p, v in scal(head, after)]
                hit = None
                for q in pos:
                    v = rd(after, xp, q)
                    if v.op == 'app' and v.info.startswith('A.psiBound'):
                        hit = (q, v)
                if hit is None:
                    raise Unsupported('packed element not recognised')
                q, v = hit
                eng.obl('post', T.implies(T.ne(j, q), T.eq(g, rd(head, xp, j))), head, 'only the element at the cursor is written')
                eng.obl('post', T.eq(rd(after, pc, *jj), T.app('.'.join(pc), tuple(jj), 'R')), head, 'the boundary data is unchanged')
                out['pos'] = q
                for k, a in enumerate(v.args):
                    out['e%d' % k] = a
            else:
                g = rd(after, pc, *jj)
                reads = [a for a in T.atoms_of(g, lambda y: y.op == 'app' and y.info == '.'.join(xp))]
                if len(reads) != 1:
                    raise Unsupported('unpacked element not recognised')
                # g = ite(j0=e0 & .., x[pos], head): the guard fixes every index
                cur = g
                conj = []
                if cur.op != 'ite' or cur.args[1] is not reads[0]:
                    raise Unsupported('unpacked element not recognised')
                el = {}
                c = cur.args[0]
                for a in (c.args if c.op == 'and' else (c,)):
                    hitk = None
                    for k, jv in enumerate(jj):
                        for cand in _solve(a, jv):
                            hitk = (k, cand)
                    if hitk is None:
                        raise Unsupported('unpacked element not recognised')
                    el[hitk[0]] = hitk[1]
                if sorted(el) != [0, 1, 2, 3]:
                    raise Unsupported('unpacked element not recognised')
                eng.obl('post', T.eq(cur.args[2], rd(head, pc, *jj)), head, 'only the element of the cursor is written')
                eng.obl('post', T.eq(rd(after, xp, j), T.app('.'.join(xp), (j,), 'R')), head, 'the vector is unchanged')
                out['pos'] = reads[0].args[0]
                for k in range(4):
                    out['e%d' % k] = el[k]
            return out
        ns = Nest(eng, effect)
        args = {'pack': [x, pb], 'unpack': [x, pb], 'size': []}[kind]
        st, r = cx.run(eng, fn, args, st=st)
        ns.close()
        if len(ns.recs) != 1:
            raise Unsupported('%d packing loops' % len(ns.recs))
        return eng, st, r, ns.recs[0]

    lv = [uvar('lv%d' % k) for k in range(8)]
    keep = {}

    def context(rec):
        return [T.lt(lv[k], b) for k, b in enumerate(rec.bounds)]

    def spec(rec, eng):
        """the packed element is an incoming partition-boundary value of this rank"""
        g, fv, a, s = [rec.eff['e%d' % k] for k in range(4)]
        hy = context(rec) + [rec.guard]
        cx.prove('element in range: group, face vertex, angle, side', T.and_(T.lt(g, nG), T.lt(fv, I(3)), T.lt(a, nA), T.lt(s, nS)), hy)

    for fn, kind in (('psiBoundToVec', 'pack'), ('vecToPsiBound', 'unpack')):
        with cx.unit(fn):
            eng, st, r, rec = packing(fn, kind)
            keep[kind] = (eng, rec, r)
            cx.discharge(eng, kinds=('pre', 'sub', 'null', 'post'))
            if kind != 'size':
                spec(rec, eng)
                cur = [p for p, v in rec.cursor.items() if v is rec.eff['pos']]
                if len(cur) != 1:
                    raise Unsupported('cursor not recognised')
                cx.prove('the cursor advances by one per element', T.eq(rec.adv[cur[0]], I(1)), context(rec) + [rec.guard])
    with cx.unit('packing: enumeration'):
        eng, rec, _ = keep['pack']
        cx.last = eng
        # role of each loop
        e = [rec.eff['e%d' % k] for k in range(4)]
        want = {0: nG, 1: I(3), 2: nA}
        role = {}
        for k, v in enumerate(lv[:len(rec.bounds)]):
            for q in (0, 1, 2):
                if e[q] is v:
                    role[q] = k
        rest = [k for k in range(len(rec.bounds)) if k not in role.values()]
        side_app = e[3]
        if len(role) != 3 or len(rest) != 2 or side_app.op != 'app' or side_app.info != '.'.join(MESH + ('c_side', '#e')):
            raise Unsupported('packing nest not recognised')
        cell, face = side_app.args
        if not {cell, face} == {lv[k] for k in rest}:
            raise Unsupported('packing nest not recognised')
        bnd = lambda v: rec.bounds[lv.index(v)]
        for nm, v, b in (('group', e[0], nG), ('face vertex', e[1], I(3)), ('direction', e[2], nA), ('cell', cell, nC), ('face', face, I(4))):
            cx.prove('every %s is visited' % nm, T.eq(bnd(v), b))
        a = e[2]
        inc = T.and_(T.lt(mapp('c_omegaDotN', a, cell, face), R(0)), T.eq(mapp('c_adjCell', cell, face), BOUNDARY), T.ne(mapp('c_adjProc', cell, face), BOUNDARY))
        hy = context(rec)
        cx.prove('packed only if the face is an incoming partition boundary face', T.implies(rec.guard, inc), hy)
        cx.prove('every incoming partition boundary face is packed', T.implies(inc, rec.guard), hy)
        zero = {v: I(0) for v in lv[:len(rec.bounds)]}
        cx.prove('the first position is zero', T.eq(T.subst(rec.eff['pos'], zero), I(0)))
        eng2, rec2, _ = keep['unpack']
        cx.last = eng2
        if len(rec2.bounds) != len(rec.bounds):
            raise Unsupported('loops differ')
        for k, (b1, b2) in enumerate(zip(rec.bounds, rec2.bounds)):
            cx.prove('loop %d of packing and unpacking have the same range' % k, T.eq(b1, b2))
        cx.prove('packing and unpacking take the same elements', T.and_(T.implies(rec.guard, rec2.guard), T.implies(rec2.guard, rec.guard)), hy)
        for k in ('e0', 'e1', 'e2', 'e3', 'pos'):
            same(cx, 'packing and unpacking agree: ' + {'e0': 'group', 'e1': 'face vertex', 'e2': 'direction', 'e3': 'side', 'pos': 'position'}[k], rec.eff[k], rec2.eff[k], hy + [rec.guard])
        keep['inc'] = inc
    with cx.unit('getPsiBoundSize'):
        rec, inc = keep['pack'][1], keep['inc']
        eng3, st, r3, rec3 = packing('getPsiBoundSize', 'size')
        cx.discharge(eng3, kinds=('pre', 'sub', 'null'))
        # total advance of the packing cursor = advertised size
        total = T.ite(inc, I(1), I(0))
        for k in reversed(range(len(rec.bounds))):
            total = T.mksum(lv[k], I(0), rec.bounds[k], total)
        same(cx, 'the number of positions used is the advertised size', indicator(total), indicator(r3), [], eng=eng3)
    prove_ops(cx)
    prove_pbj(cx)
    prove_drivers(cx)


def indicator(t):
    """c1 ? (c2 ? n : 0) : 0  as  n * [c1 and c2]"""
    def go(x):
        if x.op == 'sum':
            k = T.fresh('bv', 'I')
            T.NONNEG.add(k.info)
            return T.mksum(k, x.args[0], x.args[1], indicator(T.subst(x.args[2], {T.bvar(x.info): k})))
        if x.op == 'ite':
            c, a, b = x.args
            a, b = indicator(a), indicator(b)
            if b.op == 'num' and b.info == 0:
                out = T.I(0)
                if a.op == 'num':
                    return T.mul(a, T.ite(c, I(1), I(0)))
                if a.op == 'ite' and a.args[2].op == 'num' and a.args[2].info == 0:
                    return T.ite(T.and_(c, a.args[0]), a.args[1], I(0))
                if a.op == 'poly' and len(list(a.info)) == 1:
                    (m, k), = list(a.info)
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite':
                        y = m[0][0]
                        return T.mul(I(k), T.ite(T.and_(c, y.args[0]), y.args[1], I(0)))
            return T.ite(c, a, b)
        return T.rebuild(x, go)
    return go(t)


def _solve(a, v):
    """terms w with a equivalent to v == w"""
    if not T.atoms_of(a, lambda y: y is v):
        return
    p = a.args[0] if a.args else None
    for cand in (p, ):
        if cand is None or not isinstance(cand, T.E) or cand.sort != 'I':
            continue
        for w in (T.add(cand, v), T.sub(v, cand)):
            if T.eq(v, w) is a:
                yield w


# ---------------------------------------------------------------------------------------------- operators and drivers
def ops(cx, eng, st):
    """contracts of what the Schur and block-Jacobi drivers call"""
    S = uvar('psiBoundSize')
    nG, nA, nC = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells')
    mesh(eng, st)
    eng.events = []
    contracts.util(eng)
    T.NONNEG.add('its')
    T.NONNEG.add('inner_its')

    def ev(e, n, w, s):
        x = mpi.Ev(n, w, s, tuple(e.loop_vars))
        e.events.append(x)
        return x

    def token(x, e, loc, s):
        nm = T.fresh_name(x.name)
        lv = tuple(e.loop_vars)
        x.result = lambda *ix: T.app(nm, tuple(ix) + lv, 'R')
        contracts.assign(e, loc, x.result, s)

    def unpack(e, this, w, s):
        x = ev(e, 'unpack', list(w), s)
        token(x, e, w[1], s)

    def pack(e, this, w, s):
        x = ev(e, 'pack', list(w), s)
        nm = T.fresh_name('packed')
        x.result = lambda i: T.app(nm, (i,), 'R')
        p = w[0]
        c = s.mem.get(p.path)
        if c is None:
            c = Base('.'.join(p.path), 'R')
        e.note_write(p.path)
        s.mem[p.path] = Fn(lambda idx: T.ite(T.and_(T.ge(idx[-1], p.off), T.lt(T.sub(idx[-1], p.off), S)), T.app(nm, (T.sub(idx[-1], p.off),), 'R'), e.read(c, idx, s)))

    def local(e, this, w, s):
        contracts.same_dims(e, s, w[0], w[1])
        x = ev(e, 'local', list(w), s)
        token(x, e, w[0], s)

    def comm(e, this, w, s):
        x = ev(e, 'comm', [this] + list(w), s)
        token(x, e, w[1], s)

    def source(e, this, w, s):
        x = ev(e, 'getSource', list(w), s)
        contracts.assign(e, w[0], lambda *ix: T.app('qsource', ix, 'R'), s)

    def inner(n):
        def f(e, this, w, s):
            x = ev(e, n, list(w), s)
            x.result = None
            token(x, e, w[1], s)
            return T.app(T.fresh_name('inner_its'), tuple(e.loop_vars), 'I')
        return f
    C = eng.contracts
    C['vecToPsiBound'], C['psiBoundToVec'], C['Util::sweepLocal'], C['CommSides::commSides'], C['Problem::getSource'] = unpack, pack, local, comm, source
    C['getPsiBoundSize'] = lambda e, t, w, s: S
    C['SourceIteration::fixedPoint'] = inner('fixedPoint')
    C['SourceIteration::krylov'] = inner('krylov')
    for n in ('gsum', 'gmax'):
        C['Comm::' + n] = lambda e, t, w, s, n=n: e.store(w[0], T.app(n, (e.load(w[0], s),), e.load(w[0], s).sort), s)
    C['Comm::rank'] = lambda e, t, w, s: uvar('rank')
    B = Ptr(('A', 'bvec'), (), I(0), ptype('double'), False)
    X = Ptr(('A', 'xvec'), (), I(0), ptype('double'), False)

    def rec(n, ret=lambda e, w, s: None):
        def f(e, this, w, s):
            ev(e, n, list(w), s)
            return ret(e, w, s)
        C['KrylovSolver::' + n if n != 'ctor' else 'ctor:KrylovSolver'] = f

    def solve(e, w, s):
        nm = T.fresh_name('xsol')
        e.events[-1].result = lambda i: T.app(nm, (i,), 'R')
        s.mem[X.path] = Fn(lambda idx: T.app(nm, (idx[-1],), 'R'))
        e.note_write(X.path)
        for l in e.operator_data:        # the operator is applied: what it works on is overwritten
            tk = T.fresh_name('after_solve')
            contracts.assign(e, l, lambda *ix, tk=tk: T.app(tk, ix, 'R'), s)

    def setdata(e, w, s):
        d = w[0]
        e.data = {}
        for n in ('psi', 'psiBound', 'source', 'phi', 'commSides', 'sweeperSchurOuter', 'psiBoundSize'):
            v = s.mem.get(d.path + (n,))
            if v is not None:
                e.data[n] = v
        e.operator_data = [e.deref(e.data[n], s) for n in ('psi', 'psiBound', 'source', 'phi') if n in e.data]
    rec('ctor')
    rec('setData', setdata)
    rec('getB', lambda e, w, s: B)
    rec('getX', lambda e, w, s: X)
    rec('releaseB')
    rec('releaseX')
    rec('setInitialGuessNonzero')
    rec('getNumIterations', lambda e, w, s: T.app('its', (), 'I'))
    rec('getResidualNorm', lambda e, w, s: T.app('rnorm', (), 'R'))
    rec('solve', solve)
    return S, B, X


def prove_ops(cx):
    nG, nA, nC = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells')
    nS = T.var('.'.join(MESH + ('c_nSides',)), 'I')
    g, v, a, c, s_, fv, i = uvar('g'), uvar('v'), uvar('a'), uvar('c'), uvar('s'), uvar('fv'), uvar('i')
    rng = in_range((g, nG), (v, 4), (a, nA), (c, nC), (s_, nS), (fv, 3))
    NAMES = ('unpack', 'pack', 'local', 'comm', 'fixedPoint', 'krylov', 'solve', 'ctor', 'setData', 'getSource')
    phisize = T.mul(I(4), T.mul(nC, nG))
    scat = lambda cc: T.rdiv(contracts.sigmaS(cc), contracts.PI4)

    def D(f):
        def phi(gg, vv, cc):
            k = uvar('kk')
            return T.mksum(k, I(0), nA, T.mul(f(gg, vv, k, cc), contracts.weight(k)))
        return phi

    def seq(eng):
        return [e for e in eng.events if e.name in NAMES]

    def bnd(eng, loc, st):
        return contracts.reader(eng, loc, st)(g, fv, a, s_)

    def vol(eng, loc, st):
        return contracts.reader(eng, loc, st)(g, v, a, c)

    def start(*cont):
        eng = cx.engine('src/SweeperSchur.cc', 'src/Util.cc')
        st = State()
        S, B, X = ops(cx, eng, st)
        eng.facts += rng
        return eng, st, S, B, X

    def data(eng, st, S, **extra):
        d = ('A', 'data')
        st.mem[d + ('psiBoundSize',)] = S
        for n, t in (('psi', 'PsiData'), ('psiBound', 'PsiBoundData'), ('source', 'PsiData'), ('phi', 'PhiData'), ('commSides', 'CommSides'), ('sourceIts', 'std::vector<unsigned long>'), ('sweeperSchurOuter', 'SweeperSchurOuter')):
            l = obj(n, t)
            if t in ('PsiData', 'PsiBoundData', 'PhiData'):
                phase(eng, st, l)
            st.mem[d + (n,)] = Ptr(l.path, (), I(0), l.ct, True)
        return Ptr(d, (), I(0), ptype('SchurData'), True)
    O = lambda n, t: obj(n, t)

    def operator(fn, names):
        eng, st, S, B, X = start()
        d = data(eng, st, S)
        x = Ptr(('A', 'x'), (), I(0), ptype('double'), False)
        b = Ptr(('A', 'b'), (), I(0), ptype('double'), False)
        cx.run(eng, fn, [x, b, d], st=st)
        ev = seq(eng)
        return eng, st, S, x, b, ev

    def order(ev, names):
        got = [e.name for e in ev]
        if sorted(got) != sorted(names) or any(e.lv for e in ev):
            raise Unsupported('structure: %r' % got)
        cx.decide('order: ' + ', '.join(names), got == list(names), 'normal-form', got)
        cx.prove('all of this happens on every path', T.and_(*[e.pc for e in ev]))

    def at(eng, p, k, st):
        return eng.load(eng.elem(p, k, st), st)
    xv = lambda e: T.app('A.x', (e,), 'R')

    def is_ptr(p, q, off=0):
        return isinstance(p, Ptr) and p.path == q.path and p.off is (off if isinstance(off, T.E) else I(off))

    def tail(eng, st, S, x, b, un, cm, pk, total, extra=()):
        cx.decide('the argument is unpacked into the boundary data of the local solve', is_ptr(un.args[0], x) and un.args[1].path == ('A', 'psiBound'), 'normal-form', un.args)
        cx.decide('exchange: flux of the local solve into the boundary data', cm.args[1].path == ('A', 'psi') and cm.args[2].path == ('A', 'psiBound') and cm.args[0].path == ('A', 'commSides'), 'normal-form', cm.args)
        cx.decide('the boundary data are packed into the result', is_ptr(pk.args[0], b) and pk.args[1].path == ('A', 'psiBound'), 'normal-form', pk.args)
        same(cx, 'what is packed is what the exchange delivered', bnd(eng, pk.args[1], pk.st), cm.result(g, fv, a, s_), rng)
        hy = [T.lt(i, S)]
        same(cx, 'result is the argument minus the packed boundary data', at(eng, b, i, st), T.sub(xv(i), pk.result(i)), hy)
        cx.prove('nothing beyond the vector is written', T.eq(at(eng, b, i, st), T.app('A.b', (i,), 'R')), [T.ge(i, total)])
        cx.prove('the argument is unchanged', T.eq(at(eng, x, i, st), xv(i)))

    with cx.unit('Schur'):
        eng, st, S, x, b, ev = operator('Schur', None)
        order(ev, ['unpack', 'local', 'comm', 'pack'])
        un, lo, cm, pk = ev
        cx.decide('local solve of the given flux and source', [l.path for l in lo.args] == [('A', 'psi'), ('A', 'source'), ('A', 'psiBound')], 'normal-form', lo.args)
        same(cx, 'the local solve is driven by the argument', bnd(eng, lo.args[2], lo.st), un.result(g, fv, a, s_), rng)
        same(cx, 'the source of the local solve is the given one', vol(eng, lo.args[1], lo.st), T.app('A.source.#e', (g, v, a, c), 'R'), rng)
        same(cx, 'what is exchanged is the flux of the local solve', vol(eng, cm.args[1], cm.st), lo.result(g, v, a, c), rng)
        tail(eng, st, S, x, b, un, cm, pk, S)
        cx.discharge(eng, kinds=('pre', 'sub', 'null'))

    with cx.unit('SchurOuter'):
        eng, st, S, x, b, ev = operator('SchurOuter', None)
        inn = [e for e in ev if e.name in ('fixedPoint', 'krylov')]
        rest = [e for e in ev if e not in inn]
        order(rest, ['unpack', 'comm', 'pack'])
        un, cm, pk = rest
        if not inn or any(e.lv for e in inn):
            raise Unsupported('structure')
        cx.prove('exactly one inner solve', T.and_(T.or_(*[e.pc for e in inn]), *[T.not_(T.and_(p.pc, q.pc)) for k, p in enumerate(inn) for q in inn[:k]]))
        for e in inn:
            cx.decide('inner solve between unpacking and exchange', ev.index(un) < ev.index(e) < ev.index(cm), 'normal-form')
            cx.decide('inner solve with the Schur sweeper on the given flux and source', [l.path for l in e.args] == [('A', 'sweeperSchurOuter'), ('A', 'psi'), ('A', 'source')], 'normal-form', e.args)
            same(cx, 'the inner solve has no external source', vol(eng, e.args[2], e.st), R(0), rng)
            same(cx, 'the inner solve sees the argument as boundary data', bnd(eng, O('psiBound', 'PsiBoundData'), e.st), un.result(g, fv, a, s_), rng)
            same(cx, 'what is exchanged is the flux of the inner solve', vol(eng, cm.args[1], cm.st), e.result(g, v, a, c), rng + [e.pc])
        tail(eng, st, S, x, b, un, cm, pk, S)
        cx.discharge(eng, kinds=('pre', 'sub', 'null'))

    with cx.unit('SchurKrylov'):
        eng, st, S, x, b, ev = operator('SchurKrylov', None)
        order(ev, ['unpack', 'local', 'comm', 'pack'])
        un, lo, cm, pk = ev
        cx.decide('local solve of the given flux', lo.args[0].path == ('A', 'psi') and lo.args[2].path == ('A', 'psiBound'), 'normal-form', lo.args)
        same(cx, 'the local solve is driven by the argument', bnd(eng, lo.args[2], lo.st), un.result(g, fv, a, s_), rng)
        flat = T.add(g, T.mul(nG, T.add(v, T.mul(I(4), c))))
        same(cx, 'and by the scattering of the scalar flux part of the argument', vol(eng, lo.args[1], lo.st), T.mul(scat(c), xv(T.add(S, flat))), rng)
        same(cx, 'what is exchanged is the flux of the local solve', vol(eng, cm.args[1], cm.st), lo.result(g, v, a, c), rng)
        tail(eng, st, S, x, b, un, cm, pk, T.add(S, phisize))
        got = at(eng, b, T.add(S, i), st)
        ig, iv, ic = eng.unflatten(i, [nG, I(4), nC])
        same(cx, 'the scalar flux part is the argument minus the scalar flux of the local solve', got, T.sub(xv(T.add(S, i)), D(lo.result)(ig, iv, ic)), [T.lt(i, phisize)])
        cx.discharge(eng, kinds=('pre', 'sub', 'null'))


def prove_pbj(cx):
    nG, nA, nC = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells')
    nS = T.var('.'.join(MESH + ('c_nSides',)), 'I')
    g, v, a, c, s_, fv = uvar('g'), uvar('v'), uvar('a'), uvar('c'), uvar('s'), uvar('fv')
    rng = in_range((g, nG), (v, 4), (a, nA), (c, nC), (s_, nS), (fv, 3))
    scat = lambda cc: T.rdiv(contracts.sigmaS(cc), contracts.PI4)
    tol, lim = T.var('G.g_ddErrMax', 'R'), gvar('g_ddIterMax')
    cx.assume('the iteration limit of the block-Jacobi loops bounds the value of their counter, which starts at one: at most limit - 1 steps are made')

    def D(f):
        def phi(gg, vv, cc):
            k = uvar('kk')
            return T.mksum(k, I(0), nA, T.mul(f(gg, vv, k, cc), contracts.weight(k)))
        return phi

    def run(fn, inner, scalar, args=()):
        """inner: names of the events that make a step; scalar: the change is measured on the scalar flux"""
        eng = cx.engine('src/SweeperPBJ.cc', 'src/Util.cc', 'src/PsiData.cc')
        st = State()
        ops(cx, eng, st)
        eng.facts += rng
        cls = fn.split('::')[0]
        this = obj('sweeper', cls)
        for n, t in (('c_psi', 'PsiData'), ('c_source', 'PsiData'), ('c_psiBound', 'PsiBoundData'), ('c_psiBoundPrev', 'PsiBoundData'), ('c_zeroPsiBound', 'PsiBoundData')):
            phase(eng, st, Loc(this.path + (n,), (), ptype(t)))
        for l in args:
            if isinstance(l, Loc): phase(eng, st, l)
        psi = args[0] if args else Loc(this.path + ('c_psi',), (), ptype('PsiData'))
        gen4, gen3 = (g, v, a, c), (g, v, c)

        def inv(p, h):
            if p[-1] != '#e' or p == psi.path + ('#e',) or p[:-1] + ('c_ng',) not in h.st0.mem or p[:-1] + ('c_ns',) in h.st0.mem:
                return None
            if p[:-1] + ('c_na',) in h.st0.mem:
                return (lambda s: contracts.reader(eng, psi, s), gen4)
            return (lambda s: D(contracts.reader(eng, psi, s)), gen3)
        dr = Driver(eng, inner, inv, None, rng)
        st, r = cx.run(eng, fn, list(args), this=this, st=st)
        dr.close()
        if len(dr.found) != 1:
            raise Unsupported('no iteration loop recognised')
        h = dr.found[0]
        outside = [e for e in eng.events if e.name in inner and e not in h.evs]
        if outside:
            raise Unsupported('structure: steps outside the loop')
        return eng, st, this, psi, h

    def limits(eng, h, psi, new, old, isscalar, step):
        """loop condition, stop test and counter"""
        cond = h.cond_t
        hs = [x for x in T.atoms_of(cond, lambda y: y in h.hsym)]
        if len(hs) != 1 or hs[0].sort != 'I' or len(h.brk) < 1:
            raise Unsupported('loop control not recognised')
        it = hs[0]
        p = h.hsym[it]
        cx.prove('another step exactly while the counter is below the limit', T.and_(T.implies(cond, T.lt(it, lim)), T.implies(T.lt(it, lim), cond)))
        cx.prove('the counter starts at one', T.eq(h.st0.mem[p], I(1)))
        cx.prove('and grows by one per step', T.eq(h.after.mem[p], T.add(it, I(1))), [cond])
        brk = T.or_(*[b.pc for b in h.brk])
        size = T.mul(I(4), T.mul(nC, nG)) if isscalar else T.mul(I(4), T.mul(nC, T.mul(nG, nA)))
        k = uvar('kk2')
        ds = [nG, I(4), nC] if isscalar else [nG, I(4), nA, nC]
        ix = eng.unflatten(k, ds)

        def gs(f):
            return T.app('gsum', (T.mksum(k, I(0), size, f(*ix)),), 'R')
        nest = lambda f: T.app('gsum', (T.mksum(c, I(0), nC, T.mksum(v, I(0), I(4), T.mksum(g, I(0), nG, f(g, v, c)))) if isscalar else
                                        T.mksum(c, I(0), nC, T.mksum(a, I(0), nA, T.mksum(v, I(0), I(4), T.mksum(g, I(0), nG, f(g, v, a, c))))),), 'R')
        fd, fn = lambda *q: T.fabs(T.sub(old(*q), new(*q))), lambda *q: T.fabs(new(*q))
        sums = list(T.atoms_of(brk, lambda y: y.op == 'app' and y.info == 'gsum'))
        E, N = T.var('change', 'R'), T.var('norm', 'R')
        m = {}
        for x in sums:
            for w, y in ((fd, E), (fn, N)):
                if any(same(None, '', x, z(w), [cond], eng=eng) for z in (gs, nest)):
                    m[x] = y
        if len(sums) != 2:
            raise Unsupported('stop test not recognised')
        if sorted(str(y) for y in m.values()) != ['change', 'norm']:
            miss = [x for x in sums if x not in m]
            for x in miss:
                same(cx, 'the change tested is gsum |new - old| / gsum |new|', x, gs(fd if E not in m.values() else fn), [cond])
            return
        cx.decide('the change tested is gsum |new - old| / gsum |new|', True, 'normal-form')
        b2 = T.subst(brk, m)
        small = T.lt(T.rdiv(E, N), tol)
        cx.prove('the loop stops exactly when the change is below the tolerance', T.and_(T.implies(b2, small), T.implies(T.and_(small, step), b2)), [cond, T.gt(N, R(0))])

    def bnd(eng, loc, st):
        return contracts.reader(eng, loc, st)(g, fv, a, s_)

    def vol(eng, loc, st):
        return contracts.reader(eng, loc, st)(g, v, a, c)

    with cx.unit('SweeperPBJ::sweep'):
        psi, q = obj('psi', 'PsiData'), obj('source', 'PsiData')
        eng, st, this, psi, h = run('SweeperPBJ::sweep', ('local',), False, (psi, q, FALSE))
        lo = [e for e in h.evs if e.name == 'local']
        cm = [e for e in h.evs if e.name == 'comm']
        if len(lo) != 1 or len(cm) != 1:
            raise Unsupported('structure')
        lo, cm = lo[0], cm[0]
        bp = Loc(this.path + ('c_psiBoundPrev',), (), ptype('PsiBoundData'))
        cx.prove('each step solves locally', lo.pc, [h.cond_t])
        cx.decide('with the given flux and source and the boundary data kept by the sweeper', [l.path for l in lo.args] == [psi.path, q.path, bp.path], 'normal-form', lo.args)
        same(cx, 'the source is the given one', vol(eng, q, lo.st), T.app('A.source.#e', (g, v, a, c), 'R'), rng)
        same(cx, 'the boundary data are those of the previous exchange', bnd(eng, bp, lo.st), bnd(eng, bp, h.head), rng)
        cx.decide('exchange of the flux into the boundary data', cm.args[1].path == psi.path and cm.args[2].path == bp.path, 'normal-form', cm.args)
        same(cx, 'the flux exchanged is that of the step', vol(eng, psi, cm.st), lo.result(g, v, a, c), rng)
        same(cx, 'the next step uses this exchange', bnd(eng, bp, h.after), cm.result(g, fv, a, s_), rng)
        same(cx, 'the flux kept is that of the step', vol(eng, psi, h.after), lo.result(g, v, a, c), rng)
        for b in h.brk:
            same(cx, 'the flux returned is that of the last step', vol(eng, psi, b), lo.result(g, v, a, c), rng)
        limits(eng, h, psi, lo.result, contracts.reader(eng, psi, h.head), False, lo.pc)
        cx.discharge(eng, kinds=('pre', 'sub', 'null'))

    def sw(eng, e, n):
        return Loc(('A', 'sweeper', n), (), ptype({'c_psi': 'PsiData', 'c_source': 'PsiData'}.get(n, 'PsiBoundData')))

    def start_zero(h, eng, *names):
        for n in names:
            l = sw(eng, None, n)
            got = vol(eng, l, h.st0) if l.ct.name == 'PsiData' else bnd(eng, l, h.st0)
            same(cx, '%s is zero before the first step' % n, got, R(0), rng)

    with cx.unit('SweeperPBJOuter::solve'):
        eng, st, this, psi, h = run('SweeperPBJOuter::solve', ('fixedPoint', 'krylov'), False)
        inn = [e for e in h.evs if e.name in ('fixedPoint', 'krylov')]
        cm = [e for e in h.evs if e.name == 'comm']
        if len(cm) != 1 or any(e.name == 'local' for e in h.evs):
            raise Unsupported('structure')
        cm = cm[0]
        b = sw(eng, None, 'c_psiBound')
        start_zero(h, eng, 'c_psi', 'c_psiBound')
        same(cx, 'the external source is the problem source', vol(eng, sw(eng, None, 'c_source'), h.head), T.app('qsource', (g, v, a, c), 'R'), rng)
        cx.prove('exactly one inner solve per step', T.and_(T.or_(*[e.pc for e in inn]), *[T.not_(T.and_(p.pc, q.pc)) for k, p in enumerate(inn) for q in inn[:k]]), [h.cond_t])
        new = lambda *q: T.ite(inn[0].pc, inn[0].result(*q), inn[-1].result(*q))
        for e in inn:
            cx.decide('inner solve with this sweeper on its flux and source', [l.path for l in e.args] == [this.path, this.path + ('c_psi',), this.path + ('c_source',)], 'normal-form', e.args)
            same(cx, 'the inner solve uses the boundary data of the previous exchange', bnd(eng, b, e.st), bnd(eng, b, h.head), rng)
            same(cx, 'the inner solve has the problem source', vol(eng, sw(eng, None, 'c_source'), e.st), T.app('qsource', (g, v, a, c), 'R'), rng)
            same(cx, 'the flux exchanged is that of the step', vol(eng, psi, cm.st), e.result(g, v, a, c), rng + [e.pc])
            for q in h.brk:
                same(cx, 'the flux returned is that of the last step', vol(eng, psi, q), e.result(g, v, a, c), rng + [e.pc])
        cx.decide('exchange of the flux into the boundary data', cm.args[1].path == psi.path and cm.args[2].path == b.path, 'normal-form', cm.args)
        same(cx, 'the next step uses this exchange', bnd(eng, b, h.after), cm.result(g, fv, a, s_), rng)
        limits(eng, h, psi, lambda *q: contracts.reader(eng, psi, cm.st)(*q), contracts.reader(eng, psi, h.head), False, TRUE)
        cx.discharge(eng, kinds=('pre', 'sub', 'null'))

    with cx.unit('SweeperPBJSI::solve'):
        eng, st, this, psi, h = run('SweeperPBJSI::solve', ('local',), True)
        lo = [e for e in h.evs if e.name == 'local']
        cm = [e for e in h.evs if e.name == 'comm']
        if len(lo) != 1 or len(cm) != 1:
            raise Unsupported('structure')
        lo, cm = lo[0], cm[0]
        b = sw(eng, None, 'c_psiBound')
        start_zero(h, eng, 'c_psi', 'c_psiBound')
        phi_old = D(contracts.reader(eng, psi, h.head))
        cx.prove('each step solves locally', lo.pc, [h.cond_t])
        cx.decide('local solve of the flux with the boundary data kept by the sweeper', lo.args[0].path == psi.path and lo.args[2].path == b.path, 'normal-form', lo.args)
        same(cx, 'the source is the problem source plus scattering of the previous scalar flux', vol(eng, lo.args[1], lo.st),
             T.add(T.app('qsource', (g, v, a, c), 'R'), T.mul(scat(c), phi_old(g, v, c))), rng)
        same(cx, 'the boundary data are those of the previous exchange', bnd(eng, b, lo.st), bnd(eng, b, h.head), rng)
        cx.decide('exchange of the flux into the boundary data', cm.args[1].path == psi.path and cm.args[2].path == b.path, 'normal-form', cm.args)
        same(cx, 'the flux exchanged is that of the step', vol(eng, psi, cm.st), lo.result(g, v, a, c), rng)
        same(cx, 'the next step uses this exchange', bnd(eng, b, h.after), cm.result(g, fv, a, s_), rng)
        for q in [h.after] + h.brk:
            same(cx, 'the flux kept is that of the step', vol(eng, psi, q), lo.result(g, v, a, c), rng)
        limits(eng, h, psi, D(lo.result), phi_old, True, lo.pc)
        cx.discharge(eng, kinds=('pre', 'sub', 'null'))


def prove_drivers(cx):
    nG, nA, nC = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells')
    nS = T.var('.'.join(MESH + ('c_nSides',)), 'I')
    g, v, a, c, s_, fv, i = uvar('g'), uvar('v'), uvar('a'), uvar('c'), uvar('s'), uvar('fv'), uvar('i')
    rng = in_range((g, nG), (v, 4), (a, nA), (c, nC), (s_, nS), (fv, 3))
    phisize = T.mul(I(4), T.mul(nC, nG))
    scat = lambda cc: T.rdiv(contracts.sigmaS(cc), contracts.PI4)

    def D(f):
        def phi(gg, vv, cc):
            k = uvar('kk')
            return T.mksum(k, I(0), nA, T.mul(f(gg, vv, k, cc), contracts.weight(k)))
        return phi

    def run(fn, args=(), src='src/SweeperSchur.cc'):
        eng = cx.engine(src, 'src/Util.cc', 'src/PsiData.cc')
        st = State()
        S, B, X = ops(cx, eng, st)
        eng.facts += rng
        this = obj('sweeper', fn.split('::')[0])
        for n, t in (('c_psi', 'PsiData'), ('c_source', 'PsiData'), ('c_psiBound', 'PsiBoundData'), ('c_psiBoundPrev', 'PsiBoundData'), ('c_zeroPsiBound', 'PsiBoundData')):
            phase(eng, st, Loc(this.path + (n,), (), ptype(t)))
        st.mem[this.path + ('c_krylovSolver',)] = Ptr(('A', 'ks'), (), I(0), ptype('KrylovSolver'), True)
        for l in args:
            if isinstance(l, Loc): phase(eng, st, l)
        cx.run(eng, fn, list(args), this=this, st=st)
        return eng, st, this, S, B, X

    def bnd(eng, loc, st):
        return contracts.reader(eng, loc, st)(g, fv, a, s_)

    def vol(eng, loc, st):
        return contracts.reader(eng, loc, st)(g, v, a, c)

    def is_ptr(p, q):
        return isinstance(p, Ptr) and p.path == q.path and p.off is I(0)

    def names(eng, ignore=('getB', 'getX', 'releaseB', 'releaseX', 'setInitialGuessNonzero', 'getNumIterations', 'getResidualNorm', 'getSource')):
        return [e for e in eng.events if e.name not in ignore]

    def order(ev, want):
        got = [e.name for e in ev]
        if sorted(got) != sorted(want) or any(e.lv for e in ev):
            raise Unsupported('structure: %r' % got)
        cx.decide('order: ' + ', '.join(want), got == list(want), 'normal-form', got)
        cx.prove('all of this happens on every path', T.and_(*[e.pc for e in ev]))
    q0 = lambda *ix: T.app('qsource', ix, 'R')

    # which boundary data a sweep of each method uses
    for fn, flag, which, src in (('SweeperPBJOuter::sweep', FALSE, 'c_psiBound', 'PBJ'), ('SweeperPBJOuter::sweep', TRUE, 'c_zeroPsiBound', 'PBJ'), ('SweeperPBJSI::sweep', FALSE, 'c_psiBound', 'PBJ'),
                                 ('SweeperSchurOuter::sweep', FALSE, 'c_psiBound', 'Schur'), ('SweeperSchurOuter::sweep', TRUE, 'c_zeroPsiBound', 'Schur'), ('SweeperSchurKrylov::sweep', FALSE, 'c_psiBound', 'Schur')):
        with cx.unit(fn):
            psi, q = obj('psi', 'PsiData'), obj('source', 'PsiData')
            eng, st, this, S, B, X = run(fn, (psi, q, flag), 'src/Sweeper%s.cc' % src)
            ev = names(eng)
            order(ev, ['local'])
            cx.decide('a local solve of the given flux and source with %s' % which, [l.path for l in ev[0].args] == [psi.path, q.path, this.path + (which,)], 'normal-form', ev[0].args)
            cx.discharge(eng, kinds=('pre', 'sub', 'null'))

    def solver(ev, eng, this, S, op, size, psi, psib, **kw):
        ct = [e for e in ev if e.name == 'ctor']
        if ct:
            w = ct[0].args
            cx.prove('size of the solver vectors', T.eq(w[0], size))
            cx.prove('tolerance', T.eq(w[1], T.var('G.g_ddErrMax', 'R')))
            cx.prove('iteration limit', T.eq(w[2], gvar('g_ddIterMax')))
            cx.decide('operator', op in str(getattr(w[3], 'name', w[3])), 'normal-form', w[3])
        d = eng.data
        cx.prove('the operator knows the number of boundary entries', T.eq(d['psiBoundSize'], S))
        cx.decide('the operator works on the flux and boundary data of the method', d['psi'].path == psi.path and d['psiBound'].path == psib.path and d['commSides'].path == this.path + ('c_commSides',), 'normal-form', d)

    with cx.unit('SweeperSchur::sweep'):
        psi, q = obj('psi', 'PsiData'), obj('source', 'PsiData')
        eng, st, this, S, B, X = run('SweeperSchur::sweep', (psi, q, FALSE))
        allev = names(eng)
        ev = [e for e in allev if e.name not in ('unpack',)]
        un = [e for e in allev if e.name == 'unpack']
        packs = [e for e in ev if e.name == 'pack']
        guess = [e for e in packs if is_ptr(e.args[0], X)]
        rhs = [e for e in packs if is_ptr(e.args[0], B)]
        main = [e for e in ev if e not in guess]
        if len(guess) > 1 or len(rhs) != 1:
            raise Unsupported('structure')
        order(main, ['setData', 'local', 'comm', 'pack', 'solve', 'local'])
        sd, l1, cm, pk, so, l2 = main
        pb = Loc(eng.data['psiBound'].path, (), ptype('PsiBoundData'))
        solver(ev, eng, this, S, 'Schur', S, psi, pb)
        keep = this.path + ('c_psiBoundPrev',)
        src = Loc(eng.data['source'].path, (), ptype('PsiData'))
        same(cx, 'the operator has no external source', vol(eng, src, so.st), R(0), rng)
        cx.decide('whose storage is not the given source', src.path != q.path, 'normal-form')
        if guess:
            cx.decide('the initial guess is the boundary data of the previous sweep', guess[0].args[1].path == keep and allev.index(guess[0]) < allev.index(so), 'normal-form', guess[0].args)
        for l in (l1, l2):
            cx.decide('local solves of the given flux and source', [x.path for x in l.args] == [psi.path, q.path, pb.path], 'normal-form', l.args)
            same(cx, 'the source of the local solve is the given one', vol(eng, l.args[1], l.st), T.app('A.source.#e', (g, v, a, c), 'R'), rng)
        same(cx, 'right-hand side: local solve without boundary data', bnd(eng, l1.args[2], l1.st), R(0), rng)
        same(cx, 'right-hand side: its flux is exchanged', vol(eng, cm.args[1], cm.st), l1.result(g, v, a, c), rng)
        same(cx, 'right-hand side: what the exchange delivered is packed', bnd(eng, pk.args[1], pk.st), cm.result(g, fv, a, s_), rng)
        mine = [e for e in un if e.args[1].path == pb.path]
        if not mine or any(not is_ptr(e.args[0], X) for e in un):
            raise Unsupported('structure')
        cx.decide('the solution is unpacked after the solve and before the final local solve', allev.index(so) < allev.index(mine[-1]) < allev.index(l2), 'normal-form')
        same(cx, 'final local solve with the solution as boundary data', bnd(eng, l2.args[2], l2.st), mine[-1].result(g, fv, a, s_), rng)
        same(cx, 'unpacked from the solution vector', eng.read(mine[-1].st.mem[X.path], (i,), mine[-1].st), so.result(i), [T.lt(i, S)])
        same(cx, 'the flux returned is that of the final local solve', vol(eng, psi, st), l2.result(g, v, a, c), rng)
        cx.discharge(eng, kinds=('pre', 'sub', 'null'))

    with cx.unit('SweeperSchurOuter::solve'):
        eng, st, this, S, B, X = run('SweeperSchurOuter::solve')
        ev = names(eng)
        psi, psib, src = [Loc(this.path + (n,), (), ptype(t)) for n, t in (('c_psi', 'PsiData'), ('c_psiBound', 'PsiBoundData'), ('c_source', 'PsiData'))]
        inn = [e for e in ev if e.name in ('fixedPoint', 'krylov')]
        rest = [e for e in ev if e not in inn]
        order(rest, ['ctor', 'setData', 'comm', 'pack', 'solve', 'unpack'])
        ct, sd, cm, pk, so, un = rest
        solver(ev, eng, this, S, 'SchurOuter', S, psi, psib)
        cx.decide('the inner solves of the operator use this sweeper and its source', eng.data['sweeperSchurOuter'].path == this.path and eng.data['source'].path == src.path, 'normal-form', eng.data)
        first = [e for e in inn if ev.index(e) < ev.index(cm)]
        last = [e for e in inn if ev.index(e) > ev.index(un)]
        if len(first) + len(last) != len(inn) or not first or not last:
            raise Unsupported('structure')
        for grp, nm in ((first, 'right-hand side'), (last, 'final solve')):
            cx.prove('%s: exactly one inner solve' % nm, T.and_(T.or_(*[e.pc for e in grp]), *[T.not_(T.and_(p.pc, q.pc)) for k, p in enumerate(grp) for q in grp[:k]]))
            for e in grp:
                cx.decide('%s: inner solve of the flux with this sweeper' % nm, [l.path for l in e.args] == [this.path, psi.path, src.path], 'normal-form', e.args)
                same(cx, '%s: with the problem source' % nm, vol(eng, src, e.st), q0(g, v, a, c), rng)
        for e in first:
            same(cx, 'right-hand side: without boundary data', bnd(eng, psib, e.st), R(0), rng)
            same(cx, 'right-hand side: its flux is exchanged', vol(eng, cm.args[1], cm.st), e.result(g, v, a, c), rng + [e.pc])
        cx.decide('right-hand side: exchanged into the boundary data, packed into the right-hand side', cm.args[2].path == psib.path and is_ptr(pk.args[0], B) and pk.args[1].path == psib.path, 'normal-form', pk.args)
        same(cx, 'right-hand side: what the exchange delivered is packed', bnd(eng, pk.args[1], pk.st), cm.result(g, fv, a, s_), rng)
        cx.decide('the solution is unpacked into the boundary data', is_ptr(un.args[0], X) and un.args[1].path == psib.path, 'normal-form', un.args)
        for e in last:
            same(cx, 'final solve: with the solution as boundary data', bnd(eng, psib, e.st), un.result(g, fv, a, s_), rng)
            same(cx, 'the flux is that of the final solve', vol(eng, psi, st), e.result(g, v, a, c), rng + [e.pc])
        cx.discharge(eng, kinds=('pre', 'sub', 'null'))

    with cx.unit('SweeperSchurKrylov::solve'):
        eng, st, this, S, B, X = run('SweeperSchurKrylov::solve')
        ev = names(eng)
        psi, psib, src = [Loc(this.path + (n,), (), ptype(t)) for n, t in (('c_psi', 'PsiData'), ('c_psiBound', 'PsiBoundData'), ('c_source', 'PsiData'))]
        order(ev, ['ctor', 'setData', 'local', 'comm', 'pack', 'solve', 'unpack', 'local'])
        ct, sd, l1, cm, pk, so, un, l2 = ev
        solver(ev, eng, this, S, 'SchurKrylov', T.add(S, phisize), psi, psib)
        cx.decide('the operator has storage of its own for the scalar flux and uses the source of the method', eng.data['source'].path == src.path and 'phi' in eng.data, 'normal-form', eng.data)
        flat = T.add(g, T.mul(nG, T.add(v, T.mul(I(4), c))))
        for l in (l1, l2):
            cx.decide('local solves of the flux with the source and boundary data of the method', [x.path for x in l.args] == [psi.path, src.path, psib.path], 'normal-form', l.args)
        same(cx, 'right-hand side: the problem source', vol(eng, src, l1.st), q0(g, v, a, c), rng)
        same(cx, 'right-hand side: local solve without boundary data', bnd(eng, psib, l1.st), R(0), rng)
        same(cx, 'right-hand side: its flux is exchanged', vol(eng, cm.args[1], cm.st), l1.result(g, v, a, c), rng)
        cx.decide('right-hand side: exchanged into the boundary data, packed into the right-hand side', cm.args[2].path == psib.path and is_ptr(pk.args[0], B) and pk.args[1].path == psib.path, 'normal-form', pk.args)
        same(cx, 'right-hand side: what the exchange delivered is packed', bnd(eng, pk.args[1], pk.st), cm.result(g, fv, a, s_), rng)
        bv = lambda e: eng.read(so.st.mem[B.path], (e,), so.st)
        same(cx, 'right-hand side: boundary part', bv(i), pk.result(i), [T.lt(i, S)])
        same(cx, 'right-hand side: scalar flux part', bv(T.add(S, flat)), D(l1.result)(g, v, c), rng)
        cx.decide('the solution is unpacked into the boundary data', is_ptr(un.args[0], X) and un.args[1].path == psib.path, 'normal-form', un.args)
        same(cx, 'final local solve with the solution as boundary data', bnd(eng, psib, l2.st), un.result(g, fv, a, s_), rng)
        same(cx, 'and the problem source plus scattering of the solution', vol(eng, src, l2.st), T.add(q0(g, v, a, c), T.mul(scat(c), so.result(T.add(S, flat)))), rng)
        same(cx, 'the flux is that of the final local solve', vol(eng, psi, st), l2.result(g, v, a, c), rng)
        cx.discharge(eng, kinds=('pre', 'sub', 'null'))

    for fn, src in (('SweeperSchur::solve', 'Schur'), ('SweeperPBJ::solve', 'PBJ')):
        with cx.unit(fn):
            eng, st, this, S, B, X = run(fn, (), 'src/Sweeper%s.cc' % src)
            ev = names(eng)
            psi, q = [Loc(this.path + (n,), (), ptype('PsiData')) for n in ('c_psi', 'c_source')]
            inn = [e for e in ev if e.name in ('fixedPoint', 'krylov')]
            if [e for e in ev if e not in inn and e.name != 'ctor'] or not inn:
                raise Unsupported('structure')
            cx.prove('exactly one outer iteration', T.and_(T.or_(*[e.pc for e in inn]), *[T.not_(T.and_(p.pc, r.pc)) for k, p in enumerate(inn) for r in inn[:k]]))
            for e in inn:
                cx.decide('with this sweeper on its flux and source', [l.path for l in e.args] == [this.path, psi.path, q.path], 'normal-form', e.args)
                same(cx, 'the source is the problem source', vol(eng, q, e.st), q0(g, v, a, c), rng)
                same(cx, 'the first iterate is zero', vol(eng, psi, e.st), R(0), rng)
            if src == 'Schur':
                w = [e for e in ev if e.name == 'ctor'][0].args
                cx.prove('size, tolerance and limit of the boundary solver', T.and_(T.eq(w[0], S), T.eq(w[1], T.var('G.g_ddErrMax', 'R')), T.eq(w[2], gvar('g_ddIterMax'))))
                cx.decide('operator', 'Schur' in str(getattr(w[3], 'name', w[3])) and 'Outer' not in str(w[3]) and 'Krylov' not in str(getattr(w[3], 'name', w[3])), 'normal-form', w[3])
            cx.discharge(eng, kinds=('pre', 'sub', 'null'))
    cx.theorems('Steps', {'lexicographic': 'positions in nested loops are ordered like the iterations: packed entries do not overlap'})
