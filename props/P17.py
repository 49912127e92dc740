from vc.ctx import *
from vc import mpi, contracts
from vc.exec import Base, Out, Fn, FnVal
from vc.inv import Head
from vc.congr import same
from fractions import Fraction


def krylov_solver(cx):
    """KrylovSolver: the operator, vectors, sizes and tolerances given are those PETSc works with (PETSc calls through contracts)"""
    eng = cx.engine('src/KrylovSolver.cc')
    eng.events = evs = []
    st = State()
    H = lambda n: Ptr((n,), (), I(0), ptype('char'))
    this, n, rtol, lim = obj('ks', 'KrylovSolver'), uvar('n'), T.var('rtol', 'R'), uvar('iters')
    arrays = {('vec1',): H('array1'), ('vec2',): H('array2')}

    def call(nm, effect=None):
        def f(e, t, w, s):
            evs.append(mpi.Ev(nm, list(w), s, ()))
            if effect is not None:
                effect(e, w, s)
            return I(0)
        eng.contracts[nm] = f

    def put(k, v):
        return lambda e, w, s: e.store(e.deref(w[k], s), v(w) if callable(v) else v, s)

    def array(e, w, s):
        if not isinstance(w[0], Ptr) or w[0].path not in arrays:
            raise Unsupported('vector')
        e.store(e.deref(w[1], s), arrays[w[0].path], s)
    context = []
    for nm, k, h in (('VecCreate', 1, 'vec1'), ('MatCreateShell', 6, 'mat'), ('KSPCreate', 1, 'ksp')):
        call(nm, put(k, H(h)))
    call('VecDuplicate', put(1, H('vec2')))
    call('VecGetArray', array)
    call('VecGetArrayRead', array)
    call('MatShellSetContext', lambda e, w, s: context.append(w[1]))
    call('MatShellGetContext', lambda e, w, s: e.store(e.deref(w[1], s), context[-1], s))
    T.NONNEG.add('its')
    call('KSPGetIterationNumber', put(1, T.var('its', 'I')))
    call('KSPGetResidualNorm', put(1, T.var('rnorm', 'R')))
    for nm in ('VecSetSizes', 'VecSetType', 'MatShellSetOperation', 'KSPSetOperators', 'KSPSetTolerances', 'KSPSetType', 'KSPSetInitialGuessNonzero', 'VecRestoreArray', 'VecRestoreArrayRead', 'KSPSolve',
               'MatSetUp', 'KSPSetUp', 'VecSet', 'VecSetUp'):
        call(nm)
    eng.contracts['op'] = lambda e, t, w, s: evs.append(mpi.Ev('op', list(w), s, ()))
    eng.contracts['Comm::gsum'] = lambda e, t, w, s: e.store(w[0], T.app('gsum', (e.load(w[0], s),), 'I'), s)
    op = FnVal('op', {'id': 'none', 'name': 'op', 'kind': 'FunctionDecl'})
    is_ = lambda x, h: isinstance(x, Ptr) and x.path == (h,) and x.off is I(0)

    def only(nm, since=0):
        k = [e for e in evs[since:] if e.name == nm]
        if not k:
            # helpers are inlined and any other PETSc function is unsupported: it is called nowhere
            cx.decide('the PETSc call %s is made' % nm, False, 'normal-form')
        if len(k) != 1:
            raise Unsupported('%s: %d calls' % (nm, len(k)))
        return k[0]
    cx.run(eng, 'KrylovSolver::KrylovSolver', [n, rtol, lim, op], this=this, st=st)
    cx.prove('set up on every path', T.and_(*[e.pc for e in evs]), [], eng)
    N = T.app('gsum', (n,), 'I')
    z = only('VecSetSizes').args
    cx.prove('local and global size', T.and_(T.eq(z[1], n), T.eq(z[2], N)), [], eng)
    z = only('MatCreateShell').args
    cx.prove('the operator is square of that size', T.and_(T.eq(z[1], n), T.eq(z[2], n), T.eq(z[3], N), T.eq(z[4], N)), [], eng)
    for nm in ('VecCreate', 'MatCreateShell', 'KSPCreate'):
        cx.decide(nm + ': all ranks', mpi.gname(only(nm).args[0]) == 'ompi_mpi_comm_world', 'normal-form')
    z = only('MatShellSetOperation').args
    cx.decide('the operation is a multiplication', is_(z[0], 'mat') and z[1] is T.var('enum.MATOP_MULT', 'I') and isinstance(z[2], FnVal), 'normal-form', z)
    fn = z[2].name
    z = only('KSPSetOperators').args
    cx.decide('the solve is with that operator', is_(z[0], 'ksp') and is_(z[1], 'mat'), 'normal-form', z)
    z = only('KSPSetTolerances').args
    cx.prove('relative tolerance and iteration limit', T.and_(T.eq(z[1], rtol), T.eq(z[4], lim)), [], eng)
    cx.prove('no other way to be satisfied', T.le(z[2], T.R(Fraction(1, 10**40))), [], eng)
    d = Ptr(('A', 'user'), (), I(0), ptype('char'))
    cx.run(eng, 'KrylovSolver::setData', [d], this=this, st=st)
    if len(context) != 1:
        raise Unsupported('context of the operator')
    k0 = len(evs)
    cx.run(eng, fn, [H('mat'), H('vec1'), H('vec2'), ][:3], st=st)
    o = only('op', k0)
    cx.prove('the operator is applied', o.pc, [], eng)
    cx.decide('to the vector given, into the vector given', is_(o.args[0], 'array1') and is_(o.args[1], 'array2'), 'normal-form', o.args)
    gave = [e.args[0].path for e in evs[k0:] if e.name in ('VecRestoreArray', 'VecRestoreArrayRead') and isinstance(e.args[0], Ptr)]
    for e in evs[k0:]:
        if e.name == 'VecGetArray' and isinstance(e.args[0], Ptr) and e.args[0].path == ('vec2',):
            cx.decide('the result is given back to its vector', e.args[0].path in gave, 'normal-form', gave)
    cx.decide('with the data set', isinstance(o.args[2], Ptr) and o.args[2].path == d.path, 'normal-form', o.args[2])
    for m, h, res in (('getB', 'array2', None), ('getX', 'array1', None), ('getNumIterations', None, T.var('its', 'I')), ('getResidualNorm', None, T.var('rnorm', 'R'))):
        _, r = cx.run(eng, 'KrylovSolver::' + m, [], this=this, st=st)
        if h:
            cx.decide(m + ': the vector of the solve', is_(r, h), 'normal-form', r)
        else:
            cx.prove(m, T.eq(r, res), [], eng)
    for m, h in (('releaseB', 'vec2'), ('releaseX', 'vec1')):
        k0 = len(evs)
        cx.run(eng, 'KrylovSolver::' + m, [], this=this, st=st)
        z = only('VecRestoreArray', k0)
        cx.decide(m + ': its own vector gets its array back', is_(z.args[0], h), 'normal-form', z.args)
        cx.prove(m + ': always', z.pc, [], eng)
    k0 = len(evs)
    cx.run(eng, 'KrylovSolver::solve', [], this=this, st=st)
    z = only('KSPSolve', k0).args
    cx.decide('solve: right-hand side and solution', is_(z[0], 'ksp') and is_(z[1], 'vec2') and is_(z[2], 'vec1'), 'normal-form', z)
    k0 = len(evs)
    cx.run(eng, 'KrylovSolver::setInitialGuessNonzero', [], this=this, st=st)
    z = only('KSPSetInitialGuessNonzero', k0).args
    cx.decide('initial guess used', is_(z[0], 'ksp') and z[1] in (T.TRUE, I(1)) or 'PETSC_TRUE' in str(z[1]), 'normal-form', z)
    for e in evs:
        if e.name in ('VecRestoreArray', 'VecRestoreArrayRead'):
            cx.decide('arrays are given back to their vectors', isinstance(e.args[0], Ptr) and e.args[0].path in arrays, 'normal-form', e.args)
    cx.discharge(eng)


def prove(cx):
    with cx.unit('KrylovSolver'):
        krylov_solver(cx)
    nG, nA, nC = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells')
    g, v, a, c, i = uvar('g'), uvar('v'), uvar('a'), uvar('c'), uvar('i')
    rng = in_range((g, nG), (v, 4), (a, nA), (c, nC))
    size = T.mul(I(4), T.mul(nC, nG))
    cx.assume('Util::psiToPhi, phiToPsi, calcTotalSource, operatorS satisfy the contracts discharged by P05')
    cx.assume('sweep(psi, source, zero) sets psi to a function of source and, unless zero, of the incoming boundary data (P07, P08)')
    cx.assume('PETSc: KSPSolve finds x with A x = b to the tolerance, where A x is what the shell operation leaves in its second vector; handles and arrays are those of the objects made')
    cx.assume('Comm::gsum is the sum over all ranks (P22)')

    def fresh():
        eng = cx.engine('src/SourceIteration.cc', 'src/Util.cc', 'src/Quadrature.cc')
        st = State()
        mesh(eng, st)
        eng.events = []
        contracts.util(eng)

        def sweep(e, this, w, s):
            e.events.append(mpi.Ev('sweep', [this] + list(w), s, tuple(e.loop_vars)))
            contracts.same_dims(e, s, w[0], w[1])
            nm = T.fresh_name('swept')
            contracts.assign(e, w[0], lambda *ix: T.app(nm, ix, 'R'), s)
            e.events[-1].result = lambda *ix: T.app(nm, ix, 'R')
        eng.contracts['SweeperAbstract::sweep'] = sweep
        T.NONNEG.add('its')
        for n in ('gsum', 'gmax'):
            eng.contracts['Comm::' + n] = lambda e, t, w, s, n=n: e.store(w[0], T.app(n, (e.load(w[0], s),), e.load(w[0], s).sort), s)
        for n in ('start', 'stop', 'reset'):
            eng.contracts['Timer::' + n] = lambda e, t, w, s: None
        for n in ('wall_clock', 'sum_wall_clock'):
            eng.contracts['Timer::' + n] = lambda e, t, w, s: T.app(T.fresh_name('clock'), tuple(e.loop_vars), 'R')
        eng.contracts['ctor:Timer'] = lambda e, t, w, s: None
        eng.contracts['Comm::rank'] = lambda e, t, w, s: uvar('rank')
        psi, q = obj('psi', 'PsiData'), obj('source', 'PsiData')
        phase(eng, st, psi)
        phase(eng, st, q)
        eng.facts += rng
        return eng, st, psi, q, obj('sweeper', 'SweeperAbstract')

    def is_zero_flag(x):
        return isinstance(x, T.E) and x is TRUE or (isinstance(x, T.E) and x.op == 'num' and x.info == 1)

    def isfalse(x):
        return x is FALSE or (isinstance(x, T.E) and x.op == 'num' and x.info == 0)

    def D(f):
        """scalar flux of an angular flux"""
        def phi(gg, vv, cc):
            k = uvar('kk')
            return T.mksum(k, I(0), nA, T.mul(f(gg, vv, k, cc), contracts.weight(k)))
        return phi
    scat = lambda cc: T.rdiv(contracts.sigmaS(cc), contracts.PI4)

    # ------------------------------------------------------------------ Krylov operator
    with cx.unit('lhsOperator'):
        eng, st, psi, tmp, sw = fresh()
        data = obj('data', 'LHSData')
        cx.run(eng, 'LHSData::LHSData', [psi, tmp, sw], this=data, st=st)
        x = Ptr(('A', 'x'), (), I(0), ptype('double'), False)
        b = Ptr(('A', 'b'), (), I(0), ptype('double'), False)
        eng.facts.append(T.lt(i, size))
        xv = lambda e: T.app('A.x', (e,), 'R')
        cx.run(eng, 'lhsOperator', [x, b, Ptr(('A', 'data'), (), I(0), ptype('LHSData'), True)], st=st)
        sw_ = [e for e in eng.events if e.name == 'sweep']
        if len(sw_) != 1 or sw_[0].lv:
            raise Unsupported('structure: %d sweeps' % len(sw_))
        e = sw_[0]
        cx.prove('the sweep is done on every path', e.pc)
        cx.decide('sweep with the given sweeper', e.args[0].path == sw.path, 'normal-form', e.args[0])
        cx.decide('with zero incoming data', is_zero_flag(e.args[3]), 'normal-form', e.args[3])
        src = contracts.reader(eng, e.args[2], e.st)
        flat = T.add(g, T.mul(nG, T.add(v, T.mul(I(4), c))))
        same(cx, 'the sweep is driven by sigmaS/4pi times the argument', src(g, v, a, c), T.mul(scat(c), xv(flat)), rng)
        ig, iv, ic = eng.unflatten(i, [nG, I(4), nC])
        got = eng.load(eng.elem(b, i, st), st)
        same(cx, 'result is the argument minus the scalar flux of the sweep', got, T.sub(xv(i), D(e.result)(ig, iv, ic)), [T.lt(i, size)])
        j = uvar('j')
        cx.prove('nothing beyond the vector is written', T.eq(eng.load(eng.elem(b, j, st), st), T.app('A.b', (j,), 'R')), [T.ge(j, size)])
        cx.prove('the argument is unchanged', T.eq(eng.load(eng.elem(x, i, st), st), xv(i)))
        cx.discharge(eng, kinds=('pre', 'sub', 'null'))

    # ------------------------------------------------------------------ fixed point
    with cx.unit('SourceIteration::fixedPoint'):
        eng, st, psi, q, sw = fresh()
        q0 = contracts.reader(eng, q, st)
        found = []
        depth = [0]

        def hook(e, s, cond, body, inc, node):
            if depth[0] or found:
                return None
            depth[0] = 1
            nev = len(e.events)
            nob = len(e.obls)
            try:
                try:
                    h = Head(e, s, cond, body, inc, node).iterate()
                except Unsupported:
                    if any(x.name == 'sweep' for x in e.events[nev:]):
                        raise
                    del e.events[nev:]
                    return None
                if not any(x.name == 'sweep' for x in h.evs):
                    del e.events[nev:]
                    return None
                # candidate invariants: X == scalar flux of psi, for every scalar flux container the loop modifies
                cand = [p for p, k in h.mod.items() if p[-1] == '#e' and p[0][0] == 'L' and (h.st0.mem.get(p[:-1] + ('c_ng',)) is not None)
                        and p[:-1] + ('c_na',) not in h.st0.mem]
                while True:
                    def strengthen(hd, s2):
                        rp = contracts.reader(e, psi, s2)
                        for p in cand:
                            f = D(rp)
                            s2.mem[p] = Fn(lambda idx, f=f: f(*idx))
                    del e.events[nev:]
                    del e.obls[nob:]
                    h = Head(e, s, cond, body, inc, node).iterate(strengthen)
                    bad = []
                    for p in cand:
                        for stt in (s, h.after):
                            now = e.read(stt.mem[p], (g, v, c), stt) if stt.mem.get(p) is not None else None
                            want = D(contracts.reader(e, psi, stt))(g, v, c)
                            if now is None or not same(None, '', now, want, rng, eng=e):
                                bad.append(p)
                                break
                    if not bad:
                        break
                    cand = [p for p in cand if p not in bad]
                h.cand = cand
                found.append(h)
                return Out(norm=h.exit())
            finally:
                depth[0] = 0
        eng.loop_hook = hook
        st, r = cx.run(eng, 'SourceIteration::fixedPoint', [sw, psi, q], st=st)
        eng.loop_hook = None
        if len(found) != 1:
            raise Unsupported('no iteration loop recognised')
        h = found[0]
        sweeps = [e for e in h.evs if e.name == 'sweep']
        others = [e for e in eng.events if e.name == 'sweep' and e not in sweeps]
        if len(sweeps) != 1 or others:
            raise Unsupported('structure: sweeps inside %d and outside %d the loop' % (len(sweeps), len(others)))
        e = sweeps[0]
        hd = h.head
        psi_old = contracts.reader(eng, psi, hd)
        phi_old, phi_new = D(psi_old), D(e.result)
        # every step sweeps
        cx.prove('each step sweeps', e.pc, [h.cond_t] + rng)
        cx.decide('with the given sweeper into the given flux', e.args[0].path == sw.path and e.args[1].path == psi.path, 'normal-form', e.args[:2])
        cx.decide('with the current boundary data', isfalse(e.args[3]), 'normal-form', e.args[3])
        src = contracts.reader(eng, e.args[2], e.st)
        same(cx, 'the source of the sweep is the external source plus scattering of the latest scalar flux',
             src(g, v, a, c), T.add(q0(g, v, a, c), T.mul(scat(c), phi_old(g, v, c))), rng)
        same(cx, 'the flux after the step is the result of the sweep', contracts.reader(eng, psi, h.after)(g, v, a, c), e.result(g, v, a, c), rng)
        same(cx, 'the external source is unchanged', contracts.reader(eng, q, h.after)(g, v, a, c), contracts.reader(eng, q, hd)(g, v, a, c), rng)
        cx.decide('the flux returned is that of the last step', psi.path + ('#e',) in h.mod and st.mem.get(psi.path + ('#e',)) is hd.mem.get(psi.path + ('#e',)), 'normal-form')
        # stop test
        hs = [x for x in T.atoms_of(h.cond_t, lambda y: y in h.hsym)]
        real = [x for x in hs if x.sort == 'R']
        if len(real) != 1 or not isinstance(r, T.E):
            raise Unsupported('stop test not recognised')
        err = real[0]
        at = lambda t, s: T.subst(t, {hh: (s.mem[p] if isinstance(s.mem.get(p), T.E) else hh) for hh, p in h.hsym.items()})
        # the engine's return value is a function of the loop's variables
        tol, lim = T.var('G.g_errMax', 'R'), gvar('g_iterMax')
        cx.prove('the number of steps returned starts at zero', T.eq(at(r, h.st0), I(0)))
        cx.prove('and grows by one per step', T.eq(at(r, h.after), T.add(r, I(1))), [h.cond_t])
        cx.prove('another step exactly while the limit is not reached and the change exceeds the tolerance',
                 T.and_(T.implies(h.cond_t, T.and_(T.lt(r, lim), T.gt(err, tol))), T.implies(T.and_(T.lt(r, lim), T.gt(err, tol)), h.cond_t)))
        cx.prove('the first step is taken for any tolerance below one', T.ge(at(err, h.st0), R(1)))
        k = uvar('kk2')
        kg, kv, kc = eng.unflatten(k, [nG, I(4), nC])

        def gs(f):
            lin = T.app('gsum', (T.mksum(k, I(0), size, f(kg, kv, kc)),), 'R')
            nest = T.app('gsum', (T.mksum(c, I(0), nC, T.mksum(v, I(0), I(4), T.mksum(g, I(0), nG, f(g, v, c)))),), 'R')
            return lin, nest
        d1, d2 = gs(lambda *ix: T.fabs(T.sub(phi_new(*ix), phi_old(*ix))))
        n1, n2 = gs(lambda *ix: T.fabs(phi_new(*ix)))
        got = at(err, h.after)
        nested = same(None, '', got, T.rdiv(d2, n2), [h.cond_t], eng=eng)
        if nested:
            cx.decide('the change is gsum |phi - phi_previous| / gsum |phi|', True, 'normal-form')
        else:
            same(cx, 'the change is gsum |phi - phi_previous| / gsum |phi|', got, T.rdiv(d1, n1), [h.cond_t])
        cx.discharge(eng, kinds=('pre', 'sub', 'null'))

    # ------------------------------------------------------------------ Krylov driver
    with cx.unit('SourceIteration::krylov'):
        eng, st, psi, q, sw = fresh()
        q0 = contracts.reader(eng, q, st)
        ev = eng.events

        def rec(n, ret=lambda e, w, s: None):
            def f(e, this, w, s):
                e.events.append(mpi.Ev(n, list(w), s, tuple(e.loop_vars)))
                return ret(e, w, s)
            eng.contracts['KrylovSolver::' + n if n != 'ctor' else 'ctor:KrylovSolver'] = f
        B = Ptr(('A', 'bvec'), (), I(0), ptype('double'), False)
        X = Ptr(('A', 'xvec'), (), I(0), ptype('double'), False)
        rec('ctor')
        rec('setData')
        rec('getB', lambda e, w, s: B)
        rec('getX', lambda e, w, s: X)
        rec('releaseB')
        rec('releaseX')
        rec('setInitialGuessNonzero')
        rec('getNumIterations', lambda e, w, s: T.app('its', (), 'I'))
        rec('getResidualNorm', lambda e, w, s: T.app('rnorm', (), 'R'))

        def solve(e, w, s):
            s.mem[X.path] = Fn(lambda idx: T.app('xsol', idx, 'R'))
            e.note_write(X.path)
            # the operator is applied: its flux and source are overwritten
            for l in e.operator_data:
                nm = T.fresh_name('after_solve')
                contracts.assign(e, l, lambda *ix, nm=nm: T.app(nm, ix, 'R'), s)
        rec('solve', solve)

        def setData(e, this, w, s):
            e.events.append(mpi.Ev('setData', list(w), s, tuple(e.loop_vars)))
            p = w[0]
            e.operator_data = [e.deref_member(p, n, s) for n in ('c_psi', 'c_source')] if hasattr(e, 'deref_member') else [e.refs[p.path + (n,)] for n in ('c_psi', 'c_source')]
            e.operator_sweeper = e.refs.get(p.path + ('c_sweeper',))
        eng.contracts['KrylovSolver::setData'] = setData
        st, r = cx.run(eng, 'SourceIteration::krylov', [sw, psi, q], st=st)
        names = [e.name for e in ev if e.name in ('ctor', 'setData', 'solve', 'sweep')]
        if sorted(names) != ['ctor', 'setData', 'solve', 'sweep', 'sweep'] or any(e.lv for e in ev):
            raise Unsupported('structure: %r' % names)
        isol = [k for k, e in enumerate(ev) if e.name == 'solve'][0]
        sweeps = [(k, e) for k, e in enumerate(ev) if e.name == 'sweep']
        cx.prove('all of this happens on every path', T.and_(*[e.pc for e in ev if e.name in ('ctor', 'setData', 'solve', 'sweep')]))
        cx.decide('one sweep before and one after the solve', sweeps[0][0] < isol < sweeps[1][0] and names.index('ctor') < names.index('setData') < names.index('solve'), 'normal-form', names)
        ct = [e for e in ev if e.name == 'ctor'][0].args
        cx.prove('local vector size', T.eq(ct[0], size))
        cx.prove('tolerance', T.eq(ct[1], T.var('G.g_errMax', 'R')))
        cx.prove('iteration limit', T.eq(ct[2], gvar('g_iterMax')))
        cx.decide('operator', 'lhsOperator' in str(getattr(ct[3], 'name', ct[3])), 'normal-form', ct[3])
        cx.decide('the operator works on the given sweeper and on a source of its own', eng.operator_sweeper is not None and eng.operator_sweeper.path == sw.path and
                  eng.operator_data[1].path != q.path and eng.operator_data[0].path != q.path and eng.operator_data[0].path != eng.operator_data[1].path, 'normal-form', eng.operator_data)
        s1, s2 = sweeps[0][1], sweeps[1][1]
        for s_ in (s1, s2):
            cx.decide('sweep with the given sweeper into the given flux, with boundary data', s_.args[0].path == sw.path and s_.args[1].path == psi.path and isfalse(s_.args[3]), 'normal-form', s_.args)
        same(cx, 'right-hand side: the first sweep uses the external source', contracts.reader(eng, s1.args[2], s1.st)(g, v, a, c), q0(g, v, a, c), rng)
        so = ev[isol]
        flat = T.add(g, T.mul(nG, T.add(v, T.mul(I(4), c))))
        same(cx, 'right-hand side is the scalar flux of that sweep', eng.read(so.st.mem[B.path], (flat,), so.st), D(s1.result)(g, v, c), rng)
        same(cx, 'the final sweep uses the external source plus scattering of the solution', contracts.reader(eng, s2.args[2], s2.st)(g, v, a, c),
             T.add(q0(g, v, a, c), T.mul(scat(c), T.app('xsol', (flat,), 'R'))), rng)
        same(cx, 'the flux returned is that of the final sweep', contracts.reader(eng, psi, st)(g, v, a, c), s2.result(g, v, a, c), rng)
        cx.prove('returns the number of Krylov iterations', T.eq(r, T.app('its', (), 'I')))
        cx.discharge(eng, kinds=('pre', 'sub', 'null'))
