"""All algorithms solve the same equations: the update of a (cell, direction) pair, the sweeps, the solvers and the choice among
them; with P01-P03 (the update), P08/P20 (the order), P09 (face data) and P17/P18 (the iterations)."""
from vc.ctx import *
from vc.walk import Walk, in_loop
from vc.exec import Loc, Fn, Base, Out, ptype
from vc import contracts, mpi

V, Q = range(4), range(4)


class Ev(object):
    def __init__(self, name, **k):
        self.name = name
        self.__dict__.update(k)


def transport(eng):
    """populateLocalPsiBound and solve (P03, P01): what they are given is recorded, what they give is named"""
    def gather(e, t, w, s):
        e.events.append(Ev('gather', angle=w[0], cell=w[1], psi=w[2], bound=w[3], out=w[4], pc=s.pc, st=s.copy()))
        nm = T.fresh_name('incoming')
        contracts.assign(e, w[4], lambda *ix: T.app(nm, tuple(e.loop_vars) + ix, 'R'), s)
        e.events[-1].value = contracts.reader(e, w[4], s)

    def solve(e, w, s):
        nm = T.fresh_name('solution')
        lv = tuple(e.loop_vars)
        e.events.append(Ev('solve', cell=w[0], angle=w[1], sigma=w[2], bound=w[3], source=w[4], out=w[5], pc=s.pc, st=s.copy(),
                           given=contracts.reader(e, w[3], s.copy()), rhs=contracts.reader(e, w[4], s.copy())))
        contracts.assign(e, w[5], lambda *ix: T.app(nm, lv + ix, 'R'), s)
        e.events[-1].value = lambda *ix: T.app(nm, lv + ix, 'R')
    eng.contracts['Transport::populateLocalPsiBound'] = gather
    eng.contracts['Transport::solve'] = lambda e, t, w, s: solve(e, w, s)


def same(a, b):
    return isinstance(a, Loc) and isinstance(b, Loc) and a.path == b.path and len(a.idx) == len(b.idx)


def pair(cx, eng, evs, cell, ang, psi, bound, src, hy, psi0):
    """one gather, one solve, with the data of the pair"""
    if [e.name for e in evs] != ['gather', 'solve']:
        raise Unsupported('update: %r' % [e.name for e in evs])
    G, S = evs
    nG = gvar('g_nGroups')
    g, v, f = uvar('g'), uvar('v'), uvar('fv')
    for e in (G, S):
        cx.prove(e.name + ': always', e.pc, hy, eng)
        cx.prove(e.name + ': the cell', T.eq(e.cell, cell), hy, eng)
        cx.prove(e.name + ': the angle', T.eq(e.angle, ang), hy, eng)
    cx.decide('upwind data from the flux of the sweep', same(G.psi, psi) and same(G.bound, bound), 'normal-form', (G.psi, G.bound))
    cx.prove('total cross section of the cell', T.eq(S.sigma, T.app('G.g_sigmaT.#e', (cell,), 'R')), hy, eng)
    for k in V:
        cx.prove('source of the pair, vertex %d' % k, T.eq(S.rhs(I(k), g), T.app('.'.join(src), (g, I(k), ang, cell), 'R')), hy + in_range((g, nG)), eng)
    for k in range(3):
        for q in Q:
            cx.prove('incoming data of face %d vertex %d as gathered' % (q, k), T.eq(S.given(I(k), I(q), g), G.value(I(k), I(q), g)), hy + in_range((g, nG)), eng)
    rd = lambda loc, *ix: contracts.reader(eng, loc, G.st)(*ix)
    c2, a2 = uvar('c2'), uvar('a2')
    cx.prove('the flux is not touched before the solve', T.eq(rd(psi, g, v, a2, c2), psi0(g, v, a2, c2)), hy, eng)
    return G, S


def written(cx, eng, S, cell, ang, psi, st, hy, psi0):
    nG, nA, nC = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells')
    g, v, c2, a2 = uvar('g'), uvar('v'), uvar('c2'), uvar('a2')
    got = contracts.reader(eng, psi, st)
    h = hy + in_range((g, nG), (c2, nC), (a2, nA))
    mine = T.and_(T.eq(c2, cell), T.eq(a2, ang))
    for k in V:
        cx.prove('vertex %d: the solution is stored' % k, T.eq(got(g, I(k), ang, cell), S.value(I(k), g)), h, eng)
        cx.prove('vertex %d: other pairs unchanged' % k, T.eq(got(g, I(k), a2, c2), psi0(g, I(k), a2, c2)), h + [T.not_(mine)], eng)


def update(cx):
    from vc.exec import Const
    eng = cx.engine('src/SweeperTraverse.cc', 'src/TychoMesh.cc')
    eng.events = []
    st = State()
    mesh(eng, st)
    transport(eng)
    nG, nA, nC, nS = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells'), T.var('.'.join(MESH + ('c_nSides',)), 'I')
    eng.contracts['omp_get_thread_num'] = lambda e, t, w, s: uvar('tid')
    this = obj('sd', 'SweepData')
    for m, ds in (('c_localSource', (I(4), nG)), ('c_localPsi', (I(4), nG)), ('c_localPsiBound', (I(3), I(4), nG))):
        st.mem[this.path + (m, '#n')] = gvar('g_nThreads')
        for f, d in zip(('c_xlen', 'c_ylen', 'c_zlen'), ds):
            st.mem[this.path + (m, '#e', f)] = Const(d)
    for m, t, ds in (('c_psi', 'PsiData', (nG, I(4), nA, nC)), ('c_source', 'PsiData', (nG, I(4), nA, nC)), ('c_psiBound', 'PsiBoundData', (nG, I(3), nA, nS))):
        for f, d in zip(('c_ng', 'c_nv', 'c_na', 'c_ns' if t == 'PsiBoundData' else 'c_nc'), ds):
            st.mem[this.path + (m, '&', f)] = d
    cell, ang = uvar('cell'), uvar('angle')
    st.mem[('G', 'g_sigmaT', '#n')] = nC
    hy = in_range((cell, nC), (ang, nA), (uvar('tid'), gvar('g_nThreads')))
    st.pc = T.and_(*hy)
    adj, bd = Ptr(('A', 'adj'), (), I(0), ptype('unsigned long'), False), Ptr(('A', 'bd'), (), I(0), ptype('int'), False)
    cx.satisfiable(eng, hy)
    cx.run(eng, 'SweepData::update', [cell, ang, adj, bd], this=this, st=st)
    P = lambda m, t: Loc(this.path + (m, '&'), (), ptype(t))
    psi, bnd = P('c_psi', 'PsiData'), P('c_psiBound', 'PsiBoundData')
    psi0 = lambda *ix: T.app('.'.join(psi.path + ('#e',)), ix, 'R')
    G, S = pair(cx, eng, eng.events, cell, ang, psi, bnd, this.path + ('c_source', '&', '#e'), hy, psi0)
    written(cx, eng, S, cell, ang, psi, st, hy, psi0)
    cx.decide('received data and source are not changed', not any(st.mem.get(this.path + (m, '&', '#e')) is not None for m in ('c_psiBound', 'c_source')), 'normal-form')
    cx.discharge(eng, hy)


def computation(cx):
    """doComputation: every work item of the step, in order"""
    eng = cx.engine('src/Sweeper.cc', 'src/TychoMesh.cc')
    eng.events = []
    st = State()
    mesh(eng, st)
    transport(eng)
    nG, nA, nC = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells')
    step, ag = uvar('step'), uvar('ag')
    st.mem[('G', 'g_sigmaT', '#n')] = nC
    psi, src, bnd = obj('psi', 'PsiData'), obj('source', 'PsiData'), obj('psiBound', 'PsiBoundData')
    for o in (psi, src, bnd):
        phase(eng, st, o)
    csa, cp = obj('csa', 'Mat2<std::vector<unsigned long>>'), obj('cp', 'Mat2<std::vector<double>>')

    def rec(nm, wr):
        def f(e, t, w, s):
            e.events.append(Ev(nm, args=w, pc=s.pc, st=s.copy()))
            for o in w:
                if isinstance(o, Loc) and o.path in wr:
                    e.note_write(o.path + ('#e',))
                    s.mem[o.path + ('#e',)] = Base(T.fresh_name('after_' + nm), 'R')
        eng.contracts[nm] = f
    rec('updateBoundData', {bnd.path})
    rec('updateComm', set())
    order = 'G.g_sweepSchedule.*.*.c_workOrders'
    T.NONNEG.update((order + '.#n', order + '.#e.#n'))
    work = lambda f, k: T.app(order + '.#e.#e.' + f, (ag, step, k), 'I')
    n = T.app(order + '.#e.#n', (ag, step), 'I')
    for f, lim in (('c_cell', nC), ('c_angle', nA)):
        T.NONNEG.add(order + '.#e.#e.' + f)
        eng.axioms.add(order + '.#e.#e.' + f, lambda ix, f=f, lim=lim: [T.lt(T.app(order + '.#e.#e.' + f, ix, 'I'), lim)])
    eng.facts += in_range((ag, gvar('g_nAngleGroups')))
    w = Walk(eng, lambda p: False, ['gather', 'solve'])
    inside = T.lt(step, T.app(order + '.#n', (ag,), 'I'))
    cx.run(eng, 'doComputation', [step, ag, src, psi, csa, cp, bnd], st=st)
    w.close()
    top = [l for l in w.levels if any(e.name == 'solve' for e in l.evs)]
    if len(top) != 1 or top[0].count is None:
        raise Unsupported('loop over the work of a step')
    L = top[0]
    hy = [inside] + in_loop(L)
    cx.prove('every work item of the step', T.and_(T.eq(L.start, I(0)), T.eq(L.bound, n)), [inside], eng)
    cx.prove('whenever the group has the step', T.implies(inside, L.head.st0.pc), [], eng)
    k = L.sym
    cell, ang = work('c_cell', k), work('c_angle', k)
    psi0 = contracts.reader(eng, psi, L.head.head)
    two = [e for e in L.evs if e.name in ('gather', 'solve')]
    G, S = pair(cx, eng, two, cell, ang, psi, bnd, ('A', 'source', '#e'), hy, psi0)
    written(cx, eng, S, cell, ang, psi, L.head.after, hy, psi0)
    rest = [e for e in L.evs if e.name not in ('gather', 'solve')]
    if [e.name for e in rest] != ['updateBoundData', 'updateComm'] or L.evs.index(rest[0]) < L.evs.index(S):
        raise Unsupported('boundary data of the pair: %r' % [e.name for e in L.evs])
    g = uvar('g')
    for e in rest:
        cx.prove(e.name + ': of the pair', T.and_(e.pc, T.eq(e.args[0], cell), T.eq(e.args[1], ang)), hy, eng)
        cx.decide(e.name + ': the boundary data of the sweep', same(e.args[2], bnd), 'normal-form')
    for q in V:
        cx.prove('boundary data from the solution, vertex %d' % q, T.eq(contracts.reader(eng, rest[0].args[3], rest[0].st)(I(q), g), S.value(I(q), g)), hy + in_range((g, nG)), eng)
    cx.decide('the data to send is that of the sweep', same(rest[1].args[3], csa) and same(rest[1].args[4], cp), 'normal-form')
    cx.satisfiable(eng, hy)
    cx.discharge(eng, hy)


def record(eng, nm, key=None, ret=None, effect=None):
    def f(e, t, w, s=None):
        if s is None:                       # constructors
            t, w, s = t, w, None
        e.events.append(Ev(nm, args=w, this=t, pc=s.pc, st=s.copy()))
        if effect is not None:
            effect(e, t, w, s)
        return ret(t, w) if callable(ret) else ret
    eng.contracts[key or nm] = f


def traversal(cx, fn):
    """a sweep is a traversal with the update of SweepData on the flux, source and boundary data given"""
    from vc.exec import Const
    eng = cx.engine('src/Util.cc' if fn == 'Util::sweepLocal' else 'src/SweeperTraverse.cc')
    eng.events = []
    st = State()
    mesh(eng, st)
    record(eng, 'GraphTraverser::traverse')
    psi, src, bnd = obj('psi', 'PsiData'), obj('source', 'PsiData'), obj('psiBound', 'PsiBoundData')
    for o in (psi, src, bnd):
        phase(eng, st, o)
    this = obj('sw', 'SweeperTraverse')
    local = fn == 'Util::sweepLocal'
    cx.run(eng, fn, [psi, src, bnd if local else T.var('zero', 'B')], this=None if local else this, st=st)
    if len(eng.events) != 1:
        raise Unsupported('traversals: %d' % len(eng.events))
    e = eng.events[0]
    d = e.args[1]
    if not isinstance(d, Loc):
        raise Unsupported('sweep data')
    cx.prove('one traversal', e.pc, [], eng)
    cx.decide('of the forward graph', isinstance(e.this, Loc) and e.this.path[:2] == ('G', 'g_graphTraverserForward'), 'normal-form', e.this)
    ref = lambda m: eng.refs.get(d.path + (m,))
    cx.decide('on the flux of the sweep', same(ref('c_psi'), psi), 'normal-form', ref('c_psi'))
    cx.decide('with the source of the sweep', same(ref('c_source'), src), 'normal-form', ref('c_source'))
    g, v, a, s_ = uvar('g'), uvar('v'), uvar('a'), uvar('s')
    nG, nT, nA = gvar('g_nGroups'), gvar('g_nThreads'), gvar('g_nAngles')
    b = ref('c_psiBound')
    if local:
        cx.decide('with the boundary data given', same(b, bnd), 'normal-form', b)
        cx.decide('which are not changed before', e.st.mem.get(bnd.path + ('#e',)) is None, 'normal-form')
    else:
        if not isinstance(b, Loc):
            raise Unsupported('boundary data')
        cx.prove('nothing comes in before it is received', T.eq(contracts.reader(eng, b, e.st)(g, v, a, s_), R(0)),
                 in_range((g, nG), (v, 3), (a, nA), (s_, T.var('.'.join(MESH + ('c_nSides',)), 'I'))), eng)
        cx.prove('cells per step as configured', T.eq(e.args[0], gvar('g_maxCellsPerStep')), [], eng)
    cx.prove('at least one cell per step', T.ge(e.args[0], I(1)), [T.ge(gvar('g_maxCellsPerStep'), I(1))], eng)
    t = uvar('tid')
    for m, ds in (('c_localFaceData', (I(3), nG)), ('c_localSource', (I(4), nG)), ('c_localPsi', (I(4), nG)), ('c_localPsiBound', (I(3), I(4), nG))):
        cx.prove(m + ': one per thread', T.eq(e.st.mem[d.path + (m, '#n')], nT), [], eng)
        for f, x in zip(('c_xlen', 'c_ylen', 'c_zlen'), ds):
            cx.prove(m + ': size', T.eq(eng.read(e.st.mem[d.path + (m, '#e', f)], (t,), e.st), x), in_range((t, nT)), eng)
    cx.discharge(eng)


def solver(cx, cls):
    """solve(): the problem's source, a zero initial flux, one run of the chosen iteration on the sweeper's own data"""
    eng = cx.engine('src/%s.cc' % cls)
    eng.events = []
    st = State()
    mesh(eng, st)
    this = obj('sw', cls)
    psi, src = Loc(this.path + ('c_psi',), (), ptype('PsiData')), Loc(this.path + ('c_source',), (), ptype('PsiData'))
    for o in (psi, src):
        phase(eng, st, o)
    ix = (uvar('g'), uvar('v'), uvar('a'), uvar('c'))
    rng = in_range(*zip(ix, (gvar('g_nGroups'), 4, gvar('g_nAngles'), gvar('g_nCells'))))
    record(eng, 'getSource', 'Problem::getSource', effect=lambda e, t, w, s: contracts.assign(e, w[0], lambda *i: T.app('qsource', i, 'R'), s))
    for n in ('fixedPoint', 'krylov'):
        record(eng, n, 'SourceIteration::' + n, ret=I(0))
    cx.run(eng, cls + '::solve', [], this=this, st=st)
    it = [e for e in eng.events if e.name != 'getSource']
    if not it:
        raise Unsupported('solve')
    use = T.var('G.g_useSourceIteration', 'B')
    for n, c in (('fixedPoint', use), ('krylov', T.not_(use))):
        ran = T.or_(T.FALSE, *[e.pc for e in it if e.name == n])
        twice = [T.and_(x.pc, y.pc) for k, x in enumerate(it) for y in it[:k]]
        cx.prove('%s when chosen, once' % n, T.and_(T.implies(c, ran), T.implies(T.not_(c), T.not_(ran)), *[T.not_(x) for x in twice]), [], eng)
    for e in it:
        cx.decide(e.name + ': this sweeper, its flux and its source', [x.path for x in e.args[:3]] == [this.path, psi.path, src.path], 'normal-form', e.args)
        cx.prove(e.name + ': from zero flux', T.eq(contracts.reader(eng, e.args[1], e.st)(*ix), R(0)), rng + [e.pc], eng)
        cx.prove(e.name + ': the source of the problem', T.eq(contracts.reader(eng, e.args[2], e.st)(*ix), T.app('qsource', ix, 'R')), rng + [e.pc], eng)
    cx.discharge(eng)


def chosen(cx, ty, cls, comm):
    """main: the sweeper of the sweep type, on a graph with or without communication, is built once everything it reads is there"""
    eng = cx.engine('src/Main.cc')
    eng.events = []
    st = State()
    num = dict(kv for tu in eng.tus for kv in getattr(tu, 'enum_names', {}).items())
    if ty not in num:
        raise Unsupported('sweep types')
    argc, tid, nt = uvar('argc'), uvar('tid'), uvar('nt')
    T.NONNEG.add('nt')
    argv = lambda k: T.app('arg', (I(k),), 'I')
    st.pc = T.and_(T.ge(argc, I(3)), T.eq(tid, I(0)))
    for n, r in (('Comm::rank', uvar('rank')), ('Comm::barrier', None), ('Comm::gmax', None), ('Timer::start', None), ('Timer::stop', None), ('Timer::wall_clock', R(0)),
                 ('omp_get_thread_num', tid), ('omp_get_num_threads', nt), ('signal', None), ('MPI_Init_thread', I(0)), ('MPI_Finalize', None), ('PetscInitialize', None),
                 ('PetscPopSignalHandler', None), ('PetscFinalize', None)):
        eng.contracts[n] = lambda e, t, w, s, r=r: r
    P = {'provided': None}

    def read_input(e, t, w, s):
        for o, nm in zip(w[1:5], ('sigmaT1', 'sigmaS1', 'sigmaT2', 'sigmaS2')):
            e.store(o, T.var('deck.' + nm, 'R'), s)
        e.note_write(('G', 'g_sweepType'))
        s.mem[('G', 'g_sweepType')] = I(num[ty])
        for q, so in (('g_outputFile', 'B'), ('g_snOrder', 'I'), ('g_nGroups', 'I')):
            e.note_write(('G', q))
            s.mem[('G', q)] = T.var('deck.' + q, so)
    T.NONNEG.update(('deck.g_snOrder', 'deck.g_nGroups'))
    record(eng, 'readInput', effect=read_input)
    eng.contracts['ctor:std::basic_string<char>'] = lambda e, loc, w, s: s.mem.__setitem__(loc.path + ('of',), w[0])
    for n in ('Problem::createCrossSections', 'SweeperAbstract::solve', 'SweeperAbstract::writePsiToFile'):
        record(eng, n.split('::')[1], n)
    eng.contracts['SweeperAbstract::getPsi'] = lambda e, t, w, s: Loc(t.path + ('c_psi',), t.idx, ptype('PsiData'))
    for n in ('Problem::hatL2Error', 'Util::diffBetweenGroups'):
        record(eng, n.split('::')[1], n, ret=R(0))
    classes = ('Sweeper', 'SweeperTraverse', 'SweeperSchur', 'SweeperSchurOuter', 'SweeperSchurKrylov', 'SweeperPBJ', 'SweeperPBJOuter', 'SweeperPBJSI')
    for k in ('Quadrature', 'TychoMesh', 'GraphTraverser') + classes:
        record(eng, k, 'ctor:' + k)
    a = Ptr(('A', 'argv'), (), I(0), ptype('char *'), False)
    try:
        cx.run(eng, 'main', [argc, a], st=st)
    except Unsupported as x:
        if str(x) == 'deref of NULL':  # on the way of this sweep type
            cx.decide('the sweeper of the type is made before it is used', False, 'normal-form', str(x))
            return
        raise
    ev = [e for e in eng.events if e.pc is not T.FALSE and feasible(eng, e.pc)]
    by = lambda n: [e for e in ev if e.name == n]

    def one(n):
        if len(by(n)) != 1:
            raise Unsupported('%s: %d' % (n, len(by(n))))
        return by(n)[0]
    hy = [T.ge(argc, I(3)), T.eq(tid, I(0))]
    made = [e for e in ev if e.name in classes]
    cx.decide('the sweeper of the type', [e.name for e in made] == [cls], 'normal-form', [e.name for e in made])
    if len(made) != 1:
        return
    need = ['readInput', 'Quadrature', 'TychoMesh', 'createCrossSections'] + (['GraphTraverser'] if comm is not None else [])
    seq = [one(n) for n in need] + made + [one('solve')]
    for e in seq:
        cx.prove(e.name + ': always', e.pc, hy, eng)
    pos = [ev.index(e) for e in seq]
    cx.decide('everything is there when it is read', pos == sorted(pos), 'normal-form', [e.name for e in ev])
    ri, qd, ms, xs = seq[:4]
    sw, so = made[0], seq[-1]
    cx.decide('the sweeper made is the one that solves', isinstance(so.this, Loc) and so.this.path == sw.this.path, 'normal-form', (so.this, sw.this))
    for e, k, what in ((ri, 2, 'deck'), (ms, 1, 'mesh')):
        p = e.args[0]
        while isinstance(p, Loc):
            p = e.st.mem.get(p.path + ('of',))
        if not (isinstance(p, Ptr) and p.path[:2] == ('A', 'argv') and len(p.idx) == 1):
            raise Unsupported('name of the %s: %r' % (what, p))
        cx.prove('the %s of the command line' % what, T.and_(T.eq(p.idx[0], I(k)), T.eq(p.off, I(0))), hy, eng)
    g = lambda e, n: e.st.mem.get(('G', n), T.var('G.' + n, 'I'))
    cx.prove('quadrature of the order read', T.eq(qd.args[0], T.var('deck.g_snOrder', 'I')), hy, eng)
    ptr = lambda e, n: e.st.mem.get(('G', n))
    for n, e in (('g_quadrature', qd), ('g_tychoMesh', ms)) + ((('g_graphTraverserForward', by('GraphTraverser')[0]),) if comm is not None else ()):
        p = ptr(so, n)
        cx.decide(n + ' is the one made', isinstance(p, Ptr) and p.path == e.this.path, 'normal-form', p)
    cx.decide('cross sections of all cells', [x.path for x in xs.args[:2]] == [('G', 'g_sigmaT'), ('G', 'g_sigmaS')], 'normal-form', xs.args[:2])
    for x, n in zip(xs.args[2:], ('sigmaT1', 'sigmaS1', 'sigmaT2', 'sigmaS2')):
        cx.prove(n + ' as read', T.eq(x, T.var('deck.' + n, 'R')), hy, eng)
    if comm is not None:
        gt = by('GraphTraverser')[0]
        cx.prove('traversal along the directions', T.eq(gt.args[0], I(num.get('Direction_Forward', -1))), hy, eng)
        cx.decide('face data exchanged during a sweep: %s' % comm, gt.args[1] is (T.TRUE if comm else T.FALSE), 'normal-form', gt.args[1])
        cx.prove('bytes of face data', T.eq(gt.args[2], T.mul(I(24), T.var('deck.g_nGroups', 'I'))), hy, eng)
    for e in made + [so]:
        cx.prove(e.name + ': one group of angles per thread', T.and_(T.eq(g(e, 'g_nThreads'), nt), T.eq(g(e, 'g_nAngleGroups'), nt)), hy, eng)
    wr = by('writePsiToFile')
    cx.prove('output when asked for', T.and_(T.implies(T.var('deck.g_outputFile', 'B'), T.or_(T.FALSE, *[e.pc for e in wr])), *[T.implies(e.pc, T.var('deck.g_outputFile', 'B')) for e in wr]), hy, eng)
    for e in wr:
        cx.decide('output of the solution, after the solve', e.this.path == sw.this.path and ev.index(e) > ev.index(so), 'normal-form')
    for n in ('hatL2Error', 'diffBetweenGroups'):
        e = one(n)
        cx.decide(n + ' of the solution', e.args[0].path == sw.this.path + ('c_psi',) and ev.index(e) > ev.index(so), 'normal-form', e.args)


def feasible(eng, pc):
    from vc import prove as PR
    return not PR.valid(T.not_(pc), [], eng.axioms, 2000)[0]


def lemma(cx):
    """fluxes that satisfy the same update for every pair are equal: induction along the order of the pairs (P08, P20)"""
    eng = cx.engine('src/SweeperTraverse.cc')
    c, g, v = uvar('pair'), uvar('g'), uvar('v')
    up = lambda k: T.app('upwind%d' % k, (c,), 'I')
    inc = lambda k: T.app('incoming%d' % k, (c,), 'B')
    psi = lambda w, p: T.app('psi%d' % w, (g, v, p), 'R')
    given = lambda w: [T.ite(inc(k), psi(w, up(k)), R(0)) for k in Q]
    eq = lambda w: T.eq(psi(w, c), T.app('update', (c, g, v) + tuple(given(w)), 'R'))
    order = lambda p: T.app('order', (p,), 'I')
    ih = [T.implies(T.lt(order(up(k)), order(c)), T.eq(psi(1, up(k)), psi(2, up(k)))) for k in Q]
    cx.prove('induction step', T.eq(psi(1, c), psi(2, c)), [eq(1), eq(2)] + ih + [T.implies(inc(k), T.lt(order(up(k)), order(c))) for k in Q], eng)


def prove(cx):
    with cx.unit('SweepData::update'):
        update(cx)
    with cx.unit('Sweeper.cc: doComputation'):
        computation(cx)
    for fn in ('Util::sweepLocal', 'SweeperTraverse::sweep'):
        with cx.unit(fn):
            traversal(cx, fn)
    for cls in ('Sweeper', 'SweeperTraverse'):
        with cx.unit(cls + '::solve'):
            solver(cx, cls)
    for ty, cls, comm in (('OriginalTycho1', 'Sweeper', None), ('OriginalTycho2', 'Sweeper', None), ('TraverseGraph', 'SweeperTraverse', True),
                          ('PBJ', 'SweeperPBJ', False), ('PBJOuter', 'SweeperPBJOuter', False), ('PBJSI', 'SweeperPBJSI', False),
                          ('Schur', 'SweeperSchur', False), ('SchurOuter', 'SweeperSchurOuter', False), ('SchurKrylov', 'SweeperSchurKrylov', False)):
        with cx.unit('main (%s)' % ty):
            chosen(cx, 'SweepType_' + ty, cls, comm)
    with cx.unit('lemma: one solution'):
        lemma(cx)
    cx.theorems('Tasks', {'run_solves': 'a run that takes each pair after its upwind pairs solves the equation of every pair taken, whatever was stored before',
                          'unique': 'on an acyclic upwind relation the equations have one solution',
                          'one_result': 'complete runs of any order, from any contents, give the same flux',
                          'stuck_is_complete': 'no deadlock: when no rank can take a pair or receive a packet, every pair was taken',
                          'schedule_acyclic': 'step numbers that increase along the directions exclude cycles'})
    cx.assume('the update of a pair is a function of the pair, its source and its upwind data (P01, P03; the local matrix is non-singular)')
    cx.assume('pairs are taken once, after their upwind pairs (P08, P20); face data of other ranks is the flux of the neighbouring cell (P09)')
    cx.assume('source iteration, the Krylov driver and the boundary operators have the solution of the sweep equations as their fixed point (P17, P18); how far an iteration has converged is a matter of its tolerance')
    cx.assume('the sweep type is that of the input deck (P16); OpenMP runs one thread for each number below omp_get_num_threads()')
