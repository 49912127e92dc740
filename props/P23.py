"""Race freedom of every parallel region by ownership of the elements each thread touches (vc/race.py)."""
from vc.ctx import *
from vc.walk import Walk, in_loop
from vc.race import Race, check, isolated, directives
from vc import mpi
from vc.exec import ptype, Fn
from props import P08


def engine(cx, *src):
    eng = cx.engine(*src)
    eng.events = []
    st = State()
    mesh(eng, st)
    w = Walk(eng, lambda p: False)
    race = Race(eng, w)
    for n in ('start', 'stop', 'reset'):
        eng.contracts['Timer::' + n] = lambda e, t, a, s: e.note_write(t.path, t.idx, s)
    for n in ('wall_clock', 'sum_wall_clock'):
        eng.contracts['Timer::' + n] = lambda e, t, a, s: T.app(T.fresh_name('clock'), tuple(e.loop_vars), 'R')
    eng.contracts['ctor:Timer'] = lambda e, t, a, s: None
    return eng, st, w, race


def expect(race, n):
    if len(race.regions) != n:
        raise Unsupported('%d parallel regions' % len(race.regions))


def has_omp(n, kinds=('OMPParallelDirective', 'OMPParallelForDirective')):
    return isinstance(n, dict) and (n.get('kind') in kinds or any(has_omp(c, kinds) for c in n.get('inner', [])))


def parallel_functions(src):
    from vc import ast as A
    return {q for q, fs in A.load(src + '#omp').funcs.items() for f in fs if f.body is not None and has_omp(f.body)}


def arguments(eng, st, f):
    out = []
    for k, p in enumerate(f.params):
        t = X.ptype(p['type'])
        t = t.elem if t.k == 'ref' else t
        if t.k in ('class', 'vector'):
            o = Loc(('A', p.get('name', 'a%d' % k)), (), t)
            if t.k == 'class' and t.name in ('PsiData', 'PhiData', 'PsiBoundData'):
                phase(eng, st, o)
            out.append(o)
        elif t.k == 'int' and not t.signed:
            out.append(uvar(p.get('name', 'a%d' % k)))
        elif t.k in ('int', 'real', 'bool'):
            out.append(T.var(p.get('name', 'a%d' % k), {'int': 'I', 'real': 'R', 'bool': 'B'}[t.k]))
        else:
            raise Unsupported('parameter %r' % t)
    return out


def loops(cx, src, name):
    """a function with parallel loops, for arbitrary distinct arguments"""
    eng, st, w, race = engine(cx, src + '#omp', 'src/TychoMesh.cc', 'src/Quadrature.cc')
    cx.run(eng, name, arguments(eng, st, eng.find(name)), st=st)
    w.close()
    if not race.regions:
        raise Unsupported('no parallel region')
    for r in race.regions:
        check(cx, eng, r)
    return {r.fn for r in race.regions}


class Push(object):
    name = 'push'


class Queues(P08.Queues):
    """queue q holds pairs whose direction belongs to set q: assumed of what is taken out, proved of what is put in"""

    def op(self, e, obj, name, args, st, n):
        r = P08.Queues.op(self, e, obj, name, args, st, n)
        if name == 'top':
            a = st.mem[r.path + ('c_angle',)]
            st.pc = T.and_(st.pc, T.eq(group(a), obj.idx[0]))
        return r


def group(a):
    T.NONNEG.add('group')
    return T.app('group', (a,), 'I')


def traverse(cx):
    eng, st, w, race = engine(cx, 'src/GraphTraverser.cc#omp', 'src/TychoMesh.cc')
    eng.queue_hook, eng.map_hook = Queues(), P08.Maps()
    eng.contracts['Comm::rank'] = lambda e, t, a, s: uvar('rank')
    eng.contracts['Comm::gmax'] = lambda e, t, a, s: None
    eng.contracts['TraverseData::getPriority'] = lambda e, t, a, s: T.app('priority', (a[0], a[1]), 'I')
    pairs = []

    def method(nm, k):
        def f(e, t, a, s):
            if e.race.cur is not None:      # what these methods touch: see data()
                e.events.append(P08.Ev('pair', method=nm, angle=a[k], tid=e.race.tid(), pc=s.pc))
            return Ptr(('data',), tuple(a), I(0), ptype('char')) if nm == 'getData' else None
        eng.contracts['TraverseData::' + nm] = f
    for nm, k in (('update', 1), ('getData', 2), ('setSideData', 1)):
        method(nm, k)

    def size(e, loc, s):
        nm = T.fresh_name('len')
        T.NONNEG.add(nm)
        for q in ('#n', '#e'):
            e.note_write(loc.path + (q,), loc.idx, s)
        s.mem.pop(loc.path + ('#e',), None)
        e.store(Loc(loc.path + ('#n',), loc.idx, ptype('size_t')), T.app(nm, tuple(e.loop_vars), 'I'), s)
        return True
    eng.contracts['createPacket'] = lambda e, t, a, s: size(e, a[0], s) and None
    for nm in ('sendAndRecvData', 'sendData2Sided', 'recvData2Sided'):
        eng.contracts['GraphTraverser::' + nm] = lambda e, t, a, s, nm=nm: size(e, a[0] if nm == 'recvData2Sided' else a[1], s) and None
    eng.contracts['angleGroupIndex'] = lambda e, t, a, s: group(a[0])

    def append(e, o, src, cnt, s):
        e.race.access(src.path, src.idx, False, s)
        return size(e, o, s)
    eng.append_hook = append
    w.events |= {'push', 'pair'}
    this = obj('gt', 'GraphTraverser')
    st, _ = cx.run(eng, 'GraphTraverser::traverse', [uvar('maxCompute'), obj('td', 'TraverseData')], this=this, st=st)
    w.close()
    if not race.regions:
        raise Unsupported('no parallel region')
    inside = [x for r in race.regions for x in r.events]
    outer = [x for x in eng.events if x.name == 'push' and x not in inside]
    pushes = outer + [x for x in inside if x.name == 'push']
    if not outer or len(pushes) == len(outer):
        raise Unsupported('queues')
    for k, x in enumerate(pushes):
        cx.prove('push %d: into the queue of the set of its direction' % k, T.eq(group(x.angle), x.q), [x.pc], eng)
    for r in race.regions:
        check(cx, eng, r, [group])
        for x in r.events:
            if x.name == 'pair':
                if x.method == 'setSideData':
                    raise Unsupported('setSideData in parallel')
                cx.prove('%s: for a direction of the set of the thread' % x.method, T.eq(group(x.angle), r.tid), [x.pc], eng)
    return {r.fn for r in race.regions}


def pseudo(race, name, private):
    """an arbitrary thread running one function"""
    r = race.begin('function', {})
    r.fn, r.line, r.private_roots = name, None, private
    r.tid = T.fresh('tid', 'I')
    T.NONNEG.add(r.tid.info)
    return r


def kernels(cx):
    """frame of the gather and of the solve of one pair: what they write, and whose data they read"""
    eng, st0, w, race = engine(cx, 'src/Transport.cc#omp', 'src/TychoMesh.cc')
    cell, ang = uvar('cell'), uvar('angle')
    for fn, args, out in (('Transport::populateLocalPsiBound', [ang, cell, obj('psi', 'PsiData'), obj('bound', 'PsiBoundData'), obj('out', 'Mat3<double>')], 'out'),
                          ('Transport::solve', [cell, ang, T.var('sigma', 'R'), obj('local', 'Mat3<double>'), obj('rhs', 'Mat2<double>'), obj('out', 'Mat2<double>')], 'out')):
        st, n0 = st0.copy(), len(eng.events)
        r = pseudo(race, fn, set())
        try:
            cx.run(eng, fn, args, st=st)
        finally:
            race.cur = None
        acc = [x for x in eng.events[n0:] if x.name == 'access']
        if not acc:
            raise Unsupported(fn)
        for x in sorted({(x.path, x.line) for x in acc if x.write}, key=str):
            cx.decide('%s: writes its result only, line %s' % (fn, x[1]), x[0][:2] == ('A', out), 'normal-form', x)
        seen = set()
        for x in acc:
            if x.path[:2] in (('A', 'psi'), ('A', 'bound')) and x.path[-1] == '#e' and x.key() not in seen:
                seen.add(x.key())
                if len(x.idx) != 4:
                    raise Unsupported('read of %r' % x)
                cx.prove('%s: reads data of the direction, line %s' % (fn, x.line), T.eq(x.idx[2], ang), [x.pc], eng)
    w.close()


def use_kernels(eng):
    def gather(e, t, a, s):
        for o in a[2:4]:
            e.race.access(o.path + ('#e',), o.idx + (T.fresh('any', 'I'), T.fresh('any', 'I'), a[0], T.fresh('any', 'I')), False, s)
        put(e, a[4], s)

    def put(e, o, s):
        e.note_write(o.path + ('#e',), o.idx, s)
        old = s.mem.get(o.path + ('#e',))
        s.mem.pop(o.path + ('#e',), None)

    def solve(e, t, a, s):
        for o in a[3:5]:
            e.race.access(o.path + ('#e',), o.idx, False, s)
        put(e, a[5], s)
    eng.contracts['Transport::populateLocalPsiBound'] = gather
    eng.contracts['Transport::solve'] = solve


def data(cx, src, cls):
    """the methods the threads of the traversal call at the same time, each for a direction of its thread's set"""
    eng, st0, w, race = engine(cx, src + '#omp', 'src/TychoMesh.cc')
    this = obj('data', cls)
    use_kernels(eng)
    r = pseudo(race, cls, {'arg'})
    ran = 0
    try:
        for nm, k in (('update', 1), ('getData', 2), ('getPriority', 1)):
            q = next((q for q in (cls + '::' + nm,) if any(f.body is not None for tu in eng.tus for f in tu.funcs.get(q, []))), None)
            if q is None:
                raise Unsupported('%s::%s' % (cls, nm))
            st = st0.copy()
            cell, ang, face = uvar('cell'), uvar('angle'), uvar('face')
            st.pc = T.and_(T.lt(r.tid, race.threads()), T.eq(group(ang), r.tid), *in_range((cell, gvar('g_nCells')), (ang, gvar('g_nAngles')), (face, I(4))))
            args = [cell, ang] if k == 1 else [cell, face, ang]
            if nm == 'update':
                args += [Ptr(('arg', 'adj'), (), I(0), ptype('unsigned long'), False), Ptr(('arg', 'bd'), (), I(0), ptype('int'), False)]
            cx.run(eng, q, args, this=this, st=st)
            ran += 1
    finally:
        race.cur = None
    w.close()
    race.finish(r, eng.events)
    check(cx, eng, r, [group])


def entered(cx, eng):
    for q in sorted(eng.entered):
        if q not in cx.functions:
            cx.functions.append(q)


def main(cx):
    eng, st, w, race = engine(cx, 'src/Main.cc#omp')
    out = set()
    for q in sorted(parallel_functions('src/Main.cc')):
        isolated(race, eng.find(q), st)
        out.add(q)
    w.close()
    for r in race.regions:
        check(cx, eng, r)
    entered(cx, eng)
    return out


ORDER = 'G.g_sweepSchedule.*.*.c_workOrders'


def scheduled(cx):
    """the sweeps that follow a schedule: thread g computes the directions of schedule g, and sends and receives its data"""
    eng, st, w, race = engine(cx, 'src/Sweeper.cc#omp', 'src/TychoMesh.cc')
    T.NONNEG.update((ORDER + '.#n', ORDER + '.#e.#n', ORDER + '.#e.#e.c_cell', ORDER + '.#e.#e.c_angle'))
    eng.axioms.add(ORDER + '.#e.#e.c_angle', lambda i: [T.eq(group(T.app(ORDER + '.#e.#e.c_angle', i, 'I')), i[0])])
    eng.map_hook = P08.Maps()
    messages(eng)
    use_kernels(eng)
    w.after = summarise(w)
    out = set()
    for q in sorted(parallel_functions('src/Sweeper.cc')):
        isolated(race, eng.find(q), st, obj('sweeper', 'Sweeper'))
        out.add(q)
    w.close()
    for k, r in enumerate(race.regions):
        check(cx, eng, r, [group], label='region %d: ' % k)
    entered(cx, eng)
    return out


def messages(eng):
    for n in ('MPI_Waitall', 'Comm::barrier'):
        eng.contracts[n] = lambda e, t, a, s: None

    def send(e, t, a, s):
        e.race.access(a[0].path + ('#e',), a[0].idx, False, s)
        e.events.append(P08.Ev('send', vec=a[0], rank=a[1], tag=a[2], pc=s.pc))
    eng.contracts['Comm::iSendUIntVector'] = send
    eng.contracts['Comm::iSendDoubleVector'] = send

    def recv(kind):
        def f(e, t, a, s):
            v, tag = a[0], a[2]
            nm = T.fresh_name('message')
            lv = tuple(e.loop_vars)
            if v.idx:
                raise Unsupported('receive buffer')
            if kind == 'I':
                T.NONNEG.add(nm)
                # what is sent with tag 3 g + 1: sides and directions in turn, the directions of set g (updateComm, send)
                e.axioms.add(nm, lambda i: [T.implies(T.and_(T.eq(T.imod(i[-1], I(2)), I(1)), T.eq(T.imod(tag, I(3)), I(1))),
                                                      T.eq(T.add(T.mul(I(3), group(T.app(nm, i, 'I'))), I(1)), tag))])
            e.note_write(v.path + ('#e',), v.idx, s)
            s.mem[v.path + ('#e',)] = Fn(lambda i: T.app(nm, lv + tuple(i), kind), kind, 1)
        return f
    eng.contracts['Comm::recvUIntVector'] = recv('I')
    eng.contracts['Comm::recvDoubleVector'] = recv('R')


def summarise(w):
    """element i of a private array written by iteration i alone: its value after the loop"""
    w.watch = lambda p: p[0][0] == 'L' and p[-1] == '#e'

    def after(lv, x):
        if lv.count is None or lv.start is not I(0):
            return
        for p, ups in lv.ups.items():
            if ups is None or len(ups) != 1:
                continue
            u = ups[0]
            if u.params or u.guard is not TRUE or u.addr != (lv.sym,) or not isinstance(u.val, T.E):
                continue
            bad = [h for h in lv.head.hsym if h is not lv.sym] + list(lv.head.markers)
            if T.atoms_of(u.val, lambda y: y in bad or y.op == 'app' and y.info in bad):
                continue
            rest = T.fresh_name('rest')
            lt, n = lv.head.t, lv.bound
            x.mem[p] = Fn(lambda i, u=u, rest=rest: T.ite(T.and_(T.ge0(i[0]), T.lt(i[0], n)), T.subst(u.val, {lv.sym: i[0], lt: i[0]}), T.app(rest, tuple(w.eng.loop_vars) + tuple(i), u.val.sort)), u.val.sort, 1)
    return after


def sending(cx):
    """the sides and directions for a neighbour: in turn, the directions those of the pair computed; tags of the thread's set"""
    eng, st, w, race = engine(cx, 'src/Sweeper.cc', 'src/TychoMesh.cc')
    cell, ang, tid = uvar('cell'), uvar('angle'), uvar('tid')
    hy = in_range((cell, gvar('g_nCells')), (ang, gvar('g_nAngles')), (tid, race.threads())) + [T.eq(group(ang), tid)]
    st.pc = T.and_(*hy)
    eng.models['omp_get_thread_num'] = lambda e, a, s, n: tid
    csa = obj('csa', 'Mat2<std::vector<unsigned long>>')
    lists = csa.path + ('#e', '#e')
    w.watch = lambda p: p == lists
    cx.run(eng, 'updateComm', [cell, ang, obj('psiBound', 'PsiBoundData'), csa, obj('cp', 'Mat2<std::vector<double>>')], st=st)
    top = [l for l in w.levels if l.depth == 0 and lists in l.ups]
    if len(top) != 1 or top[0].ups[lists] is None:
        raise Unsupported('updateComm')
    L = top[0]
    ups = L.ups[lists]
    len0 = lambda g, r: eng.read(L.head.head.mem[csa.path + ('#e', '#n')], (g, r), L.head.head)
    len1 = lambda g, r: eng.read(L.head.after.mem[csa.path + ('#e', '#n')], (g, r), L.head.after)
    g, r = uvar('g'), uvar('r')
    T.NONNEG.update(x for x in L.head.markers)
    even = lambda n: T.eq(T.imod(n, I(2)), I(0))
    cx.prove('entries come in pairs', even(len1(g, r)), hy + [even(len0(g, r))] + [even(len0(*u.addr[:2])) for u in ups], eng)
    for k, u in enumerate(ups):
        if len(u.addr) != 3 or u.params or not isinstance(u.val, T.E):
            raise Unsupported('entry %d' % k)
        h = hy + [u.guard if isinstance(u.guard, T.E) else TRUE, even(len0(*u.addr[:2])), L.head.after.pc]
        cx.prove('entry %d: in the list of the thread' % k, T.eq(u.addr[0], tid), h, eng)
        cx.prove('entry %d: second of a pair is the direction' % k, T.implies(T.eq(T.imod(u.addr[2], I(2)), I(1)), T.eq(u.val, ang)), h, eng)
    # what goes out with which tag
    eng, st, w, race = engine(cx, 'src/Sweeper.cc', 'src/TychoMesh.cc')
    messages(eng)
    eng.events = []
    w.events = {'send'}
    step, ag = uvar('step'), uvar('ag')
    cx.run(eng, 'send', [step, ag, csa, obj('cp', 'Mat2<std::vector<double>>'), obj('reqs', 'std::vector<ompi_request_t *>'), obj('sizes', 'std::list<std::vector<unsigned long>>')], st=st)
    sent = [x for x in eng.events if x.name == 'send']
    mine = [x for x in sent if x.vec.path == csa.path + ('#e',)]
    if not mine:
        raise Unsupported('send')
    for k, x in enumerate(mine):
        cx.prove('list %d: of the set' % k, T.eq(x.vec.idx[0], ag), [x.pc], eng)
        cx.prove('list %d: of the receiver' % k, T.eq(x.vec.idx[1], x.rank), [x.pc], eng)
        cx.prove('list %d: tag of the set' % k, T.eq(x.tag, T.add(T.mul(I(3), ag), I(1))), [x.pc], eng)
    for k, x in enumerate(x for x in sent if x not in mine):
        cx.prove('other data %d: other tag' % k, T.ne(T.imod(x.tag, I(3)), I(1)), [x.pc], eng)


def sets(cx):
    """the sets of directions of the schedules do not overlap"""
    eng, st, w, race = engine(cx, 'src/Sweeper.cc', 'src/SweepSchedule.cc')
    made = []

    def make(e, loc, a, s):
        e.events.append(P08.Ev('schedule', angles=a[0], pc=s.pc, st=s.copy(), loc=loc))
    eng.contracts['ctor:SweepSchedule'] = make
    w.events = {'schedule'}
    paths = []
    w.watch = lambda p: p[0][0] == 'L' and p[-1] == '#e'
    fill = summarise(w)

    def after(lv, x):
        fill(lv, x)
        paths.append((lv, x.copy()))
    w.after = after
    cx.run(eng, 'Sweeper::Sweeper', [], this=obj('sweeper', 'Sweeper'), st=st)
    w.close()
    tops = [l for l in w.levels if l.depth == 0]
    if len(tops) != 2 or any(l.count is None for l in tops):
        raise Unsupported('Sweeper::Sweeper')
    A, B = tops
    ev = [x for x in B.evs if x.name == 'schedule']
    bp = [p for p, u in A.ups.items() if u]
    if len(ev) != 1 or len(bp) != 1 or len(A.ups[bp[0]]) != 1:
        raise Unsupported('angle sets')
    u, p = A.ups[bp[0]][0], bp[0]
    nG = gvar('g_nAngleGroups')
    h = in_loop(A) + [A.head.after.pc]
    old = eng.read(A.head.head.mem[p], (A.sym,), A.head.head)
    cx.prove('boundary of the next set', T.eq(u.addr[0], T.add(A.sym, I(1))), h, eng)
    cx.prove('boundaries do not decrease', T.le(old, u.val), h, eng)
    cx.prove('every set has a boundary', T.and_(T.eq(A.start, I(0)), T.eq(A.bound, nG)), [], eng)
    cx.prove('every set has a schedule', T.and_(T.eq(B.start, I(0)), T.eq(B.bound, nG)), [], eng)
    x = ev[0]
    bd = lambda k, s: eng.read(s.mem[p], (k,), s)
    k = uvar('k')
    n = eng.load(Loc(x.angles.path + ('#n',), (), ptype('size_t')), x.st)
    a = eng.read(x.st.mem[x.angles.path + ('#e',)], (k,), x.st)
    T.NONNEG.update(B.head.markers)
    h = in_loop(B) + [x.pc, T.lt(k, n), T.le(bd(B.sym, x.st), bd(T.add(B.sym, I(1)), x.st))]
    cx.prove('directions of a set: from its boundary', T.le(bd(B.sym, x.st), a), h, eng)
    cx.prove('directions of a set: up to the next boundary', T.lt(a, bd(T.add(B.sym, I(1)), x.st)), h, eng)
    # lemma: consecutive ranges with boundaries that do not decrease are disjoint (lemmas/Steps.lean: ranges_disjoint)
    i, j = uvar('i'), uvar('j')
    b = lambda q: T.app('boundary', (q,), 'I')
    cx.prove('disjoint sets, base', T.le(b(T.add(i, I(1))), b(T.add(i, I(1)))), [], eng)
    cx.prove('disjoint sets, step', T.le(b(T.add(i, I(1))), b(T.add(j, I(1)))), [T.le(b(T.add(i, I(1))), b(j)), T.le(b(j), b(T.add(j, I(1))))], eng)


def coverage(cx, covered):
    import glob, os
    from vc import ast as A
    found = set()
    for f in sorted(glob.glob(os.path.join(A.REPO, 'src', '*.cc'))):
        t = open(f, errors='replace').read()
        if 'omp' in t and 'pragma' in t and 'parallel' in t:
            found |= parallel_functions('src/' + os.path.basename(f))
    for f in sorted(glob.glob(os.path.join(A.REPO, 'src', '*.hh'))):
        import re
        if re.search(r'pragma\s+omp\s+parallel', open(f, errors='replace').read()):
            raise Unsupported('parallel region in ' + os.path.basename(f))
    if found - covered:
        raise Unsupported('parallel regions not analysed: %s' % sorted(found - covered))
    cx.decide('every parallel region of the sources is analysed', True, 'normal-form', sorted(found))


def prove(cx):
    covered = set()
    for name in sorted(parallel_functions('src/Util.cc')):
        with cx.unit(name):
            covered |= loops(cx, 'src/Util.cc', name)
    with cx.unit('GraphTraverser::traverse'):
        covered |= traverse(cx)
    from vc import ast as A
    for src in ('src/SweeperTraverse.cc', 'src/Priorities.cc'):
        for q, rec in sorted(A.load(src + '#omp').records.items()):
            if any(b.split('::')[-1] == 'TraverseData' for b in rec.bases):
                with cx.unit(q):
                    data(cx, src, q)
    with cx.unit('Transport::populateLocalPsiBound, solve'):
        kernels(cx)
    with cx.unit('main'):
        covered |= main(cx)
    with cx.unit('Sweeper::sweep'):
        covered |= scheduled(cx)
    with cx.unit('updateComm, send'):
        sending(cx)
    with cx.unit('Sweeper::Sweeper'):
        sets(cx)
    with cx.unit('parallel regions'):
        coverage(cx, covered)
    cx.theorems('Tasks', {'no_first_race': 'if executions free of races so far make disciplined accesses only, and those do not race with each other, none has a race'})
    cx.theorems('Steps', {'ranges_disjoint': 'consecutive ranges with boundaries that do not decrease are disjoint'})
    cx.trusted.append('OpenMP: regions, work sharing, critical and atomic as specified; different elements of a std container may be used by different threads')
