"""The sweep schedule: dependencies, counts, the ready queue, what a step takes, what it sends and receives, the priorities."""
from fractions import Fraction
from vc.ctx import *
from vc.walk import Walk, in_loop
from vc.exec import Loc, Fn, Base, Upd, ptype
from props import P08, P23
from props.P08 import Ev, Maps, one, chain, iff, b2i, total

SS = 'src/SweepSchedule.cc'
Q = range(4)


def arr(name, t):
    return Loc(('A', name), (), ptype(t))


def engine(cx):
    eng = cx.engine(SS, 'src/TychoMesh.cc')
    eng.events = []
    st = State()
    mesh(eng, st)
    T.NONNEG.add('A.angles.#e')
    eng.axioms.add('A.angles.#e', lambda i: [T.lt(T.app('A.angles.#e', i, 'I'), gvar('g_nAngles'))])
    return eng, st


def nang():
    return uvar('A.angles.#n')


def ang(i):
    T.NONNEG.add('A.angles.#e')
    return T.app('A.angles.#e', (i,), 'I')


def args(eng, st):
    nC = gvar('g_nCells')
    A = {'angles': arr('angles', 'vector<UINT>')}
    for n, t in (('hasChild', 'Mat3<bool>'), ('hasParent', 'Mat3<bool>')):
        A[n] = arr(n, t)
        dims(eng, st, A[n], nang(), nC, I(4))
    for n in ('nNeeded', 'priorities', 'nDependents'):
        A[n] = arr(n, 'Mat2<UINT>')
        dims(eng, st, A[n], nang(), nC)
    return A


def omega(a, c, f):
    return mapp('c_omegaDotN', ang(a), c, f)


def dependencies(cx):
    """which faces are outgoing / incoming"""
    eng, st = engine(cx)
    A = args(eng, st)
    st.mem[('A', 'hasParent', '#e')] = X.Const(T.FALSE)
    st, _ = cx.run(eng, 'calcDependencies', [A['angles'], A['hasChild'], A['hasParent']], st=st)
    a, c, f = uvar('a'), uvar('c'), uvar('f')
    hy = in_range((a, nang()), (c, gvar('g_nCells')), (f, I(4)))
    some = T.num(Fraction(1, 10 ** 8), 'R')
    near = lambda c, f: T.ne(mapp('c_adjProc', c, f), BOUNDARY)
    got = lambda n, *i: eng.read(content(st, eng, A[n], 'B'), i, st)
    zero = T.num(0, 'R')
    for n, s in (('hasChild', 1), ('hasParent', -1)):
        w = omega(a, c, f) if s > 0 else T.neg(omega(a, c, f))
        g = got(n, a, c, f)
        cx.prove(n + ': set for every neighbour on that side of the face', g, hy + [T.lt(some, w), near(c, f)], eng)
        cx.prove(n + ': set only on that side', T.lt(zero, w), hy + [g], eng)
        cx.prove(n + ': set only where there is a neighbour', near(c, f), hy + [g], eng)
    c2, f2 = uvar('c2'), uvar('f2')
    h2 = hy + in_range((c2, gvar('g_nCells')), (f2, I(4))) + [T.eq(omega(a, c2, f2), T.neg(omega(a, c, f))), near(c, f), near(c2, f2)]
    iff(cx, eng, 'the two sides of a face agree', got('hasChild', a, c, f), got('hasParent', a, c2, f2), h2)
    cx.discharge(eng)


def child(n, a, c, f):
    return T.app('A.%s.#e' % n, (a, c, f if isinstance(f, T.E) else I(f)), 'B')


def counts(cx):
    """the number of neighbours a task waits for"""
    eng, st = engine(cx)
    A = args(eng, st)
    st.mem[('A', 'nDependents', '#e')] = X.Const(I(0))
    st, _ = cx.run(eng, 'calcNumDependents', [nang(), A['hasChild'], A['nDependents']], st=st)
    a, c = uvar('a'), uvar('c')
    hy = in_range((a, nang()), (c, gvar('g_nCells')))
    cx.prove('count', T.eq(eng.read(content(st, eng, A['nDependents'], 'I'), (a, c), st), total(b2i(child('hasChild', a, c, f)) for f in Q)), hy, eng)
    cx.discharge(eng)


class Queue(object):
    """the tasks that are ready: what is put in is proved; what is taken out is one of them"""

    def op(self, e, obj, name, args, st, n):
        if name in ('size', 'empty'):
            s = e.nonneg_fresh('qsize')
            e.events.append(Ev('qsize', q=obj, pc=st.pc, val=s))
            return s if name == 'size' else T.eq(s, I(0))
        if name == 'top':
            l = e.temp('top', ptype('PriorityWork'))
            for f in ('c_cell', 'c_angle', 'c_priority'):
                T.NONNEG.add('top.' + f)
                st.mem[l.path + (f,)] = T.app('top.' + f, tuple(e.loop_vars), 'I')
            e.events.append(Ev('top', q=obj, pc=st.pc))
            return l
        if name == 'pop':
            e.events.append(Ev('pop', q=obj, pc=st.pc))
            return None
        if name in ('push', 'emplace'):
            if name == 'emplace' and len(args) == 3:
                c, a = (x if isinstance(x, T.E) else e.load(x, st) for x in (e.ev(y, st) for y in args[:2]))
            else:
                t = e.lv(args[0], st, allow_rvalue=True)
                c, a = (e.load(Loc(t.path + (f,), t.idx, ptype('UINT')), st) for f in ('c_cell', 'c_angle'))
            e.events.append(Ev('push', q=obj, pc=st.pc, cell=c, angle=a, st=st.copy()))
            return None
        raise Unsupported('priority_queue::' + name)


def queue(eng, name='ready'):
    eng.queue_hook = Queue()
    eng.axioms.add('top.c_cell', lambda i: [T.lt(T.app('top.c_cell', i, 'I'), gvar('g_nCells'))])
    eng.axioms.add('top.c_angle', lambda i: [T.lt(T.app('top.c_angle', i, 'I'), nang())])
    return arr(name, 'std::priority_queue<PriorityWork>')


def own(lv):
    return [e for e in lv.evs if not any(e in c.evs for c in lv.children)]


def cover(cx, eng, w, lv, addr, ds, what):
    """the nest around lv runs over all index tuples addr in [0,d)"""
    ch = chain(w, lv)
    if len(ch) != len(addr):
        raise Unsupported(what + ': nest')
    for a, d in zip(addr, ds):
        l = one((x for x in ch if x.count is not None and x.sym is a), what + ': index')
        hy = [c for x in ch if x is not l for c in (in_loop(x) if x.count is not None else [])]
        cx.prove('%s: from the first' % what, T.eq(l.start, I(0)), hy, eng)
        cx.prove('%s: to the last' % what, T.eq(l.bound, d), hy, eng)


def initial(cx):
    """the tasks that are ready at the start"""
    eng, st = engine(cx)
    A = args(eng, st)
    q = queue(eng)
    w = Walk(eng, lambda p: False, ['push'])
    st, _ = cx.run(eng, 'initializeWorkQ', [nang(), A['nNeeded'], A['priorities'], q], st=st)
    w.close()
    lv = one((l for l in w.levels if any(e.name == 'push' for e in own(l))), 'loop that fills the queue')
    e = one((x for x in own(lv) if x.name == 'push'), 'push')
    cover(cx, eng, w, lv, (e.angle, e.cell), (nang(), gvar('g_nCells')), 'every task is considered')
    hy = [x for l in chain(w, lv) for x in in_loop(l)]
    iff(cx, eng, 'ready at the start exactly when nothing is awaited', e.pc, T.eq(T.app('A.nNeeded.#e', (e.angle, e.cell), 'I'), I(0)), hy)
    cx.decide('put into the queue that was passed', e.q.path == q.path, 'normal-form')
    cx.discharge(eng)


def step(cx):
    """what a step takes from the ready queue, and what becomes ready by it"""
    eng, st = engine(cx)
    A = args(eng, st)
    q = queue(eng)
    done = arr('workDone', 'vector<SweepSchedule::Work>')
    most = uvar('most')
    watch = lambda p: p[:2] in (('A', 'nNeeded'), ('A', 'workDone'))
    w = Walk(eng, watch, ['push', 'pop', 'top'])
    st, _ = cx.run(eng, 'partialTopoSort', [q, A['nNeeded'], A['hasChild'], A['priorities'], most, A['angles'], done], st=st)
    w.close()
    lv = one((l for l in w.levels if any(e.name == 'pop' for e in own(l))), 'loop that takes work')
    h, evs = lv.head, own(lv)
    base = T.and_(h.head.pc, h.cond_t)
    names = [e.name for e in evs]
    for n in ('top', 'pop'):
        if names.count(n) != 1:
            raise Unsupported('%s in a turn: %d' % (n, names.count(n)))
    if any(e.q.path != q.path for e in evs if e.name in ('top', 'pop', 'push', 'qsize')):
        raise Unsupported('another queue')
    cx.decide('the task that was looked at is the one removed', names.index('top') < names.index('pop') and 'push' not in names[names.index('top'):names.index('pop')], 'event order', names)
    for n in ('top', 'pop'):
        cx.prove('every turn has its ' + n, evs[names.index(n)].pc, [base], eng)
    qs = [e for e in evs if e.name == 'qsize']
    cx.prove('a task is taken only when there is one', T.or_(*[T.lt(I(0), e.val) for e in qs]) if qs else T.FALSE, [base], eng)
    cell, an = (T.app(n, (h.t,), 'I') for n in ('top.c_cell', 'top.c_angle'))
    n0, n1 = (x.mem[('A', 'workDone', '#n')] for x in (h.head, h.after))
    cx.prove('a turn adds one task', T.eq(n1, T.add(n0, I(1))), [base], eng)
    cx.prove('no more tasks than allowed', T.le(n1, most), [base], eng)
    cx.prove('goes on while there is work and room', h.cond_t, [h.head.pc, T.lt(n0, most)] + [T.lt(I(0), e.val) for e in qs], eng)
    i = uvar('i')
    for k, v in (('c_cell', cell), ('c_angle', ang(an))):
        c0, c1 = (x.mem[('A', 'workDone', '#e', k)] for x in (h.head, h.after))
        cx.prove('the task added is the one taken: ' + k, T.eq(eng.read(c1, (n0,), st), v), [base], eng)
        cx.prove('the tasks before it are kept: ' + k, T.eq(eng.read(c1, (i,), st), eng.read(c0, (i,), st)), [base, T.lt(i, n0)], eng)
    x, b = uvar('x'), uvar('b')
    c0, c1 = (y.mem[('A', 'nNeeded', '#e')] for y in (h.head, h.after))
    adj = [mapp('c_adjCell', cell, f) for f in Q]
    gives = [T.and_(child('hasChild', an, cell, f), T.ne(adj[f], BOUNDARY)) for f in Q]
    dec = lambda y: total(b2i(T.and_(gives[f], T.eq(adj[f], y))) for f in Q)
    inv = [T.ge(eng.read(c0, (an, adj[f]), st), dec(adj[f])) for f in Q] + [T.ge(eng.read(c0, (b, x), st), T.ite(T.eq(b, an), dec(x), I(0)))]
    hx = [base] + inv + in_range((x, gvar('g_nCells')), (b, nang()))
    cx.prove('counts fall by the faces that pass data on', T.eq(eng.read(c1, (b, x), st), T.sub(eng.read(c0, (b, x), st), T.ite(T.eq(b, an), dec(x), I(0)))), hx, eng)
    ps = [e for e in evs if e.name == 'push']
    cnt = total(b2i(T.and_(e.pc, T.eq(e.cell, x), T.eq(e.angle, b))) for e in ps)
    cx.prove('ready exactly when the last awaited neighbour is done, once', T.eq(cnt, b2i(T.and_(T.eq(b, an), T.lt(I(0), dec(x)), T.eq(eng.read(c1, (b, x), st), I(0))))), hx, eng)
    for e in ps:
        cx.prove('what becomes ready is a task of this rank', T.and_(T.lt(e.cell, gvar('g_nCells')), T.eq(e.angle, an)), [base, e.pc], eng)
    cx.discharge(eng, inv[:4])


def position(cx):
    """the position of a direction in the list of the schedule"""
    eng, st = engine(cx)
    A = args(eng, st)
    k = uvar('k')
    st.pc = T.and_(st.pc, T.lt(k, nang()))
    j = uvar('j')
    st, r = cx.run(eng, 'glAngle', [A['angles'], ang(k)], st=st)
    cx.prove('found', T.lt(r, nang()), [st.pc], eng)
    cx.prove('the direction asked for', T.eq(ang(r), ang(k)), [st.pc], eng)
    cx.discharge(eng)


def work(eng, st):
    """the tasks of a step: cells of this rank, directions of the schedule"""
    w = arr('workDone', 'vector<SweepSchedule::Work>')
    Wc, Wa = (lambda i, n=n: T.app(n, (i,), 'I') for n in ('task.cell', 'task.angle'))
    T.NONNEG.update(('task.cell', 'task.angle'))
    st.mem[w.path + ('#n',)] = uvar('nDone')
    st.mem[w.path + ('#e', 'c_cell')] = Fn(lambda ix: Wc(*ix), 'I', 1)
    st.mem[w.path + ('#e', 'c_angle')] = Fn(lambda ix: ang(Wa(*ix)), 'I', 1)
    eng.axioms.add('task.cell', lambda i: [T.lt(Wc(*i), gvar('g_nCells'))])
    eng.axioms.add('task.angle', lambda i: [T.lt(Wa(*i), nang())])

    def where(e, this, a, s):
        v = a[1]
        if not (isinstance(v, T.E) and v.op == 'app' and v.info == 'A.angles.#e'):
            raise Unsupported('position of %s' % str(v)[:80])
        return v.args[0]
    eng.contracts['glAngle'] = where
    return w, Wc, Wa


def ranks(eng, st):
    T.NONNEG.add('neighbour')
    eng.set_hook = Neighbours()
    eng.contracts['Comm::numRanks'] = lambda e, t, a, s: uvar('numRanks')
    eng.contracts['Comm::rank'] = lambda e, t, a, s: uvar('rank')
    eng.axioms.add('neighbour', lambda i: [T.lt(T.app('neighbour', i, 'I'), uvar('numRanks'))])
    n = '.'.join(MESH + ('c_adjProc', '#e'))
    eng.axioms.add(n, lambda i: [T.or_(T.lt(T.app(n, i, 'I'), uvar('numRanks')), T.eq(T.app(n, i, 'I'), BOUNDARY))])
    T.NONNEG.add('.'.join(MESH + ('c_lGSides', '#e')))
    st.mem[MESH + ('c_lGSides', 'c_xlen')] = T.var('.'.join(MESH + ('c_nSides',)), 'I')
    return arr('neighborProcs', 'std::set<UINT>')


class Neighbours(object):
    def size(self, e, o, st):
        return uvar('nNeighbours')

    def elem(self, e, o, i, st):
        return T.app('neighbour', (i,), 'I')

    def insert(self, e, o, k, st):
        e.events.append(Ev('insert', set=o, key=k, pc=st.pc))


def becomes_step(cx, eng, st, P, S, lv):
    """the list S as the loop lv leaves it is appended to the plan P, whose earlier steps stay"""
    i, kk, k = uvar('i'), uvar('kk'), T.var('.'.join(P) + '.#n', 'I')
    cx.prove('the list becomes the next step of the plan', T.eq(st.mem[P + ('#n',)], T.add(k, I(1))), [], eng)
    cx.prove('the list becomes the next step of the plan: length', T.eq(eng.read(st.mem[P + ('#e', '#n')], (k,), st), lv.exit.mem[S + ('#n',)]), [], eng)
    cx.prove('the list becomes the next step of the plan: ranks', T.eq(eng.read(st.mem[P + ('#e', '#e')], (k, i), st), eng.read(lv.exit.mem[S + ('#e',)], (i,), st)), [], eng)
    old = lambda p, *ix: eng.read(eng.default(p, len(ix), ptype('UINT')), ix, st)
    now = lambda p, *ix: eng.read(st.mem[p], ix, st)
    cx.prove('earlier steps of the plan are kept', T.and_(T.eq(now(P + ('#e', '#n'), kk), old(P + ('#e', '#n'), kk)), T.eq(now(P + ('#e', '#e'), kk, i), old(P + ('#e', '#e'), kk, i))), [T.lt(kk, k)], eng)


def listed(cx, eng, w, pack, st, D, plan):
    """the list of ranks sent to in a step"""
    i = uvar('i')
    lst = one((l for l in w.levels if l is not pack), 'loop that lists the ranks')
    g = lst.head
    cx.prove('every neighbour: from the first', T.eq(lst.start, I(0)), [], eng)
    cx.prove('every neighbour: to the last', T.eq(lst.bound, uvar('nNeighbours')), [], eng)
    S = one((p[:-1] for p in g.mod if p[-1] == '#n'), 'list of ranks')
    sz = T.app('neighbour', (lst.sym,), 'I')
    some = T.le(I(2), eng.read(g.head.mem[D[:-1] + ('#n',)], (sz,), st))
    m0, m1 = g.head.mem[S + ('#n',)], g.after.mem[S + ('#n',)]
    b2 = [g.head.pc, g.cond_t] + in_loop(lst)
    cx.prove('the list starts empty', T.eq(g.st0.mem[S + ('#n',)], I(0)), [], eng)
    cx.prove('a rank is listed exactly when there is something for it', T.eq(m1, T.add(m0, b2i(some))), b2, eng)
    cx.prove('the rank listed', T.eq(eng.read(g.after.mem[S + ('#e',)], (m0,), st), sz), b2 + [some], eng)
    cx.prove('the ranks listed before it are kept', T.eq(eng.read(g.after.mem[S + ('#e',)], (i,), st), eng.read(g.head.mem[S + ('#e',)], (i,), st)), b2 + [T.lt(i, m0)], eng)
    becomes_step(cx, eng, st, plan.path, S, lst)


def send_orders(cx):
    """what a step sends"""
    send(cx, 'sendOrders', 'hasChild', 2)


def send_levels(cx):
    """what a step of the levels sends"""
    send(cx, 'sendLevels', 'hasParent', 3)


def send(cx, name, dep, width):
    eng, st = engine(cx)
    A = args(eng, st)
    wk, Wc, Wa = work(eng, st)
    nb = ranks(eng, st)
    proto = arr('data', 'vector<vector<UINT>>')
    st.mem[proto.path + ('#n',)] = I(0)
    num, req, plan = arr('numEntries', 'vector<vector<UINT>>'), arr('requests', 'vector<ompi_request_t *>'), arr('sendProcs', 'vector<vector<UINT>>')
    eng.contracts['iSendToNeighbors'] = lambda e, t, a, s: e.events.append(Ev('isend', args=a, pc=s.pc, st=s.copy()))
    watch = lambda p: p[:2] == ('A', 'data') or '#e' in p or '#n' in p
    w = Walk(eng, watch, ['isend'])
    cl = arr('cellLevels', 'Mat2<UINT>')
    dims(eng, st, cl, nang(), gvar('g_nCells'))
    st, _ = cx.run(eng, name, [wk, A['angles'], A[dep], nb, plan, proto, num, req] if width == 2 else [wk, A['angles'], cl, A[dep], nb, proto, num, req], st=st)
    w.close()
    D = ('A', 'data', '#e', '#e')
    pack = one((l for l in w.levels if D in l.head.mod and l.depth == 0), 'loop that packs')
    h = pack.head
    cx.prove('every task of the step: from the first', T.eq(pack.start, I(0)), [], eng)
    cx.prove('every task of the step: to the last', T.eq(pack.bound, uvar('nDone')), [], eng)
    n0, n1 = (x.mem[D[:-1] + ('#n',)] for x in (h.head, h.after))
    d0, d1 = h.head.mem[D], h.after.mem[D]
    r, i = uvar('r'), uvar('i')
    cx.prove('nothing is sent before the first task', T.eq(eng.read(h.st0.mem[D[:-1] + ('#n',)], (r,), st), I(0)), [T.lt(r, uvar('numRanks'))], eng)
    cell, an = Wc(pack.sym), Wa(pack.sym)
    base = [h.head.pc, h.cond_t] + in_loop(pack) + [T.lt(r, uvar('numRanks'))]
    to = [T.and_(child(dep, an, cell, f), T.eq(mapp('c_adjCell', cell, f), BOUNDARY), T.eq(mapp('c_adjProc', cell, f), r)) for f in Q]
    near = [T.implies(T.and_(child(dep, an, cell, f), T.eq(mapp('c_adjCell', cell, f), BOUNDARY)), T.ne(mapp('c_adjProc', cell, f), BOUNDARY)) for f in Q]
    size = eng.read(n0, (r,), st)
    rd = lambda k: eng.read(d1, (r, k), st)
    cx.prove('one entry for each face of the task through which the other rank waits', T.eq(eng.read(n1, (r,), st), T.add(size, T.mul(I(width), total(b2i(x) for x in to)))), base + near, eng)
    cx.prove('entries of earlier tasks are kept', T.eq(rd(i), eng.read(d0, (r, i), st)), base + near + [T.lt(i, size)], eng)
    for f in Q:
        ent = [T.and_(T.lt(T.add(size, I(width * k)), eng.read(n1, (r,), st)), T.eq(rd(T.add(size, I(width * k))), mapp('c_lGSides', mapp('c_side', cell, f))), T.eq(rd(T.add(size, I(width * k + 1))), an)) for k in Q]
        cx.prove('face %d: its side and the direction are among the entries' % f, T.or_(*ent), base + near + [to[f]], eng)
    if width == 2:
        listed(cx, eng, w, pack, st, D, plan)
    x = one((e for e in eng.events if e.name == 'isend'), 'send')
    cx.prove('the data is always sent', x.pc, [], eng)
    cx.decide('what was packed is sent to the neighbours', [y.path if isinstance(y, Loc) else y for y in x.args] == [proto.path, I(width), nb.path, num.path, req.path], 'normal-form')
    cx.decide('nothing is added between packing and sending', all(x.st.mem[p] is pack.exit.mem[p] for p in (D, D[:-1] + ('#n',))), 'normal-form')
    cx.discharge(eng, near)


def exchange(cx):
    """how the entries travel"""
    eng, st = engine(cx)
    nb = ranks(eng, st)
    data, num, req = arr('data', 'vector<vector<UINT>>'), arr('numEntries', 'vector<vector<UINT>>'), arr('requests', 'vector<ompi_request_t *>')
    st.mem[data.path + ('#n',)] = uvar('numRanks')
    st.mem[num.path + ('#n',)] = I(0)
    width = uvar('width')
    st.pc = T.and_(st.pc, T.lt(I(0), width))

    def isend(e, t, a, s):
        v = a[0]
        if not isinstance(v, Loc) or not isinstance(a[3], Loc):
            raise Unsupported('arguments of the send')
        n = e.load(Loc(v.path + ('#n',), v.idx, ptype('size_t')), s)
        f = e.load(Loc(v.path + ('#e',), v.idx + (I(0),), ptype('UINT')), s)
        r = T.app(T.fresh_name('request'), tuple(e.loop_vars), 'I')
        e.store(a[3], r, s)
        e.events.append(Ev('isend', buf=v, n=n, first=f, dest=a[1], tag=a[2], req=r, pc=s.pc))
    eng.contracts['Comm::iSendUIntVector'] = isend
    w = Walk(eng, lambda p: p[:2] in (('A', 'requests'), ('A', 'numEntries')), ['isend'])
    st, _ = cx.run(eng, 'iSendToNeighbors', [data, width, nb, num, req], st=st)
    w.close()
    lv = one((l for l in w.levels if any(e.name == 'isend' for e in own(l))), 'loop over the neighbours')
    h = lv.head
    cx.prove('every neighbour: from the first', T.eq(lv.start, I(0)), [], eng)
    cx.prove('every neighbour: to the last', T.eq(lv.bound, uvar('nNeighbours')), [], eng)
    rank = T.app('neighbour', (lv.sym,), 'I')
    base = [h.head.pc, h.cond_t] + in_loop(lv)
    evs = own(lv)
    a, b = one((e for e in evs if e.name == 'isend' and e.buf.path[:2] == num.path), 'count sent'), one((e for e in evs if e.name == 'isend' and e.buf.path[:2] == data.path), 'entries sent')
    if len(evs) != 2:
        raise Unsupported('messages to a neighbour')
    size = eng.read(eng.default(data.path + ('#e', '#n'), 1, ptype('UINT')), (rank,), st)
    cnt = a.first
    hc = base + [T.eq(size, T.mul(width, uvar('m')))]
    cx.prove('the count goes to every neighbour', a.pc, base, eng)
    cx.prove('the count is one number', T.eq(a.n, I(1)), base, eng)
    cx.prove('the count sent is the number of entries', T.eq(cnt, uvar('m')), [T.eq(width, I(2))] + hc, eng)
    cx.prove('the count sent is the number of entries (levels)', T.eq(cnt, uvar('m')), [T.eq(width, I(3))] + hc, eng)
    iff(cx, eng, 'the entries follow exactly when there are some', b.pc, T.lt(I(0), cnt), base)
    for x, n in ((a, 'count'), (b, 'entries')):
        cx.prove('the %s: destination' % n, T.eq(x.dest, rank), base, eng)
        cx.prove('the %s: buffer of that rank' % n, T.eq(x.buf.idx[0], rank), base, eng)
    cx.prove('the entries are all sent', T.eq(b.n, size), base, eng)
    r = uvar('r')
    N, E = num.path + ('#e', '#n'), num.path + ('#e', '#e')
    other = base + [T.ne(r, rank), T.lt(r, uvar('numRanks'))]
    cx.prove('buffers of other ranks are left alone: length', T.eq(eng.read(h.after.mem[N], (r,), st), eng.read(h.head.mem[N], (r,), st)), other, eng)
    i = uvar('i')
    cx.prove('buffers of other ranks are left alone', T.eq(eng.read(h.after.mem[E], (r, i), st), eng.read(h.head.mem[E], (r, i), st)), other, eng)
    n0, n1 = (y.mem[req.path + ('#n',)] for y in (h.head, h.after))
    q1 = h.after.mem[req.path + ('#e',)]
    for x, n in ((a, 'count'), (b, 'entries')):
        cx.prove('the request of the %s is kept for the wait' % n, T.or_(*[T.and_(T.lt(T.add(n0, I(k)), n1), T.eq(eng.read(q1, (T.add(n0, I(k)),), st), x.req)) for k in (0, 1)]), base + [x.pc], eng)
    cx.prove('earlier requests are kept', T.eq(eng.read(q1, (i,), st), eng.read(h.head.mem[req.path + ('#e',)], (i,), st)), base + [T.lt(i, n0)], eng)
    cx.decide('no buffer is reallocated while a send is under way', not any(p[:2] == data.path or p == num.path + ('#n',) for p in h.mod), 'frame')
    cx.discharge(eng)
    return a.tag, b.tag


def receive_orders(cx):
    """what a step receives"""
    return receive(cx, 'recvOrders', 2)


def receive_levels(cx):
    """what a step of the levels receives"""
    return receive(cx, 'recvLevels', 3)


def receive(cx, name, width):
    eng, st = engine(cx)
    A = args(eng, st)
    nb, q, plan = ranks(eng, st), queue(eng), arr('recvProcs', 'vector<vector<UINT>>')
    eng.map_hook = Maps()
    eng.axioms.add('map.c_gLSides.has', lambda i: [T.app('map.c_gLSides.has', i, 'B')])
    side = lambda i: T.lt(T.app('map.c_gLSides', i, 'I'), T.var('.'.join(MESH + ('c_nSides',)), 'I'))
    T.NONNEG.update(('map.c_gLSides', 'sent.n', 'sent', '.'.join(MESH + ('c_sideCell', '#e'))))
    eng.axioms.add('map.c_gLSides', lambda i: [side(i)])
    sc = '.'.join(MESH + ('c_sideCell', '#e'))
    eng.axioms.add(sc, lambda i: [T.lt(T.app(sc, i, 'I'), gvar('g_nCells'))])
    st.mem[MESH + ('c_sideCell', 'c_xlen')] = T.var('.'.join(MESH + ('c_nSides',)), 'I')

    def recv(e, t, a, s):
        v = a[0]
        if not isinstance(v, Loc) or v.idx or len(a) != 3:
            raise Unsupported('arguments of the receive')
        n = e.load(Loc(v.path + ('#n',), v.idx, ptype('size_t')), s)
        one_ = n.op == 'num'
        e.note_write(v.path + ('#e',))
        src = a[1]
        s.mem[v.path + ('#e',)] = Fn(lambda ix: T.app('sent.n', (src,), 'I'), 'I', 1) if one_ else Fn(lambda ix: T.app('sent', (src,) + tuple(ix), 'I'), 'I', 1)
        e.events.append(Ev('recv', n=n, src=src, tag=a[2], pc=s.pc, count=one_))
    eng.contracts['Comm::recvUIntVector'] = recv
    w = Walk(eng, lambda p: p[:2] in (('A', 'nNeeded'),), ['recv', 'push'])
    cl, sl = arr('cellLevels', 'Mat2<UINT>'), arr('sideLevels', 'Mat2<UINT>')
    dims(eng, st, cl, nang(), gvar('g_nCells'))
    dims(eng, st, sl, nang(), T.var('.'.join(MESH + ('c_nSides',)), 'I'))
    st, _ = cx.run(eng, name, [q, A['priorities'], A['nNeeded'], nb, plan] if width == 2 else [cl, sl, q, A['priorities'], A['nNeeded'], nb], st=st)
    w.close()
    out = one((l for l in w.levels if any(e.name == 'recv' for e in own(l))), 'loop over the neighbours')
    h = out.head
    cx.prove('every neighbour: from the first', T.eq(out.start, I(0)), [], eng)
    cx.prove('every neighbour: to the last', T.eq(out.bound, uvar('nNeighbours')), [], eng)
    rank = T.app('neighbour', (out.sym,), 'I')
    base = [h.head.pc, h.cond_t] + in_loop(out)
    evs = [e for e in own(out) if e.name == 'recv']
    if len(evs) != 2 or not evs[0].count or evs[1].count:
        raise Unsupported('messages of a neighbour')
    a, b = evs
    m = T.app('sent.n', (rank,), 'I')
    cx.prove('the count of every neighbour is received', a.pc, base, eng)
    cx.prove('the count is one number', T.eq(a.n, I(1)), base, eng)
    iff(cx, eng, 'entries are received exactly when there are some', b.pc, T.lt(I(0), m), base)
    cx.prove('as many as are sent', T.eq(b.n, T.mul(I(width), m)), base, eng)
    for x, n in ((a, 'count'), (b, 'entries')):
        cx.prove('the %s: source' % n, T.eq(x.src, rank), base, eng)
    lv = one((l for l in w.levels if any(e.name == 'push' for e in own(l))), 'loop over the entries')
    if chain(w, lv) != [lv, out]:
        raise Unsupported('nesting of the receive loops')
    g = lv.head
    cx.prove('every entry: from the first', T.eq(lv.start, I(0)), base, eng)
    cx.prove('every entry: to the last', T.eq(lv.bound, m), base, eng)
    hy = base + [g.head.pc, g.cond_t] + in_loop(lv)
    iff(cx, eng, 'entries are looked at when there are some', g.st0.pc, T.lt(I(0), m), base)
    rd = lambda k: T.app('sent', (rank, T.add(T.mul(I(width), lv.sym), I(k))), 'I')
    an, cell = rd(1), T.app(sc, (T.app('map.c_gLSides', (rd(0),), 'I'),), 'I')
    c0, c1 = (y.mem[('A', 'nNeeded', '#e')] for y in (g.head, g.after))
    hy += [T.lt(an, nang()), T.le(I(1), eng.read(c0, (an, cell), st))]
    x, y = uvar('x'), uvar('b')
    hit = T.and_(T.eq(x, cell), T.eq(y, an))
    hx = hy + in_range((x, gvar('g_nCells')), (y, nang()))
    cx.prove('the count of the cell behind the side falls by one', T.eq(eng.read(c1, (y, x), st), T.sub(eng.read(c0, (y, x), st), b2i(hit))), hx, eng)
    ps = [e for e in own(lv) if e.name == 'push']
    if any(e.q.path != q.path for e in ps):
        raise Unsupported('another queue')
    cnt = total(b2i(T.and_(e.pc, T.eq(e.cell, x), T.eq(e.angle, y))) for e in ps)
    cx.prove('ready exactly when the last awaited neighbour is done, once', T.eq(cnt, b2i(T.and_(hit, T.eq(eng.read(c1, (y, x), st), I(0))))), hx, eng)
    for e in ps:
        cx.prove('what becomes ready is a task of this rank', T.and_(T.lt(e.cell, gvar('g_nCells')), T.lt(e.angle, nang())), hy + [e.pc], eng)
    cx.discharge(eng, hy[-2:])
    if width == 3:
        return a.tag, b.tag
    S = one((p[:-1] for p in h.mod if p[-1] == '#n' and p[0] != 'A'), 'list of ranks')
    i, m0, m1 = uvar('i'), h.head.mem[S + ('#n',)], h.after.mem[S + ('#n',)]
    cx.prove('the list starts empty', T.eq(h.st0.mem[S + ('#n',)], I(0)), [], eng)
    cx.prove('a rank is listed exactly when something comes from it', T.eq(m1, T.add(m0, b2i(T.lt(I(0), m)))), base, eng)
    cx.prove('the rank listed', T.eq(eng.read(h.after.mem[S + ('#e',)], (m0,), st), rank), base + [T.lt(I(0), m)], eng)
    cx.prove('the ranks listed before it are kept', T.eq(eng.read(h.after.mem[S + ('#e',)], (i,), st), eng.read(h.head.mem[S + ('#e',)], (i,), st)), base + [T.lt(i, m0)], eng)
    becomes_step(cx, eng, st, plan.path, S, out)
    return a.tag, b.tag


def everyone(cx):
    """the end is reached by all ranks together"""
    eng, st = engine(cx)
    q = queue(eng)
    seen = []

    def gmax(e, t, a, s):
        l = a[0]
        if not isinstance(l, Loc):
            raise Unsupported('gmax')
        seen.append(e.load(l, s))
        e.store(l, uvar('most'), s)
    eng.contracts['Comm::gmax'] = gmax
    st, r = cx.run(eng, 'allDone', [q], st=st)
    if len(seen) != 1:
        raise Unsupported('%d reductions' % len(seen))
    qs = one((e for e in eng.events if e.name == 'qsize'), 'look at the queue')
    mine = lambda n: T.subst(seen[0], {qs.val: n})
    n, most = uvar('n'), uvar('most')
    k = uvar('k')
    cx.prove('not done while a rank has work', T.not_(T.subst(r, {most: mine(k)})), [T.lt(I(0), n), T.le(mine(n), mine(k))], eng)
    cx.prove('done when no rank has work', T.subst(r, {most: mine(I(0))}), [], eng)
    cx.decide('the queue that was passed', qs.q.path == q.path, 'normal-form')
    cx.discharge(eng)


def recorder(name, sent=None):
    """contract of a function of a step: what it may change is arbitrary afterwards"""
    def f(e, t, a, s):
        e.events.append(Ev(name, args=a, pc=s.pc, st=s.copy()))
        lv = tuple(e.loop_vars)
        if name == 'topo':
            d = a[6]
            for p, v in ((('#n',), T.app('step.n', lv, 'I')), (('#e', 'c_cell'), Fn(lambda ix: T.app('step.cell', lv + tuple(ix), 'I'), 'I', 1)), (('#e', 'c_angle'), Fn(lambda ix: T.app('step.angle', lv + tuple(ix), 'I'), 'I', 1))):
                e.note_write(d.path + p)
                s.mem[d.path + p] = v
        if name == 'send':
            e.note_write(a[sent].path + ('#n',))
            s.mem[a[sent].path + ('#n',)] = T.app('requests.n', lv, 'I')
        if name == 'done':
            return T.var('done', 'B')
        return None
    return f


STEP = (('calcNumDependents', 'count'), ('initializeWorkQ', 'init'), ('allDone', 'done'), ('partialTopoSort', 'topo'), ('MPI_Waitall', 'wait'), ('sendOrders', 'send'), ('recvOrders', 'recv'), ('sendLevels', 'send'), ('recvLevels', 'recv'),
        ('updateLevels', 'update'))
P = lambda x: x.path if isinstance(x, Loc) else x


def install(eng):
    T.NONNEG.update(('step.n', 'step.cell', 'step.angle', 'requests.n'))
    for n, k in STEP:
        eng.contracts[n] = recorder(k, 7)
    eng.contracts['Comm::gmax'] = lambda e, t, a, s: None
    eng.contracts['Comm::gsum'] = lambda e, t, a, s: None


def steps(cx, eng, w, A, most, nb, awaited, given, prio=None):
    """the loop over the steps: counts of what is awaited, work taken, exchanged, waited for, on every rank alike"""
    lv = one(w.levels, 'loop over the steps')
    h = lv.head
    before = [e for e in eng.events if e not in lv.evs]
    cnt, ini = one((e for e in before if e.name == 'count'), 'count of what is awaited'), one((e for e in before if e.name == 'init'), 'initial queue')
    need = cnt.args[2]
    if not isinstance(need, Loc):
        raise Unsupported('counts')
    cx.decide('what is awaited is counted', [P(x) for x in cnt.args[:2]] == [nang(), awaited.path], 'normal-form')
    a, c = uvar('a'), uvar('c')
    hy = in_range((a, nang()), (c, gvar('g_nCells')))
    cx.prove('the count starts from zero', T.eq(eng.read(content(cnt.st, eng, need, 'I'), (a, c), cnt.st), I(0)), hy, eng)
    for f, d in (('c_xlen', nang()), ('c_ylen', gvar('g_nCells'))):
        cx.prove('a count for every task', T.eq(cnt.st.mem[need.path + (f,)], d), [], eng)
        cx.prove('a priority for every task', T.eq(ini.st.mem[P(ini.args[2]) + (f,)], d), [], eng)
    ready = P(ini.args[3])
    cx.decide('the queue starts from these counts', before.index(cnt) < before.index(ini) and [P(x) for x in ini.args[:2]] == [nang(), need.path], 'normal-form')
    if prio is not None:
        cx.decide('the priorities are the ones calculated', P(ini.args[2]) == prio.path, 'normal-form')
    base = [h.head.pc, h.cond_t]
    own_ = own(lv)
    d = one((e for e in own_ if e.name == 'done'), 'end of the schedule')
    cx.decide('asked of the same queue', P(d.args[0]) == ready, 'normal-form')
    iff(cx, eng, 'the steps go on exactly while a rank has work', h.cond_t, T.not_(T.var('done', 'B')), [h.head.pc])
    topo, snd_, rcv_, wait = (one((e for e in own_ if e.name == n), n) for n in ('topo', 'send', 'recv', 'wait'))
    names = [e.name for e in own_]
    if [n for n in names if n in ('topo', 'send', 'recv', 'wait')] != ['topo', 'send', 'recv', 'wait']:
        raise Unsupported('order of a step')
    for e in (topo, snd_, rcv_, wait):
        cx.prove('every step has its %s on every rank' % e.name, e.pc, base, eng)
    done = P(topo.args[6])
    cx.decide('the work is taken from the queue, for the directions of the schedule', [P(x) for x in topo.args[:5]] == [ready, need.path, given.path, P(ini.args[2]), most], 'normal-form')
    directions(cx, eng, A, base, topo.args[5], topo.st)
    cx.prove('a step starts empty', T.eq(topo.st.mem[done + ('#n',)], I(0)), base, eng)
    i = uvar('i')
    for p, ix in ((('#n',), ()), (('#e', 'c_cell'), (i,)), (('#e', 'c_angle'), (i,))):
        v = T.app('step.' + p[-1].replace('c_', '').replace('#', ''), (h.t,) + ix, 'I')
        s = snd_.st.mem[done + p]
        cx.prove('what was taken is what is sent: ' + p[-1], T.eq(s if isinstance(s, T.E) else eng.read(s, ix, st_(eng)), v), base, eng)
    for x in (5, 6):
        cx.prove('nothing is left of the messages of the step before', T.eq(snd_.st.mem[P(snd_.args[x]) + ('#n',)], I(0)), base, eng)
    cx.prove('no requests are left of the step before', T.eq(snd_.st.mem[P(snd_.args[7]) + ('#n',)], I(0)), base, eng)
    cx.prove('all sends are waited for', T.eq(wait.args[0], T.app('requests.n', (h.t,), 'I')), base, eng)
    cx.decide('the requests of the step', isinstance(wait.args[1], Ptr) and wait.args[1].path == P(snd_.args[7]) + ('#e',) and wait.args[1].off == I(0), 'normal-form')
    return lv, base, ready, need.path, P(ini.args[2]), done, snd_, rcv_


def directions(cx, eng, A, base, v, st):
    """v is the list of directions, or a copy of it"""
    if P(v) == A['angles'].path:
        return
    k = uvar('k')
    cx.prove('a copy of the directions: length', T.eq(st.mem[P(v) + ('#n',)], nang()), base, eng)
    cx.prove('a copy of the directions', T.eq(eng.read(st.mem[P(v) + ('#e',)], (k,), st), ang(k)), base, eng)


def st_(eng):
    return State()


def ordering(cx):
    """the steps of the schedule"""
    eng, st = engine(cx)
    A = args(eng, st)
    queue(eng)
    nb = ranks(eng, st)
    orders, snd, rcv = arr('workOrders', 'vector<vector<SweepSchedule::Work>>'), arr('sendProcs', 'vector<vector<UINT>>'), arr('recvProcs', 'vector<vector<UINT>>')
    most = uvar('most')
    install(eng)
    w = Walk(eng, lambda p: p[:2] == ('A', 'workOrders'), ['topo', 'send', 'recv', 'wait'])
    st, _ = cx.run(eng, 'calcOrdering', [A['hasChild'], A['hasParent'], A['priorities'], nb, nang(), most, A['angles'], orders, snd, rcv], st=st)
    w.close()
    lv, base, ready, need, prio, done, snd_, rcv_ = steps(cx, eng, w, A, most, nb, A['hasParent'], A['hasChild'], A['priorities'])
    h = lv.head
    O = orders.path
    n0, n1 = (x.mem[O + ('#n',)] for x in (h.head, h.after))
    i, k = uvar('i'), uvar('k')
    cx.prove('a step is added to the schedule', T.eq(n1, T.add(n0, I(1))), base, eng)
    for p, ix in ((('#e', '#n'), ()), (('#e', '#e', 'c_cell'), (i,)), (('#e', '#e', 'c_angle'), (i,))):
        now, was = h.after.mem[O + p], h.head.mem[O + p]
        v = T.app('step.' + p[-1].replace('c_', '').replace('#', ''), (h.t,) + ix, 'I')
        cx.prove('it holds the work that was taken: ' + p[-1], T.eq(eng.read(now, (n0,) + ix, st), v), base, eng)
        cx.prove('earlier steps are kept: ' + p[-1], T.eq(eng.read(now, (k,) + ix, st), eng.read(was, (k,) + ix, st)), base + [T.lt(k, n0)], eng)
    cx.decide('sent to the neighbours, and planned', [P(snd_.args[x]) for x in (0, 2, 3, 4)] == [done, A['hasChild'].path, nb.path, snd.path], 'normal-form')
    directions(cx, eng, A, base, snd_.args[1], snd_.st)
    cx.decide('received from the neighbours, and planned', [P(x) for x in rcv_.args] == [ready, prio, need, nb.path, rcv.path], 'normal-form')
    cx.discharge(eng, kinds=('index', 'sub'))


def levels(cx):
    """the steps in which levels are found: the same, against the direction"""
    eng, st = engine(cx)
    A = args(eng, st)
    queue(eng)
    nb = ranks(eng, st)
    cl, sl = arr('cellLevels', 'Mat2<UINT>'), arr('sideLevels', 'Mat2<UINT>')
    nS = T.var('.'.join(MESH + ('c_nSides',)), 'I')
    dims(eng, st, cl, nang(), gvar('g_nCells'))
    dims(eng, st, sl, nang(), nS)
    most = uvar('most')
    install(eng)
    w = Walk(eng, lambda p: False, ['topo', 'send', 'recv', 'wait'])
    st, _ = cx.run(eng, 'calcLevels', [cl, sl, A['hasChild'], A['hasParent'], nb, A['angles'], nang(), most], st=st)
    w.close()
    lv, base, ready, need, prio, done, snd_, rcv_ = steps(cx, eng, w, A, most, nb, A['hasChild'], A['hasParent'])
    cx.decide('sent to the neighbours', [P(snd_.args[x]) for x in (0, 2, 3, 4)] == [done, cl.path, A['hasParent'].path, nb.path], 'normal-form')
    directions(cx, eng, A, base, snd_.args[1], snd_.st)
    cx.decide('received from the neighbours', [P(x) for x in rcv_.args] == [cl.path, sl.path, ready, prio, need, nb.path], 'normal-form')
    cx.discharge(eng, kinds=('index', 'sub'))


def neighbours(cx):
    """the ranks exchanged with are those across a face"""
    eng, st = engine(cx)
    nb = ranks(eng, st)
    w = Walk(eng, lambda p: False, ['insert'])
    st, _ = cx.run(eng, 'calcNeighborProcs', [nb], st=st)
    w.close()
    lv = one((l for l in w.levels if any(e.name == 'insert' for e in own(l))), 'loop over the faces')
    ch = chain(w, lv)
    c = ch[-1].sym
    evs = [e for e in own(lv) if e.name == 'insert']
    cx.prove('every cell: from the first', T.eq(ch[-1].start, I(0)), [], eng)
    cx.prove('every cell: to the last', T.eq(ch[-1].bound, gvar('g_nCells')), [], eng)
    if len(ch) == 1 and len(evs) == 4:
        fs = [I(f) for f in Q]
    elif len(ch) == 2 and len(evs) == 1:
        fs = [ch[0].sym]
        cover(cx, eng, w, lv, (c, fs[0]), (gvar('g_nCells'), I(4)), 'every face')
    else:
        raise Unsupported('loop over the faces')
    hy = [ch[-1].head.head.pc, lv.head.head.pc] + [x for l in ch for x in in_loop(l)]
    for f, e in zip(fs, evs):
        iff(cx, eng, 'listed exactly when the neighbour is on another rank', e.pc, T.and_(T.eq(mapp('c_adjCell', c, f), BOUNDARY), T.ne(mapp('c_adjProc', c, f), BOUNDARY)), hy)
        cx.prove('the rank across the face', T.eq(e.key, mapp('c_adjProc', c, f)), hy + [e.pc], eng)
    cx.discharge(eng)


def dependents(cx):
    """priorities from the dependents: a sweep against the direction, on this rank alone"""
    eng, st = engine(cx)
    A = args(eng, st)
    queue(eng)
    ranks(eng, st)
    sl = arr('sideLevels', 'Mat2<UINT>')
    dims(eng, st, sl, nang(), T.var('.'.join(MESH + ('c_nSides',)), 'I'))
    install(eng)
    del eng.contracts['calcNumDependents']
    eng.contracts['updatePriorities'] = recorder('update')
    shift = T.var('parentShift', 'I')
    st.mem[('A', 'priorities', '#e')] = Base('A.priorities.#e', 'I')
    w = Walk(eng, lambda p: False, ['topo'])
    st, _ = cx.run(eng, 'neighborPriorities', [sl, A['hasChild'], A['hasParent'], A['angles'], uvar('scale'), uvar('shift'), shift, nang(), uvar('most'), A['priorities']], st=st)
    w.close()
    lv = one(w.levels, 'loop over the steps')
    h = lv.head
    ini, topo = one((e for e in eng.events if e.name == 'init'), 'initial queue'), one((e for e in own(lv) if e.name == 'topo'), 'work of a step')
    a, c = uvar('a'), uvar('c')
    hy = in_range((a, nang()), (c, gvar('g_nCells')))
    need = ini.args[1]
    here = total(b2i(T.and_(child('hasChild', a, c, f), T.or_(T.ne(mapp('c_adjCell', c, f), BOUNDARY), T.eq(mapp('c_adjProc', c, f), BOUNDARY)))) for f in Q)
    cx.prove('what is awaited are the dependents on this rank', T.eq(eng.read(content(ini.st, eng, need, 'I'), (a, c), ini.st), here), hy, eng)
    for f, d in (('c_xlen', nang()), ('c_ylen', gvar('g_nCells'))):
        cx.prove('a count for every task', T.eq(ini.st.mem[need.path + (f,)], d), [], eng)
        cx.prove('a priority for every task', T.eq(ini.st.mem[P(ini.args[2]) + (f,)], d), [], eng)
    cx.decide('the queue starts from these counts', P(ini.args[0]) == nang(), 'normal-form')
    base = [h.head.pc, h.cond_t]
    cx.decide('the work is taken from the queue, against the direction', [P(x) for x in topo.args[:6]] == [P(ini.args[3]), need.path, A['hasParent'].path, P(ini.args[2]), uvar('most'), A['angles'].path], 'normal-form')
    cx.prove('a step starts empty', T.eq(topo.st.mem[P(topo.args[6]) + ('#n',)], I(0)), base, eng)
    ct = one((hs for hs in h.hsym if T.atoms_of(h.cond_t, lambda y: y is hs)), 'number of tasks done')
    n = h.hsym[ct]
    N = T.mul(nang(), gvar('g_nCells'))
    up = h.st0.mem[n] is I(0)
    if not up and h.st0.mem[n] is not N:
        raise Unsupported('number of tasks done')
    left = (lambda x: T.sub(N, x)) if up else (lambda x: x)
    cx.prove('the number of tasks done', T.eq(left(h.after.mem[n]), T.sub(left(ct), T.app('step.n', (h.t,), 'I'))), base, eng)
    cx.prove('it goes on until all tasks are done', T.eq(left(ct), I(0)), [h.head.pc, T.not_(h.cond_t)], eng)
    cx.prove('and not longer', T.not_(T.eq(left(ct), I(0))), base, eng)
    cx.discharge(eng, kinds=('index',))


def schedule(cx):
    """the parts of the schedule put together"""
    eng, st = engine(cx)
    A = args(eng, st)
    ranks(eng, st)

    def rec(name):
        def f(e, t, a, s):
            e.events.append(Ev(name, args=a, pc=s.pc, st=s.copy()))
            return T.app('levels', (), 'I') if name == 'calcLevels' else None
        return f
    names = ('calcNeighborProcs', 'calcDependencies', 'calcLevels', 'randomPriorities', 'levelPriorities', 'neighborPriorities', 'anglePriorities', 'calcOrdering')
    for n in names:
        eng.contracts[n] = rec(n)
    T.NONNEG.add('levels')
    me = arr('schedule', 'SweepSchedule')
    st, _ = cx.run(eng, 'SweepSchedule::SweepSchedule', [A['angles'], uvar('most'), uvar('intra'), uvar('inter')], this=me, st=st)
    ev = {n: [e for e in eng.events if e.name == n] for n in names}
    nbr, dep, lev, order = (one(ev[n], n) for n in ('calcNeighborProcs', 'calcDependencies', 'calcLevels', 'calcOrdering'))
    at = eng.events.index
    cx.decide('each part follows what it needs', at(nbr) < at(lev) < at(order) and at(dep) < at(lev) and all(at(dep) < at(e) < at(order) for n in names[3:7] for e in ev[n]), 'event order')
    for e in (nbr, dep, lev, order):
        cx.prove('always: ' + e.name, e.pc, [], eng)
    a, c, f = uvar('a'), uvar('c'), uvar('f')
    nC, nS = gvar('g_nCells'), T.var('.'.join(MESH + ('c_nSides',)), 'I')
    hy = in_range((a, nang()), (c, nC), (f, I(4)))

    def size(l, s, *ds):
        for n, d in zip(('c_xlen', 'c_ylen', 'c_zlen'), ds):
            cx.prove('an element for every task: ' + l.path[-1].split('@')[0], T.eq(s.mem[l.path + (n,)], d), [], eng)
    ch, pa = dep.args[1], dep.args[2]
    size(ch, dep.st, nang(), nC, I(4))
    size(pa, dep.st, nang(), nC, I(4))
    cx.prove('no parents before they are found', T.not_(eng.read(content(dep.st, eng, pa, 'B'), (a, c, f), dep.st)), hy, eng)
    nb, pr = P(nbr.args[0]), order.args[2]
    cx.decide('dependencies of the directions of the schedule', P(dep.args[0]) == A['angles'].path, 'normal-form')
    size(lev.args[0], lev.st, nang(), nC)
    size(lev.args[1], lev.st, nang(), nS)
    cx.decide('levels from the dependencies', [P(x) for x in lev.args[2:5] + lev.args[6:]] == [P(ch), P(pa), nb, nang(), uvar('most')], 'normal-form')
    directions(cx, eng, A, [], lev.args[5], lev.st)
    size(pr, order.st, nang(), nC)
    cx.prove('priorities are defined for every task', T.eq(eng.read(content(order.st, eng, pr, 'I'), (a, c), order.st), I(0)), hy, eng)
    for n in names[3:7]:
        for e in ev[n]:
            cx.decide('the priorities written are those used: ' + n, [P(x) for x in e.args if P(x) == P(pr)] == [P(pr)], 'normal-form')
            cx.decide('for the directions of the schedule: ' + n, nang() in e.args, 'normal-form')
            for x in e.args:
                if isinstance(x, Loc) and x.ct.k == 'class' and x.ct.name.startswith('Mat3'):
                    cx.decide('dependencies: ' + n, P(x) in (P(ch), P(pa)), 'normal-form')
    for e in ev['neighborPriorities']:
        cx.decide('dependents and parents: neighborPriorities', [P(x) for x in (e.args[0], e.args[1], e.args[2], e.args[3], e.args[8])] == [P(lev.args[1]), P(ch), P(pa), A['angles'].path, uvar('most')], 'normal-form')
    C = lambda n: me.path + (n,)
    cx.decide('the schedule is ordered by the dependencies and the limit asked for', [P(x) for x in order.args] == [P(ch), P(pa), P(pr), nb, nang(), uvar('most'), A['angles'].path, C('c_workOrders'), C('c_sendProcs'), C('c_recvProcs')], 'normal-form')
    for n in ('c_workOrders', 'c_sendProcs', 'c_recvProcs'):
        cx.prove('starts without steps: ' + n, T.eq(order.st.mem[C(n) + ('#n',)], I(0)), [], eng)
    cx.discharge(eng)


def access(cx):
    """what the schedule says is what was put there"""
    eng, st = engine(cx)
    me = arr('schedule', 'SweepSchedule')
    k = uvar('k')
    C = lambda n: me.path + (n,)
    for n in ('c_workOrders', 'c_sendProcs', 'c_recvProcs'):
        st.mem[C(n) + ('#n',)] = uvar('nSteps')
    s2, r = cx.run(eng, 'SweepSchedule::nSteps', [], this=me, st=st.copy())
    cx.prove('number of steps', T.eq(r, uvar('nSteps')), [], eng)
    st.pc = T.and_(st.pc, T.lt(k, uvar('nSteps')))
    for m, n in (('getWork', 'c_workOrders'), ('getSendProcs', 'c_sendProcs'), ('getRecvProcs', 'c_recvProcs')):
        s2, r = cx.run(eng, 'SweepSchedule::' + m, [k], this=me, st=st.copy())
        cx.decide(m, isinstance(r, Loc) and r.path == C(n) + ('#e',) and r.idx == (k,), 'normal-form')
    t = arr('work', 'SweepSchedule::Work')
    ce, an = uvar('ce'), uvar('an')
    s2, _ = cx.run(eng, 'SweepSchedule::Work::Work', [ce, an], this=t, st=st.copy())
    for m, v in (('getCell', ce), ('getAngle', an)):
        s3, r = cx.run(eng, 'SweepSchedule::Work::' + m, [], this=t, st=s2.copy())
        cx.prove(m, T.eq(r if isinstance(r, T.E) else eng.load(r, s3), v), [], eng)
    q = arr('task', 'PriorityWork')
    s2, _ = cx.run(eng, 'PriorityWork::PriorityWork', [ce, an, uvar('pr')], this=q, st=st.copy())
    for m, v in (('getCell', ce), ('getAngle', an)):
        s3, r = cx.run(eng, 'PriorityWork::' + m, [], this=q, st=s2.copy())
        cx.prove('ready task: ' + m, T.eq(r if isinstance(r, T.E) else eng.load(r, s3), v), [], eng)
    # the order of the queue is a strict weak order
    o = [arr('task%d' % i, 'PriorityWork') for i in range(3)]

    def less(x, y):
        return cx.run(eng, 'PriorityWork::operator<', [y], this=x, st=st.copy())[1]
    x, y, z = o
    cx.prove('a task does not come before itself', T.not_(less(x, x)), [], eng)
    cx.prove('the order is transitive', less(x, z), [less(x, y), less(y, z)], eng)
    cx.prove('so are ties', T.and_(T.not_(less(x, z)), T.not_(less(z, x))), [T.not_(less(x, y)), T.not_(less(y, x)), T.not_(less(y, z)), T.not_(less(z, y))], eng)
    cx.discharge(eng)


def values(cx):
    """priorities: every element written is one of the schedule's tasks"""
    for name in ('randomPriorities', 'levelPriorities'):
        eng, st = engine(cx)
        A = args(eng, st)
        cl = arr('cellLevels', 'Mat2<UINT>')
        dims(eng, st, cl, nang(), gvar('g_nCells'))
        st.mem[A['priorities'].path + ('#e',)] = Base('A.priorities.#e', 'I')
        cx.run(eng, name, ([cl] if name == 'levelPriorities' else []) + [nang(), A['priorities']], st=st)
        cx.discharge(eng, kinds=('index',))
    for name in ('updateLevels', 'updatePriorities'):
        eng, st = engine(cx)
        A = args(eng, st)
        wk, Wc, Wa = work(eng, st)
        cl = arr('cellLevels', 'Mat2<UINT>')
        dims(eng, st, cl, nang(), gvar('g_nCells'))
        for l in (cl, A['priorities']):
            st.mem[l.path + ('#e',)] = Base('.'.join(l.path) + '.#e', 'I')
        w = Walk(eng, lambda p: p[0] == 'A')
        cx.run(eng, name, [wk, A['angles'], cl, A['hasParent']] if name == 'updateLevels' else [A['priorities'], wk, A['angles'], A['hasParent'], uvar('shift')], st=st)
        w.close()
        cx.discharge(eng, kinds=('index',))


def traversal(cx):
    """priorities of the traversal: defined for every task whatever was in memory"""
    eng = cx.engine('src/Priorities.cc', 'src/TychoMesh.cc')
    eng.events = []
    st = State()
    mesh(eng, st)
    nC, nA = gvar('g_nCells'), gvar('g_nAngles')
    pr = arr('priorities', 'Mat2<UINT>')
    dims(eng, st, pr, nC, nA)
    st.mem[pr.path + ('#e',)] = Base('before', 'I')
    T.NONNEG.update(('before', 'traversed'))
    eng.contracts['ctor:GraphTraverser'] = lambda e, t, a, s: None
    eng.contracts['Comm::gmax'] = lambda e, t, a, s: None

    def traverse(e, t, a, s):
        e.events.append(Ev('traverse', args=a, pc=s.pc, st=s.copy()))
    eng.contracts['GraphTraverser::traverse'] = traverse
    eng.contracts['anglePriorities'] = lambda e, t, a, s: e.events.append(Ev('angle', args=a, pc=s.pc, st=s.copy()))
    st, _ = cx.run(eng, 'Priorities::calcPriorities', [pr], st=st)
    e = one((x for x in eng.events if x.name == 'angle'), 'priorities among the directions')
    c, a = uvar('c'), uvar('a')
    hy = in_range((c, nC), (a, nA))
    v = eng.read(e.st.mem[pr.path + ('#e',)], (c, a), e.st)
    for k in range(5):
        opt = T.eq(gvar('g_intraAngleP'), I(k))
        old = T.atoms_of(v, lambda y: y.op == 'app' and y.info == 'before')
        u, w = (T.subst(v, {x: T.app(n, x.args, 'I') for x in old}) for n in ('before1', 'before2'))
        cx.prove('option %d: does not depend on what was in memory' % k, T.eq(u, w), hy + [opt], eng)
    x, y = uvar('x'), uvar('y')
    for n in [e for e in eng.events if e.name == 'traverse']:
        cx.prove('the traversal makes progress', T.eq(n.args[0], gvar('g_maxCellsPerStep')), [], eng)
    cx.decide('the priorities asked for', P(e.args[3]) == pr.path and P(e.args[0]) == nA, 'normal-form')
    cx.prove('always', e.pc, [], eng)
    cx.discharge(eng)


def among(cx):
    """priorities among directions: of the tasks there are, left alone or raised as the option says"""
    for src in (SS, 'src/Priorities.cc'):
        eng = cx.engine(src, 'src/TychoMesh.cc')
        st = State()
        mesh(eng, st)
        nC, nA, opt, nl = gvar('g_nCells'), uvar('nAng'), uvar('opt'), uvar('nlevels')

        def sort(e, t, a, s):
            # the elements of [begin, end) in another order
            if len(a) != 2 or not all(isinstance(p, Ptr) for p in a) or a[0].path != a[1].path or a[0].idx or a[0].off is not I(0) or T.eq(a[1].off, nA) is not TRUE:
                raise Unsupported('sort')
            before = s.copy()
            for p in e.sub_paths(a[0].path, s):
                c = s.mem[p]
                e.note_write(p)
                s.mem[p] = Fn(lambda ix, c=c: e.read(c, (T.app('perm', ix, 'I'),), before), getattr(c, 'sort', 'I'))
        T.NONNEG.add('perm')
        eng.axioms.add('perm', lambda ix: [T.implies(T.and_(*in_range((ix[0], nA))), T.lt(T.app('perm', ix, 'I'), nA))])
        eng.contracts['std::sort'] = eng.contracts['sort'] = sort
        eng.contracts['Comm::gsum'] = lambda e, t, w, s: e.store(w[0], T.app('gsum', (e.load(w[0], s),), 'I'), s)
        pr = arr('priorities', 'Mat2<UINT>')
        f = eng.find('anglePriorities')
        order = [('priorities' if 'Mat2' in (x.get('type', {}).get('qualType', '')) else x.get('name')) for x in f.params]
        val = {'priorities': pr, 'numAngles': nA, 'interAngleP': opt, 'nlevels': nl}
        if sorted(order) != sorted(val):
            raise Unsupported('anglePriorities(%s)' % order)
        ac = src == SS          # (direction, cell) there, (cell, direction) here
        dims(eng, st, pr, *((nA, nC) if ac else (nC, nA)))
        st.mem[pr.path + ('#e',)] = Base('before', 'I')
        st, _ = cx.run(eng, 'anglePriorities', [val[n] for n in order], st=st)
        a, c = uvar('a'), uvar('c')
        ix = (a, c) if ac else (c, a)
        hy = in_range((a, nA), (c, nC))
        now, old = eng.read(st.mem[pr.path + ('#e',)], ix, st), T.app('before', ix, 'I')
        nm = src.split('/')[1] + ': '
        cx.prove(nm + 'directions interleaved: left alone', T.eq(now, old), hy + [T.eq(opt, I(0))], eng)
        cx.prove(nm + 'directions one after the other: raised by the number of the direction', T.eq(now, T.add(old, T.mul(a, T.mul(nl, T.app('gsum', (nC,), 'I'))))), hy + [T.eq(opt, I(1))], eng)
        cx.discharge(eng, kinds=('index', 'sub'))
    # the table of the traversal
    eng = cx.engine('src/SweeperTraverse.cc', 'src/TychoMesh.cc')
    st = State()
    got = []
    eng.contracts['Priorities::calcPriorities'] = lambda e, t, a, s: got.append((a[0], s.pc, [e.load(Loc(a[0].path + (d,), a[0].idx, ptype('UINT')), s) for d in X.container_of(a[0].ct).dims]))
    this = obj('sw', 'SweeperTraverse')
    cx.run(eng, 'SweeperTraverse::SweeperTraverse', [], this=this, st=st)
    l, pc, d = one(got, 'priorities')
    cx.prove('the sweeper has priorities for all cells and directions', T.and_(pc, T.eq(d[0], gvar('g_nCells')), T.eq(d[1], gvar('g_nAngles'))), [], eng)
    cx.decide('they are its own', l.path[:len(this.path)] == this.path, 'normal-form', l)


def sets(cx):
    """one schedule for each set of directions; together they hold every direction once"""
    eng, st, w, race = P23.engine(cx, 'src/Sweeper.cc', SS)
    eng.race = None

    def make(e, loc, a, s):
        e.events.append(Ev('schedule', args=a, pc=s.pc, st=s.copy(), loc=loc))
    eng.contracts['ctor:SweepSchedule'] = make
    w.events = {'schedule'}
    w.after = P23.summarise(w)
    cx.run(eng, 'Sweeper::Sweeper', [], this=obj('sweeper', 'Sweeper'), st=st)
    w.close()
    tops = [l for l in w.levels if l.depth == 0]
    if len(tops) != 2 or any(l.count is None for l in tops):
        raise Unsupported('Sweeper::Sweeper')
    A, B = tops
    ev = [x for x in B.evs if x.name == 'schedule']
    bp = [p for p, u in A.ups.items() if u]
    if len(ev) != 1 or len(bp) != 1 or len(A.ups[bp[0]]) != 1:
        raise Unsupported('sets of directions')
    u, p, x = A.ups[bp[0]][0], bp[0], ev[0]
    nG, nA = gvar('g_nAngleGroups'), gvar('g_nAngles')
    some = [T.lt(I(0), nG)]
    h = in_loop(A) + [A.head.after.pc] + some
    rd = lambda s, k: eng.read(s.mem[p], (k,), s)
    q, r = T.idiv(nA, nG), T.imod(nA, nG)
    at = lambda k: T.add(T.mul(k, q), T.ite(T.lt(k, r), k, r))
    cx.prove('the first set begins with the first direction', T.eq(rd(A.head.st0, I(0)), I(0)), some, eng)
    cx.prove('boundary of the next set', T.eq(u.addr[0], T.add(A.sym, I(1))), h, eng)
    cx.prove('size of a set', T.eq(u.val, at(T.add(A.sym, I(1)))), h + [T.eq(rd(A.head.head, A.sym), at(A.sym)), T.lt(r, nG)], eng)
    cx.prove('the last set ends with the last direction', T.eq(at(nG), nA), some + [T.lt(r, nG), T.eq(T.add(T.mul(nG, q), r), nA)], eng)
    cx.prove('every set has a boundary', T.and_(T.eq(A.start, I(0)), T.eq(A.bound, nG)), some, eng)
    cx.prove('every set has a schedule', T.and_(T.eq(B.start, I(0)), T.eq(B.bound, nG)), some, eng)
    k = uvar('k')
    lo, hi = rd(x.st, B.sym), rd(x.st, T.add(B.sym, I(1)))
    g = x.args[0]
    n = eng.load(Loc(g.path + ('#n',), (), ptype('size_t')), x.st)
    a = eng.read(x.st.mem[g.path + ('#e',)], (k,), x.st)
    T.NONNEG.update(B.head.markers)
    h = in_loop(B) + [x.pc] + some
    cx.prove('a schedule for every set', x.pc, in_loop(B) + [B.head.head.pc] + some, eng)
    cx.prove('a set holds the directions up to the next boundary: number', T.eq(n, T.sub(hi, lo)), h + [T.le(lo, hi)], eng)
    cx.prove('a set holds the directions up to the next boundary', T.eq(a, T.add(lo, k)), h + [T.lt(k, n), T.le(lo, hi)], eng)
    cx.prove('at most the allowed number of cells in a step', T.eq(x.args[1], gvar('g_maxCellsPerStep')), h, eng)
    for i, o in ((2, 'g_intraAngleP'), (3, 'g_interAngleP')):
        cx.prove('priority option ' + o, T.eq(x.args[i], gvar(o)), h, eng)


def prove(cx):
    got = {}
    for f in (dependencies, counts, neighbours, initial, step, position, send_orders, exchange, receive_orders, everyone, ordering, send_levels, receive_levels, levels, dependents, values, schedule, access, traversal, among, sets):
        with cx.unit('SweepSchedule: ' + f.__doc__):
            got[f.__name__] = f(cx)
    with cx.unit('lemma: the counts are the upwind neighbours awaited'):
        P08.lemma(cx)
    tags = got.get('exchange')
    if tags:
        with cx.unit('SweepSchedule: messages'):
            cx.prove('count and entries are told apart', T.ne(tags[0], tags[1]), [])
            for n in ('receive_orders', 'receive_levels'):
                if got.get(n):
                    for k, x in enumerate(('count', 'entries')):
                        cx.prove('%s: the %s sent is the one received' % (n, x), T.eq(tags[k], got[n][k]), [])
    cx.theorems('Tasks', {'schedule_run': 'step numbers that increase along the directions: going through the steps takes each task once, after its upwind tasks on any rank, in whatever order the tasks of a step are done',
                          'schedule_acyclic': 'such step numbers exclude cycles', 'once': 'each task once', 'after': 'after every upwind task',
                          'ready': 'while the schedule is made: as long as a task is missing, one that can be placed exists'})
    cx.theorems('Steps', {'arbitrary_iteration': 'what one arbitrary step keeps and does, every step does', 'prefix_disjoint': 'entries of a message one after the other do not overlap'})
    cx.assume('the counting lemma is applied with o = hasChild and dep = hasParent (against the direction: the other way round): a packet is an entry received; proved per step, the induction over steps is arbitrary_iteration')
    cx.assume('the mesh tables pair the two sides of every face (P10, P11) and the dependencies have no cycle (cycle breaking is not implemented); every step takes work wherever there is some, so all tasks are placed')
    cx.assume('a blocking receive gets the matching message sent to it, in order, whatever the schedule of the ranks (MPI)')
    cx.assume('the directions of a schedule are distinct (proved of Sweeper::Sweeper, its only caller)')
    cx.assume('std::priority_queue holds what was pushed and not yet popped, top/pop agree on one of its largest elements')
    cx.assume('std::sort puts the elements of the range given in another order')
