"""Graph traversal: dependency counts, the step taken for one (cell, angle) pair, packets, termination of the counter."""
from vc.ctx import *
from vc.walk import Walk, in_loop
from vc.inv import Head
from vc.exec import Loc, Fn, Base, Upd, Out, ptype

GT = 'src/GraphTraverser.cc'
Q = range(4)


class Ev(object):
    def __init__(self, name, **k):
        self.name = name
        self.__dict__.update(k)


class Queues(object):
    """one priority queue per thread: its content is a ghost, related to the dependency counts by the lemma below"""

    def op(self, e, obj, name, args, st, n):
        if len(obj.idx) != 1:
            raise Unsupported('queue %r' % (obj,))
        q = obj.idx[0]
        if name in ('size', 'empty'):
            s = e.nonneg_fresh('qsize')
            e.events.append(Ev('qsize', q=q, pc=st.pc, val=s))
            return s if name == 'size' else T.eq(s, I(0))
        if name == 'top':
            l = e.temp('top', ptype('Tuple'))
            for f in ('c_cell', 'c_angle', 'c_priority'):
                st.mem[l.path + (f,)] = T.app('top.' + f, tuple(e.loop_vars), 'I')
            e.events.append(Ev('top', q=q, pc=st.pc))
            return l
        if name == 'pop':
            e.events.append(Ev('pop', q=q, pc=st.pc))
            return None
        if name in ('push', 'emplace'):
            if name == 'emplace' and len(args) == 3:
                c, a, p = (x if isinstance(x, T.E) else e.load(x, st) for x in (e.ev(y, st) for y in args))
            else:
                t = e.lv(args[0], st, allow_rvalue=True)
                c, a, p = (e.load(Loc(t.path + (f,), t.idx, ptype('UINT')), st) for f in ('c_cell', 'c_angle', 'c_priority'))
            e.events.append(Ev('push', q=q, pc=st.pc, cell=c, angle=a, prio=p, st=st.copy()))
            return None
        raise Unsupported('priority_queue::' + name)


class Maps(object):
    """lookups of the two std::maps that exist before the traversal (rank -> index, global side -> local side)"""

    def name(self, m):
        for k in ('c_adjRankToRankIndex', 'c_gLSides'):
            if k in m.path:
                return k
        return '.'.join(str(x) for x in m.path)

    def find(self, e, m, k, st):
        n = 'map.' + self.name(m)
        T.NONNEG.add(n)
        return T.app(n + '.has', (k,), 'B'), T.app(n, (k,), 'I')

    def insert(self, e, m, k, v, st):
        raise Unsupported('insertion into a map during the traversal')


def build(cx):
    eng = cx.engine(GT, 'src/TychoMesh.cc')
    eng.events = []
    st = State()
    mesh(eng, st)
    this = obj('gt', 'GraphTraverser')
    eng.queue_hook, eng.map_hook = Queues(), Maps()
    for n in ('start', 'stop', 'reset'):
        eng.contracts['Timer::' + n] = lambda e, t, w, s: None
    for n in ('wall_clock', 'sum_wall_clock'):
        eng.contracts['Timer::' + n] = lambda e, t, w, s: T.app(T.fresh_name('clock'), tuple(e.loop_vars), 'R')
    eng.contracts['ctor:Timer'] = lambda e, t, w, s: None
    eng.contracts['Comm::rank'] = lambda e, t, w, s: uvar('rank')
    eng.contracts['Comm::gmax'] = lambda e, t, w, s: None
    eng.contracts['omp_get_thread_num'] = lambda e, t, w, s: uvar('tid')
    T.NONNEG.update(('priority', 'group', 'top.c_cell', 'top.c_angle', 'A.gt.c_initNumDependencies.#e', '.'.join(MESH + ('c_sideCell', '#e')), '.'.join(MESH + ('c_lGSides', '#e')), 'A.gt.c_direction', 'G.g_mpiType'))
    eng.contracts['TraverseData::getPriority'] = lambda e, t, w, s: T.app('priority', (w[0], w[1]), 'I')

    def upd(e, t, w, s):
        four = lambda p: [e.load(e.elem(p, I(k), s), s) for k in Q]
        e.events.append(Ev('update', cell=w[0], angle=w[1], adj=four(w[2]), kind=four(w[3]), pc=s.pc))
    eng.contracts['TraverseData::update'] = upd
    eng.contracts['TraverseData::getData'] = lambda e, t, w, s: e.events.append(Ev('getData', args=w, pc=s.pc)) or Ptr(('data',), tuple(w), I(0), ptype('char'))
    eng.contracts['TraverseData::setSideData'] = lambda e, t, w, s: e.events.append(Ev('setSideData', args=w, pc=s.pc))

    def packet(e, t, w, s):
        p = w[0]
        if not isinstance(p, Loc):
            raise Unsupported('packet')
        e.note_write(p.path + ('#n',))
        e.note_write(p.path + ('#e',))
        e.store(Loc(p.path + ('#n',), p.idx, ptype('size_t')), T.add(I(16), w[3]), s)
        e.events.append(Ev('createPacket', args=w, pc=s.pc))
    eng.contracts['createPacket'] = packet

    def comm(name):
        def f(e, t, w, s):
            d = w[0] if name == 'recvData2Sided' else w[1]
            if not isinstance(d, Loc):
                raise Unsupported('receive buffer')
            n = Loc(d.path + ('#n',), d.idx, ptype('size_t'))
            x = Ev(name, args=w, pc=s.pc, data=d.path, n0=e.load(n, s), c0=s.mem.get(d.path + ('#e',)), w0=s.mem.get(d.path + ('#e', '#wI')), st=s.copy())
            nm = T.fresh_name('received')
            T.NONNEG.update((nm, nm + 'w'))
            for p in (n.path, d.path + ('#e',), d.path + ('#e', '#wI')):
                e.note_write(p)
            e.store(n, T.app(nm, tuple(e.loop_vars), 'I'), s)
            s.mem[d.path + ('#e',)] = Base(nm + 'b', 'I')
            s.mem[d.path + ('#e', '#wI')] = Base(nm + 'w', 'I')
            x.n1, x.c1 = e.load(n, s), s.mem[d.path + ('#e',)]
            e.events.append(x)
        return f
    for n in ('sendAndRecvData', 'sendData2Sided', 'recvData2Sided'):
        eng.contracts['GraphTraverser::' + n] = comm(n)
    eng.contracts['angleGroupIndex'] = lambda e, t, w, s: T.app('group', (w[0],), 'I')

    def append(e, o, src, cnt, s):
        e.events.append(Ev('append', dst=o, src=src, count=cnt, pc=s.pc, st=s.copy()))
        e.note_write(o.path + ('#n',))
        e.note_write(o.path + ('#e',))
        nm = T.fresh_name('len')
        T.NONNEG.add(nm)
        e.store(Loc(o.path + ('#n',), o.idx, ptype('size_t')), T.app(nm, tuple(e.loop_vars), 'I'), s)
        return True
    eng.append_hook = append
    for d, n in (('c_adjRankToRankIndex', None), ('c_gLSides', None)):
        eng.axioms.add('map.%s.has' % d, lambda i, d=d: [T.app('map.%s.has' % d, i, 'B')])
    nC, nA = gvar('g_nCells'), gvar('g_nAngles')
    eng.axioms.add('.'.join(MESH + ('c_sideCell', '#e')), lambda i: [T.lt(T.app('.'.join(MESH + ('c_sideCell', '#e')), i, 'I'), nC)])
    eng.axioms.add('top.c_cell', lambda i: [T.lt(T.app('top.c_cell', i, 'I'), nC)])
    eng.axioms.add('top.c_angle', lambda i: [T.lt(T.app('top.c_angle', i, 'I'), nA)])
    watch = lambda p: p[0] not in ('A', 'G') and (p[-1] == '#e' and len(p) == 3 or p[-2:] == ('#e', '#n'))
    w = Walk(eng, watch, ['push', 'pop', 'update', 'createPacket', 'append', 'setSideData'])
    st, _ = cx.run(eng, 'GraphTraverser::traverse', [uvar('maxCompute'), obj('td', 'TraverseData')], this=this, st=st)
    w.close()
    return eng, w, st


def one(xs, what):
    xs = list(xs)
    if len(xs) != 1:
        raise Unsupported('%s: %d candidates' % (what, len(xs)))
    return xs[0]


def chain(w, lv):
    """the loops around an iteration of lv, innermost first"""
    r, up = [lv], {id(c): p for p in w.levels for c in p.children}
    while id(r[-1]) in up:
        r.append(up[id(r[-1])])
    return r


class Tr(object):
    """the parts of the traversal: which loop does what"""

    def __init__(self, cx, eng, w, st):
        self.cx, self.eng, self.w, self.st = cx, eng, w, st
        own = lambda lv: [e for e in lv.evs if not any(e in c.evs for c in lv.children)]
        init = lambda t: isinstance(t, T.E) and t.op == 'app' and t.info == 'A.gt.c_initNumDependencies.#e'
        self.copy, self.nd = one(((lv, p) for lv in w.levels for p, u in lv.ups.items() if u and len(u) == 1 and len(u[0].addr) == 2 and init(u[0].val)), 'copy of the dependency counts')
        self.inner = one((lv for lv in w.levels if any(e.name == 'pop' for e in own(lv))), 'loop that takes work')
        self.outer = chain(w, self.inner)[-1]
        if chain(w, self.inner) != [self.inner, self.outer]:
            raise Unsupported('nesting of the traversal loops')
        self.unpack = one((lv for lv in w.levels if any(e.name == 'setSideData' for e in own(lv))), 'loop that unpacks')
        self.first = one((lv for lv in w.levels if any(e.name == 'push' for e in own(lv)) and lv not in (self.inner, self.unpack)), 'loop that fills the queues')
        self.concat = one((lv for lv in w.levels if any(e.name == 'append' for e in own(lv)) and lv is not self.inner), 'loop that joins send buffers')
        ct = [(hs, p) for hs, p in self.outer.head.hsym.items() if T.atoms_of(self.outer.head.cond_t, lambda y: y is hs)]
        self.cnt_sym, self.cnt = one(ct, 'work counter')
        self.own = own

    def read(self, c, a, x):
        return self.eng.read(c, (a, x), self.st)

    def cover(self, lv, addr, ds, what):
        """the nest around lv runs over all index tuples addr in [0,d)"""
        ch = chain(self.w, lv)
        ch = [x for x in ch if x is not self.outer]
        if len(ch) != len(addr):
            raise Unsupported(what + ': nest')
        for a, d in zip(addr, ds):
            l = one((x for x in ch if x.count is not None and x.sym is a), what + ': index')
            hy = [c for x in ch if x is not l for c in (in_loop(x) if x.count is not None else [])]
            self.cx.prove('%s: from the first' % what, T.eq(l.start, I(0)), hy, self.eng)
            self.cx.prove('%s: to the last' % what, T.eq(l.bound, d), hy, self.eng)


def iff(cx, eng, name, a, b, hyps):
    cx.prove(name + ' (only if)', b, hyps + [a], eng)
    cx.prove(name + ' (if)', a, hyps + [b], eng)


def O(dw):
    """the face passes data on in the direction of the traversal"""
    return lambda a, c, f: T.ite(T.eq(DIR, I(FWD)), T.lt(I(0), dw(a, c, f)), T.lt(dw(a, c, f), I(0)))


DIR = T.var('A.gt.c_direction', 'I')
COMM = T.var('A.gt.c_doComm', 'B')
MPI = T.var('G.g_mpiType', 'I')
DS = T.var('A.gt.c_dataSizeInBytes', 'I')
FWD = 0


def b2i(c): return T.ite(c, I(1), I(0))


def total(xs):
    r = I(0)
    for x in xs:
        r = T.add(r, x)
    return r


def setup(t):
    cx, eng = t.cx, t.eng
    nA, nC = gvar('g_nAngles'), gvar('g_nCells')
    u = t.copy.ups[t.nd][0]
    t.cover(t.copy, u.addr, (nA, nC), 'every dependency count is initialised')
    hy = [c for x in chain(t.w, t.copy) for c in in_loop(x)]
    cx.prove('the count is the number of dependencies', T.eq(u.val, T.app('A.gt.c_initNumDependencies.#e', u.addr, 'I')), hy, eng)
    cx.prove('the count is set whatever its value', u.guard, hy, eng)
    e = one((x for x in t.own(t.first) if x.name == 'push'), 'initial push')
    t.cover(t.first, (e.angle, e.cell), (nA, nC), 'every pair is considered for the initial queue')
    c = e.st.mem[t.nd]
    top = chain(t.w, t.copy)[-1]
    if t.first is not t.copy:
        if c is not top.exit.mem[t.nd]:
            raise Unsupported('counts between initialisation and first use')
    ch = chain(t.w, t.first)
    hy = [x for l in ch for x in in_loop(l)] + [ch[-1].head.st0.pc]
    iff(cx, eng, 'queued at the start exactly when nothing is awaited', e.pc, T.eq(t.read(c, e.angle, e.cell), I(0)), hy)
    cx.prove('queued with the thread of the angle', T.eq(e.q, T.app('group', (e.angle,), 'I')), hy, eng)
    cx.prove('initial priority', T.eq(e.prio, T.app('priority', (e.cell, e.angle), 'I')), hy, eng)
    o = t.outer.head
    if o.st0.mem[t.nd] is not top.exit.mem[t.nd]:
        raise Unsupported('counts before the traversal')
    cx.prove('work counter starts at the number of pairs', T.eq(o.st0.mem[t.cnt], T.mul(nA, nC)), [], eng)


def step(t):
    """one arbitrary turn of a thread"""
    global FWD
    cx, eng, lv = t.cx, t.eng, t.inner
    en = {k: v for tu in eng.tus for k, v in tu.enum_names.items()}
    FWD = en['Direction_Forward']
    h = lv.head
    evs = t.own(lv)
    tid = uvar('tid')
    base = T.and_(h.head.pc, h.cond_t)
    names = [e.name for e in evs]
    for n in ('top', 'pop', 'update'):
        if names.count(n) != 1:
            raise Unsupported('%s in the turn of a thread: %d' % (n, names.count(n)))
    cx.decide('the pair that was looked at is the one removed', not [n for n in names[names.index('top'):names.index('pop')] if n == 'push'] and names.index('top') < names.index('pop'), 'event order', names)
    for n in ('top', 'pop', 'update'):
        e = evs[names.index(n)]
        cx.prove('every turn has its %s' % n, e.pc, [base], eng)
        if n != 'update':
            cx.prove('%s on the queue of the thread' % n, T.eq(e.q, tid), [base], eng)
    qs = [e for e in evs if e.name == 'qsize']
    cx.prove('work is taken only from a queue that has some', T.or_(*[T.and_(T.eq(e.q, tid), T.lt(I(0), e.val)) for e in qs]) if qs else T.FALSE, [base], eng)
    sub = {hs: h.st0.mem[p] for hs, p in h.hsym.items() if isinstance(h.st0.mem.get(p), T.E)}
    cx.prove('a thread with work takes some of it', T.subst(h.cond_t, sub), [h.st0.pc, T.lt(I(0), uvar('maxCompute'))] + [T.and_(T.eq(e.q, tid), T.lt(I(0), e.val)) for e in qs], eng)
    u = evs[names.index('update')]
    cell, ang = one(set(x for x in T.atoms_of(u.cell, lambda y: y.op == 'app' and y.info.startswith('top.'))), 'cell taken'), one(set(x for x in T.atoms_of(u.angle, lambda y: y.op == 'app' and y.info.startswith('top.'))), 'angle taken')
    cell, ang = T.app('top.c_cell', cell.args, 'I'), T.app('top.c_angle', cell.args, 'I')
    hy = [base, T.or_(T.eq(DIR, I(en['Direction_Forward'])), T.eq(DIR, I(en['Direction_Backward'])))]
    cx.prove('the update is for the cell taken', T.eq(u.cell, cell), hy, eng)
    cx.prove('the update is for the angle taken', T.eq(u.angle, ang), hy, eng)
    dw = lambda aa, cc, f: mapp('c_omegaDotN', aa, cc, f)
    adj = [mapp('c_adjCell', cell, f) for f in Q]
    bd = [T.eq(x, BOUNDARY) for x in adj]
    rem = [T.ne(mapp('c_adjProc', cell, f), BOUNDARY) for f in Q]
    side = [mapp('c_side', cell, f) for f in Q]
    K = lambda n: I(en['BoundaryType_' + n])
    o = [O(dw)(ang, cell, I(f)) for f in Q]
    for f in Q:
        out = T.lt(I(0), dw(ang, cell, I(f)))
        cx.prove('face %d: neighbour or side' % f, T.eq(u.adj[f], T.ite(T.and_(bd[f], rem[f]), side[f], adj[f])), hy, eng)
        cx.prove('face %d: classification' % f, T.eq(u.kind[f], T.ite(out, T.ite(bd[f], T.ite(rem[f], K('OutIntBdry'), K('OutExtBdry')), K('OutInt')), T.ite(bd[f], T.ite(rem[f], K('InIntBdry'), K('InExtBdry')), K('InInt')))), hy, eng)
    # counts
    x, b = uvar('x'), uvar('b')
    n0, n1 = h.head.mem[t.nd], h.after.mem[t.nd]
    dec = lambda y: total(b2i(T.and_(o[f], T.not_(bd[f]), T.eq(adj[f], y))) for f in Q)
    inv = [T.ge(t.read(n0, ang, adj[f]), dec(adj[f])) for f in Q] + [T.ge(t.read(n0, b, x), T.ite(T.eq(b, ang), dec(x), I(0)))]
    hx = hy + inv + in_range((x, gvar('g_nCells')), (b, gvar('g_nAngles')))
    cx.prove('counts fall by the faces that pass data on', T.eq(t.read(n1, b, x), T.sub(t.read(n0, b, x), T.ite(T.eq(b, ang), dec(x), I(0)))), hx, eng)
    ps = [e for e in evs if e.name == 'push']
    cnt = total(b2i(T.and_(e.pc, T.eq(e.cell, x), T.eq(e.angle, b))) for e in ps)
    cx.prove('queued exactly when the last awaited face arrives, once', T.eq(cnt, b2i(T.and_(T.eq(b, ang), T.lt(I(0), dec(x)), T.eq(t.read(n1, b, x), I(0))))), hx, eng)
    for e in ps:
        cx.prove('queued with the thread of the angle', T.eq(e.q, tid), hy + [e.pc], eng)
        cx.prove('priority of the queued pair', T.eq(e.prio, T.app('priority', (e.cell, e.angle), 'I')), hy + [e.pc], eng)
        cx.prove('queued pair has a cell of this rank', T.lt(e.cell, gvar('g_nCells')), hy + [e.pc], eng)
        cx.prove('queued pair has the angle that was taken', T.eq(e.angle, ang), hy + [e.pc], eng)
    cx.prove('work counter falls by one', T.eq(h.after.mem[t.cnt], T.sub(h.head.mem[t.cnt], I(1))), hy, eng)
    # packets
    k0 = names.index('update')
    grp = {}
    for k, e in enumerate(evs):
        if e.name == 'getData':
            nxt = [y for y in evs[k:] if y.name in ('getData', 'createPacket', 'append')][:3]
            if [y.name for y in nxt] != ['getData', 'createPacket', 'append'] or e.args[1].op != 'num':
                raise Unsupported('sequence of a packet')
            if int(e.args[1].info) in grp:
                raise Unsupported('two packets for a face')
            grp[int(e.args[1].info)] = nxt
            cx.decide('data is sent after the update', k > k0, 'event order', names)
    if len([e for e in evs if e.name == 'append']) != len(grp) or len([e for e in evs if e.name == 'createPacket']) != len(grp):
        raise Unsupported('packets')
    for f in Q:
        if f not in grp:
            raise Unsupported('no packet for face %d' % f)
        g, p, ap = grp[f]
        want = T.and_(o[f], bd[f], COMM, rem[f])
        iff(cx, eng, 'face %d: a packet exactly for a face shared with another rank that passes data on' % f, p.pc, want, hy)
        iff(cx, eng, 'face %d: the packet is put into a buffer' % f, ap.pc, want, hy)
        hf = hy + [want]
        d = p.args[4]
        if not isinstance(d, Ptr) or d.path != ('data',) or len(d.idx) != 3 or not isinstance(p.args[0], Loc) or ap.src.path != p.args[0].path + ('#e',):
            raise Unsupported('packet')
        for k, (got, exp) in {'cell of the data': (d.idx[0], cell), 'face of the data': (d.idx[1], I(f)), 'angle of the data': (d.idx[2], ang), 'start of the data': (d.off, I(0)),
                              'side': (p.args[1], mapp('c_lGSides', side[f])), 'angle': (p.args[2], ang), 'size': (p.args[3], DS), 'start': (ap.src.off, I(0)), 'bytes': (ap.count, T.add(I(16), DS)),
                              'buffer of the thread': (ap.dst.idx[0], tid), 'buffer of the rank': (ap.dst.idx[1], T.app('map.c_adjRankToRankIndex', (mapp('c_adjProc', cell, f),), 'I'))}.items():
            cx.prove('face %d: packet: %s' % (f, k), T.eq(got, exp), hf, eng)
    t.thread_buf = one(set(x[2].dst.path for x in grp.values()), 'send buffers of the threads')
    t.inv = inv + [T.le(I(1), h.head.mem[t.cnt]), hy[-1]]
    t.turn_hyps = hy + t.inv


def exchange(t):
    """between two parallel phases"""
    cx, eng, out = t.cx, t.eng, t.outer
    evs = t.own(out)
    nT = gvar('g_nThreads')
    en = {k: v for tu in eng.tus for k, v in tu.enum_names.items()}
    # joined buffers
    cc = t.concat
    ap = one((e for e in t.own(cc) if e.name == 'append'), 'joined buffers')
    if ap.src.path != t.thread_buf + ('#e',) or len(ap.dst.idx) != 1 or len(ap.src.idx) != 2:
        raise Unsupported('joined buffers')
    nR = t.outer.head.head.mem.get(('A', 'gt', 'c_adjRankIndexToRank', '#n'))
    nR = eng.load(Loc(('A', 'gt', 'c_adjRankIndexToRank', '#n'), (), ptype('size_t')), out.head.head.copy())
    t.cover(cc, ap.src.idx, (nT, nR), 'the buffers of all threads and ranks are sent')
    top = [x for x in chain(t.w, cc) if x is not out][-1]
    hy = [c for x in chain(t.w, cc) if x is not out for c in in_loop(x)] + [top.head.st0.pc]
    cx.prove('joined: same rank', T.eq(ap.dst.idx[0], ap.src.idx[1]), hy, eng)
    cx.prove('joined: from the start', T.eq(ap.src.off, I(0)), hy, eng)
    cx.prove('joined: all bytes', T.eq(ap.count, eng.load(Loc(t.thread_buf + ('#n',), ap.src.idx, ptype('size_t')), ap.st.copy())), hy, eng)
    cx.prove('joined: always', ap.pc, hy, eng)
    send = ap.dst.path
    # the exchange itself
    base = top.exit.pc
    com = [e for e in evs if e.name in ('sendAndRecvData', 'sendData2Sided', 'recvData2Sided')]
    ty = {'sendAndRecvData': 'MPIType_TychoTwoSided', 'sendData2Sided': 'MPIType_CapsaicinTwoSided', 'recvData2Sided': 'MPIType_CapsaicinTwoSided'}
    for n, k in ty.items():
        e = one((x for x in com if x.name == n), n)
        iff(cx, eng, n + ' in every exchange', e.pc, T.and_(COMM, T.eq(MPI, I(en[k]))), [base])
        if n != 'recvData2Sided':
            if e.args[0].path + ('#e',) != send[:len(e.args[0].path) + 1]:
                raise Unsupported('sent buffers')
            if e.st.mem[send + ('#n',)] is not top.exit.mem[send + ('#n',)]:
                raise Unsupported('send buffers change before they are sent')
        if n == 'sendAndRecvData':
            cx.prove('the exchange does not end the communication', T.not_(e.args[3]), [base, e.pc], eng)
    ds = one(set(e.data for e in com), 'receive buffer')
    by = {e.name: e for e in com}
    for n in ('sendAndRecvData', 'sendData2Sided'):
        cx.prove('receive buffer empty before the exchange: ' + n, T.eq(by[n].n0, I(0)), [base, by[n].pc], eng)
    s2, r2 = by['sendData2Sided'], by['recvData2Sided']
    if com.index(s2) > com.index(r2):
        raise Unsupported('receive before send')
    cx.prove('what arrived while sending is kept', T.eq(r2.n0, s2.n1), [base, r2.pc], eng)
    # cleared buffers
    cl = {}
    for lv in t.w.levels:
        if lv in (t.inner, t.concat):
            continue
        for p, us in lv.ups.items():
            if us and p in (t.thread_buf + ('#n',), send + ('#n',)) and lv is not out and len(us) == 1:
                cl.setdefault(p, []).append((lv, us[0]))
    t.cleared = {}
    for p, ds_ in ((t.thread_buf + ('#n',), (nT, nR)), (send + ('#n',), (nR,))):
        lv, u = one(cl.get(p, []), 'clearing of the send buffers')
        t.cover(lv, u.addr, ds_, 'send buffers are emptied')
        hy = [c for x in chain(t.w, lv) if x is not out for c in in_loop(x)]
        cx.prove('emptied: no bytes left', T.eq(u.val, I(0)), hy, eng)
        cx.prove('emptied: whatever they hold', u.guard, hy, eng)
        tp = [x for x in chain(t.w, lv) if x is not out][-1]
        cx.prove('emptied after every exchange', tp.head.st0.pc, [base, COMM, T.or_(*[T.eq(MPI, I(en[k])) for k in ty.values()])], eng)
        if p == send + ('#n',) and tp.head.st0.mem[p] is not top.exit.mem[p]:
            raise Unsupported('send buffers between exchange and clearing')
        j = tuple(uvar('j%d' % k) for k in range(len(u.addr)))
        cx.prove('emptied buffers stay empty until the next phase', T.eq(eng.read(out.head.after.mem[p], j, out.head.after), T.ite(COMM, eng.read(tp.exit.mem[p], j, tp.exit), eng.read((top if p[:-1] == send else t.inner).exit.mem[p], j, out.head.after))), [out.head.after.pc], eng)
    # unpacking
    U = t.unpack
    h = U.head
    P = T.add(I(16), DS)
    e = one((x for x in t.own(U) if x.name == 'setSideData'), 'setSideData')
    i = U.sym
    end = eng.load(Loc(ds + ('#n',), (), ptype('size_t')), h.st0.copy())
    cx.prove('the packets are those received', T.eq(end, T.ite(T.eq(MPI, I(en['MPIType_TychoTwoSided'])), by['sendAndRecvData'].n1, r2.n1)), [h.st0.pc], eng)
    cx.prove('first packet', T.eq(U.start, I(0)), [h.st0.pc], eng)
    cx.prove('last packet', T.eq(U.bound, T.idiv(end, P)), [h.st0.pc], eng)
    hy = [h.st0.pc, h.cond_t] + in_loop(U)
    iff(cx, eng, 'packets are unpacked after every exchange', h.st0.pc, T.and_(COMM, T.or_(*[T.eq(MPI, I(en[k])) for k in ty.values()])), [base, T.eq(T.mul(P, T.idiv(end, P)), end)])
    off = T.mul(i, P)
    ww = h.st0.mem[ds + ('#e', '#wI')]
    gs, pa = (eng.read(ww, (T.add(off, I(k)),), h.st0) for k in (0, 8))
    ls = T.app('map.c_gLSides', (gs,), 'I')
    cx.prove('every packet is stored', e.pc, hy, eng)
    cx.prove('stored for the side it names', T.eq(e.args[0], ls), hy, eng)
    cx.prove('stored for the angle it names', T.eq(e.args[1], pa), hy, eng)
    d = e.args[2]
    if not isinstance(d, Ptr) or d.path != ds + ('#e',):
        raise Unsupported('packet data')
    cx.prove('stored data follows the header', T.eq(d.off, T.add(off, I(16))), hy, eng)
    us = U.ups.get(t.nd)
    if us is None or len(us) != 1:
        raise Unsupported('count update for a packet')
    cell = mapp('c_sideCell', ls)
    n0, n1 = h.head.mem[t.nd], h.after.mem[t.nd]
    x, b = uvar('x'), uvar('b')
    hx = hy + [T.ge(t.read(n0, pa, cell), I(1))]
    cx.prove('the count of the receiving cell falls by one', T.eq(t.read(n1, b, x), T.sub(t.read(n0, b, x), b2i(T.and_(T.eq(b, pa), T.eq(x, cell))))), hx, eng)
    ps = [y for y in t.own(U) if y.name == 'push']
    cnt = total(b2i(T.and_(y.pc, T.eq(y.cell, x), T.eq(y.angle, b))) for y in ps)
    cx.prove('queued exactly when its last awaited face arrives', T.eq(cnt, b2i(T.and_(T.eq(b, pa), T.eq(x, cell), T.eq(t.read(n1, b, x), I(0))))), hx, eng)
    for y in ps:
        cx.prove('queued with the thread of the angle', T.eq(y.q, T.app('group', (pa,), 'I')), hy + [y.pc], eng)
        cx.prove('priority of the queued pair', T.eq(y.prio, T.app('priority', (y.cell, y.angle), 'I')), hy + [y.pc], eng)
    t.packet_hyps = hx
    t.inv = t.inv + hx[-1:]


def flow(t):
    """counts and work counter flow unchanged between the parts; when the traversal ends"""
    cx, eng = t.cx, t.eng
    o, n, u = t.outer, t.inner, t.unpack
    b, x = uvar('b'), uvar('x')
    rd = lambda s: t.read(s.mem[t.nd], b, x)
    hy = [o.head.after.pc]
    cx.prove('counts on entry of a parallel phase', T.eq(rd(n.head.st0), rd(o.head.head)), [], eng)
    cx.prove('counts on entry of unpacking', T.eq(rd(u.head.st0), rd(n.exit)), [], eng)
    cx.prove('counts at the end of an iteration', T.eq(rd(o.head.after), T.ite(COMM, rd(u.exit), rd(n.exit))), hy, eng)
    for lv in t.w.levels:
        if lv not in (o, n, u) and t.nd in lv.ups and lv not in chain(t.w, t.copy):
            raise Unsupported('another loop changes the counts')
        if t.cnt in lv.head.mod and lv not in (o, n):
            raise Unsupported('another loop changes the work counter')
    cx.prove('work counter on entry of a parallel phase', T.eq(n.head.st0.mem[t.cnt], t.cnt_sym), [], eng)
    cx.prove('work counter at the end of an iteration', T.eq(o.head.after.mem[t.cnt], n.exit.mem[t.cnt]), hy, eng)
    iff(cx, eng, 'the traversal goes on exactly while pairs are left', o.head.cond_t, T.lt(I(0), t.cnt_sym), [])
    inl = set(id(e) for lv in t.w.levels for e in lv.evs)
    rest = [e for e in eng.events if id(e) not in inl and e.name not in ('qsize',)]
    en = {k: v for tu in eng.tus for k, v in tu.enum_names.items()}
    e = one(rest, 'events outside the loops')
    if e.name != 'sendAndRecvData':
        raise Unsupported('events outside the loops')
    iff(cx, eng, 'the end is announced to the other ranks exactly when they expect it', e.pc, T.and_(COMM, T.eq(MPI, I(en['MPIType_TychoTwoSided']))), [o.exit.pc])
    cx.prove('the announcement ends the communication', e.args[3], [e.pc], eng)
    cx.prove('announced only when no pair is left', T.eq(t.cnt_sym, I(0)), [e.pc, T.ge0(t.cnt_sym)], eng)


class Ranks(object):
    """map from rank to index while it is filled"""

    def p(self, m): return m.path + ('#has',), m.path + ('#val',)

    def find(self, e, m, k, st):
        h, v = self.p(m)
        for q, s in ((h, 'B'), (v, 'I')):
            if q not in st.mem:
                st.mem[q] = Base('.'.join(q), s)
        return e.read(st.mem[h], (k,), st), e.read(st.mem[v], (k,), st)

    def insert(self, e, m, k, v, st):
        had, old = self.find(e, m, k, st)
        h, q = self.p(m)
        for a, x in ((h, TRUE), (q, T.ite(had, old, v))):
            st.mem[a] = Upd(st.mem[a], (), TRUE, (k,), x)
            e.note_write(a)
        e.events.append(Ev('map-insert', key=k, val=v, pc=st.pc))


def ctor(cx):
    eng = cx.engine(GT, 'src/TychoMesh.cc')
    eng.events = []
    st = State()
    mesh(eng, st)
    this = obj('gt', 'GraphTraverser')
    eng.map_hook = Ranks()
    mp = this.path + ('c_adjRankToRankIndex',)
    vc = this.path + ('c_adjRankIndexToRank',)
    nd = this.path + ('c_initNumDependencies', '#e')
    from vc.exec import Const
    st.mem[mp + ('#has',)], st.mem[mp + ('#val',)] = Const(T.FALSE), Base('val0', 'I')
    T.NONNEG.update(('A.gt.c_adjRankIndexToRank.#e', 'A.gt.c_direction'))
    st.mem[vc + ('#n',)] = I(0)
    d, dc, ds = uvar('direction'), T.var('doComm', 'B'), uvar('dataSize')
    w = Walk(eng, lambda p: p == nd, ['map-insert'])
    st, _ = cx.run(eng, 'GraphTraverser::GraphTraverser', [d, dc, ds], this=this, st=st)
    w.close()
    en = {k: v for tu in eng.tus for k, v in tu.enum_names.items()}
    nA, nC = gvar('g_nAngles'), gvar('g_nCells')
    for f, v in (('c_direction', d), ('c_dataSizeInBytes', ds)):
        cx.prove('member ' + f, T.eq(st.mem[this.path + (f,)], v), [], eng)
    iff(cx, eng, 'member c_doComm', st.mem[this.path + ('c_doComm',)], dc, [])
    # ranks
    lv = one((l for l in w.levels if l.evs and not l.children and any(e.name == 'map-insert' for e in l.evs)), 'loop that collects ranks')
    h = lv.head
    if lv.depth != 0 or lv.count is None:
        raise Unsupported('loop that collects ranks')
    cx.prove('ranks: first cell', T.eq(lv.start, I(0)), [], eng)
    cx.prove('ranks: last cell', T.eq(lv.bound, nC), [], eng)
    H = lambda s, k: eng.read(s.mem[mp + ('#has',)], (k,), s)
    V = lambda s, k: eng.read(s.mem[mp + ('#val',)], (k,), s)
    N = lambda s: s.mem[vc + ('#n',)]
    R_ = lambda s, j: eng.read(s.mem[vc + ('#e',)], (j,), s) if vc + ('#e',) in s.mem else T.app('A.gt.c_adjRankIndexToRank.#e', (j,), 'I')
    r, j = uvar('r'), uvar('j')
    inv = lambda s, r, j: [T.implies(H(s, r), T.and_(T.le(I(0), V(s, r)), T.lt(V(s, r), N(s)), T.eq(R_(s, V(s, r)), r))), T.implies(T.and_(T.le(I(0), j), T.lt(j, N(s))), T.and_(H(s, R_(s, j)), T.eq(V(s, R_(s, j)), j)))]
    hy = [h.head.pc, h.cond_t] + in_loop(lv) + [T.ge0(N(h.head))]
    s0 = h.st0
    cx.prove('ranks: none at first', T.and_(T.eq(N(s0), I(0)), T.not_(H(s0, r))), [], eng)
    ih = lambda r, j: [y for q in [r] + [mapp('c_adjProc', lv.sym, f) for f in Q] for y in inv(h.head, q, j)]
    for k, g in enumerate(inv(h.after, r, j)):
        cx.prove('rank table and its inverse agree (%d)' % k, g, hy + ih(r, j), eng)
    cx.prove('ranks are never dropped', H(h.after, r), hy + [H(h.head, r)], eng)
    for f in Q:
        rk = mapp('c_adjProc', lv.sym, f)
        cx.prove('the rank behind face %d is in the table' % f, H(h.after, rk), hy + [T.eq(mapp('c_adjCell', lv.sym, f), BOUNDARY), T.ne(rk, BOUNDARY)], eng)
    sh = T.or_(*[T.and_(T.eq(mapp('c_adjProc', lv.sym, f), r), T.eq(mapp('c_adjCell', lv.sym, f), BOUNDARY), T.ne(r, BOUNDARY)) for f in Q])
    cx.prove('only ranks behind a face are in the table', T.or_(H(h.head, r), sh), hy + [H(h.after, r)], eng)
    # dependencies
    t = Tr.__new__(Tr)
    t.cx, t.eng, t.w, t.outer, t.st = cx, eng, w, None, st
    lv = one((l for l in w.levels if l.ups.get(nd)), 'loop that counts dependencies')
    us = lv.ups[nd]
    ad = us[0].addr
    t.cover(lv, ad, (nA, nC), 'dependencies of every pair are counted')
    hy = [c for x in chain(w, lv) for c in in_loop(x)] + [T.or_(T.eq(d, I(en['Direction_Forward'])), T.eq(d, I(en['Direction_Backward'])))]
    a, c = ad
    dw = [mapp('c_omegaDotN', a, c, f) for f in Q]
    inc = [T.ite(T.eq(d, I(en['Direction_Forward'])), T.lt(dw[f], I(0)), T.lt(I(0), dw[f])) for f in Q]
    want = total(b2i(T.and_(inc[f], T.ite(dc, T.ne(mapp('c_adjProc', c, f), BOUNDARY), T.ne(mapp('c_adjCell', c, f), BOUNDARY)))) for f in Q)
    for u in us:
        cx.prove('counted for the same pair', T.and_(*[T.eq(p, q) for p, q in zip(u.addr, ad)]), hy, eng)
    aft = lv.head.after
    cx.prove('a pair awaits the faces that bring data from a neighbour', T.eq(eng.read(aft.mem[nd], ad, aft), want), hy, eng)
    b, x = uvar('b'), uvar('x')
    cx.prove('other pairs are not touched', T.eq(eng.read(aft.mem[nd], (b, x), aft), eng.read(lv.head.head.mem[nd], (b, x), aft)), hy + [T.or_(T.ne(b, a), T.ne(x, c))], eng)
    cx.discharge(eng, [], kinds=('sub',))


class RHead(Head):
    """loop that may be left by return"""

    def iterate(self, prepare=None):
        body, self.rets = self.body, []

        def b(s):
            o = body(s)
            self.rets = list(o.ret)
            return Out(o.norm, o.brk, o.cont)
        self.body = b
        return Head.iterate(self, prepare)


def groups(cx):
    """angleGroupIndex: an index below the number of threads, for every angle"""
    eng = cx.engine(GT, 'src/TychoMesh.cc')
    st = State()
    nA, nT = gvar('g_nAngles'), gvar('g_nThreads')
    got = []

    def hook(e, s, cond, body, inc, node):
        h = RHead(e, s, cond, body, inc, node)
        h.iterate()
        got.append(h)
        x = h.exit()
        return Out(norm=x, ret=h.rets)
    eng.loop_hook = hook
    angle = uvar('angle')
    h0 = [T.lt(angle, nA), T.lt(I(0), nT)]
    st, res = cx.run(eng, 'angleGroupIndex', [angle], st=st)
    eng.loop_hook = None
    h = one(got, 'loop over groups')
    from vc.nest import delta, upper
    c = [(hs, p) for hs, p in h.hsym.items() if T.atoms_of(h.cond_t, lambda y: y is hs)]
    cs, cp = one(c, 'counter')
    low = [(hs, p) for hs, p in h.hsym.items() if p != cp]
    ls, lp = one(low, 'running index')
    q, r = T.app('chunk', (), 'I'), T.app('rest', (), 'I')
    T.NONNEG.update(('chunk', 'rest'))
    A = [T.eq(nA, T.add(T.mul(nT, q), r)), T.lt(r, nT), T.eq(T.idiv(nA, nT), q)]
    F = lambda k: T.add(T.mul(k, q), T.ite(T.lt(k, r), k, r))
    inv = lambda k, l: T.and_(T.eq(l, F(k)), T.le(k, nT), T.le(l, angle), T.ge0(k))
    iv = inv(cs, ls)
    cx.prove('group search starts at the first group', inv(h.st0.mem[cp], h.st0.mem[lp]), h0 + A, eng)
    cx.prove('group search goes on to the next group', inv(h.after.mem[cp], h.after.mem[lp]), h0 + A + [iv, h.cond_t, h.after.pc], eng)
    cx.prove('some group holds the angle', h.cond_t, h0 + A + [iv], eng)
    for s, v in h.rets:
        cx.prove('group of the angle', T.and_(T.ge0(v), T.lt(v, nT), T.le(F(v), angle), T.lt(angle, F(T.add(v, I(1))))), h0 + A + [iv, s.pc], eng)
    k = uvar('k')
    cx.prove('groups are consecutive', T.le(F(k), F(T.add(k, I(1)))), A, eng)


def lemma(cx):
    """the counts are the numbers of awaited faces: preserved by a step and by a packet; what follows from it"""
    eng = cx.engine(GT)
    fn = lambda n, s='I': (lambda *a: T.app(n, tuple(x if isinstance(x, T.E) else I(x) for x in a), s))
    adj, fac, dep, o, rem, dl, nd, done, qd = fn('adj'), fn('fac'), fn('dep', 'B'), fn('o', 'B'), fn('rem', 'B'), fn('delivered', 'B'), fn('nd'), fn('done', 'B'), fn('queued', 'B')
    loc = lambda c, f: T.ne(adj(c, f), BOUNDARY)
    c, y = uvar('c'), uvar('y')
    hy = []
    # the mesh: neighbours are mutual (P13), opposite sides of a face see opposite directions (P14)
    for z in (c, y):
        for f in Q:
            a, g = adj(z, f), fac(z, f)
            hy += [T.implies(loc(z, f), T.and_(T.le(I(0), g), T.lt(g, I(4)), T.eq(adj(a, g), z), T.eq(fac(a, g), I(f)))),
                   T.implies(loc(z, f), T.or_(*[T.eq(g, I(k)) for k in Q])),
                   T.implies(T.and_(loc(z, f)), T.and_(T.implies(o(z, f), dep(a, g)), T.implies(dep(z, f), o(a, g)))),
                   T.implies(dep(z, f), T.or_(loc(z, f), rem(z, f)))]
    hy += [T.ne(c, BOUNDARY), T.ne(y, BOUNDARY)]
    # invariant
    und = lambda z, D: total(b2i(T.and_(dep(z, f), T.not_(D(z, f)))) for f in Q)
    inv = lambda z: [T.eq(nd(z), und(z, dl)), T.implies(T.or_(qd(z), done(z)), T.eq(nd(z), I(0))), T.implies(T.eq(nd(z), I(0)), T.or_(qd(z), done(z))), T.not_(T.and_(qd(z), done(z)))] + \
        [T.implies(T.and_(dep(z, f), loc(z, f)), T.and_(T.implies(dl(z, f), done(adj(z, f))), T.implies(done(adj(z, f)), dl(z, f)))) for f in Q]
    cx.prove('nothing is taken before its upwind: local neighbours done, other ranks heard of', T.and_(*[T.implies(dep(c, f), T.and_(dl(c, f), T.implies(loc(c, f), done(adj(c, f))))) for f in Q]), hy + inv(c) + [qd(c)], eng)
    cx.prove('nothing is taken twice', T.not_(done(c)), hy + inv(c) + [qd(c)], eng)
    # step: c is taken
    dec = lambda z: total(b2i(T.and_(o(c, f), loc(c, f), T.eq(adj(c, f), z))) for f in Q)
    dl1 = lambda z, g: T.or_(dl(z, g), *[T.and_(o(c, f), loc(c, f), T.eq(adj(c, f), z), T.eq(fac(c, f), I(g))) for f in Q])
    nd1 = lambda z: T.sub(nd(z), dec(z))
    done1 = lambda z: T.or_(done(z), T.eq(z, c))
    push = lambda z: T.and_(T.lt(I(0), dec(z)), T.eq(nd1(z), I(0)))
    qd1 = lambda z: T.or_(T.and_(qd(z), T.ne(z, c)), push(z))
    I0 = hy + inv(c) + inv(y) + [qd(c)]
    cx.prove('step: no count falls below the faces passed on', T.ge(nd(y), dec(y)), I0, eng)
    cx.prove('step: counts are the awaited faces', T.eq(nd1(y), und(y, dl1)), I0, eng)
    cx.prove('step: queued or done exactly when nothing is awaited', T.and_(T.implies(T.or_(qd1(y), done1(y)), T.eq(nd1(y), I(0))), T.implies(T.eq(nd1(y), I(0)), T.or_(qd1(y), done1(y)))), I0, eng)
    cx.prove('step: not both queued and done', T.not_(T.and_(qd1(y), done1(y))), I0, eng)
    cx.prove('step: what is pushed was not queued', T.implies(push(y), T.and_(T.not_(qd(y)), T.not_(done(y)))), I0, eng)
    for f in Q:
        cx.prove('step: delivered exactly when the upwind cell is done (%d)' % f, T.implies(T.and_(dep(y, f), loc(y, f)), T.and_(T.implies(dl1(y, f), done1(adj(y, f))), T.implies(done1(adj(y, f)), dl1(y, f)))), I0 + [T.implies(T.eq(adj(y, f), c), T.and_(*[T.implies(T.eq(fac(y, f), I(k)), T.and_(T.eq(adj(c, k), y), T.eq(fac(c, k), I(f)))) for k in Q]))], eng)
    # packet: the awaited face g of cell y is delivered
    for g in Q:
        P0 = hy + inv(y) + inv(c) + [dep(y, g), T.not_(loc(y, g)), T.not_(dl(y, g))]
        dl2 = lambda z, k: T.or_(dl(z, k), T.and_(T.eq(z, y), TRUE if k == g else T.FALSE))
        nd2 = lambda z: T.sub(nd(z), b2i(T.eq(z, y)))
        qd2 = lambda z: T.or_(qd(z), T.and_(T.eq(z, y), T.eq(nd2(z), I(0))))
        cx.prove('packet: the count is positive', T.ge(nd(y), I(1)), P0, eng)
        for z, nm in ((y, 'receiver'), (c, 'another cell')):
            cx.prove('packet: %s: counts are the awaited faces' % nm, T.eq(nd2(z), und(z, dl2)), P0, eng)
            cx.prove('packet: %s: queued or done exactly when nothing is awaited' % nm, T.and_(T.implies(T.or_(qd2(z), done(z)), T.eq(nd2(z), I(0))), T.implies(T.eq(nd2(z), I(0)), T.or_(qd2(z), done(z))), T.not_(T.and_(qd2(z), done(z)))), P0, eng)
    # progress: a pair all of whose upwind pairs are done and whose packets have arrived is queued or done
    cx.prove('progress: with its upwind done and its packets received a pair is queued or done', T.or_(qd(c), done(c)), hy + inv(c) + [T.implies(dep(c, f), T.ite(loc(c, f), done(adj(c, f)), dl(c, f))) for f in Q], eng)
    cx.satisfiable(eng, hy + inv(c) + inv(y) + [qd(c)], 'mesh and invariant')


def prove(cx):
    with cx.unit('GraphTraverser::GraphTraverser'):
        ctor(cx)
    with cx.unit('angleGroupIndex'):
        groups(cx)
    with cx.unit('GraphTraverser::traverse'):
        eng, w, st = build(cx)
        t = Tr(cx, eng, w, st)
        setup(t)
        step(t)
        exchange(t)
        flow(t)
        cx.satisfiable(eng, t.turn_hyps, 'turn of a thread')
        cx.satisfiable(eng, t.packet_hyps, 'packet')
        cx.discharge(eng, t.inv, kinds=('sub',))
    with cx.unit('lemma: the counts are the awaited faces'):
        lemma(cx)
    # `take`: a turn of a thread (not done, all awaited faces delivered); `hear`: a face passed on by a turn or by a packet
    cx.theorems('Tasks', {'moves_run': 'turns and packets of all ranks, in any interleaving, take pairs that were not taken, after all their upwind pairs',
                          'once': 'each pair once', 'after': 'after every upwind pair',
                          'stuck_is_complete': 'as long as a pair is missing a rank can take a pair or a packet is under way',
                          'bounded': 'at most as many moves as pairs and faces: the traversal ends'})
    cx.theorems('Steps', {'arbitrary_iteration': 'what one arbitrary turn keeps and does, every turn does', 'counter_counts': 'the number of turns is the number of pairs counted'})
    cx.assume('the directed graph of cells is acyclic for every direction (true of convex cells without cyclic dependence); given that, delivery by MPI and threads that get to run, every pair is taken and the counter reaches zero (lemmas/Tasks.lean: stuck_is_complete, bounded)')
    cx.assume('MPI delivers every packet once and unchanged; the byte layout of a packet, sendAndRecvData, sendData2Sided and recvData2Sided are the subject of P09')
    cx.assume('the parallel region runs one thread for each of the g_nThreads groups; threads of different groups touch different angles (P23)')
    cx.assume('std::priority_queue returns from top() an element that was pushed and not yet popped')
    cx.assume('adjacency is mutual and directions on the two sides of a face are opposite (P13, P14); priorities are irrelevant to the argument')
