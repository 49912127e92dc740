"""Face data between ranks: packet bytes, packing and unpacking, message sizes and counts in every communication scheme."""
from vc.ctx import *
from vc.walk import Walk, in_loop
from vc.inv import Head
from vc.exec import Loc, Fn, Base, Upd, Out, ptype
from vc import mpi

GT, CS, SW, SD = 'src/GraphTraverser.cc', 'src/CommSides.cc', 'src/Sweeper.cc', 'src/SweeperTraverse.cc'
Q, V3 = range(4), range(3)


def disjoint(cx, eng, regions, size, hyps):
    """the byte ranges written do not overlap and lie inside the buffer"""
    for i, (p, ix, a, n, pc) in enumerate(regions):
        cx.prove('bytes %d inside the packet' % i, T.and_(T.le(I(0), a), T.le(T.add(a, n), size)), hyps + [pc], eng)
        for q, jx, b, m, pd in regions[:i]:
            if p == q and ix == jx:
                cx.prove('bytes %d apart' % i, T.or_(T.le(T.add(a, n), b), T.le(T.add(b, m), a)), hyps + [pc, pd], eng)


def packet(cx):
    eng = cx.engine(GT, 'src/TychoMesh.cc')
    eng.byte_regions = []
    st = State()
    pk = obj('pk', 'std::vector<char>')
    gs, an, ds = uvar('gs'), uvar('an'), uvar('ds')
    T.NONNEG.update(('A.pk.#n', 'A.data.#wI'))
    cx.run(eng, 'createPacket', [pk, gs, an, ds, Ptr(('A', 'data'), (), I(0), ptype('char'))], st=st)
    n = eng.load(Loc(pk.path + ('#n',), (), ptype('size_t')), st)
    cx.prove('size of a packet', T.eq(n, T.add(I(16), ds)), [], eng)
    disjoint(cx, eng, eng.byte_regions, n, [])
    o = {k: obj('o' + k, t) for k, t in (('g', 'UINT'), ('a', 'UINT'), ('d', 'char *'))}
    ptr = lambda l: Ptr(l.path, (), I(0), l.ct, True)
    cx.run(eng, 'splitPacket', [Ptr(pk.path + ('#e',), (), I(0), ptype('char')), o['g'], o['a'], ptr(o['d'])], st=st)
    cx.prove('side survives', T.eq(eng.load(o['g'], st), gs), [], eng)
    cx.prove('angle survives', T.eq(eng.load(o['a'], st), an), [], eng)
    d = eng.load(o['d'], st)
    if not isinstance(d, Ptr) or d.path != pk.path + ('#e',):
        raise Unsupported('data of a packet: %r' % (d,))
    k = uvar('k')
    for part, s in (('#wR', 'R'), ('#wI', 'I')):
        got = eng.read(st.mem[pk.path + ('#e', part)], (T.add(d.off, k),), st)
        cx.prove('data survives (%s)' % part, T.eq(got, T.app('A.data.' + part, (k,), s)), [T.le(T.add(k, I(8)), ds)], eng)
    cx.prove('data lies inside the packet', T.eq(T.add(d.off, ds), n), [], eng)
    cx.discharge(eng, kinds=('index', 'sub'))


def face_data(cx):
    """what SweepData hands to a packet is what it takes from one"""
    from vc.exec import Const
    eng = cx.engine(SD, 'src/TychoMesh.cc')
    st = State()
    mesh(eng, st)
    nG, nA, nC, nS = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells'), T.var('.'.join(MESH + ('c_nSides',)), 'I')
    eng.contracts['omp_get_thread_num'] = lambda e, t, w, s: uvar('tid')
    this = obj('sd', 'SweepData')
    lf = this.path + ('c_localFaceData',)
    T.NONNEG.add('.'.join(lf + ('#n',)))
    st.mem[lf + ('#n',)] = gvar('g_nThreads')
    for p, l in (('c_xlen', I(3)), ('c_ylen', nG)):
        st.mem[lf + ('#e', p)] = Const(l)
    for m, t, ds in (('c_psi', 'PsiData', (nG, I(4), nA, nC)), ('c_psiBound', 'PsiBoundData', (nG, I(3), nA, nS))):
        for f, d in zip(('c_ng', 'c_nv', 'c_na', 'c_ns' if t == 'PsiBoundData' else 'c_nc'), ds):
            st.mem[this.path + (m, '&', f)] = d
    c, f, a, a2, s2 = uvar('cell'), uvar('face'), uvar('angle'), uvar('angle2'), uvar('side2')
    hy = in_range((c, nC), (f, I(4)), (a, nA), (a2, nA), (s2, nS), (uvar('tid'), gvar('g_nThreads')))
    st.pc = T.and_(*hy)
    _, size = cx.run(eng, 'SweepData::getDataSizeInBytes', [], st=st)
    cx.prove('data size covers every vertex and group', T.eq(size, T.mul(I(24), nG)), [], eng)
    psi0 = st.mem.get(this.path + ('c_psi', '&', '#e'))
    _, d = cx.run(eng, 'SweepData::getData', [c, f, a], this=this, st=st)
    if not isinstance(d, Ptr):
        raise Unsupported('face data')
    cx.prove('face data starts at its buffer', T.eq(d.off, I(0)), [], eng)
    if d.path == lf + ('#e', '#e'):
        cx.prove('face data is in the buffer of the thread', T.eq(d.idx[0], uvar('tid')), hy, eng)
    g, v, b, s3 = uvar('g'), uvar('v'), uvar('b'), uvar('s3')
    pb = this.path + ('c_psiBound', '&', '#e')
    before = T.app('.'.join(pb), (g, v, b, s3), 'R')
    if pb in st.mem:
        raise Unsupported('getData changes the boundary data')
    cx.run(eng, 'SweepData::setSideData', [s2, a2, d], this=this, st=st)
    h = hy + in_range((g, nG), (v, I(3)), (b, nA), (s3, nS))
    got = eng.read(st.mem[pb], (g, v, b, s3), st)
    mine = T.and_(T.eq(b, a2), T.eq(s3, s2))
    val = T.app('.'.join(this.path + ('c_psi', '&', '#e')), (g, mapp('c_faceToCellVrtx', c, f, v), a, c), 'R')
    for w in V3:
        sub = {v: I(w)}
        cx.prove('vertex %d: boundary value received is the flux sent' % w, T.eq(T.subst(got, sub), T.subst(val, sub)), h + [mine], eng)
        cx.prove('vertex %d: other boundary data unchanged' % w, T.eq(T.subst(got, sub), T.subst(before, sub)), h + [T.not_(mine)], eng)
    cx.decide('the flux is not changed', st.mem.get(this.path + ('c_psi', '&', '#e')) is psi0, 'normal-form')
    cx.discharge(eng, hy)
    cx.satisfiable(eng, h)


class Ev(object):
    def __init__(self, name, **k):
        self.name = name
        self.__dict__.update(k)


def iff(a, b): return T.and_(T.implies(a, b), T.implies(b, a))


class Maps(object):
    """std::map of local sides: an unknown finite function, of which a lookup asks for a present key"""
    def find(self, e, m, k, st):
        T.NONNEG.add('map.gl')
        return T.app('map.gl.has', (k,), 'B'), T.app('map.gl', (k,), 'I')


def calls(eng):
    """contracts of the MPI calls (trusted).  A completed receive holds its message; a message that arrives in iteration t
    is named by t, so nothing is assumed about which one it is"""
    eng.posted = None

    def app(nm, e, sort='I'):
        T.NONNEG.add(nm)
        return T.app(nm, tuple(e.loop_vars), sort)

    def post(name):
        def f(e, t, w, s):
            ev = Ev(name, buf=w[0], n=w[1], type=w[2], rank=w[3], tag=w[4], comm=w[5], req=e.deref(w[6], s), pc=s.pc, st=s.copy())
            e.events.append(ev)
            if name == 'Irecv':
                eng.posted = ev
            e.store(e.deref(w[6], s), Ptr(('request',), (), I(0), ptype('char')), s)
            return I(0)
        eng.contracts['MPI_' + name] = f
    post('Irecv')
    post('Isend')

    def waitany(e, t, w, s):
        r = app('arrived', e)
        e.events.append(Ev('Waitany', n=w[0], reqs=w[1], rank=r, pc=s.pc, st=s.copy()))
        e.facts.append(T.implies(s.pc, T.lt(r, w[0])))
        e.store(e.deref(w[2], s), r, s)
        b = eng.posted.buf
        if b.ct.k == 'int' and b.ct.size == 8:            # one word per request: it holds the word that arrived
            e.store(Loc(b.path, b.idx + (r,), b.ct), app('size.in', e), s)
        return I(0)

    def waitall(e, t, w, s):
        e.events.append(Ev('Waitall', n=w[0], reqs=w[1], pc=s.pc, st=s.copy()))
        return I(0)

    def testall(e, t, w, s):
        r = app('tested', e)
        e.events.append(Ev('Testall', n=w[0], reqs=w[1], flag=r, pc=s.pc, st=s.copy()))
        e.store(e.deref(w[2], s), r, s)
        return I(0)

    def iprobe(e, t, w, s):
        r = app('flag', e)
        e.events.append(Ev('Iprobe', rank=w[0], tag=w[1], comm=w[2], flag=r, pc=s.pc))
        e.store(e.deref(w[3], s), r, s)
        return I(0)

    def count(e, t, w, s):
        r = app('bytes.in', e)
        e.events.append(Ev('count', type=w[1], pc=s.pc))
        e.store(e.deref(w[2], s), r, s)
        return I(0)

    def recv(e, t, w, s):
        e.events.append(Ev('Recv', buf=w[0], n=w[1], type=w[2], rank=w[3], tag=w[4], comm=w[5], pc=s.pc, st=s.copy()))
        k = e.nonneg_fresh('k')
        l = e.elem(w[0], k, s)
        c = s.mem.get(l.path)
        if c is None:
            c = e.default(l.path, len(l.idx), w[0].ct)
        e.note_write(l.path)
        nm = 'msg%d' % (len([x for x in e.events if x.name == 'Recv']) - 1)
        if w[0].ct.k == 'int':
            T.NONNEG.add(nm)
        s.mem[l.path] = Upd(c, (k,), T.lt(k, w[1]), l.idx, T.app(nm, tuple(e.loop_vars) + (k,), 'R' if w[0].ct.k == 'real' else 'I'))
        return I(0)
    for nm, f in (('Waitany', waitany), ('Waitall', waitall), ('Testall', testall), ('Iprobe', iprobe), ('Get_count', count), ('Recv', recv)):
        eng.contracts['MPI_' + nm] = f


def one(evs, name):
    x = [e for e in evs if e.name == name]
    if len(x) != 1:
        raise Unsupported('%d calls of %s' % (len(x), name))
    return x[0]


def chain(c):
    out = []
    while isinstance(c, Upd):
        out.append(c)
        c = c.prev
    return out, c


def sides(cx):
    """CommSides::commSides: one exchange with every adjacent rank"""
    eng = cx.engine(CS, 'src/TychoMesh.cc')
    eng.events, eng.byte_regions = [], []
    st = State()
    mesh(eng, st)
    nG, nA, nC, nS = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells'), T.var('.'.join(MESH + ('c_nSides',)), 'I')
    eng.map_hook = Maps()
    calls(eng)
    this = obj('cs', 'CommSides')
    fld = lambda *p: '.'.join(this.path + p)
    n = T.var(fld('c_adjRanks', '#n'), 'I')
    T.NONNEG.update([n.info] + [fld(*p) for p in (('c_adjRanks', '#e'), ('c_numSendPackets', '#e'), ('c_numRecvPackets', '#e'), ('c_sendMetaData', '#e', '#n'))])
    # class invariant, established by the constructor (next unit)
    for v in ('c_numSendPackets', 'c_numRecvPackets', 'c_sendMetaData'):
        st.mem[this.path + (v, '#n')] = n
    snd, rcv = (lambda r: T.app(fld('c_numSendPackets', '#e'), (r,), 'I')), (lambda r: T.app(fld('c_numRecvPackets', '#e'), (r,), 'I'))
    nmd = lambda r: T.app(fld('c_sendMetaData', '#e', '#n'), (r,), 'I')
    md = lambda f, r, m: T.app(fld('c_sendMetaData', '#e', '#e', f), (r, m), 'I')
    eng.axioms.add(fld('c_numSendPackets', '#e'), lambda i: [T.eq(snd(*i), nmd(*i))])
    T.NONNEG.update(fld('c_sendMetaData', '#e', '#e', f) for f in ('gSide', 'angle', 'cell', 'face'))
    for f, b in (('angle', nA), ('cell', nC), ('face', I(4))):
        eng.axioms.add(fld('c_sendMetaData', '#e', '#e', f), lambda i, f=f, b=b: [T.lt(md(f, *i), b)])
    psi, pb = obj('psi', 'PsiData'), obj('psiBound', 'PsiBoundData')
    phase(eng, st, psi)
    phase(eng, st, pb)
    watch = lambda p: p[-1] in ('#wI', '#wR') or p == pb.path + ('#e',)
    w = Walk(eng, watch, ['Irecv', 'Isend', 'Waitany'], maxdepth=2)
    st0 = st.copy()
    st, _ = cx.run(eng, 'CommSides::commSides', [psi, pb], this=this, st=st)
    w.close()
    P = T.add(I(16), T.mul(I(24), nG))
    top = [l for l in w.levels if l.depth == 0]
    has = lambda l, nm: any(e.name == nm for e in l.evs)
    pick = lambda nm: [l for l in top if has(l, nm)]
    if any(len(pick(x)) != 1 for x in ('Irecv', 'Isend', 'Waitany')):
        raise Unsupported('structure of the exchange')
    R1, S1, W1 = pick('Irecv')[0], pick('Isend')[0], pick('Waitany')[0]
    for l in (R1, S1, W1):
        if l.count is None:
            raise Unsupported('loop of the exchange')

    # ---- receives: every adjacent rank that has something to send
    ev = one(R1.evs, 'Irecv')
    hy = in_loop(R1)
    r = R1.sym
    cx.prove('receives: from the first rank', T.eq(R1.start, I(0)), [], eng)
    cx.prove('receives: up to the last rank', T.eq(R1.bound, n), [], eng)
    cx.prove('receive posted when packets are due', iff(ev.pc, T.gt(rcv(r), I(0))), hy, eng)
    rbuf = ev.buf.path
    buffer(cx, eng, ev, r, T.mul(P, rcv(r)), hy + [ev.pc], T.app(fld('c_adjRanks', '#e'), (r,), 'I'), 'receive')
    rtag = ev.tag
    # ---- sends
    es = one(S1.evs, 'Isend')
    hy = in_loop(S1)
    r = S1.sym
    cx.prove('sends: from the first rank', T.eq(S1.start, I(0)), [], eng)
    cx.prove('sends: up to the last rank', T.eq(S1.bound, n), [], eng)
    cx.prove('sent when packets are due', iff(es.pc, T.gt(snd(r), I(0))), hy, eng)
    buffer(cx, eng, es, r, T.mul(P, snd(r)), hy + [es.pc], T.app(fld('c_adjRanks', '#e'), (r,), 'I'), 'send')
    sbuf = es.buf.path
    cx.decide('buffers apart', sbuf != rbuf, 'normal-form')
    cx.prove('tags match', T.eq(es.tag, rtag), [], eng)
    kids = [c for c in S1.children if any(c.ups.get(sbuf + (q,)) is not None for q in ('#wI', '#wR'))]
    if len(kids) != 1 or kids[0].count is None:
        raise Unsupported('packing loop')
    D = kids[0]
    # (the words at the send are those the packing loop left, and the packing loop started from a clean buffer's)
    for q in ('#wI', '#wR'):
        cx.decide('packets untouched until sent (%s)' % q, es.st.mem.get(sbuf + (q,)) is D.exit.mem.get(sbuf + (q,)), 'normal-form')
    m = D.sym
    hd = in_loop(D) + hy + [D.head.st0.pc]
    cx.prove('packing: first packet', T.eq(D.start, I(0)), hy, eng)
    cx.prove('packing: one packet per entry', T.eq(D.bound, nmd(r)), hy, eng)
    v, g = uvar('v'), uvar('g')
    rd = lambda q, off: eng.read(D.head.after.mem[sbuf + (q,)], (r, off), D.head.after)
    at = T.mul(m, P)
    cx.prove('packet: global side', T.eq(rd('#wI', at), md('gSide', r, m)), hd, eng)
    cx.prove('packet: angle', T.eq(rd('#wI', T.add(at, I(8))), md('angle', r, m)), hd, eng)
    c, f, a = md('cell', r, m), md('face', r, m), md('angle', r, m)
    for k in V3:
        want = T.app('A.psi.#e', (g, mapp('c_faceToCellVrtx', c, f, I(k)), a, c), 'R')
        off = T.add(at, I(16 + 8 * k), T.mul(I(24), g))
        cx.prove('packet: flux of vertex %d' % k, T.eq(rd('#wR', off), want), hd + in_range((g, nG)), eng)
    regs = [x for x in D.regions if x[0] == sbuf or x[0] == sbuf + ('#e',)]
    if not regs:
        raise Unsupported('bytes of a packet')
    for i, (p, ix, o, ln, pc) in enumerate(regs):
        cx.prove('bytes %d inside the packet' % i, T.and_(T.eq(ix[0], r), T.le(at, o), T.le(T.add(o, ln), T.add(at, P))), hd + [pc], eng)
        for j, (q, jx, b, lm, pd) in enumerate(regs[:i]):
            cx.prove('bytes %d and %d apart' % (j, i), T.or_(T.le(T.add(o, ln), b), T.le(T.add(b, lm), o)), hd + [pc, pd], eng)
    # ---- waits
    ew = one(W1.evs, 'Waitany')
    hy = in_loop(W1)
    rk = ew.rank
    cx.prove('every request is waited on', T.eq(ew.n, n), hy, eng)
    if not isinstance(ew.reqs, Ptr):
        raise Unsupported('requests')
    cx.prove('requests from the first', T.eq(ew.reqs.off, I(0)), hy, eng)
    cx.decide('the requests waited on are those of the receives', requests(R1, ew.reqs.path, ev, eng), 'normal-form')
    # number of waits: counted along the receive loop
    cnt = [(hs, p) for hs, p in R1.head.hsym.items() if hs is not R1.sym and T.atoms_of(W1.bound, lambda y: y is hs)]
    if len(cnt) != 1:
        raise Unsupported('number of receives')
    hs, p = cnt[0]
    cx.prove('waits: first', T.eq(W1.start, I(0)), [], eng)
    cx.prove('waits: one per posted receive', T.eq(W1.bound, hs), [], eng)
    cx.prove('receives counted from zero', T.eq(R1.head.st0.mem[p], I(0)), [], eng)
    cx.prove('every posted receive counted', T.eq(R1.head.after.mem[p], T.add(hs, T.ite(ev.pc, I(1), I(0)))), in_loop(R1), eng)
    cx.decide('count kept between', all(p not in l.head.mod for l in (S1, W1)), 'normal-form')
    cx.decide('received bytes kept', all(q[:len(rbuf)] != rbuf for l in top for q in l.head.mod), 'normal-form')
    kids = [l for l in W1.children if (pb.path + ('#e',)) in l.ups]
    if len(kids) != 1 or kids[0].count is None:
        raise Unsupported('unpacking loop')
    U = kids[0]
    i = U.sym
    cx.prove('unpacking: first packet', T.eq(U.start, I(0)), hy, eng)
    x, tot = rcv(rk), T.mul(P, rcv(rk))
    cx.prove('unpacking: every packet', T.eq(U.bound, x), hy + quotient(U.bound, x, P), eng)
    T.NONNEG.update('.'.join(map(str, rbuf + (q,))) for q in ('#wI',))
    W = lambda q, off: T.app('.'.join(map(str, rbuf + (q,))), (rk, off), 'I' if q == '#wI' else 'R')
    at = T.mul(i, P)
    gs, an = W('#wI', at), W('#wI', T.add(at, I(8)))
    side = T.app('map.gl', (gs,), 'I')
    b, s3 = uvar('b'), uvar('s3')
    peer = [T.lt(an, nA), T.app('map.gl.has', (gs,), 'B'), T.lt(side, nS)]
    hu = in_loop(U) + hy + peer + in_range((g, nG), (b, nA), (s3, nS)) + [T.lt(rk, n)]
    after, head = U.head.after, U.head.head
    mine = T.and_(T.eq(b, an), T.eq(s3, side))
    for k in V3:
        got = eng.read(after.mem[pb.path + ('#e',)], (g, I(k), b, s3), after)
        old = eng.read(head.mem[pb.path + ('#e',)], (g, I(k), b, s3), head)
        cx.prove('unpacking vertex %d: the value received' % k, T.eq(got, W('#wR', T.add(at, I(16 + 8 * k), T.mul(I(24), g)))), hu + [mine], eng)
        cx.prove('unpacking vertex %d: nothing else' % k, T.eq(got, old), hu + [T.not_(mine)], eng)
    cx.decide('the flux is not changed', st.mem.get(psi.path + ('#e',)) is st0.mem.get(psi.path + ('#e',)), 'normal-form')
    # ---- completion
    ea = one(eng.events, 'Waitall')
    cx.prove('every send completed', T.eq(ea.n, n), [], eng)
    cx.prove('completion whenever something was sent', T.implies(T.gt(n, I(0)), ea.pc), [], eng)
    cx.decide('the requests completed are those of the sends', requests(S1, ea.reqs.path, es, eng), 'normal-form')
    cx.discharge(eng, peer + quotient(m, snd(r), P), kinds=('index', 'sub', 'assert'))


def counting(eng):
    """contract of std::count over a vector: zero iff no element equals the value"""
    def f(e, t, w, s):
        a, b, x = w
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.path == b.path and a.idx == b.idx and a.off is I(0)):
            raise Unsupported('range of std::count')
        if isinstance(x, (Loc, Ptr)):
            x = e.load(x if isinstance(x, Loc) else e.deref(x, s), s)
        k, p = e.nonneg_fresh('count'), e.nonneg_fresh('pos')
        c = s.mem.get(a.path)
        if c is None:
            c = e.default(a.path, len(a.idx) + 1, a.ct)
        at = lambda i: e.read(c, a.idx + (i,), s)
        e.events.append(Ev('count', k=k, x=x, n=b.off, at=at, pos=p, pc=s.pc))
        e.facts.append(T.implies(T.and_(s.pc, T.gt(k, I(0))), T.and_(T.lt(p, b.off), T.eq(at(p), x))))
        return k
    eng.contracts['count'] = f


def absent(evs, i):
    """instances of the contract of std::count at position i"""
    return [T.implies(T.and_(e.pc, T.eq(e.k, I(0)), T.lt(i, e.n)), T.ne(e.at(i), e.x)) for e in evs if e.name == 'count']


def sides_ctor(cx):
    eng = cx.engine(CS, 'src/TychoMesh.cc')
    eng.events = []
    st = State()
    mesh(eng, st)
    nA, nC, nS = gvar('g_nAngles'), gvar('g_nCells'), T.var('.'.join(MESH + ('c_nSides',)), 'I')
    counting(eng)
    adj = lambda c, f: mapp('c_adjProc', c, f)
    # mesh invariant (P13): only faces on the boundary of the partition have an adjacent rank
    eng.axioms.add('.'.join(MESH + ('c_adjProc', '#e')), lambda i: [T.implies(T.ne(adj(*i), BOUNDARY), T.eq(mapp('c_adjCell', *i), BOUNDARY))])
    st.mem[MESH + ('c_lGSides', 'c_xlen')] = nS
    st.mem[MESH + ('c_lGSides', '#n')] = nS
    this = obj('cs', 'CommSides')
    ar, sm, ns, nr = ((this.path + (x,)) for x in ('c_adjRanks', 'c_sendMetaData', 'c_numSendPackets', 'c_numRecvPackets'))
    for x in (ar, sm, ns, nr):
        st.mem[x + ('#n',)] = I(0)
    watch = lambda p: p[:len(this.path)] == this.path

    def after(lv, x):
        p = ar + ('#e',)
        if p in lv.head.mod and isinstance(x.mem.get(p), Base):
            nm = x.mem[p].name
            T.NONNEG.add(nm)
            eng.axioms.add(nm, lambda i: [T.ne(T.app(nm, i, 'I'), BOUNDARY)])
    w = Walk(eng, watch, ['count'], after=after)
    f = eng.find('CommSides::CommSides', 0)
    eng.call_func(f, None, st, this=this, argvals=[])
    cx.functions.append('CommSides::CommSides')
    w.close()
    top = [l for l in w.levels if l.depth == 0]
    A = [l for l in top if ar + ('#e',) in l.ups]
    B = [l for l in top if sm + ('#e', '#n') in l.ups]
    if len(A) != 1 or len(B) != 1 or A[0] is B[0] or len(top) != 2:
        raise Unsupported('loops of the constructor')
    # ---- adjacent ranks
    L = A[0]
    if L.count is None or L.ups[ar + ('#e',)] is None:
        raise Unsupported('search for adjacent ranks')
    c, hy = L.sym, in_loop(L)
    cx.prove('ranks: from the first cell', T.eq(L.start, I(0)), [], eng)
    cx.prove('ranks: to the last cell', T.eq(L.bound, nC), [], eng)
    af, hd = L.head.after, L.head.head
    n0, n1 = eng.load(Loc(ar + ('#n',), (), ptype('size_t')), hd), eng.load(Loc(ar + ('#n',), (), ptype('size_t')), af)
    T.NONNEG.update(x.info for x in (n0,) if x.op == 'var')
    i = uvar('i')
    evs = [e for e in L.evs if e.name == 'count']
    for k, u in enumerate(L.ups[ar + ('#e',)]):
        if u.params:
            raise Unsupported('adjacent ranks')
        p = u.addr[-1]
        h = hy + [u.guard, T.lt(i, p)] + absent(evs, i)
        cx.prove('ranks: entry %d is new' % k, T.ne(eng.read(u.prev, (i,), af), u.val), h, eng)
        src = T.or_(*[T.and_(T.eq(u.val, adj(c, I(q))), T.eq(mapp('c_adjCell', c, I(q)), BOUNDARY), T.ne(adj(c, I(q)), BOUNDARY)) for q in Q])
        cx.prove('ranks: entry %d is the rank of a boundary face' % k, src, hy + [u.guard], eng)
        cx.prove('ranks: entry %d is appended' % k, T.and_(T.le(n0, p), T.lt(p, n1)), hy + [u.guard], eng)
    end = lambda j: eng.read(af.mem[ar + ('#e',)], (j,), af)
    cx.prove('ranks: earlier entries kept', T.and_(T.le(n0, n1), T.eq(end(i), eng.read(hd.mem[ar + ('#e',)], (i,), hd))), hy + [T.lt(i, n0)], eng)
    j = uvar('j')
    cx.prove('ranks: every entry below the size is one of them', T.or_(*[T.and_(u.guard, T.eq(u.addr[-1], j)) for u in L.ups[ar + ('#e',)]]), hy + [T.le(n0, j), T.lt(j, n1)], eng)
    places = [e.pos for e in evs] + [u.addr[-1] for u in L.ups[ar + ('#e',)]]
    for q in Q:
        x = adj(c, I(q))
        goal = T.implies(T.and_(T.eq(mapp('c_adjCell', c, I(q)), BOUNDARY), T.ne(x, BOUNDARY)), T.or_(*[T.and_(T.lt(p, n1), T.eq(end(p), x)) for p in places]))
        cx.prove('ranks: the rank across face %d is listed' % q, goal, hy, eng)
    # ---- packets to each of them
    S = B[0]
    n = eng.load(Loc(ar + ('#n',), (), ptype('size_t')), st)
    if S.count is None or len(S.children) != 1 or S.children[0].count is None:
        raise Unsupported('loops over ranks and cells')
    C = S.children[0]
    r, c = S.sym, C.sym
    hr = in_loop(S)
    cx.prove('packets: first rank', T.eq(S.start, I(0)), [], eng)
    cx.prove('packets: last rank', T.eq(S.bound, n), [], eng)
    cx.prove('packets: first cell', T.eq(C.start, I(0)), hr, eng)
    cx.prove('packets: last cell', T.eq(C.bound, nC), hr, eng)
    for x, nm in ((sm, 'lists'), (ns, 'send counts'), (nr, 'receive counts')):
        cx.prove('packets: as many %s as ranks' % nm, T.eq(eng.load(Loc(x + ('#n',), (), ptype('size_t')), st), n), [], eng)
    rd = lambda s, p, *ix: eng.read(s.mem[p], ix, s) if p in s.mem else T.app('.'.join(p), ix, 'I')
    c0 = C.head.st0
    cx.prove('packets: none sent before the first cell', T.eq(rd(c0, ns + ('#e',), r), I(0)), hr, eng)
    cx.prove('packets: none received before the first cell', T.eq(rd(c0, nr + ('#e',), r), I(0)), hr, eng)
    cx.prove('packets: empty list before the first cell', T.eq(rd(S.head.st0, sm + ('#e', '#n'), r), I(0)), hr, eng)
    cx.decide('packets: list untouched before the first cell', c0.mem[sm + ('#e', '#n')] is S.head.head.mem[sm + ('#e', '#n')], 'normal-form')
    seen = []
    lg = lambda s: T.app('.'.join(MESH + ('c_lGSides', '#e')), (s,), 'I')
    for l in C.children:
        if l.count is None or any(u is None for u in l.ups.values()):
            raise Unsupported('loop over angles')
        a = l.sym
        h0, h1 = l.head.head, l.head.after
        sz = rd(h0, sm + ('#e', '#n'), r)
        base = hr + in_loop(C) + in_loop(l) + [l.head.st0.pc]
        dot = lambda f: mapp('c_omegaDotN', a, c, I(f))
        nm = '.'.join(MESH + ('c_adjProc', '#e'))
        at = T.atoms_of(l.head.st0.pc, lambda y: y.op == 'app' and y.info == nm and y.args[0] is c) or T.atoms_of(h1.mem[ns + ('#e',)].guard, lambda y: y.op == 'app' and y.info == nm and y.args[0] is c)
        mine = sorted({int(x.args[1].info) for x in at if x.args[1].op == 'num'})
        if len(mine) != 1:
            raise Unsupported('face of a loop over angles')
        f = mine[0]
        seen.append(f)
        near = T.eq(adj(c, I(f)), rd(h0, ar + ('#e',), r))
        out, inn = T.and_(near, T.gt(dot(f), R(0))), T.and_(near, T.lt(dot(f), R(0)))
        nm = 'face %d: ' % f
        cx.prove(nm + 'first angle', T.eq(l.start, I(0)), base, eng)
        cx.prove(nm + 'last angle', T.eq(l.bound, nA), base, eng)
        cx.prove(nm + 'every face towards the rank', T.implies(near, l.head.st0.pc), hr + in_loop(C), eng)
        r2 = uvar('r2')
        for p, cond, what in ((ns + ('#e',), out, 'packets to send'), (nr + ('#e',), inn, 'packets to receive'), (sm + ('#e', '#n'), out, 'entries')):
            d = T.sub(rd(h1, p, r), rd(h0, p, r))
            cx.prove(nm + what, T.eq(d, T.ite(cond, I(1), I(0))), base, eng)
            cx.prove(nm + what + ' of other ranks', T.eq(rd(h1, p, r2), rd(h0, p, r2)), base + [T.ne(r2, r)], eng)
        side = mapp('c_side', c, I(f))
        for fl, want in (('gSide', None), ('angle', a), ('cell', c), ('face', I(f))):
            got = rd(h1, sm + ('#e', '#e', fl), r, sz)
            if fl == 'gSide':
                want = lg(side)
            cx.prove(nm + 'entry: ' + fl, T.eq(got, want), base + [out], eng)
            k = uvar('k')
            cx.prove(nm + 'earlier entries: ' + fl, T.eq(rd(h1, sm + ('#e', '#e', fl), r2, k), rd(h0, sm + ('#e', '#e', fl), r2, k)),
                     base + [T.or_(T.ne(r2, r), T.lt(k, sz))], eng)
    cx.decide('each face once', sorted(seen) == list(Q), 'normal-form', seen)
    cx.discharge(eng, kinds=('index', 'sub', 'assert'))


def quotient(q, x, P):
    """instances of the monotonicity of multiplication by P, for comparing q and x"""
    d = T.sub(x, q)
    return [T.implies(T.ge(d, I(1)), T.ge(T.mul(P, d), P)), T.implies(T.le(d, I(-1)), T.le(T.mul(P, d), T.neg(P)))]


def requests(l, path, ev, eng):
    """iteration r stores its own request at [r], and nothing otherwise"""
    ups, root = chain(l.head.after.mem.get(path))
    if not ups:
        raise Unsupported('requests')
    return all(not u.params and len(u.addr) == 1 and u.addr[0] is l.sym for u in ups)


def buffer(cx, eng, ev, r, size, hy, rank, what):
    if not isinstance(ev.buf, Ptr) or len(ev.buf.idx) != 1:
        raise Unsupported('buffer of a ' + what)
    z = mpi.SIZE.get(mpi.gname(ev.type))
    if z is None:
        raise Unsupported('datatype of a ' + what)
    cx.prove(what + ': buffer of the rank', T.eq(ev.buf.idx[0], r), hy, eng)
    cx.prove(what + ': from its start', T.eq(ev.buf.off, I(0)), hy, eng)
    cx.prove(what + ': all of it', T.eq(T.mul(I(z), ev.n), size), hy, eng)
    cx.prove(what + ': partner', T.eq(ev.rank, rank), hy, eng)
    datatype(cx, 'CommSides', ev)
    cx.decide(what + ': among all ranks', mpi.gname(ev.comm) == 'ompi_mpi_comm_world', 'normal-form', ev.comm)


MAXU = I(2 ** 64 - 1)


def raw(cx, fn):
    """GraphTraverser's transfers of whole packet buffers"""
    eng = cx.engine(GT, 'src/TychoMesh.cc')
    eng.events = []
    st = State()
    this = obj('gt', 'GraphTraverser')
    rk = this.path + ('c_adjRankIndexToRank',)
    n = T.var('.'.join(rk + ('#n',)), 'I')
    calls(eng)
    sb, dp, dk = obj('sb', 'std::vector<std::vector<char>>'), obj('dp', 'std::vector<char>'), obj('dark', 'std::vector<bool>')
    T.NONNEG.update(('.'.join(rk + ('#n',)), '.'.join(rk + ('#e',)), 'A.sb.#e.#n', 'A.dp.#n'))
    eng.axioms.add('A.sb.#e.#n', lambda i: [T.lt(T.app('A.sb.#e.#n', i, 'I'), I(2 ** 31 - 1))])   # (asserted in the code)
    eng.axioms.add('size.in', lambda i: [T.le(T.app('size.in', i, 'I'), MAXU)])
    eng.axioms.add('bytes.in', lambda i: [T.gt(T.app('bytes.in', i, 'I'), I(0))])      # (no rank sends an empty message: proved for sendData2Sided)
    st.mem[sb.path + ('#n',)] = st.mem[dk.path + ('#n',)] = n
    w = Walk(eng, lambda p: p[:2] in (dp.path, dk.path), ['Irecv', 'Isend', 'Waitany', 'Recv', 'Testall', 'Iprobe'])
    kill = T.var('kill', 'B')
    if fn == 'sendData2Sided':
        eng.contracts['GraphTraverser::recvData2Sided'] = lambda e, t, v, s: e.events.append(Ev('drain', args=v, pc=s.pc))
    args = {'sendAndRecvData': [sb, dp, dk, kill], 'sendData2Sided': [sb, dp], 'recvData2Sided': [dp]}[fn]
    st, _ = cx.run(eng, 'GraphTraverser::' + fn, args, this=this, st=st)
    w.close()
    if any(l.depth for l in w.levels):
        raise Unsupported('nested loops')
    rank = lambda i: T.app('.'.join(rk + ('#e',)), (i,), 'I')
    size = lambda i: T.app('A.sb.#e.#n', (i,), 'I')
    dark = lambda i: T.app('A.dark.#e', (i,), 'B')

    def level(*names):
        x = [l for l in w.levels if {e.name for e in l.evs} & set(names)]
        if len(x) != 1:
            raise Unsupported('loops with ' + '/'.join(names))
        return x[0]

    def ranks(l, nm):
        if l.count is None:
            raise Unsupported('loop over ranks')
        cx.prove(nm + ': first rank', T.eq(l.start, I(0)), [], eng)
        cx.prove(nm + ': last rank', T.eq(l.bound, n), [], eng)
        return in_loop(l)

    def transfer(nm, e, hy, path, idx, off, bytes_, to, tag):
        if not isinstance(e.buf, Ptr):
            raise Unsupported('buffer')
        cx.decide(nm + ': buffer', e.buf.path == path and len(e.buf.idx) == len(idx), 'normal-form', e.buf)
        for a, b in zip(e.buf.idx, idx):
            cx.prove(nm + ': buffer of the rank', T.eq(a, b), hy, eng)
        z = mpi.SIZE.get(mpi.gname(e.type))
        if z is None:
            raise Unsupported('datatype')
        cx.prove(nm + ': place', T.eq(e.buf.off, off), hy, eng)
        cx.prove(nm + ': all bytes', T.eq(T.mul(I(z), e.n), bytes_), hy, eng)
        cx.prove(nm + ': partner', T.eq(e.rank, to), hy, eng)
        cx.decide(nm + ': among all ranks', mpi.gname(e.comm) == 'ompi_mpi_comm_world', 'normal-form')
        if tag is not None:
            cx.prove(nm + ': tag', T.eq(e.tag, tag), hy, eng)

        datatype(cx, {'size in': 'size', 'size out': 'size'}.get(nm, 'data') + ' of the traversal', e)

    def pushed(l, ev_list, path):
        """the requests of the iteration are appended, and no others"""
        q = path + ('#n',)
        d = T.sub(l.head.after.mem[q], l.head.head.mem[q]) if q in l.head.mod else I(0)
        cx.prove('every request is kept', T.eq(d, T.add(I(0), *[T.ite(e.pc, I(1), I(0)) for e in ev_list])), in_loop(l), eng)

    def received(l, e, tag, sz, got, hy):
        """e appends one message to the packets"""
        hd, af = l.head.head, l.head.after
        np_, ne = dp.path + ('#n',), dp.path + ('#e',)
        if ne in dict.fromkeys(l.head.mod) and l.ups.get(ne) is None:
            raise Unsupported('packets')
        old = eng.load(Loc(np_, (), ptype('size_t')), hd)
        T.NONNEG.update(x.info for x in (old,) if x.op in ('var', 'app'))
        transfer('message', e, hy + [e.pc], ne, (), old, sz, rank(got), tag)
        new = eng.load(Loc(np_, (), ptype('size_t')), af)
        cx.prove('packets grow by the message', T.eq(new, T.add(old, T.ite(e.pc, sz, I(0)))), hy, eng)
        k = uvar('k')
        rd = lambda s: eng.read(s.mem[ne], (k,), s)
        cx.prove('packets received before are kept', T.eq(rd(af), rd(hd)), hy + [T.lt(k, old)], eng)
        ups = [u for u in l.ups[ne] if any(x.info == 'msg0' for x in T.atoms_of(u.val, lambda y: y.op == 'app'))]
        if len(ups) != 1:
            raise Unsupported('message')
        cx.prove('packets end with the message', T.eq(rd(af), T.app('msg0', ups[0].val.args[:-1] + (T.sub(k, old),), 'I')), hy + [e.pc, T.le(old, k), T.lt(k, T.add(old, sz))], eng)

    TAG, extra = {}, []
    if fn == 'sendAndRecvData':
        A, B, C = level('Irecv'), level('Isend'), level('Waitany')
        hy = ranks(A, 'sizes to receive')
        e = one(A.evs, 'Irecv')
        i = A.sym
        cx.prove('a size is received from every rank that communicates', iff(e.pc, T.not_(dark(i))), hy, eng)
        sizes = e.buf.path
        transfer('size in', e, hy + [e.pc], sizes, (), i, I(8), rank(i), None)
        TAG['size'] = e.tag
        cx.prove('request of the size', T.and_(*[T.eq(x, i) for x in e.req.idx]), hy, eng)
        nulls(cx, eng, A, e, hy, i)
        cnt = [(hs, p) for hs, p in A.head.hsym.items() if hs is not i and T.atoms_of(C.bound, lambda y: y is hs)] if C.count is not None else []
        if len(cnt) != 1:
            raise Unsupported('number of receives')
        hs, p = cnt[0]
        # ghost: receives posted so far = iterations so far + (count - count at the start), or count - count at the start
        down = T.sub(A.head.after.mem[p], hs)
        start = A.head.st0.mem[p]
        if start is I(0):
            cx.prove('posted receives counted', T.eq(down, T.ite(e.pc, I(1), I(0))), hy, eng)
        else:
            cx.prove('receives counted from the number of ranks', T.eq(start, n), [], eng)
            cx.prove('posted receives counted', T.eq(down, T.ite(e.pc, I(0), I(-1))), hy, eng)
            extra.append(T.implies(T.and_(*hy), T.ge(hs, T.sub(n, i))))     # invariant: at most one receive fewer per iteration
        cx.prove('waits: first', T.eq(C.start, I(0)), [], eng)
        cx.prove('waits: one per posted receive', T.eq(C.bound, hs), [], eng)
        cx.decide('count kept between', all(p not in l.head.mod for l in (B, C)), 'normal-form')
        # sends
        hy = ranks(B, 'sends')
        i = B.sym
        es = [e for e in B.evs if e.name == 'Isend']
        if len(es) != 2:
            raise Unsupported('sends')
        e1 = [x for x in es if x.buf.path[:2] != sb.path]
        e2 = [x for x in es if x.buf.path[:2] == sb.path]
        if len(e1) != 1 or len(e2) != 1:
            raise Unsupported('sends')
        e1, e2 = e1[0], e2[0]
        cx.prove('a size is sent to every rank that communicates', iff(e1.pc, T.not_(dark(i))), hy, eng)
        sp = e1.buf.path
        transfer('size out', e1, hy + [e1.pc], sp, (), i, I(8), rank(i), TAG['size'])
        want = T.ite(kill, MAXU, size(i))
        rd = lambda s: eng.read(s.mem[sp], (i,), s)
        cx.prove('size out: number of bytes, or the end mark', T.eq(rd(e1.st), want), hy + [e1.pc], eng)
        cx.prove('size out: kept until sent', T.eq(rd(B.head.after), want), hy + [e1.pc], eng)
        rowwise(cx, B, sp, i)
        cx.decide('sizes out kept until sent', sp not in C.head.mod and all(sp[:-1] + ('#n',) not in l.head.mod for l in w.levels), 'normal-form')
        cx.prove('data are sent when there are any', iff(e2.pc, T.and_(T.not_(dark(i)), T.not_(kill), T.gt(size(i), I(0)))), hy, eng)
        transfer('data out', e2, hy + [e2.pc], sb.path + ('#e', '#e'), (i,), I(0), size(i), rank(i), None)
        TAG['data'] = e2.tag
        cx.prove('sizes and data do not meet', T.ne(TAG['size'], TAG['data']), [], eng)
        # waits
        e = one(C.evs, 'Waitany')
        hy = in_loop(C)
        cx.prove('every request is waited on', T.and_(T.eq(e.n, n), T.eq(e.reqs.off, I(0))), hy, eng)
        cx.decide('requests of the receives', e.reqs.path == one(A.evs, 'Irecv').req.path, 'normal-form')
        cx.decide('requests kept', all(e.reqs.path not in l.head.mod for l in (B, C)), 'normal-form')
        got, sz = e.rank, T.app('size.in', (C.head.t,), 'I')
        m = one(C.evs, 'Recv')
        cx.prove('a message follows every size but zero and the end mark', iff(m.pc, T.and_(T.gt(sz, I(0)), T.ne(sz, MAXU))), hy, eng)
        received(C, m, TAG['data'], sz, got, hy)
        q = uvar('q')
        old = lambda s: eng.read(s.mem[dk.path + ('#e',)], (q,), s)
        cx.prove('a rank that ends communication is marked', iff(old(C.head.after), T.or_(old(C.head.head), T.and_(T.eq(q, got), T.eq(sz, MAXU)))), hy, eng)
        done, S = one(eng.events, 'Waitall'), B
        reqp = done.reqs.path[:-1]
        pushed(B, es, reqp)
    elif fn == 'sendData2Sided':
        B, D = level('Isend'), level('Testall')
        hy = ranks(B, 'sends')
        i = B.sym
        e = one(B.evs, 'Isend')
        cx.prove('data are sent when there are any', iff(e.pc, T.gt(size(i), I(0))), hy, eng)
        transfer('data out', e, hy + [e.pc], sb.path + ('#e', '#e'), (i,), I(0), size(i), rank(i), None)
        tag2(cx, eng, e.tag)
        t = one(D.evs, 'Testall')
        dn = [p for p in D.head.mod if D.head.after.mem.get(p) is t.flag]
        if len(dn) != 1:
            raise Unsupported('end of the sends')
        nr = t.st.mem[t.reqs.path[:-1] + ('#n',)]
        cx.prove('wait until all sends are done', T.implies(T.ne(D.head.st0.mem[dn[0]], I(0)), T.eq(nr, I(0))), [], eng)
        sym = [h for h, p in D.head.hsym.items() if p == dn[0]]
        cx.prove('leave only when they are', T.implies(T.not_(D.head.cond_t), T.ne(sym[0], I(0))), [], eng)
        d = [x for x in D.evs if x.name == 'drain']
        cx.decide('messages are taken while waiting', len(d) == 1 and any(isinstance(x, Loc) and x.path == dp.path for x in d[0].args), 'normal-form')
        done = t
        reqp = t.reqs.path[:-1]
        pushed(B, [e], reqp)
        done.pc = TRUE
    else:
        L = level('Recv')
        hy = ranks(L, 'messages')
        i = L.sym
        p, m = one(L.evs, 'Iprobe'), one(L.evs, 'Recv')
        tag2(cx, eng, m.tag)
        cx.prove('looks for a message of every rank', T.and_(p.pc, T.eq(p.rank, rank(i)), T.eq(p.tag, m.tag)), hy, eng)
        cx.decide('among all ranks', mpi.gname(p.comm) == 'ompi_mpi_comm_world', 'normal-form')
        cx.prove('a message found is received', iff(m.pc, T.ne(p.flag, I(0))), hy, eng)
        c = one(L.evs, 'count')
        z = mpi.SIZE.get(mpi.gname(c.type))
        received(L, m, p.tag, T.mul(I(z), T.app('bytes.in', (L.head.t,), 'I')), i, hy)
        cx.discharge(eng, kinds=('index', 'sub', 'assert'))
        return
    nreq = done.st.mem.get(reqp + ('#n',))
    cx.prove('all requests are completed', T.and_(T.eq(done.n, nreq), T.eq(done.reqs.off, I(0))), [], eng)
    cx.prove('completed whenever there are any', T.implies(T.gt(nreq, I(0)), done.pc), [], eng)
    cx.prove('requests counted from none', T.eq(B.head.st0.mem.get(reqp + ('#n',), I(0)), I(0)), [], eng)
    for b in (sb.path,):
        cx.decide('send buffers not changed', not any(q[:2] == b for l in w.levels for q in l.head.mod), 'normal-form')
    cx.discharge(eng, extra, kinds=('index', 'sub', 'assert'))


def tag2(cx, eng, tag):
    """both functions of the two-sided scheme use this tag"""
    t = getattr(cx, 'tag2', None)
    if t is None:
        cx.tag2 = tag
    else:
        cx.prove('tag of sender and receiver', T.eq(tag, t), [], eng)


def rowwise(cx, l, path, i):
    ups, _ = chain(l.head.after.mem.get(path))
    if not all(not u.params and u.addr[-1] is i for u in ups):
        raise Unsupported('words of other ranks')


def nulls(cx, eng, l, ev, hy, i):
    """a rank without a posted receive has a null request"""
    rowwise(cx, l, ev.req.path, i)
    v = [u for u in chain(l.head.after.mem[ev.req.path])[0] if not (isinstance(u.val, Ptr) and u.val.path == ('request',))]
    cx.prove('no request without a receive', T.or_(ev.pc, *[u.guard for u in v]), hy, eng)


SWP = 'src/Sweeper.cc'


def prod(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = T.mul(r, x)
    return r


def one_call(qname):
    return 'Sweeper.cc: ' + qname


def sweeper(cx, fn):
    """the scheduled sweep's communication: rows of data per (angle group, rank)"""
    eng = cx.engine(SWP, 'src/Comm.cc', 'src/TychoMesh.cc')
    eng.events = []
    st = State()
    mesh(eng, st)
    nG, nA, nC, nS = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells'), T.var('.'.join(MESH + ('c_nSides',)), 'I')
    eng.map_hook = Maps()
    calls(eng)
    st.mem[MESH + ('c_lGSides', 'c_xlen')] = nS
    st.mem[MESH + ('c_lGSides', '#n')] = nS
    pb = obj('psiBound', 'PsiBoundData')
    phase(eng, st, pb)
    pbe = pb.path + ('#e',)
    csa, cp = obj('csa', 'Mat2<std::vector<UINT>>'), obj('cp', 'Mat2<std::vector<double>>')
    nP, nT = uvar('nRanks'), gvar('g_nAngleGroups')
    dims(eng, st, csa, nT, nP)
    dims(eng, st, cp, nT, nP)
    T.NONNEG.update(('A.csa.#e.#n', 'A.cp.#e.#n', 'A.csa.#e.#e'))
    cell, angle, step, ag = uvar('cell'), uvar('angle'), uvar('step'), uvar('ag')
    eng.facts += in_range((cell, nC), (angle, nA), (ag, nT))
    adjc, adjr, sd = (lambda f: mapp('c_adjCell', cell, I(f))), (lambda f: mapp('c_adjProc', cell, I(f))), (lambda f: mapp('c_side', cell, I(f)))
    out = lambda f: T.gt(mapp('c_omegaDotN', angle, cell, I(f)), R(0))
    # representation invariant of the mesh (P13): boundary faces have sides of their own
    bnd = [T.implies(T.eq(adjc(f), BOUNDARY), T.lt(sd(f), nS)) for f in Q]
    bnd += [T.implies(T.and_(T.eq(adjc(f), BOUNDARY), T.eq(adjc(q), BOUNDARY)), T.ne(sd(f), sd(q))) for f in Q for q in range(f)]
    bnd += [T.implies(T.ne(adjr(f), BOUNDARY), T.lt(adjr(f), nP)) for f in Q]
    g, v, b, s3 = uvar('g'), uvar('v'), uvar('b'), uvar('s3')
    val = lambda g, v, a, s: T.app('A.psiBound.#e', (g, v, a, s), 'R')
    # class invariant of the rows: two words and 3 nG values per entry
    rn, rm = (lambda p: T.app('A.csa.#e.#n', p, 'I')), (lambda p: T.app('A.cp.#e.#n', p, 'I'))
    q0 = lambda p: T.app('entries', p, 'I')
    T.NONNEG.add('entries')
    eng.axioms.add('A.csa.#e.#n', lambda p: [T.eq(rn(p), T.mul(I(2), q0(p))), T.eq(rm(p), prod(I(3), nG, q0(p)))])
    eng.axioms.add('A.cp.#e.#n', lambda p: [T.eq(rm(p), prod(I(3), nG, q0(p)))])

    if fn == 'updateBoundData':
        lp = obj('lp', 'Mat2<double>')
        dims(eng, st, lp, 4, nG)
        cx.run(eng, fn, [cell, angle, pb, lp], st=st)
        h = in_range((g, nG), (b, nA), (s3, nS)) + bnd
        for k in V3:
            got = lambda a, s: eng.read(st.mem[pbe], (g, I(k), a, s), st)
            mine = T.FALSE
            for f in Q:
                cond = T.and_(T.eq(adjc(f), BOUNDARY), out(f))
                want = T.app('A.lp.#e', (mapp('c_faceToCellVrtx', cell, I(f), I(k)), g), 'R')
                cx.prove('face %d, vertex %d: outgoing flux' % (f, k), T.eq(got(angle, sd(f)), want), h + [cond], eng)
                mine = T.or_(mine, T.and_(cond, T.eq(b, angle), T.eq(s3, sd(f))))
            cx.prove('vertex %d: nothing else' % k, T.eq(got(b, s3), val(g, I(k), b, s3)), h + [T.not_(mine)], eng)
        cx.discharge(eng, bnd, kinds=('index', 'sub', 'assert'))
    elif fn == 'getBoundData':
        vec = obj('v', 'std::vector<double>')
        st.mem[vec.path + ('#n',)] = T.mul(I(3), nG)
        T.NONNEG.add('A.v.#n')
        cx.run(eng, fn, [pb, s3, angle, vec], st=st)
        eng.facts += in_range((s3, nS))
        for k in V3:
            got = eng.read(st.mem[vec.path + ('#e',)], (T.add(I(k), T.mul(I(3), g)),), st)
            cx.prove('vertex %d: the boundary value' % k, T.eq(got, val(g, I(k), angle, s3)), in_range((g, nG)), eng)
        cx.discharge(eng, kinds=('index', 'sub', 'assert'))
    elif fn == 'updateComm':
        eng.contracts['omp_get_thread_num'] = lambda e, t, w, s: ag
        eng.contracts['getBoundData'] = bound_data(pb)
        cx.run(eng, fn, [cell, angle, pb, csa, cp], st=st)
        send = lambda f: T.and_(T.eq(adjc(f), BOUNDARY), out(f), T.ne(adjr(f), BOUNDARY))
        p, j, a2 = uvar('p'), uvar('j'), uvar('ag2')
        count = lambda r, fs: T.add(I(0), *[T.ite(T.and_(send(f), T.eq(adjr(f), r)), I(1), I(0)) for f in fs])
        ne, nn = csa.path + ('#e', '#e'), csa.path + ('#e', '#n')
        me, mn = cp.path + ('#e', '#e'), cp.path + ('#e', '#n')
        if any(x not in st.mem for x in (ne, nn, me, mn)):
            raise Unsupported('rows')
        rd = lambda x, *ix: eng.read(st.mem[x], ix, st)
        cx.prove('two words per face towards the rank', T.eq(rd(nn, ag, p), T.add(rn((ag, p)), T.mul(I(2), count(p, Q)))), bnd, eng)
        cx.prove('3 nG values per face towards the rank', T.eq(rd(mn, ag, p), T.add(rm((ag, p)), prod(I(3), nG, count(p, Q)))), bnd, eng)
        for x, m in ((nn, lambda: rn((a2, p))), (mn, lambda: rm((a2, p)))):
            cx.prove('other angle groups unchanged', T.eq(rd(x, a2, p), m()), [T.ne(a2, ag)] + bnd, eng)
        cx.prove('earlier words kept', T.eq(rd(ne, a2, p, j), T.app('A.csa.#e.#e', (a2, p, j), 'I')), [T.lt(j, rn((a2, p)))] + bnd, eng)
        cx.prove('earlier values kept', T.eq(rd(me, a2, p, j), T.app('A.cp.#e.#e', (a2, p, j), 'R')), [T.lt(j, rm((a2, p)))] + bnd, eng)
        lg = lambda s: T.app('.'.join(MESH + ('c_lGSides', '#e')), (s,), 'I')
        orders = [list(Q), list(reversed(Q))]
        from vc import prove as PR

        def word(order, f, o):
            k = T.add(rn((ag, adjr(f))), T.mul(I(2), count(adjr(f), order[:order.index(f)])), I(o))
            return rd(ne, ag, adjr(f), k)
        order = orders[0]
        if not PR.valid(T.eq(word(order, 1, 0), lg(sd(1))), list(eng.facts) + bnd + [send(1)], eng.axioms, 4000)[0]:
            order = orders[1]
        for f in Q:
            h = bnd + [send(f)]
            cx.prove('face %d: side' % f, T.eq(word(order, f, 0), lg(sd(f))), h, eng)
            cx.prove('face %d: angle' % f, T.eq(word(order, f, 1), angle), h, eng)
            for w in V3:
                k = T.add(rm((ag, adjr(f))), prod(I(3), nG, count(adjr(f), order[:order.index(f)])), I(w), T.mul(I(3), g))
                # (by cases: how many earlier faces go to the same rank, so that positions are polynomials)
                split(cx, eng, 'face %d: values of vertex %d' % (f, w), [T.and_(send(q), T.eq(adjr(q), adjr(f))) for q in order[:order.index(f)]],
                      lambda n: T.eq(rd(me, ag, adjr(f), T.add(rm((ag, adjr(f))), T.mul(I(3 * n), nG), I(w), T.mul(I(3), g))), T.app('boundary', (T.add(I(w), T.mul(I(3), g)), angle, sd(f)), 'R')), h + in_range((g, nG)))
        cx.discharge(eng, bnd, kinds=('index', 'sub', 'assert'))
    elif fn == 'send':
        ns, rq = obj('ns', 'std::list<std::vector<UINT>>'), obj('rq', 'std::vector<struct ompi_request_t *>')
        T.NONNEG.update(('A.ns.#n', 'A.rq.#n'))
        w = Walk(eng, lambda x: x[:2] in (csa.path, cp.path, ns.path, rq.path), ['Isend'])
        f = eng.find('send', 6)
        cx.run(eng, 'send', [step, ag, csa, cp, rq, ns], st=st)
        w.close()
        L, row, hy, steps = ranks_of(cx, eng, w, 'c_sendProcs', step, ag)
        es = [e for e in L.evs if e.name == 'Isend']
        if len(es) != 3:
            raise Unsupported('messages')
        hd, af = L.head.head, L.head.after
        r = row
        hy = hy + [T.lt(r, nP)]
        rdh = lambda x: eng.read(hd.mem[x], (ag, r), hd) if x in hd.mem else T.app('.'.join(x), (ag, r), 'I')
        nw, nv = rdh(csa.path + ('#e', '#n')), rdh(cp.path + ('#e', '#n'))
        T.NONNEG.update(x.info for x in (nw, nv) if x.op == 'app')
        q = uvar('q')
        inv = [T.eq(nw, T.mul(I(2), q)), T.eq(nv, prod(I(3), nG, q))]
        named = {}
        for e in es:
            k = {csa.path: 'words', cp.path: 'values', ns.path: 'sizes'}.get(e.buf.path[:2])
            if k is None or k in named:
                raise Unsupported('message')
            named[k] = e
        for k, first, cnt, at, cond in (('sizes', 0, I(2), None, TRUE), ('words', 1, T.mul(I(2), q), (ag, r), T.gt(q, I(0))), ('values', 2, prod(I(3), nG, q), (ag, r), T.gt(q, I(0)))):
            e = named[k]
            z = mpi.SIZE.get(mpi.gname(e.type))
            cx.prove(k + ': sent', iff(e.pc, cond), hy + inv, eng)
            cx.prove(k + ': all of them', T.and_(T.eq(T.mul(I(z), e.n), T.mul(I(8), cnt)), T.eq(e.buf.off, I(0))), hy + inv + [e.pc], eng)
            cx.prove(k + ': destination', T.eq(e.rank, r), hy + inv, eng)
            tags(cx, eng, k, e.tag, ag)
            datatype(cx, k, e)
            cx.decide(k + ': among all ranks', mpi.gname(e.comm) == 'ompi_mpi_comm_world', 'normal-form')
            if at is not None:
                cx.prove(k + ': row', T.and_(*[T.eq(x, y) for x, y in zip(e.buf.idx, at)]), hy, eng)
        e = named['sizes']
        for i, want in ((0, q), (1, prod(I(3), nG, q))):
            cx.prove('sizes: word %d' % i, T.eq(eng.read(e.st.mem[ns.path + ('#e', '#e')], e.buf.idx + (I(i),), e.st), want), hy + inv, eng)
            cx.prove('sizes: word %d kept until sent' % i, T.eq(eng.read(af.mem[ns.path + ('#e', '#e')], e.buf.idx + (I(i),), af), want), hy + inv, eng)
        old = hd.mem.get(ns.path + ('#n',))
        j, k = uvar('j'), uvar('k')
        if old is None:
            raise Unsupported('sizes')
        T.NONNEG.update(x.info for x in (old,) if x.op in ('var', 'app'))
        cx.prove('sizes: earlier ones kept', T.eq(eng.read(af.mem[ns.path + ('#e', '#e')], (j, k), af), eng.read(hd.mem[ns.path + ('#e', '#e')], (j, k), hd)), hy + [T.lt(j, old)], eng)
        cx.decide('sizes: references survive later insertions', 'list' in f.params[5]['type']['qualType'] or 'deque' in f.params[5]['type']['qualType'], 'normal-form')
        cx.decide('data kept until sent', not any(x[-2:] == ('#e', '#e') and x[:2] in (csa.path, cp.path) for x in L.head.mod), 'normal-form')
        for x, nm in ((csa.path, 'words'), (cp.path, 'values')):
            got = lambda s, *ix: eng.read(s.mem[x + ('#e', '#n')], ix, s) if x + ('#e', '#n') in s.mem else T.app('.'.join(x + ('#e', '#n')), ix, 'I')
            cx.prove(nm + ': row empty afterwards', T.eq(got(af, ag, r), I(0)), hy, eng)
            cx.prove(nm + ': other rows unchanged', T.eq(got(af, j, k), got(hd, j, k)), hy + [T.or_(T.ne(j, ag), T.ne(k, r))], eng)
        p = rq.path + ('#n',)
        cx.prove('every request is kept', T.eq(T.sub(af.mem[p], hd.mem[p]), T.add(*[T.ite(e.pc, I(1), I(0)) for e in es])), hy + inv, eng)
        cx.discharge(eng, hy, kinds=('index', 'sub', 'assert'))
    elif fn == 'recv':
        w = Walk(eng, lambda x: x == pbe, ['Recv'], maxdepth=2)
        st, _ = cx.run(eng, 'recv', [step, ag, pb], st=st)
        w.close()
        L, r, hy, steps = ranks_of(cx, eng, w, 'c_recvProcs', step, ag)
        es = [e for e in L.evs if e.name == 'Recv']
        kids = [c for c in L.children if pbe in c.ups]
        if len(es) != 3 or len(kids) != 1 or kids[0].count is None or L.children != kids:
            raise Unsupported('messages received')
        t = L.head.t
        msg = lambda n, k: T.app('msg%d' % n, (t, k), 'R' if n == 2 else 'I')
        T.NONNEG.update(('msg0', 'msg1'))
        q = msg(0, I(0))
        rely = [T.eq(msg(0, I(1)), prod(I(3), nG, q))]        # what send sends
        eng.axioms.add('msg1', lambda i: [T.app('map.gl.has', (T.app('msg1', i, 'I'),), 'B'), T.lt(T.app('msg1', i, 'I'), nA), T.lt(T.app('map.gl', (T.app('msg1', i, 'I'),), 'I'), nS)])
        for i, (k, cnt, cond) in enumerate((('sizes', I(2), TRUE), ('words', T.mul(I(2), q), T.gt(q, I(0))), ('values', prod(I(3), nG, q), T.gt(q, I(0))))):
            e = es[i]
            z = mpi.SIZE.get(mpi.gname(e.type))
            cx.prove(k + ': received', iff(e.pc, cond), hy + rely, eng)
            cx.prove(k + ': all of them', T.and_(T.eq(T.mul(I(z), e.n), T.mul(I(8), cnt)), T.eq(e.buf.off, I(0))), hy + rely + [e.pc], eng)
            cx.prove(k + ': source', T.eq(e.rank, r), hy, eng)
            tags(cx, eng, k, e.tag, ag)
            datatype(cx, k, e)
            cx.decide(k + ': among all ranks', mpi.gname(e.comm) == 'ompi_mpi_comm_world', 'normal-form')
        U = kids[0]
        i = U.sym
        cx.prove('entries: first', T.eq(U.start, I(0)), hy, eng)
        cx.prove('entries: all', T.eq(U.bound, q), hy + [T.gt(q, I(0))], eng)
        cx.prove('entries taken whenever there are any', iff(U.head.st0.pc, T.gt(q, I(0))), hy, eng)
        side, an = T.app('map.gl', (msg(1, T.mul(I(2), i)),), 'I'), msg(1, T.add(T.mul(I(2), i), I(1)))
        hu = hy + rely + in_loop(U) + [U.head.st0.pc] + in_range((g, nG), (b, nA), (s3, nS), (i, q))
        mine = T.and_(T.eq(b, an), T.eq(s3, side))
        for k in V3:
            got = eng.read(U.head.after.mem[pbe], (g, I(k), b, s3), U.head.after)
            old = eng.read(U.head.head.mem[pbe], (g, I(k), b, s3), U.head.head)
            cx.prove('entry, vertex %d: the value received' % k, T.eq(got, msg(2, T.add(prod(I(3), nG, i), I(k), T.mul(I(3), g)))), hu + [mine], eng)
            cx.prove('entry, vertex %d: nothing else' % k, T.eq(got, old), hu + [T.not_(mine)], eng)
        d = T.sub(q, i)
        ext = rely + [T.implies(T.ge(d, I(1)), T.ge(T.mul(nG, d), nG))]
        cx.discharge(eng, ext, kinds=('index', 'sub', 'assert'))


def bound_data(pb):
    """contract of getBoundData (proved above): boundary(v + 3g, angle, side) = psiBound(g, v, angle, side)"""
    def f(e, t, w, s):
        if w[0].path != pb.path or not isinstance(w[3], Loc) or w[3].idx:
            raise Unsupported('boundary data')
        p = w[3].path + ('#e',)
        e.note_write(p)
        s.mem[p] = Fn(lambda ix: T.app('boundary', (ix[0], w[2], w[1]), 'R'))
        e.obl('index', T.eq(e.load(Loc(w[3].path + ('#n',), (), ptype('size_t')), s), T.mul(I(3), gvar('g_nGroups'))), s, 'precondition: room for the values of a side')
    return f


class Spin(Head):
    allow_break = True


def sweep_order(cx, ty):
    """Sweeper::sweep: in every step each angle group computes, sends, receives, and its requests are completed before the
    buffers are used again"""
    eng = cx.engine(SWP, 'src/Comm.cc', 'src/TychoMesh.cc')
    eng.events = []
    st = State()
    mesh(eng, st)
    num = dict(kv for tu in eng.tus for kv in getattr(tu, 'enum_names', {}).items())
    if ty not in num:
        raise Unsupported('sweep types')
    st.mem[('G', 'g_sweepType')] = I(num[ty])
    calls(eng)
    nAG, tid = gvar('g_nAngleGroups'), uvar('tid')
    eng.facts += in_range((tid, nAG), (I(0), nAG))

    def rec(nm):
        def f(e, t, v, s):
            e.events.append(Ev(nm, args=v, pc=s.pc, st=s.copy()))
            if nm == 'send':                      # appends requests and message sizes
                for o in v[4:6]:
                    if isinstance(o, Loc) and not o.idx:
                        for q in ('#n', '#e'):
                            e.note_write(o.path + (q,))
                        s.mem[o.path + ('#n',)] = e.nonneg_fresh('sent')
                        s.mem[o.path + ('#e',)] = Base(T.fresh_name('sent'), 'I')
        eng.contracts[nm] = f
    for nm in ('doComputation', 'send', 'recv'):
        rec(nm)
    eng.contracts['Comm::barrier'] = lambda e, t, v, s: e.events.append(Ev('barrier', pc=s.pc, args=(), st=s.copy()))
    eng.contracts['Comm::numRanks'] = lambda e, t, v, s: uvar('nRanks')
    eng.contracts['Comm::rank'] = lambda e, t, v, s: uvar('myrank')
    eng.contracts['Comm::gmax'] = lambda e, t, v, s: None
    eng.contracts['omp_get_thread_num'] = lambda e, t, v, s: tid
    for m in ('start', 'stop', 'wall_clock'):
        eng.contracts['Timer::' + m] = lambda e, t, v, s: R(0)
    w = Walk(eng, lambda p: False, ['send', 'recv', 'Waitall', 'doComputation'])
    wo = 'G.g_sweepSchedule.*.*.c_workOrders.#n'
    T.NONNEG.add(wo)
    nsteps = lambda i: T.app(wo, (i,), 'I')
    most = []

    def maximum(e, s, cond, body, inc, node):
        """a loop that keeps the largest number of steps (invariant: not less than that of any group seen)"""
        h = Head(e, s, cond, body, inc, node)
        n0, b0 = len(e.events), len(e.obls)
        try:
            h.iterate()
        except Unsupported:
            del e.events[n0:], e.obls[b0:]
            return None
        del e.obls[b0:]
        if len(e.events) > n0:
            del e.events[n0:]
            return None
        lv = type('L', (), {})()
        w.counter(lv, h)
        if lv.count is None or most:
            return None
        from vc import prove as PR
        for hs, p in h.hsym.items():
            if p == lv.cpath or hs.sort != 'I':
                continue
            new = h.after.mem[p]
            if PR.valid(T.and_(T.ge(new, hs), T.ge(new, nsteps(lv.sym))), [h.cond_t], e.axioms, 2000)[0]:
                most.append((hs, lv.start, lv.bound, s.mem[p]))
                ex = h.exit()
                ex.pc = h.st0.pc
                return Out(norm=ex)
        return None

    def hook(e, s, cond, body, inc, node):
        try:
            c = cond(s.copy())
        except Unsupported:
            c = None
        if c is TRUE:                               # waiting for another thread
            return Out(norm=Spin(e, s, cond, body, inc, node).iterate().left())
        if w.depth == 0 and not any(x.name == 'doComputation' for x in e.events):
            r = maximum(e, s, cond, body, inc, node)
            if r is not None:
                return r
        return w.hook(e, s, cond, body, inc, node)
    eng.loop_hook = hook
    psi, src = obj('psi', 'PsiData'), obj('src', 'PsiData')
    cx.run(eng, 'Sweeper::sweep', [psi, src, T.var('z', 'B')], this=obj('sw', 'Sweeper'), st=st)
    w.close()
    def sends(l):
        return any(x.name == 'doComputation' for x in l.evs)
    top = [l for l in w.levels if l.depth == 0 and sends(l)]
    if len(top) != 1 or top[0].count is None or not most:
        raise Unsupported('loop over steps %d %d' % (len(top), len(most)))
    L = top[0]
    hs, lo, hi, m0 = most[0]
    i = uvar('i')
    inv = [T.ge(hs, m0), T.implies(T.and_(T.le(lo, i), T.lt(i, hi)), T.ge(hs, nsteps(i)))]
    cx.prove('first step', T.eq(L.start, I(0)), [], eng)
    cx.prove('every step of every angle group', T.ge(L.bound, nsteps(i)), inv + in_range((i, nAG)), eng)
    evs = [e for e in L.evs if e.name in ('doComputation', 'send', 'recv', 'Waitall', 'barrier')]
    names = [e.name for e in evs]
    cx.decide('compute, send, receive, complete', names[:4] == ['doComputation', 'send', 'recv', 'Waitall'] and names[4:] in ([], ['barrier']), 'normal-form', names)
    if names[:4] != ['doComputation', 'send', 'recv', 'Waitall']:
        return
    hy = in_loop(L)
    C, S, V, W = evs[:4]
    cx.prove('each thread computes its angle group', T.and_(C.pc, T.eq(C.args[0], L.sym), T.eq(C.args[1], tid)), hy, eng)
    for e in (S, V):
        cx.prove(e.name + ': the current step', T.eq(e.args[0], L.sym), hy, eng)
        if L.children:
            k = [c for c in L.children if any(x.name == e.name for x in c.evs)]
            if len(k) != 1 or k[0].count is None:
                raise Unsupported('loop over angle groups')
            k = k[0]
            cx.prove(e.name + ': every angle group', T.and_(T.eq(k.start, I(0)), T.eq(k.bound, nAG), T.eq(e.args[1], k.sym), k.head.st0.pc, e.pc), hy + in_loop(k), eng)
        else:
            cx.prove(e.name + ': the angle group of the thread', T.eq(e.args[1], tid), hy, eng)
    same = lambda a, b: isinstance(a, Loc) and isinstance(b, Loc) and a.path == b.path and a.idx == b.idx
    cx.decide('rows sent are the rows computed', same(C.args[4], S.args[2]) and same(C.args[5], S.args[3]), 'normal-form')
    cx.decide('boundary data received are those computed with', same(C.args[6], V.args[2]), 'normal-form')
    rq = S.args[4].path
    cx.decide('the requests completed are those of the sends', isinstance(W.reqs, Ptr) and W.reqs.path == rq + ('#e',) and W.reqs.off is I(0), 'normal-form')
    cx.prove('all of them', T.eq(W.n, W.st.mem[rq + ('#n',)]), hy, eng)
    first = [c for c in L.children if any(x.name == 'send' for x in c.evs)]
    s0 = first[0].head.st0 if first else S.st
    for o, nm in ((S.args[4].path, 'requests'), (S.args[5].path, 'message sizes')):
        cx.prove('a step starts without ' + nm, T.eq(s0.mem.get(o + ('#n',), uvar('?')), I(0)), hy, eng)
    if first:
        cx.prove('completed in every step', W.pc, hy, eng)
    else:
        turn = T.atoms_of(S.pc, lambda y: y in L.head.hsym and y is not L.sym)
        if len(turn) != 1:
            raise Unsupported('turns')
        p = L.head.hsym[turn[0]]
        cx.prove('a thread communicates on its turn', T.implies(T.or_(S.pc, V.pc), T.eq(turn[0], tid)), hy, eng)
        cx.prove('its requests are completed', T.implies(S.pc, W.pc), hy, eng)
        nxt = L.head.after.mem[p]
        nt = T.add(tid, I(1))
        cx.prove('the next thread is next', T.eq(nxt, T.ite(T.eq(nt, nAG), I(0), nt)), hy + [S.pc], eng)


def split(cx, eng, name, conds, goal, hyps):
    """cases over which of the conditions hold; the goal depends on how many do"""
    import itertools
    for c in itertools.product((False, True), repeat=len(conds)):
        h = [x if y else T.not_(x) for x, y in zip(conds, c)]
        cx.prove(name, goal(sum(c)), hyps + h, eng)


def ranks_of(cx, eng, w, lst, step, ag):
    """the loop over the ranks of the step"""
    top = [l for l in w.levels if l.depth == 0]
    if len(top) != 1 or top[0].count is None:
        raise Unsupported('loop over ranks')
    L = top[0]
    p = 'G.g_sweepSchedule.*.*.%s.#e' % lst
    n = T.app(p + '.#n', (ag, step), 'I')
    r = T.app(p + '.#e', (ag, step, L.sym), 'I')
    T.NONNEG.update((p + '.#n', p + '.#e'))
    T.NONNEG.add('G.g_sweepSchedule.*.*.c_workOrders.#n')
    steps = T.app('G.g_sweepSchedule.*.*.c_workOrders.#n', (ag,), 'I')
    hy = [T.lt(step, steps)] + in_loop(L)
    cx.prove('in every step of the schedule', iff(L.head.st0.pc, T.lt(step, steps)), [], eng)
    cx.prove('first rank', T.eq(L.start, I(0)), hy, eng)
    cx.prove('last rank', T.eq(L.bound, n), hy, eng)
    for x in ('c_workOrders', 'c_sendProcs', 'c_recvProcs'):
        T.NONNEG.add('G.g_sweepSchedule.*.*.%s.#n' % x)
        q = 'G.g_sweepSchedule.*.*.%s.#n' % x
        eng.axioms.add(q, lambda i, q=q: [T.eq(T.app(q, i, 'I'), T.app('G.g_sweepSchedule.*.*.c_workOrders.#n', i, 'I'))] if 'workOrders' not in q else [])
    return L, r, hy, steps


def datatype(cx, k, e):
    d = cx.__dict__.setdefault('types9', {})
    n = mpi.gname(e.type)
    if k in d:
        cx.decide(k + ': datatype of sender and receiver', n == d[k], 'normal-form', (n, d[k]))
    d[k] = n


def tags(cx, eng, k, tag, ag):
    """sender and receiver use the same tag for each message, the three messages of an angle group different ones, and so do
    the messages of different angle groups"""
    d = cx.__dict__.setdefault('tags9', {})
    if k in d:
        cx.prove(k + ': tag of sender and receiver', T.eq(tag, d[k]), [], eng)
    else:
        a2 = uvar('ag2')
        for o, t in d.items():
            cx.prove('%s and %s do not meet' % (k, o), T.ne(tag, T.subst(t, {ag: a2})), [], eng)
        cx.prove(k + ': other angle groups do not meet', T.ne(tag, T.subst(tag, {ag: a2})), [T.ne(ag, a2)], eng)
        d[k] = tag


def prove(cx):
    with cx.unit('createPacket, splitPacket'):
        packet(cx)
    with cx.unit('SweepData::getData, setSideData, getDataSizeInBytes'):
        face_data(cx)
    with cx.unit('CommSides::commSides'):
        sides(cx)
    with cx.unit('CommSides::CommSides'):
        sides_ctor(cx)
    for fn in ('sendAndRecvData', 'sendData2Sided', 'recvData2Sided'):
        with cx.unit('GraphTraverser::' + fn):
            raw(cx, fn)
    for fn in ('updateBoundData', 'getBoundData', 'updateComm', 'send', 'recv'):
        with cx.unit(one_call(fn)):
            sweeper(cx, fn)
    for ty in ('SweepType_OriginalTycho1', 'SweepType_OriginalTycho2'):
        with cx.unit('Sweeper::sweep (%s)' % ty):
            sweep_order(cx, ty)
    cx.theorems('Steps', {'lexicographic': 'cursors advanced in nested loops: positions are ordered like the iterations', 'rowwise': 'a table filled row by row holds the value of each row',
                          'arbitrary_iteration': 'what one arbitrary step keeps and does, every step does'})
