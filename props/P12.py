from vc.ctx import *
from vc.walk import Walk, in_loop
from vc.exec import Fn, Base, FnVal, Opaque, ptype, CONTENTS
from vc.congr import same

COL, MET = 'util/PartitionColumns.cc', 'util/PartitionMetis.cc'


class Ev(object):
    def __init__(self, name, **k):
        self.name = name
        self.__dict__.update(k)


def low(n, m, t):
    """start of chunk t when n items are split into m chunks"""
    return T.add(T.mul(t, T.idiv(n, m)), T.imin(t, T.imod(n, m)))


def prove(cx):
    with cx.unit('splitIntoChunks'):
        eng = cx.engine(COL)
        n, m, t = uvar('n'), uvar('m'), uvar('t')
        eng.facts += [T.lt(I(0), m)]
        cx.satisfiable(eng)
        st, r = cx.run(eng, 'splitIntoChunks', [n, m], st=State())
        cx.prove('one boundary more than chunks', T.eq(st.mem[r.path + ('#n',)], m + I(1)), [st.pc])
        cx.prove('boundary t is t*(n/m) + min(t, n mod m)', T.eq(eng.read(st.mem[r.path + ('#e',)], r.idx + (t,), st), low(n, m, t)), [st.pc, T.le(t, m)])
        cx.discharge(eng)

    with cx.unit('lemma: chunks are contiguous and even'):
        eng = cx.engine(COL)
        n, m, t, u = uvar('n'), uvar('m'), uvar('t'), uvar('u')
        pos = [T.lt(I(0), m)]
        q, r = T.idiv(n, m), T.imod(n, m)
        cx.prove('first boundary is 0', T.eq(low(n, m, I(0)), I(0)), pos)
        cx.prove('last boundary is n', T.eq(low(n, m, m), n), pos)
        d = low(n, m, t + I(1)) - low(n, m, t)
        cx.prove('chunk sizes are n/m or n/m+1', T.or_(T.eq(d, q), T.eq(d, q + I(1))), pos)
        k = uvar('k')
        prod = T.mul(k, q)
        cx.prove('boundaries do not decrease', T.le(low(n, m, t), T.add(T.mul(t, q), T.add(prod, T.imin(t + k, r)))), pos + [T.le(I(0), prod)])

    with cx.unit('lemma: the columns tile the sorted list'):
        eng = cx.engine(COL)
        N, nx, ny, i = uvar('N'), uvar('nx'), uvar('ny'), uvar('i')
        pos = [T.lt(I(0), nx), T.lt(I(0), ny), T.lt(i, nx)]
        ni = T.sub(low(N, nx, i + I(1)), low(N, nx, i))
        cx.prove('columns of slab i start where the slab starts', T.eq(T.add(low(N, nx, i), low(ni, ny, I(0))), low(N, nx, i)), pos)
        cx.prove('the last column of slab i ends where slab i+1 starts', T.eq(T.add(low(N, nx, i), low(ni, ny, ny)), low(N, nx, i + I(1))), pos)
        a, b, pa, pb, i2 = (uvar(x) for x in ('a', 'b', 'pa', 'pb', 'i2'))
        xs = lambda k: T.app('xs', (k,), 'R')
        e1, s2 = low(N, nx, i + I(1)), low(N, nx, i2)
        cx.prove('cells of a lower x-slab have no larger centroid x', T.le(xs(pa), xs(pb)),
                 [T.lt(pa, e1), T.le(s2, pb), T.le(e1, s2), T.implies(T.lt(pa, pb), T.not_(T.lt(xs(pb), xs(pa))))])

    with cx.unit('compareX, compareY'):
        eng = cx.engine(COL)
        for f, ax in (('compareX', 0), ('compareY', 1)):
            comparator(cx, eng, FnVal(f, None), ax, f)
        cx.discharge(eng)

    with cx.unit('partitionMesh (columns)'):
        columns(cx)
    with cx.unit('partitionMesh (graph)'):
        graph(cx)
    with cx.unit('main (columns)'):
        main(cx, COL, 5)
    with cx.unit('main (graph)'):
        main(cx, MET, 4)
    cx.theorems('Steps', {'kept_entries_fit': 'entries kept fit in as many places as there are codes', 'prefix_disjoint': 'chunks one after the other do not overlap'})
    cx.assume('std::sort permutes exactly the elements of the range given and leaves them in the order of the comparator')
    cx.assume('METIS_PartGraphKway returns METIS_OK only after storing a part number below nparts for every vertex')
    cx.assume('cell, face and part counts fit in the signed 32-bit idx_t and int of the tools')


def comparator(cx, eng, fv, ax, name):
    a, b = obj('c1', 'Centroid'), obj('c2', 'Centroid')
    st = State()
    f = eng.resolve(fv.node) if fv.node is not None else eng.find(fv.name)
    if f is None:
        raise Unsupported('comparator')
    r = eng.call_func(f, None, st, this=None, argvals=[a, b])
    if fv.name not in cx.functions:
        cx.functions.append(fv.name)
    co = lambda o: eng.read(content_at(eng, o.path + ('coord',)), (I(ax),), st)
    cx.prove('%s compares centroid coordinate %d' % (name, ax), T.iff(r, T.lt(co(a), co(b))) if hasattr(T, 'iff') else T.eq(r, T.lt(co(a), co(b))), [st.pc])


def content_at(eng, p, sort='R'):
    return Base('.'.join(p), sort)


def columns(cx):
    eng = cx.engine(COL)
    eng.events = []
    nx, ny, N = uvar('nx'), uvar('ny'), uvar('N')
    eng.facts += [T.lt(I(0), nx), T.lt(I(0), ny)]
    st = State()
    sm, pv = obj('sm', 'SerialMesh'), obj('pv', 'std::vector<unsigned long>')
    nm = lambda *p: '.'.join(('A', 'sm') + p)
    for k in ('c_numCells', 'c_numFaces', 'c_numNodes'):
        st.mem[sm.path + (k,)] = N if k == 'c_numCells' else uvar(k)
    for v, c in (('c_cellData', N), ('c_nodeData', uvar('c_numNodes')), ('c_faceData', uvar('c_numFaces'))):
        st.mem[sm.path + (v, '#n')] = c
    st.mem[pv.path + ('#n',)] = N
    node = nm('c_cellData', '#e', 'boundingNodes')
    T.NONNEG.add(node)
    eng.axioms.add(node, lambda i: [T.lt(T.app(node, i, 'I'), uvar('c_numNodes'))])
    cents, cur, yv = [], {}, {}

    def split(e, this, a, s):
        l = Loc(('L%d' % e.frame, 'split@%d' % e.uid()), (), ptype('std::vector<unsigned long>'))
        s.mem[l.path + ('#n',)] = T.add(a[1], I(1))
        s.mem[l.path + ('#e',)] = Fn(lambda ix, a=tuple(a): low(a[0], a[1], ix[-1]), 'I', 1)
        e.obl('pre', T.lt(I(0), a[1]), s, 'at least one chunk')
        return l

    def sort(e, this, a, s):
        b, en, f = a
        if not isinstance(b, Ptr) or not isinstance(en, Ptr) or b.path != en.path or b.idx or not isinstance(f, FnVal):
            raise Unsupported('sort call')
        kind = 'first' if not e.loop_vars else 'loop'
        n0 = len([x for x in e.events if x.name == 'sort'])
        new = {}
        for p in e.sub_paths(b.path, s):
            c = Base('sorted.%d.%s' % (len(cents), p[-1]), 'I' if p[-1] == 'cell' else 'R')
            new[p] = c
            if p[-1] == 'cell':       # a permutation of the cell numbers, which are the positions (proved below)
                T.NONNEG.add(c.name)
                e.axioms.add(c.name, lambda ix, nm=c.name: [T.implies(T.and_(T.ge(ix[0], I(0)), T.lt(ix[0], N)), T.lt(T.app(nm, ix, 'I'), N))])
        ev = Ev('sort', b=b, e=en, cmp=f, state=s.copy(), new=new, kind=kind, pc=s.pc)
        cents.append(ev)
        e.events.append(ev)
        for p, c in new.items():
            e.note_write(p)
            s.mem[p] = c
    eng.contracts['splitIntoChunks'] = split
    eng.contracts['std::sort'] = sort
    eng.contracts['sort'] = sort
    loops = []

    def after(lv, x):
        loops.append(lv)
        # after the sorting loop: chunk boundaries per slab, and one permutation of every slab
        if any(v.name == 'sort' for v in lv.evs):
            for p, c in cents[-1].new.items():
                x.mem[p] = c
            for p, ups in lv.ups.items():
                if p[-1] == '#e' and yv.get('fn'):
                    x.mem[p] = Fn(lambda ix: yv['fn'](*ix), 'I', 2)
                if p[-1] == '#n':
                    x.mem[p] = Fn(lambda ix: T.add(ny, I(1)), 'I', 1)
    state0 = {}

    def watch(p):
        return p[:2] == pv.path or 'chunksY' in p[1] if len(p) > 1 else False
    w = Walk(eng, lambda p: len(p) > 1 and (p[:2] == pv.path or p[-1] in ('#e', '#n') and p[0] != 'A'), ['sort'], after)
    yv['fn'] = lambda i, j: low(T.sub(low(N, nx, T.add(i, I(1))), low(N, nx, i)), ny, j)
    cx.satisfiable(eng)
    cx.run(eng, 'partitionMesh', [nx, ny, sm, pv], st=st)
    w.close()
    sorts = [x for x in eng.events if x.name == 'sort']
    if len(sorts) != 2 or sorts[0].kind != 'first' or sorts[1].kind != 'loop':
        raise Unsupported('sorting structure: %s' % [x.kind for x in sorts])
    s1, s2 = sorts
    # --- before the first sort: entry k is cell k with its centroid
    k = uvar('k')
    rd = lambda s, f, i, *r: eng.read(s.mem[[p for p in s1.new if p[-1] == f][0]], (i,) + tuple(r), s)
    hy = [s1.pc, T.lt(k, N)]
    cx.prove('the first sort covers all cells', T.and_(T.eq(s1.b.off, I(0)), T.eq(s1.e.off, N)), [s1.pc])
    cx.prove('entry k holds cell k', T.eq(rd(s1.state, 'cell', k), k), hy)
    for ax in (0, 1):
        want = T.num(0, 'R')
        for v in range(4):
            want = T.add(want, T.app(nm('c_nodeData', '#e', 'coords'), (T.app(node, (k, I(v)), 'I'), I(ax)), 'R'))
        cx.prove('entry k holds the centroid of cell k, axis %d' % ax, T.eq(T.mul(R(4), rd(s1.state, 'coord', k, I(ax))), want), hy)
    comparator(cx, eng, s1.cmp, 0, 'first sort')
    comparator(cx, eng, s2.cmp, 1, 'second sort')
    # --- sorting loop
    L = [x for x in loops if any(v is s2 for v in x.evs)]
    if len(L) != 1 or L[0].depth != 0 or L[0].count is None:
        raise Unsupported('loop around the second sort')
    L = L[0]
    h = L.head
    i = L.sym
    hy = in_loop(L) + [h.head.pc]
    cx.prove('slabs 0 .. nx-1 are sorted', T.and_(T.eq(L.start, I(0)), T.eq(L.bound, nx)), [h.st0.pc])
    cx.prove('slab i is sorted from its first entry', T.eq(s2.b.off, low(N, nx, i)), hy)
    cx.prove('slab i is sorted up to the next slab', T.eq(s2.e.off, low(N, nx, i + I(1))), hy)
    for p, c in s2.new.items():
        if h.after.mem.get(p) is not c:
            raise Unsupported('centroids change after the sort')
        cx.decide('nothing else in the loop touches %s' % p[-1], s2.state.mem.get(p) is h.head.mem.get(p), 'normal-form')
    j = uvar('j')
    done = 0
    for p, ups in L.ups.items():
        if p[-1] == '#e' and len(p) > 1:
            v = eng.read(h.after.mem[p], (i, j), h.after)
            cx.prove('boundaries of the columns of slab i', T.eq(v, yv['fn'](i, j)), hy + [T.le(j, ny)])
            done += 1
    if done != 1:
        raise Unsupported('column boundaries')
    # --- assignment nest
    A = [x for x in w.levels if any(p[:2] == pv.path and u for p, u in x.ups.items())]
    if len(A) != 1:
        raise Unsupported('assignment loops')
    A = A[0]
    up = A
    chain = [A]
    while chain[0].depth > 0:
        par = [x for x in w.levels if chain[0] in x.children]
        if len(par) != 1:
            raise Unsupported('loop nest')
        chain.insert(0, par[0])
    if len(chain) != 3 or any(c.count is None for c in chain):
        raise Unsupported('assignment loop nest')
    li, lj, lk = chain
    i, j, k = li.sym, lj.sym, lk.sym
    hy = [c for l in chain for c in in_loop(l)] + [lk.head.head.pc]
    cx.prove('slabs 0 .. nx-1', T.and_(T.eq(li.start, I(0)), T.eq(li.bound, nx)), [li.head.st0.pc])
    cx.prove('columns 0 .. ny-1', T.and_(T.eq(lj.start, I(0)), T.eq(lj.bound, ny)), [lj.head.st0.pc])
    ni = T.sub(low(N, nx, i + I(1)), low(N, nx, i))
    hj = [c for l in chain[:2] for c in in_loop(l)] + [lk.head.st0.pc]
    cx.prove('every cell of the column is assigned', T.and_(T.eq(lk.start, I(0)), T.eq(lk.bound, T.sub(low(ni, ny, j + I(1)), low(ni, ny, j)))), hj)
    ups = [u for p, us in lk.ups.items() if p[:2] == pv.path for u in us]
    if len(ups) != 1 or ups[0].params:
        raise Unsupported('assignments of the innermost loop')
    u = ups[0]
    cx.prove('the assignment is unconditional', u.guard, hy)
    pos = T.add(T.add(low(N, nx, i), low(ni, ny, j)), k)
    cellp = [c for p, c in s2.new.items() if p[-1] == 'cell'][0]
    # the content read is that left by the sorting loop: one permutation of the cells
    addr = u.addr[-1]
    ap = [a for a in T.atoms_of(addr, lambda y: y.op == 'app')]
    if addr.op != 'app' or len(addr.args) != 1:
        raise Unsupported('assigned cell')
    cx.decide('the cell is read from the sorted list', addr.info == [c for p, c in s2.new.items() if p[-1] == 'cell'][0].name, 'normal-form', addr)
    cx.prove('the k-th cell of column (i,j) of the sorted list', T.eq(addr.args[0], pos), hy)
    cx.prove('its part is i*ny + j', T.eq(u.val, T.add(T.mul(i, ny), j)), hy)
    n, m, t = N, nx, i
    cx.prove('the part is in range', T.implies(T.and_(T.le(i + I(1), nx), T.le(T.mul(i + I(1), ny), T.mul(nx, ny))), T.lt(T.add(T.mul(i, ny), j), T.mul(nx, ny))), hy)
    cx.discharge(eng)


def graph(cx):
    eng = cx.engine(MET)
    eng.events = []
    np_, N, F = uvar('np'), uvar('N'), uvar('F')
    eng.facts += [T.lt(I(0), np_), T.lt(N, I(2 ** 31)), T.lt(F, I(2 ** 30))]
    st = State()
    sm, pv = obj('sm', 'SerialMesh'), obj('pv', 'std::vector<unsigned long>')
    nm = lambda *p: '.'.join(('A', 'sm') + p)
    st.mem[sm.path + ('c_numCells',)] = N
    st.mem[sm.path + ('c_numFaces',)] = F
    for v, c in (('c_cellData', N), ('c_faceData', F)):
        st.mem[sm.path + (v, '#n')] = c
    st.mem[pv.path + ('#n',)] = N
    faces, cells = nm('c_cellData', '#e', 'boundingFaces'), nm('c_faceData', '#e', 'boundingCells')
    T.NONNEG.update((faces, cells))
    eng.axioms.add(faces, lambda i: [T.lt(T.app(faces, i, 'I'), F)])
    calls = []

    def metis(e, this, a, s):
        calls.append((a, s.copy()))
        e.events.append(Ev('metis', pc=s.pc))
        part = a[12]
        if not isinstance(part, Ptr):
            raise Unsupported('part array')
        c = Base('metis.part', 'I')
        T.NONNEG.add(c.name)
        e.axioms.add(c.name, lambda ix: [T.lt(T.app('metis.part', ix, 'I'), np_)])
        e.note_write(part.path)
        s.mem[part.path] = c
        return I(1)
    eng.contracts['METIS_PartGraphKway'] = metis
    w = Walk(eng, lambda p: p[-1] == '#e' and p[0] != 'A')
    cx.satisfiable(eng)
    cx.run(eng, 'partitionMesh', [np_, sm, pv], st=st)
    w.close()
    # ---- result
    c = uvar('c')
    v = eng.read(st.mem[pv.path + ('#e',)], (c,), st)
    cx.prove('every cell gets a part in range', T.and_(T.ge(v, I(0)), T.lt(v, np_)), [st.pc, T.lt(c, N)])
    cx.prove('with several parts it is the part METIS returned', T.implies(T.ne(np_, I(1)), T.eq(v, T.app('metis.part', (c,), 'I'))), [st.pc, T.lt(c, N)])
    if len(calls) != 1:
        raise Unsupported('METIS call')
    a, s = calls[0]
    val = lambda p: eng.load(eng.deref(p, s), s)
    cx.prove('METIS is given all cells', T.eq(val(a[0]), N), [s.pc])
    cx.prove('METIS is given one constraint', T.eq(val(a[1]), I(1)), [s.pc])
    cx.prove('METIS is given the number of parts', T.eq(val(a[7]), np_), [s.pc])
    if not isinstance(a[2], Ptr) or not isinstance(a[3], Ptr):
        raise Unsupported('graph arrays')
    xadj, adj = a[2].path, a[3].path
    cx.prove('graph arrays are passed from their start', T.and_(T.eq(a[2].off, I(0)), T.eq(a[3].off, I(0)), T.eq(a[12].off, I(0))), [s.pc])
    L = [x for x in w.levels if adj in x.ups and x.ups[adj]]
    if len(L) != 1 or L[0].depth != 0 or L[0].count is None or xadj not in L[0].ups:
        raise Unsupported('adjacency loop')
    L = L[0]
    h, i = L.head, L.sym
    hy = in_loop(L) + [h.head.pc]
    cx.prove('every cell is listed', T.and_(T.eq(L.start, I(0)), T.eq(L.bound, N)), [h.st0.pc])
    cx.prove('the list of cell 0 starts at 0', T.eq(eng.read(h.st0.mem[xadj], (I(0),), h.st0), I(0)), [h.st0.pc])
    x0 = eng.read(h.head.mem[xadj], (i,), h.head)
    nb, n = [], I(0)
    for f in range(4):
        face = T.app(faces, (i, I(f)), 'I')
        c1, c2 = (T.app(cells, (face, I(k)), 'I') for k in (0, 1))
        other = T.ite(T.eq(c1, i), c2, c1)
        has = T.ne(other, BOUNDARY)
        nb.append((has, T.add(x0, n), other))
        n = T.add(n, T.ite(has, I(1), I(0)))
    for f, (has, at, other) in enumerate(nb):
        cx.prove('the neighbour across face %d is entry %d-th present one of the list' % (f, f), T.eq(eng.read(h.after.mem[adj], (at,), h.after), other), hy + [has, T.ge(x0, I(0))])
    cx.prove('the next list starts where this one ends', T.eq(eng.read(h.after.mem[xadj], (i + I(1),), h.after), T.add(x0, n)), hy)
    k = uvar('k')
    keep = T.implies(T.or_(T.lt(k, x0), T.ge(k, T.add(x0, n))), T.eq(eng.read(h.after.mem[adj], (k,), h.after), eng.read(h.head.mem[adj], (k,), h.head)))
    cx.prove('other entries are left alone', keep, hy)
    cx.prove('other list starts are left alone', T.implies(T.ne(k, i + I(1)), T.eq(eng.read(h.after.mem[xadj], (k,), h.after), eng.read(h.head.mem[xadj], (k,), h.head))), hy)
    # the lists fit: each entry kept has a place of its own, (face, side), among 2 * faces (lemmas/Steps.lean: kept_entries_fit);
    # the start of a list is the number of entries kept before it (the two obligations above on list starts)
    j, f, g = uvar('j'), uvar('f'), uvar('g')
    face = lambda c, k: T.app(faces, (c, k), 'I')
    side = lambda c, k: T.ite(T.eq(T.app(cells, (face(c, k), I(0)), 'I'), c), I(0), I(1))
    code = lambda c, k: T.add(T.mul(I(2), face(c, k)), side(c, k))
    mesh = lambda c, k: T.or_(*[T.eq(T.app(cells, (face(c, k), I(b)), 'I'), c) for b in (0, 1)])
    distinct = T.implies(T.ne(f, g), T.ne(face(i, f), face(i, g)))
    rg = in_loop(L) + in_range((j, N), (f, 4), (g, 4))
    cx.prove('the place of an entry is one of 2 * faces', T.and_(T.ge(code(i, f), I(0)), T.lt(code(i, f), T.mul(I(2), F))), rg)
    cx.prove('different entries have different places', T.implies(T.eq(code(i, f), code(j, g)), T.and_(T.eq(i, j), T.eq(f, g))), rg + [mesh(i, f), mesh(j, g), distinct])
    cx.satisfiable(eng, rg + [mesh(i, f), mesh(j, g), distinct, T.ne(i, j), T.eq(face(i, f), face(j, g))], 'a face of two cells')
    cx.prove('at most four entries per cell', T.le(T.add(x0, n), T.mul(I(4), i + I(1))), hy + [T.le(x0, T.mul(I(4), i))])
    fit = [T.ge(x0, I(0)), T.le(T.add(x0, n), T.mul(I(2), F)), T.le(x0, T.mul(I(4), i))]
    cx.discharge(eng, [T.implies(T.and_(*hy), T.and_(*fit))], kinds={'index', 'assert', 'pre', 'sub', 'div'})
    cx.assume('a cell of the serial mesh has four different faces and is one of the two bounding cells of each')


def main(cx, src, argc):
    """the tool hands one mesh, one vector with an entry per cell and the number of parts asked for from step to step"""
    eng = cx.engine(src)
    eng.assume_asserts = True
    eng.events = []
    N = uvar('N')
    nargs = uvar('argc')
    cols = argc == 5
    log = []

    def atoi(e, this, a, s):
        return T.app('atoi', (e.uid_of(a[0]) if hasattr(e, 'uid_of') else argpos(a[0]),), 'I')

    def argpos(v):
        if isinstance(v, Loc) and v.idx:
            return v.idx[-1]
        if isinstance(v, Ptr):
            return v.off if not v.idx else v.idx[-1]
        raise Unsupported('atoi argument %r' % (v,))

    def rec(name):
        def f(e, this, a, s):
            if name == 'read':
                s.mem[this.path + ('c_numCells',)] = N
                e.note_write(this.path + ('c_numCells',))
            if not e.loop_vars:
                ev = Ev(name, this=this, args=a, state=s.copy(), pc=s.pc)
                log.append(ev)
            else:
                raise Unsupported('tool step in a loop')
        return f
    eng.contracts['atoi'] = atoi
    for q, n in (('SerialMesh::read', 'read'), ('partitionMesh', 'partition'), ('ParallelMesh::createFromSerialMesh', 'create'), ('ParallelMesh::write', 'write')):
        eng.contracts[q] = rec(n)
    st = State()
    argv = obj('argv', 'char *')
    run = cx.run(eng, 'main', [nargs, Ptr(('A', 'argv'), (), I(0), ptype('char *'))], st=st)
    ok = T.eq(nargs, I(argc))
    names = [x.name for x in log]
    if sorted(names) != ['create', 'partition', 'read', 'write']:
        raise Unsupported('steps of the tool: %s' % names)
    cx.decide('read, partition, build, write, in this order', names == ['read', 'partition', 'create', 'write'], 'normal-form', names)
    R_, P, C, W = log
    pos = [T.gt(T.app('atoi', (I(i),), 'I'), I(0)) for i in ((1, 2) if cols else (1,))]
    for x in log:
        cx.prove('step %s happens for the right number of arguments and positive part numbers' % x.name, x.pc, [ok] + pos)
    k = 2 if cols else 1
    for i in range(k):
        cx.prove('part count %d is command-line argument %d' % (i + 1, i + 1), T.eq(P.args[i], T.app('atoi', (I(i + 1),), 'I')), [P.pc])
    loc = lambda v: v.path if isinstance(v, (Loc, Ptr)) else None
    cx.decide('the mesh read is the mesh partitioned and converted', loc(R_.this) is not None and loc(R_.this) == loc(P.args[k]) == loc(C.args[0]), 'normal-form')
    cx.decide('the partition vector computed is the one used', loc(P.args[k + 1]) is not None and loc(P.args[k + 1]) == loc(C.args[1]), 'normal-form')
    cx.decide('the mesh built is the mesh written', loc(C.this) == loc(W.this), 'normal-form')
    for what, v, a in (('input', R_, argc - 2), ('output', W, argc - 1)):
        s = v.state.mem.get((loc(v.args[0]) or ()) + ('#str',))
        at = argpos(s) if isinstance(s, Ptr) else None
        if at is None:
            raise Unsupported('%s file name' % what)
        cx.prove('the %s file is command-line argument %d' % (what, a), T.eq(at, I(a)), [v.pc])
    cx.prove('the vector has an entry per cell', T.eq(P.state.mem[loc(P.args[k + 1]) + ('#n',)], N), [P.pc])
    cx.prove('the vector still has an entry per cell', T.eq(C.state.mem[loc(C.args[1]) + ('#n',)], N), [C.pc])
    tot = T.app('atoi', (I(1),), 'I')
    if cols:
        tot = T.mul(tot, T.app('atoi', (I(2),), 'I'))
    cx.prove('the parallel mesh is built for the number of parts asked for', T.eq(C.args[2], tot), [C.pc])
    cx.assume('the partition file is built and written by ParallelMesh as properties P10 and P11 state')
