"""Connectivity tables of a loaded mesh, from the partition data read (whose consistency is P10/P11)."""
import itertools
from vc.ctx import *
from vc import mpi
from vc.walk import Walk, in_loop
from vc.exec import Base, Fn, Upd, Opaque, ptype

IO, MC = 'src/TychoMeshIO.cc', 'src/TychoMesh.cc'
M = ('G', 'g_tychoMesh', '*')
RANK = T.var('rank.ompi_mpi_comm_world', 'I')
NC, NN, NF = T.var('G.g_nCells', 'I'), T.var('pd.numNodes', 'I'), T.var('pd.numFaces', 'I')


class Ev(object):
    def __init__(self, name, **k):
        self.name = name
        self.__dict__.update(k)


# ---------------------------------------------------------------- the partition data (symbols) and what P10/P11 say of it
def nat(n, *i):
    T.NONNEG.add(n)
    return T.app(n, i, 'I')


def bn(c, v): return nat('pd.cellNodes', c, v)
def bf(c, k): return nat('pd.cellFaces', c, k)
def fn(f, k): return nat('pd.faceNodes', f, k)
def fc(f, k): return nat('pd.faceCells', f, k)
def fp(f, k): return nat('pd.facePart', f, k)
def fg(f): return nat('pd.faceGid', f)
def ftype(f): return nat('pd.faceType', f)
def opp(c, f): return nat('opposite', c, f)           # the vertex of cell c that is not on its face f
def hnd(c, l): return nat('slot', c, l)               # which of its faces is opposite its vertex l
def co(n, x): return T.app('pd.coords', (n, x), 'R')
def face(c, l): return bf(c, hnd(c, l))


Q = range(4)


def cell_facts(c):
    """consistency of one cell with its faces (a precondition: what the file format promises)"""
    out = [T.lt(bn(c, I(v)), NN) for v in Q] + [T.lt(bf(c, I(k)), NF) for k in Q]
    out += [T.ne(bn(c, I(u)), bn(c, I(v))) for u, v in itertools.combinations(Q, 2)]
    out += [T.ne(bf(c, I(u)), bf(c, I(v))) for u, v in itertools.combinations(Q, 2)]
    for k in Q:
        f = bf(c, I(k))
        o = opp(c, f)
        out += [T.lt(o, I(4)), T.lt(hnd(c, I(k)), I(4)), T.eq(opp(c, face(c, I(k))), I(k)), T.eq(hnd(c, o), I(k))]
        out += face_facts(c, f)
        out += face_facts(c, face(c, I(k)))
    out += [T.ne(opp(c, bf(c, I(u))), opp(c, bf(c, I(v)))) for u, v in itertools.combinations(Q, 2)]
    out += [T.ne(hnd(c, I(u)), hnd(c, I(v))) for u, v in itertools.combinations(Q, 2)]
    for l in Q:
        for k in Q:
            out.append(T.implies(T.eq(hnd(c, I(l)), I(k)), T.eq(face(c, I(l)), bf(c, I(k)))))
    return out


def face_facts(c, f):
    """f is a face of cell c: its nodes are those of c but one"""
    o = opp(c, f)
    out = [T.lt(o, I(4)), T.or_(T.eq(fp(f, I(0)), RANK), T.eq(fp(f, I(1)), RANK))]
    out += [T.ne(fn(f, I(a)), fn(f, I(b))) for a, b in itertools.combinations(range(3), 2)]
    for v in Q:
        on = T.or_(*[T.eq(bn(c, I(v)), fn(f, I(k))) for k in range(3)])
        out.append(T.implies(T.eq(o, I(v)), T.not_(on)))
        out.append(T.implies(T.ne(o, I(v)), on))
    return out


def inner(f): return T.eq(ftype(f), I(2))           # ParallelMesh::NotBoundary


def adj_facts(c, f):
    """an inner face names its two cells, which have it as a face"""
    c1, c2 = fc(f, I(0)), fc(f, I(1))
    o = other(c, f)
    return [T.implies(inner(f), x) for x in [T.or_(T.eq(c1, c), T.eq(c2, c)), T.ne(c1, c2), T.lt(o, NC), T.lt(opp(o, f), I(4)), T.eq(face(o, opp(o, f)), f)] + face_facts(o, f)]


def other(c, f):
    return T.ite(T.eq(fc(f, I(0)), c), fc(f, I(1)), fc(f, I(0)))


def helpers(cx):
    eng = cx.engine(IO)
    pt = lambda n: Ptr(('A', n), (), I(0), ptype('double'))
    V = lambda n: [T.app('A.' + n, (I(k),), 'R') for k in range(3)]
    less = lambda a, b: T.or_(T.lt(a[0], b[0]), T.and_(T.eq(a[0], b[0]), T.or_(T.lt(a[1], b[1]), T.and_(T.eq(a[1], b[1]), T.lt(a[2], b[2])))))
    differ = lambda a, b: T.or_(*[T.ne(x, y) for x, y in zip(a, b)])
    with cx.unit('isV1LessThanV2'):
        st = State()
        _, r = cx.run(eng, 'isV1LessThanV2', [pt('u'), pt('v')], st=st)
        cx.prove('lexicographic order of two different points', T.and_(T.implies(r, less(V('u'), V('v'))), T.implies(less(V('u'), V('v')), r)), [differ(V('u'), V('v'))])
        cx.discharge(eng)
    with cx.unit('order3Vertices'):
        eng = cx.engine(IO)
        names = 'abc'
        L = lambda i, j: T.eq(T.app('before', (I(i), I(j)), 'I'), I(1))

        def lt(e, this, a, s):
            k = []
            for p in a:
                if not isinstance(p, Ptr) or len(p.path) != 2 or p.path[1] not in names or p.off is not I(0):
                    raise Unsupported('compared point')
                k.append(names.index(p.path[1]))
            return L(*k)
        eng.contracts['isV1LessThanV2'] = lt
        st = State()
        cx.run(eng, 'order3Vertices', [pt('a'), pt('b'), pt('c'), Ptr(('A', 'order'), (), I(0), ptype('unsigned long'))], st=st)
        o = [eng.read(st.mem[('A', 'order')], (I(k),), st) for k in range(3)]
        # different points: exactly one of the two is first
        hy = [c for i, j in itertools.combinations(range(3), 2) for c in (T.or_(L(i, j), L(j, i)), T.not_(T.and_(L(i, j), L(j, i))))]
        hy += [T.implies(T.and_(L(i, j), L(j, k)), L(i, k)) for i, j, k in itertools.permutations(range(3))]
        for pm in itertools.permutations(range(3)):
            cx.prove('points in order %d%d%d are numbered so' % pm, T.and_(*[T.eq(o[k], I(pm[k])) for k in range(3)]), hy + [L(pm[0], pm[1]), L(pm[1], pm[2])])
        cx.prove('some order is ascending', T.or_(*[T.and_(L(p[0], p[1]), L(p[1], p[2])) for p in itertools.permutations(range(3))]), hy)
        cx.discharge(eng)
    with cx.unit('lemma: lexicographic order is transitive'):
        eng = cx.engine(IO)
        a, b, c = V('a'), V('b'), V('c')
        cx.prove('transitive', T.implies(T.and_(less(a, b), less(b, c)), less(a, c)), [])
        cx.prove('total on different points', T.or_(less(a, b), less(b, a)), [differ(a, b)])
        cx.prove('antisymmetric', T.not_(T.and_(less(a, b), less(b, a))), [])
    with cx.unit('getLFaceIndex'):
        eng = cx.engine(IO)
        T.NONNEG.update(('A.cn', 'A.fn'))
        cn, f = [T.app('A.cn', (I(k),), 'I') for k in Q], [T.app('A.fn', (I(k),), 'I') for k in range(3)]
        st = State()
        _, r = cx.run(eng, 'getLFaceIndex', [Ptr(('A', 'cn'), (), I(0), ptype('unsigned long')), Ptr(('A', 'fn'), (), I(0), ptype('unsigned long'))], st=st)
        for v in Q:
            hy = [T.or_(*[T.eq(cn[u], x) for x in f]) for u in Q if u != v] + [T.and_(*[T.ne(cn[v], x) for x in f])]
            cx.prove('the vertex not on the face: %d' % v, T.eq(r, I(v)), hy)
        cx.discharge(eng)


# ---------------------------------------------------------------- readTychoMesh
def nb(c):
    """number of boundary faces of cell c"""
    return before(c, 4)


def before(c, l):
    r = I(0)
    for k in range(l):
        r = T.add(r, T.ite(inner(face(c, I(k))), I(0), I(1)))
    return r


def S(c): return nat('sidesBefore', c)
def ordv(f, k): return nat('ord', fn(f, I(0)), fn(f, I(1)), fn(f, I(2)), k)
def onode(f, k): return fn(f, ordv(f, k))              # the k-th node of face f in coordinate order
def vloc(c, n): return nat('vertexOf', c, n)           # local number of node n in cell c
def fpos(f, n): return nat('positionIn', f, n)         # position of node n in the coordinate order of face f
def glside(g): return nat('localSide', g)


def adj_rank(c, l):
    f = face(c, l)
    return T.ite(T.eq(fp(f, I(0)), RANK), fp(f, I(1)), fp(f, I(0)))


def pick(l, f):
    """f(l) for a table column l in 0..3"""
    if l.op == 'num':
        return f(int(l.info))
    r = f(3)
    for k in (2, 1, 0):
        r = T.ite(T.eq(l, I(k)), f(k), r)
    return r


SPEC = {       # table -> (dimensions after the cell, row function)
    'c_adjCell': (1, lambda c, l: T.ite(inner(face(c, l)), other(c, face(c, l)), BOUNDARY)),
    'c_adjFace': (1, lambda c, l: T.ite(inner(face(c, l)), opp(other(c, face(c, l)), face(c, l)), BOUNDARY)),
    'c_side': (1, lambda c, l: T.ite(inner(face(c, l)), BOUNDARY, T.add(S(c), pick(l, lambda k: before(c, k))))),
    'c_adjProc': (1, adj_rank),
    'c_cellNodes': (1, bn),
    'c_lGCells': (0, lambda c: nat('pd.cellGid', c)),
    'c_cellMaterial': (0, lambda c: nat('pd.cellMat', c)),
    'c_faceToCellVrtx': (2, lambda c, l, k: vloc(c, onode(face(c, l), k))),
    'c_cellToFaceVrtx': (2, lambda c, l, v: T.ite(T.eq(v, l), nat('unset', c, l), fpos(face(c, l), bn(c, v)))),
    '#handle': (1, hnd),
}
EXTRA = {'c_faceToCellVrtx': 3, 'c_cellToFaceVrtx': 4}


def order_facts(c, l):
    """contract of order3Vertices on the face, and the definitions of the two numberings"""
    f = face(c, l)
    o = [ordv(f, I(k)) for k in range(3)]
    out = [T.lt(x, I(3)) for x in o] + [T.ne(a, b) for a, b in itertools.combinations(o, 2)]
    out += [T.eq(vloc(c, bn(c, I(v))), I(v)) for v in Q]
    out += [T.eq(fpos(f, onode(f, I(k))), I(k)) for k in range(3)]
    for k in range(3):
        for j in range(3):
            out.append(T.implies(T.eq(o[k], I(j)), T.eq(onode(f, I(k)), fn(f, I(j)))))
    return out


def install(cx, eng, tm):
    mpi.install(eng)
    NAMES = {('cellData', 'boundingNodes'): 'pd.cellNodes', ('cellData', 'boundingFaces'): 'pd.cellFaces', ('cellData', 'globalID'): 'pd.cellGid', ('cellData', 'materialIndex'): 'pd.cellMat',
             ('faceData', 'boundingNodes'): 'pd.faceNodes', ('faceData', 'boundingCells'): 'pd.faceCells', ('faceData', 'partition'): 'pd.facePart', ('faceData', 'globalID'): 'pd.faceGid',
             ('faceData', 'boundaryType'): 'pd.faceType', ('nodeData', 'coords'): 'pd.coords', ('nodeData', 'globalID'): 'pd.nodeGid'}
    T.NONNEG.update(n for n in NAMES.values() if n != 'pd.coords')
    T.NONNEG.update(('G.g_nCells', 'pd.numNodes', 'pd.numFaces', RANK.info))
    ax = eng.axioms.add
    ax('pd.cellNodes', lambda i: [T.implies(T.and_(T.lt(i[0], NC), T.lt(i[1], I(4))), T.lt(bn(*i), NN))])
    ax('pd.cellFaces', lambda i: [T.implies(T.and_(T.lt(i[0], NC), T.lt(i[1], I(4))), T.lt(bf(*i), NF))])
    ax('pd.faceNodes', lambda i: [T.implies(T.and_(T.lt(i[0], NF), T.lt(i[1], I(3))), T.lt(fn(*i), NN))])
    ax('slot', lambda i: [T.lt(hnd(*i), I(4))])
    ax('opposite', lambda i: [T.lt(opp(*i), I(4))])
    ax('localSide', lambda i: [T.lt(T.app('localSide', i, 'I'), S(NC))])      # the global id received is one of this rank's sides
    ax('ord', lambda i: [T.lt(T.app('ord', i, 'I'), I(3))])

    def readpm(e, this, a, s):
        pd = a[1]
        for k, n in (('numCells', NC), ('numNodes', NN), ('numFaces', NF)):
            s.mem[pd.path + (k,)] = n
        for v, n in (('cellData', NC), ('nodeData', NN), ('faceData', NF)):
            s.mem[pd.path + (v, '#n')] = n
        for (v, f), n in NAMES.items():
            s.mem[pd.path + (v, '#e', f)] = Base(n, 'R' if n == 'pd.coords' else 'I')
        for p in list(s.mem):
            if p[:2] == pd.path:
                e.note_write(p)
    eng.contracts['ParallelMesh::readInParallel'] = readpm

    def row(p, what):
        if not isinstance(p, Ptr) or p.path[-2:] != ('#e', what) or len(p.idx) != 1 or p.off is not I(0):
            raise Unsupported('argument %s' % what)
        return p.idx[0], p.path[-3]

    def lface(e, this, a, s):
        (c, k1), (f, k2) = row(a[0], 'boundingNodes'), row(a[1], 'boundingNodes')
        if (k1, k2) != ('cellData', 'faceData'):
            raise Unsupported('getLFaceIndex arguments')
        e.obl('pre', T.or_(*[T.eq(f, bf(c, I(k))) for k in Q]), s, 'the face belongs to the cell')
        return opp(c, f)
    eng.contracts['getLFaceIndex'] = lface

    def order(e, this, a, s):
        ns = [row(p, 'coords')[0] for p in a[:3]]
        d = a[3]
        for k in range(3):
            e.store(e.elem(d, I(k), s), T.app('ord', tuple(ns) + (I(k),), 'I'), s)
    eng.contracts['order3Vertices'] = order
    eng.contracts['Comm::rank'] = lambda e, this, a, s: RANK

    def recv(e, this, v, st):
        if not (isinstance(v[1], T.E) and v[1].op == 'num' and v[1].info % 8 == 0 and v[0].ct.k == 'int'):
            raise Unsupported('receive')
        nm = 'msg.%d' % e.uid()
        T.NONNEG.add(nm)
        ev = Ev('recv', args=v, pc=st.pc, msg=nm, words=int(v[1].info) // 8)
        e.events.append(ev)
        for k in range(ev.words):
            e.store(e.elem(v[0], I(k), st), T.app(nm, (I(k),), 'I'), st)
        return I(0)
    eng.contracts['MPI_Recv'] = recv

    def send(e, this, v, st):
        e.events.append(Ev('send', args=v, pc=st.pc, st=st.copy()))
        return I(0)
    eng.contracts['MPI_Isend'] = send

    class Sides(object):
        def insert(self, e, m, k, v, st):
            e.events.append(Ev('insert', key=k, val=v, pc=st.pc))

        def find(self, e, m, k, st):
            return TRUE, glside(k)
    eng.map_hook = Sides()


def tables(cx):
    eng = cx.engine(IO)
    tm = obj('tm', 'TychoMesh')
    eng.events = []
    install(cx, eng, tm)

    def name(p):
        if p[:2] == tm.path and p[-1] == '#e':
            return p[2]
        return None

    def handles(lv, p):
        return p[0].startswith('L') and p[-1] == '#e' and any(name(q) == 'c_adjCell' for q in lv.ups)

    def after(lv, x):
        if lv.depth:
            return
        for p in lv.ups:
            nm = '#handle' if handles(lv, p) else name(p)
            if nm in SPEC:
                n, f = SPEC[nm]
                x.mem[p] = Fn(lambda ix, f=f, n=n: f(*ix[-1 - n:]), 'I', n + 1)
            if p == tm.path + ('c_nSides',):
                x.mem[p] = S(NC)
        if any(e.name == 'insert' for e in lv.evs):
            for p, ups in lv.ups.items():
                if name(p) == 'c_sideCell':
                    x.mem[p] = Base('sideCell', 'I')
                if name(p) == 'c_lGSides':
                    x.mem[p] = Base('sideGid', 'I')
                    T.NONNEG.add('sideGid')
    w = Walk(eng, lambda p: len(p) > 1 and (p[:2] == tm.path or p[0].startswith('L') and p[-1] == '#e'), ['insert', 'send', 'recv'], after)
    st = State()
    cx.run(eng, 'TychoMesh::readTychoMesh', [obj('fname', 'std::string')], this=tm, st=st)
    w.close()
    c0, l0, k0 = uvar('c0'), uvar('l0'), uvar('k0')
    done = {}
    HY = []                                                   # for the run-time-safety obligations
    for lv in w.levels:
        h = lv.head
        if lv.depth:
            raise Unsupported('inner loop')
        if lv.count is None:
            raise Unsupported('loop without counter')
        C = lv.sym
        base = in_loop(lv) + [h.head.pc]
        facts = cell_facts(C) + [T.lt(NC, BOUNDARY), T.lt(S(C), I(2 ** 64)), T.eq(S(I(0)), I(0)), T.eq(S(T.add(C, I(1))), T.add(S(C), nb(C))), T.le(T.add(S(C), nb(C)), S(NC))]
        for k in Q:
            facts += adj_facts(C, bf(C, I(k))) + adj_facts(C, face(C, I(k)))
        HY.append((C, list(facts)))
        ns = [n for n in (name(p) for p in lv.ups) if n is not None]
        if not ns and not lv.evs and not any(p == tm.path + ('c_nSides',) for p in lv.ups):
            continue
        what = ', '.join(sorted(set(ns))) or 'loop'
        if 'c_nodeCoords' in ns:
            cx.prove('nodes 0 .. number of nodes - 1', T.and_(T.eq(lv.start, I(0)), T.eq(lv.bound, NN)), [h.st0.pc])
            p = [p for p in lv.ups if name(p) == 'c_nodeCoords'][0]
            for x in range(3):
                cx.prove('coordinate %d of node n' % x, T.eq(eng.read(h.after.mem[p], (C, I(x)), h.after), co(C, I(x))), base)
                cx.prove('coordinate %d of the other nodes' % x, T.eq(eng.read(h.after.mem[p], (c0, I(x)), h.after), eng.read(h.head.mem[p], (c0, I(x)), h.head)), base + [T.ne(c0, C)])
            done['c_nodeCoords'] = 1
            continue
        cx.prove('%s: every cell' % what, T.and_(T.eq(lv.start, I(0)), T.eq(lv.bound, NC)), [h.st0.pc])
        # cursors: a variable that starts at 0 and advances by the number of boundary faces
        cur = []
        for hs, p in h.hsym.items():
            if hs.sort != 'I' or hs is lv.sym or not isinstance(h.st0.mem.get(p), T.E) or not isinstance(h.after.mem.get(p), T.E):
                continue
            if p == tm.path + ('c_nSides',) or 'c_side' in ns:
                ok = cx.prove('%s: starts at 0' % p[-1].split('@')[0], T.eq(h.st0.mem[p], I(0)), [h.st0.pc])
                ok &= cx.prove('%s: advances by the boundary faces of the cell' % p[-1].split('@')[0], T.eq(h.after.mem[p], T.add(hs, nb(C))), base + facts)
                cur.append(T.eq(hs, S(C)))
                HY[-1][1].append(cur[-1])
                done[p[-1]] = 1
        for p, ups in sorted(lv.ups.items()):
            nm = '#handle' if handles(lv, p) else name(p)
            if nm in SPEC:
                n, f = SPEC[nm]
                done[nm] = 1
                ix = (c0, l0, k0)[:n + 1]
                cx.prove('%s: other rows keep their values' % nm, T.eq(eng.read(h.after.mem[p], ix, h.after), eng.read(h.head.mem[p], ix, h.head)), base + cur + [T.ne(c0, C)])
                for l in (Q if n else [0]):
                    for k in range(EXTRA.get(nm, 1)):
                        if nm == 'c_cellToFaceVrtx' and k == l:
                            continue
                        ix = (C, I(l), I(k))[:n + 1]
                        hy = base + cur + facts + (order_facts(C, I(l)) if nm in EXTRA else [])
                        cx.prove('%s(%s)' % (nm, ','.join(str(x) for x in ('cell', l, k)[:n + 1])), T.eq(eng.read(h.after.mem[p], ix, h.after), f(*ix)), hy)
            elif nm in ('c_sideCell', 'c_lGSides') and any(e.name == 'insert' for e in lv.evs):
                done[nm] = 1
                for l in Q:
                    s = T.add(S(C), before(C, l))
                    want = C if nm == 'c_sideCell' else fg(face(C, I(l)))
                    cx.prove('%s of the side of face %d' % (nm, l), T.eq(eng.read(h.after.mem[p], (s,), h.after), want), base + cur + facts + [T.not_(inner(face(C, I(l))))])
                cx.prove('%s: sides of earlier cells keep their values' % nm, T.eq(eng.read(h.after.mem[p], (c0,), h.after), eng.read(h.head.mem[p], (c0,), h.head)), base + cur + facts + [T.lt(c0, S(C))])
        ins = [e for e in lv.evs if e.name == 'insert']
        if ins:
            if len(ins) != 4:
                raise Unsupported('insertions')
            for l, e in enumerate(ins):
                f = face(C, I(l))
                hy = base + cur + facts
                cx.prove('face %d is entered in the side map iff it is a boundary face' % l, T.and_(T.implies(e.pc, T.not_(inner(f))), T.implies(T.not_(inner(f)), e.pc)), hy)
                cx.prove('the side map takes its global id to its side', T.and_(T.eq(e.key, fg(f)), T.eq(e.val, T.add(S(C), before(C, l)))), hy + [e.pc])
            done['map'] = 1
        exchange(cx, eng, lv, base + facts, done)
    for n in list(SPEC) + ['c_sideCell', 'c_lGSides', 'map', 'send', 'recv', 'c_nodeCoords']:
        if n not in done and n != '#handle':
            raise Unsupported('no loop fills %s' % n)
    cx.prove('number of sides', T.eq(st.mem[tm.path + ('c_nSides',)], S(NC)), [st.pc])
    obls = eng.obls
    for C, facts in HY + [(None, [])]:          # the facts of the loop an obligation arises in
        mine = [o for o in obls if C is None or any(T.atoms_of(x, lambda y: y is C) for x in [o.goal] + list(o.hyps))]
        obls = [o for o in obls if not any(o is m for m in mine)]
        eng.obls = mine
        cx.discharge(eng, facts)


def word(eng, p, k, st):
    """k-th word of the message at p"""
    if isinstance(p, Ptr) and p.path[-1] == '#e' and len(p.idx) == 1 and not p.single and not p.dims:
        n = st.mem.get(p.path[:-1] + ('c_xlen',))
        if p.idx[0] is I(0) and n is not None and n.op == 'num' and n.info > k:
            return Loc(p.path, (I(k), p.off), p.ct)        # first index fastest (P04)
        raise Unsupported('message in a two-index array')
    return eng.elem(p, I(k), st)


def exchange(cx, eng, lv, hy, done):
    """what is sent and received for the faces shared with another rank"""
    C, h = lv.sym, lv.head
    a0, b0 = uvar('a0'), uvar('b0')
    bufs = set()
    rem = lambda l: T.and_(T.not_(inner(face(C, I(l)))), T.ne(adj_rank(C, I(l)), BOUNDARY))
    for kind in ('send', 'recv'):
        evs = [e for e in lv.evs if e.name == kind]
        if not evs:
            continue
        if len(evs) != 4:
            raise Unsupported('messages')
        done[kind] = 1
        hy = hy + [T.ne(other(C, face(C, I(l))), BOUNDARY) for l in Q]
        for l, e in enumerate(evs):
            what = 'face %d %s' % (l, kind)
            cx.prove(what + ' iff another rank has the other side', T.and_(T.implies(e.pc, rem(l)), T.implies(rem(l), e.pc)), hy)
            buf, n, ty, peer, tag, comm = e.args[:6]
            cx.prove(what + ': rank', T.eq(peer, adj_rank(C, I(l))), hy + [e.pc])
            if mpi.gname(ty) not in mpi.SIZE or not (n.op == 'num'):
                raise Unsupported('message type')
            cx.decide(what + ': three words, fixed tag, all ranks', n.info * mpi.SIZE[mpi.gname(ty)] == 24 and tag.op == 'num' and mpi.gname(comm) == 'ompi_mpi_comm_world', 'normal-form', (n, tag))
            done.setdefault('tag', tag)
            cx.decide(what + ': same tag', done['tag'] is tag, 'normal-form', tag)
            s = T.add(S(C), before(C, l))
            if kind == 'send':
                for k, wv in enumerate((T.app('sideGid', (s,), 'I'), C, I(l))):
                    loc = word(eng, buf, k, e.st)
                    v = eng.load(loc, e.st)
                    cx.prove(what + ': word %d is %s' % (k, ('the global id', 'the cell', 'the face')[k]), T.eq(v, wv), hy + [e.pc])
                    if k == 0:
                        if loc.path[-1] != '#e' or not loc.idx:
                            raise Unsupported('message buffer')
                        cx.prove(what + ': in a place of its own', T.eq(loc.idx[-1], s if len(loc.idx) > 1 else T.mul(I(3), s)), hy + [e.pc])
                        bufs.add(loc.path)
            if kind == 'send':
                for p in bufs:         # only the words of this iteration's own messages change
                    cx.prove(what + ': messages under way are left alone', T.eq(eng.read(h.after.mem[p], (a0, b0), h.after), eng.read(h.head.mem[p], (a0, b0), h.head)), hy + [T.lt(b0, S(C))])
        if kind == 'recv':
            for p, ups in lv.ups.items():
                if p[-1] != '#e' or p[2] not in ('c_adjCellFromSide', 'c_adjFaceFromSide'):
                    continue
                if ups is None or len(ups) != 4:
                    raise Unsupported('stores of received data')
                k = 1 if p[2] == 'c_adjCellFromSide' else 2
                done[p[2]] = 1
                for l, (u, e) in enumerate(zip(ups, evs)):
                    m = lambda j: T.app(e.msg, (I(j),), 'I')
                    cx.prove('message of face %d: stored iff received' % l, T.and_(T.implies(u.guard, e.pc), T.implies(e.pc, u.guard)), hy)
                    cx.prove('message of face %d: %s goes to the side with that global id' % (l, p[2]), T.and_(T.eq(u.addr[-1], glside(m(0))), T.eq(u.val, m(k))), hy + [e.pc])


# ---------------------------------------------------------------- the constructor and the accessors
ACCESS = {    # accessor -> (table, value)
    'getAdjCell': 'c_adjCell', 'getAdjFace': 'c_adjFace', 'getSide': 'c_side', 'getAdjRank': 'c_adjProc', 'getCellNode': 'c_cellNodes',
    'getLGCell': 'c_lGCells', 'getCellMaterial': 'c_cellMaterial', 'getFaceToCellVrtx': 'c_faceToCellVrtx', 'getCellToFaceVrtx': 'c_cellToFaceVrtx'}
DIMS = {0: ('Mat1<unsigned long>',), 1: ('Mat2<unsigned long>',), 2: ('Mat3<unsigned long>',)}


def loaded(eng, st, this):
    """the tables as readTychoMesh leaves them (proved above)"""
    mesh(eng, st)
    for n, (k, f) in SPEC.items():
        if n.startswith('#'):
            continue
        ds = (gvar('g_nCells'), I(4), I(EXTRA.get(n, 0)))[:k + 1]
        for x, v in zip(('c_xlen', 'c_ylen', 'c_zlen'), ds):
            st.mem[this.path + (n, x)] = v
        st.mem[this.path + (n, '#e')] = Fn(lambda ix, f=f, k=k: f(*ix[-1 - k:]), 'I', k + 1)
    for x, v in zip(('c_xlen', 'c_ylen'), (NN, I(3))):
        st.mem[this.path + ('c_nodeCoords', x)] = v
    for n in ('c_sideCell', 'c_lGSides', 'c_adjCellFromSide', 'c_adjFaceFromSide'):
        st.mem[this.path + (n, 'c_xlen')] = S(NC)
        T.NONNEG.add('.'.join(this.path + (n, '#e')))
    st.mem[this.path + ('c_nSides',)] = S(NC)
    for n in ('c_xi', 'c_eta', 'c_mu', 'c_w'):          # P06
        st.mem[('G', 'g_quadrature', '*', n, '#n')] = gvar('g_nAngles')


def all_facts(c):
    out = [T.lt(NC, BOUNDARY)] + cell_facts(c)
    for l in Q:
        f = face(c, I(l))
        out += adj_facts(c, f) + order_facts(c, I(l))
        o = other(c, f)
        out += [T.implies(inner(f), T.eq(vloc(o, bn(o, I(v))), I(v))) for v in Q]
        out += [T.implies(inner(f), T.eq(opp(o, face(o, opp(o, f))), opp(o, f)))]
    return out


def constructor(cx):
    eng = cx.engine(MC, 'src/Quadrature.cc')
    eng.assume_asserts = False
    st = State()
    this = Loc(MESH, (), ptype('TychoMesh'))
    loaded(eng, st, this)
    st.mem[('G', 'g_nFacePerCell')] = I(4)

    def readMesh(e, t, w, s):
        for p in e.sub_paths(MESH, s):
            e.note_write(p)
            del s.mem[p]
        loaded(e, s, this)
    eng.contracts['TychoMesh::readTychoMesh'] = readMesh
    for n in ('getTetVolume', 'getTriangleArea'):
        eng.contracts[n] = lambda e, t, w, s, n=n: T.app(n, (I(e.uid()),), 'R')

    def normal(e, t, w, s):
        l = Loc(('L%d' % e.frame, 'normal'), (), ptype('std::vector<double>'))
        s.mem[l.path + ('#n',)] = I(3)
        s.mem[l.path + ('#e',)] = Base('someNormal', 'R')
        return l
    eng.contracts['getNormal'] = normal
    cx.run(eng, 'TychoMesh::TychoMesh', [obj('filename', 'std::string')], this=this, st=st)
    c = uvar('cell')
    nv = st.mem[MESH + ('c_neighborVrtx', '#e')]
    hy = [T.lt(c, NC)] + all_facts(c)
    for l in Q:
        f = face(c, I(l))
        o = other(c, f)
        for k in range(3):
            v = eng.read(nv, (c, I(l), I(k)), st)
            cx.prove('face %d vertex %d: the neighbour vertex is the same node' % (l, k), T.and_(T.lt(v, I(4)), T.eq(bn(o, v), onode(f, I(k)))), hy + [inner(f)])
            cx.prove('face %d vertex %d: no neighbour vertex on a boundary' % (l, k), T.eq(v, BOUNDARY), hy + [T.not_(inner(f))])
    for n, (k, f) in SPEC.items():
        if n.startswith('#'):
            continue
        cx.decide('the constructor leaves %s alone' % n, isinstance(st.mem[MESH + (n, '#e')], Fn), 'normal-form', n)
    # the run-time checks of the constructor hold, and nothing is read out of range
    obls = eng.obls
    for o in obls:
        cells = {}
        for x in [o.goal] + list(o.hyps):
            for a in T.atoms_of(x, lambda y: y.op == 'app' and y.info in ('pd.cellNodes', 'pd.cellFaces', 'vertexOf', 'slot')):
                if not T.atoms_of(a.args[0], lambda y: y.op == 'app' and y.info in ('pd.faceCells',)):
                    cells[a.args[0]] = 1
        eng.obls = [o]
        cx.discharge(eng, [T.implies(T.lt(x, NC), y) for x in cells for y in all_facts(x)] + [T.eq(gvar('g_nCells'), NC)])


def accessors(cx):
    eng = cx.engine(MC)
    this = Loc(MESH, (), ptype('TychoMesh'))
    c, l, k = uvar('c'), uvar('l'), uvar('k')
    for a, n in sorted(ACCESS.items()):
        st = State()
        loaded(eng, st, this)
        dim, f = SPEC[n]
        ix = (c, l, k)[:dim + 1]
        _, r = cx.run(eng, 'TychoMesh::' + a, list(ix), this=this, st=st)
        cx.prove('%s is the entry of its table' % a, T.eq(r, f(*ix)), [T.ne(k, l)])
    for a, n in (('getSideCell', 'c_sideCell'), ('getLGSide', 'c_lGSides'), ('getAdjCellFromSide', 'c_adjCellFromSide'), ('getAdjFaceFromSide', 'c_adjFaceFromSide')):
        st = State()
        loaded(eng, st, this)
        _, r = cx.run(eng, 'TychoMesh::' + a, [c], this=this, st=st)
        cx.prove('%s is the entry of its table' % a, T.eq(r, T.app('.'.join(MESH + (n, '#e')), (c,), 'I')), [])
    st = State()
    loaded(eng, st, this)
    _, r = cx.run(eng, 'TychoMesh::getNSides', [], this=this, st=st)
    cx.prove('getNSides', T.eq(r, S(NC)), [])
    st = State()
    loaded(eng, st, this)
    v = {}
    tab = Base('.'.join(MESH + ('c_neighborVrtx', '#e')), 'I')
    _, r = cx.run(eng, 'TychoMesh::getNeighborVrtx', [c, l, k], this=this, st=st)
    cx.prove('getNeighborVrtx is the entry of its table', T.eq(r, T.app(tab.name, (c, l, k), 'I')), [])


def lemmas(cx):
    with cx.unit('lemma: connectivity is mutual'):
        eng = cx.engine(IO)
        c = uvar('cell')
        hy = [T.lt(c, NC)] + all_facts(c)
        cx.satisfiable(eng, hy)
        adjC, adjF, f2c, c2f = (SPEC[n][1] for n in ('c_adjCell', 'c_adjFace', 'c_faceToCellVrtx', 'c_cellToFaceVrtx'))
        for l in Q:
            f = face(c, I(l))
            b, m = adjC(c, I(l)), adjF(c, I(l))
            h = hy + [inner(f)]
            cx.prove('face %d: a cell, across one of its faces' % l, T.and_(T.lt(b, NC), T.lt(m, I(4))), h)
            o = other(c, f)
            back = [T.eq(face(o, opp(o, f)), f), T.eq(adjC(o, opp(o, f)), c), T.eq(adjF(o, opp(o, f)), I(l))]
            cx.prove('face %d: the neighbour lists the cell across the reported face' % l, T.and_(*back), h)
            cx.prove('face %d is opposite vertex %d' % (l, l), T.and_(*[T.ne(bn(c, I(l)), fn(f, I(k))) for k in range(3)]), hy)
            for k in range(3):
                v = f2c(c, I(l), I(k))
                cx.prove('face %d vertex %d: a vertex of the cell on that face' % (l, k), T.and_(T.lt(v, I(4)), T.ne(v, I(l)), T.eq(bn(c, v), onode(f, I(k)))), hy)
                cx.prove('face %d vertex %d: and back' % (l, k), T.eq(c2f(c, I(l), v), I(k)), hy)
            for v in Q:
                if v != l:
                    k = c2f(c, I(l), I(v))
                    cx.prove('face %d cell vertex %d: there and back' % (l, v), T.and_(T.lt(k, I(3)), T.eq(f2c(c, I(l), k), I(v))), hy)
    with cx.unit('lemma: both sides number a face alike'):
        # two lists of the same three different points, each put in ascending order, give the same sequence
        eng = cx.engine(IO)
        P = [[T.app('P%d' % i, (I(x),), 'R') for x in range(3)] for i in range(3)]
        less = lambda a, b: T.or_(T.lt(a[0], b[0]), T.and_(T.eq(a[0], b[0]), T.or_(T.lt(a[1], b[1]), T.and_(T.eq(a[1], b[1]), T.lt(a[2], b[2])))))
        asc = lambda q: T.and_(less(P[q[0]], P[q[1]]), less(P[q[1]], P[q[2]]))
        for a, b in itertools.combinations(list(itertools.permutations(range(3))), 2):
            cx.prove('orders %d%d%d and %d%d%d are not both ascending' % (a + b), T.not_(T.and_(asc(a), asc(b))), [])
    with cx.unit('lemma: sides are numbered consecutively'):
        eng = cx.engine(IO)
        c, d, l, m = uvar('c'), uvar('d'), uvar('l'), uvar('m')
        hy = [T.le(T.add(S(c), nb(c)), S(d)), T.le(T.add(S(d), nb(d)), S(NC))]
        for l in Q:
            bl = T.not_(inner(face(c, I(l))))
            cx.prove('face %d: before the end of its cell' % l, T.lt(before(c, l), nb(c)), [bl])
            for m in range(l):
                cx.prove('faces %d and %d of a cell have different sides' % (m, l), T.lt(before(c, m), before(c, l)), [T.not_(inner(face(c, I(m))))])
            for m in Q:
                cx.prove('faces %d, %d of different cells have different sides' % (l, m), T.lt(T.add(S(c), before(c, l)), T.add(S(d), before(d, m))), hy + [bl])


def prove(cx):
    helpers(cx)
    with cx.unit('readTychoMesh'):
        tables(cx)
    with cx.unit('TychoMesh::TychoMesh'):
        constructor(cx)
    with cx.unit('accessors'):
        accessors(cx)
    lemmas(cx)
    cx.theorems('Steps', {'rowwise': 'a table filled row by row holds the value of each row', 'union_of_insertions': 'a set built in a loop holds what some iteration inserts'})
    cx.assume('the partition data read are consistent (P10, P11): every cell names its four faces and nodes, every face its nodes, inner faces both cells, one of the two partitions of a face is this rank; global face ids differ and both ranks of a shared face hold it once')
    cx.assume('different nodes have different coordinates, none is NaN')
    cx.assume('std::map keeps for every key the value inserted first; message passing delivers each rank-to-rank message once')
