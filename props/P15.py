"""Refinement: one tetrahedron is filled by its pieces, matching across shared faces; the mesh is built from the pieces."""
import itertools
from fractions import Fraction
from vc.ctx import *
from vc.walk import Walk, in_loop, innermost
from vc.exec import Base, Fn, Upd, FnVal, Opaque, ptype

SRC = 'util/RefineSerialMesh.cc'


class Ev(object):
    def __init__(self, name, **k):
        self.name = name
        self.__dict__.update(k)


# ------------------------------------------------------------------ geometry of one tetrahedron
def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n) if M[0][j] != 0)


def bary(e, axis):
    """coefficients of the corners in a coordinate, or None"""
    c = [Fraction(0)] * 4
    for m, k in T._poly(e).items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        if a.op != 'app' or a.info != 'A.in.nodes.coords' or len(a.args) != 2 or a.args[1] is not I(axis) or a.args[0].op != 'num':
            return None
        c[int(a.args[0].info)] += k
    return tuple(c)


def paths(eng, f, run):
    """all resolutions of the branches that depend on the input"""
    todo, out = [[]], []
    while todo:
        pre = todo.pop()
        used = []

        def decide(c):
            k = len(used)
            used.append(pre[k] if k < len(pre) else False)
            return used[-1]
        eng.decide = decide
        try:
            out.append((list(used), run()))
        finally:
            eng.decide = None
        out[-1] = (list(used), out[-1][1])
        for k in range(len(pre), len(used)):
            todo.append(used[:k] + [True])
        if len(out) > 64:
            raise Unsupported('too many branches')
    return out


def one_tet(cx):
    eng = cx.engine(SRC)
    f = eng.find('refineTet')
    nm = None

    def run():
        st = State()
        cx.run(eng, 'refineTet', [obj('in', 'Tet'), Ptr(('A', 'out'), (), I(0), ptype('Tet'))], st=st)
        c = st.mem[('A', 'out', 'nodes', 'coords')]
        return st, [[[eng.read(c, (I(k), I(l), I(x)), st) for x in range(3)] for l in range(4)] for k in range(8)]
    splits, n = set(), 0
    for dec, (st, nodes) in paths(eng, f, run):
        tets = []
        for k in range(8):
            t = []
            for l in range(4):
                b = [bary(nodes[k][l][x], x) for x in range(3)]
                t.append(b[0] if b[0] is not None and b[0] == b[1] == b[2] else None)
            tets.append(t)
        lab = 'branch %s: ' % ''.join('01'[d] for d in dec)
        if any(v is None for t in tets for v in t):
            cx.prove(lab + 'not reached unless every corner of every piece is a combination of the corners', T.FALSE, [st.pc])
            continue
        n += 1
        cx.decide(lab + 'corner weights add up to 1', all(sum(v) == 1 for t in tets for v in t), 'exact')
        cx.decide(lab + 'pieces lie inside the tetrahedron', all(x >= 0 for t in tets for v in t for x in v), 'exact', tets)
        vols = [abs(det([list(v) for v in t])) for t in tets]
        cx.decide(lab + 'no piece is flat', all(v > 0 for v in vols), 'exact', vols)
        cx.decide(lab + 'volumes of the pieces add up to the volume of the tetrahedron', sum(vols) == 1, 'exact', vols)
        for a, b in itertools.combinations(range(8), 2):
            cx.decide(lab + 'pieces %d and %d do not overlap' % (a, b), separated(tets[a], tets[b]), 'exact', (tets[a], tets[b]))
        faces = {}
        for t in tets:
            for tri in itertools.combinations(t, 3):
                faces.setdefault(frozenset(tri), []).append(1)
        cx.decide(lab + 'every face is a triangle', all(len(x) == 3 for x in faces), 'exact')
        for i in range(4):
            on = [x for x in faces if all(v[i] == 0 for v in x)]
            cx.decide(lab + 'a face on the outside belongs to one piece (side %d)' % i, all(len(faces[x]) == 1 for x in on), 'exact')
            # the split of a side depends on its corners only: unchanged when they are renamed, and the same on every side
            oth = [j for j in range(4) if j != i]
            loc = lambda perm: frozenset(frozenset(tuple(v[oth[p]] for p in perm) for v in x) for x in on)
            ps = set(loc(p) for p in itertools.permutations(range(3)))
            cx.decide(lab + 'the split of side %d does not depend on the order of its corners' % i, len(ps) == 1, 'exact')
            splits |= ps
            ar = sum(abs(det([[v[j] for j in oth] for v in x])) for x in on)
            cx.decide(lab + 'faces of the pieces cover side %d' % i, ar == 1, 'exact', ar)
        inner = [x for x in faces if not any(all(v[i] == 0 for v in x) for i in range(4))]
        cx.decide(lab + 'a face inside belongs to two pieces', all(len(faces[x]) == 2 for x in inner), 'exact')
    cx.decide('sides are split in one way', len(splits) == 1, 'exact', splits)
    if n == 0:
        raise Unsupported('no branch')
    cx.discharge(eng, kinds={'assert', 'sub', 'pre', 'div'})


def separated(a, b):
    """a plane through corners of the two pieces has them on different sides"""
    for p in list(itertools.combinations(a, 3)) + list(itertools.combinations(b, 3)):
        if len(set(p)) < 3:
            continue
        side = lambda v: det([list(p[0]), list(p[1]), list(p[2]), list(v)])
        sa, sb = [side(v) for v in a], [side(v) for v in b]
        if all(x >= 0 for x in sa) and all(x <= 0 for x in sb) or all(x <= 0 for x in sa) and all(x >= 0 for x in sb):
            return any(sa) or any(sb)
    return False


# ------------------------------------------------------------------ keys
def keys(cx):
    eng = cx.engine(SRC)
    st = State()
    f, g = obj('f', 'FaceNodes'), obj('g', 'FaceNodes')
    F = [T.app('A.f.nodes', (I(k),), 'I') for k in range(3)]
    G = [T.app('A.g.nodes', (I(k),), 'I') for k in range(3)]
    T.NONNEG.update(('A.f.nodes', 'A.g.nodes'))
    dist = lambda v: [T.ne(v[0], v[1]), T.ne(v[0], v[2]), T.ne(v[1], v[2])]
    o = eng.call_func(eng.find('FaceNodes::orderFaceNodes'), None, st, argvals=[f])
    s = [eng.read(st.mem[o.path + ('nodes',)], (I(k),), st) for k in range(3)]
    cx.functions.append('FaceNodes::orderFaceNodes')
    cx.prove('ordered nodes increase', T.and_(T.lt(s[0], s[1]), T.lt(s[1], s[2])), dist(F))
    cx.prove('ordered nodes are the nodes', T.or_(*[T.and_(*[T.eq(s[k], F[p[k]]) for k in range(3)]) for p in itertools.permutations(range(3))]), dist(F))
    lt = [x for x in [eng.find('FaceNodes::operator()')]][0]
    cx.functions.append('FaceNodes::operator()')
    me = obj('me', 'FaceNodes')
    less = lambda a, b: eng.call_func(lt, None, State(), this=me, argvals=[a, b])
    same_set = T.or_(*[T.and_(*[T.eq(F[p[k]], G[k]) for k in range(3)]) for p in itertools.permutations(range(3))])
    fg, gf = less(f, g), less(g, f)
    cx.prove('two faces are one key exactly when they have the same nodes', T.and_(T.implies(same_set, T.and_(T.not_(fg), T.not_(gf))), T.implies(T.and_(T.not_(fg), T.not_(gf)), same_set)), dist(F) + dist(G))
    h = obj('h', 'FaceNodes')
    T.NONNEG.add('A.h.nodes')
    H = [T.app('A.h.nodes', (I(k),), 'I') for k in range(3)]
    cx.prove('the order of face keys is antisymmetric', T.not_(T.and_(fg, gf)), dist(F) + dist(G))
    cx.prove('the order of face keys is transitive', T.implies(T.and_(fg, less(g, h)), less(f, h)), dist(F) + dist(G) + dist(H))

    a, b = obj('a', 'NodeCoords'), obj('b', 'NodeCoords')
    A_ = [T.app('A.a.coords', (I(k),), 'R') for k in range(3)]
    B_ = [T.app('A.b.coords', (I(k),), 'R') for k in range(3)]
    lt = eng.find('NodeCoords::operator()')
    cx.functions.append('NodeCoords::operator()')
    less = lambda x, y: eng.call_func(lt, None, State(), this=obj('me', 'NodeCoords'), argvals=[x, y])
    ab, ba = less(a, b), less(b, a)
    one = T.and_(T.not_(ab), T.not_(ba))
    D = None
    for at in T.atoms_of(ab, lambda y: y.op in ('var', 'app') and 'graphDiameter' in str(y.info)):
        D = at
    if D is None:
        D = T.var('graphDiameter', 'R')
    hy = [T.gt(D, R(0))]
    cx.prove('the same place is one node key', T.implies(T.and_(*[T.eq(x, y) for x, y in zip(A_, B_)]), one), hy)
    for k in range(3):
        tol = T.mul(R(Fraction(1, 10 ** 12)), D)
        cx.prove('places further apart than 1e-12 of the mesh along axis %d are different node keys' % k, T.implies(T.or_(T.gt(T.sub(A_[k], B_[k]), tol), T.gt(T.sub(B_[k], A_[k]), tol)), T.not_(one)), hy)
    cx.prove('the order of node keys is antisymmetric', T.not_(T.and_(ab, ba)), hy)


class Ghost(object):
    """what the two maps hold: an entry per node or face pushed so far, found by an equal key"""

    def __init__(self, sizes):
        self.sizes, self.n = sizes, 0      # record type -> path of the count of the vector the values index

    def snap(self, e, key, st):
        if not isinstance(key, Loc):
            raise Unsupported('map key')
        out = []
        fld = 'coords' if key.ct.name.endswith('NodeCoords') else 'nodes'
        for k in range(3):
            c = st.mem.get(key.path + (fld,))
            if c is None:
                c = Base('.'.join(key.path + (fld,)), 'R' if fld == 'coords' else 'I')
            out.append(e.read(c, key.idx + (I(k),), st))
        return fld, out

    def find(self, e, m, key, st):
        fld, k = self.snap(e, key, st)
        self.n += 1
        v = T.app('found.%d' % e.uid(), tuple(e.loop_vars), 'I')
        T.NONNEG.add(v.info)
        p = T.eq(T.app('isthere.%d' % e.uid(), tuple(e.loop_vars), 'I'), I(1))
        sz = st.mem.get(self.sizes[fld])
        ev = Ev('find', map=m.path, fld=fld, key=k, present=p, val=v, pc=st.pc, size=sz, state=st.copy())
        e.events.append(ev)
        e.facts.append(T.implies(p, T.lt(v, sz)))
        e.facts.append(T.lt(sz, I(2 ** 63)))
        return p, v

    def insert(self, e, m, key, val, st):
        fld, k = self.snap(e, key, st)
        e.events.append(Ev('insert', map=m.path, fld=fld, key=k, val=val, pc=st.pc, size=st.mem.get(self.sizes[fld]), state=st.copy()))
        return Opaque('insert result')


def build(cx, extra=False):
    eng = cx.engine(SRC)
    eng.events = []
    N = uvar('N')
    cm, rm = obj('cm', 'SerialMesh'), obj('rm', 'SerialMesh')
    st = State()
    cn = lambda *p: '.'.join(('A', 'cm') + p)
    st.mem[cm.path + ('c_numCells',)] = N
    st.mem[cm.path + ('c_cellData', '#n')] = N
    for v, c in (('c_nodeData', 'c_numNodes'), ('c_faceData', 'c_numFaces')):
        st.mem[cm.path + (v, '#n')] = st.mem[cm.path + (c,)] = uvar(c)
    node = cn('c_cellData', '#e', 'boundingNodes')
    T.NONNEG.add(node)
    eng.axioms.add(node, lambda i: [T.lt(T.app(node, i, 'I'), uvar('c_numNodes'))])
    for v in ('c_cellData', 'c_faceData', 'c_nodeData'):
        st.mem[rm.path + (v, '#n')] = I(0)
    sz = {'coords': rm.path + ('c_nodeData', '#n'), 'nodes': rm.path + ('c_faceData', '#n')}
    csz = rm.path + ('c_cellData', '#n')
    eng.map_hook = Ghost(sz)

    def tet(e, this, a, s):
        src, out = a
        p = src.path + ('nodes', 'coords')
        c = s.mem.get(p)
        e.events.append(Ev('tet', pc=s.pc, coords=[[e.read(c, src.idx + (I(l), I(x)), s) for x in range(3)] for l in range(4)], state=s.copy()))
        if not isinstance(out, (Ptr, Loc)):
            raise Unsupported('pieces')
        q = out.path + ('nodes', 'coords')
        e.note_write(q)
        s.mem[q] = Base('piece', 'R')
        e.events[-1].out = q
    eng.contracts['refineTet'] = tet
    w = Walk(eng, lambda p: p[:2] == rm.path or extra and len(p) == 2 and p[0][0] == 'L', ['tet', 'find', 'insert'],
             force=innermost(eng, lambda n: n.get('kind') == 'MemberExpr' and n.get('name') == 'push_back' and any(c.get('name') == 'c_cellData' for c in n.get('inner', []) if isinstance(c, dict))))
    cx.satisfiable(eng)
    cx.run(eng, 'refineMesh', [cm, rm], st=st)
    w.close()
    return eng, w, st


def diameter(cx):
    """the tolerance of node keys is relative to the extent of the mesh"""
    eng, w, st = build(cx, True)
    eng.obls = []
    coord = lambda c, v, x: T.app('A.cm.c_nodeData.#e.coords', (T.app('A.cm.c_cellData.#e.boundingNodes', (c, I(v)), 'I'), I(x)), 'R')
    big = T.var('DBL_MAX', 'R')
    found = {}
    for L in w.levels:
        if L.count is None or L.depth != 0:
            continue
        h = L.head
        for p, u in L.ups.items():
            c0 = h.st0.mem.get(p)
            if c0 is None or isinstance(c0, T.E):
                continue
            try:
                ini = [eng.read(c0, (I(x),), h.st0) for x in range(3)]
            except Exception:
                continue
            k = 'min' if all(v is big for v in ini) else 'max' if all(v is T.neg(big) for v in ini) else None
            if k is not None and k not in found:
                found[k] = (L, p)
    if sorted(found) != ['max', 'min']:
        raise Unsupported('extent of the mesh')
    ext = {}
    for k, (L, p) in sorted(found.items()):
        h = L.head
        hy = in_loop(L) + [h.head.pc]
        le = (lambda a, b: T.le(a, b)) if k == 'min' else (lambda a, b: T.ge(a, b))
        for x in range(3):
            a, b = eng.read(h.after.mem[p], (I(x),), h.after), eng.read(h.head.mem[p], (I(x),), h.head)
            cs = [coord(L.sym, v, x) for v in range(4)]
            cx.prove('%s along axis %d covers the corners of the cell' % (k, x), T.and_(*[le(a, c) for c in cs]), hy)
            cx.prove('%s along axis %d covers the earlier cells' % (k, x), le(a, b), hy)
            cx.prove('%s along axis %d is attained' % (k, x), T.or_(*[T.eq(a, c) for c in cs + [b]]), hy)
        cx.prove('%s: all cells are looked at' % k, T.and_(T.eq(L.start, I(0)), T.eq(L.bound, uvar('N'))), [h.st0.pc])
        ext[k] = (L.exit, p)
    dp = [q for q in st.mem if q[-1] == 'graphDiameter']
    if len(dp) != 1:
        raise Unsupported('graph diameter')
    d = [T.sub(*[eng.read(ext[k][0].mem[ext[k][1]], (I(x),), st) for k in ('max', 'min')]) for x in range(3)]
    g = st.mem[dp[0]]
    cx.prove('the diameter is the largest extent', T.and_(*([T.ge(g, v) for v in d] + [T.or_(*[T.eq(g, v) for v in d])])), [st.pc])


def assemble(cx):
    eng, w, st = build(cx)
    rm = ('A', 'rm')
    N = uvar('N')
    P = lambda *q: rm + q
    CN, FN, NN = P('c_cellData', '#n'), P('c_faceData', '#n'), P('c_nodeData', '#n')
    lv = [l for l in w.levels if any(e.name == 'find' for e in l.evs)]
    L1, L0 = [l for l in lv if l.depth == 1], [l for l in lv if l.depth == 0]
    if len(L1) != 1 or len(L0) != 1 or len(lv) != 2 or L1[0].count is None or L0[0].count is None:
        raise Unsupported('loops over cells and pieces')
    L1, L0 = L1[0], L0[0]
    tet = [e for e in L0.evs if e.name == 'tet']
    if len(tet) != 1 or any(e.name == 'tet' for e in L1.evs):
        raise Unsupported('call of refineTet')
    tet = tet[0]
    h0, h1 = L0.head, L1.head
    cx.prove('all cells are refined', T.and_(T.eq(L0.start, I(0)), T.eq(L0.bound, N)), [h0.st0.pc])
    cx.prove('all pieces of a cell are added', T.and_(T.eq(L1.start, I(0)), T.eq(L1.bound, I(8))), in_loop(L0) + [h1.st0.pc])
    cx.prove('every cell is cut', tet.pc, in_loop(L0) + [h0.head.pc])
    c = L0.sym
    for l in range(4):
        for x in range(3):
            want = T.app('A.cm.c_nodeData.#e.coords', (T.app('A.cm.c_cellData.#e.boundingNodes', (c, I(l)), 'I'), I(x)), 'R')
            cx.prove('corner %d of the cell cut, axis %d' % (l, x), T.eq(tet.coords[l][x], want), in_loop(L0) + [tet.pc])
    H, A = h1.head, h1.after
    hy = in_loop(L0) + in_loop(L1) + [H.pc]
    size = lambda s, p: s.mem[p]
    C0, F0, N0 = size(H, CN), size(H, FN), size(H, NN)
    hy += [T.ge(v, I(0)) for v in (C0, F0, N0)] + [T.lt(v, I(2 ** 62)) for v in (C0, F0, N0)]
    cx.satisfiable(eng, hy, 'iteration')
    rd = lambda s, f, *i: eng.read(s.mem[P(*f.split('.'))], i, s)
    bn = [rd(A, 'c_cellData.#e.boundingNodes', C0, I(l)) for l in range(4)]
    bf = [rd(A, 'c_cellData.#e.boundingFaces', C0, I(l)) for l in range(4)]
    finds = [e for e in L1.evs if e.name == 'find']
    ins = [e for e in L1.evs if e.name == 'insert']
    fn, ff = [e for e in finds if e.fld == 'coords'], [e for e in finds if e.fld == 'nodes']
    if len(fn) != 4 or len(ff) != 4 or len(ins) != 8 or len(set(e.map for e in fn)) != 1 or len(set(e.map for e in ff)) != 1:
        raise Unsupported('lookups of nodes and faces')
    kmap = {'coords': fn[0].map, 'nodes': ff[0].map}
    # ---- insertions keep the maps in step with the vectors
    for k, e in enumerate(ins):
        f = [x for x in finds if x.fld == e.fld and all(a is b for a, b in zip(x.key, e.key))]
        if len(f) != 1:
            raise Unsupported('key inserted')
        f = f[0]
        e.of = f
        cx.decide('insertion %d goes to the map searched' % k, e.map == kmap[e.fld], 'normal-form')
        cx.prove('insertion %d happens exactly when the key is not found' % k, T.and_(T.implies(e.pc, T.not_(f.present)), T.implies(T.and_(f.pc, T.not_(f.present)), e.pc)), hy)
        cx.prove('insertion %d: value is the number of entries so far' % k, T.eq(e.val, e.size), hy + [e.pc])
    for k, f in enumerate(finds):
        cx.prove('lookup %d always happens' % k, f.pc, hy)
        for e in ins:
            if e.fld == f.fld and L1.evs.index(e) < L1.evs.index(f):
                cx.prove('lookup %d: entries inserted so far exist' % k, T.lt(e.val, f.size), hy + [e.pc])
    # ---- nodes
    n = N0
    got = {}
    for e in fn:
        g = T.ite(e.present, e.val, n)
        a = [k for k in e.key]
        ls = [l for l in range(4) if all(k is T.app('piece', (L1.sym, I(l), I(x)), 'R') for x, k in enumerate(a))]
        if len(ls) != 1 or ls[0] in got:
            raise Unsupported('node key')
        l = ls[0]
        got[l] = g
        cx.prove('corner %d of the piece is the node found or made for it' % l, T.eq(bn[l], g), hy)
        for x in range(3):
            cx.prove('a new node lies at corner %d of the piece, axis %d' % (l, x), T.eq(rd(A, 'c_nodeData.#e.coords', g, I(x)), T.app('piece', (L1.sym, I(l), I(x)), 'R')), hy + [T.not_(e.present)])
        n = T.add(n, T.ite(e.present, I(0), I(1)))
    q = uvar('q')
    cx.prove('a node is added per corner not found', T.eq(size(A, NN), n), hy)
    for x in range(3):
        cx.prove('earlier nodes stay where they are, axis %d' % x, T.eq(rd(A, 'c_nodeData.#e.coords', q, I(x)), rd(H, 'c_nodeData.#e.coords', q, I(x))), hy + [T.lt(q, N0)])
    cx.prove('node numbers are in range', T.and_(*[T.and_(T.ge(v, I(0)), T.lt(v, size(A, NN))) for v in bn]), hy)
    # ---- faces
    n = F0
    js, fresh = set(), []
    for e in ff:
        g = T.ite(e.present, e.val, n)
        j = [j for j in range(4) if any(all(k is bn[o] for k, o in zip(e.key, pm)) for pm in itertools.permutations([o for o in range(4) if o != j]))]
        if len(j) != 1 or j[0] in js:
            raise Unsupported('face key')
        j = j[0]
        js.add(j)
        cx.prove('side %d of the piece is the face found or made for it' % j, T.eq(bf[j], g), hy)
        fresh.append((j, e, g))
        n = T.add(n, T.ite(e.present, I(0), I(1)))
    cx.prove('a face is added per side not found', T.eq(size(A, FN), n), hy)
    cx.prove('face numbers are in range', T.and_(*[T.and_(T.ge(v, I(0)), T.lt(v, size(A, FN))) for v in bf]), hy)
    hit = lambda f: T.or_(*[T.and_(e.present, T.eq(e.val, f)) for e in ff])
    cells = lambda s, f, k: rd(s, 'c_faceData.#e.boundingCells', f, I(k))
    for j, e, g in fresh:
        no = hy + [T.not_(e.present)]
        for k in range(3):
            cx.prove('a new face on side %d has the nodes looked for (%d)' % (j, k), T.eq(rd(A, 'c_faceData.#e.boundingNodes', g, I(k)), e.key[k]) if False else
                     T.or_(*[T.eq(rd(A, 'c_faceData.#e.boundingNodes', g, I(k)), v) for v in e.key]), no)
            cx.prove('a new face on side %d has all the nodes looked for (%d)' % (j, k), T.or_(*[T.eq(rd(A, 'c_faceData.#e.boundingNodes', g, I(m)), e.key[k]) for m in range(3)]), no)
        cx.prove('the first cell of a new face on side %d is the new cell' % j, T.eq(cells(A, g, 0), C0), no)
        cx.prove('a new face on side %d has no second cell yet' % j, T.eq(cells(A, g, 1), T.ite(hit(g), C0, BOUNDARY)), no)
    old = hy + [T.lt(q, F0)]
    cx.prove('the first cell of an earlier face stays', T.eq(cells(A, q, 0), cells(H, q, 0)), old)
    cx.prove('the second cell of an earlier face is the new cell when that face was found for one of its sides, else it stays', T.eq(cells(A, q, 1), T.ite(hit(q), C0, cells(H, q, 1))), old)
    for k in range(3):
        cx.prove('nodes of earlier faces stay (%d)' % k, T.eq(rd(A, 'c_faceData.#e.boundingNodes', q, I(k)), rd(H, 'c_faceData.#e.boundingNodes', q, I(k))), old)
    # ---- cells
    cx.prove('one cell is added per piece', T.eq(size(A, CN), T.add(C0, I(1))), hy)
    cx.prove('the piece has the material of its cell', T.eq(rd(A, 'c_cellData.#e.materialIndex', C0), T.app('A.cm.c_cellData.#e.materialIndex', (c,), 'I')), hy)
    old = hy + [T.lt(q, C0)]
    for k in range(4):
        for f in ('boundingNodes', 'boundingFaces'):
            cx.prove('%s of earlier cells stay (%d)' % (f, k), T.eq(rd(A, 'c_cellData.#e.' + f, q, I(k)), rd(H, 'c_cellData.#e.' + f, q, I(k))), old)
    cx.prove('materials of earlier cells stay', T.eq(rd(A, 'c_cellData.#e.materialIndex', q), rd(H, 'c_cellData.#e.materialIndex', q)), old)
    # ---- nothing else changes the mesh
    for p, u in sorted(L0.ups.items()):
        if p[:2] == rm:
            cx.decide('outside the loop over pieces %s is left alone' % p[-1], same_content(h1.exit().mem.get(p), h0.after.mem.get(p)) or (p[-1] == '#n' and isinstance(h0.after.mem.get(p), T.E) and h0.after.mem[p] is L1.head.head.mem.get(p)), 'normal-form')
    # ---- result
    for a, b in (('c_numCells', CN), ('c_numFaces', FN), ('c_numNodes', NN)):
        cx.prove('%s is the number of entries' % a, T.eq(st.mem[P(a)], st.mem[b]), [st.pc])
    for p in (CN, FN, NN):
        cx.prove('the mesh starts empty: %s' % p[2], T.eq(h0.st0.mem[p], I(0)), [h0.st0.pc])
    cx.discharge(eng, hy, kinds={'assert', 'pre', 'index', 'sub', 'null'})


def same_content(a, b):
    return a is b or isinstance(a, Base) and isinstance(b, Base) and a.name == b.name


def main(cx):
    eng = cx.engine(SRC)
    eng.assume_asserts = True
    log = []

    def rec(name):
        def f(e, this, a, s):
            if e.loop_vars:
                raise Unsupported('tool step in a loop')
            log.append(Ev(name, this=this, args=a, pc=s.pc, state=s.copy()))
        return f
    for q, n in (('SerialMesh::read', 'read'), ('refineMesh', 'refine'), ('SerialMesh::write', 'write'), ('printMeshData', 'print')):
        eng.contracts[q] = rec(n)
    na = uvar('argc')
    st = State()
    cx.run(eng, 'main', [na, Ptr(('A', 'argv'), (), I(0), ptype('char *'))], st=st)
    steps = [x for x in log if x.name != 'print']
    if sorted(x.name for x in steps) != ['read', 'refine', 'write']:
        raise Unsupported('steps of the tool')
    cx.decide('read, refine, write, in this order', [x.name for x in steps] == ['read', 'refine', 'write'], 'normal-form')
    r, f, w = steps
    for x in steps:
        cx.prove('step %s happens with two arguments' % x.name, x.pc, [T.eq(na, I(3))])
    loc = lambda v: v.path if isinstance(v, (Loc, Ptr)) else None
    cx.decide('the mesh read is refined', loc(r.this) == loc(f.args[0]), 'normal-form')
    cx.decide('the refined mesh is written', loc(w.this) == loc(f.args[1]), 'normal-form')
    cx.decide('the refined mesh is another mesh, not touched before', loc(f.args[1]) != loc(r.this) and not any(p[:len(loc(w.this))] == loc(w.this) and p[-1] in ('#e', '#n') and f.state.mem[p] is not I(0) for p in f.state.mem), 'normal-form')
    for what, v, a in (('input', r, 1), ('output', w, 2)):
        s = v.state.mem.get((loc(v.args[0]) or ()) + ('#str',))
        if not isinstance(s, Ptr):
            raise Unsupported('%s file name' % what)
        cx.prove('the %s file is command-line argument %d' % (what, a), T.eq(s.idx[-1] if s.idx else s.off, I(a)), [v.pc])


def prove(cx):
    with cx.unit('refineTet'):
        one_tet(cx)
    with cx.unit('node and face keys'):
        keys(cx)
    with cx.unit('refineMesh: extent of the mesh'):
        diameter(cx)
    with cx.unit('refineMesh: nodes, faces and cells'):
        assemble(cx)
    with cx.unit('main'):
        main(cx)
    cx.assume('std::map finds an entry exactly when one with an equivalent key was inserted, and the value it was inserted with')
    cx.assume('places of distinct nodes of the mesh and of edge midpoints differ by more than 1e-14 of the extent of the mesh along some axis')
    cx.assume('the mesh given is conforming: two cells meet in a common face, edge, node or not at all')
    cx.assume('vectors hold fewer than 2^62 entries')
