"""ParallelMesh::createFromSerialMesh: sets of each part, local numberings, records, byte offsets."""
from vc.ctx import *
from vc.walk import Walk, in_loop
from vc.exec import Loc, Fn, ptype

PM = 'src/ParallelMesh.cc'
PROOT = ('A', 'pm', 'c_partitionData', '#e')
NONE = 2 ** 64 - 1
NP, NC, NF, NN = 'numPartitions', 'nc', 'nf', 'nn'
MESHB, PARTB, INNER = 0, 1, 2          # ParallelMesh::BoundaryType


class Ev(object):
    def __init__(self, name, **k):
        self.name = name
        self.__dict__.update(k)


def nat(n, *a):
    T.NONNEG.add(n)
    return T.app(n, a, 'I')


def pv(c): return nat('A.pv.#e', c)
def sm(arr, f, *i): return nat('A.sm.%s.#e.%s' % (arr, f), *i)
def bf(c, l): return sm('c_cellData', 'boundingFaces', c, l)
def bn(c, l): return sm('c_cellData', 'boundingNodes', c, l)
def mat(c): return sm('c_cellData', 'materialIndex', c)
def bc(f, l): return sm('c_faceData', 'boundingCells', f, l)
def fn(f, l): return sm('c_faceData', 'boundingNodes', f, l)


# ghosts of the sets and maps: named after the variable, indexed by part
def sid(p): return '.'.join(p)
def setn(p, part): return nat('n:' + sid(p), part)
def el(p, part, k): return nat('el:' + sid(p), part, k)
def rank(p, part, x): return nat('rank:' + sid(p), part, x)
def has(p, part, x): return T.app('has:' + sid(p), (part, x), 'B')
def at(p, part, x): return nat('at:' + sid(p), part, x)


class Ghost(object):
    """operations on sets and maps become events; iteration goes through the elements in increasing order"""

    def one(self, obj):
        if len(obj.idx) != 1:
            raise Unsupported('set or map %r' % (obj,))
        return obj.idx[0]


class Sets(Ghost):
    def insert(self, e, obj, key, st):
        e.events.append(Ev('set-insert', path=obj.path, part=self.one(obj), key=key, pc=st.pc, line=e.line))

    def size(self, e, obj, st):
        e.events.append(Ev('set-use', path=obj.path, pc=st.pc))
        return setn(obj.path, self.one(obj))

    def elem(self, e, obj, i, st):
        e.events.append(Ev('set-use', path=obj.path, pc=st.pc))
        return el(obj.path, self.one(obj), i)


class Maps(Ghost):
    def insert(self, e, obj, key, val, st):
        e.events.append(Ev('map-insert', path=obj.path, part=self.one(obj), key=key, val=val, pc=st.pc))

    def find(self, e, obj, key, st):
        p = self.one(obj)
        e.events.append(Ev('map-find', path=obj.path, part=p, key=key, pc=st.pc))
        return TRUE, at(obj.path, p, key)


def build(cx):
    eng = cx.engine(PM)
    eng.events = []
    st = State()
    pm, s, v = obj('pm', 'ParallelMesh'), obj('sm', 'SerialMesh'), obj('pv', 'std::vector<uint64_t>')
    np_, nc, nf, nn = uvar(NP), uvar(NC), uvar(NF), uvar(NN)
    for a, n in (('c_cellData', nc), ('c_faceData', nf), ('c_nodeData', nn)):
        st.mem[s.path + (a, '#n')] = n
    for a, n in (('c_numCells', nc), ('c_numFaces', nf), ('c_numNodes', nn)):
        st.mem[s.path + (a,)] = n
    st.mem[v.path + ('#n',)] = nc
    for n in ('A.pv.#e',) + tuple('A.sm.%s.#e.%s' % x for x in (('c_cellData', 'boundingFaces'), ('c_cellData', 'boundingNodes'), ('c_cellData', 'materialIndex'), ('c_faceData', 'boundingCells'), ('c_faceData', 'boundingNodes'))):
        T.NONNEG.add(n)
    eng.set_hook, eng.map_hook = Sets(), Maps()
    w = Walk(eng, lambda p: p[:2] == ('A', 'pm'), ['set-insert', 'map-insert'])
    st, _ = cx.run(eng, 'ParallelMesh::createFromSerialMesh', [s, v, np_], this=pm, st=st)
    w.close()
    return eng, w, st


def linear(lv):
    """scalars of the loop that step by one with the counter"""
    r = []
    for hs, p in lv.head.hsym.items():
        v, v0 = lv.head.after.mem.get(p), lv.head.st0.mem.get(p)
        if hs is not lv.sym and hs.sort == 'I' and isinstance(v, T.E) and isinstance(v0, T.E):
            if T.sub(v, hs) is I(1):
                r.append(T.eq(hs, T.add(v0, T.sub(lv.sym, lv.start))))
    return r


def parents(w):
    r = {}
    for lv in w.levels:
        for c in lv.children:
            r[id(c)] = lv
    return r


class Model(object):
    """what the sets and maps of the function hold, found from the insertions"""

    def __init__(self, cx, eng, w):
        self.cx, self.eng, self.w = cx, eng, w
        self.up = parents(w)
        self.sets, self.maps = {}, {}
        np_, nc = uvar(NP), uvar(NC)
        # sets: one pass over the cells
        lv = [x for x in w.levels if any(e.name == 'set-insert' for e in x.evs)]
        if len(lv) != 1 or lv[0].depth or lv[0].count is None:
            raise Unsupported('loop that fills the sets')
        lv = lv[0]
        h, C = lv.head, lv.sym
        cx.prove('sets: every cell', T.and_(T.eq(lv.start, I(0)), T.eq(lv.bound, nc)), [h.st0.pc], eng)
        base = in_loop(lv) + linear(lv) + [h.head.pc]
        by = {}
        for e in lv.evs:
            if e.name == 'set-insert':
                by.setdefault(e.path, []).append(e)
        for path, es in by.items():
            kind = self.kind(es)
            if kind in self.sets:
                raise Unsupported('two sets of %s' % kind)
            self.sets[kind] = path
            want = [C] if kind == 'cells' else [(bf if kind == 'faces' else bn)(C, I(l)) for l in range(4)]
            for e in es:
                cx.prove('%s: into the part of the cell' % kind, T.eq(e.part, pv(C)), base + [e.pc], eng)
                cx.prove('%s: only what belongs to the cell' % kind, T.or_(*[T.eq(e.key, x) for x in want]), base + [e.pc], eng)
            for l, x in enumerate(want):
                cx.prove('%s: %d of the cell is inserted' % (kind, l), T.or_(*[T.and_(e.pc, T.eq(e.key, x)) for e in es]), base, eng)
        if set(self.sets) != {'cells', 'faces', 'nodes'}:
            raise Unsupported('sets of cells, faces and nodes')
        last = max(i for i, e in enumerate(eng.events) if e.name == 'set-insert')
        if any(e.name == 'set-use' for e in eng.events[:last]):
            raise Unsupported('sets used while they are filled')
        self.axioms()
        # maps: position of every member
        ml = {}
        for x in w.levels:
            if not x.children:
                for e in x.evs:
                    if e.name == 'map-insert':
                        ml.setdefault(e.path, []).append((x, e))
        for m, xs in ml.items():
            if len(xs) != 1 or xs[0][0].depth != 1:
                raise Unsupported('insertions into a map')
            lv, e = xs[0]
            out = self.up[id(lv)]
            kind = [k for k, p in self.sets.items() if T.atoms_of(e.key, lambda a, p=p: a.op == 'app' and a.info == 'el:' + sid(p))]
            if len(kind) != 1 or kind[0] in self.maps:
                raise Unsupported('keys of a map')
            kind = kind[0]
            part = self.parts(out, 'map of %s' % kind)
            self.each(lv, part, kind, 'map of %s' % kind)
            k = lv.sym
            hy = in_loop(lv) + in_loop(out) + linear(lv) + [lv.head.head.pc]
            cx.prove('map of %s: inserted unconditionally' % kind, e.pc, hy, eng)
            cx.prove('map of %s: of this part' % kind, T.eq(e.part, part), hy, eng)
            cx.prove('map of %s: key' % kind, T.eq(e.key, el(self.sets[kind], part, k)), hy, eng)
            cx.prove('map of %s: value is the position' % kind, T.eq(e.val, k), hy, eng)
            self.maps[kind] = m
        if set(self.maps) != set(self.sets):
            raise Unsupported('maps of cells, faces and nodes')
        last = max(i for i, e in enumerate(eng.events) if e.name == 'map-insert')
        if any(e.name == 'map-find' for e in eng.events[:last]):
            raise Unsupported('maps used while they are filled')
        for kind, m in self.maps.items():
            s = self.sets[kind]
            eng.axioms.add('at:' + sid(m), lambda i, s=s, m=m: [T.implies(has(s, *i), T.eq(at(m, *i), rank(s, *i)))])

    def kind(self, es):
        r = set()
        for e in es:
            a = {y.info for y in T.atoms_of(e.key, lambda y: y.op == 'app')}
            r.add('faces' if 'A.sm.c_cellData.#e.boundingFaces' in a else 'nodes' if 'A.sm.c_cellData.#e.boundingNodes' in a else 'cells')
        if len(r) != 1:
            raise Unsupported('mixed set')
        return r.pop()

    def parts(self, out, what):
        if out.depth or out.count is None:
            raise Unsupported('loop over the parts')
        self.cx.prove('%s: every part' % what, T.and_(T.eq(out.start, I(0)), T.eq(out.bound, uvar(NP))), [out.head.st0.pc], self.eng)
        return out.sym

    def each(self, lv, part, kind, what):
        if lv.count is None:
            raise Unsupported('loop over a set')
        self.cx.prove('%s: every element' % what, T.and_(T.eq(lv.start, I(0)), T.eq(lv.bound, setn(self.sets[kind], part))), [lv.head.st0.pc], self.eng)

    def axioms(self):
        ax, nc = self.eng.axioms, uvar(NC)
        for s in self.sets.values():
            # elements in order: el and rank are inverse to each other on the members
            ax.add('el:' + sid(s), lambda i, s=s: [T.implies(T.and_(T.le(I(0), i[1]), T.lt(i[1], setn(s, i[0]))), T.and_(has(s, i[0], el(s, *i)), T.eq(rank(s, i[0], el(s, *i)), i[1])))])
            ax.add('rank:' + sid(s), lambda i, s=s: [T.implies(has(s, *i), T.and_(T.lt(rank(s, *i), setn(s, i[0])), T.eq(el(s, i[0], rank(s, *i)), i[1])))])
        c, f, n = (self.sets[k] for k in ('cells', 'faces', 'nodes'))
        ax.add('has:' + sid(c), lambda i: [T.eq(has(c, *i), T.and_(T.lt(i[1], nc), T.eq(pv(i[1]), i[0])))])
        for s, g, tab, nm in ((f, bf, 'boundingFaces', 'wf'), (n, bn, 'boundingNodes', 'wn')):
            ax.add('has:' + sid(s), lambda i, s=s, g=g, nm=nm: [T.implies(has(s, *i), witness(nm, g, *i))])
            ax.add('A.sm.c_cellData.#e.' + tab, lambda i, s=s, g=g: [T.implies(T.and_(T.lt(i[0], nc), T.le(I(0), i[1]), T.lt(i[1], I(4))), has(s, pv(i[0]), g(*i)))])
            for x in (s,):
                pass
        valid(ax)


def witness(nm, g, p, x):
    """some cell of part p has x as its l-th face (node)"""
    c, l = nat(nm + '.c', p, x), nat(nm + '.l', p, x)
    return T.and_(T.lt(c, uvar(NC)), T.lt(l, I(4)), T.eq(pv(c), p), T.eq(g(c, l), x))


def valid(ax):
    """the serial mesh and the partition vector the function is given"""
    nc, nf, nn, np_ = uvar(NC), uvar(NF), uvar(NN), uvar(NP)
    cell = lambda c: T.lt(c, nc)
    ax.add('A.pv.#e', lambda i: [T.implies(cell(i[0]), T.lt(pv(i[0]), np_))])
    ax.add('A.sm.c_cellData.#e.boundingFaces', lambda i: [T.implies(T.and_(cell(i[0]), T.le(I(0), i[1]), T.lt(i[1], I(4))), T.and_(T.lt(bf(*i), nf), T.or_(T.eq(bc(bf(*i), I(0)), i[0]), T.eq(bc(bf(*i), I(1)), i[0]))))])
    ax.add('A.sm.c_cellData.#e.boundingNodes', lambda i: [T.implies(T.and_(cell(i[0]), T.le(I(0), i[1]), T.lt(i[1], I(4))), T.lt(bn(*i), nn))])

    def sides(i):
        f, j = i
        b = bc(f, j)
        l = nat('side', f, j)
        return [T.implies(T.and_(T.lt(f, nf), T.not_(T.eq(b, I(NONE)))), T.and_(cell(b), T.lt(l, I(4)), T.eq(bf(b, l), f)))]
    ax.add('A.sm.c_faceData.#e.boundingCells', sides)


def corner(f, p, j):
    """the nodes of a face are nodes of its cell"""
    c = nat('wf.c', p, f)
    m = nat('corner', c, f, j)
    return [T.lt(m, I(4)), T.eq(fn(f, j), bn(c, m))]


def records(cx, eng, w, M):
    want = {'cells': ('cellData', 'numCells'), 'faces': ('faceData', 'numFaces'), 'nodes': ('nodeData', 'numNodes')}
    C, F, N = (M.sets[k] for k in ('cells', 'faces', 'nodes'))
    outs = []
    for kind, (arr, cnt) in want.items():
        p0 = PROOT + (arr, '#e')
        lvs = [x for x in w.levels if not x.children and any(p[:len(p0)] == p0 for p in x.ups)]
        if len(lvs) != 1 or lvs[0].depth != 1:
            raise Unsupported('loop over %s' % arr)
        lv = lvs[0]
        out = M.up[id(lv)]
        outs.append(out)
        S = M.sets[kind]
        part = M.parts(out, arr)
        M.each(lv, part, kind, arr)
        h, k = lv.head, lv.sym
        g = el(S, part, k)
        hy = in_loop(lv) + in_loop(out) + linear(lv) + [h.head.pc]
        hy += [T.le(uvar(NC), I(NONE))] + [x for j in range(3) for x in corner(g, part, I(j))] if kind == 'faces' else []
        for e in lv.evs:
            if e.name == 'map-find':
                q = [x for x, m in M.maps.items() if m == e.path]
                if len(q) != 1:
                    raise Unsupported('lookup')
                cx.prove('%s: what is looked up is there' % arr, has(M.sets[q[0]], e.part, e.key), hy + [e.pc], eng)

        def field(f, j, v, i=None):
            c = h.after.mem.get(p0 + (f,))
            if c is None or p0 + (f,) not in lv.ups:
                raise Unsupported('field %s' % f)
            ix = (part, k) + (() if j is None else (I(j),))
            cx.prove('%s: %s%s' % (arr, f, '' if j is None else '[%d]' % j), T.eq(eng.read(c, ix, h.after), v), hy, eng)
        field('globalID', None, g)
        if kind == 'cells':
            field('materialIndex', None, mat(g))
            for l in range(4):
                field('boundingFaces', l, rank(F, part, bf(g, I(l))))
                field('boundingNodes', l, rank(N, part, bn(g, I(l))))
        elif kind == 'faces':
            b = [bc(g, I(l)) for l in range(2)]
            for l in range(2):
                none = T.eq(b[l], I(NONE))
                field('boundingCells', l, T.ite(none, I(NONE), rank(C, pv(b[l]), b[l])))
                field('partition', l, T.ite(none, I(NONE), pv(b[l])))
            for l in range(3):
                field('boundingNodes', l, rank(N, part, fn(g, I(l))))
            field('boundaryType', None, T.ite(T.or_(*[T.eq(x, I(NONE)) for x in b]), I(MESHB), T.ite(T.or_(*[T.not_(T.eq(pv(x), part)) for x in b]), I(PARTB), I(INNER))))
        else:
            for j in range(3):
                field('coords', j, T.app('A.sm.c_nodeData.#e.coords', (g, I(j)), 'R'))
        # nothing else changes
        i2 = (uvar('i0'), uvar('i1'))
        other = T.not_(T.and_(T.eq(i2[0], part), T.eq(i2[1], k)))
        for p in h.mod:
            if p[:len(p0)] == p0 and len(p) == len(p0) + 1:
                ix = i2 + ((uvar('j'),) if p[-1] in ('boundingFaces', 'boundingNodes', 'boundingCells', 'partition', 'coords') else ())
                cx.prove('%s: other records keep %s' % (arr, p[-1]), T.eq(eng.read(h.after.mem[p], ix, h.after), eng.read(h.head.mem[p], ix, h.head)), hy + [other], eng)
                if [x for x in w.levels if not x.children and p in x.ups] != [lv]:
                    raise Unsupported('%s written in several loops' % p[-1])
            elif p[:2] == ('A', 'pm'):
                raise Unsupported('the loop also writes %s' % (p,))
        # counts
        o = out.head
        ho = in_loop(out) + [o.head.pc]
        for p in (PROOT + (cnt,), PROOT + (arr, '#n')):
            for s in (h.st0, o.after):
                cx.prove('%s: %s' % (arr, p[-1]), T.eq(eng.load(Loc(p, (part,), ptype('size_t')), s), setn(S, part)), ho, eng)
            cx.prove('%s: %s of other parts' % (arr, p[-1]), T.eq(eng.read(o.after.mem[p], (i2[0],), o.after), eng.read(o.head.mem[p], (i2[0],), o.head)), ho + [T.not_(T.eq(i2[0], part))], eng)
    return outs


def offsets(cx, eng, w):
    p = ('A', 'pm', 'c_bytesOffset', '#e')
    lv = [x for x in w.levels if p in x.ups]
    if len(lv) != 1 or lv[0].depth or lv[0].count is None or lv[0].children:
        raise Unsupported('offsets')
    lv = lv[0]
    h, C, np_ = lv.head, lv.sym, uvar(NP)
    cx.prove('offsets: every part', T.and_(T.eq(lv.start, I(0)), T.eq(lv.bound, np_)), [h.st0.pc])
    cx.prove('the first block follows the name, two words and the offsets', T.eq(eng.read(h.st0.mem[p], (I(0),), h.st0), T.add(I(32), T.mul(I(8), T.add(I(3), np_)))), [h.st0.pc])
    n = [eng.load(Loc(PROOT + (f,), (C,), ptype('size_t')), h.head) for f in ('numCells', 'numFaces', 'numNodes')]
    sz = T.mul(I(8), T.add(I(3), T.add(T.mul(I(10), n[0]), T.add(T.mul(I(9), n[1]), T.mul(I(4), n[2])))))
    hy = in_loop(lv) + linear(lv) + [h.head.pc]
    cx.prove('the next block follows', T.eq(eng.read(h.after.mem[p], (T.add(C, I(1)),), h.after), T.add(eng.read(h.head.mem[p], (C,), h.head), sz)), hy, eng)
    k = uvar('k')
    cx.prove('earlier offsets stay', T.eq(eng.read(h.after.mem[p], (k,), h.after), eng.read(h.head.mem[p], (k,), h.head)), hy + [T.le(k, C)], eng)
    if any(q[:3] == ('A', 'pm', 'c_partitionData') for q in h.mod):
        raise Unsupported('offsets loop')
    return lv


def lemmas(cx, eng, M):
    C, F, N = (M.sets[k] for k in ('cells', 'faces', 'nodes'))
    p, q, c, f, x = (uvar(n) for n in ('p', 'q', 'c', 'f', 'x'))
    nc, nf = uvar(NC), uvar(NF)
    cx.prove('every cell is in the part it was given', has(C, pv(c), c), [T.lt(c, nc)], eng)
    cx.prove('no cell is in two parts', T.eq(p, q), [has(C, p, c), has(C, q, c)], eng)
    b = [bc(f, I(l)) for l in range(2)]
    ins = [T.and_(T.not_(T.eq(y, I(NONE))), T.eq(pv(y), p)) for y in b]
    cx.prove('a face is only in parts of its bounding cells', T.or_(*ins), [has(F, p, f), T.le(nc, I(NONE))], eng)
    for l in range(2):
        cx.prove('a face is in the part of its bounding cell %d' % l, has(F, p, f), [ins[l], T.lt(f, nf)], eng)
    cx.prove('the faces of a cell are in its part', T.and_(*[has(F, p, bf(c, I(l))) for l in range(4)]), [has(C, p, c)], eng)
    cx.prove('the nodes of a cell are in its part', T.and_(*[has(N, p, bn(c, I(l))) for l in range(4)]), [has(C, p, c)], eng)
    # local numbers name the global object they stand for, so both sides of a partition boundary name each other's cell
    for S, what in ((C, 'cell'), (F, 'face'), (N, 'node')):
        r = rank(S, p, x)
        cx.prove('a local %s number names the record of its global id' % what, T.and_(T.eq(el(S, p, r), x), T.lt(r, setn(S, p))), [has(S, p, x)], eng)
    k, m = uvar('k'), uvar('m')
    cx.prove('every global id has one record per part', T.eq(k, m), [T.eq(el(C, p, k), el(C, p, m)), T.lt(k, setn(C, p)), T.lt(m, setn(C, p))], eng)
    cx.prove('the cell named across the boundary is the bounding cell', T.eq(el(C, pv(b[1]), rank(C, pv(b[1]), b[1])), b[1]), [T.lt(f, nf), T.not_(T.eq(b[1], I(NONE)))], eng)


def prove(cx):
    with cx.unit('ParallelMesh::createFromSerialMesh'):
        eng, w, st = build(cx)
        obls, eng.obls = eng.obls, []
        M = Model(cx, eng, w)
        cx.satisfiable(eng)
        records(cx, eng, w, M)
        offsets(cx, eng, w)
        cx.prove('number of parts', T.eq(st.mem[('A', 'pm', 'c_numPartitions')], uvar(NP)))
        cx.prove('one offset more than parts', T.eq(st.mem[('A', 'pm', 'c_bytesOffset', '#n')], T.add(uvar(NP), I(1))))
        cx.prove('one record per part', T.eq(st.mem[('A', 'pm', 'c_partitionData', '#n')], uvar(NP)))
        eng.obls = obls
        cx.discharge(eng)
    with cx.unit('lemma: parts of a mesh'):
        lemmas(cx, eng, M)
    cx.theorems('Steps', {'union_of_insertions': 'a set built in a loop holds what some iteration inserts', 'rowwise': 'a table filled row by row holds the value of each row'})
    cx.assume('std::set iterates its elements in increasing order, each once; std::map returns the value stored with a key')
    cx.assume('cell, face and node ids fit in a signed 32-bit int (createFromSerialMesh keeps face and node ids in int)')
    cx.assume('the serial mesh is valid: every id is in range, a cell is one of the bounding cells of each of its faces, a bounding cell has the face, the nodes of a face are nodes of its cells')
