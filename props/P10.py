"""Mesh files: what the writers append and what the readers take, word by word, against the documented layout."""
from vc.ctx import *
from vc.walk import Walk, in_loop
from vc.exec import Loc, Base, Fn, Upd, Opaque, ptype, rebits

SM, PM = 'src/SerialMesh.cc', 'src/ParallelMesh.cc'
POS = ('A', 'file', '#pos')          # ghost: position in the file, in bytes
HEAD = 32                            # length of the format name


class Ev(object):
    def __init__(self, name, **k):
        self.name = name
        self.__dict__.update(k)


def W(at):
    """the eight bytes of the file at a byte position"""
    T.NONNEG.add('W')
    return T.app('W', (at,), 'I')


# record layouts, in the order of the documentation: (container, fields and their number of words)
SERIAL = [('c_cellData', 'c_numCells', [('boundingFaces', 4), ('boundingNodes', 4), ('materialIndex', 0)]),
          ('c_faceData', 'c_numFaces', [('boundingCells', 2), ('boundingNodes', 3)]),
          ('c_nodeData', 'c_numNodes', [('coords', 3)])]
PARALLEL = [('cellData', 'numCells', [('boundingFaces', 4), ('boundingNodes', 4), ('globalID', 0), ('materialIndex', 0)]),
            ('faceData', 'numFaces', [('boundingCells', 2), ('boundingNodes', 3), ('globalID', 0), ('partition', 2), ('boundaryType', 0)]),
            ('nodeData', 'numNodes', [('coords', 3), ('globalID', 0)])]


def words(rec):
    """the words of one record: (field, index within the field or None)"""
    return [(f, j) for f, n in rec[2] for j in (range(n) if n else [None])]


def size(rec): return len(words(rec))


def io(eng, strict=False):
    """contracts of the C library's file functions (trusted); short transfers are excluded by the asserts.
    strict: a failing assert is an obligation (the reader must accept what the writer wrote)"""
    eng.events = []
    fptr = Ptr(('A', 'file'), (), I(0), ptype('int'), True)

    def opn(e, this, v, s):
        e.events.append(Ev('open', args=v, pc=s.pc))
        seek(e, s, I(0))
        return fptr

    def item(v):
        if not (v[1].op == 'num' and v[1].info in (1, 8)):
            raise Unsupported('size of a transferred item')
        return int(v[1].info), v[2]

    def write(e, this, v, s):
        z, n = item(v)
        by = T.mul(I(z), n)
        e.events.append(Ev('fwrite', buf=v[0], bytes=by, pos=s.mem[POS], pc=s.pc, st=s.copy(), lv=tuple(e.loop_vars)))
        seek(e, s, T.add(s.mem[POS], by))
        return v[2]

    def read(e, this, v, s):
        take(e, v[0], item(v)[0], v[2], s)
        return v[2]

    def compare(e, this, v, s):
        e.events.append(Ev('memcmp', args=v, pc=s.pc, st=s.copy()))
        return I(0)

    def fail(e, args, s, n):
        e.obl('assert', T.FALSE, s)
        s.pc = T.FALSE
    eng.contracts['fopen'], eng.contracts['fwrite'], eng.contracts['fread'], eng.contracts['memcmp'] = opn, write, read, compare
    eng.contracts['fclose'] = lambda e, this, v, s: e.events.append(Ev('close', pc=s.pc)) or I(0)
    if strict:
        eng.models = dict(eng.models, __assert_fail=fail)

    def mopen(e, this, v, s):
        e.events.append(Ev('open', args=v, pc=s.pc))
        seek(e, s, I(0))

    def mseek(e, this, v, s):
        seek(e, s, v[1])

    def mread(e, this, v, s):
        z = 1 if this == 'chars' else 8
        if len(v) == 3:
            take(e, v[1], z, v[2], s)
        else:
            take(e, Ptr(v[1].path, v[1].idx, I(0), v[1].ct, True), z, I(1), s)
    eng.contracts['Comm::openFileForRead'] = mopen
    eng.contracts['Comm::seek'] = mseek
    eng.contracts['Comm::readUint64'] = mread
    eng.contracts['Comm::readChars'] = lambda e, this, v, s: mread(e, 'chars', v, s)
    eng.contracts['Comm::closeFile'] = lambda e, this, v, s: e.events.append(Ev('close', pc=s.pc))
    eng.contracts['Comm::rank'] = lambda e, this, v, s: uvar('rank')
    eng.contracts['Comm::numRanks'] = lambda e, this, v, s: uvar('numRanks')
    eng.contracts['Comm::barrier'] = lambda e, this, v, s: None


def seek(e, s, at):
    s.mem[POS] = at
    e.note_write(POS)


def take(e, p, z, n, s):
    """n items of z bytes arrive at p from the file's position"""
    pos = s.mem[POS]
    if not isinstance(p, Ptr) or p.ct.size != z:
        raise Unsupported('destination of a read')
    f = (lambda at: rebits(W(at), p.ct)) if z == 8 else byte
    if p.single:
        if not (n.op == 'num' and n.info == 1):
            raise Unsupported('items read into a scalar')
        e.store(e.deref(p, s), f(pos), s)
    elif z == 1:
        if not (n.op == 'num' and n.info <= 64):
            raise Unsupported('long character read')
        for b in range(int(n.info)):
            e.store(e.elem(p, I(b), s), f(T.add(pos, I(b))), s)
    else:
        k = e.nonneg_fresh('k')
        l = e.elem(p, k, s)
        c = s.mem.get(l.path)
        if c is None:
            c = e.default(l.path, len(l.idx), p.ct)
        if p.path[-1] == '#e':
            e.obl('capacity', T.le(T.add(p.off, n), e.load(Loc(p.path[:-1] + ('#n',), p.idx, ptype('size_t')), s)), s)
        e.note_write(l.path)
        s.mem[l.path] = Upd(c, (k,), T.lt(k, n), l.idx, f(T.add(pos, T.mul(I(z), k))))
    seek(e, s, T.add(pos, T.mul(I(z), n)))


def byte(at): return T.app('B', (at,), 'I')


def fsym(root, rec, f, j, *i):
    """initial value of a field of a record"""
    n = '.'.join(root + (rec[0], '#e', f))
    s = 'R' if f == 'coords' else 'I'
    if s == 'I':
        T.NONNEG.add(n)
    return T.app(n, i + (() if j is None else (I(j),)), s)


def as_word(v): return rebits(v, ptype('unsigned long'))


def run_writer(cx, src, qname, this, root, recs, part, st):
    """the writer's loops; part: index term of the partition or None"""
    eng = cx.engine(src)
    io(eng, True)

    def after(lv, x):
        # a buffer that grows by a fixed number of words per iteration
        for hs, p in lv.head.hsym.items():
            v = lv.head.after.mem.get(p)
            if p[-1] == '#n' and isinstance(v, T.E) and lv.count is not None:
                d = T.sub(v, hs)
                if d.op == 'num':
                    x.mem[p] = T.add(lv.head.st0.mem[p], T.mul(d, lv.count))
    w = Walk(eng, lambda p: len(p) > 1 and p[0].startswith('L') and p[-1] in ('#e', '#n'), ['fwrite', 'fread'], after)
    cx.run(eng, qname, [obj('filename', 'std::string')], this=this, st=st)
    w.close()
    return eng, w


def cursor(lv):
    r = [(hs, p) for hs, p in lv.head.hsym.items() if p[-1] == '#n' and isinstance(lv.head.after.mem.get(p), T.E)]
    if len(r) != 1:
        raise Unsupported('one buffer per loop')
    return r[0]


def records(cx, eng, lv, rec, what, want, hy):
    """the loop appends one record per iteration: want(j, C) is its j-th word"""
    h, C = lv.head, lv.sym
    hs, p = cursor(lv)
    e = p[:-1] + ('#e',)
    n = len(want)
    base = in_loop(lv) + [h.head.pc] + hy
    cx.prove('%s: %d words per record' % (what, n), T.eq(h.after.mem[p], T.add(hs, I(n))), base)
    for j in range(n):
        v = eng.read(h.after.mem[e], (T.add(hs, I(j)),), h.after)
        g = want[j](C)
        if v.sort != g.sort:
            v, g = as_word(v), as_word(g)
        cx.prove('%s: word %d' % (what, j), T.eq(v, g), base)
    k = uvar('k')
    cx.prove('%s: words already buffered stay' % what, T.eq(eng.read(h.after.mem[e], (k,), h.after), eng.read(h.head.mem[e], (k,), h.head)), base + [T.lt(k, hs)])
    return h.st0.mem[p], T.mul(I(n), lv.count), p


def loops_over(w, depth, bound):
    r = [lv for lv in w.levels if lv.depth == depth and lv.count is not None and lv.bound is bound and cursor_ok(lv)]
    return r


def cursor_ok(lv):
    return any(p[-1] == '#n' for p in lv.head.hsym.values())


def serial_write(cx):
    st = State()
    sm = obj('sm', 'SerialMesh')
    N = [uvar('A.sm.' + r[1]) for r in SERIAL]
    for r, n in zip(SERIAL, N):
        st.mem[sm.path + (r[1],)] = n
        st.mem[sm.path + (r[0], '#n')] = n
    eng, w = run_writer(cx, SM, 'SerialMesh::write', sm, ('A', 'sm'), SERIAL, None, st)
    wr = [e for e in eng.events if e.name == 'fwrite']
    if any(e.lv for e in wr) or len(wr) != 3:
        raise Unsupported('writes')
    name(cx, eng, wr[0])
    starts = {}
    tot = {}
    for rec, n in zip(SERIAL, N):
        lv = loops_over(w, 0, n)
        if len(lv) != 1:
            raise Unsupported('loop over %s' % rec[0])
        lv = lv[0]
        cx.prove('%s: every record' % rec[0], T.and_(T.eq(lv.start, I(0)), T.eq(lv.bound, n)), [lv.head.st0.pc])
        want = [lambda C, f=f, j=j, rec=rec: fsym(('A', 'sm'), rec, f, j, C) for f, j in words(rec)]
        starts[rec[0]], tot[rec[0]], p = records(cx, eng, lv, rec, rec[0], want, [])
        starts[rec[0], 'p'] = p
    # header words, order of the blocks, place in the file
    nC, nF, nN = N
    pu, pd = starts['c_cellData', 'p'], starts['c_nodeData', 'p']
    h0 = [lv for lv in w.levels if lv.depth == 0 and lv.bound is nC][0].head.st0
    ver = st.mem.get(sm.path + ('c_version',))
    cx.prove('the version written is the documented one', T.eq(ver, I(VERSION)))
    for k, v in enumerate([ver] + N):
        cx.prove('header word %d' % k, T.eq(eng.read(h0.mem[pu[:-1] + ('#e',)], (I(k),), h0), v), [])
    cx.prove('cells follow the four header words', T.eq(starts['c_cellData'], I(4)))
    cx.prove('faces follow the cells', T.eq(starts['c_faceData'], T.add(I(4), T.mul(I(9), nC))))
    if pd == pu:
        raise Unsupported('buffers')
    cx.prove('nodes start their buffer', T.eq(starts['c_nodeData'], I(0)))
    words_ = T.add(I(4), T.add(T.mul(I(9), nC), T.mul(I(5), nF)))
    for e, p, at, n in ((wr[1], pu, I(HEAD), words_), (wr[2], pd, T.add(I(HEAD), T.mul(I(8), words_)), T.mul(I(3), nN))):
        whole(cx, eng, e, p, at, n)
    ends(cx, eng, w)
    cx.discharge(eng)


def whole(cx, eng, e, p, at, n):
    b = e.buf
    if not isinstance(b, Ptr) or b.path[:len(p) - 1] != p[:-1]:
        raise Unsupported('written buffer')
    cx.prove('the whole buffer is written', T.and_(T.eq(b.off, I(0)), T.eq(e.bytes, T.mul(I(8), n))), [e.pc])
    cx.prove('at its place in the file', T.eq(e.pos, at), [e.pc])


def ends(cx, eng, w):
    o = [e for e in eng.events if e.name == 'open']
    c = [e for e in eng.events if e.name == 'close']
    cx.decide('one file is opened and closed', len(o) == 1 and len(c) == 1, 'normal-form', (len(o), len(c)))


def name(cx, eng, e):
    """the format name is written first: 32 bytes of the class's own constant"""
    cx.prove('the file starts with the 32 bytes of the format name', T.and_(T.eq(e.pos, I(0)), T.eq(e.bytes, I(HEAD))), [e.pc])
    for b in range(HEAD):
        v = eng.load(eng.elem(e.buf, I(b), e.st), e.st)
        c = eng.const_mem.get(('G', 'MESH_FORMAT_NAME'))
        g = T.num(ord(NAMES[cx.cur['function'].split(':')[0]].ljust(HEAD, '\0')[b]), 'I')
        cx.prove('format name byte %d' % b, T.eq(v, g), [])


VERSION = 2                          # of both formats
NAMES = {'SerialMesh': 'Tycho 2 Serial Mesh', 'ParallelMesh': 'Tycho 2 Parallel Mesh'}


def accepted(cx, eng, cls):
    """the format name that is checked is the one the writer puts in the file"""
    ms = [e for e in eng.events if e.name == 'memcmp']
    if len(ms) != 1:
        raise Unsupported('format name check')
    a, b, n = ms[0].args
    cx.prove('32 bytes of the name are compared', T.eq(n, I(HEAD)))
    st = ms[0].st
    for k in range(HEAD):
        u, v = (eng.load(eng.elem(x, I(k), st), st) for x in (a, b))
        g = T.num(ord(NAMES[cls].ljust(HEAD, '\0')[k]), 'I')
        cx.prove('name byte %d' % k, T.or_(T.and_(T.eq(u, byte(I(k))), T.eq(v, g)), T.and_(T.eq(v, byte(I(k))), T.eq(u, g))))


def reads(cx, eng, w, root, idx, rec, n, at, depth, hy, tag=''):
    """the loop takes record C of the block from byte at + 8 * size * C on"""
    m = size(rec)
    p0 = root + (rec[0], '#e')
    fs = {f for f, _ in rec[2]}
    lv = [x for x in w.levels if x.depth == depth and not x.children and any(p[:len(p0)] == p0 for p in x.ups)]
    if len(lv) != 1 or lv[0].count is None:
        raise Unsupported('loop over %s' % rec[0])
    lv = lv[0]
    h, C = lv.head, lv.sym
    st0 = [h.st0.pc] + hy
    cx.prove('%s: every record' % rec[0], T.and_(T.eq(lv.start, I(0)), T.eq(lv.bound, n)), st0, eng)
    cx.prove('%s: size' % rec[0], T.eq(eng.load(Loc(root + (rec[0], '#n'), idx, ptype('size_t')), h.st0), n), st0, eng)
    base = in_loop(lv) + [h.head.pc] + hy
    for k, (f, j) in enumerate(words(rec)):
        c = h.after.mem.get(p0 + (f,))
        if c is None:
            raise Unsupported('field %s' % f)
        ix = idx + (C,) + (() if j is None else (I(j),))
        v = eng.read(c, ix, h.after)
        g = W(T.add(at, T.mul(I(8), T.add(T.mul(I(m), C), I(k)))))
        if v.sort == 'R':
            g = rebits(g, ptype('double'))
        cx.prove('%s: %s%s is word %d' % (rec[0], f, '' if j is None else '[%d]' % j, k), T.eq(v, g), base, eng)
    # other records stay
    i2 = tuple(uvar('i%d' % d) for d in range(len(idx))) + (uvar('c'),)
    other = T.not_(T.and_(*[T.eq(x, y) for x, y in zip(i2, idx + (C,))]))
    for p in h.mod:
        if p[:len(p0)] == p0:
            f = p[len(p0):]
            if len(f) != 1 or f[0] not in fs:
                raise Unsupported('written field %s' % (f,))
            ix = i2 + ((uvar('j'),) if dict(rec[2])[f[0]] else ())
            cx.prove('%s: other records keep %s' % (rec[0], f[0]), T.eq(eng.read(h.after.mem[p], ix, h.after), eng.read(h.head.mem[p], ix, h.head)), base + [other], eng)
        elif p[:len(root)] == root:
            raise Unsupported('the record loop also writes %s' % (p,))
    return lv


def mesh_watch(root):
    return lambda p: p[:len(root)] == root and len(p) > len(root) and '#e' in p


def serial_read(cx):
    eng = cx.engine(SM)
    io(eng, True)
    st = State()
    sm = obj('sm', 'SerialMesh')
    st.mem[POS] = I(0)
    hdr = [W(I(HEAD + 8 * k)) for k in range(4)]
    w = Walk(eng, mesh_watch(sm.path), [])
    st, _ = cx.run(eng, 'SerialMesh::read', [obj('filename', 'std::string')], this=sm, st=st)
    w.close()
    hy = [T.eq(hdr[0], I(VERSION))]
    accepted(cx, eng, 'SerialMesh')
    at = I(HEAD + 32)
    for k, rec in enumerate(SERIAL):
        reads(cx, eng, w, sm.path, (), rec, hdr[1 + k], at, 0, hy)
        at = T.add(at, T.mul(I(8 * size(rec)), hdr[1 + k]))
    for k, r in enumerate(['c_version'] + [r[1] for r in SERIAL]):
        cx.prove('%s is header word %d' % (r, k), T.eq(st.mem[sm.path + (r,)], hdr[k]), hy)
    ends(cx, eng, w)
    cx.satisfiable(eng, hy + [st.pc], 'a mesh file is accepted')
    cx.discharge(eng, hy)


PROOT = ('A', 'pm', 'c_partitionData', '#e')


def outer(w, bound, root=None):
    lv = [x for x in w.levels if x.depth == 0 and x.count is not None and len(x.children) == 3]
    if len(lv) != 1:
        raise Unsupported('loop over the partitions')
    return lv[0]


def block(cx, eng, w, root, idx, at, depth, hy):
    """one partition's block starting at byte at; returns its end"""
    hdr = [W(T.add(at, I(8 * k))) for k in range(3)]
    p = T.add(at, I(24))
    for k, rec in enumerate(PARALLEL):
        lv = reads(cx, eng, w, root, idx, rec, hdr[k], p, depth, hy)
        if rec[0] == 'faceData':
            # assumption on the file: boundary types are valid
            hy.append(T.lt(W(T.add(p, T.mul(I(8), T.add(T.mul(I(9), lv.sym), I(8))))), I(3)))
        p = T.add(p, T.mul(I(8 * size(rec)), hdr[k]))
    return hdr, p


def counts(cx, eng, st, root, idx, hdr, hy):
    for k, rec in enumerate(PARALLEL):
        cx.prove('%s is word %d of the block' % (rec[1], k), T.eq(eng.load(Loc(root + (rec[1],), idx, ptype('unsigned long')), st), hdr[k]), hy, eng)


def parallel_read(cx):
    eng = cx.engine(PM)
    io(eng, True)
    st = State()
    pm = obj('pm', 'ParallelMesh')
    st.mem[POS] = I(0)
    np_ = W(I(HEAD + 8))
    w = Walk(eng, mesh_watch(PROOT), [])
    st, _ = cx.run(eng, 'ParallelMesh::read', [obj('filename', 'std::string')], this=pm, st=st)
    w.close()
    hy = [T.eq(W(I(HEAD)), I(VERSION))]
    accepted(cx, eng, 'ParallelMesh')
    cx.prove('version', T.eq(st.mem[pm.path + ('c_version',)], W(I(HEAD))))
    cx.prove('number of partitions', T.eq(st.mem[pm.path + ('c_numPartitions',)], np_))
    k = uvar('k')
    o = pm.path + ('c_bytesOffset',)
    cx.prove('offsets: size', T.eq(st.mem[o + ('#n',)], T.add(np_, I(1))))
    cx.prove('offsets', T.eq(eng.read(st.mem[o + ('#e',)], (k,), st), W(T.add(I(HEAD + 16), T.mul(I(8), k)))), [T.le(k, np_)], eng)
    lv = outer(w, np_)
    h = lv.head
    cx.prove('every partition', T.and_(T.eq(lv.start, I(0)), T.eq(lv.bound, np_)), [h.st0.pc])
    cx.prove('partitions: size', T.eq(h.st0.mem[pm.path + ('c_partitionData', '#n')], np_), [h.st0.pc])
    at = [hs for hs, p in h.hsym.items() if p == POS]
    if len(at) != 1:
        raise Unsupported('file position in the partition loop')
    at = at[0]
    cx.prove('the first block follows the offsets', T.eq(h.st0.mem[POS], T.add(I(HEAD + 24), T.mul(I(8), np_))), [h.st0.pc])
    base = in_loop(lv) + [h.head.pc]
    hdr, end = block(cx, eng, w, PROOT, (lv.sym,), at, 1, base)
    cx.prove('the next block follows', T.eq(h.after.mem[POS], end), base + [h.after.pc])
    counts(cx, eng, h.after, PROOT, (lv.sym,), hdr, base + [h.after.pc])
    i = uvar('i0')
    for rec in PARALLEL:
        q = PROOT + (rec[1],)
        cx.prove('other partitions keep %s' % rec[1], T.eq(eng.read(h.after.mem[q], (i,), h.after), eng.read(h.head.mem[q], (i,), h.head)), base + [T.not_(T.eq(i, lv.sym))], eng)
    ends(cx, eng, w)
    cx.discharge(eng, hy + base)


def one_read(cx):
    eng = cx.engine(PM)
    io(eng, True)
    st = State()
    pd = obj('pd', 'ParallelMesh::PartitionData')
    pm = obj('pm', 'ParallelMesh')
    st.mem[POS] = I(0)
    rank = uvar('rank')
    w = Walk(eng, mesh_watch(pd.path), [])
    st, _ = cx.run(eng, 'ParallelMesh::readInParallel', [obj('filename', 'std::string'), pd], this=pm, st=st)
    w.close()
    accepted(cx, eng, 'ParallelMesh')
    hy = [T.eq(W(I(HEAD)), I(VERSION)), T.eq(W(I(HEAD + 8)), uvar('numRanks')), T.lt(rank, uvar('numRanks'))]
    # some rank looks at the header, however many there are
    nr, some = uvar('numRanks'), lambda c: T.or_(T.subst(c, {rank: I(0)}), T.subst(c, {rank: T.sub(uvar('numRanks'), I(1))}))
    cx.prove('the format name is checked by some rank', T.or_(T.FALSE, *[some(e.pc) for e in eng.events if e.name == 'memcmp']), [T.lt(I(0), nr)], eng)
    for what, c in (('version', hy[0]), ('number of partitions', hy[1])):
        cx.prove('another %s is not accepted' % what, T.not_(T.and_(T.subst(st.pc, {rank: I(0)}), T.subst(st.pc, {rank: T.sub(nr, I(1))}))), [T.lt(I(0), nr), T.not_(c)], eng)
    # the block of partition r starts where the r-th entry of the offset table says
    at = W(T.add(I(HEAD + 16), T.mul(I(8), rank)))
    hdr, end = block(cx, eng, w, pd.path, (), at, 0, hy)
    counts(cx, eng, st, pd.path, (), hdr, hy)
    ends(cx, eng, w)
    cx.discharge(eng, hy)


def parallel_write(cx):
    st = State()
    pm = obj('pm', 'ParallelMesh')
    np_ = uvar('A.pm.c_numPartitions')
    st.mem[pm.path + ('c_numPartitions',)] = np_
    st.mem[pm.path + ('c_bytesOffset', '#n')] = T.add(np_, I(1))
    st.mem[pm.path + ('c_partitionData', '#n')] = np_
    cnt = {}
    for rec in PARALLEL:
        n = '.'.join(PROOT + (rec[1],))
        T.NONNEG.add(n)
        cnt[rec[0]] = lambda i, n=n: T.app(n, (i,), 'I')
        st.mem[PROOT + (rec[0], '#n')] = Fn(lambda ix, f=cnt[rec[0]]: f(ix[0]), 'I', 1)
    eng, w = run_writer(cx, PM, 'ParallelMesh::write', pm, PROOT, PARALLEL, None, st)
    wr = [e for e in eng.events if e.name == 'fwrite']
    if any(e.lv for e in wr) or len(wr) != 2:
        raise Unsupported('writes')
    name(cx, eng, wr[0])
    off = [x for x in w.levels if x.depth == 0 and not x.children]
    if len(off) != 1 or off[0].count is None:
        raise Unsupported('offset loop')
    off, lv = off[0], outer(w, np_)
    hs, p = cursor(off)
    e = p[:-1] + ('#e',)
    h = off.head
    ver = st.mem.get(pm.path + ('c_version',))
    cx.prove('the version written is the documented one', T.eq(ver, I(VERSION)))
    cx.prove('offsets follow the two header words', T.eq(h.st0.mem[p], I(2)))
    for k, v in enumerate([ver, np_]):
        cx.prove('header word %d' % k, T.eq(eng.read(h.st0.mem[e], (I(k),), h.st0), v))
    cx.prove('every offset', T.and_(T.eq(off.start, I(0)), T.eq(off.bound, T.add(np_, I(1)))))
    records(cx, eng, off, None, 'offsets', [lambda C: T.app('A.pm.c_bytesOffset.#e', (C,), 'I')], [])
    # partitions
    h, C = lv.head, lv.sym
    os_ = [hs for hs, q in h.hsym.items() if q == p]
    if len(os_) != 1:
        raise Unsupported('buffer of the partition loop')
    os_ = os_[0]
    cx.prove('the first block follows the offsets', T.eq(h.st0.mem[p], T.add(I(3), np_)), [h.st0.pc])
    kept(cx, eng, 'offsets to blocks', e, off.exit, h.st0, off.exit.mem[p], [])
    cx.prove('every partition', T.and_(T.eq(lv.start, I(0)), T.eq(lv.bound, np_)), [h.st0.pc])
    base = in_loop(lv) + [h.head.pc]
    at, prev, first = T.add(os_, I(3)), h.head, True
    inner = sorted(lv.children, key=lambda x: w.levels.index(x))
    for k, (rec, x) in enumerate(zip(PARALLEL, inner)):
        if x.count is None:
            raise Unsupported('record loop')
        s0 = x.head.st0
        if first:
            for j, r in enumerate(PARALLEL):
                cx.prove('block word %d' % j, T.eq(eng.read(s0.mem[e], (T.add(os_, I(j)),), s0), cnt[r[0]](C)), base, eng)
        kept(cx, eng, 'before %s' % rec[0], e, prev, s0, os_ if first else prev.mem[p], base)
        first = False
        cx.prove('%s: start' % rec[0], T.eq(s0.mem[p], at), base, eng)
        cx.prove('%s: every record' % rec[0], T.and_(T.eq(x.start, I(0)), T.eq(x.bound, cnt[rec[0]](C))), base, eng)
        records(cx, eng, x, rec, rec[0], [lambda c, f=f, j=j, rec=rec: fsym(PROOT, rec, f, j, C, c) for f, j in words(rec)], base)
        at = T.add(at, T.mul(I(size(rec)), cnt[rec[0]](C)))
        prev = x.exit
    kept(cx, eng, 'end of the block', e, prev, h.after, prev.mem[p], base)
    cx.prove('the next block follows', T.eq(h.after.mem[p], at), base, eng)
    b = wr[1]
    s0 = b.st
    if not isinstance(b.buf, Ptr) or b.buf.path[:len(p) - 1] != p[:-1]:
        raise Unsupported('written buffer')
    end = eng.load(Loc(p, (), ptype('size_t')), lv.exit)
    kept(cx, eng, 'blocks to file', e, lv.exit, s0, end, [])
    cx.prove('the whole buffer is written', T.and_(T.eq(b.buf.off, I(0)), T.eq(b.bytes, T.mul(I(8), end)), T.eq(eng.load(Loc(p, (), ptype('size_t')), s0), end)), [b.pc], eng)
    cx.prove('behind the format name', T.eq(b.pos, I(HEAD)), [b.pc])
    ends(cx, eng, w)
    cx.discharge(eng)


def kept(cx, eng, what, e, s, t, n, hy):
    """the first n words of the buffer are the same in both states"""
    k = uvar('k')
    cx.prove('%s: words already buffered stay' % what, T.eq(eng.read(s.mem[e], (k,), s), eng.read(t.mem[e], (k,), t)), hy + [T.lt(k, n)], eng)


def prove(cx):
    with cx.unit('SerialMesh::write'):
        serial_write(cx)
    with cx.unit('SerialMesh::read'):
        serial_read(cx)
    with cx.unit('ParallelMesh::read'):
        parallel_read(cx)
    with cx.unit('ParallelMesh::readInParallel'):
        one_read(cx)
    with cx.unit('ParallelMesh::write'):
        parallel_write(cx)
    with cx.unit('ParallelMesh::createFromSerialMesh: byte offsets'):
        from props import P11 as Q
        eng, w, st = Q.build(cx)
        eng.obls = []
        Q.offsets(cx, eng, w)
    with cx.unit('lemma: offsets are positions'):
        # the blocks follow each other in the file exactly as in the offset table, from the same start
        np_, o, at = uvar('np'), uvar('o'), uvar('at')
        n = [uvar('n%d' % k) for k in range(3)]
        words_ = T.add(I(3), T.add(T.mul(I(10), n[0]), T.add(T.mul(I(9), n[1]), T.mul(I(4), n[2]))))
        cx.prove('first block', T.eq(T.add(I(HEAD), T.mul(I(8), T.add(I(3), np_))), T.add(I(HEAD + 24), T.mul(I(8), np_))))
        cx.prove('next block', T.eq(T.add(o, T.mul(I(8), words_)), T.add(I(HEAD), T.mul(I(8), T.add(at, words_)))), [T.eq(o, T.add(I(HEAD), T.mul(I(8), at)))])
        cx.prove('record sizes', T.and_(*[T.eq(I(size(r)), I(k)) for r, k in zip(PARALLEL, (10, 9, 4))]))
    cx.theorems('Steps', {'lexicographic': 'positions in nested loops are ordered like the iterations: no part of the stream overlaps another', 'prefix_disjoint': 'records one after the other do not overlap', 'arbitrary_iteration': 'what one arbitrary record does, every record does'})
    cx.assume('fread/fwrite/MPI_File_read transfer the whole request (checked by the asserts) and a file returns the bytes written to it')
    cx.assume('the machine that reads the file has the byte order and the double format of the one that wrote it')
    cx.assume('counts passed to Comm::readUint64 fit in int')
