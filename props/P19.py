from vc.ctx import *
from vc import mpi

NAME = 'Tycho 2 Psi Output'


def prove(cx):
    cx.assume('one cell has fewer than 2^31 values (int dataSize)')
    cx.assume('TychoMesh::getLGCell is injective over all ranks together (P11/P13) and Comm::writeDoublesAt writes the given elements at the given element (P22)')
    ng, nv, na, nc = (uvar('A.psi.' + x) for x in ('c_ng', 'c_nv', 'c_na', 'c_nc'))
    S = T.mul(T.mul(ng, nv), na)

    def fresh():
        eng = cx.engine('src/PsiData.cc', raw=True)
        st = State()
        eng.events = []

        def rec(n, ret=lambda e, v, s: I(0)):
            def f(e, this, vals, st):
                e.events.append(mpi.Ev(n, vals, st, tuple(e.loop_vars)))
                return ret(e, vals, st)
            eng.contracts[n] = f
        for n in ('Comm::writeDoublesAt', 'memcpy', 'Comm::openFileForWrite', 'Comm::closeFile'):
            rec(n)
        T.NONNEG.add('lgcell')
        rec('TychoMesh::getLGCell', lambda e, v, s: T.app('lgcell', (v[0],), 'I'))
        rec('Comm::rank', lambda e, v, s: uvar('rank'))
        rec('Comm::gsum', lambda e, v, s: e.store(v[0], T.app('gsum', (e.load(v[0], s),), e.load(v[0], s).sort), s))
        return eng, st

    with cx.unit('PsiData::index'):
        eng, st = fresh()
        g, v, a, c = uvar('g'), uvar('v'), uvar('a'), uvar('c')
        psi = obj('psi', 'PsiData')
        st, r = cx.run(eng, 'PsiData::index', [g, v, a, c], this=psi, st=st)
        flat = T.add(T.mul(c, S), T.add(T.mul(a, T.mul(ng, nv)), T.add(T.mul(v, ng), g)))
        cx.prove('place of (group, vertex, direction) inside a cell: group fastest, then vertex, then direction; cells contiguous', T.eq(r, flat))

    with cx.unit('PsiData::writeToFile'):
        eng, st = fresh()
        psi = obj('psi', 'PsiData')
        pos = [T.lt(I(0), x) for x in (ng, nv, na, nc)]
        cx.satisfiable(eng, pos)
        cx.run(eng, 'PsiData::writeToFile', [obj('fn', 'std::string')], this=psi, st=st)
        names = [e.name for e in eng.events]
        writes = [e for e in eng.events if e.name == 'Comm::writeDoublesAt']
        head = [e for e in writes if e.args[2].path[:2] != ('A', 'psi')]
        data = [e for e in writes if e.args[2].path[:2] == ('A', 'psi')]
        if len(head) != 1 or head[0].lv or not data:
            raise Unsupported('structure of the writes not recognised: %r' % (writes,))
        i0, i1 = names.index('Comm::openFileForWrite'), names.index('Comm::closeFile')
        cx.decide('the file is open during every write', all(i0 < names.index('Comm::writeDoublesAt') and k < i1 for k, e in enumerate(eng.events) if e.name == 'Comm::writeDoublesAt') and names.count('Comm::openFileForWrite') == 1, 'normal-form', names)
        cx.prove('opening, closing and the reduction happen on every rank', T.and_(*[e.pc for e in eng.events if e.name in ('Comm::openFileForWrite', 'Comm::closeFile', 'Comm::gsum')]), pos)
        # header
        h = head[0]
        cx.prove('the header is written by rank 0 and only by rank 0', T.and_(T.implies(T.eq(uvar('rank'), I(0)), h.pc), T.implies(h.pc, T.eq(uvar('rank'), I(0)))), pos)
        cx.prove('header position', T.eq(h.args[1], I(0)))
        cx.prove('header length', T.eq(h.args[3], I(8)))
        if not (h.args[2].off is I(0)):
            raise Unsupported('header buffer')
        bytes_ = {}
        k = [j for j, e in enumerate(eng.events) if e is h][0]
        for e in eng.events[:k]:
            if e.name == 'memcpy' and e.args[0].path == h.args[2].path:
                d, s, n = e.args
                if d.off.op != 'num' or s.off.op != 'num' or n.op != 'num' or e.lv:
                    raise Unsupported('header copy')
                ds, ss = eng.sizeof(d.ct), eng.sizeof(s.ct)
                for b in range(int(n.info)):
                    sb = int(s.off.info) * ss + b
                    if sb % ss == 0 or ss == 1:
                        bytes_[int(d.off.info) * ds + b] = (s, sb // ss, ss, e)
                    else:
                        bytes_[int(d.off.info) * ds + b] = None
        def val(s, i, e):
            return eng.load(eng.elem(Ptr(s.path, s.idx, I(0), s.ct, False), I(i), e.st), e.st)
        for b in range(32):
            x = bytes_.get(b)
            want = ord(NAME[b]) if b < len(NAME) else 0
            if x is None or x[2] != 1:
                raise Unsupported('header byte %d' % b)
            cx.prove('header byte %d' % b, T.eq(val(x[0], x[1], x[3]), I(want)))
        for w, want in ((4, I(1)), (5, T.app('gsum', (nc,), 'I')), (6, na), (7, ng)):
            x = bytes_.get(8 * w)
            if x is None or x[2] != 8:
                raise Unsupported('header word %d' % w)
            cx.prove('header word %d is %s' % (w, ('version 1', 'the global number of cells', 'the number of directions', 'the number of groups')[w - 4]), T.eq(val(x[0], x[1], x[3]), want))
        # data
        cells = [e.args[0] for e in eng.events if e.name == 'TychoMesh::getLGCell']
        for e in data:
            _, off, p, n = e.args
            c = [x for x in cells if x in e.lv]
            if p.path != ('A', 'psi', 'c_data', '*') + (p.path[4:]) or not c or len(data) != 1:
                raise Unsupported('structure of the data writes not recognised: %r' % (e.args,))
            c = c[0]
            r = T.sub(p.off, T.mul(c, S))
            hy = pos + [e.pc, T.lt(c, nc)]
            cx.prove('the source elements belong to one cell', T.and_(T.le(I(0), r), T.le(T.add(r, n), S)), hy)
            cx.prove('the position is 8 + globalCell*cellSize + place in the cell', T.eq(off, T.add(I(8), T.add(T.mul(T.app('lgcell', (c,), 'I'), S), r))), hy)
            if len(e.lv) != 1 or e.lv[0] is not c:
                raise Unsupported('loop structure of the data writes')
            cx.prove('every element of the cell is written', T.and_(T.eq(r, I(0)), T.eq(n, S)), hy)
            cx.prove('every cell of the rank is written', e.pc, pos + [T.lt(c, nc)])
            cx.prove('only cells of the rank are written', T.lt(c, nc), [e.pc])
        cx.discharge(eng, pos)
