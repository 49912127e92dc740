from vc.ctx import *
import itertools


CLS = [('Mat1<double>', 1, ('c_xlen',), 'c_v', 'R'), ('Mat2<double>', 2, ('c_xlen', 'c_ylen'), 'c_v', 'R'),
       ('Mat3<double>', 3, ('c_xlen', 'c_ylen', 'c_zlen'), 'c_v', 'R'),
       ('Mat1<unsigned long>', 1, ('c_xlen',), 'c_v', 'I'), ('Mat2<unsigned long>', 2, ('c_xlen', 'c_ylen'), 'c_v', 'I'),
       ('Mat3<unsigned long>', 3, ('c_xlen', 'c_ylen', 'c_zlen'), 'c_v', 'I'),
       ('PsiData', 4, ('c_ng', 'c_nv', 'c_na', 'c_nc'), 'c_data', 'R'),
       ('PsiBoundData', 4, ('c_ng', 'c_nv', 'c_na', 'c_ns'), 'c_data', 'R'),
       ('PhiData', 3, ('c_ng', 'c_nv', 'c_nc'), 'c_data', 'R')]


def writes_of(eng, f, o):
    """members a constructor stores to"""
    st = State()
    mesh(eng, st)
    try:
        eng.call_func(f, None, st, this=o, argvals=[Ptr(('A', 'ext'), (), I(0), X.ptype('double'))] if len(f.params) == 1 else [])
    except Unsupported:
        return []
    return [p for p in st.mem if p[:len(o.path)] == o.path]


def prove(cx):
    # ---- mixed-radix lemmas: two levels are enough, deeper layouts apply them repeatedly
    with cx.unit('lemma: mixed radix'):
        eng = cx.engine('@inst.cc', raw=True)
        x, y, a, b, n, m = [uvar(k) for k in ('x', 'y', 'a', 'b', 'n', 'm')]
        cx.prove('range: x<m, a<n => x n + a < m n', T.lt(x * n + a, m * n),
                 [T.lt(x, m), T.lt(a, n), T.le(I(0), (m - x - I(1)) * n)])
        cx.prove('  (side condition of range)', T.le(I(0), (m - x - I(1)) * n), [T.lt(x, m), T.le(I(0), n), T.le(I(0), m - x - I(1))])
        d = T.var('d', 'I')
        cx.prove('injective: x n + a == (x+d) n + b, a,b<n => d == 0', T.eq(d, I(0)),
                 [T.lt(a, n), T.lt(b, n), T.eq(a - b, d * n), T.or_(T.eq(d, I(0)), T.le(n, T.fabs_int(d * n) if hasattr(T, 'fabs_int') else T.ite(T.le(I(0), d * n), d * n, I(0) - d * n)))])
        cx.prove('  (side condition: d != 0 => |d n| >= n) d>0', T.le(n, d * n), [T.lt(I(0), d), T.le(I(0), (d - I(1)) * n), T.le(I(0), n)])
        cx.prove('  (side condition: d != 0 => |d n| >= n) d<0', T.le(n, I(0) - d * n), [T.lt(d, I(0)), T.le(I(0), (I(0) - d - I(1)) * n), T.le(I(0), n)])
        k = uvar('k')
        q, r = T.idiv(k, n), T.imod(k, n)
        cx.prove('onto: k < m n => k == (k div n) n + k mod n with both in range',
                 T.and_(T.eq(k, q * n + r), T.lt(r, n)), [T.lt(k, m * n), T.lt(I(0), n)])

    for K, ar, dn, data, sort in CLS:
        base = K.split('<')[0]
        is_mat = base.startswith('Mat')
        D = [T.var('A.o.' + d, 'I') for d in dn]
        for d in dn:
            T.NONNEG.add('A.o.' + d)

        def fresh():
            eng = cx.engine('@inst.cc', raw=True)
            st = State()
            return eng, st, obj('o', K)

        idx = [uvar('i%d' % j) for j in range(ar)]
        rng = [T.lt(i, d) for i, d in zip(idx, D)]
        with cx.unit('%s::index' % K):
            eng, st, o = fresh()
            eng.facts += rng
            cx.satisfiable(eng)
            st, r = cx.run(eng, K + '::index', idx, this=o, st=st)
            _, sz = cx.run(eng, K + '::size', [], this=o, st=State())
            prod = I(1)
            for d in D:
                prod = prod * d
            cx.prove('size() is the product of the dimensions', T.eq(sz, prod))
            layout = None
            for p in itertools.permutations(range(ar)):
                fl = X.flat_of([idx[j] for j in p], [D[j] for j in p])
                if T.eq(r, fl) is TRUE:
                    layout = p
                    break
            if layout is None:
                fl = X.flat_of(idx, D)
                cx.prove('index is a mixed-radix number of the index tuple (any digit order): distinct, in range, onto', T.eq(r, fl))
            else:
                cx.prove('index is a mixed-radix number of the index tuple (digit order %s): distinct, in range, onto' % (layout,), T.eq(r, fl))
            cx.discharge(eng)

        for op in ('operator()',) + (('operator[]',) if True else ()):
            n = ar if op == 'operator()' else 1
            fs = [f for tu in eng.tus for f in tu.find(K + '::' + op) if len(f.params) == n]
            for f in fs:
                nm = '%s::%s%s' % (K, op, ' const' if f.sig().endswith('const') else '')
                with cx.unit(nm):
                    eng, st, o = fresh()
                    if op == 'operator()':
                        eng.facts += rng
                        a = idx
                    else:
                        a = [uvar('k')]
                        _, sz = cx.run(eng, K + '::size', [], this=o, st=State())
                        eng.facts.append(T.lt(a[0], sz))
                    r = eng.call_func(f, None, st, this=o, argvals=list(a))
                    cx.functions.append(nm)
                    if op == 'operator()':
                        want = eng.call_func(eng.find(K + '::index'), None, State(), this=o, argvals=list(a))
                    else:
                        want = a[0]
                    ok = isinstance(r, Loc) and r.path[:2] == ('A', 'o') and data in r.path and len(r.idx) == 1
                    cx.prove('refers to element index(...) of the own storage', T.eq(r.idx[0], want) if ok else FALSE)
                    cx.discharge(eng)

        # constructors, resize, fills
        def elem(eng, st, p, k):
            """element k of the storage the pointer value p points to"""
            c = st.mem.get(p.path)
            if c is None:
                c = eng.default(p.path, 1, X.ptype('double' if sort == 'R' else 'unsigned long'))
            return eng.read(c, (T.add(p.off, k),), st)

        zero = R(0) if sort == 'R' else I(0)
        k = uvar('k')
        ctors = [f for f in eng.tus[0].find(K + '::' + base)]
        for f in ctors + ([f for f in eng.tus[0].find(K + '::resize')] if is_mat else []):
            nm = '%s::%s/%d' % (K, f.name, len(f.params))
            with cx.unit(nm):
                eng, st, o = fresh()
                mesh(eng, st) if not is_mat else None
                args = [uvar('n%d' % j) for j in range(len(f.params))]
                view = not is_mat and len(f.params) == 1
                if view:
                    args = [Ptr(('A', 'ext'), (), I(0), X.ptype('double'))]
                if is_mat and f.name == 'resize':
                    st.mem[o.path + (data,)] = Ptr(('A', 'old'), (), I(0), X.ptype('double'))
                eng.call_func(f, None, st, this=o, argvals=list(args))
                cx.functions.append(nm)
                if is_mat:
                    want = args or [I(0)] * ar
                else:
                    nS = T.var('.'.join(MESH + ('c_nSides',)), 'I')
                    want = [gvar('g_nGroups'), I(3) if K == 'PsiBoundData' else I(4)] + ([gvar('g_nAngles')] if K != 'PhiData' else []) + [nS if K == 'PsiBoundData' else gvar('g_nCells')]
                prod = I(1)
                for w in want:
                    prod = prod * w
                for d, w in zip(dn, want):
                    cx.prove('%s is set' % d, T.eq(st.mem.get(o.path + (d,), T.var('unset', 'I')), w))
                p = st.mem.get(o.path + (data,))
                if view:
                    cx.prove('uses the given storage', TRUE if isinstance(p, Ptr) and p.path == ('A', 'ext') and p.off is I(0) else FALSE)
                    cx.prove('does not own it', T.not_(st.mem.get(o.path + ('c_ownData',), TRUE)))
                elif args or not is_mat:
                    ok = isinstance(p, Ptr) and p.path[0] == 'H' and p.off is I(0)
                    cx.prove('own fresh storage', TRUE if ok else FALSE)
                    if ok:
                        cx.prove('of size() elements', T.eq(st.mem[p.path + ('#n',)], prod))
                        cx.prove('all zero', T.eq(elem(eng, st, p, k), zero), [T.lt(k, prod)])
                        cx.prove('nothing is written beyond', T.eq(elem(eng, st, p, k), elem(eng, State(), p, k)), [T.le(prod, k)])
                    if not is_mat and K != 'PsiBoundData':
                        cx.prove('owns it', st.mem.get(o.path + ('c_ownData',), FALSE))
                else:
                    cx.prove('empty', TRUE if p is X.NULL else FALSE)
                cx.discharge(eng)

        # storage is given back once, by its owner
        for f in [f for fn in ('~' + base, 'resize') for f in eng.tus[0].find(K + '::' + fn) if f.body is not None]:
            with cx.unit('%s::%s: storage given back' % (K, f.name)):
                for there in (True, False):
                    eng, st, o = fresh()
                    eng.freed = []
                    st.mem[o.path + (data,)] = Ptr(('A', 'own'), (), I(0), X.ptype('double' if sort == 'R' else 'unsigned long')) if there else X.NULL
                    owned = TRUE if is_mat else T.var('owned', 'B')
                    owns = not is_mat and any(p[-1] == 'c_ownData' for f2 in ctors for p in writes_of(eng, f2, o))
                    if not is_mat and not owns:
                        owned = TRUE
                    if owns:
                        st.mem[o.path + ('c_ownData',)] = owned
                    eng.call_func(f, None, st, this=o, argvals=[uvar('n%d' % j) for j in range(len(f.params))])
                    if f.name not in cx.functions:
                        cx.functions.append('%s::%s' % (K, f.name))
                    real = [x for x in eng.freed if x[0] is not X.NULL]
                    if any(x[3] for x in real):
                        raise Unsupported('deletion in a loop')
                    if not there:
                        cx.prove('nothing to give back: nothing deleted', T.not_(T.or_(FALSE, *[x[1] for x in real])))
                        continue
                    cx.decide('what is deleted is the storage', all(isinstance(x[0], Ptr) and x[0].path == ('A', 'own') and x[0].off is I(0) and x[2] for x in real), 'normal-form', real)
                    n = I(0)
                    for x in real:
                        n = T.add(n, T.b2i(x[1]))
                    cx.prove('deleted once by the owner, not by others', T.eq(n, T.b2i(owned)))

        for fn in ('setAll', 'setData', 'setToValue'):
            for f in eng.tus[0].find(K + '::' + fn):
                with cx.unit('%s::%s' % (K, fn)):
                    eng, st, o = fresh()
                    ptr = Ptr(('A', 'own'), (), I(0), X.ptype('double' if sort == 'R' else 'unsigned long'))
                    st.mem[o.path + (data,)] = ptr
                    T.NONNEG.add('A.ext') if sort == 'I' else None
                    T.NONNEG.add('A.own') if sort == 'I' else None
                    if fn == 'setData':
                        src = Ptr(('A', 'ext'), (), I(0), X.ptype('double' if sort == 'R' else 'unsigned long'))
                        args = [src]
                        want = elem(eng, State(), src, k)
                    elif fn == 'setAll':
                        v = T.var('v', sort)
                        l = Loc(('A', 'vv'), (), X.ptype('double' if sort == 'R' else 'unsigned long'))
                        st.mem[l.path] = v
                        args, want = [l], v
                    else:
                        v = T.var('v', sort)
                        args, want = [v], v
                    eng.call_func(f, None, st, this=o, argvals=args)
                    cx.functions.append('%s::%s' % (K, fn))
                    prod = I(1)
                    for d in D:
                        prod = prod * d
                    cx.prove('every element set', T.eq(elem(eng, st, ptr, k), want), [T.lt(k, prod)])
                    cx.prove('nothing beyond', T.eq(elem(eng, st, ptr, k), elem(eng, State(), ptr, k)), [T.le(prod, k)])
                    for d in dn:
                        cx.prove('%s unchanged' % d, T.eq(st.mem.get(o.path + (d,), T.var('A.o.' + d, 'I')), T.var('A.o.' + d, 'I')) if o.path + (d,) in st.mem else TRUE)
                    cx.discharge(eng)
