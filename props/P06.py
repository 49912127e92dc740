from vc.ctx import *
from vc import loops as L
import mpmath
from mpmath import iv

ORDERS = list(range(2, 31, 2))


def table(eng, st, c):
    """entries of a content written only at literal positions: collected in one pass over the update chain"""
    d, c0 = {}, c
    while isinstance(c, X.Upd) and not c.params and c.guard is TRUE and len(c.addr) == 1 and c.addr[0].op == 'num':
        d.setdefault(c.addr[0], c.val)
        c = c.prev

    def get(a):
        k = I(a)
        if k in d:
            return d[k]
        return eng.read(c, (k,), st)
    return get


def prove(cx):
    iv.prec = 80
    L.UNROLL = 64
    memo = {}

    def val(e):
        r = memo.get(e)
        if r is None:
            r = memo[e] = val0(e)
        return r

    def val0(e):
        p = T._poly(e)
        if len(p) == 1 and list(p.values())[0] == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0] is e:
                if e.op == 'sqrt':
                    return iv.sqrt(val(e.args[0]))
                if e.op == 'app' and e.info == 'cos':
                    return iv.cos(val(e.args[0]))
                if e.op == 'app' and e.info == 'sin':
                    return iv.sin(val(e.args[0]))
                if e.op == 'inv':
                    return 1 / val(e.args[0])
                raise X.Unsupported('evaluation of %s' % e.op)
        s = iv.mpf(0)
        for m, c in p.items():
            t = iv.mpf(c.numerator) / iv.mpf(c.denominator) if hasattr(c, 'numerator') else iv.mpf(c)
            for a, k in m:
                t = t * val(a) ** k
            s = s + t
        return s

    tol = iv.mpf('1e-13')
    near = lambda x, y, s=1: abs(x - y).b <= (tol * s).a
    for n in ORDERS:
        with cx.unit('Quadrature::Quadrature(%d)' % n):
            eng = cx.engine('src/Quadrature.cc')
            st = State()
            o = obj('q', 'Quadrature')
            cx.run(eng, 'Quadrature::Quadrature', [I(n)], this=o, st=st)
            N = 2 * n * n
            cx.prove('number of directions is 2 n^2', T.eq(st.mem.get(('G', 'g_nAngles'), I(-1)), I(N)))
            for f in ('c_mu', 'c_eta', 'c_xi', 'c_w'):
                cx.prove('%s has that many entries' % f, T.eq(st.mem[o.path + (f, '#n')], I(N)))
            D = []
            tabs = [table(eng, st, st.mem[o.path + (f, '#e')]) for f in ('c_mu', 'c_eta', 'c_xi', 'c_w')]
            for a in range(N):
                D.append(tuple(val(tb(a)) for tb in tabs))
            cx.decide('every direction is a unit vector', all(near(x * x + y * y + z * z, iv.mpf(1)) for x, y, z, w in D), 'interval')
            cx.decide('every weight is positive', all(d[3].a > 0 for d in D), 'interval')
            # pi enters through the double constant M_PI: agreement to 1e-13 relative
            cx.decide('weights sum to 4 pi', near(sum(d[3] for d in D), 4 * iv.pi, 10), 'interval')
            for ax, nm in enumerate(('mu', 'eta', 'xi')):
                cx.decide('first moment of %s is zero' % nm, near(sum(d[3] * d[ax] for d in D), iv.mpf(0), 10), 'interval')
                cx.decide('second moment of %s is 4 pi/3' % nm, near(sum(d[3] * d[ax] * d[ax] for d in D), 4 * iv.pi / 3, 10), 'interval')
            key = lambda d: tuple(int(mpmath.nint(mpmath.mpf(c.mid) * 10 ** 9)) for c in d)
            tab = {}
            for d in D:
                tab.setdefault(key(d[:3]), []).append(d)
            cx.decide('no direction is repeated', len(tab) == N, 'interval', '%d distinct of %d' % (len(tab), N))

            def find(v):
                k = key(v)
                for dx in (0, -1, 1):
                    for dy in (0, -1, 1):
                        for dz in (0, -1, 1):
                            c = tab.get((k[0] + dx, k[1] + dy, k[2] + dz))
                            if c:
                                return c[0]
                return None
            for s, nm in (((-1, 1, 1), 'mu'), ((1, -1, 1), 'eta'), ((1, 1, -1), 'xi')):
                ok = True
                for d in D:
                    r = find((s[0] * d[0], s[1] * d[1], s[2] * d[2]))
                    if r is None or not all(near(s[j] * d[j], r[j]) for j in range(3)) or not near(d[3], r[3]):
                        ok = False
                        break
                cx.decide('symmetric under reflection of %s, with equal weights' % nm, ok, 'interval')
            cx.discharge(eng)

    for g, f in (('getMu', 'c_mu'), ('getEta', 'c_eta'), ('getXi', 'c_xi'), ('getWt', 'c_w')):
        with cx.unit('Quadrature::' + g):
            eng = cx.engine('src/Quadrature.cc')
            st = State()
            o = obj('q', 'Quadrature')
            a = uvar('a')
            n = T.var('A.q.%s.#n' % f, 'I')
            T.NONNEG.add('A.q.%s.#n' % f)
            eng.facts.append(T.lt(a, n))
            st.mem[o.path + (f, '#n')] = n
            st.mem[('G', 'g_nAngles')] = n
            _, r = cx.run(eng, 'Quadrature::' + g, [a], this=o, st=st)
            cx.prove('returns entry a', T.eq(r, T.app('A.q.%s.#e' % f, (a,), 'R')))
            cx.discharge(eng)
    with cx.unit('Quadrature::getOmega'):
        eng = cx.engine('src/Quadrature.cc')
        st = State()
        o = obj('q', 'Quadrature')
        a = uvar('a')
        n = T.var('nA', 'I')
        T.NONNEG.add('nA')
        eng.facts.append(T.lt(a, n))
        for f in ('c_mu', 'c_eta', 'c_xi', 'c_w'):
            st.mem[o.path + (f, '#n')] = n
        st.mem[('G', 'g_nAngles')] = n
        _, r = cx.run(eng, 'Quadrature::getOmega', [a], this=o, st=st)
        cx.prove('three components', T.eq(st.mem[r.path + ('#n',)], I(3)))
        for j, f in enumerate(('c_xi', 'c_eta', 'c_mu')):
            cx.prove('component %d' % j, T.eq(eng.read(st.mem[r.path + ('#e',)], (I(j),), st), T.app('A.q.%s.#e' % f, (a,), 'R')))
        cx.discharge(eng)
