"""Terms of the verification-condition language.

Hash-consed first-order terms over sorts I (mathematical integers), R (mathematical reals) and B.
Arithmetic terms are kept in polynomial normal form over *atoms* (variables, array selects,
uninterpreted applications, if-then-else, integer division, reciprocals, finite sums ...), so two
arithmetically equal terms are usually the same object.
"""
from fractions import Fraction

_table = {}
_next = [0]


class E(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'poly', 'fv', 'info', 'depth')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    # arithmetic sugar --------------------------------------------------
    def __add__(self, o): return add(self, lift(o, self.sort))
    def __radd__(self, o): return add(lift(o, self.sort), self)
    def __sub__(self, o): return sub(self, lift(o, self.sort))
    def __rsub__(self, o): return sub(lift(o, self.sort), self)
    def __mul__(self, o): return mul(self, lift(o, self.sort))
    def __rmul__(self, o): return mul(lift(o, self.sort), self)
    def __neg__(self): return neg(self)


def lift(x, sort):
    if isinstance(x, E):
        return x
    return num(x, sort)


def _mk(op, args, sort, info=None):
    key = (op, args, sort, info)
    e = _table.get(key)
    if e is None:
        e = E()
        e.op = op
        e.args = args
        e.sort = sort
        e.info = info
        e.id = _next[0]
        _next[0] += 1
        e.poly = None
        e.fv = None
        e.depth = None
        _table[key] = e
    return e


# ---------------------------------------------------------------- constants / variables
TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')


def num(v, sort):
    v = Fraction(v)
    return _mk('num', (), sort, v)


def I(v): return num(v, 'I')
def R(v): return num(v, 'R')


def var(name, sort):
    return _mk('var', (), sort, name)


_fresh = {}


def fresh(base, sort):
    n = _fresh.get(base, 0)
    _fresh[base] = n + 1
    return var('%s!%d' % (base, n), sort)


def fresh_name(base):
    n = _fresh.get(base, 0)
    _fresh[base] = n + 1
    return '%s!%d' % (base, n)


def app(fname, args, sort):
    """Uninterpreted application (array selects are applications of the array's symbol)."""
    return _mk('app', tuple(args), sort, fname)


# ---------------------------------------------------------------- polynomials
def _poly(e):
    """dict: monomial(tuple of (atom, exp), sorted by atom id) -> Fraction"""
    if e.poly is not None:
        return e.poly
    if e.op == 'num':
        p = {(): e.info} if e.info != 0 else {}
    elif e.op == 'poly':
        p = dict(e.info)
    else:
        p = {((e, 1),): Fraction(1)}
    e.poly = p
    return p


def _mono_key(m):
    return tuple((a.id, k) for a, k in m)


def from_poly(p, sort):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return num(0, sort)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    info = tuple(sorted(p.items(), key=lambda mc: _mono_key(mc[0])))
    e = _mk('poly', (), sort, info)
    if e.poly is None:
        e.poly = p
    return e


def _mono_mul(m1, m2):
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = {}
    for a, k in m1:
        d[a] = d.get(a, 0) + k
    for a, k in m2:
        d[a] = d.get(a, 0) + k
    # reciprocal / sqrt cancellation
    extra = None
    for a in list(d):
        if a not in d:
            continue
        if a.op == 'inv':
            b = a.args[0]
            if b in d:
                k = min(d[a], d[b])
                d[a] -= k
                d[b] -= k
        elif a.op == 'sqrt' and d[a] >= 2:
            k = d[a] // 2
            d[a] -= 2 * k
            extra = (a.args[0], k) if extra is None else extra + (a.args[0], k)
    return tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)), extra


def poly_mul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, extra = _mono_mul(m1, m2)
            c = c1 * c2
            if extra is None:
                r[m] = r.get(m, 0) + c
            else:
                t = {m: c}
                for i in range(0, len(extra), 2):
                    for _ in range(extra[i + 1]):
                        t = poly_mul(t, _poly(extra[i]))
                for mm, cc in t.items():
                    r[mm] = r.get(mm, 0) + cc
    return {m: c for m, c in r.items() if c != 0}


def add(*xs):
    sort = xs[0].sort
    r = {}
    for x in xs:
        assert x.sort == sort, (x, sort)
        for m, c in _poly(x).items():
            r[m] = r.get(m, 0) + c
    return from_poly(r, sort)


def neg(x):
    return from_poly({m: -c for m, c in _poly(x).items()}, x.sort)


def sub(a, b):
    assert a.sort == b.sort, (a, b)
    r = dict(_poly(a))
    for m, c in _poly(b).items():
        r[m] = r.get(m, 0) - c
    return from_poly(r, a.sort)


def mul(a, b):
    assert a.sort == b.sort, (a, b)
    return from_poly(poly_mul(_poly(a), _poly(b)), a.sort)


def scale(c, a):
    c = Fraction(c)
    return from_poly({m: c * k for m, k in _poly(a).items()}, a.sort)


def rdiv(a, b):
    """real division"""
    if b.op == 'num':
        if b.info == 0:
            return mul(a, _mk('inv', (b,), 'R'))
        return scale(Fraction(1) / b.info, a)
    return mul(a, inv(b))


def inv(b):
    if b.op == 'num' and b.info != 0:
        return num(Fraction(1) / b.info, 'R')
    if b.op == 'inv':
        return b.args[0]
    p = _poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        r = num(Fraction(1) / c, 'R')
        for a, k in m:
            for _ in range(k):
                r = mul(r, a.args[0] if a.op == 'inv' else _mk('inv', (a,), 'R'))
        return r
    # normalise scale
    lead = min(p.items(), key=lambda mc: _mono_key(mc[0]))[1]
    q = scale(Fraction(1) / lead, b)
    return scale(Fraction(1) / lead, _mk('inv', (q,), 'R'))


def idiv(a, b):
    """C integer division of non-negative operands (floor)."""
    if a.op == 'num' and b.op == 'num' and b.info != 0:
        return I(a.info // b.info)
    if b.op == 'num' and b.info == 1:
        return a
    if b.op == 'num' and b.info > 0:
        # exact multiples
        p = _poly(a)
        q = {}
        r = {}
        for m, c in p.items():
            if c.denominator == 1 and c % b.info == 0:
                q[m] = c / b.info
            else:
                r[m] = c
        if not r:
            return from_poly(q, 'I')
        if q:
            return add(from_poly(q, 'I'), _mk('idiv', (from_poly(r, 'I'), b), 'I'))
    else:
        # a = k*b exactly?
        q = _try_exact(a, b)
        if q is not None:
            return q
    return _mk('idiv', (a, b), 'I')


def _try_exact(a, b):
    pb = _poly(b)
    if len(pb) != 1:
        return None
    (mb, cb), = pb.items()
    res = {}
    for m, c in _poly(a).items():
        d = dict(m)
        for at, k in mb:
            if d.get(at, 0) < k:
                return None
            d[at] -= k
        if (c / cb).denominator != 1:
            return None
        res[tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda z: z[0].id))] = c / cb
    return from_poly(res, 'I')


def imod(a, b):
    if a.op == 'num' and b.op == 'num' and b.info != 0:
        return I(a.info % b.info)
    return sub(a, mul(b, idiv(a, b)))


def to_real(a):
    if a.sort == 'R':
        return a
    if a.op == 'num':
        return num(a.info, 'R')
    if a.op == 'ite':
        return ite(a.args[0], to_real(a.args[1]), to_real(a.args[2]))
    r = {}
    for m, c in _poly(a).items():
        mm = tuple(sorted(((_mk('toreal', (x,), 'R'), k) for x, k in m), key=lambda z: z[0].id))
        r[mm] = r.get(mm, 0) + c
    return from_poly(r, 'R')


def sqrt(a):
    if a.op == 'num':
        import math
        n, d = a.info.numerator, a.info.denominator
        if n >= 0:
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return num(Fraction(rn, rd), 'R')
    return _mk('sqrt', (a,), 'R')


def fabs(a):
    if a.op == 'num':
        return num(abs(a.info), a.sort)
    p = _poly(a)
    lead = min(p.items(), key=lambda mc: _mono_key(mc[0]))[1]
    if lead < 0:
        a = neg(a)
    return _mk('abs', (a,), a.sort)


# ---------------------------------------------------------------- booleans
def _cmp0(op, p, sort):
    """op in ge, gt, eq; canonical atom for p op 0"""
    if p.op == 'num':
        v = p.info
        return {'ge': v >= 0, 'gt': v > 0, 'eq': v == 0}[op] and TRUE or FALSE
    d = _poly(p)
    # scale to coprime integers
    from math import gcd
    den = 1
    for c in d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    const = d.get((), Fraction(0))
    for m, c in d.items():
        if m == () and sort == 'I' and op != 'eq':
            continue
        g = gcd(g, int(c * den))
    s = Fraction(den, g if g else 1)
    if op == 'eq':
        lead = min(((m, c) for m, c in d.items() if m != ()), key=lambda mc: _mono_key(mc[0]))[1]
        if lead < 0:
            s = -s
    q = {m: c * s for m, c in d.items()}
    if sort == 'I':
        if op == 'gt':
            c0 = q.get((), Fraction(0))
            # sum + c0 > 0, sum integer valued: sum >= floor(-c0)+1  <=> sum + ceil(c0) - 1 >= 0
            import math
            q[()] = Fraction(math.ceil(c0) - 1)
            op = 'ge'
        elif op == 'ge':
            import math
            q[()] = Fraction(math.floor(q.get((), Fraction(0))))
        else:
            if any(c.denominator != 1 for c in q.values()):
                return FALSE
    e = from_poly(q, sort)
    return _mk(op, (e,), 'B')


def ge0(p): return _cmp0('ge', p, p.sort)
def gt0(p): return _cmp0('gt', p, p.sort)


def coerce2(a, b):
    if not isinstance(a, E):
        a = lift(a, b.sort)
    if not isinstance(b, E):
        b = lift(b, a.sort)
    if a.sort != b.sort:
        if a.sort == 'I' and b.sort == 'R':
            a = to_real(a)
        elif a.sort == 'R' and b.sort == 'I':
            b = to_real(b)
        elif a.sort == 'B':
            a = b2i(a)
            return coerce2(a, b)
        elif b.sort == 'B':
            b = b2i(b)
            return coerce2(a, b)
    return a, b


def b2i(a): return ite(a, I(1), I(0))


def lt(a, b):
    a, b = coerce2(a, b)
    return gt0(sub(b, a))


def le(a, b):
    a, b = coerce2(a, b)
    return ge0(sub(b, a))


def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)


def eq(a, b):
    if not isinstance(a, E) or not isinstance(b, E):
        a, b = coerce2(a, b)
    if a is b:
        return TRUE
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = coerce2(a, b)
    # push equality with constants through ite
    if a.op == 'ite' and b.op == 'num':
        x, y = eq(a.args[1], b), eq(a.args[2], b)
        if x.op in ('true', 'false') or y.op in ('true', 'false'):
            return bite(a.args[0], x, y)
    if b.op == 'ite' and a.op == 'num':
        return eq(b, a)
    return _cmp0('eq', sub(a, b), a.sort)


def ne(a, b): return not_(eq(a, b))


def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'ge':
        p = a.args[0]
        return gt0(neg(p))
    if a.op == 'gt':
        return ge0(neg(a.args[0]))
    if a.op == 'and' or a.op == 'or':
        r = _negated.get(a)
        if r is None:
            r = _negated[a] = (or_ if a.op == 'and' else and_)(*[not_(x) for x in a.args])
        return r
    return _mk('not', (a,), 'B')


_negated = {}


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    return out


def and_(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    s = {}
    for x in _flat('and', xs):
        if x is TRUE: continue
        if x is FALSE: return FALSE
        s[x.id] = x
    for x in list(s.values()):
        if not_(x).id in s:
            return FALSE
    if not s: return TRUE
    # absorption: a and (a or b) -> a ; a and (not a or b) -> a and b
    changed = True
    while changed:
        changed = False
        for x in list(s.values()):
            if x.op == 'or':
                if any(y.id in s for y in x.args):
                    del s[x.id]; changed = True; break
                rest = [y for y in x.args if not_(y).id not in s]
                if len(rest) != len(x.args):
                    del s[x.id]
                    return and_(*(list(s.values()) + [or_(*rest)]))
    if not s: return TRUE
    if len(s) == 1: return next(iter(s.values()))
    return _mk('and', tuple(s[k] for k in sorted(s)), 'B')


def or_(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    s = {}
    for x in _flat('or', xs):
        if x is FALSE: continue
        if x is TRUE: return TRUE
        s[x.id] = x
    for x in list(s.values()):
        if not_(x).id in s:
            return TRUE
    changed = True
    while changed:
        changed = False
        for x in list(s.values()):
            if x.op == 'and':
                if any(y.id in s for y in x.args):
                    del s[x.id]; changed = True; break
                rest = [y for y in x.args if not_(y).id not in s]
                if len(rest) != len(x.args):
                    del s[x.id]
                    return or_(*(list(s.values()) + [and_(*rest)]))
    if not s: return FALSE
    if len(s) == 1: return next(iter(s.values()))
    # (a and c) or (not a and c)  -> c   (two-element case)
    if len(s) == 2:
        x, y = s.values()
        if x.op == 'and' and y.op == 'and':
            sx, sy = set(x.args), set(y.args)
            common = sx & sy
            if common:
                rx, ry = and_(*(sx - common)), and_(*(sy - common))
                if rx is not_(ry):
                    return and_(*common)
    return _mk('or', tuple(s[k] for k in sorted(s)), 'B')


def implies(a, b): return or_(not_(a), b)


def bite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return or_(and_(c, a), and_(not_(c), b))


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B' and b.sort == 'B':
        return bite(c, a, b)
    a, b = coerce2(a, b)
    if a is b: return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b: return a
    if MX and a.sort == 'R' and c.op in ('ge', 'gt'):
        d = sub(a, b)
        if c.args[0] is d or (gt0(d) if c.op == 'gt' else ge0(d)) is c:
            return mx(a, b)
        d = neg(d)
        if c.args[0] is d or (gt0(d) if c.op == 'gt' else ge0(d)) is c:
            return neg(mx(neg(a), neg(b)))
    return _mk('ite', (c, a, b), a.sort)


NEGINF = None
MX = False       # rewrite (a > b ? a : b) to max(a, b)


def neginf():
    global NEGINF
    if NEGINF is None:
        NEGINF = var('-inf', 'R')
    return NEGINF


def mx(*xs):
    """maximum of reals; flattened, duplicates removed.  -inf is the unit."""
    ni = neginf()
    acc = {}
    n = None

    def put(x):
        nonlocal n
        if x.op == 'mx':
            for y in x.args: put(y)
        elif x is ni:
            pass
        elif x.op == 'num':
            n = x if n is None or x.info > n.info else n
        else:
            acc[x.id] = x
    for x in xs:
        put(x)
    if n is not None:
        acc[n.id] = n
    if not acc:
        return ni
    a = [acc[k] for k in sorted(acc)]
    for i, x in enumerate(a):
        if x.op == 'ite' and (x.args[1] is ni or x.args[2] is ni):
            rest = a[:i] + a[i + 1:]
            return ite(x.args[0], mx(x.args[1], *rest), mx(x.args[2], *rest))
    if len(a) == 1:
        return a[0]
    if n is not None and n.info <= 0 and any(x.op == 'abs' for x in a):
        return mx(*[x for x in a if x is not n])
    return _mk('mx', tuple(a), 'R')


# ---------------------------------------------------------------- binders
def _bdepth(e):
    if e.depth is not None:
        return e.depth
    d = 0
    for x in children(e):
        d = max(d, _bdepth(x))
    if e.op in ('sum', 'forall', 'exists', 'fmax'):
        d += 1
    e.depth = d
    return d


def bvar(depth):
    return var('#%d' % depth, 'I')


def children(e):
    if e.op == 'poly':
        out = []
        for m, _ in e.info:
            for a, _k in m:
                out.append(a)
        return out
    return e.args


def free_vars(e):
    """frozenset of variable terms free in e (binders bind '#d' variables)"""
    if e.fv is not None:
        return e.fv
    if e.op == 'var':
        r = frozenset([e])
    else:
        r = frozenset()
        for x in children(e):
            r = r | free_vars(x)
        if e.op in ('sum', 'forall', 'exists', 'fmax'):
            r = (free_vars(e.args[2]) - {bvar(e.info)}) | free_vars(e.args[0]) | free_vars(e.args[1])
    e.fv = r
    return r


def mksum(v, lo, hi, body):
    """Sum_{v=lo}^{hi-1} body, zero when hi<=lo.  Normalised over monomials."""
    sort = body.sort
    if lo is hi:
        return num(0, sort)
    if v not in free_vars(body):
        n = _count(lo, hi)
        return mul(body, to_real(n) if sort == 'R' else n)
    # constant bounds: expand
    if lo.op == 'num' and hi.op == 'num' and hi.info - lo.info <= 64:
        r = num(0, sort)
        k = lo.info
        while k < hi.info:
            r = add(r, subst(body, {v: I(k)}))
            k += 1
        return r
    # split monomials
    p = _poly(body)
    if len(p) > 1 or not (body.op not in ('poly',)):
        out = num(0, sort)
        rest = {}
        for m, c in p.items():
            dep = tuple((a, k) for a, k in m if v in free_vars(a))
            ind = tuple((a, k) for a, k in m if v not in free_vars(a))
            rest.setdefault(ind, {})
            rest[ind][dep] = rest[ind].get(dep, 0) + c
        if len(rest) > 1 or () not in rest or any(len(x) > 1 for x in rest.values()) or \
                any(c != 1 for x in rest.values() for c in x.values()):
            for ind, deps in rest.items():
                for dep, c in deps.items():
                    t = from_poly({dep: Fraction(1)}, sort)
                    out = add(out, mul(from_poly({ind: Fraction(c)}, sort), mksum(v, lo, hi, t)))
            return out
    # ite with threshold condition on v
    if body.op == 'ite':
        c, a, b = body.args
        if v not in free_vars(c):
            return ite(c, mksum(v, lo, hi, a), mksum(v, lo, hi, b))
        thr = _threshold(c, v)
        if thr is not None:
            # v < thr -> a else b
            mid = imax(lo, imin(thr, hi))
            return add(mksum(v, lo, mid, a), mksum(v, mid, hi, b))
    d = max(_bdepth(body), 0)
    bv = bvar(d)
    b2 = subst(body, {v: bv})
    return _mk('sum', (lo, hi, b2), sort, d)


def _threshold(c, v):
    if c.op == 'ge':
        p = _poly(c.args[0])
        key = ((v, 1),)
        if p.get(key) == -1 and all(m == key or all(v is not a and v not in free_vars(a) for a, _ in m) for m in p):
            rest = {m: k for m, k in p.items() if m != key}
            return add(from_poly(rest, 'I'), I(1))       # v <= rest  <=> v < rest+1
    return None


def _count(lo, hi):
    d = sub(hi, lo)
    if d.op == 'num':
        return d if d.info >= 0 else I(0)
    if known_nonneg(d):
        return d
    return ite(ge0(d), d, I(0))


def known_nonneg(e):
    """syntactic: sums of products of nonneg vars"""
    for m, c in _poly(e).items():
        if c < 0:
            return False
        for a, k in m:
            if k % 2 and not (a.op in ('var', 'app', 'idiv', 'sum') and a.sort == 'I' and nonneg_atom(a)):
                if not _imin_nonneg(a):
                    return False
    return True


def _imin_nonneg(a):
    if a.op == 'ite' and a.sort == 'I':
        return known_nonneg(a.args[1]) and known_nonneg(a.args[2])
    return False


NONNEG = set()          # names of integer symbols declared unsigned


def nonneg_atom(a):
    if a.op in ('var', 'app'):
        return a.info in NONNEG or (a.op == 'var' and a.info.startswith('#'))
    if a.op == 'idiv':
        return True
    return False


def imin(a, b):
    if a is b: return a
    if a.op == 'num' and b.op == 'num':
        return a if a.info <= b.info else b
    d = sub(b, a)
    if known_nonneg(d): return a
    if known_nonneg(neg(d)): return b
    return ite(ge0(d), a, b)


def imax(a, b):
    if a is b: return a
    if a.op == 'num' and b.op == 'num':
        return a if a.info >= b.info else b
    d = sub(b, a)
    if known_nonneg(d): return b
    if known_nonneg(neg(d)): return a
    # max(0, ite(c,x,y)) with x,y known nonneg
    if a.op == 'num' and a.info == 0 and known_nonneg(b): return b
    return ite(ge0(d), b, a)


def fmaxover(v, lo, hi, body):
    """max over v in [lo,hi) of body; -infinity when empty."""
    ni = neginf()
    if lo.op == 'num' and hi.op == 'num':
        if hi.info <= lo.info:
            return ni
        if hi.info - lo.info <= 64:
            return mx(*[subst(body, {v: I(k)}) for k in range(int(lo.info), int(hi.info))])
    if lo is hi or body is ni:
        return ni
    if not (lo.op == 'num' and lo.info == 0):
        nv = fresh('bv', 'I')
        NONNEG.add(nv.info)
        return fmaxover(nv, I(0), sub(hi, lo), subst(body, {v: add(nv, lo)}))
    if hi.op == 'ite' and hi.args[2].op == 'num' and hi.args[2].info == 0 and hi.args[0] is ge0(hi.args[1]):
        hi = hi.args[1]
    if body.op == 'mx':
        return mx(*[fmaxover(v, lo, hi, x) for x in body.args])
    if v not in free_vars(body):
        return ite(lt(lo, hi), body, ni)
    d = _bdepth(body)
    b2 = subst(body, {v: bvar(d)})
    return _mk('fmax', (lo, hi, b2), body.sort, d)


def forall(v, lo, hi, body):
    if body is TRUE: return TRUE
    if v not in free_vars(body):
        return or_(body, le(hi, lo))
    d = _bdepth(body)
    return _mk('forall', (lo, hi, subst(body, {v: bvar(d)})), 'B', d)


def exists(v, lo, hi, body):
    return not_(forall(v, lo, hi, not_(body)))


# ---------------------------------------------------------------- substitution
def rebuild(e, f):
    op = e.op
    if op in ('num', 'var', 'true', 'false'):
        return e
    if op == 'poly':
        r = num(0, e.sort)
        acc = {}
        for m, c in e.info:
            t = {(): c}
            for a, k in m:
                fa = f(a)
                if fa.sort != e.sort:
                    fa = to_real(fa) if e.sort == 'R' else fa
                pa = _poly(fa)
                for _ in range(k):
                    t = poly_mul(t, pa)
            for mm, cc in t.items():
                acc[mm] = acc.get(mm, 0) + cc
        return from_poly(acc, e.sort)
    a = [f(x) for x in e.args]
    return remake(e, a)


def remake(e, a):
    op = e.op
    if all(x is y for x, y in zip(a, e.args)):
        return e
    if op == 'app': return app(e.info, a, e.sort)
    if op == 'ite': return ite(*a)
    if op == 'inv': return inv(a[0])
    if op == 'sqrt': return sqrt(a[0])
    if op == 'abs': return fabs(a[0])
    if op == 'mx': return mx(*a)
    if op == 'toreal': return to_real(a[0])
    if op == 'idiv': return idiv(a[0], a[1])
    if op == 'ge': return ge0(a[0])
    if op == 'gt': return gt0(a[0])
    if op == 'eq': return _cmp0('eq', a[0], a[0].sort)
    if op == 'not': return not_(a[0])
    if op == 'and': return and_(*a)
    if op == 'or': return or_(*a)
    raise Exception('remake ' + op)


def subst(e, m, memo=None):
    """m: dict var-term/atom -> term"""
    if memo is None:
        memo = {}
    if not m:
        return e
    keys = frozenset(k for k in m if k.op == 'var')
    allvars = len(keys) == len(m)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif allvars and not (free_vars(x) & keys):
            r = x
        elif x.op in ('sum', 'forall', 'fmax'):
            lo, hi, body = x.args
            bv = bvar(x.info)
            nv = fresh('bv', 'I')
            NONNEG.add(nv.info)
            b2 = go2(subst(body, {bv: nv}))
            lo, hi = go(lo), go(hi)
            if x.op == 'sum': r = mksum(nv, lo, hi, b2)
            elif x.op == 'forall': r = forall(nv, lo, hi, b2)
            else: r = fmaxover(nv, lo, hi, b2)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r

    def go2(b):
        return subst(b, m)
    return go(e)


def atoms_of(e, pred, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if e in seen:
        return acc
    seen.add(e)
    if pred(e):
        acc.append(e)
    for c in children(e):
        atoms_of(c, pred, acc, seen)
    return acc


# ---------------------------------------------------------------- printing
def show(e, d=0):
    if d > 12: return '...'
    op = e.op
    if op == 'num': return str(e.info)
    if op == 'var': return str(e.info)
    if op in ('true', 'false'): return op
    if op == 'poly':
        out = []
        for m, c in e.info:
            t = '*'.join(show(a, d + 1) + ('^%d' % k if k > 1 else '') for a, k in m)
            if not m: out.append(str(c))
            elif c == 1: out.append(t)
            elif c == -1: out.append('-' + t)
            else: out.append('%s*%s' % (c, t))
        return '(' + ' + '.join(out) + ')'
    if op == 'app':
        return '%s[%s]' % (e.info, ', '.join(show(a, d + 1) for a in e.args))
    if op == 'ge': return show(e.args[0], d + 1) + '>=0'
    if op == 'gt': return show(e.args[0], d + 1) + '>0'
    if op == 'eq': return show(e.args[0], d + 1) + '==0'
    if op == 'ite': return '(%s ? %s : %s)' % tuple(show(a, d + 1) for a in e.args)
    if op in ('sum', 'forall', 'fmax'):
        return '%s{#%d in [%s,%s)} %s' % (op, e.info, show(e.args[0], d + 1), show(e.args[1], d + 1), show(e.args[2], d + 1))
    return '%s(%s)' % (op, ', '.join(show(a, d + 1) for a in e.args))
