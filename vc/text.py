"""Character strings as values, for the code that parses input.

A std::string object holds a value: an unknown string (any integer term naming it), a literal, or a part `str(base, off, len)` of
one.  Contents are `char(base, position)`, lengths `slen(base)`; the operations of std::string used by the code are defined on
these (trusted: they are what the C++ standard says).  Exceptions: a throw ends the path and is recorded; a catch-all handler
starts from the states in which something was thrown.  Scan: a loop whose only effect is to move one index upwards."""
import json
from . import term as T, exec as X, prove as P, ast as A
from .term import I, TRUE, FALSE
from .exec import Loc, Unsupported, Out, Opaque
from .inv import Head

NPOS = I(2 ** 64 - 1)
LITS = {}


def enable():
    """std::string becomes a scalar type from now on"""
    X.STRINGS = True
    X._tcache.clear()


def is_str(ct):
    if ct is not None and ct.k == 'ref':
        ct = ct.elem
    return ct is not None and ct.k == 'int' and ct.name == 'string'


def lit(s):
    n = 'lit' + json.dumps(s)
    LITS[n] = s
    return T.app(n, (), 'I')


def text_of(v):
    return LITS.get(v.info) if v.op == 'app' and not v.args else None


def view(v):
    """(base, offset, length)"""
    if v.op == 'app' and v.info == 'str':
        return v.args
    t = text_of(v)
    if t is not None:
        return v, I(0), I(len(t))
    return v, I(0), T.app('slen', (v,), 'I')


def push(f, v):
    return T.ite(v.args[0], push(f, v.args[1]), push(f, v.args[2])) if v.op == 'ite' else f(v)


def length(v):
    return push(lambda x: view(x)[2], v)


def char(v, i):
    def f(x):
        b, o, n = view(x)
        t = text_of(b)
        p = T.add(o, i)
        if t is None:
            return T.app('char', (b, p), 'I')
        if p.op == 'num':
            return I(ord(t[p.info])) if 0 <= p.info < len(t) else I(0)
        r = I(0)
        for k, c in enumerate(t):
            r = T.ite(T.eq(p, I(k)), I(ord(c)), r)
        return r
    return push(f, v)


def part(v, off, n):
    def f(x):
        b, o, m = view(x)
        o2 = T.add(o, off)
        if n is view(b)[2] and o2 is I(0):
            return b
        if n.op == 'num' and n.info == 0:
            return lit('')
        return T.app('str', (b, o2, n), 'I')
    return push(f, v)


def equal(a, b):
    """equality of two strings, one of them a literal (or empty)"""
    if text_of(b) is None:
        a, b = b, a
    t = text_of(b)
    if t is None:
        return T.TRUE if a is b else T.ne(T.app('streq', (a, b), 'I'), I(0))
    return T.and_(T.eq(length(a), I(len(t))), *[T.eq(char(a, I(k)), I(ord(c))) for k, c in enumerate(t)])


class Thrown(object):
    def __init__(self, code, st):
        self.code, self.pc, self.st = code, st.pc, st.copy()


def install(eng):
    if not X.STRINGS:
        raise Unsupported('strings are not enabled')
    eng.text = eng
    eng.throws = []
    eng.const_mem[('G', 'npos')] = NPOS
    eng.scans = []         # (base, low, first position not scanned, condition of the characters scanned)
    eng.axioms.add('slen', lambda a: [T.ge0(T.app('slen', a, 'I')), T.lt(T.app('slen', a, 'I'), I(2 ** 62))])
    eng.axioms.add('first', lambda a: first_facts(*a))
    eng.axioms.add('char', lambda a: [T.implies(T.and_(T.le(lo, a[1]), T.lt(a[1], hi)), p(T.app('char', a, 'I')))
                                      for b, lo, hi, p in eng.scans if b is a[0]])

    def to_string(e, args, st, n):
        return T.fresh('text', 'I')
    eng.models['to_string'] = to_string
    eng.models['toupper'] = lambda e, args, st, n: T.app('toupper', (e.ev(args[0], st),), 'I')
    eng.models['tolower'] = lambda e, args, st, n: T.app('tolower', (e.ev(args[0], st),), 'I')
    return eng


def first_facts(b, lo, hi, c):
    f = T.app('first', (b, lo, hi, c), 'I')
    return [T.implies(T.le(lo, hi), T.and_(T.le(lo, f), T.le(f, hi))),
            T.implies(T.lt(f, hi), T.eq(T.app('char', (b, f), 'I'), c))]


def find_char(eng, v, c):
    def f(x):
        t = text_of(x)
        if t is not None:
            r = NPOS
            for k in range(len(t) - 1, -1, -1):
                r = T.ite(T.eq(c, I(ord(t[k]))), I(k), r)
            return r
        b, o, n = view(x)
        p = T.app('first', (b, o, T.add(o, n), c), 'I')
        s = (b, o, p, lambda ch: T.ne(ch, c))
        if not any(q[0] is b and q[1] is o and q[2] is p for q in eng.scans):
            eng.scans.append(s)
        return T.ite(T.lt(p, T.add(o, n)), T.sub(p, o), NPOS)
    return push(f, v)


# ------------------------------------------------------------------ evaluation
def value(eng, n, st):
    """value of a string-valued expression (or of a C string literal)"""
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
                        'CXXFunctionalCastExpr', 'CXXStaticCastExpr'):
        n = n['inner'][0]
    if n['kind'] == 'StringLiteral':
        try:
            return lit(json.loads(n['value']))
        except ValueError:
            return T.fresh('text', 'I')
    if n['kind'] == 'CharacterLiteral':
        return lit(chr(int(n['value'])))
    if n['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        args = [a for a in n.get('inner', []) if a.get('kind') != 'CXXDefaultArgExpr']
        if not args:
            return lit('')
        if len(args) == 1:
            return value(eng, args[0], st)
        vs = [eng.ev(a, st) for a in args]
        vs = [eng.load(v, st) if isinstance(v, Loc) else v for v in vs]
        if is_str(X.ptype(args[0]['type'])):
            return substr(eng, vs[0], vs[1], vs[2] if len(vs) > 2 else NPOS, st)
        raise Unsupported('string constructor')
    if n['kind'] == 'InitListExpr' and not n.get('inner'):
        return lit('')
    v = eng.ev(n, st)
    if isinstance(v, Loc):
        v = eng.load(v, st)
    if isinstance(v, T.E) and is_str(X.ptype(n['type'])):
        return v
    return T.fresh('text', 'I')


def substr(eng, s, pos, cnt, st):
    n = length(s)
    eng.obl('pre', T.le(pos, n), st, 'substr starts within the string')
    rest = T.sub(n, pos)
    if cnt is NPOS:
        m = rest
    elif eng.quick(T.le(cnt, rest), st):
        m = cnt
    elif eng.quick(T.le(rest, cnt), st):
        m = rest
    else:
        m = T.ite(T.lt(cnt, rest), cnt, rest)
    return part(s, pos, m)


def method(eng, obj, name, args, st, n):
    args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    s = eng.load(obj, st)
    if name in ('size', 'length'):
        return length(s)
    if name == 'empty':
        return T.eq(length(s), I(0))
    if name in ('c_str', 'data'):
        return Opaque('characters')
    if name == 'clear':
        eng.store(obj, lit(''), st)
        return None
    if name == 'substr':
        vs = [eng.ev(a, st) for a in args]
        return substr(eng, s, vs[0] if vs else I(0), vs[1] if len(vs) > 1 else NPOS, st)
    if name == 'erase':
        vs = [eng.ev(a, st) for a in args]
        if len(vs) == 1 and isinstance(vs[0], T.E):
            eng.store(obj, substr(eng, s, I(0), vs[0], st), st)
            return obj
        if len(vs) == 2 and vs[0] is I(0):
            m = vs[1]
            ln = length(s)
            if not eng.quick(T.le(m, ln), st):
                m = T.ite(T.lt(m, ln), m, ln)
            eng.store(obj, part(s, m, T.sub(ln, m)), st)
            return obj
    if name in ('find', 'find_first_of') and len(args) == 1:
        if X.ptype(args[0]['type']).k == 'int' and not is_str(X.ptype(args[0]['type'])):
            return find_char(eng, s, eng.ev(args[0], st))
        t = text_of(value(eng, args[0], st))
        if t is not None and len(t) == 1:
            return find_char(eng, s, I(ord(t)))
    if name == 'rfind' and len(args) == 1 and X.ptype(args[0]['type']).k == 'int' and not is_str(X.ptype(args[0]['type'])):
        c, r, n = eng.ev(args[0], st), T.fresh('last', 'I'), length(s)
        b = view(s)[0] if s.op != 'ite' else None
        if b is None:
            raise Unsupported('string::rfind')
        off = view(s)[1]
        eng.facts.append(T.or_(T.eq(r, NPOS), T.and_(T.ge0(r), T.lt(r, n), T.eq(char(s, r), c))))
        eng.scans.append((b, T.add(off, T.ite(T.eq(r, NPOS), I(0), T.add(r, I(1)))), T.add(off, n), lambda ch: T.ne(ch, c)))
        return r
    if name in ('operator[]', 'at', 'front', 'back'):
        i = eng.ev(args[0], st) if args else (I(0) if name == 'front' else T.sub(length(s), I(1)))
        eng.obl('index', T.and_(T.ge0(i), T.lt(i, length(s))), st, 'character in range')
        tmp = eng.temp('tmp', X.ptype('char'))
        st.mem[tmp.path] = char(s, i)
        return tmp
    if name == 'operator=' or name == 'assign' and len(args) == 1:
        eng.store(obj, value(eng, args[0], st), st)
        return obj
    if name in ('operator+=', 'append', 'push_back'):
        for a in args:
            eng.ev(a, st)
        eng.store(obj, T.fresh('text', 'I'), st)
        return obj
    if name == 'compare' and len(args) == 1:
        return T.ite(equal(s, value(eng, args[0], st)), I(0), T.fresh('cmp', 'I'))
    raise Unsupported('string::' + name)


def operator(eng, name, args, st):
    if name in ('operator==', 'operator!='):
        r = equal(value(eng, args[0], st), value(eng, args[1], st))
        return r if name == 'operator==' else T.not_(r)
    if name == 'operator+':
        value(eng, args[0], st), value(eng, args[1], st)
        return T.fresh('text', 'I')
    if name in ('operator=', 'operator[]', 'operator+='):
        return method(eng, eng.lv(args[0], st, allow_rvalue=True), name, args[1:], st, None)
    raise Unsupported('string ' + name)


# ------------------------------------------------------------------ exceptions
def throw(eng, n, st):
    code = eng.ev(n['inner'][0], st) if n.get('inner') else None
    if isinstance(code, Loc):
        code = eng.load(code, st)
    eng.throws.append(Thrown(code, st))
    st.pc = FALSE
    return None


def try_(eng, n, st):
    n0 = len(eng.throws)
    o = eng.run(n['inner'][0], st)
    caught, eng.throws[n0:] = eng.throws[n0:], []
    hs = n['inner'][1:]
    if len(hs) != 1 or any(c.get('kind') == 'VarDecl' for c in hs[0].get('inner', [])):
        raise Unsupported('handler for one type of exception')
    s = eng.merge_list([t.st for t in caught])
    if s is None:
        return o
    h = eng.run([c for c in hs[0]['inner'] if c.get('kind') == 'CompoundStmt'][0], s.copy())
    return Out(eng.merge_list([x for x in (o.norm, h.norm) if x is not None]), o.brk + h.brk, o.cont + h.cont, o.ret + h.ret)


# ------------------------------------------------------------------ scanning loops
class Scan(object):
    """loops whose only effect is to move one index up by one until they are left: at the index reached the loop was left, at
    every smaller one it went on"""

    def __init__(self, eng):
        self.eng, self.found = eng, []
        eng.loop_hook = self.hook

    def hook(self, e, s, cond, body, inc, node):
        nob, nth, nev, nf, nsc = len(e.obls), len(e.throws), len(e.events or []), len(e.facts), len(e.scans)
        h = Head(e, s, cond, body, inc, node)
        h.allow_break = h.allow_ret = True

        def undo():
            del e.obls[nob:], e.facts[nf:], e.throws[nth:], e.scans[nsc:]
            if e.events is not None:
                del e.events[nev:]
        try:
            h.iterate()
        except Unsupported:
            undo()
            return None
        syms = [(hs, p) for hs, p in h.hsym.items()]
        if len(h.mod) != 1 or len(syms) != 1 or len(e.throws) > nth:
            undo()
            return None
        P_, path = syms[0]
        start = h.st0.mem.get(path)
        nxt = h.after.mem.get(path)
        if not isinstance(start, T.E) or not isinstance(nxt, T.E) or T.sub(nxt, P_) is not I(1):
            undo()
            return None

        def low(hd, s2):
            for hs, q in hd.hsym.items():
                if q == path:
                    s2.pc = T.and_(s2.pc, T.le(start, hs))
        undo()
        h.iterate(low)
        P_ = [hs for hs, p in h.hsym.items() if p == path][0]
        rng = lambda q: T.and_(T.le(start, q), T.lt(q, P_))
        go = h.after.pc
        pc0 = h.st0.pc

        def at(q):
            return T.implies(T.and_(pc0, rng(q)), T.subst(go, {P_: q}))
        self.found.append((h, P_, at, node))
        e.facts.append(at(T.sub(P_, I(1))))
        for a in T.atoms_of(go, lambda y: y.op == 'app' and any(T.atoms_of(x, lambda z: z is P_) for x in y.args)):
            k = [i for i, x in enumerate(a.args) if T.atoms_of(x, lambda z: z is P_)]
            if len(k) != 1:
                continue
            k = k[0]
            off = T.sub(a.args[k], P_)
            if T.atoms_of(off, lambda z: z is P_):
                continue
            rest = [x for i, x in enumerate(a.args) if i != k]

            def inst(args, k=k, off=off, rest=rest):
                if any(x is not y for x, y in zip([x for i, x in enumerate(args) if i != k], rest)):
                    return []
                q = T.sub(args[k], off)
                return [] if q is P_ else [at(q)]
            e.axioms.add(a.info, inst)
        return Out(norm=e.merge_list(h.brk + [h.exit()]), ret=h.ret)
