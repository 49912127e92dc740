"""Input decks: the parser of key/value files and the assignment of the run parameters."""
from vc.ctx import *
from vc import text as S, exec as X
from vc.text import char, length, part, lit, equal, view
from vc.exec import Fn, Out
from vc.inv import Head

FILE = 'src/KeyValueReader.cc'
NS = 'CKG_Utils::'
KVR = NS + 'KeyValueReader'


# ------------------------------------------------------------------ the grammar, independently of the code
def white(c):
    return T.or_(T.eq(c, I(32)), T.eq(c, I(9)))


def token(c):
    rng = lambda a, b: T.and_(T.le(I(ord(a)), c), T.le(c, I(ord(b))))
    return T.or_(rng('a', 'z'), rng('A', 'Z'), rng('0', '9'), *[T.eq(c, I(ord(x))) for x in '+-_.'])


def not_hash(c):
    return T.ne(c, I(ord('#')))


CLASSES = {'white': white, 'token': token, 'nohash': not_hash}


def span(cls, b, lo, hi):
    """the first position of b at or after lo whose character is not of the class, or hi"""
    w = T.app('span_' + cls, (b, lo, hi), 'I')
    if not any(x[3] is w for x in SPANS):
        SPANS.append((cls, b, lo, w))
    return w


SPANS = []


def grammar(eng):
    """what span is"""
    for cls, p in CLASSES.items():
        def facts(a, cls=cls, p=p):
            b, lo, hi = a
            w = span(cls, b, lo, hi)
            return [T.implies(T.le(lo, hi), T.and_(T.le(lo, w), T.le(w, hi))),
                    T.implies(T.lt(w, hi), T.not_(p(T.app('char', (b, w), 'I'))))]
        eng.axioms.add('span_' + cls, facts)

    def within(a):
        return [T.implies(T.and_(T.le(lo, a[1]), T.lt(a[1], w)), CLASSES[cls](T.app('char', a, 'I')))
                for cls, b, lo, w in list(SPANS) if b is a[0]]
    eng.axioms.add('char', within)
    return eng


def var(st, name, ct='std::string', value=None):
    l = Loc(('A', name), (), ptype(ct))
    v = uvar('v.' + name) if value is None else value
    T.NONNEG.discard('v.' + name)
    st.mem[l.path] = v
    return l, v


def engine(cx, *src, spec=True):
    S.enable()
    eng = cx.engine(*(src or (FILE,)))
    eng.events = []
    S.install(eng)
    if spec:
        grammar(eng)
    eng.contracts[KVR + '::Private::printMessage'] = lambda e, this, a, st: None
    return eng


def same_string(cx, name, got, want, eng, hyps):
    """two views are the same part of the same string (or the same literal text)"""
    gb, go, gn = view(got)
    wb, wo, wn = view(want)
    if gb is wb:
        cx.prove(name, T.and_(T.eq(go, wo), T.eq(gn, wn)), hyps, eng)
        return
    i = uvar('i')
    cx.prove(name + ': length', T.eq(length(got), length(want)), hyps, eng)
    cx.prove(name + ': characters', T.eq(char(got, i), char(want, i)), list(hyps) + [T.ge0(i), T.lt(i, length(want))], eng)


def split(v):
    """cases of a conditional value: (condition, leaf)"""
    if v.op == 'ite':
        for c, x in split(v.args[1]):
            yield T.and_(v.args[0], c), x
        for c, x in split(v.args[2]):
            yield T.and_(T.not_(v.args[0]), c), x
    else:
        yield T.TRUE, v


def same_value(cx, name, got, want, eng, hyps):
    k = 0
    for c, g in split(got):
        for d, w in split(want):
            h = list(hyps) + [c, d]
            if T.and_(*h) is T.FALSE:
                continue
            same_string(cx, '%s%s' % (name, ' (%d)' % k if k else ''), g, w, eng, h)
            k += 1


# ------------------------------------------------------------------ lexical functions
def comments(cx):
    eng = engine(cx)
    st = State()
    l, s = var(st, 'line')
    cx.run(eng, NS + 'getRidOfComments', [l], st=st)
    end = span('nohash', s, I(0), length(s))
    same_value(cx, 'the line ends at the first #', st.mem[l.path], part(s, I(0), end), eng, [st.pc])
    cx.discharge(eng)


def whitespace(cx):
    eng = engine(cx)
    S.Scan(eng)
    st = State()
    l, s = var(st, 'line')
    st, r = cx.run(eng, NS + 'deleteWhitespace', [l], st=st)
    p = span('white', s, I(0), length(s))
    cx.prove('the number of leading blanks is returned', T.eq(r, p), [st.pc], eng)
    same_value(cx, 'what follows the blanks remains', st.mem[l.path], part(s, p, T.sub(length(s), p)), eng, [st.pc])
    cx.discharge(eng)


def tokens(cx):
    eng = engine(cx)
    S.Scan(eng)
    st = State()
    l, s = var(st, 'line')
    t, _ = var(st, 'token')
    cx.run(eng, NS + 'popToken', [l, t], st=st)
    p = span('token', s, I(0), length(s))
    same_value(cx, 'the token is the longest prefix of token characters', st.mem[t.path], part(s, I(0), p), eng, [st.pc])
    same_value(cx, 'the rest of the line remains', st.mem[l.path], part(s, p, T.sub(length(s), p)), eng, [st.pc])
    cx.discharge(eng)


def lexical(eng):
    """contracts of the functions above"""
    def over(cls, f):
        def g(v):
            b, o, n = view(v)
            w = T.sub(span(cls, b, o, T.add(o, n)), o)
            return f(v, w, n)
        return g

    def rid(e, this, a, st):
        s = e.load(a[0], st)
        e.store(a[0], S.push(over('nohash', lambda v, w, n: part(v, I(0), w)), s), st)

    def blanks(e, this, a, st):
        s = e.load(a[0], st)
        e.store(a[0], S.push(over('white', lambda v, w, n: part(v, w, T.sub(n, w))), s), st)
        return S.push(over('white', lambda v, w, n: w), s)

    def pop(e, this, a, st):
        s = e.load(a[0], st)
        e.store(a[1], S.push(over('token', lambda v, w, n: part(v, I(0), w)), s), st)
        e.store(a[0], S.push(over('token', lambda v, w, n: part(v, w, T.sub(n, w))), s), st)
    eng.contracts[NS + 'getRidOfComments'] = rid
    eng.contracts[NS + 'deleteWhitespace'] = blanks
    eng.contracts[NS + 'popToken'] = pop


def parse(cx):
    """line = blanks [key blanks value blanks] [# ...], and nothing else is accepted"""
    eng = engine(cx)
    lexical(eng)
    st = State()
    l, s = var(st, 'line')
    k, _ = var(st, 'key')
    v, _ = var(st, 'value')
    st, r = cx.run(eng, NS + 'parseLine', [l, k, v], st=st)
    end = span('nohash', s, I(0), length(s))
    a = span('white', s, I(0), end)
    b = span('token', s, a, end)
    c = span('white', s, b, end)
    d = span('token', s, c, end)
    e = span('white', s, d, end)
    blank = T.eq(a, end)
    pair = T.and_(T.lt(a, b), T.lt(b, c), T.lt(c, d), T.eq(e, end))
    cx.prove('a blank line or a key and a value is accepted, nothing else', eq_bool(r, T.or_(blank, T.and_(T.not_(blank), pair))), [st.pc], eng)
    good = [st.pc, T.not_(blank), pair]
    same_value(cx, 'the key is the first word', st.mem[k.path], part(s, a, T.sub(b, a)), eng, good)
    same_value(cx, 'the value is the second word', st.mem[v.path], part(s, c, T.sub(d, c)), eng, good)
    for nm, x in (('key', k), ('value', v)):
        cx.prove('no %s otherwise' % nm, T.eq(length(st.mem[x.path]), I(0)), [st.pc, T.or_(blank, T.not_(pair))], eng)
    cx.satisfiable(eng, good)
    cx.satisfiable(eng, [st.pc, T.not_(blank), T.not_(pair)])
    cx.discharge(eng)


def eq_bool(a, b):
    return T.and_(T.or_(T.not_(a), b), T.or_(T.not_(b), a))


def up(c):
    return T.app('toupper', (c,), 'I')


def equality(cx):
    eng = engine(cx)
    sc = S.Scan(eng)
    st = State()
    a, s = var(st, 's1')
    b, t = var(st, 's2')
    st, r = cx.run(eng, NS + 'areStringsEqual', [a, b], st=st)
    i = uvar('i')
    cx.prove('equal strings have the same length', T.eq(length(s), length(t)), [st.pc, r], eng)
    cx.prove('and the same characters, up to their case', T.eq(up(char(s, i)), up(char(t, i))),
             [st.pc, r, T.ge0(i), T.lt(i, length(s))], eng)
    ws = [P_ for _, P_, _, _ in sc.found]
    diff = T.or_(T.ne(length(s), length(t)), *[T.and_(T.ge0(w), T.lt(w, length(s)), T.ne(up(char(s, w)), up(char(t, w)))) for w in ws])
    cx.prove('unequal ones differ in length or in some character', diff, [st.pc, T.not_(r)], eng)
    cx.satisfiable(eng, [st.pc, r])
    cx.satisfiable(eng, [st.pc, T.not_(r)])
    cx.discharge(eng)


def same(a, b):
    """equality up to case"""
    return T.ne(T.app('same', (a, b), 'I'), I(0))


def compare(eng):
    def eq(e, this, a, st):
        x, y = [e.load(v, st) if isinstance(v, Loc) else v for v in a]
        return same(x, y)
    eng.contracts[NS + 'areStringsEqual'] = eq
    eng.axioms.add('same', lambda a: [T.implies(T.ne(T.app('same', a, 'I'), I(0)), T.eq(length(a[0]), length(a[1])))])


def strings(st, path, name, n=None):
    """a vector of unknown strings; returns its size and the value at an index"""
    n = n if n is not None else uvar('n.' + name)
    st.mem[path + ('#n',)] = n
    st.mem[path + ('#e',)] = Fn(lambda ix: T.app(name, ix, 'I'), 'I', 1)
    return n, lambda i: T.app(name, (i,), 'I')


def missing(cx, memo=[]):
    """what findKey returns for an empty table"""
    if not memo:
        eng = X.Engine([FILE])
        S.install(eng)
        st = State()
        kv = Loc(('A', 'keys'), (), ptype('std::vector<std::string>'))
        strings(st, kv.path, 'keyAt', I(0))
        k, _ = var(st, 'key')
        r = eng.call_func(eng.find(NS + 'findKey'), None, st, argvals=[kv, k])
        if not (isinstance(r, T.E) and r.op == 'num' and r.info < 0):
            raise Unsupported('no one value for a missing key')
        memo.append(r)
    return memo[0]


def lookup(cx):
    eng = engine(cx)
    compare(eng)
    S.Scan(eng)
    st = State()
    kv = Loc(('A', 'keys'), (), ptype('std::vector<std::string>'))
    n, at = strings(st, kv.path, 'keyAt')
    k, s = var(st, 'key')
    st, r = cx.run(eng, NS + 'findKey', [kv, k], st=st)
    i = uvar('i')
    here = [st.pc, T.ge0(i), T.lt(i, n)]
    found = T.ne(r, missing(cx))
    cx.prove('a key found is in the table', T.and_(T.ge0(r), T.lt(r, n)), [st.pc, found], eng)
    cx.prove('the entry found has that key', T.or_(same(s, at(r)), same(at(r), s)), [st.pc, found], eng)
    cx.prove('no earlier entry has it', T.not_(same(s, at(i))), here + [found, T.lt(i, r)], eng)
    cx.prove('a key not found is in no entry', T.not_(same(s, at(i))), here + [T.not_(found)], eng)
    cx.satisfiable(eng, [st.pc, found])
    cx.satisfiable(eng, [st.pc, T.not_(found)])
    cx.discharge(eng)


# ------------------------------------------------------------------ the reader
THIS = ('A', 'reader')
DATA = ('A', 'data')
CODES = ['AlreadyReadAFile', 'FileNotRead', 'OpenFileError', 'ParseFileError', 'KeyNotFound', 'StringConversionError']


def code(eng, name):
    for tu in eng.tus:
        for i, nm in tu.enum_names.items() if isinstance(tu.enum_names, dict) else ():
            if nm == 'Exception' + name:
                return I(tu.enums[i])
            if i == 'Exception' + name:
                return I(nm)
    raise Unsupported('exception code ' + name)


def field(eng, kind, st):
    """locations of the reader's data, found by their types"""
    r = eng.record(KVR + '::Private')
    if r is None:
        raise Unsupported('no record of the data of the reader')
    out = {}
    for name, t in r.fields:
        ct = ptype(t)
        k = 'vector' if ct.k == 'vector' else 'string' if S.is_str(ct) else ct.k
        out.setdefault(k, []).append((name, ct))
    return out


class Reader(object):
    """a reader in an arbitrary state: the first table of strings holds the keys and the second the values, as the two
    pushes of readFile and the one read of getString show"""

    def __init__(self, eng, st):
        fs = field(eng, None, st)
        if [len(fs.get(k, ())) for k in ('vector', 'bool', 'string')] != [2, 1, 1]:
            raise Unsupported('the data of the reader have another shape')
        self.this = Loc(THIS, (), ptype(KVR))
        c = [n for n, t in eng.record(KVR).fields if ptype(t).k == 'ptr']
        if len(c) != 1:
            raise Unsupported('the reader does not have one pointer to its data')
        st.mem[THIS + (c[0],)] = Ptr(DATA, (), I(0), ptype(KVR + '::Private'), True)
        self.tables = [DATA + (n,) for n, _ in fs['vector']]
        self.read = DATA + (fs['bool'][0][0],)
        self.name = DATA + (fs['string'][0][0],)
        self.was_read = T.var('wasRead', 'B')
        st.mem[self.read] = self.was_read
        st.mem[self.name] = uvar('oldName')
        names = [n for n, _ in fs['vector']]
        k = [i for i, n in enumerate(names) if 'key' in n.lower()]
        self.k = k[0] if len(k) == 1 else 0
        self.keys, self.values = self.tables[self.k], self.tables[1 - self.k]
        self.n = uvar('nKeys')
        strings(st, self.keys, 'keyAt', self.n)
        strings(st, self.values, 'valueAt', self.n)       # one value for every key

    key = staticmethod(lambda i: T.app('keyAt', (i,), 'I'))
    value = staticmethod(lambda i: T.app('valueAt', (i,), 'I'))


def find_contract(eng, record=None):
    """findKey as proved; what it says of entries not named is instantiated at the indices asked about"""
    def f(e, this, a, st):
        kv = a[0]
        s = e.load(a[1], st) if isinstance(a[1], Loc) else a[1]
        n = e.load(Loc(kv.path + ('#n',), kv.idx, ptype('size_t')), st)
        elem = st.mem.get(kv.path + ('#e',))
        r = T.fresh('found', 'I')

        def at(i):
            return e.load(Loc(kv.path + ('#e',), kv.idx + (i,), ptype('std::string')), snap)
        snap = st.copy()
        hit = T.and_(T.ge0(r), T.lt(r, n), same(s, at(r)))
        e.facts.append(T.or_(T.eq(r, missing(None)), hit))

        def none(i):
            return T.implies(T.and_(T.ge0(i), T.lt(i, T.ite(T.eq(r, missing(None)), n, r))), T.not_(same(s, at(i))))
        eng.lookups.append((st.pc, kv.path, s, r, n, at, none))
        return r
    eng.lookups = []
    eng.contracts[NS + 'findKey'] = f


def fresh_reader(cx):
    """a new reader, or one that was reset, has read nothing"""
    eng = engine(cx)
    st = State()
    rd = Reader(eng, st)
    cx.run(eng, KVR + '::reset', [], this=rd.this, st=st)
    cx.prove('nothing is read', T.not_(st.mem[rd.read]), [st.pc], eng)
    for p in rd.tables:
        cx.prove('the tables are empty', T.eq(st.mem[p + ('#n',)], I(0)), [st.pc], eng)
    cx.prove('reset does not fail', T.ne(I(len(eng.throws)), I(1)), [], eng)
    eng.contracts[KVR + '::reset'] = lambda e, this, a, s: eng.events.append(('reset', s.pc, this.path))
    st = State()
    this = Loc(('A', 'made'), (), ptype(KVR))
    cx.run(eng, KVR + '::KeyValueReader', [], this=this, st=st)
    cx.prove('the constructor resets', T.or_(*[e[1] for e in eng.events if e[0] == 'reset' and e[2] == this.path]), [st.pc], eng)
    cx.discharge(eng)


def thrown(eng, c=None):
    return T.or_(*[T.and_(t.pc, T.eq(t.code, c) if c is not None else T.TRUE) for t in eng.throws])


def get_string(cx):
    eng = engine(cx)
    compare(eng)
    find_contract(eng)
    st = State()
    rd = Reader(eng, st)
    k, s = var(st, 'key')
    v, _ = var(st, 'value')
    cx.run(eng, KVR + '::getString', [k, v], this=rd.this, st=st)
    i = uvar('i')
    ins = [none(i) for _, _, _, _, _, _, none in eng.lookups]
    has = T.and_(T.ge0(i), T.lt(i, rd.n), same(s, rd.key(i)))
    cx.prove('without a file read the error is FileNotRead', T.and_(T.not_(st.pc), thrown(eng, code(eng, 'FileNotRead'))), [T.not_(rd.was_read)], eng)
    cx.prove('a key that is in the table is found', T.not_(thrown(eng)), [rd.was_read, has] + ins, eng)
    j = [r for _, p, _, r, _, _, _ in eng.lookups if p == rd.keys]
    if len(j) != 1:
        raise Unsupported('keys looked up %d times' % len(j))
    absent = T.not_(T.and_(T.ge0(j[0]), T.lt(j[0], rd.n), same(s, rd.key(j[0]))))
    cx.prove('a key that is in no entry is KeyNotFound', T.and_(T.not_(st.pc), thrown(eng, code(eng, 'KeyNotFound'))), [rd.was_read, absent], eng)
    got = st.mem[v.path]
    cx.prove('the value is the one written for the first entry of that key', T.eq(got, rd.value(i)),
             [st.pc, rd.was_read, has, T.eq(j[0], i)], eng)
    cx.prove('the entry used has the key asked for', T.and_(same(s, rd.key(j[0])), T.eq(got, rd.value(j[0]))), [st.pc], eng)
    frame(cx, eng, rd, st)
    cx.satisfiable(eng, [st.pc])
    cx.discharge(eng)


def frame(cx, eng, rd, st):
    """the tables are not written"""
    i = uvar('fr')
    for p, nm in ((rd.keys, 'keyAt'), (rd.values, 'valueAt')):
        cx.prove('the tables are not written', T.and_(T.eq(st.mem[p + ('#n',)], rd.n), T.eq(
            eng.load(Loc(p + ('#e',), (i,), ptype('std::string')), st), T.app(nm, (i,), 'I'))), [st.pc, T.ge0(i), T.lt(i, rd.n)], eng)
    cx.prove('the file remains read', T.eq(T.ite(st.mem[rd.read], I(1), I(0)), T.ite(rd.was_read, I(1), I(0))), [st.pc], eng)


def string_contract(eng, s, val):
    """getString: val, or an exception"""
    def f(e, this, a, st):
        key = e.load(a[0], st) if isinstance(a[0], Loc) else a[0]
        e.asked.append((st.pc, key))
        bad = T.var('notThere', 'B')
        t = st.copy()
        t.pc = T.and_(st.pc, bad)
        e.store(a[1], lit(''), t)
        e.throws.append(S.Thrown(I(-77), t))
        st.pc = T.and_(st.pc, T.not_(bad))
        e.store(a[1], val, st)
    eng.asked = []
    eng.contracts[KVR + '::getString'] = f


def conversion(eng, name, sort):
    """std::stoi and the like: the number a prefix of the string stands for and how long that is, or an exception"""
    def f(e, args, st, n):
        v = S.value(e, args[0], st)
        ok = T.ne(T.app(name + '.ok', (v,), 'I'), I(0))
        t = st.copy()
        t.pc = T.and_(st.pc, T.not_(ok))
        e.throws.append(S.Thrown(I(-78), t))
        st.pc = T.and_(st.pc, ok)
        rest = [x for x in args[1:] if x['kind'] != 'CXXDefaultArgExpr']
        if rest:
            p = e.ev(rest[0], st)
            if isinstance(p, Ptr):
                e.store(e.deref(p, st), T.app(name + '.used', (v,), 'I'), st)
        if len(rest) > 1 and e.ev(rest[1], st) is not I(10):
            raise Unsupported('number in another base')
        return T.app(name + '.value', (v,), sort)
    eng.models[name] = f


def get_number(fn, conv, sort, ct):
    def unit(cx):
        eng = engine(cx)
        val = uvar('written')
        string_contract(eng, None, val)
        for c, so in (('stoi', 'I'), ('stod', 'R'), ('stof', 'R'), ('stol', 'I'), ('stold', 'R')):
            conversion(eng, c, so)
        st = State()
        rd = Reader(eng, st)
        k, s = var(st, 'key')
        v = Loc(('A', 'out'), (), ptype(ct))
        st.mem[v.path] = T.fresh('old', sort)
        cx.run(eng, KVR + '::' + fn, [k, v], this=rd.this, st=st)
        for pc, key in eng.asked:
            cx.prove('the value asked for is that of the key', T.eq(key, s), [pc], eng)
        there = T.not_(T.var('notThere', 'B'))
        num = T.and_(T.ne(T.app(conv + '.ok', (val,), 'I'), I(0)), T.eq(T.app(conv + '.used', (val,), 'I'), length(val)))
        cx.prove('a number is accepted', T.and_(st.pc, T.not_(thrown(eng))), [there, num], eng)
        cx.prove('its value is returned', T.eq(st.mem[v.path], T.app(conv + '.value', (val,), sort)), [st.pc], eng)
        cx.prove('what is not a number as a whole is refused', T.and_(T.not_(st.pc), thrown(eng, code(eng, 'StringConversionError'))),
                 [there, T.not_(num)], eng)
        cx.prove('a missing key is reported', T.and_(T.not_(st.pc), thrown(eng, I(-77))), [T.not_(there)], eng)
        for t in eng.throws:
            cx.prove('no value after an error', T.eq(t.st.mem[v.path], I(0) if sort == 'I' else R(0)), [t.pc], eng)
        cx.satisfiable(eng, [st.pc])
        cx.discharge(eng)
    return unit


def get_bool(cx):
    eng = engine(cx)
    compare(eng)
    val = uvar('written')
    string_contract(eng, None, val)
    st = State()
    rd = Reader(eng, st)
    k, s = var(st, 'key')
    v = Loc(('A', 'out'), (), ptype('bool'))
    st.mem[v.path] = T.var('oldb', 'B')
    cx.run(eng, KVR + '::getBool', [k, v], this=rd.this, st=st)
    for pc, key in eng.asked:
        cx.prove('the value asked for is that of the key', T.eq(key, s), [pc], eng)
    for a in ('true', 'false'):      # the comparison is symmetric
        x = lit(a)
        eng.facts.append(eq_bool(same(val, x), same(x, val)))
    there = T.not_(T.var('notThere', 'B'))
    yes, no = same(val, lit('true')), same(val, lit('false'))
    got = st.mem[v.path]
    cx.prove('true is true', got, [st.pc, yes], eng)
    cx.prove('false is false', T.not_(got), [st.pc, no, T.not_(yes)], eng)
    cx.prove('both are accepted', T.and_(st.pc, T.not_(thrown(eng))), [there, T.or_(yes, no)], eng)
    cx.prove('anything else is refused', T.and_(T.not_(st.pc), thrown(eng, code(eng, 'StringConversionError'))), [there, T.not_(yes), T.not_(no)], eng)
    cx.prove('a missing key is reported', T.and_(T.not_(st.pc), thrown(eng, I(-77))), [T.not_(there)], eng)
    cx.satisfiable(eng, [st.pc, got])
    cx.satisfiable(eng, [st.pc, T.not_(got)])
    cx.discharge(eng)


class Lines(object):
    """the loop over the lines of the file: one arbitrary line, from a state in which as many values as keys are stored and no key is
    empty"""

    def __init__(self, eng, rd):
        self.eng, self.rd, self.h = eng, rd, None
        eng.loop_hook = self.hook

    def hook(self, e, s, cond, body, inc, node):
        if e.fn_stack[-1].qname != KVR + '::readFile':
            return None
        if self.h is not None:
            raise Unsupported('two loops over lines')
        rd = self.rd
        nth, nlk = len(e.throws), len(e.lookups)
        h = Head(e, s, cond, body, inc, node)

        def prepare(hd, s2):
            del e.throws[nth:], e.lookups[nlk:], e.lines[:], e.parsed[:]
            strings(s2, rd.keys, 'keyAt', rd.n)
            strings(s2, rd.values, 'valueAt', rd.n)
        h.iterate(prepare)
        if len(e.throws) > nth:
            raise Unsupported('exception in the loop over lines')
        self.h = h
        self.lookups, self.lines, self.parsed = list(e.lookups[nlk:]), list(e.lines), list(e.parsed)
        x = h.exit()
        self.left = x.copy()
        return Out(norm=x)


def read_file(cx):
    eng = engine(cx)
    compare(eng)
    find_contract(eng)
    eng.lines, eng.parsed, eng.opened = [], [], []
    opened = T.var('opened', 'B')

    def parse_(e, this, a, st):
        l = e.load(a[0], st) if isinstance(a[0], Loc) else a[0]
        e.parsed.append((st.pc, l))
        ok = T.ne(T.app('parse.ok', (l,), 'I'), I(0))
        k, v = T.app('parse.key', (l,), 'I'), T.app('parse.value', (l,), 'I')
        e.store(a[1], k, st)
        e.store(a[2], v, st)
        e.facts.append(T.implies(T.not_(ok), T.eq(length(k), I(0))))
        return ok

    def getline(e, args, st, n):
        f = e.lv(args[0], st)
        if len([x for x in args if x['kind'] != 'CXXDefaultArgExpr']) != 2:
            raise Unsupported('lines ended otherwise')
        l = T.fresh('line', 'I')
        e.store(e.lv(args[1], st), l, st)
        e.lines.append(l)
        return f

    def stream(obj, name, args, st, n):
        if 'ifstream' not in obj.ct.name and 'stream' not in obj.ct.name and 'ios' not in obj.ct.name:
            return NotImplemented
        if name == 'open':
            eng.opened.append((st.pc, S.value(eng, args[0], st)))
            return None
        if name == 'close':
            return None
        if name == 'is_open':
            return opened
        if name == 'operator bool':
            return T.fresh('more', 'B')
        raise Unsupported('stream ' + name)

    def made(e, loc, args, st):
        if args:
            eng.opened.append((st.pc, args[0] if isinstance(args[0], T.E) else e.load(args[0], st) if isinstance(args[0], Loc) else args[0]))
    for n in ('std::basic_ifstream<char>', 'std::ifstream'):
        eng.contracts['ctor:' + n] = made
    eng.lib_hook = stream
    eng.models['getline'] = getline
    eng.contracts[NS + 'parseLine'] = parse_
    st = State()
    rd = Reader(eng, st)
    eng.axioms.add('keyAt', lambda a: [T.implies(T.and_(T.ge0(a[0]), T.lt(a[0], rd.n)), T.lt(I(0), length(T.app('keyAt', a, 'I'))))])
    loop = Lines(eng, rd)
    fn, name = var(st, 'fileName')
    cx.run(eng, KVR + '::readFile', [fn], this=rd.this, st=st)
    h = loop.h
    if h is None or len(loop.lines) != 1 or len(loop.parsed) != 1:
        raise Unsupported('no loop over the lines of the file')

    # before the loop
    cx.prove('a second file is refused', T.and_(T.not_(st.pc), thrown(eng, code(eng, 'AlreadyReadAFile'))), [rd.was_read], eng)
    cx.prove('a file that cannot be opened is refused', T.and_(T.not_(st.pc), thrown(eng, code(eng, 'OpenFileError'))),
             [T.not_(rd.was_read), T.not_(opened)], eng)
    cx.prove('the file opened is the one named', T.or_(*[T.and_(pc, T.eq(f, name)) for pc, f in eng.opened]), [h.st0.pc], eng)
    for pc, f in eng.opened:
        cx.prove('no other is', T.eq(f, name), [pc], eng)
    cx.prove('a file that can is read', T.TRUE if h.st0.pc is T.TRUE else h.st0.pc, [T.not_(rd.was_read), opened], eng)
    for p in rd.tables:
        cx.prove('nothing is stored before the first line', T.eq(h.st0.mem[p + ('#n',)], rd.n), [h.st0.pc], eng)

    # one line
    line = loop.lines[0]
    ok, key, value = T.ne(T.app('parse.ok', (line,), 'I'), I(0)), T.app('parse.key', (line,), 'I'), T.app('parse.value', (line,), 'I')
    end = h.after
    pc = end.pc
    cx.prove('the line read is the one parsed', T.eq(loop.parsed[0][1], line), [pc], eng)
    cx.prove('every line is parsed', loop.parsed[0][0], [pc], eng)
    lk = [x for x in loop.lookups if x[1] == rd.keys]
    if len(lk) != 1:
        raise Unsupported('keys of a line looked up %d times' % len(lk))
    lpc, _, lkey, r, n, at, none = lk[0]
    i = uvar('i')
    cx.prove('the key looked up is that of the line', T.eq(lkey, key), [lpc, pc, ok], eng)
    old = T.and_(T.ge0(r), T.lt(r, rd.n), same(key, rd.key(r)))        # a witness, or there is none (findKey)
    word = T.and_(ok, T.lt(I(0), length(key)))
    new = T.and_(word, T.not_(old))
    link = [T.implies(lpc, none(i))]
    for p, nm, v in ((rd.keys, 'keyAt', key), (rd.values, 'valueAt', value)):
        what = 'key' if p == rd.keys else 'value'
        size = end.mem[p + ('#n',)]
        elem = lambda j: eng.load(Loc(p + ('#e',), (j,), ptype('std::string')), end)
        cx.prove('a new %s is stored, nothing else' % what, T.eq(size, T.add(rd.n, T.ite(new, I(1), I(0)))), [pc], eng)
        cx.prove('the %s stored is that of the line' % what, T.eq(elem(rd.n), v), [pc, new], eng)
        cx.prove('what was stored stays (%s)' % what, T.eq(elem(i), T.app(nm, (i,), 'I')), [pc, T.ge0(i), T.lt(i, rd.n)], eng)
    cx.prove('a key stored was not there', T.not_(same(key, rd.key(i))), [pc, new, T.ge0(i), T.lt(i, rd.n)] + link, eng)
    cx.prove('stored keys are not empty', T.lt(I(0), length(key)), [pc, new], eng)

    # errors are remembered
    flags = []
    for hs, p in h.hsym.items():
        if T.atoms_of(T.or_(*[t.pc for t in eng.throws]), lambda y: y is hs):
            flags.append((hs, p))
    if len(flags) != 1:
        raise Unsupported('errors are remembered in %d places' % len(flags))
    hs, p = flags[0]
    init = h.st0.mem[p]
    fine = (lambda x: eq_bool(x, init)) if hs.sort == 'B' else (lambda x: T.eq(x, init))
    inv = []
    if hs.sort == 'I':
        inv = [T.le(init, hs)]
        cx.prove('the errors counted do not become fewer', T.le(init, end.mem[p]), [pc] + inv, eng)
    good = T.and_(ok, T.or_(T.not_(word), T.not_(old)))
    cx.prove('a line in error is remembered, any other changes nothing', eq_bool(fine(end.mem[p]), T.and_(fine(hs), good)), [pc] + inv, eng)
    x = loop.left
    cx.prove('a file with such a line is refused', T.and_(T.not_(st.pc), thrown(eng, code(eng, 'ParseFileError'))), [x.pc, T.not_(fine(hs))] + inv, eng)
    cx.prove('a file without one is read', st.pc, [x.pc, fine(hs)] + inv, eng)
    cx.prove('and is then read', st.mem[rd.read], [st.pc], eng)
    i = uvar('i2')
    for q, nm in ((rd.keys, 'keyAt'), (rd.values, 'valueAt')):
        cx.prove('the tables are those after the last line', T.and_(T.eq(st.mem[q + ('#n',)], rd.n), T.eq(
            eng.load(Loc(q + ('#e',), (i,), ptype('std::string')), st), T.app(nm, (i,), 'I'))), [st.pc, T.ge0(i), T.lt(i, rd.n)], eng)
    cx.satisfiable(eng, [pc, new])
    cx.satisfiable(eng, [pc, T.not_(good)])
    cx.satisfiable(eng, [st.pc])
    cx.discharge(eng)


# ------------------------------------------------------------------ the parameters of a run
KEYS = {'g_snOrder': ('int', 'snOrder'), 'g_iterMax': ('int', 'iterMax'), 'g_errMax': ('double', 'errMax'),
        'g_maxCellsPerStep': ('int', 'maxCellsPerStep'), 'g_intraAngleP': ('int', 'intraAngleP'), 'g_interAngleP': ('int', 'interAngleP'),
        'g_nGroups': ('int', 'nGroups'), 'g_outputFile': ('bool', 'OutputFile'), 'g_outputFilename': ('string', 'OutputFilename'),
        'g_ddIterMax': ('int', 'DD_IterMax'), 'g_ddErrMax': ('double', 'DD_ErrMax'), 'g_useSourceIteration': ('bool', 'SourceIteration')}
ARGS = ['sigmaT1', 'sigmaS1', 'sigmaT2', 'sigmaS2']
OPTIONS = {'g_mpiType': ('MPIType', 'MPIType_', ['TychoTwoSided', 'CapsaicinTwoSided']),
           'g_sweepType': ('SweepType', 'SweepType_', ['OriginalTycho1', 'OriginalTycho2', 'TraverseGraph', 'PBJ', 'PBJOuter', 'Schur',
                                                       'SchurOuter', 'PBJSI', 'SchurKrylov']),
           'g_gaussElim': ('GaussElim', 'GaussElim_', ['Original', 'NoPivot', 'CramerGlu', 'CramerIntel'])}
SORTS = {'int': 'I', 'string': 'I', 'double': 'R', 'bool': 'B'}


def deck(kind, key):
    return T.app('deck.%s.%s' % (kind, key), (), SORTS[kind])


def parameters(cx):
    eng = engine(cx, 'src/Main.cc', spec=False)
    eng.asked, eng.files = [], []

    def getter(kind):
        def f(e, this, a, st):
            k = S.text_of(e.load(a[0], st) if isinstance(a[0], Loc) else a[0])
            if k is None:
                raise Unsupported('key that is no literal')
            low = {x.lower(): x for x in [v[1] for v in KEYS.values()] + ARGS + [v[0] for v in OPTIONS.values()]}
            e.asked.append((kind, k))
            e.store(a[1], deck(kind, low.get(k.lower(), k)), st)
        return f
    for n, kind in (('getInt', 'int'), ('getDouble', 'double'), ('getBool', 'bool'), ('getString', 'string')):
        eng.contracts[KVR + '::' + n] = getter(kind)
    eng.contracts[KVR + '::readFile'] = lambda e, this, a, st: e.files.append((st.pc, e.load(a[0], st) if isinstance(a[0], Loc) else a[0]))
    eng.contracts['ctor:' + KVR] = lambda e, loc, a, st: None
    refused = []

    def refuse(e, this, a, st):
        refused.append(st.pc)
        st.pc = T.FALSE
    st = State()
    fn, name = var(st, 'fileName')
    outs = []
    for x in ARGS:
        l = Loc(('A', x), (), ptype('double'))
        st.mem[l.path] = T.fresh('old', 'R')
        outs.append(l)
    glob = lambda g: st.mem.get(('G', g))
    eng.safety = eng.safety - {'assert'}
    cx.run(eng, 'readInput', [fn] + outs, st=st)
    if not eng.files:
        raise Unsupported('no file read')
    for pc, f in eng.files:
        cx.prove('the input deck is the file named', T.eq(f, name), [pc], eng)
    hyps = [st.pc]
    for g, (kind, key) in sorted(KEYS.items()):
        v = glob(g)
        if not isinstance(v, T.E):
            raise Unsupported('no value of ' + g)
        w = deck(kind, key)
        cx.prove('%s is the value of %s' % (g, key), eq_bool(v, w) if kind == 'bool' else T.eq(v, w), hyps, eng)
    for l, x in zip(outs, ARGS):
        cx.prove('%s is the value of its key' % x, T.eq(st.mem[l.path], deck('double', x)), hyps, eng)
    names = {}
    for tu in eng.tus:
        names.update(tu.enum_names)
    for g, (key, prefix, opts) in sorted(OPTIONS.items()):
        v = glob(g)
        if not isinstance(v, T.E):
            raise Unsupported('no value of ' + g)
        w = deck('string', key)
        for o in opts:
            if prefix + o not in names:
                raise Unsupported('no option ' + prefix + o)
            cx.prove('%s %s' % (key, o), T.eq(v, I(names[prefix + o])), hyps + [equal(w, lit(o))], eng)
        cx.prove('any other %s is refused' % key, T.not_(st.pc), [T.not_(equal(w, lit(o))) for o in opts], eng)
        vals = [names[prefix + o] for o in opts]
        cx.prove('the options of %s differ' % key, T.TRUE if len(set(vals)) == len(vals) else T.FALSE, [], eng)
    cx.prove('known options are accepted', st.pc, [T.or_(*[equal(deck('string', k), lit(o)) for o in opts]) for k, _, opts in OPTIONS.values()], eng)
    cx.satisfiable(eng, [st.pc])
    cx.discharge(eng)


UNITS = [('CKG_Utils::getRidOfComments', comments), ('CKG_Utils::deleteWhitespace', whitespace), ('CKG_Utils::popToken', tokens),
         ('CKG_Utils::parseLine', parse), ('CKG_Utils::areStringsEqual', equality), ('CKG_Utils::findKey', lookup),
         (KVR + '::reset', fresh_reader), (KVR + '::readFile', read_file), (KVR + '::getString', get_string),
         (KVR + '::getInt', get_number('getInt', 'stoi', 'I', 'int')), (KVR + '::getDouble', get_number('getDouble', 'stod', 'R', 'double')),
         (KVR + '::getFloat', get_number('getFloat', 'stof', 'R', 'float')), (KVR + '::getBool', get_bool), ('readInput', parameters)]


def prove(cx):
    cx.assume('std::string, std::vector and std::getline are what the C++ standard says; getline gives the lines of the file in order')
    cx.assume('std::stoi, stod and stof give the number a prefix of the string stands for and the length of that prefix, or throw')
    cx.assume('keys and values are ASCII words (proved of what is stored), for which toupper is defined')
    cx.theorems('Steps', {'arbitrary_iteration': 'what one arbitrary line keeps and does, every line does'})
    cx.assume('the reader is its own: nothing else holds its tables')
    for name, f in UNITS:
        with cx.unit(name):
            f(cx)
