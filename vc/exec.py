"""Verification-condition generator: executes the clang AST of the real functions over symbolic states.

Every branch is taken (states are merged with if-then-else), every loop is replaced by a summary that is
valid for *any* number of iterations (see loops.py), a call to a function under contract is replaced by its
contract, other repository functions are entered.  Run-time-safety conditions (index in range, divisor
non-zero, assertion holds, unsigned subtraction does not wrap, callee precondition) become obligations.
"""
from . import term as T
from . import ast as A
from . import prove as P
from .term import I, R, TRUE, FALSE
import re


class Unsupported(Exception):
    pass


# =============================================================== types
class CT(object):
    __slots__ = ('k', 'name', 'elem', 'n', 'signed', 'size')

    def __init__(self, k, name=None, elem=None, n=None, signed=False, size=8):
        self.k, self.name, self.elem, self.n, self.signed, self.size = k, name, elem, n, signed, size

    def __repr__(self):
        return 'CT(%s %s %s %s)' % (self.k, self.name or '', self.elem or '', self.n or '')


INTS = {'unsigned long': (False, 8), 'uint64_t': (False, 8), 'UINT': (False, 8), 'size_t': (False, 8), 'int': (True, 4),
        'unsigned int': (False, 4), 'unsigned': (False, 4), 'long': (True, 8), 'char': (True, 1),
        'unsigned char': (False, 1), 'short': (True, 2), 'long long': (True, 8), 'unsigned long long': (False, 8),
        'int64_t': (True, 8), 'uint32_t': (False, 4), 'int32_t': (True, 4), 'ssize_t': (True, 8),
        'difference_type': (True, 8), 'size_type': (False, 8), 'unsigned short': (False, 2), 'off_t': (True, 8),
        'MPI_Offset': (True, 8)}
REALS = {'double', 'float', 'long double'}
_tcache = {}
ENUM_NAMES = set()
STRINGS = False          # std::string as a scalar (vc/text.py)


def ptype(t):
    if isinstance(t, dict):
        s = t.get('desugaredQualType', t['qualType'])
        # keep typedef names that clang does not desugar (UINT etc. are desugared)
    else:
        s = t
    r = _tcache.get(s)
    if r is None:
        r = _ptype(s)
        _tcache[s] = r
    return r


def _ptype(s):
    s = s.strip()
    s = s.replace('TYCHO_VERIF::', '').replace('__restrict', '').replace('(anonymous namespace)::', '').replace('(anonymous)::', '')
    s = re.sub(r'\bstruct |\bclass |\benum ', '', s).strip()
    if s.endswith('&&'):
        return CT('ref', elem=_ptype(s[:-2]))
    if s.endswith('&'):
        return CT('ref', elem=_ptype(s[:-1]))
    m = re.match(r'^(.*)\(\*(?:const)?\)((?:\[\d+\])+)$', s)
    if m:
        return CT('ptr', elem=_ptype(m.group(1) + m.group(2)))
    m = re.match(r'^(.*)\(&\)((?:\[\d+\])+)$', s)
    if m:
        return CT('ref', elem=_ptype(m.group(1) + m.group(2)))
    if s.endswith(']'):
        # first dimension is the leftmost
        i = s.index('[', _match_depth0(s))
        j = s.index(']', i)
        n = s[i + 1:j]
        return CT('array', elem=_ptype(s[:i] + s[j + 1:]), n=int(n) if n and n.isdigit() else None)
    if s.endswith('*const'):
        s = s[:-5]
    if s.endswith('* const'):
        s = s[:-6]
    if s.endswith('*'):
        return CT('ptr', elem=_ptype(s[:-1]))
    s = re.sub(r'^(const|volatile)\s+', '', s)
    s = re.sub(r'\s+(const|volatile)$', '', s).strip()
    s = re.sub(r'^(const|volatile)\s+', '', s)
    if s in INTS:
        return CT('int', name=s, signed=INTS[s][0], size=INTS[s][1])
    if s in REALS:
        return CT('real', name=s)
    if s in ('bool', '_Bool'):
        return CT('bool')
    if s == 'void':
        return CT('void')
    if s.split('::')[-1] in ENUM_NAMES:
        return CT('int', name=s, signed=True, size=4)
    if STRINGS and re.match(r'^(std::)?(__cxx11::)?(basic_string<char\b.*>|string)$', s):
        return CT('int', name='string', signed=True)
    m = re.match(r'^(?:std::)?(?:__cxx11::)?(?:vector|list|deque)<(.*)>$', s)      # sequences
    if m:
        inner = _targs(m.group(1))[0]
        return CT('vector', name=s, elem=_ptype(inner))
    m = re.match(r'^(?:__gnu_cxx::__normal_iterator|std::reverse_iterator)<(.*)>$', s)      # a reverse iterator points into a reversed view
    if m:
        return _ptype(_targs(m.group(1))[0])
    m = re.match(r'^std::array<(.*)>$', s)
    if m:
        inner, n = _targs(m.group(1))[:2]
        return CT('array', elem=_ptype(inner), n=int(re.sub(r'[a-zA-Z]', '', n)))
    m = re.match(r'^(?:std::vector<bool>::reference|std::_Bit_reference)$', s)
    if m:
        return CT('bool')
    return CT('class', name=s)


def _match_depth0(s):
    d = 0
    for i, c in enumerate(s):
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif c == '[' and d == 0: return i
    return 0


def _targs(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c == '<': d += 1
        if c == '>': d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


def sort_of(ct):
    if ct.k == 'int': return 'I'
    if ct.k == 'real': return 'R'
    if ct.k == 'bool': return 'B'
    return None


# =============================================================== memory
class Loc(object):
    __slots__ = ('path', 'idx', 'ct', 'cont')

    def __init__(self, path, idx, ct, cont=None):
        # cont: (index of the container, linear position, dimensions) for an element of a multi-index container
        self.path, self.idx, self.ct, self.cont = path, tuple(idx), ct, cont

    def __repr__(self):
        return 'Loc(%s%s)' % ('.'.join(self.path), list(self.idx) if self.idx else '')

    def field(self, name, ct):
        return Loc(self.path + (name,), self.idx, ct)


class MDims(tuple):
    """dimensions of the container a pointer walks through linearly"""


class Ptr(object):
    """pointer to element `off` of the array at (path, idx); single=True: pointer to the object (path, idx)"""
    __slots__ = ('path', 'idx', 'off', 'ct', 'single', 'dims', 'stride')

    def __init__(self, path, idx, off, ct, single=False, dims=(), stride=None):
        self.path, self.idx, self.off, self.ct, self.single, self.dims = path, tuple(idx), off, ct, single, dims
        self.stride = stride     # element size in bytes when viewed as bytes

    def __repr__(self):
        return 'Ptr(%s%s+%s%s)' % ('.'.join(self.path), list(self.idx), self.off, ' single' if self.single else '')

    def same(self, o):
        return isinstance(o, Ptr) and self.path == o.path and self.idx == o.idx and self.off is o.off and self.single == o.single


class Null(object):
    def __repr__(self): return 'NULL'


NULL = Null()


class FnVal(object):
    def __init__(self, name, node=None):
        self.name, self.node = name, node


class Opaque(object):
    """value of a library object that no property reads"""
    def __init__(self, why): self.why = why
    def __repr__(self): return 'Opaque(%s)' % self.why


class Base(object):
    __slots__ = ('name', 'sort', 'ct')

    def __init__(self, name, sort, ct=None):
        self.name, self.sort, self.ct = name, sort, ct


class Const(object):
    __slots__ = ('val',)

    def __init__(self, val): self.val = val


class Upd(object):
    __slots__ = ('prev', 'params', 'guard', 'addr', 'val')

    def __init__(self, prev, params, guard, addr, val):
        self.prev, self.params, self.guard, self.addr, self.val = prev, tuple(params), guard, tuple(addr), val


class View(object):
    __slots__ = ('base', 'prefix')

    def __init__(self, base, prefix): self.base, self.prefix = base, tuple(prefix)


class IteC(object):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b


class Fn(object):
    """content given by a specification function idx -> term"""
    __slots__ = ('f', 'sort', 'arity')

    def __init__(self, f, sort='R', arity=None): self.f, self.sort, self.arity = f, sort, arity


CONTENTS = (Base, Const, Upd, View, IteC, Fn)


class Flat(object):
    """linear address into a container"""
    pass


class State(object):
    __slots__ = ('mem', 'pc')

    def __init__(self):
        self.mem = {}
        self.pc = TRUE

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        return s


class Out(object):
    """result of executing a statement: any of the four exits may be absent"""
    __slots__ = ('norm', 'brk', 'cont', 'ret')

    def __init__(self, norm=None, brk=None, cont=None, ret=None):
        self.norm, self.brk, self.cont, self.ret = norm, brk or [], cont or [], ret or []


class Obl(object):
    __slots__ = ('kind', 'fn', 'line', 'hyps', 'goal', 'note')

    def __init__(self, kind, fn, line, hyps, goal, note=''):
        self.kind, self.fn, self.line, self.hyps, self.goal, self.note = kind, fn, line, tuple(hyps), goal, note

    def name(self):
        return '%s@%s%s%s' % (self.kind, self.fn, ':%s' % self.line if self.line else '', ' ' + self.note if self.note else '')


# container classes reasoned about through their accessor contracts (proved separately from the class bodies)
class ContainerSpec(object):
    def __init__(self, prefix, arity, dims):
        self.prefix, self.arity, self.dims = prefix, arity, dims


CONTAINERS = {
    'Mat1': ContainerSpec('Mat1', 1, ('c_xlen',)),
    'Mat2': ContainerSpec('Mat2', 2, ('c_xlen', 'c_ylen')),
    'Mat3': ContainerSpec('Mat3', 3, ('c_xlen', 'c_ylen', 'c_zlen')),
    'PsiData': ContainerSpec('PsiData', 4, ('c_ng', 'c_nv', 'c_na', 'c_nc')),
    'PsiBoundData': ContainerSpec('PsiBoundData', 4, ('c_ng', 'c_nv', 'c_na', 'c_ns')),
    'PhiData': ContainerSpec('PhiData', 3, ('c_ng', 'c_nv', 'c_nc')),
}
# storage order: first index fastest (this is part of the contract proved for every class)


def flat_of(idx, dims):
    r = idx[-1]
    for k in range(len(idx) - 2, -1, -1):
        r = T.add(T.mul(r, dims[k]), idx[k])
    return r


class Flattened(object):
    """registry linear index term -> tuple"""
    table = {}


def rebits(v, ct):
    """value of type ct with the bit pattern of v (a double read through an integer type of the same size, or back)"""
    if isinstance(v, T.E) and ct.size == 8 and (ct.k, v.sort) in (('real', 'I'), ('int', 'R')):
        a, b = ('double', 'bits') if ct.k == 'real' else ('bits', 'double')
        if v.op == 'app' and v.info == b + '-of':
            return v.args[0]
        if ct.k == 'int':
            T.NONNEG.add('bits-of')
        return T.app(a + '-of', (v,), 'R' if ct.k == 'real' else 'I')
    return v


def container_of(ct):
    if ct.k != 'class':
        return None
    m = re.match(r'^(\w+)(<.*>)?$', ct.name)
    if m and m.group(1) in CONTAINERS:
        return CONTAINERS[m.group(1)]
    return None


def container_elem(ct):
    m = re.match(r'^(\w+)<(.*)>$', ct.name)
    if m:
        return _ptype(m.group(2))
    return _ptype('double')


class Engine(object):
    def __init__(self, sources, contracts=None, raw=False, models=None, facts=()):
        self.tus = [A.load(s) for s in sources]
        self.contracts = contracts or {}
        self.raw = raw
        self.facts = list(facts)
        self.obls = []
        self.rec = True
        self.frame = 0
        self.fn_stack = []
        self.bind_stack = []
        self.axioms = P.Axioms()
        self.assumed = set()
        self.entered = set()
        self.used_contracts = set()
        self.written = None
        self.line = None
        self.base_sort = {}
        self.qcache = {}
        self.assume_asserts = False
        self.freed = None               # deletions: a list to record them in
        self.events = None
        self.safety = {'index', 'assert', 'div', 'sub', 'pre', 'null'}
        self.trust_in_range = False
        self.this_stack, self.ret_ref, self.aliases, self.refs = [], [], {}, {}
        self.base_arity, self.const_globals, self.const_vals = {}, set(), {}
        self._uid, self._frames, self.heap_size = [0], [0], {}
        self.loop_vars, self.declared, self.loop_cache = [], [], {}
        self.loop_hook = None
        self.throws, self.lib_hook = [], None
        self.byte_regions = None
        self.digits = {}         # digits of a linear index -> (index, radices)
        self.notes = []
        self.const_mem = {}
        self.unsigned_paths = set()
        from . import models as M
        self.models = dict(M.MODELS)
        if models:
            self.models.update(models)
        self.method_models = dict(M.METHODS)
        for tu in self.tus:
            for i, v in tu.ids.items():
                if v.get('kind') == 'EnumDecl' and v.get('name'):
                    ENUM_NAMES.add(v['name'])
        for tu in self.tus:
            for d in tu.ids.values():
                if d.get('kind') == 'EnumConstantDecl':
                    q = d['type']['qualType']
                    ENUM_NAMES.add(q.split('::')[-1])
        _tcache.clear()

    # ------------------------------------------------------------ utilities
    def find(self, qname, nparams=None, pred=None):
        for tu in self.tus:
            fs = tu.find(qname, nparams)
            if pred:
                fs = [f for f in fs if pred(f)]
            if fs:
                return fs[0]
        raise Unsupported('function %s not found' % qname)

    def obl(self, kind, goal, st, note=''):
        if not self.rec or kind not in self.safety and kind in ('index', 'assert', 'div', 'sub', 'null'):
            return
        if goal is TRUE:
            self.trivial = getattr(self, 'trivial', 0) + 1
            return
        fn = self.fn_stack[-1].qname if self.fn_stack else '?'
        self.obls.append(Obl(kind, fn, self.line, self.facts + [st.pc], goal, note))

    def quick(self, goal, st=None, extra=(), timeout=3000):
        """is goal valid under the current facts?"""
        if goal is TRUE:
            return True
        if goal is FALSE and not extra:
            pass
        hyps = tuple(self.facts) + ((st.pc,) if st is not None else ()) + tuple(extra)
        key = (goal, hyps)
        if key in self.qcache:
            return self.qcache[key]
        ok, _, _ = P.valid(goal, hyps, self.axioms, timeout)
        self.qcache[key] = ok
        return ok

    # ------------------------------------------------------------ memory primitives
    def default(self, path, arity, ct):
        s = sort_of(ct)
        name = '.'.join(path)
        if s is None:
            if ct.k == 'ptr':
                return ('ptr', path)
            return Opaque('uninitialised ' + name)
        if ct.k == 'int' and not ct.signed:
            T.NONNEG.add(name)
        if arity == 0:
            return T.var(name, s)
        return Base(name, s, ct)

    def load(self, loc, st):
        ct = loc.ct
        if ct.k == 'ref':
            raise Unsupported('load of reference')
        if ct.k in ('class', 'vector', 'array'):
            if not loc.idx and isinstance(st.mem.get(loc.path), FnVal):
                return st.mem[loc.path]
            return loc
        if self.race is not None:
            self.race.access(loc.path, loc.idx, False, st)
        if not loc.idx:
            v = st.mem.get(loc.path)
            if v is None and loc.path[0] == 'G':
                v = self.const_mem.get(loc.path)
            if v is None:
                v = self.default(loc.path, 0, ct)
                if isinstance(v, tuple):
                    v = Ptr(loc.path + ('*',), (), I(0), ct.elem, single=None)
            if isinstance(v, CONTENTS):
                raise Unsupported('scalar load of array %r' % loc)
            return rebits(v, ct)
        c = st.mem.get(loc.path)
        if c is None and loc.path[0] == 'G':
            c = self.const_mem.get(loc.path)
        if c is None:
            c = self.default(loc.path, len(loc.idx), ct)
            if isinstance(c, tuple):
                return Ptr(loc.path + ('*',), loc.idx, I(0), ct.elem, single=None)
        if isinstance(c, Opaque):
            return c
        if not isinstance(c, CONTENTS):
            raise Unsupported('indexed load of scalar %r' % loc)
        return rebits(self.read(c, loc.idx, st), ct)

    def store(self, loc, val, st):
        ct = loc.ct
        if loc.path[0] == 'REV':
            raise Unsupported('store through a reverse iterator')
        if isinstance(val, FnVal) and not loc.idx:          # (the type of a function pointer may be a typedef)
            self.note_write(loc.path, (), st)
            st.mem[loc.path] = val
            return
        if ct.k in ('class', 'vector', 'array'):
            self.copy_obj(loc, val, st)
            return
        if isinstance(val, T.E):
            s = sort_of(ct)
            if s == 'R' and val.sort == 'I': val = T.to_real(val)
            elif s == 'I' and val.sort == 'B': val = T.b2i(val)
            elif s == 'R' and val.sort == 'B': val = T.to_real(T.b2i(val))
            elif s == 'B' and val.sort != 'B': val = T.ne(val, T.num(0, val.sort))
        self.note_write(loc.path, loc.idx, st)
        if ct.k == 'int' and not ct.signed:
            self.unsigned_paths.add(loc.path)
        if not loc.idx:
            st.mem[loc.path] = val
            return
        c = st.mem.get(loc.path)
        if c is None:
            c = self.default(loc.path, len(loc.idx), ct)
            if isinstance(c, tuple):
                c = Base('.'.join(loc.path), 'P', ct)
        if isinstance(c, Opaque):
            return
        st.mem[loc.path] = Upd(c, (), TRUE, loc.idx, val)

    race = None          # vc.race.Race: records accesses to shared storage inside parallel regions

    def note_write(self, path, idx=(), st=None):
        if self.race is not None:
            self.race.access(path, idx, True, st)
        if self.written is not None:
            for w in self.written:
                w.add(path)

    # reading from array contents ------------------------------------------------
    def read(self, c, idx, st):
        while True:
            if isinstance(c, Base):
                if c.sort == 'P':
                    raise Unsupported('read of pointer array')
                return T.app(c.name, idx, c.sort)
            if isinstance(c, Const):
                return c.val
            if isinstance(c, Fn):
                return c.f(idx)
            if isinstance(c, View):
                idx = c.prefix + tuple(idx)
                c = c.base
                continue
            if isinstance(c, IteC):
                a, b = self.read(c.a, idx, st), self.read(c.b, idx, st)
                return self.vite(c.c, a, b)
            # Upd
            m, val = self.match(c, idx, st)
            if m is FALSE:
                c = c.prev
                continue
            if m is TRUE:
                return val
            return self.vite(m, val, self.read(c.prev, idx, st))

    decide = None
    on_div = None

    def vite(self, c, a, b):
        if c is TRUE: return a
        if c is FALSE: return b
        if isinstance(a, T.E) and isinstance(b, T.E):
            return T.ite(c, a, b)
        if a is b: return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.path == b.path and a.idx == b.idx:
            return Ptr(a.path, a.idx, T.ite(c, a.off, b.off), a.ct, a.single, a.dims, a.stride)
        if isinstance(a, Opaque): return a
        if isinstance(b, Opaque): return b
        if isinstance(a, Ptr) and isinstance(b, Null): return a
        if isinstance(b, Ptr) and isinstance(a, Null): return b
        raise Unsupported('merge of values %r %r' % (a, b))

    def match(self, u, idx, st):
        """condition under which update u defines element idx, and the value"""
        addr, idx = self.norm_addr(u.addr, idx)
        if not u.params:
            m = u.guard
            for a, q in zip(addr, idx):
                m = T.and_(m, T.eq(a, q))
                if m is FALSE:
                    return FALSE, None
            if m is not TRUE and m is not FALSE:
                # resolve undecided address comparisons through the current facts
                if any(not isinstance(q, T.E) for q in idx):
                    raise Unsupported('address')
            return m, u.val
        sub, rest = unify(u.params, addr, idx)
        if sub is None and len(addr) > 1:
            x, dims = self.deflat(addr)
            if x is not None:
                sub, rest = unify(u.params, (x,), (flat_of(idx, dims + [None]),))
                if sub is not None:
                    rest = rest + [T.and_(T.ge0(i), T.lt(i, d)) for i, d in zip(idx, dims)]
        if sub is None:
            # definitely no hit?
            cond = self.hit_formula(u, addr, idx)
            if cond is FALSE or self.quick(T.not_(cond), st):
                return FALSE, None
            raise Unsupported('cannot resolve element %s of a parameterised update at %s' % (idx, addr))
        g = T.subst(u.guard, sub)
        lows = [T.ge0(sub[p]) for p in u.params if p in sub and p.info in T.NONNEG and not T.known_nonneg(sub[p])]
        m = T.and_(g, *(rest + lows))
        if m is FALSE:
            return FALSE, None
        v = u.val
        if isinstance(v, T.E):
            v = T.subst(v, sub)
        elif isinstance(v, Ptr):
            v = Ptr(v.path, tuple(T.subst(i, sub) for i in v.idx), T.subst(v.off, sub), v.ct, v.single, v.dims, v.stride)
        return m, v

    def deflat(self, addr):
        """addr = digits of a linear index x in mixed radix dims -> (x, dims)"""
        cur, dims = addr[-1], []
        for _ in range(len(addr) - 1):
            if cur.op != 'idiv':
                return None, None
            dims.insert(0, cur.args[1])
            cur = cur.args[0]
        if self.unflatten(cur, dims + [None]) == tuple(addr):
            return cur, dims
        return None, None

    def norm_addr(self, a, b):
        return a, b

    def hit_formula(self, u, addr, idx):
        ren = {}
        for p in u.params:
            q = T.fresh(p.info.split('!')[0], 'I')
            if p.info in T.NONNEG:
                T.NONNEG.add(q.info)
            ren[p] = q
        f = T.subst(u.guard, ren)
        for a, q in zip(addr, idx):
            f = T.and_(f, T.eq(T.subst(a, ren), q))
        return f

    # objects -----------------------------------------------------------------
    def sub_paths(self, path, st):
        n = len(path)
        return [p for p in st.mem if p[:n] == path]

    def copy_obj(self, dst, src, st):
        """dst = src for class / vector / array objects (value copy of all contents)"""
        if isinstance(src, Opaque):
            self.note_write(dst.path, dst.idx, st)
            for p in self.sub_paths(dst.path, st):
                del st.mem[p]
            return
        if not isinstance(src, Loc):
            raise Unsupported('object copy from %r' % (src,))
        if src.path == dst.path and src.idx == dst.idx:
            return
        if self.race is not None:
            self.race.access(src.path, src.idx, False, st)
        self.ensure_obj(src, st)
        n = len(src.path)
        if dst.idx:
            # element of an array of objects
            for p in list(self.sub_paths(src.path, st)):
                q = dst.path + p[n:]
                self.note_write(q, dst.idx, st)
                v = st.mem[p]
                k = self.arity_extra(p, src, st)
                old = st.mem.get(q)
                if k == 0:
                    val = self.read(v, src.idx, st) if src.idx else v
                    if old is None:
                        old = Base('.'.join(q), val.sort if isinstance(val, T.E) else 'P')
                    st.mem[q] = Upd(old, (), TRUE, dst.idx, val)
                else:
                    ps = tuple(self.nonneg_fresh('k') for _ in range(k))
                    val = self.read(v, src.idx + ps, st)
                    if old is None:
                        old = Base('.'.join(q), val.sort if isinstance(val, T.E) else 'P')
                    st.mem[q] = Upd(old, ps, TRUE, dst.idx + ps, val)
            return
        for p in self.sub_paths(dst.path, st):
            del st.mem[p]
        for p in list(self.sub_paths(src.path, st)):
            v = st.mem[p]
            q = dst.path + p[n:]
            self.note_write(q, dst.idx, st)
            if src.idx:
                k = self.arity_extra(p, src, st)
                if k == 0:
                    st.mem[q] = self.read(v, src.idx, st)
                else:
                    st.mem[q] = View(v, src.idx)
            else:
                st.mem[q] = v
        self.note_write(dst.path, dst.idx, st)

    def nonneg_fresh(self, n):
        v = T.fresh(n, 'I')
        T.NONNEG.add(v.info)
        return v

    def arity_extra(self, path, src, st):
        try:
            return self.arity_of(path, st) - len(src.idx)
        except Unsupported:
            k, ct = 0, src.ct
            for c in path[len(src.path):]:       # from the type: one index for each level of vectors
                if ct is None or ct.k != 'vector' or c not in ('#e', '#n'):
                    raise
                k += c == '#e'
                ct = ct.elem if c == '#e' else None
            return k

    ARITY = None

    def arity_of(self, path, st):
        v = st.mem[path]
        if not isinstance(v, CONTENTS):
            return 0
        return self.content_arity(v)

    def content_arity(self, v):
        while True:
            if isinstance(v, Upd):
                return len(v.addr)
            if isinstance(v, View):
                return self.content_arity(v.base) - len(v.prefix)
            if isinstance(v, IteC):
                v = v.a
                continue
            if isinstance(v, Fn) and v.arity is not None:
                return v.arity
            if isinstance(v, Base) and v.ct is not None and v.name in self.base_arity:
                return self.base_arity[v.name]
            raise Unsupported('arity of content %r' % (v.__class__.__name__))

    base_arity = {}

    def ensure_obj(self, src, st):
        """materialise the default contents of an untouched object so that it can be copied"""
        self._ensure(src.path, src.idx, src.ct, st, len(src.idx))

    def _ensure(self, path, idx, ct, st, arity):
        if ct.k in ('int', 'real', 'bool'):
            if path not in st.mem:
                v = self.default(path, arity, ct)
                st.mem[path] = v
            v = st.mem[path]
            if isinstance(v, Base):
                self.base_arity[v.name] = arity
        elif ct.k == 'array':
            self._ensure(path, idx, ct.elem, st, arity + 1)
        elif ct.k == 'vector':
            self._ensure(path + ('#n',), idx, _ptype('size_t'), st, arity)
            self._ensure(path + ('#e',), idx, ct.elem, st, arity + 1)
        elif ct.k == 'class':
            cs = container_of(ct)
            if cs and not self.raw:
                for d in cs.dims:
                    self._ensure(path + (d,), idx, _ptype('size_t'), st, arity)
                self._ensure(path + ('#e',), idx, container_elem(ct), st, arity + cs.arity)
                return
            r = self.record(ct.name)
            if r is None:
                return
            for name, t in r.fields:
                self._ensure(path + (name,), idx, ptype(t), st, arity)

    def record(self, name):
        name = name.replace('TYCHO_VERIF::', '')
        for tu in self.tus:
            if name in tu.records:
                return tu.records[name]
            for q, r in tu.records.items():
                if q.split('::')[-1] == name.split('::')[-1] and '<' not in name:
                    return r
                if '<' in name and q.replace(' ', '') == name.replace(' ', ''):
                    return r
        return None

    def havoc_obj(self, loc, st, tag='hv'):
        """arbitrary contents"""
        for p in self.sub_paths(loc.path, st):
            del st.mem[p]

    # ------------------------------------------------------------ merging
    def merge(self, c, s1, s2, pc=None):
        """state that is s1 when c else s2"""
        if s1 is None: return s2
        if s2 is None: return s1
        if c is TRUE: return s1
        if c is FALSE: return s2
        out = State()
        out.pc = T.or_(s1.pc, s2.pc) if pc is None else pc
        m1, m2 = s1.mem, s2.mem
        res = {}
        for p in m1.keys() | m2.keys():
            a, b = m1.get(p), m2.get(p)
            if a is b:
                res[p] = a
                continue
            if a is None or b is None:
                # defined on one side only
                x = a if a is not None else b
                if p[0].startswith('L') and not self.live_frame(p[0]):
                    continue
                if isinstance(x, CONTENTS):
                    base = self.root_base(x)
                    if base is None:
                        res[p] = x
                        continue
                    a = a if a is not None else base
                    b = b if b is not None else base
                elif isinstance(x, T.E):
                    d = T.var('.'.join(p), x.sort)
                    a = a if a is not None else d
                    b = b if b is not None else d
                else:
                    res[p] = x
                    continue
            res[p] = self.merge_val(c, a, b, p)
        out.mem = res
        return out

    def live_frame(self, f):
        return True

    def root_base(self, x):
        while isinstance(x, Upd):
            x = x.prev
        return x if isinstance(x, Base) else None

    def merge_val(self, c, a, b, p=None):
        if isinstance(a, CONTENTS) or isinstance(b, CONTENTS):
            if not (isinstance(a, CONTENTS) and isinstance(b, CONTENTS)):
                raise Unsupported('merge of array and scalar %s' % (p,))
            # common ancestor
            anc = set()
            x = a
            while True:
                anc.add(id(x))
                if isinstance(x, Upd): x = x.prev
                else: break
            x = b
            lb = []
            while id(x) not in anc and isinstance(x, Upd):
                lb.append(x)
                x = x.prev
            if id(x) in anc or (isinstance(x, Base) and self.root_base(a) is not None and self.root_base(a).name == x.name
                                and self.root_base(a).sort == x.sort):
                la = []
                y = a
                while y is not x and isinstance(y, Upd):
                    la.append(y)
                    y = y.prev
                cur = y
                for u in reversed(la):
                    cur = Upd(cur, u.params, T.and_(c, u.guard), u.addr, u.val)
                nc = T.not_(c)
                for u in reversed(lb):
                    cur = Upd(cur, u.params, T.and_(nc, u.guard), u.addr, u.val)
                return cur
            return IteC(c, a, b)
        try:
            return self.vite(c, a, b)
        except Unsupported:
            return Opaque('merge of incompatible values')

    def merge_list(self, sts):
        """merge states with mutually exclusive path conditions"""
        sts = [s for s in sts if s is not None and s.pc is not FALSE]
        if not sts:
            return None
        cur = sts[-1]
        for s in reversed(sts[:-1]):
            cur = self.merge(self.sep_cond(s.pc, cur.pc), s, cur)
        return cur

    def sep_cond(self, a, b):
        sa = set(a.args) if a.op == 'and' else {a}
        sb = set(b.args) if b.op == 'and' else {b}
        d = sa - sb
        if not d:
            return T.not_(T.and_(*(sb - sa)))
        r = T.and_(*d)
        return r

    # ------------------------------------------------------------ statements
    def run(self, n, st):
        k = n.get('kind')
        ln = A.line_of(n)
        if ln:
            self.line = ln
        m = getattr(self, 's_' + k, None)
        if m is None:
            if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal') or k in ('ExprWithCleanups',):
                self.ev(n, st)
                if st.pc is FALSE and self.throws:
                    return Out()
                return Out(norm=st)
            if k.startswith('OMP'):
                if self.race is not None:
                    return self.race.directive(n, st)
                raise Unsupported('OpenMP node ' + k)
            raise Unsupported('statement ' + k)
        return m(n, st)

    def s_CompoundStmt(self, n, st):
        out = Out(norm=st)
        for c in n.get('inner', []):
            if out.norm is None:
                break
            o = self.run(c, out.norm)
            out.norm = o.norm
            out.brk += o.brk
            out.cont += o.cont
            out.ret += o.ret
        return out

    def s_NullStmt(self, n, st): return Out(norm=st)

    def s_DeclStmt(self, n, st):
        for d in n.get('inner', []):
            if d['kind'] == 'VarDecl':
                self.declare(d, st)
        return Out(norm=st)

    def e_CXXThrowExpr(self, n, st):
        from .text import throw
        return throw(self, n, st)

    def s_CXXTryStmt(self, n, st):
        from .text import try_
        return try_(self, n, st)

    def s_AttributedStmt(self, n, st):
        return self.run(n['inner'][-1], st)

    def s_ReturnStmt(self, n, st):
        v = None
        inner = n.get('inner', [])
        if inner:
            if self.fn_stack and self.ret_ref[-1]:
                v = self.lv(inner[0], st)
            else:
                v = self.ev(inner[0], st)
                if isinstance(v, Loc):
                    tmp = self.temp('ret', v.ct)
                    self.copy_obj(tmp, v, st)
                    v = tmp
        return Out(ret=[(st, v)])

    _uid = [0]

    def uid(self):
        self._uid[0] += 1
        return self._uid[0]

    def s_BreakStmt(self, n, st): return Out(brk=[st])
    def s_ContinueStmt(self, n, st): return Out(cont=[st])

    def s_IfStmt(self, n, st):
        inner = list(n.get('inner', []))
        if n.get('hasInit') or n.get('hasVar'):
            o = self.run(inner[0], st)
            st = o.norm
            inner = inner[1:]
        c = self.evb(inner[0], st)
        # assertion macros:  if (!(c)) Assert::my_assert(...)
        if len(inner) == 2 and self.is_assert_call(inner[1]):
            good = T.not_(c)
            if self.assume_asserts:
                self.assumed.add('assertions in the code are assumed')
            else:
                self.obl('assert', good, st)
            st.pc = T.and_(st.pc, good)
            if st.pc is FALSE:
                return Out(norm=None)
            return Out(norm=st)
        if self.decide is not None and c is not TRUE and c is not FALSE:
            d = self.decide(c)
            st.pc = T.and_(st.pc, c if d else T.not_(c))
            c = TRUE if d else FALSE
        if c is TRUE:
            return self.run(inner[1], st)
        if c is FALSE:
            return self.run(inner[2], st) if len(inner) > 2 else Out(norm=st)
        s1, s2 = st, st.copy()
        pc0, p1, p2 = st.pc, T.and_(st.pc, c), T.and_(st.pc, T.not_(c))
        s1.pc, s2.pc = p1, p2
        o1 = self.run(inner[1], s1) if s1.pc is not FALSE else Out()
        o2 = (self.run(inner[2], s2) if len(inner) > 2 else Out(norm=s2)) if s2.pc is not FALSE else Out()
        if o1.norm is not None and o2.norm is not None:
            # neither branch learns anything: the path condition is the one before
            norm = self.merge(c, o1.norm, o2.norm, pc0 if o1.norm.pc is p1 and o2.norm.pc is p2 else None)
        else:
            norm = o1.norm if o1.norm is not None else o2.norm
        return Out(norm, o1.brk + o2.brk, o1.cont + o2.cont, o1.ret + o2.ret)

    def is_assert_call(self, n):
        while n.get('kind') in ('CompoundStmt', 'ExprWithCleanups') and len(n.get('inner', [])) == 1:
            n = n['inner'][0]
        if n.get('kind') == 'CallExpr':
            nm = self.callee_name(n)
            return nm in ('my_assert', 'my_insist', 'abort', 'exit', 'tycho_abort')
        return False

    def callee_name(self, n):
        x = n['inner'][0]
        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            x = x['inner'][0]
        if x.get('kind') == 'DeclRefExpr':
            return x['referencedDecl'].get('name')
        return None

    def s_SwitchStmt(self, n, st):
        inner = n['inner']
        v = self.ev(inner[0], st)
        body = inner[-1]
        # flatten: list of (labels, stmt)
        seq = []

        def flat(s, labels):
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    labels = labels + [self.ev(s['inner'][0], st)]
                    s = s['inner'][-1]
                else:
                    labels = labels + ['default']
                    s = s['inner'][-1]
            seq.append((labels, s))
        for c in body.get('inner', []):
            flat(c, [])
        entries = [(l, i) for i, (ls, _) in enumerate(seq) for l in ls]
        consts = [l for l, _ in entries if l != 'default']
        outs = Out()
        norms = []
        for l, i in entries:
            if l == 'default':
                c = T.and_(*[T.ne(v, x) for x in consts])
            else:
                c = T.eq(v, l)
            if c is FALSE:
                continue
            s = st.copy()
            s.pc = T.and_(s.pc, c)
            if s.pc is FALSE:
                continue
            cur = s
            for _, stmt in seq[i:]:
                o = self.run(stmt, cur)
                outs.cont += o.cont
                outs.ret += o.ret
                norms += o.brk
                cur = o.norm
                if cur is None:
                    break
            if cur is not None:
                norms.append(cur)
        if not any(l == 'default' for l, _ in entries):
            c = T.and_(*[T.ne(v, x) for x in consts])
            s = st.copy()
            s.pc = T.and_(s.pc, c)
            if s.pc is not FALSE:
                norms.append(s)
        outs.norm = self.merge_list(norms)
        return outs

    # loops -------------------------------------------------------------------
    def s_ForStmt(self, n, st):
        init, _cv, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        if init.get('kind'):
            o = self.run(init, st)
            st = o.norm
        from .loops import exec_loop
        return exec_loop(self, st,
                         (lambda s: self.evb(cond, s)) if cond.get('kind') else (lambda s: TRUE),
                         lambda s: self.run(body, s),
                         (lambda s: self.ev(inc, s)) if inc.get('kind') else None, False, n)

    def s_WhileStmt(self, n, st):
        inner = n['inner']
        cond, body = inner[-2], inner[-1]
        from .loops import exec_loop
        return exec_loop(self, st, lambda s: self.evb(cond, s), lambda s: self.run(body, s), None, False, n)

    def s_DoStmt(self, n, st):
        body, cond = n['inner'][0], n['inner'][1]
        from .loops import exec_loop
        o1 = self.run(body, st)
        nxt = self.merge_list(([o1.norm] if o1.norm is not None else []) + o1.cont)
        if nxt is None:
            return Out(self.merge_list(o1.brk), ret=o1.ret)
        o = exec_loop(self, nxt, lambda s: self.evb(cond, s), lambda s: self.run(body, s), None, False, n)
        o.ret = o1.ret + o.ret
        if o1.brk:
            o.norm = self.merge_list(o1.brk + ([o.norm] if o.norm is not None else []))
        return o

    def s_CXXForRangeStmt(self, n, st):
        inner = n['inner']
        rng = [c for c in inner if c.get('kind') == 'DeclStmt']
        rdecl = rng[0]['inner'][0]
        vdecl = rng[-1]['inner'][0]
        body = inner[-1]
        rinit = rdecl['inner'][0]
        rl = self.lv(rinit, st)
        if rl.ct.k == 'vector':
            size = self.load(Loc(rl.path + ('#n',), rl.idx, _ptype('size_t')), st)
            elem = lambda i: Loc(rl.path + ('#e',), rl.idx + (i,), rl.ct.elem)
        elif rl.ct.k == 'array':
            size = I(rl.ct.n)
            elem = lambda i: Loc(rl.path, rl.idx + (i,), rl.ct.elem)
        elif rl.ct.k == 'class' and re.match(r'^(std::)?set<', rl.ct.name) and getattr(self, 'set_hook', None) is not None:
            size = self.set_hook.size(self, rl, st)
            elem = None
        else:
            raise Unsupported('range-for over %r' % rl.ct)
        it = self.temp('it', _ptype('size_t'))
        st.mem[it.path] = I(0)
        vt = ptype(vdecl['type'])

        def body_fn(s):
            i = self.load(it, s)
            if elem is None:
                t = vt.elem if vt.k == 'ref' else vt
                self.binds()[vdecl['id']] = vl = self.local(vdecl, t)
                self.store(vl, self.set_hook.elem(self, rl, i, s), s)
            elif vt.k == 'ref':
                self.binds()[vdecl['id']] = elem(i)
            else:
                self.binds()[vdecl['id']] = vl = self.local(vdecl, vt)
                self.store(vl, self.load(elem(i), s), s)
            return self.run(body, s)

        def inc(s):
            self.store(it, T.add(self.load(it, s), I(1)), s)
        from .loops import exec_loop
        return exec_loop(self, st, lambda s: T.lt(self.load(it, s), size), body_fn, inc, False, n)

    # declarations --------------------------------------------------------------
    def binds(self):
        return self.bind_stack[-1]

    def temp(self, kind, ct):
        l = Loc(('L%d' % self.frame, '%s@%d' % (kind, self.uid())), (), ct)
        for d in self.declared:
            d.add(l.path)
        return l

    def local(self, d, ct):
        return Loc(('L%d' % self.frame, d.get('name', '_') + '@' + d['id'][-4:]), (), ct)

    def declare(self, d, st):
        ct = ptype(d['type'])
        init = None
        for c in d.get('inner', []):
            if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal')) or c.get('kind') in ('ExprWithCleanups',):
                init = c
        if ct.k == 'ref':
            b = self.lv(init, st, allow_rvalue=True)
            self.binds()[d['id']] = b
            return
        loc = self.local(d, ct)
        if d.get('storageClass') == 'static' and init is not None:
            loc = Loc(('S', d['name'] + '@' + d['id'][-4:]), (), ct)
        self.binds()[d['id']] = loc
        for p in self.sub_paths(loc.path, st):
            del st.mem[p]
        self.note_write(loc.path)
        for dset in self.declared:
            dset.add(loc.path)
        if ct.k == 'int' and not ct.signed:
            self.unsigned_paths.add(loc.path)
        if init is None:
            if ct.k == 'class':
                self.default_init(loc, st)
            return
        self.init(loc, init, st)

    def init(self, loc, n, st):
        ct = loc.ct
        while n['kind'] in ('ExprWithCleanups', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr') or \
                (n['kind'] == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'ConstructorConversion')):
            n = n['inner'][0]
        k = n['kind']
        if k == 'InitListExpr':
            self.init_list(loc, n, st)
        elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and ct.k == 'ptr':
            if n.get('inner'):
                v = self.ev(n['inner'][0], st)
                self.store(loc, self.load(v, st) if isinstance(v, Loc) else v, st)
        elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            self.construct(loc, n, st)
        elif ct.k == 'array' and k == 'StringLiteral':
            s = n.get('value', '""')
            try:
                import json
                txt = json.loads(s)
            except Exception:
                txt = s.strip('"')
            st.mem[loc.path] = Const(I(0))
            c = st.mem[loc.path]
            for i, ch in enumerate(txt):
                c = Upd(c, (), TRUE, loc.idx + (I(i),), I(ord(ch)))
            st.mem[loc.path] = c
            self.note_write(loc.path)
        elif ct.k == 'ref':
            raise Unsupported('reference init')
        else:
            v = self.ev(n, st)
            self.store(loc, v, st)

    def init_list(self, loc, n, st):
        ct = loc.ct
        items = n.get('inner', [])
        filler = n.get('array_filler')
        if ct.k == 'array':
            if filler is not None:
                items = [x for x in filler if x.get('kind') not in ('ImplicitValueInitExpr',)]
                self.zero(loc, st)
            for i, x in enumerate(items):
                if x.get('kind') == 'ImplicitValueInitExpr':
                    self.zero(Loc(loc.path, loc.idx + (I(i),), ct.elem), st)
                else:
                    self.init(Loc(loc.path, loc.idx + (I(i),), ct.elem), x, st)
        elif ct.k == 'class':
            r = self.record(ct.name)
            if r is None:
                raise Unsupported('init list of ' + ct.name)
            for (name, t), x in zip(r.fields, items):
                if x.get('kind') == 'ImplicitValueInitExpr':
                    self.zero(Loc(loc.path + (name,), loc.idx, ptype(t)), st)
                else:
                    self.init(Loc(loc.path + (name,), loc.idx, ptype(t)), x, st)
        elif ct.k == 'vector':
            for i, x in enumerate(items):
                self.init(Loc(loc.path + ('#e',), loc.idx + (I(i),), ct.elem), x, st)
            self.store(Loc(loc.path + ('#n',), loc.idx, _ptype('size_t')), I(len(items)), st)
        elif len(items) == 1:
            self.init(loc, items[0], st)
        elif not items:
            self.zero(loc, st)
        else:
            raise Unsupported('init list')

    def zero_val(self, ct):
        if ct.k == 'int': return I(0)
        if ct.k == 'real': return R(0)
        if ct.k == 'bool': return FALSE
        if ct.k == 'ptr': return NULL
        return None

    def zero(self, loc, st):
        """value-initialise"""
        ct = loc.ct
        z = self.zero_val(ct)
        if z is not None:
            if loc.idx:
                self.store(loc, z, st)
            else:
                self.store(loc, z, st)
        elif ct.k == 'array':
            dims = []
            e = ct
            while e.k == 'array':
                dims.append(e.n)
                e = e.elem
            z = self.zero_val(e)
            if z is None:
                raise Unsupported('zero of array of objects')
            if not loc.idx:
                st.mem[loc.path] = Const(z)
                self.note_write(loc.path, loc.idx, st)
                return
            ps = tuple(self.nonneg_fresh('z') for _ in dims)
            g = T.and_(*[T.lt(p, I(d)) for p, d in zip(ps, dims)])
            c = st.mem.get(loc.path) or self.default(loc.path, len(loc.idx) + len(ps), e)
            st.mem[loc.path] = Upd(c, ps, g, loc.idx + ps, z)
            self.note_write(loc.path, loc.idx, st)
        elif ct.k == 'vector':
            self.store(Loc(loc.path + ('#n',), loc.idx, _ptype('size_t')), I(0), st)
        elif ct.k == 'class':
            r = self.record(ct.name)
            if r is None:
                return
            for name, t in r.fields:
                self.zero(Loc(loc.path + (name,), loc.idx, ptype(t)), st)
        else:
            raise Unsupported('zero ' + repr(ct))

    def default_init(self, loc, st):
        pass

    # container helper: set dims and constant contents
    def container_resize(self, loc, dims, st, fill=None):
        cs = container_of(loc.ct)
        el = container_elem(loc.ct)
        for d, v in zip(cs.dims, dims):
            self.store(Loc(loc.path + (d,), loc.idx, _ptype('size_t')), v, st)
        self.fill(loc, el, cs.arity, st, fill)

    def fill(self, loc, el, arity, st, fill=None):
        z = fill if fill is not None else self.zero_val(el)
        p = loc.path + ('#e',)
        if z is None:
            # vectors of containers: element sizes become zero
            if el.k == 'vector':
                p = p + ('#n',)
                z = I(0)
            else:
                for q in self.sub_paths(p, st):
                    del st.mem[q]
                self.note_write(p, loc.idx, st)
                return
        self.note_write(p, loc.idx, st)
        if not loc.idx:
            st.mem[p] = Const(z)
        else:
            ps = tuple(self.nonneg_fresh('z') for _ in range(arity))
            c = st.mem.get(p)
            if c is None:
                c = Base('.'.join(p), z.sort)
            st.mem[p] = Upd(c, ps, TRUE, loc.idx + ps, z)

    def construct(self, loc, n, st):
        ct = loc.ct
        if ct.k == 'int' and ct.name == 'string':
            from .text import value
            self.store(loc, value(self, n, st), st)
            return
        args = [a for a in n.get('inner', []) if a.get('kind') != 'CXXDefaultArgExpr']
        if ct.k == 'array':
            return
        if ct.k == 'vector':
            from .models import vector_construct
            return vector_construct(self, loc, args, st)
        cs = container_of(ct)
        if cs and not self.raw:
            if len(args) == 1 and ptype(args[0]['type']).k == 'class' and container_of(ptype(args[0]['type'])):
                self.copy_obj(loc, self.ev(args[0], st), st)
                return
            if cs.prefix.startswith('Mat'):
                if not args:
                    self.container_resize(loc, [I(0)] * cs.arity, st)
                else:
                    self.container_resize(loc, [self.ev(a, st) for a in args], st)
                return
            self.construct_phase_space(loc, cs, args, st)
            return
        key = 'ctor:' + ct.name
        if key in self.contracts:
            return self.contracts[key](self, loc, [self.ev(a, st) for a in args], st)
        from .models import CTORS
        for pat, f in CTORS:
            if re.match(pat, ct.name):
                return f(self, loc, args, st)
        f = self.find_ctor(ct, n, len(args))
        if f is None:
            # implicit copy/move constructor, or trivial default constructor
            if len(args) == 1:
                v = self.ev(args[0], st)
                if isinstance(v, Loc):
                    self.copy_obj(loc, v, st)
                    return
            if not args:
                return
            raise Unsupported('constructor of ' + ct.name)
        self.call_func(f, args, st, this=loc)

    def construct_phase_space(self, loc, cs, args, st):
        G = lambda g: self.load(Loc(('G', g), (), _ptype('uint64_t')), st)
        dims = [G('g_nGroups'), I(3) if cs.prefix == 'PsiBoundData' else I(4)]
        if cs.prefix in ('PsiData', 'PsiBoundData'):
            dims.append(G('g_nAngles'))
        if cs.prefix == 'PsiBoundData':
            mesh = ('G', 'g_tychoMesh', '*')
            dims.append(self.load(Loc(mesh + ('c_nSides',), (), _ptype('uint64_t')), st))
        else:
            dims.append(G('g_nCells'))
        if not args:
            self.container_resize(loc, dims, st, R(0))
            return
        # view of caller-owned raw storage
        p = self.ev(args[0], st)
        if not isinstance(p, Ptr):
            raise Unsupported('PhiData over %r' % (p,))
        for d, v in zip(cs.dims, dims):
            self.store(Loc(loc.path + (d,), loc.idx, _ptype('size_t')), v, st)
        self.aliases[loc.path] = p

    aliases = {}

    def find_ctor(self, ct, n, nargs):
        name = ct.name.split('<')[0].split('::')[-1]
        cands = []
        for tu in self.tus:
            for q, fs in tu.funcs.items():
                parts = q.split('::')
                if len(parts) >= 2 and fs[0].kind == 'CXXConstructorDecl' and \
                        ('::'.join(parts[:-1]) == ct.name or parts[-2] == ct.name.split('::')[-1]):
                    cands += [f for f in fs if len(f.params) >= nargs and not (f.node.get('isImplicit') and len(f.params) == 1)]
            if cands:
                break
        want = n.get('ctorType', {}).get('qualType')
        for f in cands:
            if want and f.sig().replace('TYCHO_VERIF::', '') == want.replace('TYCHO_VERIF::', ''):
                return f
        # an implicit copy constructor must not match a user constructor
        for f in cands:
            if len(f.params) == nargs and not (nargs == 1 and want and '&' in want and '&' not in f.sig()):
                return f
        return None

    # ------------------------------------------------------------ calls
    ret_ref = []

    def call_func(self, f, argnodes, st, this=None, argvals=None):
        """enter the body of a repository function"""
        if f.body is None:
            raise Unsupported('no body for ' + f.qname)
        if len(self.fn_stack) > 40:
            raise Unsupported('recursion')
        self.entered.add(f.qname)
        frame = self.frame
        binds = {}
        saved_line = self.line
        # evaluate arguments in the caller
        newframe = self.new_frame()
        for i, p in enumerate(f.params):
            pt = ptype(p['type'])
            if argvals is not None and i < len(argvals):
                v = argvals[i]
                if isinstance(v, Loc) and (pt.k == 'ref'):
                    binds[p['id']] = v
                    continue
                loc = Loc(('L%d' % newframe, p.get('name', '_') + '@' + p['id'][-4:]), (), pt)
                binds[p['id']] = loc
                self.store(loc, v, st)
                continue
            if argnodes is not None and i < len(argnodes):
                a = argnodes[i]
            else:
                a = None
            if a is None or a['kind'] == 'CXXDefaultArgExpr':
                a = None
                for c in p.get('inner', []):
                    a = c
                if a is None:
                    # default argument lives on an earlier declaration
                    a = self.default_arg(f, i)
                if a is None:
                    raise Unsupported('missing argument')
            if pt.k == 'ref':
                binds[p['id']] = self.lv(a, st, allow_rvalue=True)
            else:
                loc = Loc(('L%d' % newframe, p.get('name', '_') + '@' + p['id'][-4:]), (), pt)
                if pt.k == 'int' and not pt.signed:
                    self.unsigned_paths.add(loc.path)
                for q in self.sub_paths(loc.path, st):
                    del st.mem[q]
                if pt.k in ('class', 'vector', 'array'):
                    self.init(loc, a, st)
                else:
                    self.store(loc, self.ev(a, st), st)
                binds[p['id']] = loc
        self.bind_stack.append(binds)
        self.this_stack.append(this)
        self.fn_stack.append(f)
        self.frame = newframe
        rt = f.sig().split('(')[0].strip()
        self.ret_ref.append(rt.endswith('&'))
        try:
            # constructor initialisers
            for ci in f.inits:
                self.ctor_init(ci, this, st)
            pc0 = st.pc
            o = self.run(f.body, st)
        finally:
            self.bind_stack.pop()
            self.this_stack.pop()
            self.fn_stack.pop()
            self.ret_ref.pop()
            self.frame = frame
            self.line = saved_line
        sts = list(o.ret)
        if o.norm is not None:
            sts.append((o.norm, None))
        if not sts:
            # function never returns normally
            st.pc = FALSE
            return None
        res_st, res_v = sts[-1]
        for s, v in reversed(sts[:-1]):
            if s.pc is FALSE:
                continue
            if res_st.pc is FALSE:
                res_st, res_v = s, v
                continue
            c = self.sep_cond(s.pc, res_st.pc)
            if isinstance(v, Loc) and isinstance(res_v, Loc):
                if self.fn_returns_ref(f):
                    if v.path == res_v.path and len(v.idx) == len(res_v.idx):
                        nv = Loc(v.path, tuple(T.ite(c, a, b) for a, b in zip(v.idx, res_v.idx)), v.ct)
                    else:
                        raise Unsupported('reference result depends on path')
                else:
                    # class values: copy into a common temporary before merging
                    tmp = self.temp('rv', v.ct)
                    self.copy_obj(tmp, v, s)
                    self.copy_obj(tmp, res_v, res_st)
                    nv = tmp
            elif v is None or res_v is None:
                nv = v if v is not None else res_v
            else:
                nv = self.vite(c, v, res_v)
            res_st = self.merge(c, s, res_st)
            res_v = nv
        st.mem = res_st.mem
        st.pc = res_st.pc
        # forget callee locals (except a returned temporary)
        keep = res_v.path if isinstance(res_v, Loc) else None
        fr = 'L%d' % newframe
        for p in [p for p in st.mem if p[0] == fr]:
            if keep is not None and p[:len(keep)] == keep:
                continue
            if isinstance(res_v, Ptr) and p[:len(res_v.path)] == res_v.path:
                continue
            if not self.escapes(p, st):
                del st.mem[p]
        return res_v

    def escapes(self, p, st):
        return False

    def fn_returns_ref(self, f):
        return f.sig().split('(')[0].strip().endswith('&')

    _frames = [0]

    def new_frame(self):
        self._frames[0] += 1
        return self._frames[0]

    this_stack = []

    def default_arg(self, f, i):
        for tu in self.tus:
            for g in tu.by_id.values():
                if g.qname == f.qname and len(g.params) == len(f.params):
                    for c in g.params[i].get('inner', []):
                        return c
        return None

    def ctor_init(self, ci, this, st):
        any_ = ci.get('anyInit')
        inner = ci.get('inner', [])
        if any_ is None:
            return      # base class
        name = any_['name']
        ct = ptype(any_['type'])
        loc = this.field(name, ct)
        if not inner:
            return
        if ct.k == 'ref':
            self.refs[(loc.path)] = self.lv(inner[0], st, allow_rvalue=True)
            return
        x = inner[0]
        if x.get('kind') == 'CXXDefaultInitExpr':
            return
        self.init(loc, x, st)

    refs = {}

    # ------------------------------------------------------------ expressions
    def evb(self, n, st):
        v = self.ev(n, st)
        if isinstance(v, T.E):
            if v.sort == 'B':
                return v
            return T.ne(v, T.num(0, v.sort))
        if isinstance(v, Null):
            return FALSE
        if isinstance(v, Ptr):
            return TRUE
        if isinstance(v, Opaque):
            b = T.fresh('opaque', 'B')
            return b
        raise Unsupported('boolean of %r' % (v,))

    def ev(self, n, st):
        """value of an expression (for class types: the Loc of the object)"""
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(n, st)

    def lv(self, n, st, allow_rvalue=False):
        """location denoted by an lvalue expression"""
        k = n['kind']
        m = getattr(self, 'l_' + k, None)
        if m is not None:
            r = m(n, st)
            if r is not None:
                return r
        v = self.ev(n, st)
        if isinstance(v, Loc):
            return v
        if allow_rvalue:
            ct = ptype(n['type'])
            tmp = self.temp('tmp', ct if ct.k != 'ref' else ct.elem)
            self.store(tmp, v, st)
            return tmp
        raise Unsupported('lvalue ' + k)

    # trivial wrappers
    def e_ParenExpr(self, n, st): return self.ev(n['inner'][0], st)
    def l_ParenExpr(self, n, st): return self.lv(n['inner'][0], st)
    def e_ExprWithCleanups(self, n, st): return self.ev(n['inner'][0], st)
    def l_ExprWithCleanups(self, n, st): return self.lv(n['inner'][0], st)
    def e_ConstantExpr(self, n, st): return self.ev(n['inner'][0], st)
    def e_CXXBindTemporaryExpr(self, n, st): return self.ev(n['inner'][0], st)
    def e_SubstNonTypeTemplateParmExpr(self, n, st): return self.ev(n['inner'][-1], st)

    def e_MaterializeTemporaryExpr(self, n, st):
        return self.lv(n, st)

    def l_MaterializeTemporaryExpr(self, n, st):
        ct = ptype(n['type'])
        v = self.ev(n['inner'][0], st)
        if isinstance(v, Loc):
            return v
        tmp = self.temp('tmp', ct)
        self.store(tmp, v, st)
        return tmp

    def e_IntegerLiteral(self, n, st): return I(int(n['value']))
    def e_FloatingLiteral(self, n, st):
        from fractions import Fraction
        v = n['value']
        return R(Fraction(repr(float(v))))

    def e_CharacterLiteral(self, n, st): return I(int(n['value']))
    def e_CXXBoolLiteralExpr(self, n, st): return TRUE if n['value'] else FALSE
    def e_CXXNullPtrLiteralExpr(self, n, st): return NULL
    def e_GNUNullExpr(self, n, st): return NULL
    def e_StringLiteral(self, n, st): return Opaque('string ' + n.get('value', ''))
    def e_PredefinedExpr(self, n, st): return Opaque('predefined')
    def e_ImplicitValueInitExpr(self, n, st): return self.zero_val(ptype(n['type']))
    def e_CXXScalarValueInitExpr(self, n, st): return self.zero_val(ptype(n['type']))

    def e_InitListExpr(self, n, st):
        ct = ptype(n['type'])
        tmp = self.temp('tmp', ct)
        self.init_list(tmp, n, st)
        if ct.k in ('int', 'real', 'bool', 'ptr'):
            return self.load(tmp, st)
        return tmp

    def e_CXXThisExpr(self, n, st):
        t = self.this_stack[-1]
        return Ptr(t.path, t.idx, I(0), t.ct, single=True)

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get('name') == 'sizeof':
            if 'argType' in n:
                return I(self.sizeof(ptype(n['argType'])))
            return I(self.sizeof(ptype(n['inner'][0]['type'])))
        raise Unsupported('trait ' + str(n.get('name')))

    def sizeof(self, ct):
        if ct.k == 'int': return ct.size
        if ct.k == 'real': return 4 if ct.name == 'float' else 8
        if ct.k == 'bool': return 1
        if ct.k == 'ptr': return 8
        if ct.k == 'array': return ct.n * self.sizeof(ct.elem)
        if ct.k == 'ref': return self.sizeof(ct.elem)
        if ct.k == 'class':
            r = self.record(ct.name)
            if r:
                return sum(self.sizeof(ptype(t)) for _, t in r.fields)
        raise Unsupported('sizeof %r' % ct)

    # names -----------------------------------------------------------------
    def l_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        i = d['id']
        if d['kind'] in ('VarDecl', 'ParmVarDecl'):
            for b in reversed(self.bind_stack[-1:]):
                if i in b:
                    return b[i]
            # lambda captures / enclosing
            # global
            name = d['name']
            ct = ptype(d['type'])
            node = None
            for tu in self.tus:
                if i in tu.globals:
                    q, node = tu.globals[i]
                    name = q
                    break
            path = ('G', name)
            if node is not None and path not in self.const_globals:
                self.load_const_global(path, node, ct, st)
            return Loc(path, (), ct)
        return None

    const_globals = set()
    const_vals = {}

    def load_const_global(self, path, node, ct, st):
        """initial value of const-qualified globals / static tables"""
        self.const_globals = self.const_globals | {path}
        q = node['type']['qualType']
        init = None
        for c in node.get('inner', []):
            if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal')):
                init = c
        if init is None:
            return
        if q.startswith('const') or 'const' in q:
            tmp = State()
            saved, race = self.written, self.race
            self.written = self.race = None
            self.bind_stack.append({})
            try:
                self.init(Loc(path, (), ct), init, tmp)
            finally:
                self.bind_stack.pop()
                self.written, self.race = saved, race
            self.const_vals = dict(self.const_vals)
            self.const_vals[path] = True
            for p, v in tmp.mem.items():
                if p[:2] == path:
                    self.const_mem[p] = v

    def e_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            for tu in self.tus:
                if d['id'] in tu.enums:
                    return I(tu.enums[d['id']])
            return T.var('enum.' + d['name'], 'I')     # of a library header: an unknown constant
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return FnVal(d['name'], d)
        loc = self.l_DeclRefExpr(n, st)
        if loc is None:
            raise Unsupported('reference to ' + d['kind'])
        return loc

    def l_MemberExpr(self, n, st):
        rd = n.get('referencedMemberDecl')
        d = None
        for tu in self.tus:
            if rd in tu.ids:
                d = tu.ids[rd]
                break
        base = n['inner'][0]
        name = n.get('name')
        ct = ptype(n['type'])
        if d is not None and d['kind'] == 'VarDecl':      # static data member
            q = None
            for tu in self.tus:
                if rd in tu.globals:
                    q = tu.globals[rd]
            path = ('G', q[0])
            if path not in self.const_globals:
                self.load_const_global(path, q[1], ct, st)
            return Loc(path, (), ct)
        if d is not None and d['kind'] != 'FieldDecl':
            return None
        if n.get('isArrow'):
            p = self.ev(base, st)
            obj = self.deref(p, st)
        else:
            obj = self.lv(base, st, allow_rvalue=True)
        if d is not None:
            dt = ptype(d['type'])
        else:
            dt = ct
        loc = Loc(obj.path + (name,), obj.idx, dt)
        if dt.k == 'ref':
            if loc.path in self.refs:
                return self.refs[loc.path]
            # unbound reference field of a symbolic object
            return Loc(obj.path + (name, '&'), obj.idx, dt.elem)
        return loc

    def e_MemberExpr(self, n, st):
        for tu in self.tus:
            if n.get('referencedMemberDecl') in tu.enums:
                return I(tu.enums[n['referencedMemberDecl']])
        l = self.l_MemberExpr(n, st)
        if l is None:
            raise Unsupported('member ' + str(n.get('name')))
        return l

    def deref(self, p, st):
        if isinstance(p, Ptr):
            if p.single is True or p.single is None and p.off is T.I(0):
                return Loc(p.path, p.idx, p.ct)
            return self.elem(p, I(0), st)
        if isinstance(p, Loc):
            return p
        if isinstance(p, Null):
            self.obl('null', FALSE, st, 'null dereference')
        raise Unsupported('deref of %r' % (p,))

    def elem(self, p, i, st):
        """p[i]"""
        if p.single is True:
            if i.op == 'num' and i.info == 0:
                return Loc(p.path, p.idx, p.ct)
            raise Unsupported('indexing a pointer to a single object')
        off = T.add(p.off, i)
        if isinstance(p.dims, MDims):
            return Loc(p.path, p.idx + self.unflatten(off, p.dims), p.ct, (p.idx, off, p.dims))
        if p.dims:
            # flat walk through a constant multi-dimensional array
            n = p.dims[-1]
            if off.op == 'num':
                o = int(off.info)
                idx = list(p.idx)
                k = len(idx) - 1
                q, r = divmod(o, n)
                d = len(p.dims) - 2
                tail = [I(r)]
                while k >= 0 and d >= 0:
                    t = T.add(idx[k], I(q))
                    if t.op == 'num' and d > 0:
                        q, rr = divmod(int(t.info), p.dims[d])
                        idx[k] = I(rr)
                    else:
                        idx[k] = t
                        break
                    k -= 1
                    d -= 1
                return Loc(p.path, tuple(idx) + tuple(tail), p.ct)
            # symbolic offset within the last row only
        if p.path in self.alias_paths and False:
            pass
        return Loc(p.path, p.idx + (off,), p.ct)

    alias_paths = {}

    def deref_row(self, p, i, st):
        """row i of a pointer to constant-size rows, as a pointer to its first element"""
        l = self.elem(p, I(i), st)
        return Ptr(l.path, l.idx, I(0), l.ct.elem, False)

    def l_ArraySubscriptExpr(self, n, st):
        b = self.ev(n['inner'][0], st)
        i = self.ev(n['inner'][1], st)
        if isinstance(i, Ptr):
            b, i = i, b
        if isinstance(b, Ptr):
            return self.elem(b, i, st)
        raise Unsupported('subscript of %r' % (b,))

    def e_ArraySubscriptExpr(self, n, st):
        return self.l_ArraySubscriptExpr(n, st)

    # casts -------------------------------------------------------------------
    def e_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind')
        sub = n['inner'][0]
        if ck == 'LValueToRValue':
            x = sub
            while x['kind'] == 'ParenExpr':
                x = x['inner'][0]
            if x['kind'] in ('ConditionalOperator', 'CallExpr'):
                v = self.ev(x, st)
                return self.load(v, st) if isinstance(v, Loc) else v
            l = self.lv(sub, st)
            if not isinstance(l, Loc):
                return l
            return self.load(l, st)
        if ck == 'ArrayToPointerDecay':
            l = self.lv(sub, st, allow_rvalue=True) if sub['kind'] != 'StringLiteral' else None
            if l is None or not isinstance(l, Loc):
                return Opaque('string literal ' + str(sub.get('value')))
            dims = []
            e = l.ct
            while e.k == 'array':
                dims.append(e.n)
                e = e.elem
            return Ptr(l.path, l.idx, I(0), l.ct.elem, False)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(sub, st)
        return self.cast(ck, self.ev(sub, st), ptype(n['type']), sub, st)

    def l_ImplicitCastExpr(self, n, st):
        if n.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'):
            return self.lv(n['inner'][0], st, allow_rvalue=True)
        return None

    def cast(self, ck, v, ct, sub, st):
        if ck in ('NoOp', 'UserDefinedConversion', 'ConstructorConversion', 'UncheckedDerivedToBase', 'DerivedToBase'):
            return v
        if ck == 'IntegralCast':
            if isinstance(v, T.E):
                if v.sort == 'B':
                    v = T.b2i(v)
                if v.op == 'num' and ct.k == 'int':
                    x = int(v.info)
                    bits = ct.size * 8
                    x %= 1 << bits
                    if ct.signed and x >= 1 << (bits - 1):
                        x -= 1 << bits
                    return I(x)
                self.assumed.add('integer conversions preserve the value (no narrowing past the type range)')
            return v
        if ck == 'IntegralToFloating':
            return T.to_real(T.b2i(v) if v.sort == 'B' else v)
        if ck == 'FloatingToIntegral':
            if v.op == 'num':
                import math
                return I(math.trunc(v.info))
            raise Unsupported('floating to integral')
        if ck == 'IntegralToBoolean' or ck == 'FloatingToBoolean':
            if v.sort == 'B': return v
            return T.ne(v, T.num(0, v.sort))
        if ck == 'PointerToBoolean':
            if isinstance(v, Null): return FALSE
            return TRUE
        if ck == 'FloatingCast': return v
        if ck == 'NullToPointer': return NULL
        if ck == 'ToVoid': return None
        if ck == 'BitCast' or ck == 'ReinterpretCast':
            if isinstance(v, Ptr):
                if ct.k == 'ptr':
                    if {ct.elem.k, v.ct.k} == {'int', 'real'} and ct.elem.size == 8 and v.ct.size == 8:
                        return Ptr(v.path, v.idx, v.off, ct.elem, v.single, v.dims)       # same bits, other type
                    if v.single and ct.elem.k == 'class':
                        return Ptr(v.path, v.idx, v.off, ct.elem, v.single)
                    return Ptr(v.path, v.idx, v.off, v.ct, v.single, v.dims,
                               stride=(ct.elem.size if ct.elem.k == 'int' else None) if ct.elem.k in ('int', 'void') else None)
            return v
        if ck == 'LValueToRValue':
            return self.load(v, st) if isinstance(v, Loc) else v
        raise Unsupported('cast ' + str(ck))

    def _explicit(self, n, st):
        ck = n.get('castKind')
        sub = n['inner'][0]
        if ck == 'ToVoid':
            return None
        return self.cast(ck, self.ev(sub, st), ptype(n['type']), sub, st)
    e_CStyleCastExpr = _explicit
    e_CXXStaticCastExpr = _explicit
    e_CXXReinterpretCastExpr = _explicit
    e_CXXConstCastExpr = _explicit

    def e_CXXFunctionalCastExpr(self, n, st):
        return self._explicit(n, st)

    # operators ----------------------------------------------------------------
    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        sub = n['inner'][0]
        if op in ('++', '--'):
            l = self.lv(sub, st)
            v = self.load(l, st)
            if isinstance(v, Ptr):
                nv = Ptr(v.path, v.idx, T.add(v.off, I(1 if op == '++' else -1)), v.ct, v.single, v.dims, v.stride)
            else:
                one = T.num(1, v.sort)
                nv = T.add(v, one) if op == '++' else T.sub(v, one)
                if op == '--' and l.ct.k == 'int' and not l.ct.signed and nv.op == 'num' and nv.info < 0:
                    nv = I(2 ** (8 * l.ct.size) - 1)
                elif op == '--' and l.ct.k == 'int' and not l.ct.signed:
                    self.obl('sub', T.ge(v, one), st, 'decrement of an unsigned value does not wrap')
            self.store(l, nv, st)
            if n.get('isPostfix'):
                return v
            return l
        if op == '-':
            v = self.ev(sub, st)
            return T.neg(v)
        if op == '+': return self.ev(sub, st)
        if op == '!':
            return T.not_(self.evb(sub, st))
        if op == '&':
            if sub['kind'] == 'DeclRefExpr' and sub['referencedDecl']['kind'] in ('FunctionDecl',):
                return FnVal(sub['referencedDecl']['name'], sub['referencedDecl'])
            n0 = len(self.obls)
            l = self.lv(sub, st)
            if not isinstance(l, Loc):
                raise Unsupported('address of %r' % (l,))
            if sub['kind'] == 'CXXOperatorCallExpr' and l.idx and l.idx[-1] is I(0) and self.obls[n0:] and self.obls[-1].kind == 'index':
                self.obls.pop()         # &v[0] of a possibly empty vector (stated assumption; reads and writes through it are checked)
            if l.idx and l.ct.k in ('int', 'real', 'bool', 'class', 'vector', 'ptr'):
                if l.cont is not None:
                    return Ptr(l.path, l.cont[0], l.cont[1], l.ct, False, MDims(l.cont[2]))
                dims = self.const_dims(sub, st)
                return Ptr(l.path, l.idx[:-1], l.idx[-1], l.ct, False, dims)
            return Ptr(l.path, l.idx, I(0), l.ct, True)
        if op == '*':
            p = self.ev(sub, st)
            return self.deref(p, st)
        if op == '~':
            v = self.ev(sub, st)
            if v.op == 'num' and v.info == 0:
                return I(2 ** 64 - 1)
        raise Unsupported('unary ' + op)

    def l_UnaryOperator(self, n, st):
        if n['opcode'] == '*':
            return self.deref(self.ev(n['inner'][0], st), st)
        r = self.e_UnaryOperator(n, st)
        return r if isinstance(r, Loc) else None

    def const_dims(self, n, st):
        """dimensions of the constant array the subscript chain indexes, e.g. A[0][0] with double A[4][4]"""
        dims = []
        while n['kind'] in ('ArraySubscriptExpr', 'ImplicitCastExpr', 'ParenExpr'):
            if n['kind'] == 'ArraySubscriptExpr':
                t = ptype(n['inner'][0]['inner'][0]['type']) if n['inner'][0].get('inner') else None
                if t is not None and t.k == 'ref': t = t.elem
                if t is not None and t.k == 'array':
                    dims.insert(0, t.n)
                elif t is not None and t.k == 'ptr' and t.elem.k == 'array':
                    dims.insert(0, 10 ** 9)
                elif t is not None and t.k == 'ptr' and dims:
                    dims.insert(0, 10 ** 9)
            n = n['inner'][0]
        return tuple(dims) if len(dims) > 1 else ()

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            l = self.lv(a, st)
            v = self.ev(b, st)
            self.store(l, v, st)
            return l
        if op == ',':
            self.ev(a, st)
            return self.ev(b, st)
        if op in ('&&', '||'):
            x = self.evb(a, st)
            if x is FALSE and op == '&&': return FALSE
            if x is TRUE and op == '||': return TRUE
            s2 = st.copy()
            s2.pc = T.and_(st.pc, x if op == '&&' else T.not_(x))
            y = self.evb(b, s2)
            # side effects on the right are merged back
            m = self.merge(x if op == '&&' else T.not_(x), s2, st) if s2.mem != st.mem else st
            pc = st.pc
            st.mem = m.mem
            st.pc = pc
            return T.and_(x, y) if op == '&&' else T.or_(x, y)
        x, y = self.ev(a, st), self.ev(b, st)
        return self.binop(op, x, y, ptype(n['type']), st, ptype(a['type']))

    def l_BinaryOperator(self, n, st):
        if n['opcode'] == '=':
            return self.e_BinaryOperator(n, st)
        return None

    def l_CompoundAssignOperator(self, n, st):
        return self.e_CompoundAssignOperator(n, st)

    def e_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        l = self.lv(n['inner'][0], st)
        y = self.ev(n['inner'][1], st)
        x = self.load(l, st)
        ct = ptype(n.get('computeResultType', n['type'])) if 'computeResultType' in n else ptype(n['type'])
        if isinstance(x, T.E) and isinstance(y, T.E) and x.sort == 'I' and y.sort == 'R':
            x = T.to_real(x)
        v = self.binop(op, x, y, ct, st, ct)
        self.store(l, v, st)
        return l

    def binop(self, op, x, y, ct, st, act=None):
        if isinstance(x, (Ptr, Null)) or isinstance(y, (Ptr, Null)):
            return self.ptrop(op, x, y, st)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return T.fresh('opaque', 'B')
            return Opaque('arith')
        if not isinstance(x, T.E) or not isinstance(y, T.E):
            raise Unsupported('operands of %s: %r %r' % (op, x, y))
        if op in ('==', '!=', '<', '>', '<=', '>='):
            f = {'==': T.eq, '!=': T.ne, '<': T.lt, '>': T.gt, '<=': T.le, '>=': T.ge}[op]
            return f(x, y)
        if x.sort == 'B': x = T.b2i(x)
        if y.sort == 'B': y = T.b2i(y)
        if x.sort != y.sort:
            x, y = T.coerce2(x, y)
        if op == '+':
            r = T.add(x, y)
            if r.op == 'num' and ct.k == 'int' and not ct.signed and r.info >= 2 ** (8 * ct.size):
                r = I(int(r.info) % 2 ** (8 * ct.size))
            return r
        if op == '-':
            r = T.sub(x, y)
            if ct.k == 'int' and not ct.signed:
                if r.op == 'num' and r.info < 0:
                    return I(int(r.info) % 2 ** (8 * ct.size))
                self.obl('sub', T.ge0(r), st, 'unsigned subtraction does not wrap')
            return r
        if op == '*': return T.mul(x, y)
        if op == '/':
            if x.sort == 'R':
                self.obl('div', T.ne(y, R(0)), st, 'divisor is non-zero')
                if self.on_div is not None:
                    self.on_div(y)
                return T.rdiv(x, y)
            self.obl('div', T.ne(y, I(0)), st, 'divisor is non-zero')
            if ct.k == 'int' and ct.signed and not self.nn(x):
                raise Unsupported('signed division')
            return T.idiv(x, y)
        if op == '%':
            self.obl('div', T.ne(y, I(0)), st, 'divisor is non-zero')
            return T.imod(x, y)
        if op == '<<' and y.op == 'num': return T.mul(x, I(2 ** int(y.info)))
        if op == '>>' and y.op == 'num': return T.idiv(x, I(2 ** int(y.info)))
        if op in ('|', '&') and ct.k == 'bool' or (op in ('|', '&') and all(q.op == 'ite' for q in (x, y))):
            f = T.or_ if op == '|' else T.and_
            return T.b2i(f(T.ne(x, I(0)), T.ne(y, I(0))))
        if op in ('|', '&', '^') and isinstance(x, T.E) and isinstance(y, T.E) and x.op == y.op == 'num' and x.sort == y.sort == 'I':
            x, y = int(x.info), int(y.info)
            return I(x | y if op == '|' else x & y if op == '&' else x ^ y)
        raise Unsupported('binary ' + op)

    def nn(self, x):
        return x.op == 'num' and x.info >= 0 or T.known_nonneg(x)

    def ptrop(self, op, x, y, st):
        if op in ('==', '!='):
            if isinstance(x, Null) and isinstance(y, Null):
                r = TRUE
            elif isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.path == y.path and x.idx == y.idx:
                    r = T.eq(x.off, y.off)
                else:
                    r = FALSE
            else:
                r = FALSE
            return r if op == '==' else T.not_(r)
        if op in ('+', '-') and isinstance(x, Ptr) and isinstance(y, T.E):
            d = y if op == '+' else T.neg(y)
            return Ptr(x.path, x.idx, T.add(x.off, d), x.ct, False, x.dims, x.stride)
        if op == '+' and isinstance(y, Ptr) and isinstance(x, T.E):
            return self.ptrop('+', y, x, st)
        if op == '-' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.path == y.path:
            return T.sub(x.off, y.off)
        raise Unsupported('pointer op ' + op)

    def e_ConditionalOperator(self, n, st):
        c = self.evb(n['inner'][0], st)
        if self.decide is not None and c is not TRUE and c is not FALSE:
            d = self.decide(c)
            st.pc = T.and_(st.pc, c if d else T.not_(c))
            c = TRUE if d else FALSE
        if c is TRUE: return self.ev(n['inner'][1], st)
        if c is FALSE: return self.ev(n['inner'][2], st)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = T.and_(st.pc, c), T.and_(st.pc, T.not_(c))
        a, b = self.ev(n['inner'][1], s1), self.ev(n['inner'][2], s2)
        if s1.pc is FALSE or s2.pc is FALSE:       # one side does not return (assert)
            x = s2 if s1.pc is FALSE else s1
            st.mem, st.pc = x.mem, x.pc
            return b if s1.pc is FALSE else a
        if isinstance(a, Loc) and isinstance(b, Loc) and a.ct.k in ('int', 'real', 'bool'):
            a, b = self.load(a, s1), self.load(b, s2)
        elif isinstance(a, Loc) or isinstance(b, Loc):
            if isinstance(a, Loc) and isinstance(b, Loc) and a.path == b.path and len(a.idx) == len(b.idx):
                m = self.merge(c, s1, s2)
                st.mem = m.mem
                return Loc(a.path, tuple(T.ite(c, x, y) for x, y in zip(a.idx, b.idx)), a.ct)
            raise Unsupported('conditional object')
        m = self.merge(c, s1, s2)
        st.mem = m.mem
        return self.vite(c, a, b)

    # construction --------------------------------------------------------------
    def e_CXXConstructExpr(self, n, st):
        ct = ptype(n['type'])
        tmp = self.temp('tmp', ct)
        args = n.get('inner', [])
        if len(args) == 1 and (n.get('elidable') or ct.k == 'ptr'):
            v = self.ev(args[0], st)
            return self.load(v, st) if ct.k == 'ptr' and isinstance(v, Loc) else v
        self.construct(tmp, n, st)
        return tmp
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n, st):
        ct = ptype(n['type']).elem
        name = 'heap%d' % self.uid()
        inner = n.get('inner', [])
        if n.get('isArray'):
            size = None
            for c in inner:
                if c.get('kind', '') not in ('CXXConstructExpr',):
                    size = self.ev(c, st)
                    break
            st.mem[('H', name, '#n')] = size
            self.heap_size[('H', name)] = size
            self.note_write(('H', name))
            return Ptr(('H', name), (), I(0), ct, False)
        loc = Loc(('H', name), (), ct)
        for dset in self.declared:
            dset.add(loc.path)
        for c in inner:
            if c['kind'] in ('CXXConstructExpr',):
                self.construct(loc, c, st)
        return Ptr(loc.path, (), I(0), ct, True)

    heap_size = {}

    def e_CXXDeleteExpr(self, n, st):
        v = self.ev(n['inner'][0], st)
        if self.freed is not None:
            self.freed.append((v, st.pc, bool(n.get('isArray')), tuple(self.loop_vars)))
        return None

    # calls ------------------------------------------------------------------------
    def e_CallExpr(self, n, st):
        callee = n['inner'][0]
        args = n['inner'][1:]
        fv = None
        x = callee
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            x = x['inner'][0]
        if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['kind'] == 'FunctionDecl':
            d = x['referencedDecl']
        else:
            v = self.ev(callee, st)
            if isinstance(v, FnVal):
                d = v.node
            else:
                raise Unsupported('indirect call')
        return self.call_decl(d, args, st, n)

    def resolve(self, d):
        for tu in self.tus:
            f = tu.resolve(d['id'])
            if f is not None:
                return f
            g = tu.by_id.get(d['id'])
            if g is not None:
                # body in another unit
                for tu2 in self.tus:
                    fs = [h for h in tu2.funcs.get(g.qname, []) if len(h.params) == len(g.params)]
                    if fs:
                        if len(fs) > 1:
                            same = [h for h in fs if h.sig() == g.sig()]
                            fs = same or fs
                        return fs[0]
                return g
        return None

    def call_decl(self, d, args, st, n):
        f = self.resolve(d)
        name = f.qname if f is not None else d['name']
        if name in self.contracts:
            self.used_contracts.add(name)
            vals = self.arg_vals(f, args, st)
            return self.contracts[name](self, None, vals, st)
        if f is not None and f.body is not None:
            return self.call_func(f, args, st)
        if d['name'] in self.models and (f is None or f.body is None):
            return self.models[d['name']](self, args, st, n)
        if f is not None and name in self.models:
            return self.models[name](self, args, st, n)
        raise Unsupported('call of ' + name)

    def arg_vals(self, f, args, st):
        vals = []
        for i, a in enumerate(args):
            pt = ptype(f.params[i]['type']) if f is not None and i < len(f.params) else None
            if a['kind'] == 'CXXDefaultArgExpr':
                a = self.default_arg(f, i)
            if pt is not None and pt.k == 'ref':
                vals.append(self.lv(a, st, allow_rvalue=True))
            else:
                v = self.ev(a, st)
                vals.append(v)
        return vals

    def e_CXXMemberCallExpr(self, n, st):
        me = n['inner'][0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        args = n['inner'][1:]
        base = me['inner'][0]
        if me.get('isArrow'):
            obj = self.deref(self.ev(base, st), st)
        else:
            obj = self.lv(base, st, allow_rvalue=True)
        return self.member_call(obj, me.get('name'), me.get('referencedMemberDecl'), args, st, n)

    def obj_type(self, obj):
        return obj.ct

    def member_call(self, obj, name, declid, args, st, n):
        if not isinstance(obj, Loc):
            if isinstance(obj, Opaque):
                for a in args:
                    if a['kind'] != 'CXXDefaultArgExpr':
                        try:
                            self.ev(a, st)
                        except Unsupported:
                            pass
                return Opaque('method ' + str(name))
            raise Unsupported('method %s on %r' % (name, obj))
        ct = obj.ct
        if ct.k == 'ptr':
            obj = self.deref(self.load(obj, st), st)
            ct = obj.ct
        if ct.k == 'vector':
            from .models import vector_method
            return vector_method(self, obj, name, args, st, n)
        if ct.k == 'int' and ct.name == 'string':
            from .text import method
            return method(self, obj, name, args, st, n)
        cs = container_of(ct)
        if cs is not None and not self.raw:
            return self.container_method(obj, cs, name, args, st)
        # library classes
        from .models import lib_method
        if ct.k == 'class' and ct.name.startswith('std::') or ct.k != 'class':
            return lib_method(self, obj, name, args, st, n)
        f = None
        for tu in self.tus:
            if declid in tu.by_id:
                f = tu.resolve(declid) or tu.by_id[declid]
                break
        if f is None:
            raise Unsupported('method %s of %s' % (name, ct.name))
        if f.qname in self.contracts:
            self.used_contracts.add(f.qname)
            return self.contracts[f.qname](self, obj, self.arg_vals(f, args, st), st)
        if f.body is None:
            # definition in another unit, or an override of a pure virtual function
            for tu in self.tus:
                fs = [h for h in tu.funcs.get(f.qname, []) if len(h.params) == len(f.params)]
                if fs:
                    f = fs[0]
                    break
        if f.body is None:
            if f.qname in self.method_models:
                return self.method_models[f.qname](self, obj, args, st, n)
            raise Unsupported('no body for method ' + f.qname)
        if f.static:
            return self.call_func(f, args, st)
        return self.call_func(f, args, st, this=obj)

    def e_CXXOperatorCallExpr(self, n, st):
        op = n['inner'][0]
        while op['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            op = op['inner'][0]
        d = op['referencedDecl']
        name = d['name']
        args = n['inner'][1:]
        # member operator?
        t0 = ptype(args[0]['type'])
        if t0.k == 'ref': t0 = t0.elem
        if STRINGS and any(x.k == 'int' and x.name == 'string' for x in (ptype(a['type']) for a in args)):
            from .text import operator
            return operator(self, name, args, st)
        if t0.k == 'ptr' and name.startswith('operator'):
            return self.iterator_op(name[8:], args, st, n)
        if t0.k == 'vector' or (t0.k == 'class' and (container_of(t0) is not None or t0.name.startswith('std::'))) or t0.k == 'array':
            if t0.k == 'class' and container_of(t0) is not None and self.raw:
                pass
            else:
                obj = self.lv(args[0], st, allow_rvalue=True)
                if t0.k == 'vector':
                    from .models import vector_method
                    return vector_method(self, obj, name, args[1:], st, n)
                if t0.k == 'array' and name == 'operator[]':
                    i = self.ev(args[1], st)
                    return Loc(obj.path, obj.idx + (i,), obj.ct.elem)
                if container_of(t0) is not None:
                    return self.container_method(obj, container_of(t0), name, args[1:], st)
                from .models import lib_operator
                return lib_operator(self, obj, name, args, st, n)
        f = None
        for tu in self.tus:
            f = tu.resolve(d['id'])
            if f is not None:
                break
            if d['id'] in tu.by_id:
                f = tu.by_id[d['id']]
                break
        if f is None or f.body is None or (name == 'operator=' and f.node.get('isImplicit')):
            if f is not None and name == 'operator=' or (d['kind'] == 'CXXMethodDecl' and name == 'operator='):
                # implicit assignment
                dst = self.lv(args[0], st)
                src = self.lv(args[1], st, allow_rvalue=True)
                self.copy_obj(dst, src, st)
                return dst
            from .models import lib_operator
            return lib_operator(self, None, name, args, st, n)
        if f.record is not None:
            obj = self.lv(args[0], st, allow_rvalue=True)
            return self.call_func(f, args[1:], st, this=obj)
        return self.call_func(f, args, st)

    def iterator_op(self, op, args, st, n):
        """operators of contiguous-container iterators, which are treated as pointers"""
        if op in ('+=', '-=', '++', '--', '='):
            loc = self.lv(args[0], st)
            old = self.load(loc, st) if op != '=' else None
            if op == '=':
                new = self.ev(args[1], st)
            else:
                new = self.ptrop(op[0], old, self.ev(args[1], st) if op[1] == '=' else I(1), st)
            self.store(loc, new, st)
            return old if op in ('++', '--') and len(args) > 1 else loc
        v = self.ev(args[0], st)
        if isinstance(v, Loc):
            v = self.load(v, st)
        if op == '->':
            return v
        if op == '*':
            return self.deref(v, st)
        w = self.ev(args[1], st)
        if isinstance(w, Loc):
            w = self.load(w, st)
        if op == '[]':
            return self.deref(self.ptrop('+', v, w, st), st)
        return self.ptrop(op, v, w, st)

    def l_CXXOperatorCallExpr(self, n, st):
        r = self.e_CXXOperatorCallExpr(n, st)
        return r if isinstance(r, Loc) else None

    def l_CXXMemberCallExpr(self, n, st):
        r = self.e_CXXMemberCallExpr(n, st)
        return r if isinstance(r, Loc) else None

    def l_CallExpr(self, n, st):
        r = self.e_CallExpr(n, st)
        return r if isinstance(r, Loc) else None

    # accessor contracts of the phase-space containers ------------------------------
    def dims_of(self, obj, cs, st):
        return [self.load(Loc(obj.path + (d,), obj.idx, _ptype('size_t')), st) for d in cs.dims]

    def container_method(self, obj, cs, name, args, st):
        el = container_elem(obj.ct)
        if name in ('operator()', 'operator[]') and len(args) == cs.arity and not (name == 'operator[]' and cs.arity > 1):
            idx = [self.ev(a, st) for a in args]
            return self.container_elem_loc(obj, cs, idx, st)
        if name == 'operator[]':
            i = self.ev(args[0], st)
            dims = self.dims_of(obj, cs, st)
            size = I(1)
            for d in dims:
                size = T.mul(size, d)
            if not self.flat_in_range(i, dims):
                self.obl('index', T.and_(T.ge0(i), T.lt(i, size)), st, 'linear index in range')
            return self.flat_loc(obj, cs, i, dims, el, st)
        if name == 'size':
            size = I(1)
            for d in self.dims_of(obj, cs, st):
                size = T.mul(size, d)
            return size
        if name == 'resize':
            self.container_resize(obj, [self.ev(a, st) for a in args], st)
            return None
        if name in ('setToValue', 'setAll'):
            v = self.ev(args[0], st)
            if isinstance(v, Loc):
                v = self.load(v, st)
            self.set_all(obj, cs, el, v, st)
            return None
        if name == 'setData':
            p = self.ev(args[0], st)
            dims = self.dims_of(obj, cs, st)
            self.set_data(obj, cs, el, p, dims, st)
            return None
        if name == 'writeToFile' and 'PsiData::writeToFile' in self.contracts:
            return self.contracts['PsiData::writeToFile'](self, obj, [self.ev(a, st) for a in args], st)
        f = None
        for tu in self.tus:
            fs = tu.funcs.get(obj.ct.name + '::' + name)
            if fs:
                return self.call_func(fs[0], args, st, this=obj)
        raise Unsupported('container method ' + name)

    def alias_of(self, obj):
        return self.aliases.get(obj.path)

    def container_elem_loc(self, obj, cs, idx, st):
        dims = self.dims_of(obj, cs, st)
        goal = T.and_(*([T.ge0(i) for i in idx if not T.known_nonneg(i)] + [T.lt(i, d) for i, d in zip(idx, dims)]))
        self.obl('index', goal, st, 'element of %s in range' % cs.prefix)
        al = self.alias_of(obj)
        if al is not None:
            f = flat_of(idx, dims)
            return self.elem(al, f, st)
        return Loc(obj.path + ('#e',), obj.idx + tuple(idx), container_elem(obj.ct), (obj.idx, flat_of(idx, dims), dims) if cs.arity > 1 else None)

    def flat_in_range(self, i, dims):
        return False

    def flat_loc(self, obj, cs, i, dims, el, st):
        al = self.alias_of(obj)
        if al is not None:
            return self.elem(al, i, st)
        if cs.arity == 1:
            return Loc(obj.path + ('#e',), obj.idx + (i,), el)
        return Loc(obj.path + ('#e',), obj.idx + self.unflatten(i, dims), el, (obj.idx, i, dims))

    def unflatten(self, i, dims):
        """digits of a linear index (first index fastest); exact when i is a known mixed-radix number"""
        # constant layout with i a polynomial built from digits
        digs = []
        cur = i
        for k, d in enumerate(dims[:-1]):
            q, r = divmod_poly(self, cur, d)
            digs.append(r)
            cur = q
        digs.append(cur)
        if len(digs) > 1:
            self.digits[tuple(digs)] = (i, tuple(dims))
        return tuple(digs)

    def set_all(self, obj, cs, el, v, st):
        al = self.alias_of(obj)
        if al is not None:
            dims = self.dims_of(obj, cs, st)
            size = I(1)
            for d in dims:
                size = T.mul(size, d)
            k = self.nonneg_fresh('k')
            c = st.mem.get(al.path) or self.default(al.path, len(al.idx) + 1, al.ct)
            st.mem[al.path] = Upd(c, (k,), T.lt(k, size), al.idx + (T.add(al.off, k),), v)
            self.note_write(al.path, al.idx, st)
            return
        self.fill(obj, el, cs.arity, st, v)

    def set_data(self, obj, cs, el, p, dims, st):
        if not isinstance(p, Ptr):
            raise Unsupported('setData from %r' % (p,))
        ps = tuple(self.nonneg_fresh('k') for _ in dims)
        g = T.and_(*[T.lt(k, d) for k, d in zip(ps, dims)])
        f = flat_of(ps, dims)
        v = self.load_word(p, f, el, st)
        path = obj.path + ('#e',)
        c = st.mem.get(path)
        if c is None:
            c = self.default(path, len(obj.idx) + cs.arity, el)
        st.mem[path] = Upd(c, ps, g, obj.idx + ps, v)
        self.note_write(path, obj.idx, st)
        if self.race is not None:
            self.race.access(p.path, p.idx, False, st)

    def load_word(self, p, k, el, st):
        """k-th element of type el starting at p, where p may address bytes"""
        if getattr(p, 'stride', None) == 1 or p.ct.k == 'int' and p.ct.size == 1:
            if p.ct.k == 'int' and p.ct.size == 1:
                from .models import bytes_read
                return bytes_read(self, p, T.mul(k, I(self.sizeof(el))), el, st)
        return self.load(self.elem(p, k, st), st)


# =============================================================== unification of addresses
def divmod_poly(eng, e, d):
    """e = q*d + r with 0 <= r < d, exact on mixed-radix polynomials, otherwise by idiv/imod"""
    if d.op == 'num':
        q = T.idiv(e, d)
        return q, T.sub(e, T.mul(q, d))
    p = T._poly(e)
    qd, rd = {}, {}
    pd = T._poly(d)
    if len(pd) == 1:
        (md, cd), = pd.items()
        for m, c in p.items():
            dd = dict(m)
            ok = True
            for a, k in md:
                if dd.get(a, 0) < k:
                    ok = False
                    break
                dd[a] -= k
            if ok and (c / cd).denominator == 1:
                qd[tuple(sorted(((x, k) for x, k in dd.items() if k), key=lambda z: z[0].id))] = c / cd
            else:
                rd[m] = c
        q, r = T.from_poly(qd, 'I'), T.from_poly(rd, 'I')
        if qd and eng.quick(T.and_(T.ge0(r), T.lt(r, d))):
            return q, r
    q = T.idiv(e, d)
    return q, T.sub(e, T.mul(q, d))


def unify(params, addr, idx):
    """solve addr(params) == idx for params.  Returns (substitution, residual equalities) or (None, None)"""
    sub = {}
    todo = list(zip(addr, idx))
    unsolved = set(params)
    progress = True
    rest = []
    while todo and progress:
        progress = False
        nxt = []
        for a, q in todo:
            a2 = T.subst(a, sub) if sub else a
            fv = T.free_vars(a2) & unsolved
            if not fv:
                rest.append(T.eq(a2, q))
                progress = True
                continue
            done = False
            if len(fv) == 1:
                p = next(iter(fv))
                pl = T._poly(a2)
                key = ((p, 1),)
                c = pl.get(key)
                others = {m: k for m, k in pl.items() if m != key}
                if c in (1, -1) and all(p is not x and p not in T.free_vars(x) for m in others for x, _ in m):
                    o = T.from_poly(others, 'I')
                    sub[p] = T.scale(c, T.sub(q, o))
                    unsolved.discard(p)
                    progress = True
                    done = True
                elif c is not None and c.denominator == 1 and a2.sort == 'I' and all(p is not x and p not in T.free_vars(x) for m in others for x, _ in m):
                    # c*p = d with every coefficient of d divisible by c (or all but the constant: no solution)
                    d = T._poly(T.sub(q, T.from_poly(others, 'I')))
                    if all((k / c).denominator == 1 for m, k in d.items() if m != ()):
                        r = d.get((), 0) / c
                        if r.denominator != 1:
                            rest.append(FALSE)
                        dd = {m: k / c for m, k in d.items() if m != ()}
                        if r.denominator == 1 and r:
                            dd[()] = r
                        sub[p] = T.from_poly(dd, 'I')
                        unsolved.discard(p)
                        progress = True
                        done = True
            if not done:
                nxt.append((a, q))
        todo = nxt
    if todo:
        # match by renaming parameters to variables of the query (mixed-radix / prefix-sum addresses)
        cand = []
        qa = set()
        for _, q in todo:
            qa |= set(T.free_vars(q))
        qa = [v for v in qa if v.sort == 'I' and not v.info.startswith('#')]
        us = sorted(unsolved, key=lambda v: v.id)
        us = [p for p in us if any(p in T.free_vars(a) for a, _ in todo)]
        import itertools
        if len(us) <= 5 and len(qa) <= 14:
            for perm in itertools.permutations(qa, len(us)) if _nperm(len(qa), len(us)) <= 4000 else ():
                s2 = dict(sub)
                s2.update(zip(us, perm))
                if all(T.subst(a, s2) is q for a, q in todo):
                    sub = s2
                    unsolved -= set(us)
                    todo = []
                    break
        if todo:
            return None, None
    if unsolved:
        return None, None
    # close the substitution
    return sub, [r for r in rest if r is not TRUE]


def _nperm(n, k):
    r = 1
    for i in range(k):
        r *= max(n - i, 0)
    return r
