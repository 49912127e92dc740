"""Models of the library functions the repository calls (trusted; listed in every evidence file)."""
import re
from . import term as T
from .term import I, R, TRUE, FALSE


def _vals(eng, args, st):
    return [eng.ev(a, st) for a in args if a['kind'] != 'CXXDefaultArgExpr']


def m_fabs(eng, args, st, n): return T.fabs(eng.ev(args[0], st))
def m_sqrt(eng, args, st, n):
    v = eng.ev(args[0], st)
    if v.sort == 'I': v = T.to_real(v)
    return T.sqrt(v)


def m_fn(name):
    def f(eng, args, st, n):
        vs = [T.to_real(v) for v in _vals(eng, args, st)]
        return T.app(name, vs, 'R')
    return f


LIMITS = {'unsigned long': (0, 2**64-1), 'uint64_t': (0, 2**64-1), 'unsigned int': (0, 2**32-1), 'uint32_t': (0, 2**32-1),
          'int': (-2**31, 2**31-1), 'int32_t': (-2**31, 2**31-1), 'long': (-2**63, 2**63-1), 'int64_t': (-2**63, 2**63-1)}


def m_minmax(op):
    def f(eng, args, st, n):
        if not args:            # std::numeric_limits<T>::min/max()
            from .exec import Unsupported
            q = (n['type'].get('desugaredQualType') or n['type'].get('qualType', ''))
            q = LIMITS.get(q.split('::')[-1], None) or LIMITS.get(n['type'].get('qualType', ''))
            if q is None and n['type'].get('qualType') == 'double':
                import sys
                from fractions import Fraction
                return T.var('DBL_MAX' if op == 'max' else 'DBL_MIN', 'R')
            if q is None:
                raise Unsupported('numeric limit of %s' % n['type'])
            return I(q[0] if op == 'min' else q[1])
        a, b = args[0], args[1]
        x, y = eng.ev(a, st), eng.ev(b, st)
        from .exec import Loc
        if isinstance(x, Loc): x = eng.load(x, st)
        if isinstance(y, Loc): y = eng.load(y, st)
        x, y = T.coerce2(x, y)
        # std::min(a,b) = (b<a)?b:a ; std::max(a,b) = (a<b)?b:a
        return T.ite(T.lt(y, x), y, x) if op == 'min' else T.ite(T.lt(x, y), y, x)
    return f


def m_none(eng, args, st, n):
    for a in args:
        try:
            eng.ev(a, st)
        except Exception:
            pass
    from .exec import Opaque, ptype
    ct = ptype(n['type'])
    if ct.k == 'int': return T.app(T.fresh_name('lib'), tuple(eng.loop_vars), 'I')
    return Opaque('library')


def m_zero(eng, args, st, n): return I(0)


def m_memcpy(eng, args, st, n):
    dst, src, cnt = [eng.ev(a, st) for a in args]
    byte_copy(eng, st, dst, src, cnt)
    return dst


def m_exit(eng, args, st, n):
    st.pc = FALSE
    return None


def m_rand(eng, args, st, n):
    nm = T.fresh_name('rand')
    T.NONNEG.add(nm)
    return T.app(nm, tuple(eng.loop_vars), 'I')


MODELS = {
    'fabs': m_fabs, 'abs': m_fabs, 'sqrt': m_sqrt, 'cos': m_fn('cos'), 'sin': m_fn('sin'), 'pow': m_fn('pow'), 'exp': m_fn('exp'),
    'min': m_minmax('min'), 'max': m_minmax('max'),
    'printf': m_none, 'fprintf': m_none, 'fflush': m_none, 'usleep': m_none, 'puts': m_none,
    'omp_get_thread_num': m_zero, 'memcpy': m_memcpy, 'exit': m_exit, '__assert_fail': m_exit, 'abort': m_exit, 'rand': m_rand, 'srand': m_none,
    'move': lambda eng, args, st, n: eng.lv(args[0], st),
    'forward': lambda eng, args, st, n: eng.lv(args[0], st),
}
METHODS = {}


def pair_types(name):
    from .exec import _targs
    return [a for a in _targs(name[name.index('<') + 1:name.rindex('>')])[:2]]


def pair_fill(eng, loc, vals, st):
    from .exec import Loc, ptype
    for f, t, v in zip(('first', 'second'), pair_types(loc.ct.name), vals):
        ct = ptype(t)
        if ct.k == 'ref':
            ct = ct.elem
        d = Loc(loc.path + (f,), loc.idx, ct)
        if isinstance(v, Loc) and ct.k in ('class', 'array', 'vector'):
            eng.copy_obj(d, v, st)
        else:
            if isinstance(v, Loc):
                v = eng.load(v, st)
            eng.store(d, v, st)


def c_pair(eng, loc, args, st):
    vals = [eng.ev(a, st) for a in args]
    if len(vals) == 1:
        eng.copy_obj(loc, vals[0], st)
    elif len(vals) == 2:
        pair_fill(eng, loc, vals, st)


def m_make_pair(eng, args, st, n):
    from .exec import Loc, ptype
    l = Loc(('L%d' % eng.frame, 'pair@%d' % eng.uid()), (), ptype(n['type']))
    for d in eng.declared:
        d.add(l.path)
    pair_fill(eng, l, [eng.ev(a, st) for a in args], st)
    return l


CTORS = [(r'std::pair<', c_pair)]
MODELS['make_pair'] = m_make_pair


def map_method(eng, obj, name, args, st, n):
    """std::map: its content is a ghost owned by eng.map_hook (find -> (present, value); insert(key, value))"""
    from .exec import Unsupported, Loc, ptype
    hook = getattr(eng, 'map_hook', None)
    if eng.race is not None:
        eng.race.access(obj.path, obj.idx, name in ('insert', 'emplace', 'erase', 'clear', 'operator[]'), st)
    if hook is None:
        raise Unsupported('std::map without a ghost')
    if name in ('find', 'count', 'at'):
        key = eng.ev(args[0], st)
        if isinstance(key, Loc) and key.ct.k in ('int', 'real'):
            key = eng.load(key, st)
        present, val = hook.find(eng, obj, key, st)
        if name == 'at':
            eng.obl('index', present, st, 'key present')
            l = eng.temp('at', ptype(n['type']))
            eng.store(l, val, st)
            return l
        if name == 'count':
            return T.b2i(present)
        l = eng.temp('it', ptype(n['type']))
        st.mem[l.path + ('#present',)] = present
        st.mem[l.path + ('second',)] = val
        return l
    if name in ('end', 'cend'):
        l = eng.temp('it', ptype(n['type']))
        st.mem[l.path + ('#present',)] = FALSE
        return l
    if name in ('insert', 'emplace'):
        if len(args) == 1:
            pr = eng.ev(args[0], st)
            kt, vt = pair_types(pr.ct.name)
            kt, vt = [c.elem if c.k == 'ref' else c for c in (ptype(kt), ptype(vt))]
            key, val = Loc(pr.path + ('first',), pr.idx, kt), eng.load(Loc(pr.path + ('second',), pr.idx, vt), st)
        else:
            key, val = eng.ev(args[0], st), eng.ev(args[1], st)
        if isinstance(key, Loc) and key.ct.k in ('int', 'real'):
            key = eng.load(key, st)
        if isinstance(val, Loc):
            val = eng.load(val, st)
        return hook.insert(eng, obj, key, val, st)
    raise Unsupported('std::map::' + name)


def set_method(eng, obj, name, args, st, n):
    """std::set: its content is a ghost owned by eng.set_hook (insert(key), size)"""
    from .exec import Unsupported, Loc
    hook = getattr(eng, 'set_hook', None)
    if eng.race is not None:
        eng.race.access(obj.path, obj.idx, name in ('insert', 'emplace', 'erase', 'clear'), st)
    if hook is None:
        raise Unsupported('std::set without a ghost')
    if name in ('insert', 'emplace') and len(args) == 1:
        key = eng.ev(args[0], st)
        if isinstance(key, Loc):
            key = eng.load(key, st)
        return hook.insert(eng, obj, key, st)
    if name == 'size':
        return hook.size(eng, obj, st)
    raise Unsupported('std::set::' + name)


# ---------------------------------------------------------------- bytes
def ptr_size(eng, p):
    """size in bytes of one step of pointer p's element"""
    from .exec import ptype
    return eng.sizeof(p.ct)


def byte_copy(eng, st, dst, src, cnt):
    from .exec import Ptr, Unsupported, Upd, Loc
    if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
        raise Unsupported('memcpy of %r %r' % (dst, src))
    if eng.race is not None:
        eng.race.access(src.path, src.idx, False, st)
    db = dst.ct.k == 'int' and dst.ct.size == 1
    sb = src.ct.k == 'int' and src.ct.size == 1
    if db and not sb:
        # typed value into a byte buffer: the buffer keeps (offset -> typed word)
        es = eng.sizeof(src.ct)
        q = whole(eng, st, cnt, es, src)
        words = typed_words(eng, st, src, q)
        path = dst.path + ('#w' + kind_of(src.ct),)
        from .exec import Base
        k, v = words
        c = st.mem.get(path)
        if c is None:
            c = Base('.'.join(path), kind_of(src.ct))
        eng.note_write(path, dst.idx, st)
        if eng.byte_regions is not None:
            eng.byte_regions.append((dst.path, dst.idx, dst.off, cnt, st.pc))
        if q.op == 'num' and q.info == 1:
            st.mem[path] = Upd(c, (), TRUE, dst.idx + (dst.off,), T.subst(v, {k: I(0)}))
        else:
            st.mem[path] = Upd(c, (k,), T.lt(k, q), dst.idx + (T.add(dst.off, T.mul(k, I(es))),), v)
        return
    if sb and not db:
        es = eng.sizeof(dst.ct)
        q = whole(eng, st, cnt, es, dst)
        if dst.single or (q.op == 'num' and q.info == 1):
            v = bytes_read(eng, src, I(0), dst.ct, st)
            eng.store(eng.deref(dst, st), v, st)
            return
        k = eng.nonneg_fresh('k')
        v = bytes_read(eng, src, T.mul(k, I(es)), dst.ct, st)
        l = eng.elem(dst, k, st)
        c = st.mem.get(l.path)
        if c is None:
            c = eng.default(l.path, len(l.idx), dst.ct)
        st.mem[l.path] = Upd(c, (k,), T.lt(k, q), l.idx, v)
        eng.note_write(l.path, dst.idx, st)
        return
    if not db and not sb:
        es = eng.sizeof(src.ct)
        if eng.sizeof(dst.ct) != es:
            raise Unsupported('copy between words of different size')
        q = whole(eng, st, cnt, es, src, dst)
        k, v = typed_words(eng, st, src, q)
        from .exec import rebits
        v = rebits(v, dst.ct)
        if dst.single or (q.op == 'num' and q.info == 1):
            eng.store(eng.deref(dst, st), T.subst(v, {k: I(0)}), st)
            return
        l = eng.elem(dst, k, st)
        c = st.mem.get(l.path)
        if c is None:
            c = eng.default(l.path, len(l.idx), dst.ct)
        st.mem[l.path] = Upd(c, (k,), T.lt(k, q), l.idx, v)
        eng.note_write(l.path, dst.idx, st)
        return
    words = any(p[:len(q)] == q and p[-1].startswith('#w') for p in st.mem for q in (src.path, dst.path))
    if words or not (cnt.op == 'num' and cnt.info <= 64):
        # bytes, and the words that lie in them, keep their position
        if eng.byte_regions is None:
            raise Unsupported('byte to byte copy')
        from .exec import Base
        for part, srt in (('#wI', 'I'), ('#wR', 'R')):
            q, path = src.path + (part,), dst.path + (part,)
            c = st.mem.get(q)
            if c is None:
                c = st.mem[q] = Base('.'.join(map(str, q)), srt)
                if srt == 'I':
                    T.NONNEG.add(c.name)
            d = st.mem.get(path)
            if d is None:
                d = Base('.'.join(map(str, path)), srt)
            k = eng.nonneg_fresh('k')
            st.mem[path] = Upd(d, (k,), T.lt(k, cnt), dst.idx + (T.add(dst.off, k),), eng.read(c, src.idx + (T.add(src.off, k),), st))
            eng.note_write(path, dst.idx, st)
        eng.byte_regions.append((dst.path, dst.idx, dst.off, cnt, st.pc))
        l = eng.elem(dst, I(0), st)
        eng.note_write(l.path, dst.idx, st)
        st.mem[l.path] = Base(T.fresh_name('bytes'), 'I')
        return
    vs = [eng.load(eng.elem(src, I(b), st), st) for b in range(int(cnt.info))]
    for b, v in enumerate(vs):
        eng.store(eng.elem(dst, I(b), st), v, st)


def whole(eng, st, cnt, es, *ptrs):
    """number of whole words copied; a copy that ends inside a word is outside the model"""
    from .exec import Unsupported
    q = T.idiv(cnt, I(es))
    if not (T.mul(q, I(es)) is cnt or eng.quick(T.eq(T.mul(q, I(es)), cnt), st)):
        raise Unsupported('copy of part of a word')
    if any(p.single for p in ptrs) and not eng.quick(T.le(q, I(1)), st):
        raise Unsupported('copy beyond an object')
    return q


def kind_of(ct):
    return {'int': 'I', 'real': 'R', 'bool': 'B'}[ct.k]


def typed_words(eng, st, src, q):
    k = eng.nonneg_fresh('k')
    if src.single:
        v = eng.load(eng.deref(src, st), st)
    else:
        v = eng.load(eng.elem(src, k, st), st)
    return k, v


def bytes_read(eng, p, byteoff, el, st):
    from .exec import Loc, Base
    path = p.path + ('#w' + kind_of(el),)
    c = st.mem.get(path)
    if c is None:
        c = Base('.'.join(path), kind_of(el))
        if el.k == 'int' and not el.signed:
            T.NONNEG.add(c.name)
    return eng.read(c, p.idx + (T.add(p.off, byteoff),), st)


# ---------------------------------------------------------------- std::vector
def _n(obj):
    from .exec import Loc, _ptype
    return Loc(obj.path + ('#n',), obj.idx, _ptype('size_t'))


def _e(obj, i):
    from .exec import Loc
    return Loc(obj.path + ('#e',), obj.idx + (i,), obj.ct.elem)


def clear_elems(eng, obj, st):
    from .exec import Loc
    if obj.idx:
        return
    for p in eng.sub_paths(obj.path + ('#e',), st):
        eng.note_write(p, obj.idx, st)
        del st.mem[p]


def fill_from(eng, obj, lo, hi, v, st):
    """elements lo..hi-1 := v"""
    from .exec import Loc, Upd, Base, Const
    ct = obj.ct.elem
    if ct.k == 'vector':
        p = obj.path + ('#e', '#n')
        c = st.mem.get(p)
        if c is None:
            c = Base('.'.join(p), 'I')
            T.NONNEG.add(c.name)
        k = eng.nonneg_fresh('z')
        val = I(0)
        if v is not None:
            val = eng.load(_n(v), st)
        st.mem[p] = Upd(c, (k,), T.and_(T.le(lo, k), T.lt(k, hi)), obj.idx + (k,), val)
        eng.note_write(p, obj.idx, st)
        if v is not None:
            src = st.mem.get(v.path + ('#e',))
            if src is not None and ct.elem.k in ('int', 'real', 'bool'):
                q = obj.path + ('#e', '#e')
                j = eng.nonneg_fresh('z')
                c = st.mem.get(q) or Base('.'.join(q), {'int': 'I', 'real': 'R', 'bool': 'B'}[ct.elem.k])
                st.mem[q] = Upd(c, (k, j), T.and_(T.le(lo, k), T.lt(k, hi)), obj.idx + (k, j), eng.read(src, v.idx + (j,), st))
                eng.note_write(q, obj.idx, st)
        return
    if ct.k in ('class', 'array'):
        return
    z = v if v is not None else eng.zero_val(ct)
    p = obj.path + ('#e',)
    eng.note_write(p, obj.idx, st)
    if lo.op == 'num' and lo.info == 0 and not obj.idx and isinstance(z, T.E):
        st.mem[p] = Const(conv(z, ct))
        return
    c = st.mem.get(p)
    if c is None:
        c = eng.default(p, len(obj.idx) + 1, ct)
    if isinstance(z, T.E):
        z = conv(z, ct)
    k = eng.nonneg_fresh('z')
    st.mem[p] = Upd(c, (k,), T.and_(T.le(lo, k), T.lt(k, hi)), obj.idx + (k,), z)


def conv(z, ct):
    from .exec import sort_of
    s = sort_of(ct)
    if s == 'R' and z.sort == 'I': return T.to_real(z)
    if s == 'B' and z.sort == 'I': return T.ne(z, I(0))
    return z


def vector_construct(eng, loc, args, st):
    if args and args[0]['kind'] == 'CXXStdInitializerListExpr':
        x = args[0]
        while x['kind'] != 'InitListExpr':
            x = x['inner'][0]
        eng.init_list(loc, x, st)
        return
    from .exec import Loc, ptype
    if not args:
        eng.store(_n(loc), I(0), st)
        clear_elems(eng, loc, st)
        return
    t0 = ptype(args[0]['type'])
    if t0.k == 'ref': t0 = t0.elem
    if t0.k == 'vector':
        src = eng.ev(args[0], st)
        eng.copy_obj(loc, src, st)
        return
    n = eng.ev(args[0], st)
    v = None
    if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr':
        v = eng.ev(args[1], st)
        if isinstance(v, Loc) and v.ct.k in ('int', 'real', 'bool'):
            v = eng.load(v, st)
    clear_elems(eng, loc, st)
    eng.store(_n(loc), n, st)
    fill_from(eng, loc, I(0), n, v, st)


def vector_method(eng, obj, name, args, st, n):
    from .exec import Loc, Ptr, Unsupported, Upd, Fn
    if name in ('operator[]', 'at'):
        i = eng.ev(args[0], st)
        size = eng.load(_n(obj), st)
        eng.obl('index', T.and_(T.ge0(i), T.lt(i, size)), st, 'vector element in range')
        if eng.race is not None and obj.ct.elem.k == 'bool':
            eng.race.bits.add(_e(obj, i).path)          # several elements in one word
        return _e(obj, i)
    if name == 'size': return eng.load(_n(obj), st)
    if name == 'empty': return T.eq(eng.load(_n(obj), st), I(0))
    if name == 'data' or name == 'begin' or name == 'cbegin':
        return Ptr(obj.path + ('#e',), obj.idx, I(0), obj.ct.elem, False)
    if name == 'end' or name == 'cend':
        return Ptr(obj.path + ('#e',), obj.idx, eng.load(_n(obj), st), obj.ct.elem, False)
    if name in ('rbegin', 'crbegin', 'rend', 'crend'):
        # the elements read from the back: a view of the contents, which the vector keeps as long as the iterator is used
        src = obj.path + ('#e',)
        k = len(obj.idx)
        size = eng.load(_n(obj), st)
        view = ('REV',) + src
        for p in [src] + [q for q in list(st.mem) if q[:len(src)] == src and len(q) > len(src)]:
            c = st.mem.get(p)
            if c is None:
                continue
            snap = st.copy()
            st.mem[('REV',) + p] = Fn(lambda ix, c=c, snap=snap: eng.read(c, tuple(ix[:k]) + (T.sub(T.sub(size, I(1)), ix[k]),) + tuple(ix[k + 1:]), snap), getattr(c, 'sort', 'R'))
        return Ptr(view, obj.idx, I(0) if name.endswith('begin') else size, obj.ct.elem, False)
    if name == 'back':
        return _e(obj, T.sub(eng.load(_n(obj), st), I(1)))
    if name == 'front': return _e(obj, I(0))
    if name == 'reserve' or name == 'shrink_to_fit':
        return None
    if name in ('push_back', 'emplace_back'):
        size = eng.load(_n(obj), st)
        v = eng.ev(args[0], st)
        if isinstance(v, Loc) and v.ct.k in ('int', 'real', 'bool', 'ptr'):
            v = eng.load(v, st)
        eng.store(_e(obj, size), v, st)
        eng.store(_n(obj), T.add(size, I(1)), st)
        return None
    if name == 'insert' and len(args) == 3:
        at, lo, hi = (eng.ev(a, st) for a in args)
        if not all(isinstance(x, Ptr) for x in (at, lo, hi)) or lo.path != hi.path or lo.idx != hi.idx or at.path != obj.path + ('#e',) or at.idx != obj.idx:
            raise Unsupported('vector::insert')
        size, cnt = eng.load(_n(obj), st), T.sub(hi.off, lo.off)
        if not eng.quick(T.eq(at.off, size), st):
            raise Unsupported('insertion in the middle of a vector')
        hook = getattr(eng, 'append_hook', None)
        if hook is not None and hook(eng, obj, lo, cnt, st):
            return None
        k = eng.nonneg_fresh('k')
        v = eng.load(eng.elem(lo, k, st), st)
        if not isinstance(v, T.E) or obj.ct.elem.size == 1:
            raise Unsupported('insertion of objects')
        l = _e(obj, T.add(size, k))
        c = st.mem.get(l.path)
        if c is None:
            c = eng.default(l.path, len(l.idx), l.ct)
        st.mem[l.path] = Upd(c, (k,), T.lt(k, cnt), l.idx, v)
        eng.note_write(l.path, obj.idx, st)
        eng.store(_n(obj), T.add(size, cnt), st)
        return None
    if name == 'pop_back':
        size = eng.load(_n(obj), st)
        eng.store(_n(obj), T.sub(size, I(1)), st)
        return None
    if name == 'clear':
        eng.store(_n(obj), I(0), st)
        return None
    if name == 'resize':
        m = eng.ev(args[0], st)
        v = None
        if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr':
            v = eng.ev(args[1], st)
            if isinstance(v, Loc) and v.ct.k in ('int', 'real', 'bool'):
                v = eng.load(v, st)
        old = eng.load(_n(obj), st)
        fill_from(eng, obj, old, m, v, st)
        eng.store(_n(obj), m, st)
        return None
    if name == 'assign':
        m, v = eng.ev(args[0], st), eng.ev(args[1], st)
        if isinstance(v, Loc): v = eng.load(v, st)
        clear_elems(eng, obj, st)
        fill_from(eng, obj, I(0), m, v, st)
        eng.store(_n(obj), m, st)
        return None
    if name == 'operator=':
        src = eng.ev(args[0], st)
        eng.copy_obj(obj, src, st)
        return obj
    raise Unsupported('vector::' + name)


def lib_method(eng, obj, name, args, st, n):
    from .exec import Opaque, Unsupported, ptype
    if eng.lib_hook is not None:
        r = eng.lib_hook(obj, name, args, st, n)
        if r is not NotImplemented:
            return r
    if obj.ct.k == 'class' and re.match(r'std::map<', obj.ct.name):
        return map_method(eng, obj, name, args, st, n)
    if eng.race is not None and obj.ct.k == 'class' and re.match(r'(std::)?priority_queue<', obj.ct.name):
        eng.race.access(obj.path, obj.idx, name not in ('size', 'empty', 'top'), st)
    if obj.ct.k == 'class' and re.match(r'(std::)?priority_queue<', obj.ct.name) and getattr(eng, 'queue_hook', None) is not None:
        return eng.queue_hook.op(eng, obj, name, args, st, n)
    if obj.ct.k == 'class' and re.match(r'(std::)?set<', obj.ct.name):
        return set_method(eng, obj, name, args, st, n)
    if obj.ct.k == 'class' and 'string' in obj.ct.name:
        return Opaque('string')
    if obj.ct.k == 'bool' and name == 'operator bool':      # element of std::vector<bool>
        return eng.load(obj, st)
    if obj.ct.k == 'array' and name == 'size':
        return I(obj.ct.n)
    if obj.ct.k == 'array' and name == 'data':
        from .exec import Ptr
        return Ptr(obj.path, obj.idx, I(0), obj.ct.elem)
    if eng.race is not None and obj.ct.k == 'class' and re.match(r'(std::)?(list|deque)<', obj.ct.name):
        return list_method(eng, obj, name, args, st, n)
    raise Unsupported('library method %s of %r' % (name, obj.ct))


def list_method(eng, obj, name, args, st, n):
    """sequences whose contents do not matter to the analysis (only who touches them)"""
    from .exec import Unsupported, ptype
    if name in ('push_back', 'push_front', 'emplace_back'):
        for a in args:
            try:
                eng.ev(a, st)
            except Unsupported:
                if a.get('kind') not in ('InitListExpr', 'CXXConstructExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr'):
                    raise
        eng.race.access(obj.path, obj.idx, True, st)
        return None
    if name in ('back', 'front'):
        eng.race.access(obj.path, obj.idx, False, st)
        ct = ptype(n['type'])
        return eng.temp('it', ct.elem if ct.k == 'ref' else ct)
    raise Unsupported('sequence method ' + name)


def lib_operator(eng, obj, name, args, st, n):
    from .exec import Opaque, Unsupported, Ptr
    if obj is not None and name == 'operator=' and obj.ct.k == 'bool':
        v = eng.ev(args[1], st)
        if isinstance(v, T.E) and v.sort == 'I':
            v = T.ne(v, I(0))
        eng.store(obj, v, st)
        return obj
    if obj is not None and name == 'operator=' and 'string' in obj.ct.name:      # strings are opaque: remember what was assigned
        v = eng.ev(args[1], st)
        p = obj.path + ('#str',)
        eng.note_write(p)
        st.mem[p] = v if isinstance(v, (Ptr, Opaque)) else Opaque('string')
        return obj
    if '_Rb_tree' in str(args[0]['type']) and name in ('operator==', 'operator!='):      # one side must be end()
        a, b = [eng.lv(x, st, allow_rvalue=True) for x in args]
        pa, pb = [st.mem.get(x.path + ('#present',)) for x in (a, b)]
        if pa is not None and pb is not None and (pa is FALSE or pb is FALSE):
            e = T.not_(pa if pb is FALSE else pb)
            return e if name == 'operator==' else T.not_(e)
    if '_Rb_tree' in str(args[0]['type']) and name in ('operator->', 'operator*'):
        a = eng.lv(args[0], st, allow_rvalue=True)
        eng.obl('null', st.mem.get(a.path + ('#present',), FALSE), st, 'iterator is not end()')
        return a
    raise Unsupported('library operator ' + name)
