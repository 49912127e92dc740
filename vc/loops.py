"""Loop summaries valid for any number of iterations.

A loop is replaced by the exact state after N iterations (N symbolic).  The per-iteration contract is found
mechanically: scalars are inductions (x0 + c*t), prefix accumulations (x0 + Sum_{k<t} g(k)), flags, running
maxima or last-written values; every array update of the body becomes one update quantified over the iteration
variable.  The inductive step is *checked* on every run (the body is executed once for an arbitrary iteration t
from the closed-form state and must produce the closed form for t+1), and the frame condition that no
iteration reads or overwrites what another iteration wrote is discharged syntactically or by the SMT solver.
What cannot be put into this shape becomes an arbitrary value (sound over-approximation)."""
from . import term as T
from .term import I, R, TRUE, FALSE

UNROLL = 40


def exec_loop(eng, st, cond, body, inc, _unused, node):
    from .exec import Out, State, Unsupported
    if eng.loop_hook is not None:
        r = eng.loop_hook(eng, st, cond, body, inc, node)
        if r is not None:
            return r
    # ---- constant trip count: unroll -------------------------------------------------
    try:
        c0 = cond(st.copy())
    except Unsupported:
        c0 = None
    if c0 is FALSE:
        return Out(norm=st)
    if c0 is TRUE:
        o = try_unroll(eng, st, cond, body, inc, node)
        if o is not None:
            return o
    return Summary(eng, st, cond, body, inc, node).run()


def try_unroll(eng, st, cond, body, inc, node):
    from .exec import Out
    nobl, nev = len(eng.obls), (len(eng.events) if eng.events is not None else 0)
    cur = st.copy()
    brk, ret = [], []
    for _ in range(UNROLL + 1):
        c = cond(cur)
        if c is FALSE:
            return Out(norm=eng.merge_list(brk + [cur]), ret=ret)
        if c is not TRUE:
            break
        o = body(cur)
        brk += o.brk
        ret += o.ret
        cur = eng.merge_list(o.cont + ([o.norm] if o.norm is not None else []))
        if cur is None:
            return Out(norm=eng.merge_list(brk), ret=ret)
        if inc is not None:
            inc(cur)
    del eng.obls[nobl:]
    if eng.events is not None:
        del eng.events[nev:]
    return None


class Summary(object):
    def __init__(self, eng, st, cond, body, inc, node):
        self.eng, self.st0, self.cond, self.body, self.inc, self.node = eng, st, cond, body, inc, node
        self.key = node['id']
        self.t = eng.nonneg_fresh('t')

    # ------------------------------------------------------------------ helpers
    def rel(self, path):
        return tuple('L*' if p == 'L%d' % self.eng.frame else p for p in path)

    def unrel(self, path):
        return tuple('L%d' % self.eng.frame if p == 'L*' else p for p in path)

    def pre_val(self, p):
        """value/content of path p before the loop, or None if it never had one"""
        return self.st0.mem.get(p)

    def is_array(self, p, after=None):
        from .exec import CONTENTS
        v = self.st0.mem.get(p)
        if v is None:
            v = after
        return isinstance(v, CONTENTS)

    def run(self):
        from .exec import Out, Unsupported, Ptr, Opaque, CONTENTS, Base, Upd, Const
        eng, t = self.eng, self.t
        cache = eng.loop_cache.get(self.key, {})
        self.mod = {}        # path -> kind: ('havoc',) | ('ind', step) | ('acc', g) | ('flag+', f) ...
        for rp, kind in cache.items():
            p = self.unrel(rp)
            self.mod[p] = kind if kind == ('arr',) or kind[0] == 'guess-ind' else ('havoc',)
        nobl = len(eng.obls)
        nev = len(eng.events) if eng.events is not None else 0
        nfacts = len(eng.facts)
        for rnd in range(12):
            del eng.obls[nobl:]
            if eng.events is not None:
                del eng.events[nev:]
            self.markers, self.hsym = {}, {}
            s = self.st0.copy()
            self.frame0 = eng._frames[0]
            self.prepare(s)
            written = set()
            declared = set()
            saved_w, saved_d = eng.written, eng.declared
            eng.written = (eng.written or []) + [written]
            eng.declared = eng.declared + [declared]
            eng.loop_vars.append(t)
            try:
                pc0 = s.pc
                c = cond_t = self.cond(s)
                s.pc = T.and_(s.pc, c)
                if s.pc is FALSE:
                    return Out(norm=self.st0)
                o = self.body(s)
                nxt = eng.merge_list(o.cont + ([o.norm] if o.norm is not None else []))
                if nxt is not None and self.inc is not None:
                    self.inc(nxt)
            finally:
                eng.loop_vars.pop()
                eng.written, eng.declared = saved_w, saved_d
            if nxt is None:
                # at most one iteration: behaves like an if statement
                return self.once(nobl)
            new = self.note_written(written, declared, nxt, o)
            if new:
                continue
            self.cur_updates = {p: self.updates(p, nxt.mem) for p, k in self.mod.items() if k == ('arr',)}
            if self.verify(nxt):
                continue
            if self.classify(nxt, cond_t):
                continue
            break
        else:
            raise Unsupported('loop summary does not stabilise')
        eng.loop_cache[self.key] = {self.rel(p): (k if k == ('arr',) else
                                                  (('guess-ind', k[1]) if k[0] == 'ind' and k[1].op == 'num' else ('havoc',)))
                                    for p, k in self.mod.items()}
        return self.finish(nxt, o, cond_t, nobl)

    # ------------------------------------------------------------------ start state of an arbitrary iteration
    def prepare(self, s):
        from .exec import Unsupported, Ptr, Opaque, CONTENTS, Base, View
        eng, t = self.eng, self.t
        lv = tuple(eng.loop_vars) + (t,)
        for p, kind in list(self.mod.items()):
            v0 = self.pre_val(p)
            if kind == ('arr',):
                b = self.array_marker(p, v0)
                if b is not None:
                    s.mem[p] = b
                else:
                    s.mem.pop(p, None)
                continue
            if kind[0] == 'guess-ind':
                if isinstance(v0, (T.E, Ptr)):
                    self.mod[p] = kind = ('ind', kind[1])
                else:
                    self.mod[p] = kind = ('havoc',)
            if kind[0] == 'havoc':
                s.mem[p] = self.havoc(p, v0, lv)
            else:
                s.mem[p] = self.closed(p, kind, t)
            if s.mem[p] is None:
                del s.mem[p]

    def havoc(self, p, v0, lv):
        from .exec import Ptr, Opaque
        eng = self.eng
        if isinstance(v0, Ptr):
            h = T.app(T.fresh_name('hp'), lv, 'I')
            self.hsym[h] = p
            return Ptr(v0.path, v0.idx, h, v0.ct, v0.single, v0.dims, v0.stride)
        sort = v0.sort if isinstance(v0, T.E) else self.sorts.get(p) if hasattr(self, 'sorts') else None
        if sort is None:
            return Opaque('modified in a loop') if v0 is not None else None
        nm = T.fresh_name('h_' + p[-1])
        d = T.var('.'.join(p), sort)
        if isinstance(v0, T.E) and self.unsigned(p):
            T.NONNEG.add(nm)
        h = T.app(nm, lv, sort)
        self.hsym[h] = p
        return h

    def unsigned(self, p):
        return p in getattr(self.eng, 'unsigned_paths', ())

    def array_marker(self, p, v0):
        from .exec import Base, CONTENTS
        nm = T.fresh_name('M_' + p[-1])
        sort, ct, arity = None, None, None
        if isinstance(v0, CONTENTS):
            sort = self.content_sort(v0)
            x = v0
        else:
            sort = getattr(self, 'arr_sort', {}).get(p)
        if sort is None:
            return None
        b = Base(nm, sort, None)
        self.markers[nm] = p
        self.marker_base = getattr(self, 'marker_base', {})
        self.marker_base[nm] = b
        if self.content_unsigned(v0):
            T.NONNEG.add(nm)
        return b

    def content_sort(self, c):
        from .exec import Base, Upd, View, IteC, Const, Fn
        while True:
            if isinstance(c, Base): return c.sort
            if isinstance(c, Upd):
                if isinstance(c.val, T.E): return c.val.sort
                c = c.prev
            elif isinstance(c, View): c = c.base
            elif isinstance(c, IteC): c = c.a
            elif isinstance(c, Const): return c.val.sort if isinstance(c.val, T.E) else None
            elif isinstance(c, Fn): return getattr(c, 'sort', 'R')
            else: return None

    def content_unsigned(self, c):
        from .exec import Base, Upd, View, IteC, Const
        while c is not None:
            if isinstance(c, Base): return c.name in T.NONNEG
            if isinstance(c, Const): return isinstance(c.val, T.E) and c.val.sort == 'I' and T.known_nonneg(c.val)
            if isinstance(c, Upd):
                if isinstance(c.val, T.E) and c.val.sort == 'I' and not T.known_nonneg(c.val): return False
                c = c.prev
            elif isinstance(c, View): c = c.base
            elif isinstance(c, IteC): c = c.a
            else: return False
        return False

    def closed(self, p, kind, t):
        """value of the scalar at the start of iteration t"""
        from .exec import Ptr
        v0 = self.pre_val(p)
        if kind[0] == 'ind':
            if isinstance(v0, Ptr):
                return Ptr(v0.path, v0.idx, T.add(v0.off, T.mul(kind[1], t)), v0.ct, v0.single, v0.dims, v0.stride)
            step = kind[1]
            if v0.sort == 'R':
                return T.add(v0, T.mul(step if step.sort == 'R' else T.to_real(step), T.to_real(t)))
            return T.add(v0, T.mul(step, t))
        if kind[0] == 'acc':
            k = self.eng.nonneg_fresh('k')
            return T.add(v0, T.mksum(k, I(0), t, T.subst(kind[1], {self.t: k})))
        if kind[0] == 'flag+':
            k = self.eng.nonneg_fresh('k')
            return T.or_(v0, T.exists(k, I(0), t, T.subst(kind[1], {self.t: k})))
        if kind[0] == 'flag-':
            k = self.eng.nonneg_fresh('k')
            return T.and_(v0, T.forall(k, I(0), t, T.subst(kind[1], {self.t: k})))
        if kind[0] == 'max':
            k = self.eng.nonneg_fresh('k')
            m = T.fmaxover(k, I(0), t, T.subst(kind[1], {self.t: k}))
            return T.mx(v0, m)
        if kind[0] == 'last':
            prev = T.subst(kind[1], {self.t: T.sub(t, I(1))})
            if isinstance(v0, T.E) and v0.sort != prev.sort:
                v0, prev = T.coerce2(v0, prev)
            return T.ite(T.gt(t, I(0)), prev, v0 if isinstance(v0, T.E) else prev)
        raise Exception(kind)

    # ------------------------------------------------------------------ discovery
    def note_written(self, written, declared, nxt, o):
        from .exec import CONTENTS, Opaque
        eng = self.eng
        self.sorts = getattr(self, 'sorts', {})
        self.arr_sort = getattr(self, 'arr_sort', {})
        self.arr_arity = getattr(self, 'arr_arity', {})
        cur = 'L%d' % eng.frame
        new = False
        for p in written:
            if p in self.mod:
                continue
            if any(p[:len(d)] == d for d in declared):
                continue
            if p[0].startswith('L') and p not in self.st0.mem and p not in nxt.mem:
                continue        # temporary
            if p[0].startswith('L') and p[1].startswith(('tmp@', 'ret@', 'rv@')):
                continue
            if p[0].startswith('L') and int(p[0][1:]) > self.frame0:
                continue
            v = self.st0.mem.get(p)
            if v is None:
                v = nxt.mem.get(p)
            if v is None:
                continue
            if isinstance(v, CONTENTS):
                self.mod[p] = ('arr',)
                s = self.content_sort(v)
                self.arr_sort[p] = s
                new = True
            else:
                if isinstance(v, T.E):
                    self.sorts[p] = v.sort
                if v is self.st0.mem.get(p) and nxt.mem.get(p) is v and not any(
                        x.mem.get(p) is not v for x in o.brk + [r[0] for r in o.ret]):
                    continue        # written back unchanged
                self.mod[p] = ('havoc',)
                new = True
        return new

    def val_eq(self, a, b):
        from .exec import Ptr
        if a is b: return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.path == b.path and a.idx == b.idx and a.off is b.off
        return False

    def verify(self, nxt):
        """the closed forms are preserved by one arbitrary iteration (inductive step); demote failures"""
        from .exec import Ptr
        changed = False
        t1 = T.add(self.t, I(1))
        for p, kind in list(self.mod.items()):
            if kind[0] in ('ind',):
                want = self.closed(p, kind, t1)
                got = nxt.mem.get(p)
                if not self.val_eq(want, got):
                    if isinstance(got, T.E) and isinstance(want, T.E) and got.sort == want.sort and self.eng.quick(T.eq(got, want), nxt):
                        continue
                    self.mod[p] = ('havoc',) if kind[-1] != 'final' else kind
                    changed = True
            elif kind[0] == 'acc':
                got, start = nxt.mem.get(p), self.closed(p, kind, self.t)
                inc = self.resolve(T.sub(got, start), nxt.pc) if isinstance(got, T.E) else None
                if inc is None or not (inc is kind[1] or self.eng.quick(T.eq(inc, kind[1]))):
                    self.mod[p] = ('dead',)
                    changed = True
            elif kind[0] in ('flag+', 'flag-'):
                start = self.closed(p, kind, self.t)
                want = T.or_(start, kind[1]) if kind[0] == 'flag+' else T.and_(start, kind[1])
                got = nxt.mem.get(p)
                if got is not want and not (isinstance(got, T.E) and got.sort == 'B' and self.eng.quick(T.eq(got, want))):
                    self.mod[p] = ('dead',)
                    changed = True
            elif kind[0] == 'max':
                start = self.closed(p, kind, self.t)
                got = nxt.mem.get(p)
                want = T.mx(start, kind[1])
                if got is not want and not (isinstance(got, T.E) and self.eng.quick(T.eq(got, want))):
                    self.mod[p] = ('dead',)
                    changed = True
            elif kind[0] == 'last':
                if nxt.mem.get(p) is not kind[1]:
                    self.mod[p] = ('dead',)
                    changed = True
        for p, k in self.mod.items():
            if k == ('dead',):
                self.mod[p] = ('havoc',)
                self.dead = getattr(self, 'dead', set()) | {p}
        return changed

    def classify(self, nxt, cond_t):
        from .exec import Ptr
        eng = self.eng
        hs = set(self.hsym)
        inv = {p: h for h, p in self.hsym.items()}
        dead = getattr(self, 'dead', set())
        found = False

        def fv_h(e):
            return set(T.atoms_of(e, lambda x: x in hs))
        cands = [p for p, k in self.mod.items() if k == ('havoc',) and p not in dead]
        # inductions first
        for p in cands:
            v0, h, v = self.pre_val(p), inv.get(p), nxt.mem.get(p)
            if h is None or v is None:
                continue
            if isinstance(v, Ptr):
                if not (isinstance(v0, Ptr) and v.path == v0.path and v.idx == v0.idx): continue
                d = T.sub(v.off, h)
            elif isinstance(v, T.E) and v.sort in 'IR' and isinstance(v0, T.E):
                if v.sort != h.sort: continue
                d = T.sub(v, h)
            else:
                continue
            if not fv_h(d) and self.t not in T.free_vars(d) and not self.reads_marker(d):
                self.mod[p] = ('ind', d)
                found = True
        if found:
            return True
        for p in cands:
            v0, h, v = self.pre_val(p), inv.get(p), nxt.mem.get(p)
            if h is None or not isinstance(v, T.E) or not isinstance(v0, T.E):
                continue
            if v.sort == 'B':
                f1 = T.subst(v, {h: TRUE})
                f0 = T.subst(v, {h: FALSE})
                if fv_h(f1) or fv_h(f0): continue
                if self.reads_marker(f1) or self.reads_marker(f0): continue
                if f1 is TRUE:
                    self.mod[p] = ('flag+', f0)
                    found = True
                elif f0 is FALSE:
                    self.mod[p] = ('flag-', f1)
                    found = True
                elif f0 is f1:
                    pass
                continue
            d = T.sub(self.pull_ite(v, h), h)
            if not fv_h(d):
                d = self.resolve(d, nxt.pc)
                if d is not None:
                    self.mod[p] = ('acc', d)
                    found = True
                    continue
            m = self.max_form(v, h)
            if m is not None and not fv_h(m):
                m = self.resolve(m, nxt.pc)
                if m is not None:
                    self.mod[p] = ('max', m)
                    found = True
                    continue
        if found:
            return True
        # values that are overwritten but whose previous value is used in the iteration
        used = set()
        for q, v in nxt.mem.items():
            if isinstance(v, T.E) and q in self.mod:
                used |= fv_h(v)
        used |= fv_h(cond_t)
        for p in cands:
            h, v, v0 = inv.get(p), nxt.mem.get(p), self.pre_val(p)
            if h is None or not isinstance(v, T.E) or self.mod[p] != ('havoc',) or not isinstance(v0, T.E):
                continue
            if h in used and not fv_h(v) and not self.reads_marker(v):
                self.mod[p] = ('last', v)
                found = True
        return found

    def pull_ite(self, v, h):
        """ite(c, h+g, h) -> h + ite(c, g, 0)"""
        if v.op == 'ite':
            a, b = self.pull_ite(v.args[1], h), self.pull_ite(v.args[2], h)
            ga, gb = T.sub(a, h), T.sub(b, h)
            if h not in T.atoms_of(ga, lambda x: x is h) and h not in T.atoms_of(gb, lambda x: x is h):
                return T.add(h, T.ite(v.args[0], ga, gb))
        return v

    def max_form(self, v, h):
        """v == max(h, e) with h not in e: returns e (guarded by -inf where h stays)"""
        if v is h:
            return T.neginf()
        if v.op == 'mx' and h in v.args:
            return T.mx(*[x for x in v.args if x is not h])
        if v.op == 'mx':
            # max(a, ite(c, max(h, ..), h))
            parts = []
            found = False
            for x in v.args:
                m = self.max_form(x, h) if T.atoms_of(x, lambda y: y is h) else None
                if m is None:
                    if T.atoms_of(x, lambda y: y is h): return None
                    parts.append(x)
                else:
                    found = True
                    parts.append(m)
            return T.mx(*parts) if found else None
        if v.op == 'ite' and not T.atoms_of(v.args[0], lambda y: y is h):
            a, b = self.max_form(v.args[1], h), self.max_form(v.args[2], h)
            if a is None or b is None: return None
            return T.ite(v.args[0], a, b)
        return None

    # ------------------------------------------------------------------ reads of loop-modified arrays
    def reads_marker(self, e):
        return bool(T.atoms_of(e, lambda x: x.op == 'app' and x.info in self.markers))

    def updates(self, p, mem):
        """updates of array p performed by one iteration, oldest first; None if not of that form"""
        from .exec import Upd, Base
        c = mem.get(p)
        out = []
        while isinstance(c, Upd):
            out.append(c)
            c = c.prev
        root = c
        nm = None
        for n, q in self.markers.items():
            if q == p: nm = n
        if nm is not None and isinstance(root, Base) and root.name == nm:
            return self.coalesce(list(reversed(out)))
        return None

    def coalesce(self, ups):
        """consecutive unconditional-or-conditional writes of one and the same element become one write"""
        from .exec import Upd
        out = []
        for u in ups:
            v = out[-1] if out else None
            if v is not None and not u.params and not v.params and isinstance(u.val, T.E) and isinstance(v.val, T.E) \
                    and len(u.addr) == len(v.addr) and all(a is b for a, b in zip(u.addr, v.addr)):
                out[-1] = Upd(None, (), T.or_(v.guard, u.guard), u.addr, T.ite(u.guard, u.val, v.val))
            else:
                out.append(u)
        return out

    def resolve(self, e, pc, keep=None, hyps=()):
        """replace reads of loop-modified arrays by reads of their contents before the loop.
        Returns None when an earlier iteration may have written the element read.  `keep` = (marker name, addr):
        reads of exactly that element are left in place."""
        if not self.reads_marker(e):
            return e
        memo = {}

        def go(x, hyps):
            if not self.reads_marker(x):
                return x
            k = (x, hyps)
            if k in memo:
                return memo[k]
            if x.op == 'app' and x.info in self.markers:
                idx = tuple(go(a, hyps) for a in x.args)
                if any(a is None for a in idx):
                    r = None
                elif keep is not None and x.info == keep[0] and all(a is b for a, b in zip(idx, keep[1])):
                    r = x
                else:
                    r = self.read_pre(x.info, idx, pc, hyps)
            elif x.op in ('sum', 'forall', 'fmax'):
                lo, hi, b = x.args
                lo, hi = go(lo, hyps), go(hi, hyps)
                nv = self.eng.nonneg_fresh('bv')
                if lo is None or hi is None:
                    r = None
                else:
                    b2 = go(T.subst(b, {T.bvar(x.info): nv}), hyps + (T.le(lo, nv), T.lt(nv, hi)))
                    if b2 is None:
                        r = None
                    else:
                        r = {'sum': T.mksum, 'forall': T.forall, 'fmax': T.fmaxover}[x.op](nv, lo, hi, b2)
            elif x.op == 'ite':
                c = go(x.args[0], hyps)
                if c is None:
                    r = None
                else:
                    a = go(x.args[1], hyps + (c,))
                    b = go(x.args[2], hyps + (T.not_(c),))
                    r = None if a is None or b is None else T.ite(c, a, b)
            else:
                bad = []

                def f(y):
                    z = go(y, hyps)
                    if z is None:
                        bad.append(1)
                        return y
                    return z
                r = T.rebuild(x, f)
                if bad: r = None
            memo[k] = r
            return r
        return go(e, tuple(hyps))

    def read_pre(self, marker, idx, pc, hyps):
        p = self.markers[marker]
        ups = self.cur_updates.get(p)
        if ups is None:
            return None
        eng = self.eng
        t2 = eng.nonneg_fresh('t')
        for u in ups:
            if not self.may_hit_earlier(u, idx, t2, pc, hyps):
                continue
            r = self.recurrence(p, u, ups, idx, pc)
            if r is not None:
                return r
            return None
        pre = self.pre_content(p)
        if pre is None:
            return None
        return eng.read(pre, idx, self.st0)

    def recurrence(self, p, u, ups, idx, pc):
        """A[t+c] = A[t+c-1] + g(t): the element read is pre[c-1] + Sum_{k<t} g(k)"""
        if len(ups) != 1 or u.params or u.guard is not TRUE and self.reads_marker(u.guard):
            return None
        if len(u.addr) != len(idx):
            return None
        j = None
        for k, (a, q) in enumerate(zip(u.addr, idx)):
            if a is q: continue
            if T.sub(a, q) is I(1) and T._poly(a).get(((self.t, 1),)) == 1: j = k
            else: return None
        if j is None: return None
        nm = [n for n, q in self.markers.items() if q == p][0]
        here = T.app(nm, idx, u.val.sort)
        g = T.sub(u.val, here)
        if self.reads_marker(g):
            g = T.sub(self.pull_ite(u.val, here), here)
        if self.reads_marker(g): return None
        if not self.eng.quick(u.guard, None, (pc,)): return None
        pre = self.pre_content(p)
        if pre is None: return None
        first = tuple(T.subst(q, {self.t: I(0)}) for q in idx)
        k = self.eng.nonneg_fresh('k')
        return T.add(self.eng.read(pre, first, self.st0), T.mksum(k, I(0), self.t, T.subst(g, {self.t: k})))

    def pre_content(self, p):
        c = self.st0.mem.get(p)
        if c is None:
            from .exec import Base
            return Base('.'.join(p), self.arr_sort.get(p) or 'R')
        return c

    def may_hit_earlier(self, u, idx, t2, pc, hyps):
        """may an iteration t2 < t have written element idx (read in iteration t)?"""
        if len(u.addr) != len(idx):
            return True
        ren = {self.t: t2}
        for q in u.params:
            ren[q] = self.eng.nonneg_fresh('p')
        f = T.lt(t2, self.t)
        disjoint = False
        for a, q in self.linear(u.addr, idx):
            a2 = T.subst(a, ren)
            d = T.sub(a2, q)
            pl = T._poly(d)
            c2, c1 = pl.get(((t2, 1),)), pl.get(((self.t, 1),))
            if c2 is not None and c1 == -c2 and len(pl) == 2:
                return False            # equal addresses force t2 == t
            e = T.eq(a2, q)
            if e is FALSE:
                return False
            f = T.and_(f, e)
        g = self.plain(T.subst(u.guard, ren))
        extra = [f, g, self.plain(T.subst(pc, {self.t: t2}))] + [self.plain(h) for h in hyps]
        if any(x is FALSE for x in extra):
            return False
        return not self.eng.quick(FALSE, None, [self.plain(pc)] + extra)

    def plain(self, e):
        return e

    def linear(self, a, b):
        """pairs of index components; equal digits of two linear indices mean equal linear indices"""
        out = list(zip(a, b))
        x, y = self.eng.digits.get(tuple(a)), self.eng.digits.get(tuple(b))
        if x is not None and y is not None and x[1] == y[1]:
            out = [(x[0], y[0])] + out
        return out

    # ------------------------------------------------------------------ state after the loop
    def once(self, nobl):
        from .exec import Out
        eng = self.eng
        del eng.obls[nobl:]
        s1 = self.st0.copy()
        c = self.cond(s1)
        if c is FALSE:
            return Out(norm=s1)
        s2 = s1.copy()
        s1.pc, s2.pc = T.and_(s1.pc, c), T.and_(s2.pc, T.not_(c))
        o = self.body(s1)
        norms = o.brk + ([s2] if s2.pc is not FALSE else [])
        return Out(norm=eng.merge_list(norms), ret=o.ret)

    def trip(self, cond_t):
        """N such that cond holds for t<N and fails at N (first failure); (N, None) or None"""
        eng, t = self.eng, self.t
        parts = cond_t.args if cond_t.op == 'and' else (cond_t,)
        N = None
        for c in parts:
            if t not in T.free_vars(c):
                return None
            if c.op == 'ge':
                p = T._poly(c.args[0])
                k = p.get(((t, 1),))
                rest = {m: x for m, x in p.items() if m != ((t, 1),)}
                if k is None or k >= 0 or any(t in T.free_vars(a) for m in rest for a, _ in m):
                    return None
                A = T.from_poly(rest, 'I')      # A - |k| t >= 0
                if k == -1:
                    n = T.add(A, I(1))
                else:
                    n = T.add(T.idiv(A, I(-k)), I(1))
                if not T.known_nonneg(n):
                    lo = T.ge0(A)
                    if eng.quick(T.ge0(n), self.st0):
                        pass
                    else:
                        n = T.ite(lo, n, I(0))
                N = n if N is None else T.imin(N, n)
            elif c.op == 'not' and c.args[0].op == 'eq':
                p = T._poly(c.args[0].args[0])
                k = p.get(((t, 1),))
                rest = {m: x for m, x in p.items() if m != ((t, 1),)}
                if k not in (1, -1) or any(t in T.free_vars(a) for m in rest for a, _ in m):
                    return None
                n = T.scale(-k, T.from_poly(rest, 'I'))
                if not T.known_nonneg(n) and not eng.quick(T.ge0(n), self.st0):
                    return None
                N = n if N is None else T.imin(N, n)
            else:
                return None
        return N

    def finish(self, nxt, o, cond_t, nobl):
        from .exec import Out, Unsupported, Opaque, CONTENTS, Base, Upd, View, Ptr, Fn
        eng, t, st0 = self.eng, self.t, self.st0
        self.cur_updates = {p: self.updates(p, nxt.mem) for p, k in self.mod.items() if k == ('arr',)}
        pc_body = nxt.pc
        cond_t = self.resolve(cond_t, st0.pc) or cond_t
        N = None
        if cond_t is TRUE:
            N = None
        else:
            N = self.trip(cond_t)
        lv = tuple(eng.loop_vars)
        exits = [(s, None) for s in o.brk] + [(s, v) for s, v in o.ret]
        # ----- early exits
        if N is None or exits:
            K = T.app(T.fresh_name('K'), lv, 'I')
            T.NONNEG.add(K.info)
            g = FALSE
            for s, _ in exits:
                g = T.or_(g, self.delta_pc(s.pc, st0.pc, cond_t))
            stay = T.and_(T.not_(g), cond_t) if N is None else T.not_(g)
            stay_r = self.resolve(stay, TRUE)
            exact = stay_r is not None and not T.atoms_of(stay_r, lambda x: x in self.hsym)
            if exact:
                nm = K.info
                outer = [v for v in lv]
                t_ = t
                N_ = N

                def facts(args, stay_r=stay_r, outer=outer, nm=nm, N_=N_):
                    m = dict(zip(outer, args))
                    k = T.app(nm, args, 'I')
                    st = T.subst(stay_r, m) if m else stay_r
                    q = eng.nonneg_fresh('q')
                    out = [T.ge0(k), T.forall(q, I(0), k, T.subst(st, {t_: q}))]
                    if N_ is not None:
                        n = T.subst(N_, m) if m else N_
                        out.append(T.le(k, n))
                        out.append(T.or_(T.ge(k, n), T.not_(T.subst(st, {t_: k}))))
                    else:
                        out.append(T.not_(T.subst(st, {t_: k})))
                    return out
                eng.axioms.add(nm, facts)
                if N is None:
                    eng.assumed.add('loops without an induction variable terminate (partial correctness)')
            else:
                def facts2(args, nm=K.info, outer=list(lv), N_=N):
                    m = dict(zip(outer, args))
                    k = T.app(nm, args, 'I')
                    out = [T.ge0(k)]
                    if N_ is not None:
                        out.append(T.le(k, T.subst(N_, m) if m else N_))
                    return out
                eng.axioms.add(K.info, facts2)
                if N is None:
                    eng.assumed.add('loops without an induction variable terminate (partial correctness)')
            bound, NN = K, N
        else:
            bound, NN = N, N
        # ----- obligations recorded in the body: for an arbitrary iteration t
        for ob in eng.obls[nobl:]:
            ob.hyps = tuple(self.final_term(h, h) for h in ob.hyps) + (T.lt(t, bound if not exits and N is not None else T.add(bound, I(1))),)
            ob.goal = self.final_term(ob.goal, T.and_(*ob.hyps))
        # ----- normal exit
        post = st0.copy()
        self.apply(post, nxt, bound)
        if exits:
            sts = []
            for s, v in exits:
                d = self.delta_pc(s.pc, st0.pc, cond_t)
                e = s.copy()
                at = {t: bound}
                self.apply_exit(e, s, bound, nxt)
                d = self.resolve(d, TRUE)
                c = T.subst(d, at) if d is not None and not T.atoms_of(d, lambda x: x in self.hsym) else T.fresh('exit', 'B')
                lim = T.lt(bound, NN) if NN is not None else TRUE
                ct = cond_t if NN is None else TRUE
                ct = T.subst(ct, at)
                e.pc = T.and_(st0.pc, lim, c, ct)
                if isinstance(v, T.E):
                    v = self.resolve(v, TRUE)
                    v = T.subst(v, at) if v is not None else Opaque('exit value')
                elif isinstance(v, Ptr):
                    v = Ptr(v.path, tuple(T.subst(i, at) for i in v.idx), T.subst(v.off, at), v.ct, v.single, v.dims, v.stride)
                sts.append((e, v))
            nb = len(o.brk)
            if NN is not None:
                post.pc = T.and_(st0.pc, T.ge(bound, NN))
            else:
                cf = T.subst(cond_t, {t: bound})
                post.pc = T.and_(st0.pc, T.not_(cf)) if not T.atoms_of(cond_t, lambda x: x in self.hsym) else st0.pc
            norm = eng.merge_list([e for e, _ in sts[:nb]] + ([post] if post.pc is not FALSE else []))
            return Out(norm=norm, ret=sts[nb:])
        if N is None and not T.atoms_of(cond_t, lambda x: x in self.hsym):
            post.pc = T.and_(st0.pc, T.not_(T.subst(cond_t, {t: bound})))
        else:
            post.pc = st0.pc
        return Out(norm=post)

    def final_term(self, e, pc):
        r = self.resolve(e, pc)
        if r is None:
            return self.unresolved(e)
        return r

    def unresolved(self, e):
        """reads that cannot be resolved become arbitrary (function of the iteration)"""
        lv = tuple(self.eng.loop_vars) + (self.t,)

        def go(x):
            if not self.reads_marker(x): return x
            if x.op == 'app' and x.info in self.markers:
                return T.app('any_' + x.info, lv + tuple(go(a) for a in x.args), x.sort)
            if x.op in ('sum', 'forall', 'fmax'):
                lo, hi, b = x.args
                nv = self.eng.nonneg_fresh('bv')
                return {'sum': T.mksum, 'forall': T.forall, 'fmax': T.fmaxover}[x.op](
                    nv, go(lo), go(hi), go(T.subst(b, {T.bvar(x.info): nv})))
            return T.rebuild(x, go)
        self.eng.notes.append('unresolved read of a loop-modified array in %s' % (self.eng.fn_stack[-1].qname if self.eng.fn_stack else '?'))
        return go(e)

    def delta_pc(self, pc, pc0, cond_t):
        a = set(pc.args) if pc.op == 'and' else {pc}
        b = set(pc0.args) if pc0.op == 'and' else {pc0}
        c = set(cond_t.args) if cond_t.op == 'and' else {cond_t}
        return T.and_(*(a - b - c))

    def hfinal(self, e):
        """values of unclassified scalars inside e stay arbitrary per iteration: already functions of t"""
        return e

    def apply(self, post, nxt, N):
        from .exec import Opaque, CONTENTS, Base, Ptr, View
        eng, t = self.eng, self.t
        for p, kind in self.mod.items():
            if kind == ('arr',):
                c = self.summarise(p, nxt, N)
                if c is None:
                    b = Base(T.fresh_name('any_' + p[-1]), self.arr_sort.get(p) or self.content_sort(self.pre_content(p)) or 'R')
                    c = View(b, tuple(eng.loop_vars)) if eng.loop_vars else b
                    eng.notes.append('contents of %s after a loop left arbitrary' % '.'.join(p))
                post.mem[p] = c
                eng.note_write(p)
                continue
            v0 = self.pre_val(p)
            if kind[0] != 'havoc':
                post.mem[p] = self.closed(p, kind, N)
            else:
                v = nxt.mem.get(p)
                if isinstance(v, T.E):
                    r = self.resolve(v, nxt.pc)
                    hs = T.atoms_of(v, lambda x: x in self.hsym)
                    if r is not None and not hs:
                        last = T.subst(r, {t: T.sub(N, I(1))})
                        if isinstance(v0, T.E):
                            if v0.sort != last.sort: v0, last = T.coerce2(v0, last)
                            post.mem[p] = T.ite(T.gt(N, I(0)), last, v0)
                        else:
                            post.mem[p] = T.ite(T.gt(N, I(0)), last, T.app(T.fresh_name('undef'), tuple(eng.loop_vars), last.sort))
                    else:
                        post.mem[p] = T.app(T.fresh_name('any_' + p[-1]), tuple(eng.loop_vars), v.sort)
                        if isinstance(v0, T.E) and v0.sort == v.sort:
                            post.mem[p] = T.ite(T.gt(N, I(0)), post.mem[p], v0)
                elif v is None:
                    post.mem.pop(p, None)
                else:
                    post.mem[p] = Opaque('modified in a loop')
            eng.note_write(p)

    def apply_exit(self, e, s, K, nxt):
        """state at an exit taken in iteration K: K whole iterations, then the partial one"""
        from .exec import Opaque, CONTENTS, Base, Upd, Ptr, View
        eng, t = self.eng, self.t
        start = self.st0.copy()
        self.apply(start, nxt, K)
        mem = dict(start.mem)
        at = {t: K}
        for p, v in s.mem.items():
            if p in self.mod and self.mod[p] == ('arr',):
                ups, root = [], v
                while isinstance(root, Upd):
                    ups.append(root)
                    root = root.prev
                c = start.mem[p]
                for u in reversed(ups):
                    val = self.resolve(u.val, s.pc) if isinstance(u.val, T.E) else u.val
                    gd = self.resolve(u.guard, s.pc)
                    if val is None or gd is None:
                        c = Base(T.fresh_name('any_' + p[-1]), self.content_sort(v) or 'R')
                        if eng.loop_vars: c = View(c, tuple(eng.loop_vars))
                        continue
                    c = Upd(c, u.params, T.subst(gd, at), tuple(T.subst(a, at) for a in u.addr), T.subst(val, at) if isinstance(val, T.E) else val)
                mem[p] = c
            elif p in self.mod:
                if isinstance(v, T.E):
                    r = self.resolve(v, s.pc)
                    if r is None or T.atoms_of(r, lambda x: x in self.hsym):
                        hs = T.atoms_of(v, lambda x: x in self.hsym)
                        if r is not None and r in self.hsym:
                            # unchanged in the partial iteration
                            mem[p] = start.mem.get(p)
                        else:
                            mem[p] = T.app(T.fresh_name('any_' + p[-1]), tuple(eng.loop_vars), v.sort)
                    else:
                        mem[p] = T.subst(r, at)
                elif isinstance(v, Ptr):
                    mem[p] = Ptr(v.path, tuple(T.subst(i, at) for i in v.idx), T.subst(v.off, at), v.ct, v.single, v.dims, v.stride)
                else:
                    mem[p] = v
            elif p not in self.st0.mem:
                if isinstance(v, T.E):
                    r = self.resolve(v, s.pc)
                    mem[p] = T.subst(r, at) if r is not None else Opaque('local')
                elif isinstance(v, CONTENTS):
                    continue
        e.mem = mem

    def summarise(self, p, nxt, N):
        from .exec import Upd, Fn
        eng, t = self.eng, self.t
        ups = self.cur_updates.get(p)
        if ups is None:
            return None
        nm = [n for n, q in self.markers.items() if q == p][0]
        cur = self.pre_content(p)
        pc = nxt.pc
        done = []
        for u in ups:
            guard = self.resolve(u.guard, pc)
            if guard is None: return None
            if T.atoms_of(guard, lambda x: x in self.hsym): return None
            addr = []
            for a in u.addr:
                a = self.resolve(a, pc)
                if a is None or T.atoms_of(a, lambda x: x in self.hsym): return None
                addr.append(a)
            addr = tuple(addr)
            val = u.val
            dep = any(t in T.free_vars(a) for a in addr)
            acc = False
            if isinstance(val, T.E):
                if T.atoms_of(val, lambda x: x in self.hsym): return None
                val = self.resolve(val, T.and_(pc, guard))
                if val is None:
                    here = T.app(nm, addr, u.val.sort)
                    if T.atoms_of(u.val, lambda x: x is here):
                        val = self.resolve(u.val, T.and_(pc, guard), keep=(nm, addr))
                        if val is None: return None
                        acc = True
                    else:
                        return None
            nu = Upd(None, u.params, guard, addr, val)
            # later update of an earlier iteration vs. earlier update of a later iteration
            for d in done:
                if not self.ordered(d, nu, pc): return None
            done.append(nu)
            if dep and self.injective(nu, pc):
                if acc: return None
                tt = eng.nonneg_fresh(t.info.split('!')[0])
                m = {t: tt}
                g = T.and_(T.subst(guard, m), T.lt(tt, N))
                v2 = val
                if isinstance(val, T.E): v2 = T.subst(val, m)
                else:
                    v2 = self.sub_val(val, m)
                cur = Upd(cur, (tt,) + u.params, g, tuple(T.subst(a, m) for a in addr), v2)
                continue
            if acc:
                here = T.app(nm, addr, u.val.sort)
                g = T.sub(val, here)
                if T.atoms_of(g, lambda x: x is here):
                    g = T.sub(self.pull_ite(val, here), here)
                    if T.atoms_of(g, lambda x: x is here): return None
                if not dep:
                    fixed, moving = self.split_guard(guard)
                    gg = T.ite(moving, g, T.num(0, g.sort))
                    k = eng.nonneg_fresh('k')
                    total = T.mksum(k, I(0), N, T.subst(gg, {t: k}))
                    cur = Upd(cur, u.params, fixed, addr, T.add(eng.read(cur, addr, self.st0), total))
                    continue
                if u.params: return None
                prev = cur

                def f(idx, prev=prev, guard=guard, addr=addr, g=g):
                    k = eng.nonneg_fresh('k')
                    m = {t: k}
                    hit = T.subst(guard, m)
                    for a, q in zip(addr, idx):
                        hit = T.and_(hit, T.eq(T.subst(a, m), q))
                    return T.add(eng.read(prev, idx, self.st0), T.mksum(k, I(0), N, T.ite(hit, T.subst(g, m), T.num(0, g.sort))))
                cur = Fn(f)
                cur.sort = g.sort
                continue
            if not dep:
                fixed, moving = self.split_guard(guard)
                if moving is TRUE:
                    m = {t: T.sub(N, I(1))}
                    v2 = T.subst(val, m) if isinstance(val, T.E) else self.sub_val(val, m)
                    cur = Upd(cur, u.params, T.and_(fixed, T.gt(N, I(0))), addr, v2)
                    continue
                if isinstance(val, T.E) and t not in T.free_vars(val):
                    k = eng.nonneg_fresh('k')
                    cur = Upd(cur, u.params, T.and_(fixed, T.exists(k, I(0), N, T.subst(moving, {t: k}))), addr, val)
                    continue
                return None
            # address depends on the iteration but is not injective: fine if the value is a function of the address
            if isinstance(val, T.E) and t not in T.free_vars(val) and not (set(u.params) & T.free_vars(val)) and not u.params:
                prev = cur

                def f2(idx, prev=prev, guard=guard, addr=addr, val=val):
                    k = eng.nonneg_fresh('k')
                    m = {t: k}
                    hit = T.subst(guard, m)
                    for a, q in zip(addr, idx):
                        hit = T.and_(hit, T.eq(T.subst(a, m), q))
                    return T.ite(T.exists(k, I(0), N, hit), val, eng.read(prev, idx, self.st0))
                cur = Fn(f2)
                cur.sort = val.sort
                continue
            return None
        return cur

    def sub_val(self, v, m):
        from .exec import Ptr
        if isinstance(v, Ptr):
            return Ptr(v.path, tuple(T.subst(i, m) for i in v.idx), T.subst(v.off, m), v.ct, v.single, v.dims, v.stride)
        return v

    def split_guard(self, g):
        parts = g.args if g.op == 'and' else (g,)
        fixed = [x for x in parts if self.t not in T.free_vars(x)]
        moving = [x for x in parts if self.t in T.free_vars(x)]
        return T.and_(*fixed), T.and_(*moving)

    def injective(self, u, pc):
        """two different iterations never write the same element"""
        t = self.t
        ren = {t: self.eng.nonneg_fresh('t')}
        for q in u.params:
            ren[q] = self.eng.nonneg_fresh('p')
        for a, _ in self.linear(u.addr, u.addr):
            pl = T._poly(a)
            c = pl.get(((t, 1),))
            if c is not None and not any(q in T.free_vars(a) for q in u.params) and \
                    all(t not in T.free_vars(x) for m in pl if m != ((t, 1),) for x, _ in m):
                return True
        f = [T.lt(ren[t], t), T.subst(u.guard, ren), u.guard, pc, T.subst(pc, {t: ren[t]})]
        for a in u.addr:
            f.append(T.eq(a, T.subst(a, ren)))
        if any(x is FALSE for x in f): return True
        return self.eng.quick(FALSE, None, f)

    def ordered(self, d, u, pc):
        """no element written by d in a later iteration is written by u in an earlier one"""
        t = self.t
        same = len(d.addr) == len(u.addr)
        if not same: return False
        ren = {t: self.eng.nonneg_fresh('t')}
        for q in d.params:
            ren[q] = self.eng.nonneg_fresh('p')
        f = [T.lt(t, ren[t])]
        for a, b in self.linear(d.addr, u.addr):
            a2 = T.subst(a, ren)
            pl = T._poly(T.sub(a2, b))
            if len(pl) == 2 and pl.get(((t, 1),)) is not None and pl.get(((ren[t], 1),)) == -pl[((t, 1),)]:
                return True
            e = T.eq(a2, b)
            if e is FALSE: return True
            f.append(e)
        f += [T.subst(d.guard, ren), u.guard, pc, T.subst(pc, {t: ren[t]})]
        if any(x is FALSE for x in f): return True
        return self.eng.quick(FALSE, None, f)
