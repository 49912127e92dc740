"""Race freedom of the OpenMP regions of the real code, by ownership.

Every access to shared storage made inside a parallel region is recorded while an arbitrary thread (an arbitrary iteration of a
work-shared loop) executes it.  For every array or variable that some thread may write, all accesses to it must either be
made under one lock (critical, atomic) or touch only what the executing thread owns, where ownership is a function of one index:
the iteration itself, the thread number, or a given map from indices to threads.  Two threads then never touch one element.

Everything the region modifies is arbitrary when the thread starts (other threads may have run), and what is read under a lock
is arbitrary; other reads see the thread's own writes, which is exact up to the first race and hence exact if there is none."""
import re, glob, os
from . import term as T, ast as A
from .term import I, TRUE
from .exec import Out, Unsupported, Loc, CONTENTS, Base
from .inv import Head


class Access(object):
    name = 'access'

    def __init__(self, path, idx, write, pc, sync, line, fn):
        self.path, self.idx, self.write, self.pc, self.sync, self.line, self.fn = path, idx, write, pc, sync, line, fn

    def key(self):
        return self.path, self.idx, self.write, self.pc, self.sync

    def __repr__(self):
        return '%s%s %s%s' % (self.fn, ':%s' % self.line if self.line else '', '.'.join(self.path), list(self.idx))


class Region(object):
    pass


class Race(object):
    """attach to an engine before running"""

    def __init__(self, eng, walk):
        self.eng, self.walk = eng, walk
        self.regions, self.cur, self.sync, self.mute = [], None, (), 0
        self.bits = set()
        walk.events.add('access')
        walk.force = lambda w, node: True
        walk.all = True
        eng.race = self
        eng.models['omp_get_thread_num'] = lambda e, a, s, n: self.tid()
        eng.models['omp_get_num_threads'] = lambda e, a, s, n: self.threads()
        eng.models['omp_get_max_threads'] = lambda e, a, s, n: self.threads()

    def tid(self):
        return self.cur.tid if self.cur is not None and self.cur.tid is not None else I(0)

    def threads(self):
        v = T.var('omp.threads', 'I')
        T.NONNEG.add('omp.threads')
        return v

    # ------------------------------------------------------------ what is private
    def private(self, p):
        c, r = p[0], self.cur
        if c.startswith('L') and c[1:].isdigit():
            f = int(c[1:])
            if f > r.frame0:
                return True
            nm, _, s = p[1].rpartition('@')
            if f == r.frame:
                if (nm, s) in r.names:
                    return True
                if s.isdigit() and nm in ('tmp', 'ret', 'rv', 'pair', 'top', 'at', 'it', 'init', 'arg') and int(s) > r.uid0:
                    return True
            return False
        if c == 'H':
            m = re.match(r'heap(\d+)$', p[1])
            return m is not None and int(m.group(1)) > r.uid0
        return c in r.private_roots

    def access(self, path, idx, write, st=None):
        r = self.cur
        if r is None or self.mute or self.private(path):
            return
        fn = self.eng.fn_stack[-1].qname if self.eng.fn_stack else ''
        a = Access(path, tuple(idx), write, st.pc if st is not None else TRUE, self.sync, self.eng.line, fn)
        self.eng.events.append(a)

    # ------------------------------------------------------------ directives
    def directive(self, n, st):
        k = n['kind']
        kids = n.get('inner', [])
        clauses = [c for c in kids if not c or not c.get('kind')]
        body = [c for c in kids if c and c.get('kind')]
        if not body:
            raise Unsupported('stand-alone directive ' + k)
        b = body[-1] if k.startswith(('OMPAtomic',)) else body[0]
        cap = None
        while b['kind'] in ('CapturedStmt', 'CapturedDecl'):
            cap = b
            b = next(c for c in b['inner'] if c.get('kind') not in ('DeclRefExpr', 'ImplicitParamDecl'))
        if k in ('OMPParallelDirective', 'OMPParallelForDirective', 'OMPParallelForSimdDirective'):
            if clauses:
                self.benign(A.line_of(n) or self.eng.line, len(clauses))
            return self.parallel(n, b, st) if k == 'OMPParallelDirective' else self.parallel_for(n, b, st)
        if k == 'OMPSimdDirective':
            return self.eng.run(b, st)
        if k in ('OMPAtomicDirective', 'OMPCriticalDirective'):
            return self.locked(k, b, st)
        raise Unsupported('OpenMP directive ' + k)

    def benign(self, line, n):
        """clauses that do not change what is shared (their text: the abstract syntax tree dump leaves clauses out)"""
        seen = 0
        for f in glob.glob(os.path.join(A.REPO, 'src', '*')):
            L = open(f, errors='replace').read().split('\n')
            if line is not None and 0 < line <= len(L) and '#pragma omp parallel' in L[line - 1]:
                t = L[line - 1].split('parallel', 1)[1]
                j = line
                while t.rstrip().endswith('\\'):
                    t = t.rstrip()[:-1] + ' ' + L[j]
                    j += 1
                t = re.sub(r'//.*', '', t)
                seen += 1
                for w in re.findall(r'[a-z_]+\s*(?:\([^()]*\))?', re.sub(r'^\s*(for|simd)\b', '', t)):
                    if not re.match(r'(schedule|num_threads|proc_bind)\b|default\s*\(\s*(shared|none)\s*\)|shared\b', w):
                        raise Unsupported('OpenMP clause ' + w)
        if not seen:
            raise Unsupported('OpenMP clauses not found')

    def names(self, n, out):
        if isinstance(n, dict):
            if n.get('kind') == 'VarDecl' and n.get('storageClass') != 'static':
                out.add((n.get('name', '_'), n['id'][-4:]))
            for c in n.get('inner', []):
                self.names(c, out)
        return out

    def begin(self, kind, node):
        e = self.eng
        if self.cur is not None:
            raise Unsupported('nested parallel region')
        r = Region()
        r.kind, r.line, r.fn = kind, e.line, e.fn_stack[-1].qname if e.fn_stack else ''
        r.frame, r.frame0, r.uid0 = e.frame, e._frames[0], e._uid[0]
        r.names = self.names(node, set())
        r.tid, r.sym, r.private_roots = None, None, set()
        self.cur = r
        return r

    def parallel(self, n, body, st):
        e = self.eng
        n0 = len(e.events)
        r = self.begin('parallel', body)
        r.tid = T.fresh('tid', 'I')
        T.NONNEG.add(r.tid.info)
        try:
            def go(s):
                return e.run(body, s)

            def prep(h, s):
                s.pc = T.and_(s.pc, T.lt(r.tid, self.threads()))
            nl, d = len(self.walk.levels), self.walk.depth
            h = Head(e, st, lambda s: TRUE, go, None, n)
            h.iterate(lambda h, s: (self.walk.levels.__delitem__(slice(nl, None)), prep(h, s)))
        finally:
            self.cur = None
        self.finish(r, e.events[n0:])
        s = h.head.copy()
        s.pc = st.pc
        return Out(norm=s)

    def parallel_for(self, n, loop, st):
        e = self.eng
        if loop['kind'] != 'ForStmt':
            raise Unsupported('work-shared ' + loop['kind'])
        n0, l0, d = len(e.events), len(self.walk.levels), self.walk.depth
        r = self.begin('parallel for', loop)
        try:
            o = e.run(loop, st)
        finally:
            self.cur = None
        top = [x for x in self.walk.levels[l0:] if x.depth == d]
        if len(top) != 1 or top[0].count is None:
            raise Unsupported('work-shared loop')
        r.sym = top[0].sym
        self.finish(r, e.events[n0:])
        return o

    def finish(self, r, evs):
        for x in self.regions:
            if x.fn == r.fn and x.line == r.line:
                self.regions.remove(x)
        r.accesses = [a for a in evs if a.name == 'access']
        r.events = list(evs)
        self.regions.append(r)

    def locked(self, k, body, st):
        e = self.eng
        if self.cur is None:
            return e.run(body, st)
        key = 'atomic' if k == 'OMPAtomicDirective' else 'critical'
        if key == 'critical' and re.search(r'omp\s+critical\s*\(', ''.join(open(f, errors='replace').read() for f in glob.glob(os.path.join(A.REPO, 'src', '*')))):
            raise Unsupported('named critical section')
        old = self.sync
        n0, o0, f0 = len(e.events), len(e.obls), len(e.facts)
        # what it touches
        e.run(body, st.copy())
        mine = [a for a in e.events[n0:] if a.name == 'access']
        del e.events[n0:], e.obls[o0:], e.facts[f0:]
        if key == 'critical':
            paths = {a.path for a in mine}
        else:           # atomicity covers one location
            w = [a for a in mine if a.write] or mine[-1:]
            if len({(a.path, a.idx) for a in w}) != 1:
                raise Unsupported('atomic statement')
            paths = {w[0].path}
        for p in paths:         # other threads may have changed it
            v = st.mem.get(p)
            nm = T.fresh_name('locked')
            if isinstance(v, CONTENTS) or any(a.path == p and a.idx for a in mine):
                if not isinstance(v, CONTENTS):
                    st.mem.pop(p, None)
                    continue
                st.mem[p] = Base(nm, e_sort(v))
            elif isinstance(v, T.E):
                if v.sort == 'I' and p in e.unsigned_paths:
                    T.NONNEG.add(nm)
                st.mem[p] = T.app(nm, tuple(e.loop_vars), v.sort)
        self.sync = tuple(sorted(set(old) | {key}))
        n1 = len(e.events)
        try:
            o = e.run(body, st)
        finally:
            self.sync = old
        for a in e.events[n1:]:
            if a.name == 'access' and a.path not in paths:
                a.sync = old
        return o


def e_sort(c):
    while not isinstance(c, Base):
        c = getattr(c, 'prev', None) or getattr(c, 'base', None) or getattr(c, 'a', None)
        if c is None:
            return 'R'
    return c.sort


def comparable(p, q):
    n = min(len(p), len(q))
    return p[:n] == q[:n]


def check(cx, eng, r, owners=(), label='', hyps=()):
    """obligations of one region; owners: functions idx -> thread (terms), besides the identity"""
    from . import prove as P
    acc, seen = [], set()
    for a in r.accesses:
        if a.key() not in seen:
            seen.add(a.key())
            acc.append(a)
    written = sorted({a.path for a in acc if a.write})
    groups = []
    for p in written:
        g = [a for a in acc if comparable(a.path, p)]
        groups.append((p, g))
    me = r.sym if r.sym is not None else r.tid
    cands = [('%s', lambda x: x)] + [('%s' + ' in the set of the thread' if len(owners) == 1 else 'owner %d of %%s' % k, f) for k, f in enumerate(owners)]
    for p, g in groups:
        nm = '%s%s' % (label, '.'.join(re.sub('@.*', '', str(x)) for x in p[1:]))
        locks = set(g[0].sync)
        for a in g:
            locks &= set(a.sync)
        if locks:
            cx.decide('%s: all %d accesses under one lock' % (nm, len(g)), True, 'lock set')
            continue
        if p in eng.race.bits:
            g = [Access(a.path, (), a.write, a.pc, a.sync, a.line, a.fn) for a in g]       # elements share words
        best, score = None, -1
        n = min(len(a.idx) for a in g)
        opts = [(k, c) for k in range(n) for c in cands]
        if r.tid is not None:
            opts.append((None, ('only thread 0', None)))
        for k, (txt, f) in opts:
            goals = [T.eq(r.tid, I(0)) if k is None else T.eq(f(a.idx[k]), me) for a in g]
            s = 0
            for a, go in zip(g, goals):
                if go is TRUE or P.valid(go, list(eng.facts) + list(hyps) + [a.pc], eng.axioms, 1500)[0]:
                    s += 1
            if s > score:
                best, score = (k, txt, goals), s
            if s == len(g):
                break
        if best is None:
            for a in g[:3]:
                cx.decide('%s: accessed by more than one thread, %s by %s line %s' % (nm, 'written' if a.write else 'read', a.fn, a.line), False, 'ownership', repr(a))
            continue
        k, txt, goals = best
        what = txt if k is None else 'index %d%s owned by the %s' % (k, '' if txt == '%s' else ' (its set)', 'iteration' if r.sym is not None else 'thread')
        for a, go in zip(g, goals):
            cx.prove('%s: %s, %s by %s line %s' % (nm, what, 'written' if a.write else 'read', a.fn, a.line), go, list(hyps) + [a.pc], eng, kind='ownership')
    if not groups:
        cx.decide('%snothing shared is written' % label, True, 'ownership')


def directives(n, out):
    if isinstance(n, dict):
        if n.get('kind') in ('OMPParallelDirective', 'OMPParallelForDirective'):
            out.append(n)
            return out
        for c in n.get('inner', []):
            directives(c, out)
    return out


def captured(n):
    for c in n.get('inner', []):
        if c.get('kind') == 'CapturedStmt':
            return [x for x in c.get('inner', []) if x.get('kind') in ('DeclRefExpr', 'CXXThisExpr')]
    return []


def isolated(race, f, st, this=None, bind=None):
    """run each parallel region of f from an arbitrary state: what it captures is arbitrary (and distinct) storage"""
    from .exec import ptype
    e = race.eng
    for d in directives(f.body, []):
        b = {}
        for c in captured(d):
            if c['kind'] != 'DeclRefExpr':
                continue
            v = c['referencedDecl']
            t = ptype(v['type'])
            b[v['id']] = Loc(('A', v['name']), (), t.elem if t.k == 'ref' else t)
        e.bind_stack.append(b)
        e.this_stack.append(this)
        e.fn_stack.append(f)
        e.ret_ref.append(False)
        fr, e.frame = e.frame, e.new_frame()
        s = st.copy()
        if bind is not None:
            bind(b, s)
        try:
            e.run(d, s)
        finally:
            e.bind_stack.pop()
            e.this_stack.pop()
            e.fn_stack.pop()
            e.ret_ref.pop()
            e.frame = fr
        if f.qname not in e.entered:
            e.entered.add(f.qname)
