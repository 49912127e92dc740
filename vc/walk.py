"""Loop nests that write watched arrays, treated iteration by iteration.

For every loop (of any nesting depth) whose body writes a watched array or triggers a watched event, an arbitrary
iteration is executed from a state in which everything the loop modifies is arbitrary (Head); the counter is identified,
its start, step and bound give the iteration count; and what the iteration writes is recorded.  Nothing is unrolled.
After the loop everything it modified is arbitrary: properties of the result are stated over the recorded writes."""
from . import term as T
from .term import I, TRUE
from .exec import Out, Unsupported, Upd, Base
from .inv import Head
from .nest import delta, upper


class Level(object):
    pass


class Walk(object):
    def __init__(self, eng, watch=(), events=(), after=None, force=None, maxdepth=None):
        """watch: predicate on (root-relative) paths; events: names; after(level, state): may strengthen the exit state"""
        self.eng, self.watch, self.events, self.after = eng, watch, set(events), after
        self.all = False          # every loop, whether it writes anything watched or not
        self.maxdepth = maxdepth  # loops nested deeper are left to the engine's summaries
        self.force = force        # loops of constant trip count to be treated like the others
        self.depth, self.levels, self.n = 0, [], 0
        if eng.events is None:
            eng.events = []
        eng.loop_hook = self.hook

    def close(self):
        self.eng.loop_hook = None

    def watched(self, p):
        return self.watch(p) if callable(self.watch) else p in self.watch

    def hook(self, e, s, cond, body, inc, node):
        try:
            c0 = cond(s.copy())
        except Unsupported:
            c0 = None
        if (c0 is TRUE or c0 is T.FALSE) and not (self.force is not None and self.force(self, node)):
            return None            # constant trip count: unrolled by the engine
        if self.maxdepth is not None and self.depth >= self.maxdepth:
            return None
        d, n0, nev, nob, nf = self.depth, len(self.levels), len(e.events), len(e.obls), len(e.facts)
        h = Head(e, s, cond, body, inc, node)
        h.allow_break = self.all
        self.depth = d + 1

        cp = []
        nbr = len(e.byte_regions or ())

        def prepare(hd, s2):
            del self.levels[n0:]
            if e.byte_regions is not None:
                del e.byte_regions[nbr:]
            for p in cp:
                for hs, q in hd.hsym.items():
                    if q == p:          # invariant: a counter that steps by one is never below its start
                        s2.pc = T.and_(s2.pc, T.le(hd.st0.mem[p], hs))
        try:
            try:
                h.iterate(prepare)
                c = Level()
                self.counter(c, h)
                if c.count is not None:
                    cp.append(c.cpath)
                    del e.obls[nob:], e.events[nev:], e.facts[nf:]
                    h.iterate(prepare)
                bad = None
            except Unsupported as ex:
                bad = ex
        finally:
            self.depth = d
        mine = len(self.levels) > n0 or any(x.name in self.events for x in e.events[nev:]) or any(self.watched(p) for p in h.mod)
        if not mine and not self.all:
            if e.byte_regions is not None:
                del e.byte_regions[nbr:]
            del e.events[nev:], e.obls[nob:], e.facts[nf:]
            return None
        if bad is not None:
            raise bad
        lv = Level()
        lv.children = [x for x in self.levels[n0:] if x.depth == d + 1]
        lv.depth, lv.head, lv.line = d, h, e.line
        lv.node = node
        self.counter(lv, h)
        lv.evs = h.evs
        lv.regions = list((e.byte_regions or [])[nbr:])   # bytes of buffers written by the iteration
        lv.ups = {}
        for p in h.mod:
            if self.watched(p):
                lv.ups[p] = self.updates(h, p)
        self.levels.append(lv)
        x = h.left() if h.brk else h.exit()
        if lv.count is not None:
            x.pc = h.st0.pc
        if lv.count is not None and not h.brk:
            x.mem[lv.cpath] = T.add(lv.start, lv.count)
        if self.after is not None:
            self.after(lv, x)
        lv.exit = x.copy()
        return Out(norm=x)

    def counter(self, lv, h):
        lv.count, lv.var = None, None
        for hs, p in h.hsym.items():
            v = h.after.mem.get(p)
            if not isinstance(v, T.E) or hs.sort != 'I' or not T.atoms_of(h.cond_t, lambda y: y is hs):
                continue
            dl = delta(v, hs)
            if dl.op == 'num' and dl.info == 1:
                b = upper(h.cond_t, hs)
                st = h.st0.mem.get(p)
                if b is None or not isinstance(st, T.E) or T.atoms_of(b, lambda y: y is hs):
                    continue
                lv.cpath, lv.sym, lv.start, lv.bound = p, hs, st, b
                lv.count = T.sub(b, st)
                return

    def updates(self, h, p):
        c, out = h.after.mem.get(p), []
        while isinstance(c, Upd):
            out.append(c)
            c = c.prev
        root = h.head.mem.get(p)
        if c is not root and not (isinstance(c, Base) and isinstance(root, Base) and c.name == root.name):
            return None            # also modified by an inner loop or a contract
        return list(reversed(out))


def in_loop(lv):
    """hypotheses: the counter of an arbitrary iteration"""
    return [T.le(lv.start, lv.sym), T.lt(lv.sym, lv.bound)]


def innermost(eng, pred):
    """force() argument: loops of constant trip count whose body, through the functions it calls, meets pred(node) outside any
    loop nested in it"""
    memo = {}

    def meets(n, loops, seen):
        if not isinstance(n, dict):
            return False
        if pred(n):
            return True
        k = n.get('kind')
        if not loops and k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            return False
        d = (n.get('referencedDecl') or {}).get('id') or n.get('referencedMemberDecl')
        if d is not None and d not in seen:
            for tu in eng.tus:
                f = tu.resolve(d)
                if f is not None and f.body is not None and f.qname not in eng.contracts:
                    seen.add(d)
                    if meets(f.body, loops, seen):
                        return True
                    break
        return any(meets(c, loops, seen) for c in n.get('inner', []))

    def force(w, node):
        k = node['id']
        if k not in memo:
            memo[k] = any(meets(c, False, set()) for c in node.get('inner', []))
        return memo[k]
    return force
