"""Loops with a stated invariant: head(), an arbitrary iteration from a state in which everything the loop modifies is
arbitrary, and the state after the loop.  The caller adds the invariant to the head state and proves that it holds on
entry and is preserved."""
from . import term as T, loops
from .term import I, TRUE


class Head(loops.Summary):
    allow_break = allow_ret = False

    def __init__(self, eng, st, cond, body, inc, node):
        self.eng, self.st0, self.cond, self.body, self.inc, self.node = eng, st.copy(), cond, body, inc, node
        self.key = node['id']
        self.mod = {}
        self.t = T.fresh('t', 'I')
        T.NONNEG.add(self.t.info)

    def iterate(self, prepare=None):
        """one arbitrary iteration; prepare(s) may strengthen the head state with an invariant"""
        from .exec import Unsupported
        eng = self.eng
        nobl, nev, nfacts = len(eng.obls), len(eng.events or []), len(eng.facts)
        for rnd in range(12):
            del eng.obls[nobl:]
            if eng.events is not None:
                del eng.events[nev:]
            del eng.facts[nfacts:]
            self.markers, self.hsym = {}, {}
            s = self.st0.copy()
            self.frame0 = eng._frames[0]
            self.prepare(s)
            if prepare is not None:
                prepare(self, s)
            self.head = s.copy()
            written, declared = set(), set()
            sw, sd = eng.written, eng.declared
            eng.written = (eng.written or []) + [written]
            eng.declared = eng.declared + [declared]
            eng.loop_vars.append(self.t)
            try:
                c = self.cond_t = self.cond(s)
                s.pc = T.and_(s.pc, c)
                o = self.body(s)
                if (o.ret and not self.allow_ret) or (o.brk and not self.allow_break):
                    raise Unsupported('loop left from inside its body')
                self.brk, self.ret = list(o.brk), list(o.ret)
                nxt = eng.merge_list(o.cont + ([o.norm] if o.norm is not None else []))
                if nxt is None:
                    raise Unsupported('loop body does not complete')
                if self.inc is not None:
                    self.inc(nxt)
            finally:
                eng.loop_vars.pop()
                eng.written, eng.declared = sw, sd
            if not self.note_written(written, declared, nxt, o):
                break
        else:
            raise Unsupported('loop frame does not stabilise')
        self.after = nxt
        self.evs = eng.events[nev:] if eng.events is not None else []
        return self

    def left(self):
        """state after the loop, whether its condition failed or it was left by break"""
        return self.eng.merge_list(self.brk + [self.exit()])

    def exit(self):
        s = self.head.copy()
        s.pc = T.and_(s.pc, T.not_(self.cond_t))
        return s


class Driver(object):
    """Installs a loop hook that treats the one loop whose body calls `event` with explicit invariants: for every modified
    container the candidates offered by inv(path) (a function of the state giving the content claimed), kept when they hold
    on entry and after an arbitrary iteration."""

    def __init__(self, eng, events, inv, idx, hyps):
        self.eng, self.events, self.inv, self.idx, self.hyps = eng, events, inv, idx, hyps
        self.found, self.depth = [], 0
        eng.loop_hook = self.hook

    def close(self):
        self.eng.loop_hook = None

    def head(self, *a):
        h = Head(*a)
        h.allow_break = True
        return h

    def hook(self, e, s, cond, body, inc, node):
        from .exec import Unsupported, Fn, Out
        from .congr import same
        if self.depth or self.found:
            return None
        self.depth = 1
        nev, nob = len(e.events), len(e.obls)
        mine = lambda evs: any(x.name in self.events for x in evs)
        try:
            try:
                h = self.head(e, s, cond, body, inc, node).iterate()
            except Unsupported:
                if mine(e.events[nev:]):
                    raise
                del e.events[nev:]
                return None
            if not mine(h.evs):
                del e.events[nev:]
                return None
            cand = {p: f for p in h.mod for f in [self.inv(p, h)] if f is not None}
            while True:
                def strengthen(hd, s2):
                    for p, (f, _) in cand.items():
                        g = f(s2)
                        s2.mem[p] = Fn(lambda ix, g=g: g(*ix))
                del e.events[nev:]
                del e.obls[nob:]
                h = self.head(e, s, cond, body, inc, node).iterate(strengthen)
                bad = []
                for p, (f, ix) in cand.items():
                    for stt in (s, h.after):
                        if stt.mem.get(p) is None or not same(None, '', e.read(stt.mem[p], ix, stt), f(stt)(*ix), self.hyps + ([h.cond_t] if stt is not s else []), eng=e):
                            bad.append(p)
                            break
                if not bad:
                    break
                for p in bad:
                    del cand[p]
            h.cand = cand
            self.found.append(h)
            return Out(norm=h.left())
        finally:
            self.depth = 0
