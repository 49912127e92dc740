"""Packing loops: a nest of counted loops in which a cursor advances once per packed element.

Invariant per loop (stated here, checked on the real body for an arbitrary iteration): the counter equals the iteration
number and the cursor equals its value at loop entry plus the sum of the advances of the earlier iterations.  What one
packed element does (guard, cursor, effect on the watched containers) is recorded at the innermost loop and lifted
through the outer loops by substituting the invariant for the arbitrary loop-head values."""
from . import term as T
from .term import I, TRUE
from .exec import Out, Unsupported
from .inv import Head


class Rec(object):
    """one packed element: guard, cursor, what the loop body does; loop variables are lv0 (outermost), lv1, ..."""
    pass


def delta(v, h):
    """v - h with conditionals pulled out"""
    if v is h:
        return I(0)
    if v.op == 'ite':
        return T.ite(v.args[0], delta(v.args[1], h), delta(v.args[2], h))
    return T.sub(v, h)


class Nest(object):
    def __init__(self, eng, effect, cursor_sort=('I',)):
        """effect(head, after) -> dict of terms describing one iteration of an innermost loop"""
        self.eng, self.effect, self.recs, self.depth, self.obls, self.levels = eng, effect, [], 0, [], {}
        eng.loop_hook = self.hook

    def close(self):
        self.eng.loop_hook = None

    def hook(self, e, s, cond, body, inc, node):
        d = self.depth
        lv = T.var('lv%d' % d, 'I')
        T.NONNEG.add('lv%d' % d)
        n0 = len(self.recs)
        h = Head(e, s, cond, body, inc, node)
        self.depth = d + 1
        inner = {}

        def prepare(hd, s2):
            del self.recs[n0:]
        try:
            h.iterate(prepare)
        finally:
            self.depth = d
        if len(self.recs) > n0 and any(r.depth <= d for r in self.recs[n0:]):
            raise Unsupported('packing in more than one loop of a level')
        scal = [(hs, p) for hs, p in h.hsym.items() if isinstance(h.after.mem.get(p), T.E) and hs.sort == 'I']
        # counter: advances by one on every path and bounds the loop
        ctr = []
        for hs, p in scal:
            dl = delta(h.after.mem[p], hs)
            if dl.op == 'num' and dl.info == 1 and hs in T.atoms_of(h.cond_t, lambda y: y is hs):
                ctr.append((hs, p))
        if len(ctr) != 1:
            raise Unsupported('loop counter not recognised')
        chs, cp = ctr[0]
        start = h.st0.mem[cp]
        bound = None
        for y in T.atoms_of(h.cond_t, lambda y: False) or []:
            pass
        bound = upper(h.cond_t, chs)
        if bound is None:
            raise Unsupported('loop bound not recognised')
        if not (start.op == 'num' and start.info == 0):
            raise Unsupported('loop does not start at zero')
        m = {chs: lv}
        adv = {}
        for hs, p in scal:
            if p == cp:
                continue
            dl = T.subst(delta(h.after.mem[p], hs), {chs: lv})
            if T.atoms_of(dl, lambda y: y in h.hsym):
                continue          # depends on another loop-head value: stays arbitrary
            if p not in h.st0.mem or not isinstance(h.st0.mem[p], T.E):
                continue
            adv[p] = dl
            k = T.fresh('k', 'I')
            T.NONNEG.add(k.info)
            m[hs] = T.add(h.st0.mem[p], T.mksum(k, I(0), lv, T.subst(dl, {lv: k})))
        if len(self.recs) == n0:
            eff = self.effect(h.head, h.after)
            if eff is not None:
                r = Rec()
                r.depth, r.guard, r.eff = d + 1, h.head.pc, eff
                r.bounds = []
                r.cursor = {p: hs for hs, p in scal if p in adv}
                r.adv = {p: a for p, a in adv.items()}
                self.recs.append(r)
        for r in self.recs[n0:]:
            f = lambda t: T.subst(t, m)
            r.guard = f(r.guard)
            r.eff = {k: f(v) for k, v in r.eff.items()}
            r.cursor = {k: f(v) for k, v in r.cursor.items()}
            r.adv = {k: f(v) for k, v in r.adv.items()}
            r.bounds = [bound] + [f(b) for b in r.bounds]
            for t in list(r.eff.values()):
                if T.atoms_of(t, lambda y: y in h.hsym):
                    raise Unsupported('effect depends on an arbitrary loop-head value')
        x = h.exit()
        x.pc = h.st0.pc
        x.mem[cp] = bound
        for p, dl in adv.items():
            k = T.fresh('k', 'I')
            T.NONNEG.add(k.info)
            x.mem[p] = T.add(h.st0.mem[p], T.mksum(k, I(0), bound, T.subst(dl, {lv: k})))
        return Out(norm=x)


def upper(c, v):
    """b with c equivalent to v < b"""
    k = T.fresh('bnd', 'I')
    if c.op not in ('gt', 'ge', 'lt', 'le', 'not'):
        return None
    # c is a linear comparison: solve  (0 < b - v)
    p = c.args[0] if c.args else None
    for cand in _cands(c, v):
        if T.lt(v, cand) is c:
            return cand
    return None


def _cands(c, v):
    p = c.args[0]
    yield T.add(p, v)
    yield T.add(T.add(p, v), I(1))
    yield T.sub(v, p)
    yield T.add(T.sub(v, p), I(1))
