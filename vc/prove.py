"""Obligations and SMT back ends (z3 API first, cvc5 binary on z3's unknowns)."""
import time, subprocess, tempfile, os
import z3
from . import term as T

CVC5 = None
for p in ('/usr/local/bin/cvc5', '/usr/bin/cvc5', '/opt/veriftools/bin/cvc5'):
    if os.path.exists(p):
        CVC5 = p
        break
if CVC5 is None:
    import shutil
    CVC5 = shutil.which('cvc5')


class Stats(object):
    def __init__(self):
        self.solver_s = 0.0
        self.by = {}
        self.queries = 0

    def count(self, who):
        self.by[who] = self.by.get(who, 0) + 1


STATS = Stats()


class Axioms(object):
    """Per-symbol axiom schemas: name -> f(args) -> [E].  Instantiated on every occurring application."""

    def __init__(self):
        self.by_name = {}

    def add(self, name, f):
        self.by_name.setdefault(name, []).append(f)

    def instances(self, app):
        out = []
        for f in self.by_name.get(app.info, ()):
            out.extend(f(app.args))
        if app.sort == 'I' and app.info in T.NONNEG:
            out.append(T.ge0(app))
        return out


GLOBAL_AX = Axioms()


def has_bvar(e):
    return any(v.info.startswith('#') for v in T.free_vars(e))


def close(exprs, axioms, depth=4):
    """instantiate axiom schemas for all ground applications, iterated"""
    facts = []
    seen_app = set()
    seen_e = set()
    work = list(exprs)
    for _ in range(depth):
        apps = []
        for e in work:
            _collect(e, apps, seen_e, seen_app)
        work = []
        for a in apps:
            for ax in (axioms, GLOBAL_AX):
                if ax is None:
                    continue
                for f in ax.instances(a):
                    if f is not T.TRUE:
                        facts.append(f)
                        work.append(f)
        if not work:
            break
    return facts


def _collect(e, apps, seen, seen_app):
    if e in seen:
        return
    seen.add(e)
    if e.op == 'app' and e not in seen_app and not has_bvar(e):
        seen_app.add(e)
        apps.append(e)
    elif e.op == 'var' and e.sort == 'I' and e.info in T.NONNEG and e not in seen_app:
        pass
    for c in T.children(e):
        _collect(c, apps, seen, seen_app)


class Conv(object):
    def __init__(self):
        self.memo = {}
        self.side = []
        self.funs = {}

    def sort(self, s):
        return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[s]

    def fun(self, name, args, sort):
        k = (name, tuple(a.sort for a in args), sort)
        if k not in self.funs:
            self.funs[k] = z3.Function(name, *([self.sort(a.sort) for a in args] + [self.sort(sort)]))
        return self.funs[k]

    def c(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self._c(e)
            self.memo[e] = r
        return r

    def _num(self, e):
        if e.sort == 'I':
            if e.info.denominator != 1:
                return z3.RealVal(str(e.info))
            return z3.IntVal(int(e.info))
        return z3.RealVal(str(e.info))

    def _c(self, e):
        op = e.op
        if op == 'num': return self._num(e)
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'var':
            v = z3.Const(e.info, self.sort(e.sort))
            if e.sort == 'I' and e.info in T.NONNEG:
                self.side.append(v >= 0)
            return v
        if op == 'app':
            if not e.args:
                return z3.Const(e.info, self.sort(e.sort))
            return self.fun(e.info, e.args, e.sort)(*[self.c(a) for a in e.args])
        if op == 'poly':
            # integers: scale rationals away is impossible for a term; integer polys have integer coefs
            terms = []
            for m, c in e.info:
                t = None
                for a, k in m:
                    ca = self.c(a)
                    for _ in range(k):
                        t = ca if t is None else t * ca
                if e.sort == 'I' and c.denominator == 1:
                    cc = z3.IntVal(int(c))
                else:
                    cc = z3.RealVal(str(c))
                if t is None:
                    t = cc
                elif c != 1:
                    t = cc * t
                terms.append(t)
            return z3.Sum(terms) if len(terms) > 1 else terms[0]
        if op == 'ite': return z3.If(self.c(e.args[0]), self.c(e.args[1]), self.c(e.args[2]))
        if op == 'ge': return self.c(e.args[0]) >= 0
        if op == 'gt': return self.c(e.args[0]) > 0
        if op == 'eq': return self.c(e.args[0]) == 0
        if op == 'not': return z3.Not(self.c(e.args[0]))
        if op == 'and': return z3.And(*[self.c(a) for a in e.args])
        if op == 'or': return z3.Or(*[self.c(a) for a in e.args])
        if op == 'toreal': return z3.ToReal(self.c(e.args[0]))
        if op == 'inv':
            x = self.c(e.args[0])
            v = z3.Real('inv!%d' % e.id)
            if not has_bvar(e):
                self.side.append(z3.Implies(x != 0, v * x == 1))
            return v
        if op == 'sqrt':
            x = self.c(e.args[0])
            v = z3.Real('sqrt!%d' % e.id)
            if not has_bvar(e):
                self.side.append(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x)))
            return v
        if op == 'abs':
            x = self.c(e.args[0])
            return z3.If(x >= 0, x, -x)
        if op == 'idiv':
            a, b = self.c(e.args[0]), self.c(e.args[1])
            if e.args[1].op == 'num':
                return a / b
            v = z3.Int('idiv!%d' % e.id)
            if not has_bvar(e):
                self.side.append(z3.Implies(z3.And(b > 0, a >= 0), z3.And(v >= 0, b * v <= a, a < b * v + b)))
            return v
        if op == 'mx':
            if any(T.atoms_of(x, lambda y: y.op == 'fmax' or y is T.NEGINF) for x in e.args):
                v = z3.Real('mx!%d' % e.id)
                if not has_bvar(e):
                    for x in e.args:
                        if not T.atoms_of(x, lambda y: y.op == 'fmax' or y is T.NEGINF):
                            self.side.append(v >= self.c(x))
                else:
                    raise Exception('conv mx under a binder')
                return v
            r = self.c(e.args[0])
            for x in e.args[1:]:
                y = self.c(x)
                r = z3.If(r >= y, r, y)
            return r
        if op in ('sum', 'fmax'):
            fvs = sorted(T.free_vars(e), key=lambda v: v.info)
            fvs = [v for v in fvs if v.info.startswith('#')]
            if fvs:
                f = z3.Function('%s!%d' % (op, e.id), *([z3.IntSort()] * len(fvs) + [self.sort(e.sort)]))
                return f(*[self.c(v) for v in fvs])
            return z3.Const('%s!%d' % (op, e.id), self.sort(e.sort))
        if op == 'forall':
            bv = T.bvar(e.info)
            b = self.c(bv)
            lo, hi, body = e.args
            return z3.ForAll([b], z3.Implies(z3.And(self.c(lo) <= b, b < self.c(hi)), self.c(body)))
        raise Exception('conv ' + op)


def check(formulas, axioms=None, timeout=5000, extra_z3=None, depth=4, want_model=False):
    """sat-check a list of E formulas; returns ('unsat'|'sat'|'unknown', backend, model)"""
    formulas = [f for f in formulas if f is not T.TRUE]
    if any(f is T.FALSE for f in formulas):
        STATS.count('syntactic')
        return 'unsat', 'syntactic', None
    facts = close(formulas, axioms, depth)
    conv = Conv()
    zs = []
    for f in formulas + facts:
        zs.append(conv.c(f))
    s = z3.Solver()
    s.set('timeout', int(timeout))
    for z in zs:
        s.add(z)
    for z in conv.side:
        s.add(z)
    if extra_z3:
        for z in extra_z3(conv):
            s.add(z)
    t0 = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t0
    if r == z3.unsat:
        STATS.count('z3')
        return 'unsat', 'z3', None
    if r == z3.sat:
        m = s.model()
        return 'sat', 'z3', m
    if CVC5:
        smt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
            fh.write(smt)
        t0 = time.time()
        try:
            out = subprocess.run([CVC5, '--tlimit=%d' % int(timeout), fh.name], capture_output=True, text=True,
                                 timeout=timeout / 1000.0 + 5).stdout.strip().split('\n')[0]
        except subprocess.TimeoutExpired:
            out = 'unknown'
        os.unlink(fh.name)
        STATS.solver_s += time.time() - t0
        if out == 'unsat':
            STATS.count('cvc5')
            return 'unsat', 'cvc5', None
        if out == 'sat':
            return 'sat', 'cvc5', None
    return 'unknown', 'z3+cvc5', None


def valid(goal, hyps=(), axioms=None, timeout=5000, depth=4):
    """goal follows from hyps?"""
    if goal is T.TRUE:
        STATS.count('normal-form')
        return True, 'normal-form', None
    if any(h is goal for h in hyps):
        return True, 'normal-form', None
    r, who, m = check(list(hyps) + [T.not_(goal)], axioms, timeout, depth=depth)
    return (r == 'unsat'), who, (r, m)
