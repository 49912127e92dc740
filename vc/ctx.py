"""Bookkeeping of one property check: functions under contract, obligations, discharge, evidence."""
import time, contextlib, traceback
from . import term as T, prove as P, exec as X, ast as A
from .term import I, R, TRUE, FALSE
from .exec import Loc, Ptr, State, ptype, Unsupported, NULL


class Ctx(object):
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.results = []
        self.units = []
        self.functions = []
        self.engines = []
        self.assumptions = []
        self.trusted = []
        self.cur = None
        self.t0 = time.time()
        self.budget = 420 if tier == 'quick' else 780
        self.failcap = 6
        self.timeout = 8000 if tier == 'quick' else 30000

    # ------------------------------------------------------------------ units (one function contract each)
    @contextlib.contextmanager
    def unit(self, name):
        u = {'function': name, 'status': 'ok', 'obligations': 0, 'failed': [], 'wall_s': 0}
        self.cur = u
        t = time.time()
        try:
            yield u
        except (Unsupported, A.ExtractError) as e:
            u['status'] = 'unsupported'
            u['reason'] = str(e)
            u['trace'] = traceback.format_exc()[-1500:]
        except Exception as e:
            u['status'] = 'unsupported'
            u['reason'] = 'verifier front end: %s: %s' % (type(e).__name__, e)
            u['trace'] = traceback.format_exc()[-1500:]
        u['wall_s'] = round(time.time() - t, 2)
        if u['status'] == 'ok' and u['obligations'] == 0:
            u['status'] = 'vacuous'
        self.units.append(u)
        self.cur = None

    def engine(self, *sources, **kw):
        e = X.Engine(list(sources), **kw)
        self.last = e
        self.engines.append(e)
        return e

    def prove(self, name, goal, hyps=(), eng=None, kind='post', line=None, timeout=None):
        """one obligation: goal follows from hyps (and the engine's facts)"""
        eng = eng or self.last
        h = list(eng.facts) + [x for x in hyps if x is not TRUE]
        t = time.time()
        nf = len(self.cur['failed']) if self.cur is not None else 0
        if time.time() - self.t0 > self.budget:
            ok, who, info = False, 'budget', ('not attempted: time budget', None)
        elif nf >= self.failcap:
            ok, who, info = False, 'skipped', ('not attempted: %d obligations of this function already failed' % nf, None)
        elif nf >= 2:
            ok, who, info = P.valid(goal, h, eng.axioms, 1500)
        else:
            ok, who, info = P.valid(goal, h, eng.axioms, timeout or self.timeout)
        r = {'function': self.cur['function'] if self.cur else '', 'name': name, 'kind': kind, 'ok': bool(ok), 'by': who, 's': round(time.time() - t, 3)}
        if not ok:
            st, m = info if info else ('?', None)
            r['result'] = st
            txt = str(goal)
            r['goal'] = txt[:1500]
            if st == 'sat' and m is not None:
                try:
                    r['model'] = str(m)[:2000]
                except Exception:
                    pass
            if self.cur is not None:
                self.cur['failed'].append(name)
        self.results.append(r)
        if self.cur is not None:
            self.cur['obligations'] += 1
        return ok

    def decide(self, name, ok, by, info='', kind='post'):
        """an obligation over closed terms, decided by evaluation (exact rationals or interval arithmetic)"""
        P.STATS.count(by)
        r = {'function': self.cur['function'] if self.cur else '', 'name': name, 'kind': kind, 'ok': bool(ok), 'by': by, 's': 0}
        if not ok:
            r['result'] = 'refuted'
            r['goal'] = str(info)[:1500]
            self.cur['failed'].append(name)
        self.results.append(r)
        self.cur['obligations'] += 1
        return ok

    def discharge(self, eng, hyps=(), kinds=None, prefix=''):
        """all run-time-safety obligations the engine generated"""
        seen = set()
        for o in eng.obls:
            if kinds is not None and o.kind not in kinds:
                continue
            key = (o.goal, o.hyps, o.kind)
            if key in seen:
                continue
            seen.add(key)
            self.prove(prefix + o.name(), o.goal, list(hyps) + list(o.hyps), eng, kind=o.kind)
        n = getattr(eng, 'trivial', 0)
        eng.trivial = 0
        for _ in range(n):
            P.STATS.count('normal-form')
        self.trivially = getattr(self, 'trivially', 0) + n
        eng.obls = []

    def theorems(self, name, uses):
        """theorems of lemmas/<name>.lean, checked by Lean: from one arbitrary step (the obligations of this property) to whole runs"""
        import glob, os, re, shutil, subprocess, tempfile
        lean = shutil.which('lean') or (glob.glob('/app/lean4-*/build/release/stage1/bin/lean') + ['lean'])[0]
        with self.unit('lemmas/%s.lean' % name):
            path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas', name + '.lean')
            with open(path) as f:
                text = f.read()
            t = time.time()
            with tempfile.NamedTemporaryFile('w', suffix='.lean') as f:
                f.write(text + ''.join('\n#print axioms %s.%s' % (name, n) for n in uses) + '\n')
                f.flush()
                try:
                    o = subprocess.run([lean, f.name], capture_output=True, text=True, timeout=300)
                except (OSError, subprocess.TimeoutExpired) as e:
                    raise Unsupported('lean: %s' % e)
            P.STATS.solver_s += time.time() - t
            out = o.stdout + o.stderr
            for n, what in uses.items():
                m = re.search(r"'%s\.%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % (name, n), out)
                ax = set(x.strip() for x in (m.group(2) or '').split(',') if x.strip()) if m else {'?'}
                self.decide('%s: %s' % (n, what), o.returncode == 0 and ax <= {'propext', 'Classical.choice', 'Quot.sound'}, 'lean', out[-600:], 'lemma')

    def satisfiable(self, eng, hyps=(), note='precondition'):
        """vacuity check: the contract's precondition is satisfiable"""
        h = list(eng.facts) + list(hyps)
        r, who, _ = P.check([x for x in h if x is not TRUE], eng.axioms, 10000)
        ok = r != 'unsat'
        self.results.append({'name': 'vacuity: %s satisfiable' % note, 'kind': 'vacuity', 'ok': ok, 'by': who, 's': 0})
        if not ok and self.cur is not None:
            self.cur['failed'].append('vacuous precondition')
        if self.cur is not None:
            self.cur['obligations'] += 1

    def run(self, eng, qname, args, this=None, st=None, nparams=None, pred=None, tu=None):
        """execute the real function symbolically; returns (state, result)"""
        st = st or State()
        f = eng.find(qname, nparams, pred)
        if this is not None and f.static:
            this = None
        r = eng.call_func(f, None, st, this=this, argvals=list(args))
        if st.pc is FALSE:          # what follows would hold vacuously
            self.decide('%s returns on some path' % qname, False, 'normal-form', kind='vacuity')
        if qname not in self.functions:
            self.functions.append(qname)
        for q in eng.entered:
            if q not in self.functions:
                self.functions.append(q)
        return st, r

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # ------------------------------------------------------------------ outcome
    def failed(self):
        return [r for r in self.results if not r['ok']]

    def unsupported(self):
        return [u for u in self.units if u['status'] in ('unsupported', 'vacuous')]


# ---------------------------------------------------------------------------------- symbolic inputs
def uvar(name):
    T.NONNEG.add(name)
    return T.var(name, 'I')


def obj(name, t):
    return Loc(('A', name), (), ptype(t))


def gvar(name):
    T.NONNEG.add('G.' + name)
    return T.var('G.' + name, 'I')


def gpath(*names):
    return ('G',) + names


def dims(eng, st, loc, *ds):
    """contract precondition: container loc has these dimensions"""
    cs = X.container_of(loc.ct)
    for f, d in zip(cs.dims, ds):
        p = loc.path + (f,)
        if loc.idx:
            c = st.mem.get(p)
            raise Unsupported('dims of indexed container')
        st.mem[p] = d if isinstance(d, T.E) else I(d)


def content(st, eng, loc, sort='R'):
    p = loc.path + ('#e',)
    c = st.mem.get(p)
    if c is None:
        el = X.container_elem(loc.ct)
        c = eng.default(p, 1, el)
    return c


def read(eng, st, loc, *idx):
    return eng.read(content(st, eng, loc), tuple(i if isinstance(i, T.E) else I(i) for i in idx), st)


def in_range(*pairs):
    return [T.lt(i, n if isinstance(n, T.E) else I(n)) for i, n in pairs]


MESH = ('G', 'g_tychoMesh', '*')
BOUNDARY = I(2 ** 64 - 1)


def mesh_mats():
    nA, nC = gvar('g_nAngles'), gvar('g_nCells')
    return {
        'c_omegaDotN': (nA, nC, I(4)), 'c_faceArea': (nC, I(4)), 'c_adjCell': (nC, I(4)), 'c_adjFace': (nC, I(4)),
        'c_side': (nC, I(4)), 'c_adjProc': (nC, I(4)), 'c_neighborVrtx': (nC, I(4), I(3)),
        'c_cellToFaceVrtx': (nC, I(4), I(4)), 'c_faceToCellVrtx': (nC, I(4), I(3)), 'c_lGFace': None,
    }


def mesh(eng, st, names=None):
    """representation invariant of TychoMesh as a precondition: table dimensions and value ranges"""
    nA, nC, nS = gvar('g_nAngles'), gvar('g_nCells'), T.var('.'.join(MESH + ('c_nSides',)), 'I')
    T.NONNEG.add(nS.info)
    st.mem[('G', 'g_nVrtxPerCell')] = I(4)
    for n, ds in mesh_mats().items():
        if ds is None or (names and n not in names):
            continue
        d = ('c_xlen', 'c_ylen', 'c_zlen')
        for f, v in zip(d, ds):
            st.mem[MESH + (n, f)] = v
    st.mem[MESH + ('c_cellVolume', 'c_xlen')] = nC
    st.mem[MESH + ('c_cellVolume', '#n')] = nC
    nm = lambda x: '.'.join(MESH + (x, '#e'))
    for x in ('c_adjCell', 'c_adjFace', 'c_side', 'c_adjProc', 'c_neighborVrtx', 'c_cellToFaceVrtx', 'c_faceToCellVrtx'):
        T.NONNEG.add(nm(x))
    a = eng.axioms
    a.add(nm('c_adjCell'), lambda i: [T.or_(T.lt(T.app(nm('c_adjCell'), i, 'I'), nC), T.eq(T.app(nm('c_adjCell'), i, 'I'), BOUNDARY))])
    a.add(nm('c_neighborVrtx'), lambda i: [T.lt(T.app(nm('c_neighborVrtx'), i, 'I'), I(4))])
    a.add(nm('c_faceToCellVrtx'), lambda i: [T.lt(T.app(nm('c_faceToCellVrtx'), i, 'I'), I(4))])

    def side(i):
        s, r, c = T.app(nm('c_side'), i, 'I'), T.app(nm('c_adjProc'), i, 'I'), T.app(nm('c_adjCell'), i, 'I')
        return [T.implies(T.and_(T.eq(c, BOUNDARY), T.ne(r, BOUNDARY)), T.lt(s, nS))]
    a.add(nm('c_side'), side)
    eng.facts.append(T.lt(nC, BOUNDARY))
    eng.facts.append(T.lt(nS, BOUNDARY))

    def c2f(i):
        # the vertices of face f other than the one opposite to it carry face numbers 0..2
        c, f, v = i
        return [T.implies(T.and_(T.ne(f, v), T.lt(v, I(4)), T.lt(f, I(4))), T.lt(T.app(nm('c_cellToFaceVrtx'), i, 'I'), I(3)))]
    a.add(nm('c_cellToFaceVrtx'), c2f)


def mapp(name, *idx):
    return T.app('.'.join(MESH + (name, '#e')), tuple(i if isinstance(i, T.E) else I(i) for i in idx), 'I' if name not in ('c_omegaDotN', 'c_faceArea') else 'R')


def phase(eng, st, loc):
    """full-size phase space container"""
    nG, nA, nC, nS = gvar('g_nGroups'), gvar('g_nAngles'), gvar('g_nCells'), T.var('.'.join(MESH + ('c_nSides',)), 'I')
    k = loc.ct.name
    if k == 'PsiData': dims(eng, st, loc, nG, I(4), nA, nC)
    elif k == 'PhiData': dims(eng, st, loc, nG, I(4), nC)
    elif k == 'PsiBoundData': dims(eng, st, loc, nG, I(3), nA, nS)
