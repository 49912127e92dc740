from vc.ctx import *


def prove(cx):
    nA = gvar('g_nAngles')

    def low_of(n):
        q, r = T.idiv(nA, n), T.imod(nA, n)
        return lambda t: t * q + T.imin(t, r)

    with cx.unit('lemma: even contiguous split'):
        eng = cx.engine('src/GraphTraverser.cc')
        n, t = gvar('g_nThreads'), uvar('t')
        low = low_of(n)
        pos = [T.lt(I(0), n)]
        cx.prove('first group starts at 0', T.eq(low(I(0)), I(0)), pos)
        cx.prove('last group ends at the number of directions', T.eq(low(n), nA), pos)
        d = low(t + I(1)) - low(t)
        cx.prove('group sizes differ by at most one', T.or_(T.eq(d, T.idiv(nA, n)), T.eq(d, T.idiv(nA, n) + I(1))), pos)

    with cx.unit('angleGroupIndex'):
        eng = cx.engine('src/GraphTraverser.cc')
        st = State()
        a, nT = uvar('a'), gvar('g_nThreads')
        low = low_of(nT)
        eng.facts += [T.lt(a, nA), T.lt(I(0), nT)]
        cx.satisfiable(eng)
        st, r = cx.run(eng, 'angleGroupIndex', [a], st=st)
        cx.prove('the group exists', T.lt(r, nT), [st.pc])
        cx.prove('direction is not before its group', T.le(low(r), a), [st.pc])
        cx.prove('direction is before the next group', T.lt(a, low(r + I(1))), [st.pc])
        cx.discharge(eng)

    with cx.unit('Sweeper::Sweeper'):
        eng = cx.engine('src/Sweeper.cc', 'src/SweepSchedule.cc')
        nG = gvar('g_nAngleGroups')
        eng.facts += [T.lt(I(0), nG)]
        low = low_of(nG)
        seen = []

        def schedule(e, loc, args, s):
            seen.append(1)
            t = e.loop_vars[-1] if e.loop_vars else I(0)
            j = uvar('j')
            v = args[0]
            n = s.mem.get(v.path + ('#n',))
            e.obl('post', T.eq(n, low(t + I(1)) - low(t)), s, 'group t gets the directions of its range: count')
            e.obl('post', T.implies(T.lt(j, n), T.eq(e.read(s.mem[v.path + ('#e',)], (j,), s), low(t) + j)), s,
                  'group t gets the directions of its range: entry j')
        eng.contracts['ctor:SweepSchedule'] = schedule
        cx.satisfiable(eng)
        cx.run(eng, 'Sweeper::Sweeper', [], this=obj('sw', 'Sweeper'), st=State())
        cx.decide('a schedule is made per group', bool(seen), 'normal-form')
        cx.discharge(eng)
