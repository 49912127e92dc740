from vc.ctx import *
from vc import mpi

RED = {'gsum': 'ompi_mpi_op_sum', 'gmax': 'ompi_mpi_op_max', 'gmin': 'ompi_mpi_op_min'}


def prove(cx):
    cx.assume('MPI_Allreduce, MPI_Send/Recv/Isend and MPI_File_* do what the MPI standard says and the error codes are returned')

    def fresh():
        eng = cx.engine('src/Comm.cc')
        mpi.install(eng)
        return eng, State()

    def overloads(eng, name):
        for tu in eng.tus:
            for f in tu.find(name):
                if f.body is not None:
                    yield f

    def ptype_of(f, i):
        t = ptype(f.params[i]['type'])
        return t.elem if t.k == 'ref' else t

    # ---------------------------------------------------------------- reductions
    base = cx.engine('src/Comm.cc')
    for fn, op in sorted(RED.items()):
        for f in overloads(base, 'Comm::' + fn):
            ct = ptype_of(f, 0)
            with cx.unit('Comm::%s %s' % (fn, f.sig())):
                eng, st = fresh()
                x = Loc(('A', 'x'), (), ct)
                x0 = uvar('x0') if ct.k == 'int' else T.var('x0r', 'R')
                st.mem[x.path] = x0
                args = [x]
                comm = 'ompi_mpi_comm_world'
                if len(f.params) > 1:
                    args.append(Ptr(('A', 'comm'), (), I(0), ptype_of(f, 1), True))
                    comm = 'A.comm'
                cx.run(eng, 'Comm::' + fn, args, st=st, pred=lambda h: h.sig() == f.sig())
                ty = 'ompi_mpi_double' if ct.k == 'real' else 'ompi_mpi_uint64_t'
                want = T.app('%s<%s>@%s' % (op, ty, comm), (x0,), x0.sort)
                got = st.mem.get(x.path)
                if isinstance(got, T.E) and got.sort != want.sort:
                    cx.decide('x becomes the %s over the ranks of the communicator' % op, False, 'normal-form', got)
                else:
                    cx.prove('x becomes the reduction (%s, %s, %s) of the ranks\' values' % (op, ty, comm), T.eq(got, want))
                cx.prove('the function returns on every path', st.pc)
                cx.discharge(eng)

    # ---------------------------------------------------------------- rank
    for f in overloads(base, 'Comm::rank'):
        with cx.unit('Comm::rank %s' % f.sig()):
            eng, st = fresh()
            args, comm = [], 'ompi_mpi_comm_world'
            if f.params:
                args, comm = [Ptr(('A', 'comm'), (), I(0), ptype_of(f, 0), True)], 'A.comm'
            st, r = cx.run(eng, 'Comm::rank', args, st=st, pred=lambda h: h.sig() == f.sig())
            cx.prove('returns the rank in the communicator', T.eq(r, T.var('rank.' + comm, 'I')))
            cx.discharge(eng)
    with cx.unit('Comm::numRanks'):
        eng, st = fresh()
        st, r = cx.run(eng, 'Comm::numRanks', [], st=st)
        cx.prove('returns the number of ranks', T.eq(r, T.var('size.ompi_mpi_comm_world', 'I')))
        cx.discharge(eng)

    # ---------------------------------------------------------------- point to point
    def one(eng, name):
        evs = [e for e in eng.events if e.name == name]
        cx.decide('exactly one %s' % name, len(evs) == 1 and len(eng.events) == 1, 'normal-form', eng.events)
        return evs[0].args if len(evs) == 1 else None

    def same_bytes(count, ty, n, el, what):
        cx.decide('%s: element type' % what, mpi.SIZE.get(ty) is not None and mpi.SORT.get(ty, el) == el, 'normal-form', ty)
        if mpi.SIZE.get(ty):
            cx.prove('%s: exactly the requested elements' % what, T.eq(T.mul(count, I(mpi.SIZE[ty])), T.mul(n, I(8))))

    tags = {}
    for fn, mp, single in (('sendUInt', 'MPI_Send', True), ('sendUIntVector', 'MPI_Send', False), ('iSendUIntVector', 'MPI_Isend', False),
                           ('iSendDoubleVector', 'MPI_Isend', False), ('recvUInt', 'MPI_Recv', True), ('recvUIntVector', 'MPI_Recv', False),
                           ('recvDoubleVector', 'MPI_Recv', False)):
        for f in overloads(base, 'Comm::' + fn):
            with cx.unit('Comm::%s %s' % (fn, f.sig())):
                eng, st = fresh()
                buf = obj('buf', 'unsigned long' if single else ('std::vector<double>' if 'Double' in fn else 'std::vector<unsigned long>'))
                n = I(1)
                dest = uvar('dest')
                tag = T.var('tag', 'I')
                if not single:
                    n = uvar('n')
                    st.mem[buf.path + ('#n',)] = n
                elif mp == 'MPI_Send':
                    st.mem[buf.path] = uvar('value')
                pre = st.copy()
                byval = ptype(f.params[0]['type']).k != 'ref'
                args = [st.mem[buf.path] if byval else buf, dest]
                if len(f.params) > 2:
                    args.append(tag)
                if len(f.params) > 3:
                    args.append(obj('request', 'MPI_Request'))
                hy = [T.lt(I(0), n), T.lt(n, I(2 ** 31))]
                eng.facts += hy
                cx.run(eng, 'Comm::' + fn, args, st=st, pred=lambda h: h.sig() == f.sig())
                v = one(eng, mp)
                if v:
                    p = v[0]
                    if single and mp == 'MPI_Send':
                        cx.prove('the value passed is sent', T.eq(eng.load(eng.deref(p, eng.events[0].st), eng.events[0].st), st.mem.get(buf.path, uvar('value'))))
                    elif single:
                        cx.decide('the caller\'s variable receives', isinstance(p, Ptr) and p.path == buf.path, 'normal-form', p)
                    else:
                        cx.decide('the buffer from its first element', isinstance(p, Ptr) and p.path == buf.path + ('#e',) and p.off is I(0), 'normal-form', p)
                    same_bytes(v[1], mpi.gname(v[2]), n, 'R' if 'Double' in fn else 'I', fn)
                    cx.prove('the given rank', T.eq(v[3], dest))
                    if len(f.params) > 2:
                        cx.prove('the given tag', T.eq(v[4], tag))
                    else:
                        tags.setdefault(str(v[4]), []).append(fn)
                    cx.decide('the world communicator', mpi.gname(v[5]) == 'ompi_mpi_comm_world', 'normal-form', v[5])
                cx.discharge(eng)
    with cx.unit('matching tags of the helpers without a tag argument'):
        eng = cx.engine('src/Comm.cc')
        cx.decide('senders and receivers use the same tag', len(tags) == 1, 'normal-form', tags)

    # ---------------------------------------------------------------- files
    FILE = ('A', 'file')
    filetype = lambda f: ptype_of(f, 0)

    def fhandle(v):
        return isinstance(v, Ptr) or isinstance(v, T.E) or v is not None

    for f in overloads(base, 'Comm::seek'):
        with cx.unit('Comm::seek'):
            eng, st = fresh()
            pos = uvar('position')
            eng.facts.append(T.lt(pos, I(2 ** 63)))
            fl = Loc(FILE, (), filetype(f))
            cx.run(eng, 'Comm::seek', [fl, pos], st=st)
            v = one(eng, 'MPI_File_seek')
            if v:
                cx.prove('to the given byte', T.eq(v[1], pos))
                cx.decide('from the start of the file', isinstance(v[2], T.E) and v[2] is I(600), 'normal-form', v[2])
                cx.decide('of the given file', str(getattr(v[0], 'path', v[0])).find('file') >= 0, 'normal-form', v[0])
            cx.discharge(eng)
    for fn in ('readUint64', 'readChars'):
        for f in overloads(base, 'Comm::' + fn):
            with cx.unit('Comm::%s %s' % (fn, f.sig())):
                eng, st = fresh()
                fl = Loc(FILE, (), filetype(f))
                es = 8 if fn == 'readUint64' else 1
                n = I(1)
                args = [fl]
                if len(f.params) == 2:
                    d = obj('data', 'unsigned long')
                    args.append(d)
                else:
                    n = uvar('n')
                    d = Ptr(('A', 'data'), (), I(0), ptype('unsigned long') if es == 8 else ptype('char'), False)
                    args += [d, n]
                cx.run(eng, 'Comm::' + fn, args, st=st, pred=lambda h: h.sig() == f.sig())
                v = one(eng, 'MPI_File_read')
                if v:
                    p = v[1]
                    cx.decide('into the caller\'s memory from its start', isinstance(p, Ptr) and p.path == ('A', 'data') and p.off is I(0), 'normal-form', p)
                    ty = mpi.gname(v[3])
                    cx.decide('element type', ty == 'ompi_mpi_byte' or mpi.SORT.get(ty) == 'I' or (es == 1 and ty == 'ompi_mpi_char'), 'normal-form', ty)
                    cx.prove('exactly the requested elements', T.eq(T.mul(v[2], I(mpi.SIZE.get(ty, 0))), T.mul(n, I(es))))
                    cx.decide('of the given file', str(getattr(v[0], 'path', v[0])).find('file') >= 0, 'normal-form', v[0])
                cx.discharge(eng)
    for f in overloads(base, 'Comm::writeDoublesAt'):
        with cx.unit('Comm::writeDoublesAt'):
            eng, st = fresh()
            fl = Loc(FILE, (), filetype(f))
            off, n = uvar('offset'), uvar('n')
            d = Ptr(('A', 'data'), (), I(0), ptype('double'), False)
            cx.run(eng, 'Comm::writeDoublesAt', [fl, off, d, n], st=st)
            v = one(eng, 'MPI_File_write_at')
            if v:
                cx.prove('at the given element', T.eq(v[1], T.mul(off, I(8))))
                p = v[2]
                cx.decide('from the caller\'s memory', isinstance(p, Ptr) and p.path == ('A', 'data') and p.off is I(0), 'normal-form', p)
                same_bytes(v[3], mpi.gname(v[4]), n, 'R', 'writeDoublesAt')
                cx.decide('to the given file', str(getattr(v[0], 'path', v[0])).find('file') >= 0, 'normal-form', v[0])
            cx.discharge(eng)
    for fn in ('openFileForRead', 'openFileForWrite', 'closeFile'):
        with cx.unit('Comm::' + fn):
            opening(cx, fresh, fn, overloads, base)
    cx.assume('file offsets and counts are below 2^31 elements where the code passes them to MPI as int')


def opening(cx, fresh, fn, overloads, base):
    """files are opened and closed by all ranks together; a file to be written is a new one whether or not there was one before"""
    eng, st = fresh()
    rank, was = uvar('rank'), T.var('existed', 'B')
    world, evs = ('W', 'exists'), []
    CREATE, RDONLY, WRONLY, RDWR, EXCL, APPEND = 1, 2, 4, 8, 64, 128
    st.mem[world], st.mem[('W', 'new')] = was, T.FALSE
    eng.contracts['Comm::rank'] = lambda e, t, a, s: rank

    def ok(c, s):
        return T.ite(c, I(0), I(13))

    def opened(e, t, a, s):
        if mpi.gname(a[0]) != 'ompi_mpi_comm_world' or not (isinstance(a[2], T.E) and a[2].op == 'num'):
            raise Unsupported('MPI_File_open(%s, %s)' % (mpi.gname(a[0]), a[2]))
        m = int(a[2].info)
        ex = T.subst(s.mem[world], {rank: I(0)})         # one file, opened by all together: as rank 0 has left it
        done = (T.not_(ex) if m & EXCL else T.TRUE) if m & CREATE else ex
        new = T.and_(done, T.not_(ex)) if m & CREATE else T.FALSE
        for p, v in ((world, T.or_(ex, done)), (('W', 'new'), T.or_(T.and_(s.mem[('W', 'new')], T.not_(done)), new))):
            e.note_write(p)
            s.mem[p] = v
        evs.append(('open', s.pc, m, done, a))
        return ok(done, s)

    def deleted(e, t, a, s):
        ex = s.mem[world]
        e.note_write(world)
        s.mem[world] = T.FALSE
        evs.append(('delete', s.pc, None, ex, a))
        return ok(ex, s)

    def closed(e, t, a, s):
        evs.append(('close', s.pc, None, T.TRUE, a))
        return I(0)
    eng.contracts.update({'MPI_File_open': opened, 'MPI_File_delete': deleted, 'MPI_File_close': closed})
    if fn == 'openFileForRead':
        eng.facts.append(was)
    name, fl = obj('name', 'std::string'), Loc(('A', 'file'), (), ptype('MPI_File'))
    st, _ = cx.run(eng, 'Comm::' + fn, ([] if fn == 'closeFile' else [name]) + [fl], st=st)
    if not evs:
        raise Unsupported('no file operation')
    cx.prove('it succeeds', st.pc, [], eng)
    r2 = uvar('rank2')
    for k, (n, pc, m, done, a) in enumerate(evs):
        if n == 'delete':
            cx.prove('one rank deletes', T.not_(T.and_(pc, T.subst(pc, {rank: r2}))), [T.ne(rank, r2)], eng)
        else:
            cx.prove('%s %d: all ranks or none' % (n, k), T.and_(T.implies(pc, T.subst(pc, {rank: r2})), T.implies(T.subst(pc, {rank: r2}), pc)), [], eng)
        if n == 'open':
            cx.decide('open %d: for this use' % k, bool(m & (RDONLY | RDWR)) if fn == 'openFileForRead' else bool(m & (WRONLY | RDWR)) and not m & APPEND, 'normal-form', m)
            cx.decide('open %d: the handle of the caller' % k, str(getattr(a[4], 'path', a[4])).find('file') >= 0, 'normal-form', a[4])
    last = [e for e in evs if e[0] != 'delete']
    cx.prove('done', T.or_(T.FALSE, *[T.and_(e[1], e[3]) for e in last]), [], eng)
    if fn == 'openFileForWrite':
        cx.prove('the file is a new one', st.mem[('W', 'new')], [], eng)
    cx.discharge(eng)
