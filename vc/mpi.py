"""Contracts of the MPI functions (trusted): each call is recorded as an event with its evaluated arguments; receives and
reductions store an uninterpreted value that depends only on what MPI says it depends on."""
from . import term as T
from .term import I, R
from .exec import Loc, Ptr, Unsupported, Upd, Base

SIZE = {'ompi_mpi_double': 8, 'ompi_mpi_uint64_t': 8, 'ompi_mpi_byte': 1, 'ompi_mpi_char': 1, 'ompi_mpi_int': 4, 'ompi_mpi_unsigned_long': 8}
SORT = {'ompi_mpi_double': 'R', 'ompi_mpi_uint64_t': 'I', 'ompi_mpi_unsigned_long': 'I'}


def gname(v):
    """name of the MPI object (datatype, operation, communicator) an argument denotes"""
    if isinstance(v, Ptr) and v.path[0] == 'G' and len(v.path) == 2:
        return v.path[1]
    return None


class Ev(object):
    def __init__(self, name, args, st, lv):
        self.name, self.args, self.pc, self.lv, self.st = name, args, st.pc, lv, st.copy()

    def __repr__(self):
        return '%s%r' % (self.name, self.args)


def install(eng, names=None):
    """records MPI calls in eng.events"""
    eng.events = []

    def rec(name, eff=None):
        def f(e, this, vals, st):
            e.events.append(Ev(name, vals, st, tuple(e.loop_vars)))
            if eff is not None:
                eff(e, vals, st)
            return I(0)
        eng.contracts[name] = f

    def allreduce(e, v, st):
        src, dst, n, ty, op, comm = v
        if not (isinstance(n, T.E) and n.op == 'num' and n.info == 1):
            raise Unsupported('reduction of %r elements' % (n,))
        x = e.load(e.deref(src, st), st)
        d = e.deref(dst, st)
        e.store(d, T.app('%s<%s>@%s' % (gname(op), gname(ty), e_name(e, comm)), (x,), x.sort), st)
    rec('MPI_Allreduce', allreduce)
    for n in ('MPI_Send', 'MPI_Isend', 'MPI_Barrier', 'MPI_File_open', 'MPI_File_delete', 'MPI_File_close', 'MPI_File_seek',
              'MPI_File_write_at', 'MPI_Waitall'):
        rec(n)

    def fill(e, p, n, ty, tag, st):
        """elements 0..n-1 of what p points to become the values of the transfer"""
        if p.single or (n.op == 'num' and n.info == 1 and ty != 'ompi_mpi_byte'):
            l = e.deref(p, st)
            e.store(l, T.app(tag, (I(0),), SORT.get(ty, 'I')), st)
            return
        k = e.nonneg_fresh('k')
        l = e.elem(p, k, st)
        c = st.mem.get(l.path)
        if c is None:
            c = e.default(l.path, len(l.idx), p.ct)
        e.note_write(l.path)
        sort = {'int': 'I', 'real': 'R', 'bool': 'B'}[p.ct.k]
        T.NONNEG.add(tag)
        cnt = n if ty != 'ompi_mpi_byte' else T.idiv(n, I(e.sizeof(p.ct)))
        st.mem[l.path] = Upd(c, (k,), T.lt(k, cnt), l.idx, T.app(tag, (k,), sort))

    rec('MPI_Recv', lambda e, v, st: fill(e, v[0], v[1], gname(v[2]), 'received', st))
    rec('MPI_File_read', lambda e, v, st: fill(e, v[1], v[2], gname(v[3]), 'filedata', st))

    def rank(e, v, st):
        T.NONNEG.add('rank')
        e.store(e.deref(v[1], st), T.app('rank', (), 'I') if False else T.var('rank.' + e_name(e, v[0]), 'I'), st)
    rec('MPI_Comm_rank', rank)

    def size(e, v, st):
        e.store(e.deref(v[1], st), T.var('size.' + e_name(e, v[0]), 'I'), st)
    rec('MPI_Comm_size', size)


def e_name(e, comm):
    g = gname(comm)
    if g:
        return g
    if isinstance(comm, Ptr):
        return '.'.join(comm.path)
    return str(comm)
