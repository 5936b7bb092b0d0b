"""Buffered file access: every byte of the file beneath, once, in order, whatever the sizes of the chunks and of the requests."""
import z3
from spec import *
from ghost import *
from core import vget_loose, Vec, VecS, Ptr
from s_tuples import c64, eq_v, iface, B64

IO = 'fbpcf::io::'
B8 = z3.BitVecSort(8)
NL = z3.BitVecVal(10, 8)


def some(nm, bits=48):
    return z3.ZeroExt(64 - bits, z3.BitVec(fresh_name(nm), bits))


def field(e, this, f):
    return e.load(this).f[f]


def set_fields(e, this, **kw):
    v = e.load(this)
    for k, x in kw.items():
        v = v.with_(k, x)
    e.store(this, v)


class File:
    """a file of N bytes C(0), C(1), ...; each read of the base reader hands over between one byte and the whole request"""

    def __init__(self, e, close=0):
        self.e = e
        self.C = z3.Function('file', B64, B8)
        self.N = z3.ZeroExt(32, z3.BitVec('N', 32))
        cur, wait = z3.ZeroExt(32, z3.BitVec('cur', 32)), z3.ZeroExt(32, z3.BitVec('waiting', 32))
        last = cur + wait
        self.P0 = z3.ZeroExt(32, z3.BitVec('P0', 32))
        self.pos = e.alloc(self.P0 + wait, 'base position')
        e.assume(z3.ULE(e.load(self.pos), self.N))
        self.base = iface(e, IO + 'IReaderCloser', filepath_=Vec([]))
        self.closed = e.alloc(0, 'closed')
        e.own_bodies = (IO + 'Buffered',)
        e.contracts[IO + 'IReader::read'] = self.read
        e.contracts[IO + 'IReader::eof'] = lambda eng, this, args, call: eq_i(self.at(), self.N)
        e.contracts[IO + 'ICloser::close'] = self.close
        self.rc = z3.BitVec('close_result', 32)
        Z = z3.ZeroExt(32, z3.BitVec('chunk', 32))
        self.Z = Z
        e.assume(z3.And(z3.UGE(Z, 1), z3.ULE(last, Z)))
        self.this = e.alloc(mkobj(e, rec_q(e, IO + 'BufferedReader'), baseReader_=self.base), 'reader')
        self.put(cur, last)

    def at(self):
        return bv(self.e.load(self.pos), 64)

    def put(self, cur, last):
        """the chunk in memory holds the bytes before the base position"""
        p, G, C = self.at(), z3.Function(fresh_name('stale'), B64, B8), self.C
        set_fields(self.e, self.this, currentPosition_=cur, lastPosition_=last, buffer_=VecS(self.Z, lambda j, p=p: z3.If(z3.And(z3.ULE(cur, bv(j, 64)), z3.ULT(bv(j, 64), last)), C(p - last + bv(j, 64)), G(bv(j, 64)))))

    def read(self, eng, this, args, call):
        eng.prove('the base file is only read when there is more', z3.ULT(self.at(), self.N))
        p = args[0].ptr if hasattr(args[0], 'ptr') else args[0]
        old = eng.load(p)
        n = bv(vlen(old), 64)
        eng.prove('the base file is asked for something', z3.UGT(n, 0))
        k, o, C, G = some('got', 32), self.at(), self.C, z3.Function(fresh_name('stale'), B64, B8)
        eng.assume(z3.And(z3.UGE(k, 1), z3.ULE(k, n), z3.ULE(o + k, self.N), z3.ULE(k, self.N - o), z3.ULT(o, o + k)))
        z = some('size_after', 32)                                       # readers may leave the buffer at any size that holds the bytes
        eng.assume(z3.UGE(z, k))
        eng.store(p, VecS(z, lambda j: z3.If(z3.ULT(bv(j, 64), k), C(o + bv(j, 64)), G(bv(j, 64)))))
        eng.store(self.pos, o + k)
        return k

    def close(self, eng, this, args, call):
        eng.store(self.closed, bv(eng.load(self.closed), 32) + 1)
        return self.rc

    def cl(self):
        cur, last = bv(field(self.e, self.this, 'currentPosition_'), 64), bv(field(self.e, self.this, 'lastPosition_'), 64)
        return cur, last

    def P(self):
        cur, last = self.cl()
        return self.at() - (last - cur)

    def inv(self, when, P):
        """the reader is at byte P of the file"""
        e = self.e
        cur, last = self.cl()
        buf = field(e, self.this, 'buffer_')
        e.prove('%s: the chunk is not empty' % when, z3.And(z3.UGE(bv(vlen(buf), 64), 1), z3.ULT(bv(vlen(buf), 64), 1 << 32)))
        e.prove('%s: within the chunk' % when, z3.And(z3.ULE(cur, last), z3.ULE(last, bv(vlen(buf), 64))))
        e.prove('%s: within the file' % when, z3.And(z3.ULE(self.at(), self.N), z3.ULE(last - cur, self.at())))
        e.prove('%s: position in the file' % when, self.P() == P)
        with each(e, last) as j:
            e.prove('%s: bytes of the file wait in the chunk' % when, z3.Implies(z3.ULE(cur, j), eq_i(at(buf, j), self.C(self.at() - last + j))))

    def havoc(self, P):
        """some state in which the reader is at byte P"""
        e = self.e
        cur, wait = some('cur', 32), some('waiting', 32)
        last = cur + wait
        e.store(self.pos, z3.simplify(P + wait))
        self.Z = some('chunk', 32)
        e.assume(z3.UGE(self.Z, 1))
        e.assume(z3.And(z3.ULE(last, self.Z), z3.ULE(self.at(), self.N)))
        self.put(cur, last)


class ReadInv:
    def __init__(self, F, size, ptr):
        self.F, self.e, self.size, self.ptr = F, F.e, size, ptr
        self.X = z3.Function('given', B64, B8)

    def applies(self, L):
        return not L.fr.loops

    def check(self, L, when):
        e, F = self.e, self.F
        f, r = bv(L.get('filledUp'), 64), bv(L.get('remaining'), 64)
        buf = e.load(self.ptr)
        e.prove('%s: never more than asked for' % when, z3.ULE(f, self.size))
        e.prove('%s: the rest remains' % when, r == self.size - f)
        e.prove('%s: the caller\'s buffer keeps its size' % when, eq_i(vlen(buf), self.size))
        with each(e, f) as j:
            e.prove('%s: the next bytes of the file' % when, eq_i(at(buf, j), F.C(F.P0 + j)))
        F.inv(when, F.P0 + f)

    def havoc(self, L):
        e, F, X = self.e, self.F, self.X
        f = some('filled', 32)
        e.assume(z3.ULE(f, self.size))
        L.set('filledUp', f)
        L.set('remaining', self.size - f)
        e.store(self.ptr, VecS(self.size, lambda j: z3.If(z3.ULT(bv(j, 64), f), F.C(F.P0 + bv(j, 64)), X(bv(j, 64)))))
        F.havoc(F.P0 + f)

    def measure(self, L):
        return self.F.N - self.F.at()


@task('I01', 'buffered', name='reading')
def reading(T_):
    """a request gets the next bytes of the file, as many as asked for or all that are left; at the end it is rejected"""
    e = T_.eng('buffered')
    F = File(e)
    f = fn(e, IO + 'BufferedReader::read')
    size = z3.ZeroExt(33, z3.BitVec('size', 31))
    G = z3.Function('old', B64, B8)
    cell = e.alloc(VecS(size, lambda j: G(bv(j, 64))), 'request')
    inv = ReadInv(F, size, cell)
    e.invariants[f['q']] = inv
    alive, k, th = call(e, f, F.this, [ByRef(cell)])
    throws_iff(e, th, e.st.pc if alive else None, eq_i(F.P0, F.N), 'read')
    if not alive:
        raise Unsupported('read never returns')
    k = bv(k, 64)
    left = F.N - F.P0
    e.prove('as many bytes as asked for, or all that are left', k == z3.If(z3.ULT(size, left), size, left))
    buf = e.load(cell)
    with each(e, k) as j:
        e.prove('the next bytes of the file', eq_i(at(buf, j), F.C(F.P0 + j)))
    F.inv('after', F.P0 + k)
    e.cover('reachable')


class LineInv:
    def __init__(self, F, Q):
        self.F, self.e, self.Q = F, F.e, Q

    def applies(self, L):
        return not L.fr.loops

    def check(self, L, when):
        e, F = self.e, self.F
        out = L.get('output')
        n = bv(vlen(out), 64)
        c = bv(L.get('c'), 8)
        e.prove('%s: not past the end of the line' % when, z3.And(z3.ULE(F.P0 + n, self.Q), z3.ULT(F.P0 + n, F.N), z3.ULE(n, F.N)))
        if isinstance(out, Vec):
            out = VecS(c64(len(out.xs)), (lambda o: lambda j: vget_loose(o, j) if o.xs else z3.BitVecVal(0, 8))(out))
        with each(e, n) as j:
            e.prove('%s: the bytes of the line so far' % when, eq_i(at(out, j), F.C(F.P0 + j)))
        e.prove('%s: the next byte of the file' % when, eq_i(c, F.C(F.P0 + n)))
        F.inv(when, F.P0 + n + 1)

    def havoc(self, L):
        e, F = self.e, self.F
        n = some('length', 32)
        e.assume(z3.And(z3.ULE(F.P0 + n, self.Q), z3.ULT(F.P0 + n, F.N), z3.ULE(n, F.N)))
        e.assume(z3.Implies(z3.ULT(F.P0 + n, self.Q), F.C(F.P0 + n) != NL))       # no line break before the first one
        L.set('output', VecS(n, lambda j: F.C(F.P0 + bv(j, 64))))
        L.set('c', F.C(F.P0 + n))
        F.havoc(F.P0 + n + 1)

    def measure(self, L):
        return self.F.N - bv(vlen(L.get('output')), 64)


@task('I01', 'buffered', name='lines')
def lines(T_):
    """a line is what stands before the next line break or the end of the file, and the reader then stands after that break"""
    e = T_.eng('buffered')
    F = File(e)
    f = fn(e, IO + 'BufferedReader::readLine')
    Q = z3.ZeroExt(32, z3.BitVec('line_end', 32))
    e.assume(z3.And(z3.ULE(F.P0, Q), z3.ULE(Q, F.N), z3.Implies(z3.ULT(Q, F.N), F.C(Q) == NL)))
    e.assume(z3.Implies(z3.ULT(F.P0, Q), F.C(F.P0) != NL))
    e.invariants[f['q']] = LineInv(F, Q)
    alive, out, th = call(e, f, F.this, [])
    throws_iff(e, th, e.st.pc if alive else None, eq_i(F.P0, F.N), 'readLine')
    if not alive:
        raise Unsupported('readLine never returns')
    if isinstance(out, Ptr):
        out = e.load(out)
    e.prove('the whole line', eq_i(vlen(out), Q - F.P0))
    with each(e, Q - F.P0) as j:
        e.prove('the bytes of the line', eq_i(at(out, j), F.C(F.P0 + j)))
    F.inv('after', z3.If(Q == F.N, F.N, Q + 1))
    e.cover('reachable')


@task('I01', 'buffered', name='end and close')
def ends(T_):
    """the end is reported exactly when every byte was handed out; closing closes the file beneath and gives its answer"""
    e = T_.eng('buffered')
    F = File(e)
    r = callv(e, fn(e, IO + 'BufferedReader::eof'), F.this, [], 'eof')
    e.prove('at the end exactly when nothing is left', zb(r) == (F.P0 == F.N))
    F.inv('eof', F.P0)
    r = callv(e, fn(e, IO + 'BufferedReader::close'), F.this, [], 'close')
    e.prove('the answer of the file beneath', eq_i(r, F.rc))
    e.prove('the file beneath is closed', eq_i(e.load(F.closed), 1))


@task('I01', 'buffered', name='a new reader')
def new_reader(T_):
    """a new reader stands at the first byte"""
    e = T_.eng('buffered')
    F = File(e)
    e.store(F.pos, c64(0))
    fs = [f for f in e.tu.byq[IO + 'BufferedReader::(ctor)'] if len(f['ps']) == 2 and 'body' in f]
    F.this = e.alloc(e.construct(rec_q(e, IO + 'BufferedReader')['id'], fs[0], [F.base, F.Z]), 'reader')
    F.inv('new', c64(0))


# ------------------------------------------------------------------ writer
class Out:
    """D(0), D(1), ... are the bytes written so far and now; the file beneath has the first c of them, the chunk the next ones"""

    def __init__(self, e, fails=None):
        self.e = e
        self.D = z3.Function('written', B64, B8)
        self.c = e.alloc(z3.ZeroExt(32, z3.BitVec('in_file', 32)), 'bytes in the file')
        self.fails = fails
        self.closed = e.alloc(0, 'closed')
        self.base = iface(e, IO + 'IWriterCloser', filepath_=Vec([]))
        e.own_bodies = (IO + 'Buffered',)
        e.contracts[IO + 'IWriter::write'] = self.write
        e.contracts[IO + 'ICloser::close'] = self.close
        self.rc = z3.BitVec('close_result', 32)
        self.Z = z3.ZeroExt(33, z3.BitVec('chunk', 31))
        cur = z3.ZeroExt(33, z3.BitVec('cur', 31))
        e.assume(z3.And(z3.UGE(self.Z, 1), z3.ULE(cur, self.Z)))
        self.T0 = self.cnt() + cur
        self.this = e.alloc(mkobj(e, rec_q(e, IO + 'BufferedWriter'), baseWriter_=self.base), 'writer')
        self.put(cur)

    def cnt(self):
        return bv(self.e.load(self.c), 64)

    def cur(self):
        return bv(field(self.e, self.this, 'currentPosition_'), 64)

    def put(self, cur):
        c, D, G = self.cnt(), self.D, z3.Function(fresh_name('stale'), B64, B8)
        set_fields(self.e, self.this, currentPosition_=cur, buffer_=VecS(self.Z, lambda j: z3.If(z3.ULT(bv(j, 64), cur), D(c + bv(j, 64)), G(bv(j, 64)))))

    def write(self, eng, this, args, call):
        p = args[0].ptr if hasattr(args[0], 'ptr') else args[0]
        v = eng.load(p)
        n, c = bv(vlen(v), 64), self.cnt()
        eng.prove('only written bytes reach the file', z3.ULE(n, z3.simplify(self.end - c)))
        with each(eng, n) as j:
            eng.prove('the bytes reach the file in order', eq_i(at(v, j), self.D(c + j)))
        if self.fails is not None:
            return z3.If(self.fails, self.short, n)
        eng.store(self.c, c + n)
        return n

    def close(self, eng, this, args, call):
        eng.prove('nothing waits when the file is closed', self.cnt() == self.end)
        eng.store(self.closed, bv(eng.load(self.closed), 32) + 1)
        return self.rc

    def inv(self, when, T):
        e = self.e
        buf = field(e, self.this, 'buffer_')
        e.prove('%s: the chunk keeps its size' % when, eq_i(vlen(buf), self.Z))
        e.prove('%s: within the chunk' % when, z3.ULE(self.cur(), self.Z))
        e.prove('%s: every byte is in the file or waits' % when, self.cnt() + self.cur() == T)
        with each(e, self.cur()) as j:
            e.prove('%s: the waiting bytes' % when, eq_i(at(buf, j), self.D(self.cnt() + j)))

    def havoc(self, T):
        e = self.e
        cur = some('cur', 31)
        e.assume(z3.And(z3.ULE(cur, self.Z), z3.ULE(cur, T)))
        e.store(self.c, z3.simplify(T - cur))
        self.put(cur)


class WriteInv:
    def __init__(self, W, size):
        self.W, self.e, self.size = W, W.e, size

    def applies(self, L):
        return not L.fr.loops

    def check(self, L, when):
        w, r = bv(L.get('written'), 64), bv(L.get('remaining'), 64)
        self.e.prove('%s: never more than given' % when, z3.ULE(w, self.size))
        self.e.prove('%s: the rest remains' % when, r == self.size - w)
        self.W.inv(when, self.W.T0 + w)

    def havoc(self, L):
        w = some('written', 32)
        self.e.assume(z3.ULE(w, self.size))
        L.set('written', w)
        L.set('remaining', self.size - w)
        self.W.havoc(self.W.T0 + w)

    def measure(self, L):
        return self.size - bv(L.get('written'), 64) + self.W.cur()


@task('I01', 'buffered', name='writing', cases=['write', 'writeString'])
def writing(T_, q):
    """every byte given goes to the file or waits, in order; all of them are accepted"""
    e = T_.eng('buffered')
    W = Out(e)
    size = z3.ZeroExt(33, z3.BitVec('size', 31))
    W.end = W.T0 + size
    e.invariants[IO + 'BufferedWriter::write'] = WriteInv(W, size)
    cell = e.alloc(VecS(size, lambda j: W.D(W.T0 + bv(j, 64))), 'given')
    k = callv(e, fn(e, IO + 'BufferedWriter::' + q), W.this, [ByRef(cell)], q)
    e.prove('all bytes are accepted', eq_i(k, size))
    W.inv('after', W.T0 + size)
    v = e.load(cell)
    e.prove('the bytes given are untouched', eq_i(vlen(v), size))
    with each(e, size) as j:
        e.prove('the bytes given are untouched', eq_i(at(v, j), W.D(W.T0 + j)))
    e.cover('reachable')


@task('I01', 'buffered', name='flush and close')
def flushing(T_):
    """a flush leaves nothing waiting; closing flushes first, then closes the file beneath"""
    for q in ('flush', 'close'):
        e = T_.eng('buffered')
        W = Out(e)
        W.end = W.T0
        r = callv(e, fn(e, IO + 'BufferedWriter::' + q), W.this, [], q)
        W.inv(q, W.T0)
        e.prove('nothing waits', eq_i(W.cur(), 0))
        e.prove('everything is in the file', eq_i(W.cnt(), W.T0))
        if q == 'close':
            e.prove('the answer of the file beneath', eq_i(r, W.rc))
            e.prove('the file beneath is closed', eq_i(e.load(W.closed), 1))


@task('I01', 'buffered', name='short writes')
def shortw(T_):
    """a file beneath that takes fewer bytes than it was given is reported"""
    for q in ('flush', 'close'):
        e = T_.eng('buffered')
        W = Out(e, fails=z3.Bool('fails'))
        W.short = z3.BitVec('short', 64)
        W.end = W.T0
        n0 = W.cur()
        e.assume(z3.And(z3.UGT(n0, 0), z3.Implies(W.fails, W.short != n0)))
        e.contracts[IO + 'ICloser::close'] = lambda eng, this, args, call: W.rc
        alive, r, th = call(e, fn(e, IO + 'BufferedWriter::' + q), W.this, [])
        throws_iff(e, th, e.st.pc if alive else None, W.fails, q)
        e.prove('a short write is possible', len(th) > 0)


@task('I01', 'buffered', name='a new writer')
def new_writer(T_):
    e = T_.eng('buffered')
    W = Out(e)
    e.store(W.c, c64(0))
    fs = [f for f in e.tu.byq[IO + 'BufferedWriter::(ctor)'] if len(f['ps']) == 2 and 'body' in f]
    W.this = e.alloc(e.construct(rec_q(e, IO + 'BufferedWriter')['id'], fs[0], [W.base, W.Z]), 'writer')
    W.inv('new', c64(0))


@task('I01', 'buffered', name='default chunks')
def default_chunks(T_):
    """whatever the kind of file, the chunk chosen by default is not empty"""
    for cls in ('Reader', 'Writer'):
        e = T_.eng('buffered')
        F = File(e) if cls == 'Reader' else Out(e)
        e.store(F.pos if cls == 'Reader' else F.c, c64(0))
        cloud = z3.Bool('cloud')
        e.contracts[IO + 'IOUtils::isCloudFile'] = lambda eng, this, args, call: cloud
        r = rec_q(e, IO + 'Buffered' + cls)
        fs = [f for f in e.tu.byq[IO + 'Buffered%s::(ctor)' % cls] if len(f['ps']) == 1 and 'body' in f and f.get('sp') == 'ctor']
        F.this = e.alloc(e.construct(r['id'], fs[0], [F.base]), 'obj')
        buf = field(e, F.this, 'buffer_')
        e.prove('the chunk is not empty', z3.And(z3.UGE(bv(vlen(buf), 64), 1), z3.ULE(bv(vlen(buf), 64), 1 << 30)))
        if cls == 'Reader':
            F.inv('new', c64(0))
        else:
            e.prove('nothing waits', eq_i(F.cur(), 0))


# ------------------------------------------------------------------ whole files
class Whole:
    """the reader of a file of N bytes as its contract has it; C(N) stands for the line break that ends an unfinished last line"""

    def __init__(self, e):
        self.e = e
        self.N = z3.ZeroExt(32, z3.BitVec('N', 32))
        self.C = z3.Function('file', B64, B8)
        self.p = e.alloc(c64(0), 'position')
        self.out = e.alloc(VecS(c64(0), lambda j: z3.BitVecVal(0, 8)), 'copied')
        e.assume(self.C(self.N) == NL)
        c = e.contracts
        for k in ('FileReader', 'FileWriter'):
            c[IO + k + '::(ctor)'] = (lambda k: lambda eng, this, args, call: Rec(rec_q(eng, IO + k)['id'], {'filepath_': args[0].ptr and eng.load(args[0].ptr) if hasattr(args[0], 'ptr') else args[0]}))(k)
        for k in ('BufferedReader', 'BufferedWriter'):
            c[IO + k + '::(ctor)'] = (lambda k: lambda eng, this, args, call: self.made(k, args))(k)
            c[IO + k + '::(dtor)'] = lambda eng, this, args, call: None
            c[IO + k + '::close'] = lambda eng, this, args, call: 0
        c[IO + 'BufferedReader::eof'] = lambda eng, this, args, call: self.P() == self.N
        c[IO + 'BufferedReader::readLine'] = self.line
        c[IO + 'BufferedWriter::writeString'] = self.write
        self.paths = {}

    def made(self, k, args):
        base = args[0].ptr if hasattr(args[0], 'ptr') else args[0]
        v = self.e.load(base)
        while isinstance(v, Ptr):
            v = self.e.load(v)
        self.paths[k] = v.f['filepath_']
        return Rec(rec_q(self.e, IO + k)['id'], {})

    def P(self):
        return bv(self.e.load(self.p), 64)

    def line(self, eng, this, args, call):
        P, C, N = self.P(), self.C, self.N
        eng.prove('a line is only asked for when there is one', z3.ULT(P, N))
        Q = some('line_end', 32)
        eng.assume(z3.And(z3.ULE(P, Q), z3.ULE(Q, N), C(Q) == NL))
        eng.assume(z3.Implies(z3.ULT(P, Q), C(Q - 1) != NL))
        eng.store(self.p, z3.If(Q == N, N, Q + 1))
        return VecS(z3.simplify(Q - P), lambda j: C(P + bv(j, 64)))

    def write(self, eng, this, args, call):
        a = args[0].ptr if hasattr(args[0], 'ptr') else args[0]
        s = eng.load(a) if isinstance(a, Ptr) else a
        eng.store(self.out, eng.std.concat(eng.load(self.out), s))
        return vlen(s)


class CopyInv:
    """the output is the file up to the reader's position, and a line break if the last line had none"""

    def __init__(self, F, local):
        self.F, self.e, self.local = F, F.e, local

    def applies(self, L):
        return not L.fr.loops

    def out(self, L):
        v = L.get(self.local) if self.local else self.e.load(self.F.out)
        return VecS(c64(len(v.xs)), lambda j: z3.BitVecVal(0, 8)) if isinstance(v, Vec) and not v.xs else v

    def check(self, L, when):
        e, F = self.e, self.F
        v = self.out(L)
        n, P = bv(vlen(v), 64), F.P()
        e.prove('%s: within the file' % when, z3.ULE(P, F.N))
        e.prove('%s: everything read so far is there' % when, z3.Or(n == P, z3.And(P == F.N, n == F.N + 1, F.N != 0, F.C(F.N - 1) != NL)))
        e.prove('%s: whole lines' % when, z3.Or(n == 0, F.C(n - 1) == NL))
        with each(e, n) as j:
            e.prove('%s: the bytes of the file' % when, eq_i(at(v, j), F.C(j)))

    def havoc(self, L):
        e, F = self.e, self.F
        n, P = some('copied', 33), some('position', 32)
        e.assume(z3.And(z3.ULE(P, F.N), z3.Or(n == P, z3.And(P == F.N, n == F.N + 1, F.N != 0, F.C(F.N - 1) != NL))))
        e.assume(z3.Or(n == 0, F.C(n - 1) == NL))
        e.store(F.p, P)
        v = VecS(n, lambda j: F.C(bv(j, 64)))
        if self.local:
            L.set(self.local, v)
        else:
            e.store(F.out, v)

    def measure(self, L):
        return self.F.N - self.F.P()


@task('I01', 'buffered', name='whole files', cases=['readFile', 'transferFileInParts'])
def whole(T_, q):
    """the content is the file itself, any number of lines of any lengths; a last line without a line break gets one"""
    e = T_.eng('buffered')
    F = Whole(e)
    f = fn(e, IO + 'FileIOWrappers::' + q)
    inv = CopyInv(F, 'output' if q == 'readFile' else None)
    e.invariants[f['q']] = inv
    S, D = Vec([115]), Vec([100])
    r = callv(e, f, None, [S] if q == 'readFile' else [S, D], q)
    v = (e.load(r) if isinstance(r, Ptr) else r) if q == 'readFile' else e.load(F.out)
    v = VecS(c64(0), lambda j: z3.BitVecVal(0, 8)) if isinstance(v, Vec) and not v.xs else v
    n = bv(vlen(v), 64)
    e.prove('everything is there', z3.Or(n == F.N, z3.And(n == F.N + 1, F.N != 0, F.C(F.N - 1) != NL)))
    e.prove('the last line is complete', z3.Or(n == 0, F.C(n - 1) == NL))
    with each(e, n) as j:
        e.prove('the bytes of the file', eq_i(at(v, j), F.C(j)))
    e.prove('read from the file named', eq_v(e, F.paths['BufferedReader'], S) if False else F.paths['BufferedReader'].xs == S.xs)
    if q != 'readFile':
        e.prove('written to the file named', F.paths['BufferedWriter'].xs == D.xs)
    e.cover('reachable')


@task('I01', 'buffered', name='writing a whole file')
def whole_write(T_):
    """the file gets the content, byte for byte"""
    e = T_.eng('buffered')
    F = Whole(e)
    n = z3.ZeroExt(33, z3.BitVec('size', 31))
    X = z3.Function('content', B64, B8)
    D = Vec([100])
    cell = e.alloc(VecS(n, lambda j: X(bv(j, 64))), 'content')
    callv(e, fn(e, IO + 'FileIOWrappers::writeFile'), None, [D, ByRef(cell)], 'writeFile')
    v = e.load(F.out)
    e.prove('all of it', eq_i(vlen(v), n))
    with each(e, n) as j:
        e.prove('the content', eq_i(at(v, j), X(j)))
    e.prove('written to the file named', F.paths['BufferedWriter'].xs == D.xs)


# ------------------------------------------------------------------ cloud files over the interfaces of the storage services
CL = 'fbpcf::cloudio::'


@task('I01', 'cloudread', name='reading cloud files')
def cloudread(T_):
    """a request gets the next bytes of the object; at its end it is answered with -1; failures of the service are reported"""
    e = T_.eng('cloudread')
    C = z3.Function('object', B64, B8)
    L, P = z3.ZeroExt(32, z3.BitVec('L', 32)), z3.ZeroExt(32, z3.BitVec('P', 32))
    size = z3.ZeroExt(33, z3.BitVec('size', 31))
    fails = z3.Bool('service_fails')
    e.assume(z3.And(z3.ULE(P, L), z3.UGT(size, 0)))

    def bytes_(eng, this, args, call):
        a, b = bv(args[-2], 64), bv(args[-1], 64)
        eng.prove('a non-empty range inside the object is asked for', z3.And(z3.ULT(a, b), z3.ULT(a, L)))
        eng.fork(fails, lambda: eng.throw('fbpcf::AwsException'), lambda: None)
        n = z3.If(z3.ULT(b, L), b, L) - a
        return VecS(z3.simplify(n), lambda j: C(a + bv(j, 64)))
    e.contracts[CL + 'IFileReader::readBytes'] = bytes_
    e.contracts[CL + 'getCloudStorageServiceString'] = lambda eng, this, args, call: Vec([83])
    svc = iface(e, CL + 'IFileReader')
    this = e.alloc(mkobj(e, rec_q(e, IO + 'CloudFileReader'), currentPosition_=P, fileLength_=L, cloudFileReader_=svc, isClosed_=False, filePath_=Vec([102])), 'reader')
    G = z3.Function('old', B64, B8)
    cell = e.alloc(VecS(size, lambda j: G(bv(j, 64))), 'request')
    r = callv(e, fn(e, IO + 'CloudFileReader::eof'), this, [], 'eof')
    e.prove('the end is where the object ends', zb(r) == (P == L))
    alive, k, th = call(e, fn(e, IO + 'CloudFileReader::read'), this, [ByRef(cell)])
    throws_iff(e, th, e.st.pc if alive else None, land(fails, P != L), 'read')
    for t in th:
        e.prove('reported as an exception of this library', t.ty == 'fbpcf::PcfException')
    left = z3.If(z3.ULT(size, L - P), size, L - P)
    e.prove('how many bytes', bv(k, 64) == z3.If(P == L, z3.BitVecVal(-1, 64), left))
    pos = bv(e.load(this).f['currentPosition_'], 64)
    e.prove('the position moves by as many', pos == z3.If(P == L, P, P + left))
    with under(e, P != L):
        v = e.load(cell)
        e.prove('the request holds the bytes read', z3.UGE(bv(vlen(v), 64), left))
        with each(e, left) as j:
            e.prove('the next bytes of the object', eq_i(at(v, j), C(P + j)))
    e.cover('reachable')


@task('I01', 'cloudread', name='file kinds for reading')
def kinds_read(T_):
    """the reader for a file hands every request to the reader of its kind"""
    kinds(T_, 'cloudread', 'FileReader', 'childReader_', 'IReaderCloser', 'IReader', [('read', 1), ('eof', 0), ('close', 0)])


@task('I01', 'cloudwrite', name='file kinds for writing')
def kinds_write(T_):
    kinds(T_, 'cloudwrite', 'FileWriter', 'childWriter_', 'IWriterCloser', 'IWriter', [('write', 1), ('close', 0)])


def same5(e, v, what):
    e.prove(what, eq_i(vlen(v), 5))
    for j in range(5):
        e.prove(what, eq_i(at(v, c64(j)), GIVEN(c64(j))))


GIVEN = z3.Function('given', B64, B8)


def kinds(T_, drv, cls, child, base, base2, ms):
    e = T_.eng(drv)
    e.own_bodies = (IO + cls,)
    got = []
    c = iface(e, IO + base)

    def m(nm, w):
        def h(eng, this, args, call):
            a = args[0].ptr if args and hasattr(args[0], 'ptr') else args[0] if args else None
            got.append((nm, a, eng.load(a) if a is not None else None))
            return z3.Bool('r_' + nm) if w == 1 else z3.BitVec('r_' + nm, w)
        return h
    W = {'read': 64, 'write': 64, 'eof': 1, 'close': 32}
    for nm, k in ms:
        e.contracts[IO + (base2 if nm != 'close' else 'ICloser') + '::' + nm] = m(nm, W[nm])
    this = e.alloc(mkobj(e, rec_q(e, IO + cls), **{child: c}), 'file')
    cell = e.alloc(VecS(c64(5), lambda j: GIVEN(bv(j, 64))), 'request')
    for nm, k in ms:
        del got[:]
        r = callv(e, fn(e, IO + cls + '::' + nm), this, [ByRef(cell)] * k, nm)
        e.prove('%s: handed on once' % nm, len(got) == 1 and got[0][0] == nm)
        e.prove('%s: the answer handed back' % nm, zb(r) == z3.Bool('r_eof') if nm == 'eof' else eq_i(r, z3.BitVec('r_' + nm, W[nm])))
        if k:
            if nm == 'read':
                e.prove('read: into the buffer of the caller', got[0][1].loc == cell.loc)
            else:
                same5(e, got[0][2], 'write: the bytes given')


@task('I01', 'cloudwrite', name='writing cloud files')
def cloudwrite(T_):
    """every part goes to the upload as given, the number of bytes taken comes back, and the upload is completed exactly once"""
    e = T_.eng('cloudwrite')
    taken, done = [], []
    k, rc = z3.BitVec('taken', 32), z3.BitVec('rc', 32)

    def up(eng, this, args, call):
        a = args[0].ptr if hasattr(args[0], 'ptr') else args[0]
        taken.append(eng.load(a))
        return k

    def comp(eng, this, args, call):
        done.append(1)
        return rc
    e.contracts[CL + 'IFileUploader::upload'] = up
    e.contracts[CL + 'IFileUploader::complete'] = comp
    this = e.alloc(mkobj(e, rec_q(e, IO + 'CloudFileWriter'), cloudFileUploader_=iface(e, CL + 'IFileUploader'), isClosed_=False, filePath_=Vec([102])), 'writer')
    cell = e.alloc(VecS(c64(5), lambda j: GIVEN(bv(j, 64))), 'part')
    e.assume(k >= 0)
    r = callv(e, fn(e, IO + 'CloudFileWriter::write'), this, [ByRef(cell)], 'write')
    e.prove('one part', len(taken) == 1)
    same5(e, taken[0], 'the bytes of the part')
    e.prove('the number of bytes taken', eq_i(r, z3.ZeroExt(32, k)))
    e.prove('not completed yet', not done)
    r = callv(e, fn(e, IO + 'CloudFileWriter::close'), this, [], 'close')
    e.prove('completed', len(done) == 1)
    e.prove('the answer of the service', eq_i(r, rc))
    r = callv(e, fn(e, IO + 'CloudFileWriter::close'), this, [], 'close again')
    e.prove('completed once', len(done) == 1)
