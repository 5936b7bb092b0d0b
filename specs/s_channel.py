"""The message layer: packing of bits, and delivery of bytes, words and blocks to the other party."""
import z3
from spec import *
from ghost import *
from s_tuples import c64, eq_v, vmap, iface, CAG, B64, B128, Bo
from s_crypto import arg_cell

HOST = 'fbpcf::engine::communication::InMemoryPartyCommunicationAgentHost::'


class PackInv:
    """the first k bytes are packed"""

    def __init__(self, e, n, bit):
        self.e, self.n, self.bit = e, n, bit
        self.m = z3.LShR(n + 7, 3)
        self.X = z3.Function('packed', B64, z3.BitVecSort(8))

    def applies(self, L):
        return not L.fr.loops

    def byte(self, k):
        """first bit highest, missing bits 0"""
        bs = []
        for i in range(8):
            j = z3.simplify(z3.Concat(z3.Extract(60, 0, k), z3.BitVecVal(i, 3)))
            bs.append(z3.If(z3.And(z3.ULT(j, self.n), self.bit(j)), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        return z3.Concat(*bs)

    def check(self, L, when):
        e = self.e
        b, k, rst = bv(L.get('bitIndex'), 64), bv(L.get('byteIndex'), 64), L.get('rst')
        e.prove('%s: size' % when, eq_i(vlen(rst), self.m))
        if when.startswith('before'):
            e.prove('%s: first byte' % when, land(eq_i(b, c64(0)), eq_i(k, c64(0))))
            return
        e.prove('%s: next byte' % when, land(eq_i(k, self.k + 1), eq_i(b, z3.If(z3.ULT((self.k + 1) << 3, self.n), (self.k + 1) << 3, self.n))))
        with each(e, self.k) as j:
            e.prove('%s: earlier bytes stay' % when, eq_i(at(rst, j), self.X(j)))
        e.prove('%s: the new byte' % when, eq_i(at(rst, self.k), self.byte(self.k)))

    def havoc(self, L):
        e = self.e
        self.k = z3.ZeroExt(35, z3.BitVec(fresh_name('byte'), 29))
        L.set('byteIndex', self.k)
        L.set('bitIndex', z3.If(z3.ULT(self.k << 3, self.n), self.k << 3, self.n))
        L.set('rst', VecS(self.m, lambda j: self.X(bv(j, 64))))
        e.assume(z3.ULE(self.k, self.m))

    def measure(self, L):
        return self.n - bv(L.get('bitIndex'), 64)


@task('M01', 'channel', name='packing bits')
def pack(T_):
    """any number of bits: byte k holds bits 8k..8k+7, first one highest, padded with zeros"""
    e = T_.eng('channel')
    f = fn(e, CAG + 'compressToBytes')
    n = z3.ZeroExt(33, z3.BitVec('n', 31))
    BT = z3.Function('bit', B64, Bo)
    inv = PackInv(e, n, BT)
    e.invariants[f['q']] = inv
    out = callv(e, f, None, [VecS(n, lambda j: BT(bv(j, 64)))], 'pack')
    e.prove('as few bytes as possible', eq_i(vlen(out), inv.m))
    with each(e, inv.m) as j:
        e.prove('packed bytes', eq_i(at(out, j), inv.X(j)))
    e.cover('reachable')


class UnpackInv:
    """the first k bytes are unpacked; the rest of the input is untouched"""

    def __init__(self, e, m, byte):
        self.e, self.m, self.byte = e, m, byte
        self.X = z3.Function('unpacked', B64, Bo)
        self.U = z3.Function('used_up', B64, z3.BitVecSort(8))

    def applies(self, L):
        return not L.fr.loops

    def bit(self, k, i):
        return z3.Extract(7 - i, 7 - i, self.byte(k)) == 1

    def check(self, L, when):
        e = self.e
        i, b, bits, bs = bv(L.get('i'), 64), bv(L.get('bitIndex'), 64), L.get('bits'), L.get('bytes')
        e.prove('%s: sizes' % when, land(eq_i(vlen(bits), self.m << 3), eq_i(vlen(bs), self.m)))
        if when.startswith('before'):
            e.prove('%s: first byte' % when, land(eq_i(b, c64(0)), eq_i(i, c64(0))))
            with each(e, self.m) as j:
                e.prove('%s: input' % when, eq_i(at(bs, j), self.byte(j)))
            return
        e.prove('%s: next byte' % when, land(eq_i(i, self.k + 1), eq_i(b, (self.k + 1) << 3)))
        with each(e, self.k << 3) as j:
            e.prove('%s: earlier bits stay' % when, eq_i(at(bits, j), self.X(j)))
        for t in range(8):
            q = z3.simplify(z3.Concat(z3.Extract(60, 0, self.k), z3.BitVecVal(t, 3)))
            e.prove('%s: bit %d of the new byte' % (when, t), eq_i(at(bits, q), self.bit(self.k, t)))
        with each(e, self.m) as j:
            e.prove('%s: the rest of the input' % when, limp(z3.UGT(j, self.k), eq_i(at(bs, j), self.byte(j))))

    def havoc(self, L):
        e = self.e
        self.k = z3.ZeroExt(35, z3.BitVec(fresh_name('byte'), 29))
        k = self.k
        L.set('i', k)
        L.set('bitIndex', k << 3)
        L.set('bits', VecS(self.m << 3, lambda j: self.X(bv(j, 64))))
        L.set('bytes', VecS(self.m, lambda j: z3.If(z3.ULT(bv(j, 64), k), self.U(bv(j, 64)), self.byte(bv(j, 64)))))
        e.assume(z3.ULE(k, self.m))

    def measure(self, L):
        return self.m - bv(L.get('i'), 64)


@task('M01', 'channel', name='unpacking bits')
def unpack(T_):
    """any number of bytes: bit 8k+i is bit 7-i of byte k"""
    e = T_.eng('channel')
    f = fn(e, CAG + 'decompressToBits')
    m = z3.ZeroExt(35, z3.BitVec('m', 29))
    BY = z3.Function('byte', B64, z3.BitVecSort(8))
    inv = UnpackInv(e, m, BY)
    e.invariants[f['q']] = inv
    p = arg_cell(e, f, 0, VecS(m, lambda j: BY(bv(j, 64))))
    out = callv(e, f, None, [ByRef(p)], 'unpack')
    e.prove('eight bits per byte', eq_i(vlen(out), m << 3))
    with each(e, m << 3) as j:
        e.prove('unpacked bits', eq_i(at(out, j), inv.X(j)))
    e.cover('reachable')


class Wire:
    """ghost channel: sendImpl appends bytes, recvImpl takes them"""

    def __init__(self, e):
        self.e = e
        self.sent = []
        self.taken = 0
        e.contracts[CAG + 'sendImpl'] = self.send
        e.contracts[CAG + 'recvImpl'] = self.recv

    def send(self, eng, this, args, call):
        p, n = args
        get, avail = eng.std.view_get(p, 8)
        n = z3.simplify(z3.SignExt(32, bv(n, 32)))
        eng.prove('only the bytes of the message are sent', z3.And(n >= 0, n <= bv(avail, 64)))
        self.sent.append((get, n))

    def recv(self, eng, this, args, call):
        p, n = args
        n = z3.simplify(z3.SignExt(32, bv(n, 32)))
        _, room = eng.std.view_get(p, 8)
        eng.prove('room for the bytes', z3.And(n >= 0, n <= bv(room, 64)))
        get, m = self.sent[self.taken]
        self.taken += 1
        eng.prove('the receiver waits for as many bytes as are sent', eq_i(n, m))
        cell = eng.alloc(VecS(n, get), 'wire')
        from core import VPtr
        if z3.is_bv_value(n):
            n = n.as_long()
        eng.std.memcpy(p, VPtr(cell.loc, cell.path + (Idx(0),), None, 8), n)


def sizes():
    return z3.ZeroExt(38, z3.BitVec('n', 26))


def pick(e, q, w):
    """the instance of a member template for elements of width w ('bool': bits)"""
    for f in (e.tu.fns.values() if isinstance(e.tu.fns, dict) else e.tu.fns):
        if not f or f['q'] != CAG + q or 'body' not in f:
            continue
        t = e.types[f['ret']] if q.startswith('receive') else e.types[f['ps'][0]['t']]
        while t['k'] in ('ref', 'rref', 'lref', 'ptr'):
            t = e.types[t['e']]
        if t['k'] not in ('int', 'vec', 'bool'):
            t = e.types[t['a'][0]['t']] if t.get('a') else t
        if w == 'bool' and t['k'] == 'bool' or w != 'bool' and t['k'] in ('int', 'vec') and t['w'] == w:
            return f
    raise Unsupported('%s for %s' % (q, w))


def seq(n, w):
    F = z3.Function('sent', B64, Bo if w == 'bool' else z3.BitVecSort(w))
    return VecS(n, lambda j: F(bv(j, 64))), F


def delivered(e, out, n, F, wire):
    e.prove('as many as were sent', eq_i(vlen(out), n))
    with each(e, n) as j:
        e.prove('what was sent', eq_i(at(out, j), F(j)))
    e.prove('one message, read completely', len(wire.sent) == 1 and wire.taken == 1)
    e.cover('reachable')


@task('M01', 'channel', name='bytes and integers', cases=['bytes', 'int64', 8, 32, 64, 128])
def words(T_, k):
    """any number of elements arrives unchanged and in order"""
    e = T_.eng('channel')
    w = Wire(e)
    n = sizes()
    wid = {'bytes': 8, 'int64': 64}.get(k, k)
    v, F = seq(n, wid)
    s, r = (fn(e, CAG + {'bytes': 'send', 'int64': 'sendInt64'}[k]), fn(e, CAG + {'bytes': 'receive', 'int64': 'receiveInt64'}[k])) if isinstance(k, str) else (pick(e, 'sendT', k), pick(e, 'receiveT', k))
    this = iface(e, CAG[:-2])
    callv(e, s, this, [v], 'send')
    out = callv(e, r, this, [n if isinstance(k, str) else z3.Extract(31, 0, n)], 'receive')
    delivered(e, out, n, F, w)


@task('M01', 'channel', name='single values', cases=[32, 64, 128])
def single(T_, wid):
    e = T_.eng('channel')
    w = Wire(e)
    x = z3.BitVec('value', wid)
    this = iface(e, CAG[:-2])
    callv(e, pick(e, 'sendSingleT', wid), this, [x], 'send')
    out = callv(e, pick(e, 'receiveSingleT', wid), this, [], 'receive')
    e.prove('what was sent', eq_i(out, x))
    e.prove('one message, read completely', len(w.sent) == 1 and w.taken == 1)


@task('M01', 'channel', name='bits', cases=['sendBool', 'sendT'])
def bits(T_, k):
    """any number of bits arrives unchanged and in order (packing and unpacking under contract)"""
    e = T_.eng('channel')
    w = Wire(e)
    n = sizes()
    v, F = seq(n, 'bool')
    m = z3.LShR(n + 7, 3)
    inv = PackInv(e, n, F)
    packs, unpacks = [], []

    def pack_c(eng, this, args, call):
        x = eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]
        packs.append(x)
        eng.prove('all bits are packed', eq_i(vlen(x), n))
        with each(eng, n) as j:
            eng.prove('all bits are packed', eq_i(at(x, j), F(j)))
        return VecS(m, lambda j: inv.byte(z3.simplify(bv(j, 64))))

    def unpack_c(eng, this, args, call):
        x = eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]
        unpacks.append(x)

        def bit(j):
            j = z3.simplify(bv(j, 64))
            b = bv(at(x, z3.simplify(z3.LShR(j, 3))), 8)
            return z3.Extract(0, 0, z3.LShR(b, z3.BitVecVal(7, 8) - z3.ZeroExt(5, z3.Extract(2, 0, j)))) == 1
        return VecS(z3.simplify(bv(vlen(x), 64) << 3), bit)
    e.contracts[CAG + 'compressToBytes'] = pack_c
    e.contracts[CAG + 'decompressToBits'] = unpack_c
    this = iface(e, CAG[:-2])
    callv(e, fn(e, CAG + 'sendBool') if k == 'sendBool' else pick(e, 'sendT', 'bool'), this, [v], 'send')
    e.prove('packed once', len(packs) == 1)
    out = callv(e, fn(e, CAG + 'receiveBool') if k == 'sendBool' else pick(e, 'receiveT', 'bool'), this, [n if k == 'sendBool' else z3.Extract(31, 0, n)], 'receive')
    e.prove('unpacked once', len(unpacks) == 1)
    delivered(e, out, n, F, w)


# ------------------------------------------------------------------ openings among the parties
SCA = 'fbpcf::engine::communication::SecretShareEngineCommunicationAgent::'


class Net:
    """ghost channels among n parties: what party q sends here depends on its own shares only"""

    def __init__(self, e, n, out):
        self.e, self.n, self.out = e, n, out      # out(p, q) -> value party p is expected to send to q
        self.cur = None
        self.sent, self.asked = {}, {}
        self.ag = {}
        c = e.contracts
        for k in ('sendBool', 'sendInt64', 'sendSingleT'):
            c[CAG + k] = self.send
        for k in ('receiveBool', 'receiveInt64', 'receiveSingleT'):
            c[CAG + k] = self.recv
        c[CAG + 'getTrafficStatistics'] = self.traffic

    def agents(self, p):
        es = []
        for q in range(self.n):
            if q != p:
                a = iface(self.e, CAG[:-2])
                self.ag[a.loc] = (p, q)
                es.append((True, q, a))
        return MapV(es)

    def peer(self, this):
        p, q = self.ag[this.loc]
        self.e.prove('a party uses its own channels', p == self.cur)
        return q

    def send(self, eng, this, args, call):
        v = eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]
        self.sent.setdefault((self.cur, self.peer(this)), []).append((call.f['q'].split('::')[-1], v))

    def recv(self, eng, this, args, call):
        q = self.peer(this)
        w = self.out(q, self.cur)
        self.asked.setdefault((q, self.cur), []).append((call.f['q'].split('::')[-1], args[0] if args else None))
        if args:
            eng.prove('a party asks for as many values as the other sends', eq_i(bv(args[0], 64), bv(vlen(w), 64)))
        return w

    def traffic(self, eng, this, args, call):
        q = self.peer(this)
        t = call.f['ret']
        return Rec(t, {'first': z3.BitVec('sent_%d' % q, 64), 'second': z3.BitVec('received_%d' % q, 64)})

    def matched(self, expect):
        """exactly the expected messages were sent, each read by a receive of the matching kind"""
        e = self.e
        e.prove('exactly the expected messages are sent', sorted((k, len(v)) for k, v in self.sent.items()) == sorted((k, 1) for k in expect))
        e.prove('every message is read', sorted((k, len(v)) for k, v in self.asked.items()) == sorted((k, 1) for k in expect))
        for k in expect:
            for (kind, v), (kind2, _) in zip(self.sent.get(k, []), self.asked.get(k, [])):
                e.prove('read as it was written', kind[len('send'):] == kind2[len('receive'):])
                w = self.out(*k)
                if isinstance(w, (Vec, VecS)):
                    e.prove('a share of every secret is sent', eq_i(vlen(v), vlen(w)))
                    with each(e, vlen(w)) as j:
                        e.prove('a party sends its own shares', eq_i(at(v, j), at(w, j)))
                else:
                    e.prove('a party sends the key for that party', eq_i(v, w))


def sca(e, p, net):
    r = rec_q(e, SCA[:-2])
    return e.alloc(mkobj(e, r, agentMap_=net.agents(p), myId_=p), 'agent%d' % p)


def sca_fn(e, q, ty):
    for f in e.tu.fns.values():
        if f['q'] == SCA + q and 'body' in f and e.types[f['ret']]['a'][0]['t'] and (e.types[e.types[f['ret']]['a'][0]['t']]['k'] == 'bool') == (ty == 'bool'):
            return f
    raise Unsupported(q)


@task('M01', 'channel', name='opening to all', cases=[('bool', 2), ('bool', 3), ('bool', 4), ('int', 2), ('int', 3), ('int', 4)])
def open_all(T_, ty, n):
    """every party gets the xor (sum) of the shares of all parties, any number of secrets"""
    e = T_.eng('channel')
    N = z3.ZeroExt(33, z3.BitVec('N', 31))
    S = [z3.Function('share%d' % p, B64, Bo if ty == 'bool' else B64) for p in range(n)]
    sh = lambda p, q=None: VecS(N, lambda j: S[p](bv(j, 64)))
    net = Net(e, n, sh)
    st0 = e.st
    for p in range(n):
        e.st = st0.copy()
        net.cur = p
        out = callv(e, sca_fn(e, 'openSecretsToAll', ty), sca(e, p, net), [sh(p)], 'open')
        e.prove('as many results as secrets', eq_i(vlen(out), N))
        with each(e, N) as j:
            w = S[0](j)
            for q in range(1, n):
                w = z3.Xor(w, S[q](j)) if ty == 'bool' else w + S[q](j)
            e.prove('the opened value', eq_i(at(out, j), w))
    e.st = st0.copy()
    e.assume(z3.UGT(N, 0))
    net.matched([(p, q) for p in range(n) for q in range(n) if p != q])
    e.cover('reachable')


@task('M01', 'channel', name='opening to one party', cases=[('bool', 2), ('bool', 3), ('int', 2), ('int', 3), ('int', 4)])
def open_one(T_, ty, n):
    """that party gets the value, the others zeros"""
    for to in range(n):
        e = T_.eng('channel')
        N = z3.ZeroExt(33, z3.BitVec('N', 31))
        S = [z3.Function('share%d' % p, B64, Bo if ty == 'bool' else B64) for p in range(n)]
        sh = lambda p, q=None: VecS(N, lambda j: S[p](bv(j, 64)))
        net = Net(e, n, sh)
        st0 = e.st
        for p in range(n):
            e.st = st0.copy()
            net.cur = p
            out = callv(e, sca_fn(e, 'openSecretsToParty', ty), sca(e, p, net), [to, sh(p)], 'open')
            e.prove('as many results as secrets', eq_i(vlen(out), N))
            with each(e, N) as j:
                w = S[0](j)
                for q in range(1, n):
                    w = z3.Xor(w, S[q](j)) if ty == 'bool' else w + S[q](j)
                if p != to:
                    w = False if ty == 'bool' else 0
                e.prove('the opened value' if p == to else 'a zero', eq_i(at(out, j), w, 64) if ty != 'bool' else eq_i(at(out, j), w))
        e.st = st0.copy()
        e.assume(z3.UGT(N, 0))
        net.matched([(p, to) for p in range(n) if p != to])


@task('M01', 'channel', name='key exchange and traffic', cases=[2, 3, 4])
def keys(T_, n):
    e = T_.eng('channel')
    K = lambda p, q: z3.BitVec('key_%d_for_%d' % (p, q), 128)
    net = Net(e, n, K)
    st0 = e.st
    for p in range(n):
        e.st = st0.copy()
        net.cur = p
        this = sca(e, p, net)
        m = e.alloc(MapV([(True, q, K(p, q)) for q in range(n) if q != p]), 'keys')
        out = callv(e, fn(e, SCA + 'exchangeKeys'), this, [ByRef(m)], 'exchange')
        got = {q: v for g, q, v in out.es if g is True}
        e.prove('one key per other party', sorted(got) == [q for q in range(n) if q != p])
        for q in got:
            e.prove('the key the other party chose for this one', eq_i(got[q], K(q, p)))
        tr = callv(e, fn(e, SCA + 'getTrafficStatistics'), this, [], 'traffic')
        for fld, nm in (('first', 'sent'), ('second', 'received')):
            e.prove('traffic %s is the sum over the channels' % nm, eq_i(tr.f[fld], sum([z3.BitVec('%s_%d' % (nm, q), 64) for q in range(n) if q != p][1:], z3.BitVec('%s_%d' % (nm, [q for q in range(n) if q != p][0]), 64))))
    e.st = st0.copy()
    net.matched([(p, q) for p in range(n) for q in range(n) if p != q])


# ------------------------------------------------------------------ the in-memory byte stream
def host(e, bufs):
    r = rec_q(e, HOST[:-2])
    d = dict(e.tu.fields(r['id']))
    bs = []
    for b in bufs:
        bs.append(Vec([e.alloc(v, 'message') for v in b]))
    return e.alloc(mkobj(e, r, buffers_=Vec(bs)), 'host')


@task('M01', 'channel', name='in-memory stream', cases=[(k, me) for k in (1, 2) for me in (0, 1)], bounded='up to 2 messages in flight, of any sizes')
def stream(T_, cnt, me):
    """a receive takes the next bytes of the stream and leaves exactly the rest, in order"""
    e = T_.eng('channel')
    f = fn(e, HOST + 'receive')
    ns = [z3.ZeroExt(40, z3.BitVec('n%d' % i, 24)) for i in range(cnt)]
    F = [z3.Function('message%d' % i, B64, z3.BitVecSort(8)) for i in range(cnt)]
    size = z3.ZeroExt(38, z3.BitVec('size', 26))
    tot = sum(ns[1:], ns[0])
    e.assume(z3.ULE(size, tot))
    G = z3.Function('other', B64, z3.BitVecSort(8))
    mine = [VecS(z3.ZeroExt(40, z3.BitVec('m', 24)), lambda j: G(bv(j, 64)))]
    bufs = [VecS(ns[i], (lambda i: lambda j: F[i](bv(j, 64)))(i)) for i in range(cnt)]
    h = host(e, [mine, bufs] if me == 0 else [bufs, mine])

    def whole(j):
        v, off = F[cnt - 1](j - sum(ns[1:cnt - 1], ns[0]) if cnt > 1 else j), None
        for i in range(cnt - 2, -1, -1):
            o = sum(ns[1:i], ns[0]) if i else c64(0)
            v = z3.If(z3.ULT(j, o + ns[i]), F[i](j - o), v)
        return v
    out = callv(e, f, h, [me, size], 'receive')
    e.prove('as many bytes as asked for', eq_i(vlen(out), size))
    with each(e, size) as j:
        e.prove('the next bytes of the stream', eq_i(at(out, j), whole(j)))
    left = e.load(h).f['buffers_'].xs[1 - me]
    o = size
    for i in range(cnt):
        there = z3.ULT(z3.BitVecVal(i, 64), bv(vlen(left), 64))
        with under(e, there):
            v = e.load(at(left, i))
            nv = bv(vlen(v), 64)
            with each(e, nv) as j:
                e.prove('the rest stays, in order', eq_i(at(v, j), whole(o + j)))
        o = z3.If(there, o + nv, o)
    e.prove('no more messages than before', z3.ULE(bv(vlen(left), 64), cnt))
    e.prove('nothing is lost', eq_i(o, tot))
    own = e.load(h).f['buffers_'].xs[me]
    e.prove('the other direction is untouched', len(own.xs) == 1)
    with each(e, vlen(mine[0])) as j:
        e.prove('the other direction is untouched', eq_i(at(e.load(own.xs[0]), j), G(j)))
    e.cover('reachable')


@task('M01', 'channel', name='in-memory send')
def stream_send(T_):
    """a message goes to the end of the stream of its sender"""
    e = T_.eng('channel')
    f = fn(e, HOST + 'send')
    n = sizes()
    v, F = seq(n, 8)
    G = z3.Function('earlier', B64, z3.BitVecSort(8))
    old = VecS(z3.ZeroExt(40, z3.BitVec('m', 24)), lambda j: G(bv(j, 64)))
    for me in (0, 1):
        h = host(e, [[old], [old]])
        callv(e, f, h, [me, v], 'send')
        bs = e.load(h).f['buffers_'].xs
        e.prove('one message more', len(bs[me].xs) == 2 and len(bs[1 - me].xs) == 1)
        for p in (bs[me].xs[0], bs[1 - me].xs[0]):
            e.prove('earlier messages stay', eq_i(vlen(e.load(p)), vlen(old)))
            with each(e, vlen(old)) as j:
                e.prove('earlier messages stay', eq_i(at(e.load(p), j), G(j)))
        w = e.load(bs[me].xs[1])
        e.prove('the whole message', eq_i(vlen(w), n))
        with each(e, n) as j:
            e.prove('the message itself', eq_i(at(w, j), F(j)))


@task('M01', 'channel', name='in-memory agent')
def mem_agent(T_):
    """the agent hands its bytes to the host and counts them"""
    e = T_.eng('channel')
    q = 'fbpcf::engine::communication::InMemoryPartyCommunicationAgent::'
    me = z3.BitVec('me', 32)
    n = z3.ZeroExt(6, z3.BitVec('n', 26))
    n64 = z3.ZeroExt(38, z3.BitVec('n', 26))
    v, F = seq(n64, 8)
    got = []

    def hsend(eng, this, args, call):
        got.append((args[0], eng.load(args[1]) if isinstance(args[1], Ptr) else args[1]))

    def hrecv(eng, this, args, call):
        got.append((args[0], args[1]))
        return v
    e.contracts[HOST + 'send'] = hsend
    e.contracts[HOST + 'receive'] = hrecv
    s0, r0 = z3.BitVec('sent0', 64), z3.BitVec('received0', 64)
    h = host(e, [[], []])
    a = e.alloc(mkobj(e, rec_q(e, q[:-2]), host_=h, myId_=me, sentData_=s0, receivedData_=r0), 'agent')
    cell = e.alloc(v, 'data')
    from core import VPtr
    callv(e, fn(e, q + 'sendImpl'), a, [VPtr(cell.loc, cell.path + (Idx(0),), None, 8), n], 'send')
    e.prove('one message of the same party', len(got) == 1 and eq_i(got[0][0], me))
    e.prove('the whole message', eq_i(vlen(got[0][1]), n64))
    with each(e, n64) as j:
        e.prove('the message itself', eq_i(at(got[0][1], j), F(j)))
    e.prove('bytes sent are counted', land(eq_i(e.load(a).f['sentData_'], s0 + n64), eq_i(e.load(a).f['receivedData_'], r0)))
    G = z3.Function('before', B64, z3.BitVecSort(8))
    dst = e.alloc(VecS(n64, lambda j: G(bv(j, 64))), 'dst')
    callv(e, fn(e, q + 'recvImpl'), a, [VPtr(dst.loc, dst.path + (Idx(0),), None, 8), n], 'receive')
    e.prove('as many bytes as asked for', land(eq_i(got[1][0], me), eq_i(got[1][1], n64, 64)))
    with each(e, n64) as j:
        e.prove('the bytes of the host', eq_i(at(e.load(dst), j), F(j)))
    e.prove('bytes received are counted', eq_i(e.load(a).f['receivedData_'], r0 + n64))
    tr = callv(e, fn(e, q + 'getTrafficStatistics'), a, [], 'traffic')
    e.prove('traffic', land(eq_i(tr.f['first'], s0 + n64), eq_i(tr.f['second'], r0 + n64)))


# ------------------------------------------------------------------ sockets
SPA = 'fbpcf::engine::communication::SocketPartyCommunicationAgent::'
REC = 'fbpcf::engine::communication::PartyCommunicationAgentTrafficRecorder::'


class Stream:
    """the operating system and the TLS library: a byte stream that may hand out fewer bytes than asked for, or fail"""

    def __init__(self, e, tls):
        self.e, self.tls = e, tls
        self.B = z3.Function('stream', B64, z3.BitVecSort(8))
        self.pos = e.alloc(c64(0), 'stream_position')
        self.ok = e.alloc(True, 'stream_intact')
        self.flushed = 0
        self.written = []
        c = e.contracts
        c['fread'] = lambda eng, this, a, call: self.take(a[0], bv(a[1], 64) * bv(a[2], 64), 64)
        c['SSL_read'] = lambda eng, this, a, call: self.take(a[1], z3.SignExt(32, bv(a[2], 32)), 32)
        c['fwrite'] = lambda eng, this, a, call: self.put(a[0], bv(a[1], 64) * bv(a[2], 64), 64)
        c['SSL_write'] = lambda eng, this, a, call: self.put(a[1], z3.SignExt(32, bv(a[2], 32)), 32)
        c['fflush'] = self.flush

    def flush(self, eng, this, args, call):
        eng.prove('flushed after writing', len(self.written) == 1)
        self.flushed += 1
        return 0

    def take(self, p, n, w):
        e = self.e
        from core import VPtr
        get, room = e.std.view_get(p, 8)
        e.prove('no more bytes are asked for than fit', z3.And(n >= 0, z3.ULE(n, bv(room, 64))))
        r = z3.BitVec(fresh_name('got'), w)
        r64 = r if w == 64 else z3.SignExt(32, r)
        if w == 64:
            e.assume(z3.ULE(r, n))
        else:
            e.assume(r64 <= n)
        pos = e.load(self.pos)
        k = z3.If(r64 > 0, r64, 0)
        src = e.alloc(VecS(n, lambda j: z3.If(z3.ULT(bv(j, 64), k), self.B(pos + bv(j, 64)), bv(get(bv(j, 64)), 8))), 'wire')
        e.std.memcpy(p, VPtr(src.loc, src.path + (Idx(0),), None, 8), z3.simplify(n))
        e.store(self.pos, z3.simplify(pos + k))
        return r

    def put(self, p, n, w):
        e = self.e
        get, avail = e.std.view_get(p, 8)
        e.prove('only the bytes of the message are sent', z3.And(n >= 0, z3.ULE(n, bv(avail, 64))))
        r = z3.BitVec(fresh_name('put'), w)
        r64 = r if w == 64 else z3.SignExt(32, r)
        e.assume(r64 <= n)
        if w == 64:
            e.assume(z3.ULE(r64, n))
        self.written.append((get, z3.simplify(n), r64))
        return r


class ReadInv:
    """the first b bytes of the message are the next b bytes of the stream"""

    def __init__(self, e, io, dst, n):
        self.e, self.io, self.dst, self.n = e, io, dst, n
        self.X = z3.Function('not_yet_read', B64, z3.BitVecSort(8))

    def applies(self, L):
        return True

    def check(self, L, when):
        e = self.e
        b = bv(L.get('bytesRead'), 64)
        e.prove('%s: position' % when, land(z3.ULE(b, self.n), eq_i(e.load(self.io.pos), b)))
        v = e.load(self.dst)
        e.prove('%s: room' % when, eq_i(vlen(v), self.n))
        with each(e, b) as j:
            e.prove('%s: bytes read so far' % when, eq_i(at(v, j), self.io.B(j)))

    def havoc(self, L):
        e = self.e
        b = z3.BitVec(fresh_name('b'), 64)
        L.set('bytesRead', b)
        e.store(self.io.pos, b)
        e.store(self.dst, VecS(self.n, lambda j: z3.If(z3.ULT(bv(j, 64), b), self.io.B(bv(j, 64)), self.X(bv(j, 64)))))
        e.assume(z3.ULE(b, self.n))

    def measure(self, L):
        return self.n - bv(L.get('bytesRead'), 64)


def sock_agent(e, tls):
    r = z3.BitVec('received0', 64)
    s = z3.BitVec('sent0', 64)
    rec = e.alloc(mkobj(e, rec_q(e, REC[:-2]), sentData_=s, receivedData_=r), 'recorder')
    port = lambda: e.alloc(0, 'FILE')
    return e.alloc(mkobj(e, rec_q(e, SPA[:-2]), recorder_=rec, outgoingPort_=port(), incomingPort_=port(), ssl_=e.alloc(0, 'SSL') if tls else NULL), 'agent'), rec, s, r


@task('M01', 'socket', name='socket receive', cases=['plain', 'TLS'])
def sock_recv(T_, k):
    """returns exactly the next bytes of the stream, however it hands them out, or throws"""
    e = T_.eng('socket')
    from core import VPtr
    io = Stream(e, k == 'TLS')
    n = z3.ZeroExt(6, z3.BitVec('n', 26))
    n64 = z3.ZeroExt(38, z3.BitVec('n', 26))
    G = z3.Function('before', B64, z3.BitVecSort(8))
    dst = e.alloc(VecS(n64, lambda j: G(bv(j, 64))), 'dst')
    a, rec, s, r = sock_agent(e, k == 'TLS')
    f = fn(e, SPA + 'recvImpl')
    if k == 'TLS':
        e.invariants[f['q']] = ReadInv(e, io, dst, n64)
    alive, val, th = call(e, f, a, [VPtr(dst.loc, dst.path + (Idx(0),), None, 8), n])
    e.prove('can return', alive)
    e.prove('the whole message was read', eq_i(e.load(io.pos), n64))
    with each(e, n64) as j:
        e.prove('the bytes of the stream', eq_i(at(e.load(dst), j), io.B(j)))
    e.prove('bytes received are counted', land(eq_i(e.load(rec).f['receivedData_'], r + n64), eq_i(e.load(rec).f['sentData_'], s)))
    e.cover('reachable')


@task('M01', 'socket', name='socket send', cases=['plain', 'TLS'])
def sock_send(T_, k):
    """the whole message is written once, and flushed, or the call throws"""
    e = T_.eng('socket')
    from core import VPtr
    io = Stream(e, k == 'TLS')
    n = z3.ZeroExt(6, z3.BitVec('n', 26))
    n64 = z3.ZeroExt(38, z3.BitVec('n', 26))
    v, F = seq(n64, 8)
    src = e.alloc(v, 'src')
    a, rec, s, r = sock_agent(e, k == 'TLS')
    alive, val, th = call(e, fn(e, SPA + 'sendImpl'), a, [VPtr(src.loc, src.path + (Idx(0),), None, 8), n])
    e.prove('can return', alive)
    e.prove('written once', len(io.written) == 1)
    get, m, got = io.written[0]
    e.prove('the whole message is written', land(eq_i(m, n64), eq_i(got, n64)))
    with each(e, n64) as j:
        e.prove('the message itself', eq_i(get(j), F(j)))
    e.prove('flushed', io.flushed == (0 if k == 'TLS' else 1))
    e.prove('bytes sent are counted', land(eq_i(e.load(rec).f['sentData_'], s + n64), eq_i(e.load(rec).f['receivedData_'], r)))
    for t in th:
        e.prove('throws only if the message was not written', lnot(eq_i(got, n64)), pc=t.st.pc)
