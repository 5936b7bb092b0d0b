"""Correlated randomness: boolean and integer tuples, product shares, oblivious transfers, Ferret building blocks.
Two-party protocols run both parties on ghost channels: what one party receives is what the other one sent."""
import z3
from spec import *
from ghost import *

TGN = 'fbpcf::engine::tuple_generator::'
OT = TGN + 'oblivious_transfer::'
FE = OT + 'ferret::'
UT = 'fbpcf::engine::util::'
CAG = 'fbpcf::engine::communication::IPartyCommunicationAgent::'
B64, B128, Bo = z3.BitVecSort(64), z3.BitVecSort(128), z3.BoolSort()


def c64(x):
    return z3.BitVecVal(x, 64)


def iface(eng, cls, **f):
    return eng.alloc(Rec(rec_q(eng, cls)["id"], f), cls.split('::')[-1])


# ------------------------------------------------------------------ AsyncBuffer
class BufInv:
    """rst holds the first r elements not yet consumed when the call began; the buffer and the pending chunk hold the next ones"""

    def __init__(self, e, this, B, S, ghost, vt):
        self.e, self.this, self.B, self.S, self.g, self.vt = e, this, B, S, ghost, vt

    def state(self):
        v = self.e.load(self.this)
        return v.f['bufferIndex_'], v.f['buffer_'], v.f['futureBuffer_'].f['v'], self.e.load(self.g)

    def pos(self):
        i, _, _, g = self.state()
        return bv(g, 64) - self.B + bv(i, 64)

    def check(self, L, when):
        e = self.e
        i, buf, fut, g = self.state()
        rst = L.get('rst')
        r = bv(vlen(rst), 64)
        e.prove('%s: consumed what was returned' % when, self.pos() == self.pos0 + r)
        e.prove('%s: never returns more than asked' % when, z3.ULE(r, bv(self.size, 64)))
        e.prove('%s: index within the buffer' % when, z3.ULE(bv(i, 64), self.B))
        with each(e, rst) as j:
            e.prove('%s: returned elements are the next of the stream' % when, eq_v(e, at(rst, j), self.S(self.pos0 + j)))
        with each(e, self.B) as j:
            e.prove('%s: buffered elements are the next of the stream' % when, limp(z3.ULE(bv(i, 64), j), eq_v(e, at(buf, j), self.S(bv(g, 64) - self.B + j))))
            e.prove('%s: pending elements are the next of the stream' % when, eq_v(e, at(fut, j), self.S(bv(g, 64) + j)))
        e.prove('%s: pending chunk is full' % when, eq_i(vlen(fut), self.B))
        e.prove('%s: buffer is full unless used up' % when, lor(eq_i(i, self.B), eq_i(vlen(buf), self.B)))

    def havoc(self, L):
        e = self.e
        i, g, r = (z3.BitVec(fresh_name(x), 64) for x in ('bix', 'gen', 'len'))
        S, B = self.S, self.B
        # i == B before the first chunk was fetched: the buffer may still be empty, but nothing of it is read
        v = e.load(self.this).with_('bufferIndex_', i).with_('buffer_', VecS(B, lambda j: S(g - B + bv(j, 64)))).with_(
            'futureBuffer_', Rec('future', {'v': VecS(B, lambda j: S(g + bv(j, 64)))}))
        e.store(self.this, v)
        e.store(self.g, g)
        L.set('rst', VecS(r, lambda j: S(self.pos0 + bv(j, 64))))
        e.assume(z3.And(z3.ULE(i, B), z3.ULE(r, bv(self.size, 64)), g - B + i == self.pos0 + r))

    def measure(self, L):
        return bv(self.size, 64) - bv(vlen(L.get('rst')), 64)


def conj_(cs):
    r = True
    for c in cs:
        r = land(r, c)
    return r


def is_val(a):
    return isinstance(a, (Rec, Vec, VecS, bool, int, z3.ExprRef))


def eq_v(e, a, b):
    if not is_val(a) or not is_val(b):
        return False        # no element there: only fine where the path is impossible
    if isinstance(a, Rec) and isinstance(b, Rec):
        ks = [k for k in a.f if k in b.f]
        return conj_([eq_v(e, a.f[k], b.f[k]) for k in ks])
    if isinstance(a, (Vec, VecS)) and isinstance(b, (Vec, VecS)):
        if isinstance(a, Vec) and isinstance(b, Vec) and len(a.xs) == len(b.xs):
            return conj_([eq_v(e, x, y) for x, y in zip(a.xs, b.xs)])
        raise Unsupported('comparing vectors of symbolic length')
    return eq_i(a, b)


def async_bufs(e):
    return [f for f in e.tu.fns.values() if f['q'] == UT + 'AsyncBuffer::getData' and 'body' in f] if isinstance(e.tu.fns, dict) else [
        f for f in e.tu.fns if f and f['q'] == UT + 'AsyncBuffer::getData' and 'body' in f]


@task(['T01', 'T02'], 'tuples', name='async buffer', cases=[0, 1, 2, 3])
def async_buffer(T_, which):
    """any history of requests: the elements handed out are consecutive elements of the generated stream"""
    e = T_.eng('tuples')
    fs = async_bufs(e)
    if which >= len(fs):
        raise Unsupported('buffer instantiation')
    f = fs[which]
    r = e.tu.recs[e.types[f['rec']]['id']]
    B = z3.BitVec('bufferSize', 64)
    e.assume(z3.And(B != 0, z3.ULT(B, c64(1 << 31))))
    st = e.symbolic(f['ret'], 'stream')
    S = lambda i: at(st, i)
    i, g0 = z3.BitVec('bufferIndex', 64), z3.BitVec('generated', 64)
    e.assume(z3.ULE(i, B))
    g = e.alloc(g0, 'ghost')

    def gen(eng, args, lvs):
        n = eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]
        eng.prove('asks for whole chunks', eq_i(n, B))
        k = bv(eng.load(g), 64)
        eng.store(g, k + bv(n, 64))
        return Rec('future', {'v': VecS(n, lambda j: S(k + bv(n, 64) + bv(j, 64)))})
    clo = Clo([], {}, None)
    clo.native = gen
    this = e.alloc(mkobj(e, r, bufferSize_=B, bufferIndex_=i, generateData_=clo, buffer_=VecS(B, lambda j: S(g0 - B + bv(j, 64))),
                         futureBuffer_=Rec('future', {'v': VecS(B, lambda j: S(g0 + bv(j, 64)))})), 'buf')
    size = z3.BitVec('size', 64)
    inv = BufInv(e, this, B, S, g, f['ret'])
    inv.size, inv.pos0 = size, g0 - B + i
    e.invariants[f['q']] = inv
    out = callv(e, f, this, [size], 'getData')
    e.prove('exactly the requested number of elements', eq_i(vlen(out), size))
    with each(e, out) as j:
        e.prove('consecutive elements of the stream', eq_v(e, at(out, j), S(inv.pos0 + j)))
    e.prove('the next request continues there', inv.pos() == inv.pos0 + size)
    e.cover('reachable')


@task(['T01', 'T02'], 'tuples', name='async buffer creation', cases=[0, 1, 2, 3])
def async_ctor(T_, which):
    e = T_.eng('tuples')
    f = async_bufs(e)[which]
    r = e.tu.recs[e.types[f['rec']]['id']]
    c = [g for g in (e.tu.fns[m] for m in r['ms']) if len(g['ps']) == 2 and g['n'] == 'AsyncBuffer'][0]
    B = z3.BitVec('bufferSize', 64)
    e.assume(z3.And(B != 0, z3.ULT(B, c64(1 << 31))))
    st = e.symbolic(f['ret'], 'stream')
    calls = []

    def gen(eng, args, lvs):
        n = eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]
        calls.append(n)
        return Rec('future', {'v': VecS(n, lambda j: at(st, bv(j, 64)))})
    v = e.construct(r['id'], c, [B, Clo([], {}, None, gen)])
    e.prove('one chunk requested', len(calls) == 1 and eq_i(calls[0], B))
    e.prove('nothing consumed yet', eq_i(v.f['bufferIndex_'], B))
    e.prove('full chunk pending', eq_i(vlen(v.f['futureBuffer_'].f['v']), B))
    with each(e, B) as j:
        e.prove('the pending chunk is the first one', eq_v(e, at(v.f['futureBuffer_'].f['v'], j), at(st, j)))
    e.cover('reachable')


# ------------------------------------------------------------------ two parties on a pair of channels
HASH = z3.Function('aes_hash', B128, B128)


class Duo:
    """ghost channels between party 0 and party 1 and ghost correlated OTs"""

    def __init__(self, e):
        self.e = e
        self.sent = {0: [], 1: []}
        self.recv = {0: [], 1: []}
        self.done = set()
        self.cur = None
        c = e.contracts
        for n in ('sendT', 'sendBool', 'send', 'sendInt64', 'sendSingleT'):
            c[CAG + n] = self.send
        for n in ('receiveT', 'receiveBool', 'receive', 'receiveInt64'):
            c[CAG + n] = self.receive
        c[CAG + 'receiveSingleT'] = self.receive1

    def send(self, eng, this, args, call):
        v = eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]
        if not isinstance(v, (Vec, VecS)):
            v = Vec([v])
        self.sent[self.cur].append(v)
        return None

    def chan(self, sort, n):
        k = len(self.recv[self.cur])
        F = z3.Function('recv%d_p%d' % (k, self.cur), B64, sort)
        self.recv[self.cur].append((n, F))
        return F

    def sort_of(self, eng, t):
        ty = eng.types[t]
        if ty['k'] == 'bool':
            return Bo
        if ty['k'] == 'int':
            return z3.BitVecSort(ty['w'])
        if ty['k'] == 'vec':
            return B128
        raise Unsupported('channel of this type')

    def receive(self, eng, this, args, call):
        n = args[0]
        rt = eng.types[call.f['ret']]
        n64 = cast_int(n, eng.types[call.f['ps'][0]['t']]['w'], 0, 64)
        F = self.chan(self.sort_of(eng, rt['a'][0]['t']), n64)
        return VecS(n64, lambda j: F(bv(j, 64)))

    def receive1(self, eng, this, args, call):
        F = self.chan(self.sort_of(eng, call.f['ret']), c64(1))
        return F(c64(0))

    def matched(self):
        """after both parties ran: same number, kinds and sizes of messages in both directions"""
        e = self.e
        for p in (0, 1):
            e.prove('messages sent and expected agree in number', len(self.sent[1 - p]) == len(self.recv[p]))
            for v, (n, F) in zip(self.sent[1 - p], self.recv[p]):
                e.prove('messages sent and expected agree in size', eq_i(vlen(v), n))

    def instantiate(self, goal):
        e = self.e
        work = [goal]
        for _ in range(6):
            new = []
            for p in (0, 1):
                for v, (n, F) in zip(self.sent[1 - p], self.recv[p]):
                    for a in apps_of(work, F):
                        if (p, a.get_id()) in self.done:
                            continue
                        self.done.add((p, a.get_id()))
                        self.keep = getattr(self, 'keep', []) + [a]
                        x = at(v, a.arg(0))
                        if not is_val(x):
                            continue
                        ax = eq_i(a, x)
                        e.fact(limp(z3.ULT(a.arg(0), bv(n, 64)), ax))
                        new.append(zb(ax))
            if not new:
                return
            work = new

    def prove(self, name, goal, **kw):
        self.instantiate(zb(goal))
        return self.e.prove(name, goal, **kw)


def delta(p):
    return z3.Concat(z3.BitVec('delta_p%d' % p, 127), z3.BitVecVal(1, 1))


def install_rcot(e, d):
    """correlated OT: in the instance where party p sends, it gets K_p(i) (low bit 0), the other one K_p(i) xor r_p(i)*delta_p
    with low bit r_p(i)"""
    cnt = {}

    def K(p, c):
        f = z3.Function('K%d_p%d' % (c, p), B64, z3.BitVecSort(127))
        return lambda i: z3.Concat(f(bv(i, 64)), z3.BitVecVal(0, 1))

    def R(p, c):
        return z3.Function('choice%d_p%d' % (c, p), B64, Bo)

    def rcot(eng, this, args, call):
        v = eng.load(this)
        s, role = v.f['sender'], v.f['role']
        k = (s, role)
        c = cnt.get(k, 0)
        cnt[k] = c + 1
        n = args[0]
        KK, RR = K(s, c), R(s, c)
        if role == 's':
            return VecS(n, KK)
        return VecS(n, lambda i: simp(z3.If(RR(bv(i, 64)), KK(i) ^ delta(s), KK(i))))
    e.contracts[OT + 'IRandomCorrelatedObliviousTransfer::rcot'] = rcot

    def hashed(eng, this, args, call):
        v = eng.load(args[0])
        eng.prove('hash input is not empty', lnot(eq_i(vlen(v), 0))) if False else None
        eng.store(args[0], vmap(v, lambda x: HASH(bv(x, 128))))
        return None
    e.contracts[UT + 'Aes::inPlaceHash'] = hashed
    return K, R


def vmap(v, f):
    if isinstance(v, Vec):
        return Vec([f(x) for x in v.xs])
    return VecS(vlen(v), lambda j: f(at(v, j)))


def rcot_obj(e, sender, role):
    return iface(e, OT + 'IRandomCorrelatedObliviousTransfer', sender=sender, role=role)


def agent(e):
    return iface(e, CAG[:-2])


BI = OT + 'RcotBasedBidirectionObliviousTransfer::'


@task('T03', 'tuples', name='bidirectional OT', cases=['bool', 'u64'])
def bidirection(T_, kind):
    """each party gets, for every index, the other one's message picked by its own choice bit"""
    e = T_.eng('tuples')
    d = Duo(e)
    install_rcot(e, d)
    f = fn(e, BI + 'biDirectionOT', 3, pred=lambda g: (e.types[e.types[e.types[g['ps'][0]['t']]['e']]['a'][0]['t']]['k'] == 'bool') == (kind == 'bool'))
    n = z3.BitVec('n', 64)
    e.assume(z3.And(n != 0, z3.ULT(n, c64(1 << 31))))
    sort = Bo if kind == 'bool' else B64
    F = lambda nm, p, s: z3.Function('%s_p%d' % (nm, p), B64, s)
    outs = []
    r = rec_q(e, BI[:-2])
    for p in (0, 1):
        d.cur = p
        this = e.alloc(mkobj(e, r, agent_=agent(e), delta_=delta(p), senderRcot_=rcot_obj(e, p, 's'), receiverRcot_=rcot_obj(e, 1 - p, 'r')), 'ot')
        ins = [VecS(n, lambda j, g=F(nm, p, s): g(bv(j, 64))) for nm, s in (('in0', sort), ('in1', sort), ('pick', Bo))]
        outs.append(callv(e, f, this, ins, 'bidirectional OT'))
    d.matched()
    for p in (0, 1):
        e.prove('one output per choice', eq_i(vlen(outs[p]), n))
    with each(e, n) as j:
        for p in (0, 1):
            want = z3.If(F('pick', p, Bo)(j), F('in1', 1 - p, sort)(j), F('in0', 1 - p, sort)(j))
            d.prove('the chosen message of the other party', eq_i(at(outs[p], j), want))
    e.cover('reachable')


# ------------------------------------------------------------------ product shares
PS = TGN + 'ProductShareGenerator::'


@task('T02', 'tuples', name='product share', cases=['bool'])
def product_share(T_, kind):
    """two parties: their outputs add up to left_0*right_1 + left_1*right_0"""
    e = T_.eng('tuples')
    install_prg(e)
    got = {}

    def bot(eng, this, args, call):
        p = eng.load(this).f['p']
        vs = [eng.load(a) if isinstance(a, Ptr) else a for a in args]
        got[p] = vs
        srt = Bo if kind == 'bool' else B64
        O = z3.Function('ot_out_p%d' % p, B64, srt)
        return VecS(vlen(vs[0]), lambda j: O(bv(j, 64)))
    e.contracts[OT + 'IBidirectionObliviousTransfer::biDirectionOT'] = bot
    f = fn(e, PS + ('generateBooleanProductShares' if kind == 'bool' else 'generateIntegerProductShares'))
    n = z3.ZeroExt(40, z3.BitVec('n', 24))
    srt = Bo if kind == 'bool' else B64
    F = lambda nm, p: z3.Function('%s_p%d' % (nm, p), B64, srt)
    outs = []
    r = rec_q(e, PS[:-2])
    for p in (0, 1):
        this = e.alloc(mkobj(e, r, prg_=prg(e, z3.BitVec('key%d' % p, 128), c64(0)),
                             bidirectionObliviousTransfer_=iface(e, OT + 'IBidirectionObliviousTransfer', p=p)), 'psg')
        outs.append(callv(e, f, this, [VecS(n, lambda j, p=p: F('left', p)(bv(j, 64))), VecS(n, lambda j, p=p: F('right', p)(bv(j, 64)))], 'product shares'))
    for p in (0, 1):
        e.prove('one share per pair', eq_i(vlen(outs[p]), n))
    m = n if kind == 'bool' else n * 64
    for p in (0, 1):
        for v in got[p]:
            e.prove('one transfer per bit', eq_i(vlen(v), m))

    def ot_fact(j):
        for p in (0, 1):
            a, b, c = got[p]
            a2, b2, c2 = got[1 - p]
            e.fact(limp(z3.ULT(j, bv(m, 64)), eq_i(z3.Function('ot_out_p%d' % p, B64, srt)(j), z3.If(zb(at(c, j)), zb(at(b2, j)) if kind == 'bool' else at(b2, j), zb(at(a2, j)) if kind == 'bool' else at(a2, j)))))
    with each(e, n) as j:
        if kind == 'bool':
            ot_fact(j)
            e.prove('shares of the cross products', eq_i(lxor(at(outs[0], j), at(outs[1], j)),
                    lxor(land(F('left', 0)(j), F('right', 1)(j)), land(F('left', 1)(j), F('right', 0)(j)))))
    e.cover('reachable')


@task('T02', 'tuples', name='product share rejects', cases=['bool', 'int'])
def product_share_rejects(T_, kind):
    e = T_.eng('tuples')
    install_prg(e)
    e.contracts[OT + 'IBidirectionObliviousTransfer::biDirectionOT'] = lambda eng, th, a, c: VecS(vlen(eng.load(a[0])), lambda j: False if kind == 'bool' else c64(0))
    f = fn(e, PS + ('generateBooleanProductShares' if kind == 'bool' else 'generateIntegerProductShares'))
    r = rec_q(e, PS[:-2])
    this = e.alloc(mkobj(e, r, prg_=prg(e, z3.BitVec('key', 128), c64(0)), bidirectionObliviousTransfer_=iface(e, OT + 'IBidirectionObliviousTransfer', p=0)), 'psg')
    n, m = z3.BitVec('n', 64), z3.BitVec('m', 64)
    e.assume(z3.And(z3.ULT(n, c64(1 << 24)), z3.ULT(m, c64(1 << 24)), n != m))
    srt = Bo if kind == 'bool' else B64
    alive, val, th = call(e, f, this, [VecS(n, lambda j: z3.Function('l', B64, srt)(bv(j, 64))), VecS(m, lambda j: z3.Function('r', B64, srt)(bv(j, 64)))])
    throws_iff(e, th, e.st.pc if alive else None, True, 'unequal lengths')
    e.cover('reachable')


# ------------------------------------------------------------------ tuples from product shares
def recorder(e):
    rec = TGN + 'TuplesMetricRecorder'
    for m in ('addTuplesGenerated', 'addTuplesConsumed', 'addCompositeTuplesRequiringExpansionRequested', 'addCompositeTuplesWithoutExpansionRequested'):
        e.contracts[rec + '::' + m] = lambda eng, th, a, c: None
    return e.alloc(Rec(rec_q(e, rec)['id'], {}), 'recorder')


@task('T01', 'tuples', name='boolean tuples from product shares', cases=[2, 3, 4])
def gen_bool(T_, N):
    gen_tuples(T_, N, 'bool')


@task('T02', 'tuples', name='integer tuples from product shares', cases=[2, 3, 4])
def gen_int(T_, N):
    gen_tuples(T_, N, 'int')


def gen_tuples(T_, N, kind):
    e = T_.eng('tuples')
    install_prg(e)
    isb = kind == 'bool'
    srt = Bo if isb else B64
    asked = {}

    def ps(eng, this, args, call):
        v = eng.load(this)
        p, q = v.f['p'], v.f['q']
        asked[p, q] = [eng.load(a) if isinstance(a, Ptr) else a for a in args]
        O = z3.Function('share_%d_%d' % (p, q), B64, srt)
        return VecS(vlen(asked[p, q][0]), lambda j: O(bv(j, 64)))
    PI = TGN + 'IProductShareGenerator'
    e.contracts[PI + ('::generateBooleanProductShares' if isb else '::generateIntegerProductShares')] = ps
    cls = 'TupleGenerator' if isb else 'ArithmeticTupleGenerator'
    f = fn(e, TGN + cls + '::generateTuples')
    r = rec_q(e, TGN + cls)
    n = z3.ZeroExt(32, z3.BitVec('n', 32))      # sizes of requests are 32-bit
    outs = []
    for p in range(N):
        m = MapV([(True, q, iface(e, PI, p=p, q=q)) for q in range(N) if q != p])
        fl = dict(productShareGeneratorMap_=m, prg_=prg(e, z3.BitVec('key%d' % p, 128), c64(0)))
        if isb:
            fl['recorder_'] = recorder(e)
        outs.append(callv(e, f, e.alloc(mkobj(e, r, **fl), 'gen'), [n], 'generateTuples'))
    for p in range(N):
        e.prove('as many tuples as asked', eq_i(vlen(outs[p]), n))
    with each(e, n) as j:
        T = [[x for k, x in sorted(flat(at(o, j)).items())] for o in outs]
        nm = sorted(flat(at(outs[0], j)))
        sub = []     # contract of the product shares: the two outputs add up to the cross products
        for p in range(N):
            for q in range(p):
                (lp, rp), (lq, rq) = asked[p, q], asked[q, p]
                O, O2 = z3.Function('share_%d_%d' % (p, q), B64, srt)(j), z3.Function('share_%d_%d' % (q, p), B64, srt)(j)
                if isb:
                    e.fact(eq_i(lxor(O, O2), lxor(land(at(lp, j), at(rq, j)), land(at(lq, j), at(rp, j)))))
                else:
                    sub.append((O2, at(lp, j) * at(rq, j) + at(lq, j) * at(rp, j) - O))
        comb = xor_all if isb else add_all
        A, B, C = (comb([at_get(e, r, o, j, x) for o in outs]) for x in 'ABC')
        goal = zb(eq_i(C, land(A, B) if isb else A * B))
        e.prove('the shares of a and b multiply to the shares of c', z3.substitute(goal, *sub) if sub else goal, timeout=60000)
    e.cover('reachable')


def flat(v, path=()):
    if isinstance(v, Rec):
        r = {}
        for k, x in v.f.items():
            r.update(flat(x, path + (k,)))
        return r
    return {path: v}


def at_get(e, r, vec, j, x):
    """the public getter of a tuple"""
    v = at(vec, j)
    t = e.tu.recs[v.t]
    f = [g for g in (e.tu.fns[m] for m in t['ms']) if g['n'] == 'get' + x][0]
    return callv(e, f, e.alloc(v, 'tuple'), [], 'getter')


# ------------------------------------------------------------------ two-party tuples from correlated OT
TP = TGN + 'TwoPartyTupleGenerator::'
PRGB = z3.Function('aes_prg_bit', B128, B64, Bo)


def install_expand(e):
    """the bit-stream generator is a function of its key; the hash a function of its input"""
    def ctor(eng, this, args, call):
        raise Unsupported('unexpected constructor')

    def bits(eng, this, args, call):
        v = eng.load(args[0])
        key = bv(eng.load(this).f['cipher_'].f['roundKey_'].f['key'], 128) if not isinstance(eng.load(this), Opaque) else None
        eng.store(args[0], vmap_i(v, lambda i: PRGB(key, bv(i, 64))))
    e.contracts[UT + 'AesPrg::getRandomBitsInPlace'] = bits

    def lnb(eng, this, args, call):       # proved separately: bits of a block
        x = bv(eng.load(args[0]) if isinstance(args[0], Ptr) else args[0], 128)
        v = eng.load(args[1])
        eng.prove('no more bits than a block has', z3.ULE(bv(vlen(v), 64), c64(128)))
        eng.store(args[1], vmap_i(v, lambda i: z3.Extract(0, 0, z3.LShR(x, z3.ZeroExt(64, i))) == 1))
        return None
    e.contracts[UT + 'extractLnbToVector'] = lnb
    e.contracts[UT + 'Aes::expandEncryptionKey'] = lambda eng, this, args, call: Rec('keyed', {'key': eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]})


def vmap_i(v, f):
    if isinstance(v, Vec):
        return Vec([f(c64(i)) for i in range(len(v.xs))])
    return VecS(vlen(v), f)


def expand_fns(e):
    fs = [f for f in e.tu.fns.values() if f['q'] == TP + 'expandRCOTResults' and 'body' in f]
    comp = [f for f in fs if 'Composite' in e.types[e.types[f['ret']]['a'][0]['t']].get('n', '')]
    return [f for f in fs if f not in comp][0], comp[0]


@task('T01', 'tuples', name='two-party tuples', cases=['normal', 1, 2, 64, 65, 128])
def two_party(T_, size):
    """for any number of correlated OTs: the parties' shares multiply (size: width of the composite right operand)"""
    e = T_.eng('tuples')
    d = Duo(e)
    install_rcot(e, d)
    install_expand(e)
    fn_, fc = expand_fns(e)
    f = fn_ if size == 'normal' else fc
    r = rec_q(e, TP[:-2])
    n = z3.BitVec('n', 64)
    e.assume(z3.And(n != 0, z3.ULT(n, c64(1 << 24))))
    K = lambda p: (lambda i: z3.Concat(z3.Function('K_p%d' % p, B64, z3.BitVecSort(127))(bv(i, 64)), z3.BitVecVal(0, 1)))
    R = lambda p: z3.Function('choice_p%d' % p, B64, Bo)
    outs = []
    for p in (0, 1):
        this = e.alloc(mkobj(e, r, delta_=delta(p)), 'tuplegen')
        q = 1 - p
        kr = VecS(n, lambda i: simp(z3.If(R(q)(bv(i, 64)), K(q)(i) ^ delta(q), K(q)(i))))
        outs.append(callv(e, f, this, [VecS(n, K(p)), kr, 1 if size == 'normal' else size], 'expand'))
    for p in (0, 1):
        e.prove('one tuple per correlated OT', eq_i(vlen(outs[p]), n))
    with each(e, n) as j:
        A, B, C = ([at_get(e, r, o, j, x) for o in outs] for x in 'ABC')
        if size == 'normal':
            e.prove('shares multiply', eq_i(xor_all(C), land(xor_all(A), xor_all(B))))
        else:
            for p in (0, 1):
                B[p], C[p] = (e.load(x) if isinstance(x, Ptr) else x for x in (B[p], C[p]))
                e.prove('composite width', land(eq_i(vlen(B[p]), size), eq_i(vlen(C[p]), size)))
            for b in range(size):
                e.prove('composite shares multiply', eq_i(xor_all([at(c, b) for c in C]), land(xor_all(A), xor_all([at(x, b) for x in B]))))
    e.cover('reachable')


@task('T01', 'tuples', name='composite tuples of any width', cases=[(1, 'wide'), (2, 'wide'), (3, 'wide'), (1, 'narrow'), (2, 'narrow')], bounded='up to 3 correlated OTs per request')
def wide(T_, n, kind):
    e = T_.eng('tuples')
    d = Duo(e)
    install_rcot(e, d)
    install_expand(e)
    f = expand_fns(e)[1]
    r = rec_q(e, TP[:-2])
    size = z3.ZeroExt(32, z3.BitVec('size', 32))
    e.assume(z3.And(z3.UGT(size, c64(128)), z3.ULT(size, c64(1 << 24))) if kind == 'wide' else z3.And(size != 0, z3.ULE(size, c64(128))))
    K = lambda p, i: z3.Concat(z3.BitVec('K_p%d_%d' % (p, i), 127), z3.BitVecVal(0, 1))
    R = lambda p, i: z3.Bool('choice_p%d_%d' % (p, i))
    outs = []
    for p in (0, 1):
        this = e.alloc(mkobj(e, r, delta_=delta(p)), 'tuplegen')
        q = 1 - p
        outs.append(callv(e, f, this, [Vec([K(p, i) for i in range(n)]), Vec([z3.If(R(q, i), K(q, i) ^ delta(q), K(q, i)) for i in range(n)]), size], 'expand'))
    for p in (0, 1):
        e.prove('one tuple per correlated OT', eq_i(vlen(outs[p]), n))
    for i in range(n):
        A, B, C = ([at_get(e, r, o, i, x) for o in outs] for x in 'ABC')
        for p in (0, 1):
            B[p], C[p] = (e.load(x) if isinstance(x, Ptr) else x for x in (B[p], C[p]))
            e.prove('composite width', land(eq_i(vlen(B[p]), size), eq_i(vlen(C[p]), size)))
        with each(e, size) as b:
            e.prove('composite shares multiply', eq_i(xor_all([at(c, b) for c in C]), land(xor_all(A), xor_all([at(x, b) for x in B]))))
    e.cover('reachable')


@task('T01', 'tuples', name='composite requests', cases=[0, 1, 2, 3], bounded='up to 3 widths per request')
def composite_request(T_, k):
    """any widths and counts: every width gets its own consecutive piece of the stream of correlated OTs"""
    e = T_.eng('tuples')
    r = rec_q(e, TP[:-2])
    f = fn(e, TP + 'getCompositeTuple')
    pos0 = z3.BitVec('position', 64)
    g = e.alloc(pos0, 'ghost')
    S0, S1 = z3.Function('stream_sender', B64, B128), z3.Function('stream_receiver', B64, B128)
    fb = async_bufs(e)

    def get(eng, this, args, call):
        n = bv(eng.load(args[0]) if isinstance(args[0], Ptr) else args[0], 64)
        p = bv(eng.load(g), 64)
        eng.store(g, p + n)
        return VecS(n, lambda j: Rec('pair', {'first': S0(p + bv(j, 64)), 'second': S1(p + bv(j, 64))}))
    e.contracts[fb[0]['q']] = get
    seen = []
    O = lambda i: (lambda j: z3.Function('expanded_%d' % i, B64, B64)(bv(j, 64)))

    def expand(eng, this, args, call):
        v = [eng.load(a) if isinstance(a, Ptr) else a for a in args]
        seen.append(v)
        return VecS(vlen(v[0]), O(len(seen) - 1))
    e.contracts[expand_fns(e)[1]['q']] = expand
    ws = [z3.ZeroExt(32, z3.BitVec('width%d' % i, 32)) for i in range(k)]
    cs = [z3.BitVec('count%d' % i, 32) for i in range(k)]
    for a, b in zip(ws, ws[1:]):
        e.assume(z3.ULT(a, b))
    this = e.alloc(mkobj(e, r, recorder_=recorder(e), rcotBuffer_=Rec('buffer', {})), 'tuplegen')
    out = callv(e, f, this, [MapV([(True, w, c) for w, c in zip(ws, cs)])], 'getCompositeTuple')
    e.prove('one expansion per width', len(seen) == k and len(out.es) == k)
    p = pos0
    for i in range(k):
        n = z3.ZeroExt(32, cs[i])
        pres, key, val = out.es[i]
        e.prove('every width is answered', land(pres, land(eq_i(key, ws[i]), eq_i(seen[i][2], ws[i]))))
        e.prove('as many tuples as asked for', land(eq_i(vlen(val), n), land(eq_i(vlen(seen[i][0]), n), eq_i(vlen(seen[i][1]), n))))
        with each(e, n) as j:
            e.prove('consecutive correlated OTs, none of them used before', land(eq_i(at(seen[i][0], j), S0(p + j)), eq_i(at(seen[i][1], j), S1(p + j))))
            e.prove('its own tuples', eq_i(at(val, j), O(i)(j)))
        p = p + n
    e.prove('the next request continues there', eq_i(e.load(g), p))
    e.cover('reachable')


@task('T01', 'tuples', name='correlated OTs for tuples', cases=['normal', 'composite'])
def tuple_base(T_, kind):
    """any size: the correlated OTs of both directions, pairwise in order, when it is this request's turn"""
    e = T_.eng('tuples')
    d = Duo(e)
    install_rcot(e, d)
    r = rec_q(e, TP[:-2])
    f = fn(e, TP + ('generateNormalTuples' if kind == 'normal' else 'generateRcotResults'))
    n = z3.ZeroExt(32, z3.BitVec('n', 32))
    RI = OT + 'IRandomCorrelatedObliviousTransfer'
    enum = 0 if kind == 'normal' else 1
    e.contracts['std::condition_variable::wait'] = lambda eng, this, a, c: None
    this = e.alloc(mkobj(e, r, recorder_=recorder(e), delta_=delta(0), toGenerate_=Vec([enum, 1 - enum]), senderRcot_=iface(e, RI, sender=0, role='s'), receiverRcot_=iface(e, RI, sender=1, role='r')), 'tuplegen')
    seen = []

    def expand(eng, this, args, call):
        seen.append([eng.load(a) if isinstance(a, Ptr) else a for a in args])
        return VecS(vlen(seen[0][0]), lambda j: z3.Function('expanded', B64, B64)(bv(j, 64)))
    e.contracts[expand_fns(e)[0]['q']] = expand
    out = callv(e, f, this, [n], kind)
    e.prove('as many as asked for', eq_i(vlen(out), n))
    S = lambda j: z3.Concat(z3.Function('K0_p0', B64, z3.BitVecSort(127))(j), z3.BitVecVal(0, 1))
    K = z3.Function('K0_p1', B64, z3.BitVecSort(127))
    R = lambda j: z3.If(z3.Function('choice0_p1', B64, Bo)(j), z3.Concat(K(j), z3.BitVecVal(0, 1)) ^ delta(1), z3.Concat(K(j), z3.BitVecVal(0, 1)))
    with each(e, n) as j:
        if kind == 'normal':
            e.prove('expanded from the sent and received messages', land(eq_i(at(seen[0][0], j), S(j)), eq_i(at(seen[0][1], j), R(j))))
            e.prove('the expanded tuples', eq_i(at(out, j), z3.Function('expanded', B64, B64)(j)))
        else:
            p = at(out, j)
            e.prove('the sent and the received message', land(eq_i(p.f['first'], S(j)), eq_i(p.f['second'], R(j))))
    if kind == 'normal':
        e.prove('one bit wide', eq_i(seen[0][2], 1))
    left = e.load(this).f['toGenerate_']
    e.prove('the turn passes to the next request', eq_i(vlen(left), 1) and eq_i(at(left, 0), 1 - enum))
    e.cover('reachable')


@task(['T01', 'C01'], 'tuples', name='bits of a block')
def lnb(T_):
    e = T_.eng('tuples')
    f = fn(e, UT + 'extractLnbToVector')
    x, n = z3.BitVec('block', 128), z3.BitVec('n', 64)
    e.assume(z3.ULT(n, c64(1 << 31)))
    d = e.alloc(VecS(n, lambda j: z3.Function('old', B64, Bo)(bv(j, 64))), 'data')
    alive, _, th = call(e, f, NULL, [x, ByRef(d)])
    throws_iff(e, th, e.st.pc if alive else None, z3.UGT(n, c64(128)), 'more bits than the block has')
    out = e.load(d)
    e.prove('size kept', eq_i(vlen(out), n))
    with each(e, n) as j:
        e.prove('bit j of the block', eq_i(at(out, j), z3.Extract(0, 0, z3.LShR(x, z3.ZeroExt(64, j))) == 1))
    e.cover('reachable')


class ShareInv:
    """first outer loop of the integer product shares: blocks 0..i-1 of input1 and choice are filled in"""

    def __init__(self, e, n, p, left, right):
        self.e, self.n, self.p, self.left, self.right = e, n, p, left, right
        self.X = z3.Function('input1_p%d' % p, B64, B64)
        self.Y = z3.Function('choice_p%d' % p, B64, Bo)

    def applies(self, L):
        if len(L.fr.loops) or any(L.names().get(i) == 'received' for i in L.fr.vars):
            return False
        return True

    def block(self, q, c):
        return z3.simplify(z3.Concat(z3.Extract(57, 0, q), z3.BitVecVal(c, 6)))

    def want(self, q, c):
        in0 = at(self.L.get('input0'), self.block(q, c))
        return in0 + at(self.left, q) * c64(1 << c), z3.Extract(c, c, at(self.right, q)) == 1

    def check(self, L, when):
        e = self.e
        self.L = L
        i = z3.SignExt(32, bv(L.get('i'), 32))
        a, b = L.get('input1'), L.get('choice')
        e.prove('%s: sizes' % when, land(eq_i(vlen(a), self.n << 6), eq_i(vlen(b), self.n << 6)))
        if when.startswith('before'):
            e.prove('%s: starts at the first block' % when, eq_i(i, c64(0)))
            return
        e.prove('%s: next block' % when, land(eq_i(i, self.k + 1), z3.ULE(i, self.n)))
        with each(e, self.k << 6) as j:
            e.prove('%s: earlier blocks stay' % when, land(eq_i(at(a, j), self.X(j)), eq_i(at(b, j), self.Y(j))))
        for c in range(64):
            x, y = self.want(self.k, c)
            e.prove('%s: shifted operand, bit %d' % (when, c), eq_i(at(a, self.block(self.k, c)), x))
            e.prove('%s: choice bit %d' % (when, c), eq_i(at(b, self.block(self.k, c)), y))

    def havoc(self, L):
        k32 = z3.BitVec(fresh_name('block'), 24)
        self.k = z3.ZeroExt(40, k32)
        L.set('i', z3.ZeroExt(8, k32))
        m = self.n << 6
        L.set('input1', VecS(m, lambda j: self.X(bv(j, 64))))
        L.set('choice', VecS(m, lambda j: self.Y(bv(j, 64))))
        self.e.assume(z3.ULE(self.k, self.n))

    def measure(self, L):
        return self.n - z3.SignExt(32, bv(L.get('i'), 32))


@task('T02', 'tuples', name='integer product share')
def int_share(T_):
    """two parties, any number of pairs: their outputs add up to left_0*right_1 + left_1*right_0 modulo 2^64"""
    e = T_.eng('tuples')
    install_prg(e)
    got = {}

    def bot(eng, this, args, call):
        p = eng.load(this).f['p']
        got[p] = [eng.load(a) if isinstance(a, Ptr) else a for a in args]
        O = z3.Function('ot_out_p%d' % p, B64, B64)
        return VecS(vlen(got[p][0]), lambda j: O(bv(j, 64)))
    e.contracts[OT + 'IBidirectionObliviousTransfer::biDirectionOT'] = bot
    f = fn(e, PS + 'generateIntegerProductShares')
    n = z3.ZeroExt(40, z3.BitVec('n', 24))
    F = lambda nm, p: z3.Function('%s_p%d' % (nm, p), B64, B64)
    outs, invs = [], []
    r = rec_q(e, PS[:-2])
    for p in (0, 1):
        this = e.alloc(mkobj(e, r, prg_=prg(e, z3.BitVec('key%d' % p, 128), c64(0)),
                             bidirectionObliviousTransfer_=iface(e, OT + 'IBidirectionObliviousTransfer', p=p)), 'psg')
        l, rr = VecS(n, lambda j, p=p: F('left', p)(bv(j, 64))), VecS(n, lambda j, p=p: F('right', p)(bv(j, 64)))
        inv = ShareInv(e, n, p, l, rr)
        e.invariants[f['q']] = inv
        outs.append(callv(e, f, this, [l, rr], 'product shares'))
        invs.append(inv)
    e.invariants.clear()
    for p in (0, 1):
        e.prove('one share per pair', eq_i(vlen(outs[p]), n))
        for v in got[p]:
            e.prove('one transfer per bit', eq_i(vlen(v), n << 6))
    q = z3.ZeroExt(40, z3.BitVec(fresh_name('ix'), 24))
    e.inst_terms.append(q)
    e.st.pc = e.st.pc + (z3.ULT(q, n),)
    sub, z = [], {}
    for p in (0, 1):
        o = 1 - p
        bits = [z3.BitVec('z%d_%d' % (p, c), 64) for c in range(64)]       # 0 or 1: bit c of right_p[q]
        for c in range(64):
            ix = z3.simplify(z3.Concat(z3.Extract(57, 0, q), z3.BitVecVal(c, 6)))
            in0 = at(got[o][0], ix)
            sub.append((z3.simplify(z3.Function('ot_out_p%d' % p, B64, B64)(ix)), in0 + bits[c] * (F("left", o)(q) * c64(1 << c))))
        sub.append((z3.simplify(F('right', p)(q)), sum((bits[c] * (1 << c) for c in range(1, 64)), bits[0])))
    goal = z3.simplify(zb(eq_i(add_all([at(o, q) for o in outs]), F('left', 0)(q) * F('right', 1)(q) + F('left', 1)(q) * F('right', 0)(q))))
    e.prove('shares of the cross products', z3.substitute(goal, *sub), timeout=60000)
    e.cover('reachable')


# ------------------------------------------------------------------ Ferret: single point correlated OT
ENC = z3.Function('aes_enc', B128, B128, B128)
SP = FE + 'SinglePointCot::'


def install_aes(e):
    """AES with a given key is a function of the block (Aes::encryptInPlace under contract)"""
    e.contracts[UT + 'Aes::expandEncryptionKey'] = lambda eng, this, args, call: Rec('keyed', {'key': eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]})

    def enc(eng, this, args, call):
        key = bv(eng.load(this).f['roundKey_'].f['key'], 128)
        v = eng.load(args[0])
        eng.store(args[0], vmap(v, lambda x: ENC(key, bv(x, 128))))
    e.contracts[UT + 'Aes::encryptInPlace'] = enc


@task('T04', 'tuples', name='single point COT', cases=[format(i, '0%db' % d) for d in (1, 2, 3) for i in range(1 << d)], bounded='tree depth up to 3')
def spcot(T_, choice):
    """any choice bits: the outputs agree except at the position spelled by the negated choices, where they differ by delta"""
    e = T_.eng('tuples')
    d = Duo(e)
    depth = len(choice)
    install_aes(e)
    e.contracts[UT + 'getRandomM128iFromSystemNoise'] = lambda eng, this, a, c: z3.BitVec('seed', 128)
    r = rec_q(e, SP[:-2])
    dl = delta(0)
    K = [z3.Concat(z3.BitVec('K%d' % i, 127), z3.BitVecVal(0, 1)) for i in range(depth)]
    bits = [c == '1' for c in choice]
    KR = [k ^ dl if b else k for k, b in zip(K, bits)]
    index = z3.BitVec('extension', 64)
    e.assume(z3.ULT(index, 1 << 62))
    outs = []
    for p, nm in ((0, 'sender'), (1, 'receiver')):
        d.cur = p
        this = e.alloc(mkobj(e, r, agent_=agent(e), index_=index), 'spcot')
        callv(e, fn(e, SP + nm + 'Init'), this, [dl] if p == 0 else [], 'init')
        outs.append(callv(e, fn(e, SP + nm + 'Extend'), this, [Vec(K if p == 0 else KR)], 'extend'))
        e.prove('the next extension uses the next tweak', eq_i(e.load(this).f['index_'], index + 1))
    d.matched()
    N = 1 << depth
    for p in (0, 1):
        e.prove('two to the depth outputs', eq_i(vlen(outs[p]), N))
    for i in range(N):
        s, t = at(outs[0], i), at(outs[1], i)
        here = all(bits[k] != bool((i >> (depth - 1 - k)) & 1) for k in range(depth))
        e.prove('low bit of the sender is 0', eq_i(z3.Extract(0, 0, s), 0))
        d.prove('differ by delta exactly at the secret position', eq_i(t, s ^ dl if here else s), timeout=60000)
    e.cover('reachable')


@task('T04', 'tuples', name='delta must be odd')
def odd_delta(T_):
    e = T_.eng('tuples')
    d = Duo(e)
    d.cur = 0
    dl = z3.BitVec('delta', 128)
    this = e.alloc(mkobj(e, rec_q(e, SP[:-2]), agent_=agent(e)), 'spcot')
    alive, _, th = call(e, fn(e, SP + 'senderInit'), this, [dl])
    throws_iff(e, th, e.st.pc if alive else None, z3.Extract(0, 0, dl) == 0, 'even delta')


# ------------------------------------------------------------------ IKNP: correlated OT extension
IK = OT + 'IknpShRandomCorrelatedObliviousTransfer::'
MT = z3.Function('transposed', B64, B128)


def column(src, blk, r):
    """bit r of the 128 blocks from 128*blk on, the first one lowest"""
    return z3.simplify(z3.Concat(*[z3.Extract(r, r, at(src, z3.simplify(z3.Concat(z3.Extract(56, 0, blk), z3.BitVecVal(c, 7))))) for c in reversed(range(128))]))


class TransInv:
    """blocks 0..b-1 of the result are transposed"""

    def __init__(self, e, nb, src):
        self.e, self.nb, self.src = e, nb, src
        self.X = z3.Function('done', B64, B128)

    def applies(self, L):
        return not L.fr.loops

    def check(self, L, when):
        e = self.e
        i = bv(L.get('index'), 64)
        rst = L.get('rst')
        e.prove('%s: size' % when, eq_i(vlen(rst), self.nb << 7))
        if when.startswith('before'):
            e.prove('%s: starts at the first block' % when, eq_i(i, c64(0)))
            return
        e.prove('%s: next block' % when, land(eq_i(i, (self.b + 1) << 7), z3.ULE(self.b + 1, self.nb)))
        with each(e, self.b << 7) as j:
            e.prove('%s: earlier blocks stay' % when, eq_i(at(rst, j), self.X(j)))
        for r in range(128):
            q = z3.simplify(z3.Concat(z3.Extract(56, 0, self.b), z3.BitVecVal(r, 7)))
            e.prove('%s: row %d is the column' % (when, r), eq_i(at(rst, q), column(self.src, self.b, r)))

    def havoc(self, L):
        b32 = z3.BitVec(fresh_name('block'), 24)
        self.b = z3.ZeroExt(40, b32)
        L.set('index', self.b << 7)
        L.set('rst', VecS(self.nb << 7, lambda j: self.X(bv(j, 64))))
        self.e.assume(z3.ULE(self.b, self.nb))

    def measure(self, L):
        return (self.nb << 7) - bv(L.get('index'), 64)


@task('T03', 'tuples', name='matrix transpose')
def transpose(T_):
    """any number of 128 by 128 bit blocks: row r of the result is column r of the input block"""
    e = T_.eng('tuples')
    f = fn(e, IK + 'matrixTranspose')
    nb = z3.ZeroExt(40, z3.BitVec('blocks', 24))
    src = VecS(nb << 7, lambda j: z3.Function('matrix', B64, B128)(bv(j, 64)))
    this = e.alloc(mkobj(e, rec_q(e, IK[:-2])), 'iknp')
    inv = TransInv(e, nb, src)
    e.invariants[f['q']] = inv
    out = callv(e, f, this, [src], 'transpose')
    e.prove('same size', eq_i(vlen(out), nb << 7))
    e.cover('reachable')




# ------------------------------------------------------------------ Ferret: extending correlated OTs
EX = OT + 'ExtenderBasedRandomCorrelatedObliviousTransfer::'
RX = FE + 'RcotExtender::'
MP = FE + 'RegularErrorMultiPointCot::'


class ExtInv(BufInv):
    """rst holds the first elements of the stream from pos0 on; what is left of the last extension are the next ones, and the
    base material is the tail of the last extension"""

    def __init__(self, e, this, M, Bs, S, T, ghost, size):
        self.e, self.this, self.M, self.Bs, self.S, self.T, self.g, self.size = e, this, M, Bs, S, T, ghost, size

    def pos(self):
        v = self.e.load(self.this)
        return bv(self.e.load(self.g), 64) - bv(vlen(v.f['rcotResults_']), 64) + bv(v.f['otIndex_'], 64)

    def check(self, L, when):
        e = self.e
        self.check_state(when)
        rst = L.get('rst')
        r = bv(vlen(rst), 64)
        e.prove('%s: handed out what was returned' % when, self.pos() == self.pos0 + r)
        e.prove('%s: the index counts the returned ones' % when, land(eq_i(z3.SignExt(32, bv(L.get('index'), 32)), r), z3.ULE(r, bv(self.size, 64))))
        with each(e, rst) as j:
            e.prove('%s: returned elements are the next of the stream' % when, eq_v(e, at(rst, j), self.S(self.pos0 + j)))

    def check_state(self, when):
        e = self.e
        v = e.load(self.this)
        buf, i, base, g = v.f['rcotResults_'], bv(v.f['otIndex_'], 64), v.f['baseRcotResults_'], bv(e.load(self.g), 64)
        e.prove('%s: index within the extension' % when, z3.ULE(i, bv(vlen(buf), 64)))
        e.prove('%s: base material is kept' % when, eq_i(vlen(base), self.Bs))
        with each(e, buf) as j:
            e.prove('%s: unused elements are the next of the stream' % when, limp(z3.ULE(i, j), eq_i(at(buf, j), self.S(g - bv(vlen(buf), 64) + j))))
        with each(e, self.Bs) as j:
            e.prove('%s: base material is the tail of the last extension' % when, eq_i(at(base, j), self.T(g, j)))

    def havoc(self, L):
        e = self.e
        i, g = (z3.BitVec(fresh_name(x), 64) for x in ('oix', 'gen'))
        r = z3.ZeroExt(33, z3.BitVec(fresh_name('len'), 31))
        S, T, M = self.S, self.T, self.M
        v = e.load(self.this).with_('otIndex_', i).with_('rcotResults_', VecS(M, lambda j: S(g - M + bv(j, 64)))).with_('baseRcotResults_', VecS(self.Bs, lambda j: T(g, bv(j, 64))))
        e.store(self.this, v)
        e.store(self.g, g)
        L.set('rst', VecS(r, lambda j: S(self.pos0 + bv(j, 64))))
        L.set('index', z3.Extract(31, 0, r))
        e.assume(z3.And(z3.ULE(i, M), z3.ULE(r, bv(self.size, 64)), g - M + i == self.pos0 + r))


@task('T04', 'tuples', name='extended correlations', cases=['sender', 'receiver'])
def ext_rcot(T_, role):
    """any history of requests: consecutive correlations of the extensions, never one of those kept as base material, and the
    base material of an extension is the tail of the one before"""
    e = T_.eng('tuples')
    f = fn(e, EX + 'rcot')
    M, Bs = z3.ZeroExt(33, z3.BitVec('fresh', 31)), z3.ZeroExt(33, z3.BitVec('base', 31))
    e.assume(z3.And(M != 0, Bs != 0, z3.ULT(M, c64(1 << 30)), z3.ULT(Bs, c64(1 << 30))))
    S_, T = z3.Function('stream', B64, B128), z3.Function('kept_tail', B64, B64, B128)
    S = lambda j: S_(z3.simplify(bv(j, 64)))
    i, g0 = z3.BitVec('otIndex', 64), z3.BitVec('generated', 64)
    e.assume(z3.ULE(i, M))
    g = e.alloc(g0, 'ghost')

    def extend(eng, this, args, call):
        b = eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]
        k = bv(eng.load(g), 64)
        eng.prove('an extension starts from the right amount of base material', eq_i(vlen(b), Bs))
        with each(eng, Bs) as j:
            eng.prove('an extension starts from the tail of the one before', eq_i(at(b, j), T(k, j)))
        eng.store(g, z3.simplify(k + M))
        return VecS(M + Bs, lambda j: z3.If(z3.ULT(bv(j, 64), M), S(k + bv(j, 64)), T(k + M, bv(j, 64) - M)))
    e.contracts[FE + 'IRcotExtender::' + role + 'ExtendRcot'] = extend
    r = rec_q(e, EX[:-2])
    this = e.alloc(mkobj(e, r, role_=0 if role == 'sender' else 1, rcotExtender_=iface(e, FE + 'IRcotExtender'), baseRcotSize_=Bs, otIndex_=i,
                         rcotResults_=VecS(M, lambda j: S(g0 - M + bv(j, 64))), baseRcotResults_=VecS(Bs, lambda j: T(g0, bv(j, 64)))), 'ot')
    size = z3.ZeroExt(33, z3.BitVec('size', 31))
    inv = ExtInv(e, this, M, Bs, S, T, g, size)
    inv.pos0 = g0 - M + i
    e.invariants[f['q']] = inv
    out = callv(e, f, this, [size], 'rcot')
    e.prove('exactly the requested number of correlations', eq_i(vlen(out), size))
    with each(e, out) as j:
        e.prove('consecutive correlations', eq_i(at(out, j), S(inv.pos0 + j)))
    e.prove('the next request continues there', inv.pos() == inv.pos0 + size)
    inv.check_state('after the request')
    e.cover('reachable')


@task('T04', 'tuples', name='first extended correlations', cases=['sender', 'receiver'])
def ext_first(T_, role):
    """before the first request there is only base material; the first request extends it and starts with the first result"""
    e = T_.eng('tuples')
    M, Bs = z3.ZeroExt(33, z3.BitVec('fresh', 31)), z3.ZeroExt(33, z3.BitVec('base', 31))
    e.assume(z3.And(M != 0, Bs != 0, z3.ULT(M, c64(1 << 30)), z3.ULT(Bs, c64(1 << 30))))
    X, b0 = z3.Function('extension', B64, B128), z3.Function('bootstrap', B64, B128)
    seen = []

    def extend(eng, this, args, call):
        seen.append(eng.load(args[0]) if isinstance(args[0], Ptr) else args[0])
        return VecS(M + Bs, lambda j: X(bv(j, 64)))
    e.contracts[FE + 'IRcotExtender::' + role + 'ExtendRcot'] = extend
    e.contracts[FE + 'IRcotExtender::getBaseCotSize'] = lambda eng, this, a, c: Bs
    r = rec_q(e, EX[:-2])
    junk = z3.BitVec('uninitialised', 64)
    this = e.alloc(mkobj(e, r, role_=0 if role == 'sender' else 1, rcotExtender_=iface(e, FE + 'IRcotExtender'), baseRcotSize_=Bs, otIndex_=junk,
                         rcotResults_=Vec([]), baseRcotResults_=Vec([])), 'ot')
    callv(e, fn(e, EX + 'setBaseRcotResults'), this, [VecS(Bs, lambda j: b0(bv(j, 64)))], 'bootstrap')
    callv(e, fn(e, EX + 'extendRcot'), this, [], 'extend')
    v = e.load(this)
    e.prove('the bootstrapped correlations are extended', eq_i(vlen(seen[0]), Bs))
    with each(e, Bs) as j:
        e.prove('the bootstrapped correlations are extended', eq_i(at(seen[0], j), b0(j)))
        e.prove('the tail is kept', eq_i(at(v.f['baseRcotResults_'], j), X(M + j)))
    e.prove('the rest can be handed out', land(eq_i(vlen(v.f['rcotResults_']), M), land(eq_i(vlen(v.f['baseRcotResults_']), Bs), eq_i(v.f['otIndex_'], 0))))
    with each(e, M) as j:
        e.prove('in order', eq_i(at(v.f['rcotResults_'], j), X(j)))
    e.cover('reachable')


@task('T04', 'tuples', name='one extension')
def extension(T_):
    """any sizes: both parties expand the first part of their base correlations with the same random matrix and add the result
    of the multi-point OT on the rest; the outcome is again a correlation with the same delta"""
    e = T_.eng('tuples')
    d = Duo(e)
    mb, sb, L = (z3.ZeroExt(33, z3.BitVec(x, 31)) for x in ('matrix_base', 'mp_base', 'length'))
    e.assume(z3.And(z3.ULT(mb, c64(1 << 30)), z3.ULT(sb, c64(1 << 30))))
    dl = delta(0)
    K, C = z3.Function('K', B64, z3.BitVecSort(127)), z3.Function('choice', B64, Bo)
    S = lambda i: z3.Concat(K(bv(i, 64)), z3.BitVecVal(0, 1))
    R = lambda i: z3.If(C(bv(i, 64)), S(i) ^ dl, S(i))
    seedS = z3.BitVec('seed', 128)
    e.contracts[UT + 'getRandomM128iFromSystemNoise'] = lambda eng, this, a, c: seedS
    mm, mp = {}, {}
    MK, MC = z3.Function('matrix_K', B64, z3.BitVecSort(127)), z3.Function('matrix_choice', B64, Bo)
    PK, PC = z3.Function('mp_K', B64, z3.BitVecSort(127)), z3.Function('mp_choice', B64, Bo)

    def cor(k, c, p):
        s = lambda j: z3.Concat(k(bv(j, 64)), z3.BitVecVal(0, 1))
        return s if p == 0 else lambda j: z3.If(c(bv(j, 64)), s(j) ^ dl, s(j))

    def mul(eng, this, args, call):
        a = [eng.load(x) if isinstance(x, Ptr) else x for x in args]
        mm[d.cur] = a
        return VecS(a[1], cor(MK, MC, d.cur))

    def ext(eng, this, args, call):
        mp[d.cur] = eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]
        return VecS(L, cor(PK, PC, d.cur))
    e.contracts[FE + 'IMatrixMultiplier::multiplyWithRandomMatrix'] = mul
    for nm in ('sender', 'receiver'):
        e.contracts[FE + 'IMultiPointCot::%sExtend' % nm] = ext
    r = rec_q(e, RX[:-2])
    outs = {}
    for p, nm in ((1, 'receiver'), (0, 'sender')):
        d.cur = p
        this = e.alloc(mkobj(e, r, role_=p, agent_=agent(e), extendedSize_=L, matrixMultiplicationBaseRcotSize_=mb, mpcotBaseRcotSize_=sb, baseCotSize_=mb + sb,
                             MatrixMultiplier_=iface(e, FE + 'IMatrixMultiplier'), multiPointCot_=iface(e, FE + 'IMultiPointCot')), 'ext')
        outs[p] = callv(e, fn(e, RX + nm + 'ExtendRcot'), this, [VecS(mb + sb, S if p == 0 else R)], 'extend')
    d.matched()
    for p in (0, 1):
        e.prove('size of the extension', land(eq_i(vlen(outs[p]), L), eq_i(mm[p][1], L)))
        d.prove('the random matrix of the receiver', eq_i(mm[p][0], seedS))
        e.prove('the base material is split', land(eq_i(vlen(mm[p][2]), mb), eq_i(vlen(mp[p]), sb)))
        F = S if p == 0 else R
        with each(e, mb) as j:
            e.prove('the first part goes through the matrix', eq_i(at(mm[p][2], j), F(j)))
        with each(e, sb) as j:
            e.prove('the rest goes to the multi-point OT', eq_i(at(mp[p], j), F(mb + j)))
    with each(e, L) as j:
        c = z3.Xor(MC(j), PC(j))
        e.prove('again a correlation', land(eq_i(at(outs[1], j), z3.If(c, at(outs[0], j) ^ dl, at(outs[0], j))), eq_i(z3.Extract(0, 0, at(outs[0], j)), 0)))
        e.prove('sum of both parts', eq_i(at(outs[0], j), cor(MK, MC, 0)(j) ^ cor(PK, PC, 0)(j)))
    e.cover('reachable')


@task('T04', 'tuples', name='set-up of an extension', cases=['sender', 'receiver'])
def extension_init(T_, role):
    e = T_.eng('tuples')
    need, L, bs, w = z3.BitVec('mp_needs', 32), z3.BitVec('length', 64), z3.ZeroExt(33, z3.BitVec('base', 31)), z3.BitVec('weight', 64)
    e.assume(z3.And(z3.ULT(need, 1 << 30), z3.ULT(bs, c64(1 << 30))))
    e.contracts[FE + 'IMultiPointCot::getBaseCotNeeds'] = lambda eng, this, a, c: need
    got = []
    for nm in ('sender', 'receiver'):
        e.contracts[FE + 'IMultiPointCot::%sInit' % nm] = (lambda nm: lambda eng, this, a, c: got.append((nm, [eng.load(x) if isinstance(x, Ptr) else x for x in a])))(nm)
    this = e.alloc(mkobj(e, rec_q(e, RX[:-2]), multiPointCot_=iface(e, FE + 'IMultiPointCot')), 'ext')
    dl = delta(0)
    n = callv(e, fn(e, RX + role + 'Init'), this, ([dl] if role == 'sender' else []) + [L, bs, w], 'init')
    v = e.load(this)
    e.prove('the multi-point OT is set up for the same role', len(got) == 1 and got[0][0] == role)
    a = got[0][1][1:] if role == 'sender' else got[0][1]
    e.prove('with the same size and weight', land(eq_i(a[0], L), eq_i(a[1], w)))
    if role == 'sender':
        e.prove('with the same delta', eq_i(got[0][1][0], dl))
    tot = z3.ZeroExt(32, need) + bs
    e.prove('base material for both parts', land(eq_i(z3.SignExt(32, bv(n, 32)), tot), eq_i(v.f['baseCotSize_'], tot)))
    e.prove('its parts', land(eq_i(v.f['matrixMultiplicationBaseRcotSize_'], bs), land(eq_i(v.f['mpcotBaseRcotSize_'], z3.ZeroExt(32, need)), eq_i(v.f['extendedSize_'], L))))
    e.cover('reachable')


class MpInv:
    """the first i blocks are filled from the first i pieces of the base material"""

    def __init__(self, e, base, D, N, W, X, role):
        self.e, self.base, self.D, self.N, self.W, self.X, self.role = e, base, D, N, W, X, role

    def applies(self, L):
        return not L.fr.loops

    def check(self, L, when):
        e = self.e
        i, ix, rst = bv(L.get('i'), 64), bv(L.get('index'), 64), L.get('rst')
        if when.startswith('before'):
            e.prove('%s: nothing yet' % when, land(eq_i(i, c64(0)), land(eq_i(ix, c64(0)), eq_i(vlen(rst), 0))))
            return
        e.prove('%s: next block' % when, land(eq_i(i, self.b + 1), z3.ULE(i, self.W)))
        e.prove('%s: next piece of the base material' % when, eq_i(ix, i * self.D))
        e.prove('%s: filled blocks' % when, eq_i(vlen(rst), i << self.N))
        with each(e, self.b << self.N) as j:
            e.prove('%s: earlier blocks stay' % when, eq_i(at(rst, j), self.X(j)))
        with each(e, c64(1 << self.N)) as j:
            e.prove('%s: the new block' % when, eq_i(at(rst, (self.b << self.N) + j), SPF(self.role)(self.b, j)))

    def havoc(self, L):
        e = self.e
        self.b = z3.ZeroExt(44, z3.BitVec(fresh_name('block'), 20))
        L.set('i', self.b)
        L.set('index', z3.simplify(self.b * self.D))
        L.set('rst', VecS(self.b << self.N, lambda j: self.X(bv(j, 64))))
        e.assume(z3.ULE(self.b, self.W))

    def measure(self, L):
        return self.W - bv(L.get('i'), 64)


def SPF(role):
    f = z3.Function('single_point_' + role, B64, B64, B128)
    return lambda b, j: f(z3.simplify(bv(b, 64)), z3.simplify(bv(j, 64)))


@task('T04', 'tuples', name='multi-point COT', cases=[(r, n) for r in ('sender', 'receiver') for n in (1, 2, 3, 8, 13, 20)])
def mpcot(T_, role, D):
    """any number of blocks of 2^D: block i is the single-point COT on the i-th piece of D base correlations"""
    e = T_.eng('tuples')
    W = z3.ZeroExt(44, z3.BitVec('weight', 20))
    base = VecS(z3.simplify(W * D), lambda j: z3.Function('base', B64, B128)(z3.simplify(bv(j, 64))))
    inv = MpInv(e, base, D, D, W, z3.Function('done', B64, B128), role)

    def single(eng, this, args, call):
        v = eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]
        eng.prove('one piece of the base material', eq_i(vlen(v), D))
        for j in range(D):
            eng.prove('the piece of this block', eq_i(at(v, j), at(base, inv.b * D + j)))
        b = inv.b
        return VecS(c64(1 << D), lambda j: SPF(role)(b, j))
    e.contracts[FE + 'ISinglePointCot::%sExtend' % role] = single
    f = fn(e, MP + 'extend')
    e.invariants[f['q']] = inv
    this = e.alloc(mkobj(e, rec_q(e, MP[:-2]), role_=0 if role == 'sender' else 1, singlePointCot_=iface(e, FE + 'ISinglePointCot'), spcotLength_=c64(1 << D), spcotCount_=W, baseCotSize_=c64(D)), 'mp')
    out = callv(e, fn(e, MP + role + 'Extend'), this, [base], 'extend')
    e.prove('all blocks', eq_i(vlen(out), W << D))
    with each(e, W << D) as j:
        e.prove('the blocks in order', eq_i(at(out, j), inv.X(j)))
    e.cover('reachable')


@task('T04', 'tuples', name='multi-point COT rejects')
def mpcot_rejects(T_):
    e = T_.eng('tuples')
    W, D, n = z3.ZeroExt(44, z3.BitVec('weight', 20)), z3.ZeroExt(58, z3.BitVec('depth', 6)), z3.ZeroExt(33, z3.BitVec('n', 31))
    e.assume(n != W * D)
    e.contracts[FE + 'ISinglePointCot::senderExtend'] = lambda eng, this, a, c: Vec([])
    base = VecS(n, lambda j: z3.Function('base', B64, B128)(bv(j, 64)))
    f = fn(e, MP + 'extend')
    e.invariants[f['q']] = MpInv(e, base, D, 1, W, z3.Function('done', B64, B128), 'sender')
    this = e.alloc(mkobj(e, rec_q(e, MP[:-2]), role_=0, singlePointCot_=iface(e, FE + 'ISinglePointCot'), spcotLength_=z3.BitVec('len', 64), spcotCount_=W, baseCotSize_=D), 'mp')
    alive, _, th = call(e, fn(e, MP + 'senderExtend'), this, [base])
    throws_iff(e, th, e.st.pc if alive else None, True, 'the wrong amount of base material')


TL = FE + 'TenLocalLinearMatrixMultiplier::'
RNDW = z3.Function('random_block', B64, B64, B128)      # call, block


class MaskInv:
    """the mask is all ones and not longer than it has to be"""

    def __init__(self, e, n, rows, src, X):
        self.e, self.n, self.rows, self.src, self.X = e, n, rows, src, X

    def applies(self, L):
        return not L.fr.loops

    def second(self, L):
        return any(n == 'rst' and k in L.fr.vars for k, n in L.names().items())

    def ones(self, m):
        return z3.And(m & (m + 1) == 0, m != 0, z3.Or(m == 1, z3.ULT(z3.LShR(m, 1), z3.Extract(31, 0, self.n))))

    def row(self, blk, i, mask):
        r = z3.BitVecVal(0, 128)
        n32 = z3.Extract(31, 0, self.n)
        for j in range(10):
            w = 10 * i + j
            v = z3.Extract(32 * (w % 4) + 31, 32 * (w % 4), RNDW(blk, c64(w // 4))) & mask
            r = r ^ self.src(z3.simplify(z3.ZeroExt(32, z3.If(z3.UGE(v, n32), v - n32, v))))
        return r

    def check(self, L, when):
        e = self.e
        m = bv(L.get('mask'), 32)
        e.prove('%s: mask' % when, self.ones(m))
        if not self.second(L):
            return
        e.prove('%s: the mask covers the source' % when, z3.ULE(z3.Extract(31, 0, self.n), m))
        x = bv(L.get('index'), 32)
        rst = L.get('rst')
        e.prove('%s: size' % when, eq_i(vlen(rst), self.rows))
        e.prove('%s: scratch' % when, eq_i(vlen(L.get('randomData')), 10))
        if when.startswith('before'):
            e.prove('%s: first row' % when, eq_i(x, z3.BitVecVal(0, 32)))
            return
        e.prove('%s: four rows on' % when, eq_i(z3.ZeroExt(32, x), (self.b + 1) << 2))
        e.prove('%s: one request of ten blocks' % when, eq_i(e.load(self.calls), self.b + 1))
        with each(e, self.b << 2) as j:
            e.prove('%s: earlier rows stay' % when, eq_i(at(rst, j), self.X(j)))
        for i in range(4):
            q = z3.simplify(z3.Concat(z3.Extract(61, 0, self.b), z3.BitVecVal(i, 2)))
            e.prove('%s: row %d adds ten positions drawn from the seed' % (when, i), limp(z3.ULT(q, self.rows), eq_i(at(rst, q), self.row(self.b, i, m))), timeout=60000)

    def havoc(self, L):
        e = self.e
        m = z3.BitVec(fresh_name('mask'), 32)
        if not self.second(L):
            L.set('mask', m)
            e.assume(self.ones(m))
            return
        self.b = z3.ZeroExt(36, z3.BitVec(fresh_name('quad'), 28))
        L.set('index', z3.Extract(31, 0, self.b << 2))
        L.set('rst', VecS(self.rows, lambda j: self.X(bv(j, 64))))
        if any(n == 'randomNumberIndex' and k in L.fr.vars for k, n in L.names().items()):
            L.set('randomNumberIndex', z3.BitVec(fresh_name('junk'), 64))
        L.set('randomData', Vec([z3.BitVec(fresh_name('old'), 128) for _ in range(10)]))
        e.store(self.calls, self.b)
        e.assume(z3.And(z3.ULE(self.b << 2, self.rows + 3)))

    def measure(self, L):
        if self.second(L):
            return self.rows + 4 - z3.ZeroExt(32, bv(L.get('index'), 32))
        return c64(1 << 32) - z3.ZeroExt(32, bv(L.get('mask'), 32))


@task('T04', 'tuples', name='random matrix product')
def ten_local(T_):
    """any sizes: every row is the sum of ten elements whose positions depend on the seed and the sizes only (so the product is
    linear and equal for both parties)"""
    e = T_.eng('tuples')
    f = fn(e, TL + 'multiplyWithRandomMatrix')
    n = z3.ZeroExt(33, z3.BitVec('n', 31))
    rows = z3.ZeroExt(34, z3.BitVec('rows', 30))
    e.assume(z3.And(n != 0, z3.ULT(n, c64(1 << 30)), z3.ULT(rows, c64((1 << 30) - 8))))
    SRC = z3.Function('source', B64, B128)
    inv = MaskInv(e, n, rows, SRC, z3.Function('row', B64, B128))
    inv.calls = e.alloc(c64(0), 'calls')
    e.invariants[f['q']] = inv
    seed = z3.BitVec('seed', 128)
    seeds = []
    e.contracts[UT + 'Aes::expandEncryptionKey'] = lambda eng, this, args, call: (seeds.append(eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]), Rec('keyed', {}))[1]

    def rand(eng, this, args, call):
        c = bv(eng.load(inv.calls), 64)
        v = eng.load(args[0])
        eng.prove('ten blocks', eq_i(vlen(v), 10))
        eng.store(args[0], Vec([RNDW(c, c64(t)) for t in range(10)]))
        eng.store(inv.calls, z3.simplify(c + 1))
    e.contracts[UT + 'AesPrg::getRandomDataInPlace'] = rand
    this = e.alloc(mkobj(e, rec_q(e, TL[:-2])), 'mult')
    out = callv(e, f, this, [seed, rows, VecS(n, lambda j: SRC(bv(j, 64)))], 'multiply')
    e.prove('as many rows as asked for', eq_i(vlen(out), rows))
    e.prove('drawn from the seed', len(seeds) == 1 and eq_i(seeds[0], seed))
    with each(e, rows) as j:
        e.prove('the rows in order', eq_i(at(out, j), inv.X(j)))
    e.cover('reachable')
