"""Ghost contract of the scheduler interface, as the frontend types and everything built on them see it: a wire carries a
plaintext bit (or a batch of bits), every operation returns a fresh wire carrying the operation's plaintext result."""
import z3
from spec import *

IS = 'fbpcf::scheduler::IScheduler::'


def memo(n, get):
    """sequence whose elements are computed once per index term"""
    tab = {}

    def g(j):
        k = j if isinstance(j, int) else ('t', j.get_id())
        if k not in tab:
            tab[k] = (get(j), j)
        return tab[k][0]
    return VecS(n, g)


class Sched:
    def __init__(self, e, kind='Boolean'):
        self.e = e
        self.val = {}          # wire id -> value
        self.inputs = []       # (party, value) handed over as private inputs
        self.opened = []       # (party, wire id)
        self.refs = []         # (+1 / -1, wire id)
        self.secret = {}       # wire id -> is it a secret wire
        e.sched = self
        self.rec = [r for r in e.tu.recs.values() if r['q'] == IS + 'WireId' and 'Boolean' in r['c']][0]['id']
        self.obj = e.alloc(Rec(rec_q(e, IS[:-2])['id'], {}), 'scheduler')
        e.contracts['fbpcf::scheduler::SchedulerKeeper::getScheduler'] = lambda eng, th, a, c: self.obj
        c = e.contracts
        for b in ('', 'Batch'):
            bt = bool(b)
            c[IS + 'privateBooleanInput' + b] = lambda eng, th, a, cl: self.priv(self.arg(a[0]), a[1])
            c[IS + 'publicBooleanInput' + b] = lambda eng, th, a, cl: self.wire(self.arg(a[0]), False)
            c[IS + 'recoverBooleanWire' + b] = lambda eng, th, a, cl: self.wire(self.arg(a[0]), True)
            c[IS + 'openBooleanValueToParty' + b] = lambda eng, th, a, cl: self.open(a[0], a[1])
            c[IS + 'extractBooleanSecretShare' + b] = lambda eng, th, a, cl: self.read(a[0], True, 'extracted wire')
            c[IS + 'getBooleanValue' + b] = lambda eng, th, a, cl: self.read(a[0], False, 'wire whose value is read')
            for k in ('And', 'Xor'):
                op = land if k == 'And' else lxor
                for l, r in (('private', 'Private'), ('private', 'Public'), ('public', 'Public')):
                    c[IS + l + k + r + b] = self.mk2(op, l, r, k)
            for l, r in (('private', 'Private'), ('private', 'Public'), ('public', 'Public')):
                c[IS + l + 'And' + r + 'Composite' + b] = self.mkc(l, r)
            c[IS + 'notPrivate' + b] = lambda eng, th, a, cl: self.inv(a[0], True)
            c[IS + 'notPublic' + b] = lambda eng, th, a, cl: self.inv(a[0], False)
            c[IS + 'increaseReferenceCount' + b] = lambda eng, th, a, cl: self.ref(a[0], 1)
            c[IS + 'decreaseReferenceCount' + b] = lambda eng, th, a, cl: self.ref(a[0], -1)
        c[IS + 'batchingUp'] = lambda eng, th, a, cl: self.batching(self.arg(a[0]))
        c[IS + 'unbatching'] = lambda eng, th, a, cl: self.unbatching(a[0], a[1])
        c[IS + 'getBatchSize'] = lambda eng, th, a, cl: vlen(self.value(a[0]))

    def arg(self, v):
        return self.e.load(v) if isinstance(v, Ptr) else v

    def wid(self, w):
        w = self.arg(w)
        o = w.f['id_']
        if not isinstance(o, Opt) or o.has is not True:
            self.e.prove('a wire that is used has been assigned', False if not isinstance(o, Opt) else o.has)
            raise Dead()
        if is_sym(o.v):
            raise Unsupported('symbolic wire id')
        return o.v if isinstance(o.v, int) else o.v

    def wire(self, v, secret):
        k = 1000 + len(self.val)
        if isinstance(v, (Vec, VecS)):
            n = vlen(v)
        self.val[k] = v
        self.secret[k] = secret
        return Rec(self.rec, {'id_': Opt(True, k)})

    def value(self, w):
        return self.val[self.wid(w)]

    def read(self, w, secret, what):
        k = self.wid(w)
        self.e.prove('%s is %s' % (what, 'secret' if secret else 'public'), self.secret[k] == secret)
        return self.val[k]

    def priv(self, v, party):
        self.inputs.append((party, v))
        return self.wire(v, True)

    def open(self, w, party):
        self.opened.append((party, self.wid(w)))
        return self.wire(self.read(w, True, 'opened wire'), False)

    def ref(self, w, d):
        self.refs.append((d, self.wid(w)))

    def zip(self, op, a, b):
        if isinstance(a, (Vec, VecS)):
            self.e.prove('operands have equal batch sizes', eq_i(vlen(a), vlen(b)), kind='pre')
            if isinstance(a, Vec) and isinstance(b, Vec):
                return Vec([op(x, y) for x, y in zip(a.xs, b.xs)])
            return memo(vlen(a), lambda j: op(at(a, j), at(b, j)))
        return op(a, b)

    def mk2(self, op, l, r, k):
        lp, rp = l == 'private', r == 'Private'

        def m(eng, th, a, cl):
            x, y = self.wid(a[0]), self.wid(a[1])
            self.e.prove('%s gate: the %s operand is declared %s' % (k, 'left', l), self.secret[x] == lp, kind='pre')
            self.e.prove('%s gate: the %s operand is declared %s' % (k, 'right', r), self.secret[y] == rp, kind='pre')
            return self.wire(self.zip(op, self.val[x], self.val[y]), lp or rp)
        return m

    def mkc(self, l, r):
        lp, rp = l == 'private', r == 'Private'

        def m(eng, th, a, cl):
            x = self.wid(a[0])
            ys = self.arg(a[1])
            if not isinstance(ys, Vec):
                raise Unsupported('composite gate over a symbolic number of wires')
            out = []
            for w in ys.xs:
                y = self.wid(w)
                if lp != rp:
                    self.e.prove('composite gate: exactly one side is secret', self.secret[x] != self.secret[y], kind='pre')
                else:
                    self.e.prove('composite gate: operands are declared right', self.secret[x] == lp and self.secret[y] == rp, kind='pre')
                out.append(self.wire(self.zip(land, self.val[x], self.val[y]), lp or rp))
            return Vec(out)
        return m

    def inv(self, w, secret):
        k = self.wid(w)
        self.e.prove('NOT: the operand is declared right', self.secret[k] == secret, kind='pre')
        v = self.val[k]
        if isinstance(v, Vec):
            return self.wire(Vec([lnot(x) for x in v.xs]), secret)
        if isinstance(v, VecS):
            return self.wire(memo(v.n, lambda j: lnot(at(v, j))), secret)
        return self.wire(lnot(v), secret)

    def batching(self, ws):
        vs = [self.value(w) for w in ws.xs]
        s = {self.secret[self.wid(w)] for w in ws.xs}
        self.e.prove('rebatched wires are all secret or all public', len(s) == 1, kind='pre')
        offs = [0]
        for v in vs:
            offs.append(simp(bv(offs[-1], 64) + bv(vlen(v), 64)))

        def get(j):
            r = at(vs[-1], simp(bv(j, 64) - bv(offs[len(vs) - 1], 64)))
            for k in range(len(vs) - 2, -1, -1):
                r = ite_s(z3.ULT(bv(j, 64), bv(offs[k + 1], 64)), at(vs[k], simp(bv(j, 64) - bv(offs[k], 64))), r)
            return r
        return self.wire(VecS(offs[-1], get), s.pop())

    def unbatching(self, w, strat):
        v = self.value(w)
        st = self.e.load(strat)
        if not isinstance(st, Vec):
            raise Unsupported('unbatching into a symbolic number of wires')
        out, off = [], 0
        for x in st.xs:
            n = cast_int(x, 32, 0, 64)
            out.append(self.wire(VecS(n, (lambda o: lambda j: at(v, simp(bv(j, 64) + bv(o, 64))))(off)), self.secret[self.wid(w)]))
            off = simp(bv(off, 64) + bv(n, 64))
        return Vec(out)

    # ------------------------------------------------------------ frontend objects
    def bit(self, cname, v, secret):
        """a Bit object of record cname carrying v"""
        r = self.e.tu.find_rec(cname) if isinstance(cname, (str, tuple)) else cname
        return mkobj(self.e, r, id_=self.wire(v, secret))

    def bitval(self, b):
        return self.value(self.e.load(b).f['id_'] if isinstance(b, Ptr) else b.f['id_'])

    def empty(self, b):
        o = b.f['id_'].f['id_']
        return o.has is False


def bools_to_bv(bs):
    """little-endian list of booleans to a bit-vector"""
    xs = [z3.If(zb(b), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for b in bs]
    return xs[0] if len(xs) == 1 else z3.Concat(*reversed(xs))


def bit_of(x, i):
    return z3.Extract(i, i, x) == 1
