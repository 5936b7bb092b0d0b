"""Schedulers, gates, gate keeper, wire keeper, allocators: every operation carries the plaintext operation, gates run in an order
that respects their inputs, wires live exactly as long as somebody holds them."""
import z3
from spec import *
from sched_ghost import memo

SC = 'fbpcf::scheduler::'
WKI = SC + 'IWireKeeper::'
ENG = 'fbpcf::engine::ISecretShareEngine::'
GKI = SC + 'IGateKeeper::'
B64 = z3.BitVecSort(64)


def fresh_seq(e, n, sort, name):
    F = z3.Function(fresh_name(name), B64, sort)
    return memo(n, lambda j: F(bv(j, 64)))


class World:
    """ghost wire keepers and engines of N parties; the parties run one after the other (self.cur)"""

    def __init__(self, e, N, me=None):
        self.e, self.N = e, N
        self.only = me
        self.wk = [dict() for _ in range(N)]      # (kind, id) -> cell
        self.next = [0] * N
        self.calls = [[] for _ in range(N)]       # engine operations, in order
        self.sched = [dict() for _ in range(N)]   # kind -> list of scheduled operands
        self.done = [dict() for _ in range(N)]    # kind -> results of the last execution
        self.log = [[] for _ in range(N)]         # what happened, in order
        self.execs = [0] * N
        self.facts = []                           # functions of an index: what openings mean
        self.cur = 0
        self.opened = []
        self.rB = self.wrec('Boolean')
        self.rA = self.wrec('Arithmetic')
        self.install()

    def wrec(self, k):
        return [r for r in self.e.tu.recs.values() if r['q'] == SC + 'IScheduler::WireId' and k in r['c']][0]['id']

    def obj(self, q):
        return self.e.alloc(Rec(rec_q(self.e, q)['id'], {}), 'iface')

    def arg(self, v):
        return self.e.load(v) if isinstance(v, Ptr) else v

    # ------------------------------------------------------------ wires
    def wid(self, w):
        w = self.arg(w)
        o = w.f['id_']
        if not isinstance(o, Opt) or o.has is not True:
            self.e.prove('a wire that is used has been assigned', False if not isinstance(o, Opt) else o.has)
            raise Dead()
        if is_sym(o.v):
            raise Unsupported('symbolic wire id')
        return (self.arith(w), int(o.v))

    def arith(self, w):
        return w.t == self.rA

    def new(self, arith, batch, v, level=0, ebs=None, p=None):
        p = self.cur if p is None else p
        self.next[p] += 1
        k = 500 + self.next[p]
        self.wk[p][(arith, k)] = self.e.alloc(Rec('wire', {'v': v, 'level': level, 'ebs': 0 if ebs is None else ebs, 'refs': 1, 'batch': batch}), 'wire')
        return Rec(self.rA if arith else self.rB, {'id_': Opt(True, k)})

    def cell(self, w, p=None):
        p = self.cur if p is None else p
        k = self.wid(w)
        if k not in self.wk[p]:
            raise Unsupported('unknown wire')
        return self.wk[p][k]

    def get(self, w, f='v', p=None):
        return self.e.load(self.cell(w, p)).f[f]

    def put(self, w, f, x):
        c = self.cell(w)
        self.e.store(c, self.e.load(c).with_(f, x))

    def use(self, w, batch, f='v'):
        r = self.e.load(self.cell(w))
        self.e.prove('the wire is accessed as a %s' % ('batch' if r.f['batch'] else 'scalar'), r.f['batch'] == batch, kind='pre')
        self.alive(r, 'a wire that is accessed')
        return r.f[f]

    def alive(self, r, what):
        self.e.prove('%s has not been released' % what, lnot(eq_i(r.f['refs'], 0)), kind='pre')

    def ref(self, w, d, batch):
        r = self.e.load(self.cell(w))
        self.e.prove('the wire is counted as a %s' % ('batch' if r.f['batch'] else 'scalar'), r.f['batch'] == batch, kind='pre')
        self.alive(r, 'a counted wire')
        self.put(w, 'refs', r.f['refs'] + d)

    def install(self):
        c = self.e.contracts

        def kind(cl, k=0):
            # Boolean or Arithmetic overload?
            n = self.e.tu.tname(cl.f['ps'][k]['t'])
            return 'Arithmetic' in n

        def alloc(arith, batch):
            if batch:
                return lambda e, th, a, cl: self.new(arith, True, self.arg(a[0]), a[2], a[1])
            return lambda e, th, a, cl: self.new(arith, False, a[0], a[1])
        for nm, ar in (('Boolean', False), ('Integer', True)):
            for b in ('', 'Batch'):
                bt = bool(b)
                c[WKI + 'allocate%s%sValue' % (b, nm)] = alloc(ar, bt)
                if bt:
                    c[WKI + 'getBatch%sValue' % nm] = lambda e, th, a, cl: self.valcell(a[0])
                    c[WKI + 'getWritableBatch%sValue' % nm] = lambda e, th, a, cl: self.valcell(a[0])
                    c[WKI + 'setBatch%sValue' % nm] = lambda e, th, a, cl: self.setv(a[0], self.arg(a[1]), True)
                else:
                    c[WKI + 'get%sValue' % nm] = lambda e, th, a, cl: self.use(a[0], False)
                    c[WKI + 'set%sValue' % nm] = lambda e, th, a, cl: self.setv(a[0], a[1], False)
        for b in ('', 'Batch'):
            bt = bool(b)
            c[WKI + 'get%sFirstAvailableLevel' % b] = (lambda bt: lambda e, th, a, cl: self.use(a[0], bt, 'level'))(bt)
            c[WKI + 'set%sFirstAvailableLevel' % b] = (lambda bt: lambda e, th, a, cl: (self.use(a[0], bt, 'level'), self.put(a[0], 'level', a[1]))[1])(bt)
            c[WKI + 'increase%sReferenceCount' % b] = (lambda bt: lambda e, th, a, cl: self.ref(a[0], 1, bt))(bt)
            c[WKI + 'decrease%sReferenceCount' % b] = (lambda bt: lambda e, th, a, cl: self.ref(a[0], -1, bt))(bt)
        c[WKI + 'getBatchSize'] = lambda e, th, a, cl: self.use(a[0], True, 'ebs')
        # ---------------- engine: local operations (E01: each party's own computation)
        loc = {
            'SymmetricXOR': ('bb', lambda x, y: lxor(x, y)), 'SymmetricNOT': ('b', lambda x: lnot(x)), 'FreeAND': ('bb', lambda x, y: land(x, y)),
            'SymmetricPlus': ('ii', lambda x, y: x + y), 'SymmetricNeg': ('i', lambda x: -x), 'FreeMult': ('ii', lambda x, y: x * y),
        }
        for nm, (sh, op) in loc.items():
            for b in ('', 'Batch'):
                c[ENG + 'compute' + b + nm] = (lambda nm, op, b: lambda e, th, a, cl: self.local(nm, op, a))(nm, op, b)
        # operations with a public side: the result's shares reconstruct to the plaintext result, nothing else is promised
        asym = {'AsymmetricXOR': ('b', lambda x, y: lxor(x, y), 1), 'AsymmetricNOT': ('b', lambda x: lnot(x), 0), 'AsymmetricPlus': ('i', lambda x, y: x + y, 1)}
        for nm, (k, op, pub) in asym.items():
            for b in ('', 'Batch'):
                c[ENG + 'compute' + b + nm] = (lambda nm, op, k, pub: lambda e, th, a, cl: self.shared(nm, op, a, k, bool(pub)))(nm, op, k, pub)
        for nm, k in (('AND', 'b'), ('Mult', 'i')):
            c[ENG + 'schedule' + nm] = (lambda nm: lambda e, th, a, cl: self.schedule(nm, a))(nm)
            c[ENG + 'scheduleBatch' + nm] = (lambda nm: lambda e, th, a, cl: self.schedule('Batch' + nm, a))(nm)
            c[ENG + 'get%sExecutionResult' % nm] = (lambda nm: lambda e, th, a, cl: self.result(nm, a[0]))(nm)
            c[ENG + 'getBatch%sExecutionResult' % nm] = (lambda nm: lambda e, th, a, cl: self.result('Batch' + nm, a[0], True))(nm)
        c[ENG + 'scheduleCompositeAND'] = lambda e, th, a, cl: self.schedule('CompositeAND', a)
        c[ENG + 'scheduleBatchCompositeAND'] = lambda e, th, a, cl: self.schedule('BatchCompositeAND', a)
        c[ENG + 'getCompositeANDExecutionResult'] = lambda e, th, a, cl: self.result('CompositeAND', a[0], True)
        c[ENG + 'getBatchCompositeANDExecutionResult'] = lambda e, th, a, cl: self.result('BatchCompositeAND', a[0], True)
        c[ENG + 'computeBatchANDImmediately'] = lambda e, th, a, cl: self.shared('AND now', lambda x, y: land(x, y), a, 'b', False)
        c[ENG + 'computeBatchMultImmediately'] = lambda e, th, a, cl: self.shared('Mult now', lambda x, y: x * y, a, 'i', False)
        c[ENG + 'executeScheduledOperations'] = lambda e, th, a, cl: self.execute()
        c[ENG + 'revealToParty'] = lambda e, th, a, cl: self.reveal(a[0], self.arg(a[1]), self.e.types[cl.f['ret']])
        for nm, k in (('setInput', 'b'), ('setBatchInput', 'b'), ('setIntegerInput', 'i'), ('setBatchIntegerInput', 'i')):
            c[ENG + nm] = (lambda nm, k: lambda e, th, a, cl: self.inp(nm, a[0], a[1], k))(nm, k)

    def valcell(self, w):
        self.use(w, True)
        c = self.cell(w)
        return self.e.padd(c, 'v')

    def setv(self, w, v, batch):
        self.use(w, batch)
        self.put(w, 'v', v)

    # ------------------------------------------------------------ engine
    def vals(self, a):
        return [self.arg(x) for x in a]

    def same_size(self, vs):
        """batches of different sizes are rejected by the engine (E01, E03)"""
        e = self.e
        b = [v for v in vs if isinstance(v, (Vec, VecS))]
        for x in b[1:]:
            same = eq_i(vlen(b[0]), vlen(x))
            if same is not True:
                e.fork(lnot(same), lambda: e.throw('std::runtime_error'), lambda: None)

    def zip(self, op, vs):
        if not any(isinstance(v, (Vec, VecS)) for v in vs):
            return op(*vs)
        n = vlen(vs[0])
        if isinstance(n, int):
            return Vec([op(*[at(v, i) for v in vs]) for i in range(n)])
        return memo(n, lambda j: op(*[at(v, j) for v in vs]))

    def local(self, nm, op, a):
        vs = self.vals(a)
        self.same_size(vs)
        self.log[self.cur].append(('local', nm))
        return self.zip(op, vs)

    def comb(self, k, xs):
        return xor_all(xs) if k == 'b' else add_all(xs)

    def unc(self, k, tot, xs):
        r = tot
        for x in xs:
            r = lxor(r, x) if k == 'b' else r - x
        return r

    def sym_like(self, v, k, nm):
        s = z3.BoolSort() if k == 'b' else B64
        if isinstance(v, (Vec, VecS)):
            n = vlen(v)
            F = z3.Function(fresh_name(nm), B64, s)
            if isinstance(n, int):
                return Vec([F(z3.BitVecVal(i, 64)) for i in range(n)])
            return memo(n, lambda j: F(bv(j, 64)))
        return z3.Const(fresh_name(nm), s)

    def join(self, i, nm, op, k, pub, vs, get):
        """the i-th joint operation: operands of this party are vs; the last party's result completes the reconstruction"""
        e, p = self.e, self.cur
        if p < self.N - 1:
            r = self.sym_like(vs[0], k, 'r_%s_p%d' % (nm.replace(' ', ''), p))
        else:
            others = [get(q) for q in range(self.N - 1)]
            for q in range(self.N - 1):
                e.prove('%s: the parties agree on the operation' % nm, others[q][0] == nm, kind='pre')
                for x, y in zip(others[q][1], vs):
                    if isinstance(x, (Vec, VecS)):
                        e.prove('%s: the parties agree on the size' % nm, eq_i(vlen(x), vlen(y)), kind='pre')
            if pub:
                for q in range(self.N - 1):
                    x, y = others[q][1][1], vs[1]
                    if isinstance(x, (Vec, VecS)):
                        for j in each_of(e, vlen(x)):
                            e.prove('%s: the public operand is the same everywhere' % nm, eq_i(at(x, j), at(y, j)), kind='pre')
                    else:
                        e.prove('%s: the public operand is the same everywhere' % nm, eq_i(x, y), kind='pre')

            def total(*ix):
                g = (lambda v: at(v, ix[0])) if ix else (lambda v: v)
                xs = []
                for m in range(len(vs)):
                    if pub and m == 1:
                        xs.append(g(vs[1]))
                    else:
                        xs.append(self.comb(k, [g(o[1][m]) for o in others] + [g(vs[m])]))
                return self.unc(k, op(*xs), [g(o[2]) for o in others])
            if isinstance(vs[0], (Vec, VecS)):
                n = vlen(vs[0])
                r = Vec([total(z3.BitVecVal(i, 64)) for i in range(n)]) if isinstance(n, int) else memo(n, total)
            else:
                r = total()
        return r

    def shared(self, nm, op, a, k, pub):
        vs = self.vals(a)
        self.same_size(vs)
        p, i = self.cur, len(self.calls[self.cur])
        self.log[p].append(('joint', nm))
        r = self.join(i, nm, op, k, pub, vs, lambda q: self.calls[q][i])
        self.calls[p].append((nm, vs, r))
        return r

    def schedule(self, nm, a):
        vs = self.vals(a)
        l = self.sched[self.cur].setdefault(nm, [])
        if nm == 'BatchCompositeAND':
            for r in vs[1].xs:
                self.same_size([vs[0], r])
        else:
            if nm != 'CompositeAND':
                self.same_size(vs)
        l.append(vs)
        self.log[self.cur].append(('schedule', nm))
        return len(l) - 1

    def execute(self):
        p = self.cur
        out = {}
        x = self.execs[p]
        self.execs[p] += 1
        self.log[p].append(('execute',))
        hist = self.__dict__.setdefault('hist', {})
        for nm, l in self.sched[p].items():
            k = 'i' if 'Mult' in nm else 'b'
            op = (lambda a, b: a * b) if k == 'i' else (lambda a, b: land(a, b))
            rs = []
            for i, vs in enumerate(l):
                key = (x, nm, i)
                def one(sub, vs2):
                    h = hist.setdefault(key + sub, {})
                    r = self.join(i, nm, op, k, False, vs2, lambda q: h[q])
                    h[p] = (nm, vs2, r)
                    return r
                if nm == 'CompositeAND':
                    rs.append(Vec([one((m,), [vs[0], y]) for m, y in enumerate(vs[1].xs)]))
                elif nm == 'BatchCompositeAND':
                    rs.append(Vec([one((m,), [vs[0], y]) for m, y in enumerate(vs[1].xs)]))
                else:
                    rs.append(one((), vs))
            out[nm] = rs
        self.done[p] = out
        self.sched[p] = {}

    def result(self, nm, ix, ref=False):
        p = self.cur
        l = self.done[p].get(nm, [])
        if is_sym(ix) or not isinstance(ix, int):
            ix = simp(ix)
            if is_sym(ix):
                raise Unsupported('symbolic result index')
        self.e.prove('%s: the result that is read belongs to the last execution' % nm, ix < len(l), kind='pre')
        if ix >= len(l):
            raise Dead()
        v = l[ix]
        self.log[p].append(('result', nm, ix))
        return self.e.alloc(v, 'res') if ref else v

    def reveal(self, party, v, rt):
        """the designated party learns the reconstruction, the others a vector of the same size"""
        e, p = self.e, self.cur
        isb = e.types[rt['a'][0]['t']]['k'] == 'bool'
        k = 'b' if isb else 'i'
        s = z3.BoolSort() if isb else B64
        i = sum(1 for o in self.log[p] if o[0] == 'reveal')
        self.log[p].append(('reveal', party, isb, v))
        while len(self.opened) <= i:
            self.opened.append({'k': k, 'to': party, 'sent': {}, 'O': z3.Function(fresh_name('opened'), B64, s)})
        o = self.opened[i]
        e.prove('reveal: the parties open to the same party, in the same order', land(o['k'] == k, eq_i(o['to'], party)), kind='pre')
        o['sent'][p] = v
        n = vlen(v)
        O = o['O']
        D = z3.Function(fresh_name('dummy'), B64, s)
        mine = eq_i(party, self.my(p))
        g = lambda j: ite_s(mine, O(bv(j, 64)), D(bv(j, 64))) if is_sym(mine) else (O if mine is True else D)(bv(j, 64))
        if isinstance(n, int):
            return Vec([g(z3.BitVecVal(i2, 64)) for i2 in range(n)])
        return memo(n, g)

    def my(self, p):
        return p if self.only is None else self.only

    def instantiate(self, goal):
        e = self.e
        for o in self.opened:
            if len(o['sent']) < self.N:
                continue
            for a in apps_of([goal], o['O']):
                t = a.arg(0)
                xs = [at(o['sent'][q], t) for q in range(self.N)]
                e.fact(limp(z3.ULT(t, bv(vlen(o['sent'][0]), 64)), eq_i(a, self.comb(o['k'], xs))))

    def prove(self, name, goal, **kw):
        self.instantiate(zb(goal))
        return self.e.prove(name, goal, **kw)

    def inp(self, nm, party, v, k):
        """shares of the owner's value"""
        e, p = self.e, self.cur
        v = self.arg(v)
        if isinstance(v, Opt):
            v = v.v
        i = len(self.calls[p])
        self.log[p].append(('input', nm))
        if p < self.N - 1:
            r = self.sym_like(v, k, 'in_p%d' % p)
        else:
            for q in range(self.N - 1):
                e.prove('input: the parties agree on the owner', eq_i(self.calls[q][i][3], party), kind='pre')
                if isinstance(v, (Vec, VecS)):
                    e.prove('input: the parties agree on the size', eq_i(vlen(self.calls[q][i][1][0]), vlen(v)), kind='pre')
            def tot(*ix):
                g = (lambda x: at(x, ix[0])) if ix else (lambda x: x)
                own = [g(self.calls[q][i][1][0]) for q in range(self.N - 1)] + [g(v)]
                t = own[0]
                for q in range(1, self.N):
                    t = ite_s(eq_i(party, q), own[q], t)
                return self.unc(k, t, [g(self.calls[q][i][2]) for q in range(self.N - 1)])
            if isinstance(v, (Vec, VecS)):
                n = vlen(v)
                r = Vec([tot(z3.BitVecVal(i2, 64)) for i2 in range(n)]) if isinstance(n, int) else memo(n, tot)
            else:
                r = tot()
        self.calls[p].append((nm, [v], r, party))
        return r


# ------------------------------------------------------------------ operations of the interface and what they mean
def OPS():
    o = {}
    for k, K, ops in (('b', 'Boolean', {'And': lambda x, y: land(x, y), 'Xor': lambda x, y: lxor(x, y)}), ('i', 'Arithmetic', {'Mult': lambda x, y: x * y, 'Plus': lambda x, y: x + y})):
        for nm, op in ops.items():
            for l, r in (('private', 'Private'), ('private', 'Public'), ('public', 'Public')):
                o[l + nm + r] = (k, (l == 'private', r == 'Private'), op)
    for s in ('Private', 'Public'):
        o['not' + s] = ('b', (s == 'Private',), lambda x: lnot(x))
        o['neg' + s] = ('i', (s == 'Private',), lambda x: -x)
    return o


OPS = OPS()
SCHEDS = {'Plaintext': 1, 'Eager': 2, 'Lazy': 2}


def operand(w, k, secret, batch, n, p, nm):
    s = z3.BoolSort() if k == 'b' else B64
    who = '' if not secret else '_p%d' % p
    if batch:
        F = z3.Function('%s%s' % (nm, who), B64, s)
        return memo(n, lambda j: F(bv(j, 64)))
    return z3.Const('%s%s' % (nm, who), s)


def sched_obj(e, w, kind, gate=None):
    r = rec_q(e, SC + {'Plaintext': 'PlaintextScheduler', 'Eager': 'EagerScheduler', 'Lazy': 'LazyScheduler', 'NetworkPlaintext': 'NetworkPlaintextScheduler'}[kind])
    f = {'wireKeeper_': w.obj(WKI[:-2])}
    if has_field(e, r, 'engine_'):
        f['engine_'] = w.obj(ENG[:-2])
    if gate is not None:
        f['gateKeeper_'] = gate
    f['freeGates_'] = z3.BitVec('freeGates', 64)
    f['nonFreeGates_'] = z3.BitVec('nonFreeGates', 64)
    return e.alloc(mkobj(e, r, **f), 'scheduler')


def value_of(w, ids, secret, k, j=None):
    """plaintext carried by a wire over all parties"""
    vs = [w.get(i, p=p) for p, i in enumerate(ids)]
    if j is not None:
        vs = [at(v, j) for v in vs]
    return w.comb(k, vs) if secret and w.N > 1 else vs[0]


def check_out(w, what, ids, secret, k, batch, n, want):
    e = w.e
    if batch:
        for p, i in enumerate(ids):
            e.prove('%s: size of the result' % what, eq_i(vlen(w.get(i, p=p)), n))
            e.prove('%s: recorded batch size of the result' % what, eq_i(w.get(i, 'ebs', p=p), n))
        with each(e, n) as j:
            if secret or w.N == 1:
                w.prove('%s: value of the result' % what, eq_i(value_of(w, ids, secret, k, j), want(j)))
            else:
                for p, i in enumerate(ids):
                    w.prove('%s: value of the result' % what, eq_i(at(w.get(i, p=p), j), want(j)))
    else:
        if secret or w.N == 1:
            w.prove('%s: value of the result' % what, eq_i(value_of(w, ids, secret, k), want()))
        else:
            for p, i in enumerate(ids):
                w.prove('%s: value of the result' % what, eq_i(w.get(i, p=p), want()))


def direct_op(T_, kind, op):
    """one operation of a scheduler that computes at once, scalar and batch"""
    k, secs, f = OPS[op]
    for batch in (False, True):
        e = T_.eng('scheduler')
        N = SCHEDS[kind]
        w = World(e, N)
        m = fn(e, SC + kind + 'Scheduler::' + op + ('Batch' if batch else ''))
        n = z3.BitVec('n', 64)
        m2 = z3.BitVec('m', 64)
        e.fact(z3.ULT(n, 1 << 24))
        e.fact(z3.ULT(m2, 1 << 24))
        sz = [n, m2]
        outs, ins = [], []
        for p in range(N):
            w.cur = p
            vs = [operand(w, k, s, batch, sz[q], p, 'x%d' % q) for q, s in enumerate(secs)]
            ids = [w.new(k == 'i', batch, v, 0, sz[q] if batch else None) for q, v in enumerate(vs)]
            ins.append(ids)
            base = e.st.pc
            alive, val, th = call(e, m, sched_obj(e, w, kind), ids)
            diff = lnot(eq_i(n, m2)) if batch and len(secs) == 2 else False
            throws_iff(e, th, e.st.pc if alive else None, diff, op)
            if not alive:
                raise Dead()
            outs.append(val)
        for p in range(N):
            w.cur = p
            for i in ins[p]:
                e.prove('%s leaves its operands alone' % op, eq_i(w.get(i, 'refs', p=p), 1))

        def want(*j):
            xs = []
            for q, s in enumerate(secs):
                xs.append(value_of(w, [ins[p][q] for p in range(N)], s, k, *j))
            return f(*xs)
        check_out(w, op, outs, any(secs), k, batch, n, want)
        e.cover('reachable')


for _o in OPS:
    for _k in ('Plaintext', 'Eager'):
        task('S01', 'scheduler', name='%s scheduler' % _k.lower(), cases=[(_k, _o)])(direct_op)


# ------------------------------------------------------------------ composite gates, rebatching, inputs, outputs
COMPO = {'privateAndPrivateComposite': (True, True), 'privateAndPublicComposite': (True, False), 'publicAndPublicComposite': (False, False)}


def direct_composite(T_, kind, op, m):
    ls, rs = COMPO[op]
    for batch in (False, True):
        e = T_.eng('scheduler')
        N = SCHEDS[kind]
        w = World(e, N)
        f = fn(e, SC + kind + 'Scheduler::' + op + ('Batch' if batch else ''))
        n = z3.BitVec('n', 64)
        e.fact(z3.ULT(n, 1 << 24))
        outs, ins = [], []
        for p in range(N):
            w.cur = p
            l = w.new(False, batch, operand(w, 'b', ls, batch, n, p, 'l'), 0, n if batch else None)
            ys = [w.new(False, batch, operand(w, 'b', rs, batch, n, p, 'r%d' % q), 0, n if batch else None) for q in range(m)]
            ins.append((l, ys))
            val = callv(e, f, sched_obj(e, w, kind), [l, Vec(ys)], op)
            e.prove('%s: one result per right operand' % op, eq_i(vlen(val), m))
            outs.append(val)
        for q in range(m):
            def want(*j):
                return land(value_of(w, [i[0] for i in ins], ls, 'b', *j), value_of(w, [i[1][q] for i in ins], rs, 'b', *j))
            check_out(w, op, [o.xs[q] for o in outs], ls or rs, 'b', batch, n, want)
        e.cover('reachable')


for _o in COMPO:
    for _k in ('Plaintext', 'Eager'):
        for _m in (1, 3):
            task('S01', 'scheduler', name='%s scheduler composite' % _k.lower(), cases=[(_k, _o, _m)], bounded='%d right operands, any batch size' % _m)(direct_composite)


def direct_rebatch(T_, kind, m):
    """batchingUp concatenates, unbatching cuts; any sizes"""
    e = T_.eng('scheduler')
    w = World(e, 1)
    up = fn(e, SC + kind + 'Scheduler::batchingUp')
    ns = [z3.BitVec('n%d' % q, 64) for q in range(m)]
    for n in ns:
        e.fact(z3.ULT(n, 1 << 24))
    vs = [operand(w, 'b', False, True, ns[q], 0, 'x%d' % q) for q in range(m)]
    ids = [w.new(False, True, v, 0, ns[q]) for q, v in enumerate(vs)]
    out = callv(e, up, sched_obj(e, w, kind), [Vec(ids)], 'batchingUp')
    tot = simp(sum(ns[1:], ns[0]))
    r = w.get(out)
    e.prove('batchingUp: size', eq_i(vlen(r), tot))
    e.prove('batchingUp: recorded batch size', eq_i(w.get(out, 'ebs'), tot))
    for q in range(m):
        off = simp(sum(ns[:q], z3.BitVecVal(0, 64)))
        with each(e, ns[q]) as j:
            e.prove('batchingUp: elements in order', eq_i(at(r, simp(off + j)), at(vs[q], j)))
    e.cover('reachable')
    e = T_.eng('scheduler')
    w = World(e, 1)
    un = fn(e, SC + kind + 'Scheduler::unbatching')
    ns = [z3.BitVec('u%d' % q, 32) for q in range(m)]
    tot = z3.BitVec('total', 64)
    e.fact(z3.ULT(tot, 1 << 24))
    for n in ns:
        e.fact(z3.ULT(n, 1 << 24))
    n64 = [z3.ZeroExt(32, n) for n in ns]
    v = operand(w, 'b', False, True, tot, 0, 'x')
    i = w.new(False, True, v, 0, tot)
    s = simp(sum(n64[1:], n64[0]))
    st = e.alloc(Vec(list(ns)), 'strategy')
    alive, out, th = call(e, un, sched_obj(e, w, kind), [i, st])
    throws_iff(e, th, e.st.pc if alive else None, z3.UGT(s, tot), 'unbatching')
    e.prove('unbatching: number of results', eq_i(vlen(out), m))
    for q in range(m):
        r = w.get(out.xs[q])
        e.prove('unbatching: size', eq_i(vlen(r), n64[q]))
        e.prove('unbatching: recorded batch size', eq_i(w.get(out.xs[q], 'ebs'), n64[q]))
        off = simp(sum(n64[:q], z3.BitVecVal(0, 64)))
        with each(e, n64[q]) as j:
            e.prove('unbatching: elements in order', eq_i(at(r, j), at(v, simp(off + j))))
    e.cover('reachable')


for _k in ('Plaintext', 'Eager'):
    for _m in (1, 2, 3):
        task('S01', 'scheduler', name='%s scheduler rebatching' % _k.lower(), cases=[(_k, _m)], bounded='%d batches of any size' % _m)(direct_rebatch)


def direct_io(T_, kind):
    """private input, public input, recovery from shares, opening to one party, extraction, reading"""
    for k, K in (('b', 'Boolean'), ('i', 'Integer')):
        for batch in (False, True):
            B = 'Batch' if batch else ''
            N = SCHEDS[kind]
            n = z3.BitVec('n', 64)

            def fresh():
                e = T_.eng('scheduler')
                e.fact(z3.ULT(n, 1 << 24))
                return e, World(e, N)
            # private input
            for owner in range(N):
                e, w = fresh()
                f = fn(e, SC + kind + 'Scheduler::private%sInput%s' % (K, B))
                outs, vs = [], []
                for p in range(N):
                    w.cur = p
                    v = operand(w, k, True, batch, n, p, 'in')
                    vs.append(v)
                    outs.append(callv(e, f, sched_obj(e, w, kind), [v, owner], 'private input'))
                check_out(w, 'private %s input' % K, outs, True, k, batch, n, (lambda *j: at(vs[owner], j[0]) if batch else vs[owner]))
                e.cover('reachable')
            # public input
            e, w = fresh()
            f = fn(e, SC + kind + 'Scheduler::public%sInput%s' % (K, B))
            outs = []
            v = operand(w, k, False, batch, n, 0, 'pub')
            for p in range(N):
                w.cur = p
                outs.append(callv(e, f, sched_obj(e, w, kind), [v], 'public input'))
            check_out(w, 'public %s input' % K, outs, False, k, batch, n, (lambda *j: at(v, j[0]) if batch else v))
            # recover: the wire's shares are the shares handed in; extract and get hand the wire's value back
            e, w = fresh()
            f = fn(e, SC + kind + 'Scheduler::recover%sWire%s' % (K, B))
            ex = fn(e, SC + kind + 'Scheduler::extract%sSecretShare%s' % (K, B))
            gt = fn(e, SC + kind + 'Scheduler::get%sValue%s' % (K, B))
            for p in range(N):
                w.cur = p
                v = operand(w, k, True, batch, n, p, 'share')
                s = sched_obj(e, w, kind)
                o = callv(e, f, s, [v], 'recovery')
                for g, nm in ((ex, 'extraction'), (gt, 'reading')):
                    got = callv(e, g, s, [o], nm)
                    if batch:
                        e.prove('%s after recovery: size' % nm, eq_i(vlen(got), n))
                        with each(e, n) as j:
                            e.prove('%s after recovery gives the share back' % nm, eq_i(at(got, j), at(v, j)))
                    else:
                        e.prove('%s after recovery gives the share back' % nm, eq_i(got, v))
                if batch:
                    e.prove('recovery: recorded batch size', eq_i(w.get(o, 'ebs'), n))
            # open to a party
            for to in range(N):
                e, w = fresh()
                f = fn(e, SC + kind + 'Scheduler::open%sValueToParty%s' % (K, B))
                outs, ids = [], []
                for p in range(N):
                    w.cur = p
                    i = w.new(k == 'i', batch, operand(w, k, True, batch, n, p, 'x'), 0, n if batch else None)
                    ids.append(i)
                    outs.append(callv(e, f, sched_obj(e, w, kind), [i, to], 'opening'))
                for p in range(N):
                    if batch:
                        e.prove('opening: size', eq_i(vlen(w.get(outs[p], p=p)), n))
                        e.prove('opening: recorded batch size', eq_i(w.get(outs[p], 'ebs', p=p), n))
                if batch:
                    with each(e, n) as j:
                        w.prove('opening: the party it is opened to learns the value', eq_i(at(w.get(outs[to], p=to), j), value_of(w, ids, True, k, j)))
                else:
                    w.prove('opening: the party it is opened to learns the value', eq_i(w.get(outs[to], p=to), value_of(w, ids, True, k)))
                e.cover('reachable')


for _k in ('Plaintext', 'Eager'):
    task('S01', 'scheduler', name='%s scheduler input output' % _k.lower(), cases=[(_k,)])(direct_io)


def direct_refs(T_, kind):
    """reference counting is passed on to the wire keeper, for the right kind of wire"""
    for k, K in (('b', 'Boolean'), ('i', 'Arithmetic')):
        for batch in (False, True):
            for inc in (True, False):
                e = T_.eng('scheduler')
                w = World(e, 1)
                f = fn(e, SC + kind + 'Scheduler::%sReferenceCount%s' % ('increase' if inc else 'decrease', 'Batch' if batch else ''), pred=lambda g: K in e.tu.tname(g['ps'][0]['t']))
                n = z3.BitVec('n', 64)
                i = w.new(k == 'i', batch, operand(w, k, False, batch, n, 0, 'x'), 0, n if batch else None)
                w.put(i, 'refs', 2)
                callv(e, f, sched_obj(e, w, kind, gate=w.obj(GKI[:-2]) if kind == 'Lazy' else None), [i], 'counting')
                e.prove('reference count of the wire', eq_i(w.get(i, 'refs'), 3 if inc else 1))
                if batch:
                    g = fn(e, SC + kind + 'Scheduler::getBatchSize', pred=lambda g: K in e.tu.tname(g['ps'][0]['t']))
                    e.prove('batch size of the wire', eq_i(callv(e, g, sched_obj(e, w, kind, gate=w.obj(GKI[:-2]) if kind == 'Lazy' else None), [i], 'batch size'), n))


for _k in ('Plaintext', 'Eager', 'Lazy'):
    task(['S01', 'S02'], 'scheduler', name='%s scheduler counting' % _k.lower(), cases=[(_k,)])(direct_refs)


# ------------------------------------------------------------------ plaintext over a network: parties tell each other their inputs
AGENT = 'fbpcf::engine::communication::IPartyCommunicationAgent::'


class Net:
    """reliable ordered channels between every two parties"""

    def __init__(self, w):
        self.w, self.e = w, w.e
        self.sent, self.recv = {}, {}
        c = self.e.contracts
        for nm, k in (('SingleT', 'b'), ('Bool', 'b'), ('Int64', 'i')):
            c[AGENT + 'send' + nm] = (lambda nm, k: lambda e, th, a, cl: self.send(th, self.w.arg(a[0]), nm))(nm, k)
            c[AGENT + 'receive' + nm] = (lambda nm, k: lambda e, th, a, cl: self.receive(th, a[0] if a else None, nm, k))(nm, k)
        self.peer = {}

    def agents(self, me):
        es = []
        for q in range(self.w.N):
            if q != me:
                o = self.e.alloc(Rec(rec_q(self.e, AGENT[:-2])['id'], {}), 'agent')
                self.peer[o.loc] = (me, q)
                es.append((True, q, o))
        return MapV(es)

    def ends(self, th):
        return self.peer[th.loc]

    def send(self, th, v, nm):
        a, b = self.ends(th)
        self.sent.setdefault((a, b), []).append((nm, v))

    def receive(self, th, n, nm, k):
        me, q = self.ends(th)
        l = self.recv.setdefault((q, me), [])
        s = z3.BoolSort() if k == 'b' else B64
        O = z3.Function(fresh_name('received'), B64, s)
        if n is None:
            l.append((nm, None, O))
            return O(z3.BitVecVal(0, 64))
        l.append((nm, n, O))
        if isinstance(n, int):
            return Vec([O(z3.BitVecVal(i, 64)) for i in range(n)])
        return VecS(n, lambda j: O(bv(j, 64)))

    def settle(self):
        """messages arrive in the order they were sent, and match what is expected"""
        e = self.e
        for ch in set(self.sent) | set(self.recv):
            s, r = self.sent.get(ch, []), self.recv.get(ch, [])
            e.prove('every message is received', len(s) == len(r))
            for (nm, v), (nm2, n, O) in zip(s, r):
                e.prove('the receiver expects this kind of message', nm == nm2)
                if n is not None:
                    e.prove('the receiver expects as many values as are sent', eq_i(vlen(v), n))

    def prove(self, name, goal):
        e = self.e
        for ch, r in self.recv.items():
            for (nm, v), (_, n, O) in zip(self.sent.get(ch, []), r):
                for a in apps_of([zb(goal)], O):
                    e.fact(eq_i(a, v if n is None else at(v, a.arg(0))))
        e.prove(name, goal)


def network_io(T_, N):
    kind = 'NetworkPlaintext'
    for k, K in (('b', 'Boolean'), ('i', 'Integer')):
        for batch in (False, True):
            B = 'Batch' if batch else ''
            n = z3.BitVec('n', 64)
            for owner in list(range(N)) + [None]:
                e = T_.eng('scheduler')
                e.fact(z3.ULT(n, 1 << 24))
                w = World(e, N)
                net = Net(w)
                f = fn(e, SC + kind + 'Scheduler::' + ('private%sInput%s' % (K, B) if owner is not None else 'recover%sWire%s' % (K, B)))
                outs, vs = [], []
                for p in range(N):
                    w.cur = p
                    v = operand(w, k, True, batch, n, p, 'in')
                    vs.append(v)
                    s = sched_obj(e, w, kind)
                    e.store(s, e.load(s).with_('myId_', p).with_('agentMap_', net.agents(p)))
                    outs.append(callv(e, f, s, [v, owner] if owner is not None else [v], 'input'))
                net.settle()
                tot = (lambda g: g(vs[owner])) if owner is not None else (lambda g: w.comb(k, [g(x) for x in vs]))
                what = 'private input over the network' if owner is not None else 'recovery over the network'
                for p in range(N):
                    x = w.get(outs[p], p=p)
                    if batch:
                        e.prove('%s: size' % what, eq_i(vlen(x), n))
                        e.prove('%s: recorded batch size' % what, eq_i(w.get(outs[p], 'ebs', p=p), n))
                        with each(e, n) as j:
                            net.prove('%s: every party holds the value' % what, eq_i(at(x, j), tot(lambda y: at(y, j))))
                    else:
                        net.prove('%s: every party holds the value' % what, eq_i(x, tot(lambda y: y)))
                e.cover('reachable')
            # extraction: the shares of all parties reconstruct to the value
            e = T_.eng('scheduler')
            e.fact(z3.ULT(n, 1 << 24))
            w = World(e, N)
            f = fn(e, SC + kind + 'Scheduler::extract%sSecretShare%s' % (K, B))
            v = operand(w, k, False, batch, n, 0, 'x')
            got = []
            for p in range(N):
                w.cur = p
                i = w.new(k == 'i', batch, v, 0, n if batch else None)
                s = sched_obj(e, w, kind)
                e.store(s, e.load(s).with_('myId_', p))
                got.append(callv(e, f, s, [i], 'extraction'))
            if batch:
                for g in got:
                    e.prove('extraction over the network: size', eq_i(vlen(g), n))
                with each(e, n) as j:
                    e.prove('extraction over the network: shares reconstruct', eq_i(w.comb(k, [at(g, j) for g in got]), at(v, j)))
            else:
                e.prove('extraction over the network: shares reconstruct', eq_i(w.comb(k, [g if is_sym(g) else (g if k == 'b' else z3.BitVecVal(g, 64)) for g in got]), v))


task('S01', 'scheduler', name='network plaintext scheduler', cases=[(2,), (3,)])(network_io)


# ------------------------------------------------------------------ lazy scheduler: gates
GK = SC + 'GateKeeper'
LZ = SC + 'LazyScheduler'
FREE = {'And': (False, True, True), 'Xor': (True, True, True), 'Mult': (False, True, True), 'Plus': (True, True, True)}


class Lazy(World):
    """parties with real gate keepers; addGate (under a contract of its own) records where a gate goes; the limit of waiting gates is not reached"""

    def __init__(self, e, N):
        super().__init__(e, N)
        self.F = z3.BitVec('firstUnexecutedLevel', 32)
        e.fact(z3.ULT(self.F, 1 << 30))
        self.gates = [[] for _ in range(N)]
        for q in (GK + '::addGate', GK + '::hasReachedBatchingLimit'):
            fn(e, q)
        e.contracts[GK + '::addGate'] = self.add
        e.contracts[GK + '::hasReachedBatchingLimit'] = lambda e, th, a, cl: False

    def add(self, e, th, a, cl):
        g = a[0]
        while isinstance(e.load(g), Ptr):
            g = e.load(g)
        self.gates[self.cur].append((g, self.arg(a[1])))

    def scheduler(self):
        e = self.e
        if not hasattr(self, 'wk_obj'):
            self.wk_obj = self.obj(WKI[:-2])
        r = rec_q(e, GK)
        g = e.alloc(mkobj(e, r, wireKeeper_=self.wk_obj, firstUnexecutedLevel_=self.F, numUnexecutedGates_=z3.BitVec('unexecuted', 32)), 'gatekeeper')
        s = sched_obj(e, self, 'Lazy', gate=g)
        e.store(s, e.load(s).with_('wireKeeper_', self.wk_obj))
        return s

    def early(self, k, batch, nm, n, level):
        """an operand whose value is not known yet"""
        v = Vec([]) if batch else (z3.Bool if k == 'b' else lambda x: z3.BitVec(x, 64))(fresh_name('early_' + nm))
        return self.new(k == 'i', batch, v, level, n if batch else None)

    def lv(self, nm):
        x = z3.BitVec('level_' + nm, 32)
        self.e.fact(z3.ULT(x, 1 << 30))
        return x

    def destroy(self, obj):
        e = self.e
        r = e.tu.recs[e.load(obj).t]
        d = [f for f in e.tu.fns.values() if f.get('sp') == 'dtor' and e.types[f['rec']].get('id') == r['id']]
        if not d:
            raise Unsupported('no destructor of ' + r['q'])
        callv(e, d[0], obj, [], 'destruction')

    def placed(self, what, p, operands, free):
        """where the new gate goes"""
        e = self.e
        e.prove('%s: one gate is added' % what, len(self.gates[p]) == 1)
        if len(self.gates[p]) != 1:
            raise Dead()
        g, lv = self.gates[p][0]
        e.prove('%s: the gate goes to a level that has not been executed' % what, z3.UGE(lv, self.F))
        e.prove('%s: %s' % (what, 'local gates go to even levels' if free else 'gates that need communication go to odd levels'), eq_i(z3.Extract(0, 0, lv), 0 if free else 1))
        e.prove('%s: the level does not wrap' % what, z3.ULT(lv, 1 << 31))
        for i in operands:
            l = self.get(i, 'level', p=p)
            e.prove('%s: the gate does not run before its operands' % what, z3.UGE(lv, l))
            if not free:
                e.prove('%s: an operand of a gate that communicates is complete at an earlier level' % what, z3.Or(z3.ULT(l, self.F), z3.ULT(l, lv)))
        if p > 0:
            e.prove('%s: the parties put the gate at the same level' % what, eq_i(lv, self.gates[0][0][1]))
        return g, lv

    def held(self, what, ids, d, p):
        for i, base in ids:
            self.e.prove('%s: references to a wire' % what, eq_i(self.get(i, 'refs', p=p), base + d))

    def secrets(self, party, L, tag):
        """the outputs other gates of this level already asked for"""
        e = self.e
        r = rec_q(e, SC + 'IGate::Secrets')
        B, I = z3.Function('out_b_' + tag, B64, z3.BoolSort()), z3.Function('out_i_' + tag, B64, B64)
        return Rec(r['id'], {'booleanSecrets': VecS(L, lambda j: B(bv(j, 64))), 'integerSecrets': VecS(L, lambda j: I(bv(j, 64)))})


def run_gate(w, g, name, what, secrets=None):
    """virtual call of compute or collectScheduledResult"""
    e = w.e
    m = secrets if secrets is not None else e.alloc(MapV([]), 'secrets')
    f = fn(e, e.tu.recs[e.load(g).t]['q'] + '::' + name)
    alive, val, th = e.run(lambda: e.call_fn(f, g, [w.obj(ENG[:-2]), m]))
    for t in th:
        e.prove('%s: %s does not throw %s' % (what, name, t.ty), False, pc=t.st.pc)
    if not alive:
        raise Dead()
    return m


def put_values(w, p, ids, vals):
    w.cur = p
    for i, v in zip(ids, vals):
        w.put(i, 'v', v)


def lazy_gate(w, what, p, m, operands, outs, free, values, k, sizes=None):
    """check a freshly added gate of party p: placement, references, and store what it needs to run"""
    g, lv = w.placed(what, p, operands, free)
    for o in outs:
        w.e.prove('%s: the result is available from the level of the gate on' % what, eq_i(w.get(o, 'level', p=p), lv))
    w.held(what, [(o, 1) for o in operands + outs], 1, p)
    return g, lv


def lazy_op(T_, op, batch):
    k, secs, f = OPS[op]
    e = T_.eng('scheduler')
    N = 2
    w = Lazy(e, N)
    m = fn(e, LZ + '::' + op + ('Batch' if batch else ''))
    n = z3.BitVec('n', 64)
    e.fact(z3.ULT(n, 1 << 24))
    lvs = [w.lv('x%d' % q) for q in range(len(secs))]
    free = not (all(secs) and len(secs) == 2 and ('And' in op or 'Mult' in op))
    ins, outs, objs = [], [], []
    for p in range(N):
        w.cur = p
        ids = [w.early(k, batch, 'x%d' % q, n, lvs[q]) for q in range(len(secs))]
        ins.append(ids)
        outs.append(callv(e, m, w.scheduler(), ids, op))
        if batch:
            e.prove('%s: recorded batch size of the result' % op, eq_i(w.get(outs[p], 'ebs'), n))
        g, lv = lazy_gate(w, op, p, m, ids, [outs[p]], free, None, k)
        objs.append(g)
    # later: the level of the gate is executed; its operands have their values by now
    for p in range(N):
        put_values(w, p, ins[p], [operand(w, k, s, batch, n, p, 'x%d' % q) for q, s in enumerate(secs)])
        run_gate(w, objs[p], 'compute', op)
        if free:
            e.prove('%s: a local gate needs no communication' % op, all(l[0] in ('local', 'joint') for l in w.log[p]))
    if not free:
        for p in range(N):
            w.cur = p
            w.execute()
        for p in range(N):
            w.cur = p
            run_gate(w, objs[p], 'collectScheduledResult', op)

    def want(*j):
        return f(*[value_of(w, [ins[p][q] for p in range(N)], s, k, *j) for q, s in enumerate(secs)])
    check_out(w, op, outs, any(secs), k, batch, n, want)
    for p in range(N):
        w.cur = p
        w.destroy(objs[p])
        w.held('%s: released with the gate' % op, [(o, 1) for o in ins[p] + [outs[p]]], 0, p)
    e.cover('reachable')


for _o in OPS:
    for _b in (False, True):
        task(['S01', 'S02'], 'scheduler', name='lazy scheduler', cases=[(_o, _b)])(lazy_op)


def lazy_composite(T_, op, batch, m):
    ls, rs = COMPO[op]
    e = T_.eng('scheduler')
    N = 2
    w = Lazy(e, N)
    f = fn(e, LZ + '::' + op + ('Batch' if batch else ''))
    n = z3.BitVec('n', 64)
    e.fact(z3.ULT(n, 1 << 24))
    free = not (ls and rs)
    ins, outs, objs = [], [], []
    lvs = [w.lv('x%d' % q) for q in range(m + 1)]
    for p in range(N):
        w.cur = p
        ids = [w.early('b', batch, 'x%d' % q, n, lvs[q]) for q in range(m + 1)]
        ins.append(ids)
        val = callv(e, f, w.scheduler(), [ids[0], Vec(ids[1:])], op)
        e.prove('%s: one result per right operand' % op, eq_i(vlen(val), m))
        outs.append(val.xs)
        if batch:
            for o in val.xs:
                e.prove('%s: recorded batch size of the result' % op, eq_i(w.get(o, 'ebs'), n))
        objs.append(lazy_gate(w, op, p, f, ids, list(val.xs), free, None, 'b')[0])
    for p in range(N):
        put_values(w, p, ins[p], [operand(w, 'b', ls if q == 0 else rs, batch, n, p, 'x%d' % q) for q in range(m + 1)])
        run_gate(w, objs[p], 'compute', op)
    if not free:
        for p in range(N):
            w.cur = p
            w.execute()
        for p in range(N):
            w.cur = p
            run_gate(w, objs[p], 'collectScheduledResult', op)
    for q in range(m):
        def want(*j):
            return land(value_of(w, [i[0] for i in ins], ls, 'b', *j), value_of(w, [i[q + 1] for i in ins], rs, 'b', *j))
        check_out(w, op, [o[q] for o in outs], ls or rs, 'b', batch, n, want)
    for p in range(N):
        w.cur = p
        w.destroy(objs[p])
        w.held('%s: released with the gate' % op, [(o, 1) for o in ins[p] + list(outs[p])], 0, p)
    e.cover('reachable')


for _o in COMPO:
    for _b in (False, True):
        for _m in (1, 3):
            task(['S01', 'S02'], 'scheduler', name='lazy scheduler composite', cases=[(_o, _b, _m)], bounded='%d right operands, any batch size' % _m)(lazy_composite)


def lazy_rebatch(T_, m):
    e = T_.eng('scheduler')
    w = Lazy(e, 1)
    up = fn(e, LZ + '::batchingUp')
    ns = [z3.BitVec('n%d' % q, 32) for q in range(m)]
    for n in ns:
        e.fact(z3.ULT(n, 1 << 24))
    n64 = [z3.ZeroExt(32, n) for n in ns]
    ids = [w.early('b', True, 'x%d' % q, n64[q], w.lv('x%d' % q)) for q in range(m)]
    out = callv(e, up, w.scheduler(), [Vec(ids)], 'batchingUp')
    tot = simp(sum(n64[1:], n64[0]))
    e.prove('batchingUp: recorded batch size', eq_i(w.get(out, 'ebs'), tot))
    g, lv = lazy_gate(w, 'batchingUp', 0, up, ids, [out], True, None, 'b')
    vs = [operand(w, 'b', False, True, n64[q], 0, 'x%d' % q) for q in range(m)]
    put_values(w, 0, ids, vs)
    run_gate(w, g, 'compute', 'batchingUp')
    r = w.get(out)
    e.prove('batchingUp: size', eq_i(vlen(r), tot))
    for q in range(m):
        off = simp(sum(n64[:q], z3.BitVecVal(0, 64)))
        with each(e, n64[q]) as j:
            e.prove('batchingUp: elements in order', eq_i(at(r, simp(off + j)), at(vs[q], j)))
    w.destroy(g)
    w.held('batchingUp: released with the gate', [(o, 1) for o in ids + [out]], 0, 0)
    e.cover('reachable')
    e = T_.eng('scheduler')
    w = Lazy(e, 1)
    un = fn(e, LZ + '::unbatching')
    for n in ns:
        e.fact(z3.ULT(n, 1 << 24))
    tot = z3.BitVec('total', 64)
    e.fact(z3.ULT(tot, 1 << 24))
    e.fact(z3.ULE(simp(sum(n64[1:], n64[0])), tot))      # the caller's duty
    x = w.early('b', True, 'x', tot, w.lv('x'))
    st = e.alloc(Vec(list(ns)), 'strategy')
    val = callv(e, un, w.scheduler(), [x, st], 'unbatching')
    e.prove('unbatching: number of results', eq_i(vlen(val), m))
    outs = list(val.xs)
    for q in range(m):
        e.prove('unbatching: recorded batch size', eq_i(w.get(outs[q], 'ebs'), n64[q]))
    g, lv = lazy_gate(w, 'unbatching', 0, un, [x], outs, True, None, 'b')
    v = operand(w, 'b', False, True, tot, 0, 'x')
    put_values(w, 0, [x], [v])
    run_gate(w, g, 'compute', 'unbatching')
    for q in range(m):
        r = w.get(outs[q])
        e.prove('unbatching: size', eq_i(vlen(r), n64[q]))
        off = simp(sum(n64[:q], z3.BitVecVal(0, 64)))
        with each(e, n64[q]) as j:
            e.prove('unbatching: elements in order', eq_i(at(r, j), at(v, simp(off + j))))
    w.destroy(g)
    w.held('unbatching: released with the gate', [(o, 1) for o in [x] + outs], 0, 0)
    e.cover('reachable')


for _m in (1, 2, 3):
    task(['S01', 'S02'], 'scheduler', name='lazy scheduler rebatching', cases=[(_m,)], bounded='%d batches of any size' % _m)(lazy_rebatch)


def lazy_input(T_, k, batch):
    K = {'b': 'Boolean', 'i': 'Integer'}[k]
    B = 'Batch' if batch else ''
    N = 2
    n = z3.BitVec('n', 64)
    for what, owner in (('private%sInput%s', 0), ('private%sInput%s', 1), ('public%sInput%s', None), ('recover%sWire%s', None)):
        e = T_.eng('scheduler')
        e.fact(z3.ULT(n, 1 << 24))
        w = Lazy(e, N)
        f = fn(e, LZ + '::' + what % (K, B))
        what = (what % (K, B))
        outs, vs, objs = [], [], []
        for p in range(N):
            w.cur = p
            v = operand(w, k, not what.startswith('public'), batch, n, p, 'in')
            vs.append(v)
            outs.append(callv(e, f, w.scheduler(), [v] + ([owner] if owner is not None else []), what))
            objs.append(lazy_gate(w, what, p, f, [], [outs[p]], True, None, k)[0])
            if batch:
                e.prove('%s: recorded batch size' % what, eq_i(w.get(outs[p], 'ebs'), n))
            run_gate(w, objs[p], 'compute', what)
        want = {'pri': lambda *j: at(vs[owner], j[0]) if j else vs[owner], 'pub': lambda *j: at(vs[0], j[0]) if j else vs[0],
                'rec': lambda *j: w.comb(k, [at(v, j[0]) if j else v for v in vs])}[what[:3]]
        check_out(w, what, outs, not what.startswith('public'), k, batch, n, want)
        for p in range(N):
            w.cur = p
            w.destroy(objs[p])
            w.held('%s: released with the gate' % what, [(outs[p], 1)], 0, p)
        e.cover('reachable')


def lazy_output(T_, k, batch, to, fresh):
    """an opened value reaches the designated party, whatever else the level opens"""
    K = {'b': 'Boolean', 'i': 'Integer'}[k]
    B = 'Batch' if batch else ''
    N = 2
    n, L = z3.BitVec('n', 64), z3.BitVec('alreadyOpened', 64)
    e = T_.eng('scheduler')
    e.fact(z3.ULT(n, 1 << 24))
    e.fact(z3.ULT(L, 1 << 24))
    w = Lazy(e, N)
    f = fn(e, LZ + '::open%sValueToParty%s' % (K, B))
    lv = w.lv('x')
    ins, outs, objs, maps = [], [], [], []
    for p in range(N):
        w.cur = p
        i = w.early(k, batch, 'x', n, lv)
        ins.append(i)
        outs.append(callv(e, f, w.scheduler(), [i, to], 'opening'))
        objs.append(lazy_gate(w, 'opening', p, f, [i], [outs[p]], False, None, k)[0])
        if batch:
            e.prove('opening: recorded batch size', eq_i(w.get(outs[p], 'ebs'), n))
    fld = 'booleanSecrets' if k == 'b' else 'integerSecrets'
    oth = 'integerSecrets' if k == 'b' else 'booleanSecrets'
    for p in range(N):
        put_values(w, p, [ins[p]], [operand(w, k, True, batch, n, p, 'x')])
        before = w.secrets(to, L, 'p%d' % p)
        # outputs to the other party, and earlier ones to this party (or none)
        es = [(True, 1 - to, w.secrets(1 - to, L, 'q%d' % p))]
        if not fresh:
            es.append((True, to, before))
        mp = run_gate(w, objs[p], 'compute', 'opening', e.alloc(MapV(es), 'secrets'))
        maps.append(mp)
        # what is sent: the earlier outputs, then this one
        m = e.load(mp)
        mine = [x[2] for x in m.es if same(x[1], to)]
        rest = [x[2] for x in m.es if not same(x[1], to)]
        e.prove('opening: one list per party', land(len(mine) == 1, len(rest) == 1))
        if len(mine) != 1 or len(rest) != 1:
            raise Dead()
        st = mine[0]
        base = 0 if fresh else L
        e.prove('opening: the shares are appended', eq_i(vlen(st.f[fld]), simp(bv(base, 64) + (n if batch else 1))))
        e.prove('opening: nothing else is revealed to this party', eq_i(vlen(st.f[oth]), base))
        e.prove('opening: nothing is revealed to others', land(eq_i(vlen(rest[0].f[fld]), L), eq_i(vlen(rest[0].f[oth]), L)))
        if not fresh:
            with each(e, L) as j:
                e.prove('opening: earlier outputs stay', land(eq_i(at(st.f[fld], j), at(before.f[fld], j)), eq_i(at(st.f[oth], j), at(before.f[oth], j))))
        if p == 0:
            S0 = st
    # the engine opens both lists; the opened list is what the gate picks its result from
    R = z3.Function('revealed', B64, z3.BoolSort() if k == 'b' else B64)
    Z = z3.Function('revealedOther', B64, z3.BoolSort() if k == 'i' else B64)
    r = rec_q(e, SC + 'IGate::Secrets')
    for p in range(N):
        w.cur = p
        st = [x[2] for x in e.load(maps[p]).es if same(x[1], to)][0]
        rv = Rec(r['id'], {fld: VecS(vlen(st.f[fld]), lambda j: R(bv(j, 64))), oth: VecS(vlen(st.f[oth]), lambda j: Z(bv(j, 64)))})
        rest = [x[2] for x in e.load(maps[p]).es if not same(x[1], to)][0]
        run_gate(w, objs[p], 'collectScheduledResult', 'opening', e.alloc(MapV([(True, 1 - to, rest), (True, to, rv)]), 'revealed'))

    def meaning(goal):
        sts = [[x[2] for x in e.load(maps[p]).es if same(x[1], to)][0] for p in range(N)]
        for a in apps_of([zb(goal)], R):
            t = a.arg(0)
            e.fact(limp(z3.ULT(t, bv(vlen(sts[0].f[fld]), 64)), eq_i(a, w.comb(k, [at(s_.f[fld], t) for s_ in sts]))))
        return goal
    tot = lambda *j: value_of(w, ins, True, k, *j)
    for p in range(N):
        x = w.get(outs[p], p=p)
        if batch:
            e.prove('opening: size', eq_i(vlen(x), n))
            with each(e, n) as j:
                g = eq_i(at(x, j), tot(j))
                e.prove('opening: the value that was opened', meaning(g))
        else:
            e.prove('opening: the value that was opened', meaning(eq_i(x, tot())))
        w.cur = p
        w.destroy(objs[p])
        w.held('opening: released with the gate', [(ins[p], 1), (outs[p], 1)], 0, p)
    e.cover('reachable')


for _k in ('b', 'i'):
    for _b in (False, True):
        task(['S01', 'S02'], 'scheduler', name='lazy scheduler input', cases=[(_k, _b)])(lazy_input)
        for _t in (0, 1):
            for _f in (True, False):
                task(['S01', 'S02'], 'scheduler', name='lazy scheduler output', cases=[(_k, _b, _t, _f)])(lazy_output)


# ------------------------------------------------------------------ lazy scheduler: running levels
def lazy_force(T_, k, batch):
    """reading a wire first runs every level up to the one that computes it"""
    K = {'b': 'Boolean', 'i': 'Integer'}[k]
    B = 'Batch' if batch else ''
    for what in ('extract%sSecretShare%s', 'get%sValue%s'):
        e = T_.eng('scheduler')
        w = Lazy(e, 1)
        f = fn(e, LZ + '::' + what % (K, B))
        n = z3.BitVec('n', 64)
        e.fact(z3.ULT(n, 1 << 24))
        lv = w.lv('x')
        i = w.early(k, batch, 'x', n, lv)
        v = operand(w, k, False, batch, n, 0, 'x')
        ran = []

        def till(e, th, a, cl):
            ran.append(w.arg(a[0]))
            e.prove('reading: every level up to the one of the wire is run', z3.UGE(ran[-1], lv))
            w.put(i, 'v', v)
        fn(e, LZ + '::executeTillLevel')
        e.contracts[LZ + '::executeTillLevel'] = till
        got = callv(e, f, w.scheduler(), [i], 'reading')
        e.prove('reading: levels are run first', len(ran) >= 1)
        if batch:
            e.prove('reading: size', eq_i(vlen(got), n))
            with each(e, n) as j:
                e.prove('reading: the value after running', eq_i(at(got, j), at(v, j)))
        else:
            e.prove('reading: the value after running', eq_i(got, v))


for _k in ('b', 'i'):
    for _b in (False, True):
        task(['S01', 'S02'], 'scheduler', name='lazy scheduler reading', cases=[(_k, _b)])(lazy_force)


def lazy_till(T_):
    """executeTillLevel runs levels until the first one not executed lies beyond"""
    e = T_.eng('scheduler')
    w = World(e, 1)
    F = z3.BitVec('firstUnexecutedLevel', 32)
    e.fact(z3.ULT(F, 1 << 30))
    c = e.alloc(Rec('ghost', {'F': F}), 'first')
    e.contracts[GKI + 'getFirstUnexecutedLevel'] = lambda e, th, a, cl: e.load(c).f['F']

    def one(e, th, a, cl):
        e.store(c, e.load(c).with_('F', simp(e.load(c).f['F'] + 1)))
    fn(e, LZ + '::executeOneLevel')
    e.contracts[LZ + '::executeOneLevel'] = one
    lv = z3.BitVec('level', 32)
    e.fact(z3.ULT(lv, 1 << 30))
    f = fn(e, LZ + '::executeTillLevel')
    callv(e, f, sched_obj(e, w, 'Lazy', gate=w.obj(GKI[:-2])), [lv], 'executeTillLevel')
    e.prove('executeTillLevel: every level up to the one asked for has run', z3.UGT(e.load(c).f['F'], lv))
    e.prove('executeTillLevel: no other level has run', z3.Or(eq_i(e.load(c).f['F'], F), eq_i(e.load(c).f['F'], lv + 1)))


task(['S01', 'S02'], 'scheduler', name='lazy scheduler execution till a level')(lazy_till)


def lazy_level(T_, m, odd, to):
    """one level: every gate is computed, then the engine runs once, everything asked for is opened, then every gate collects"""
    e = T_.eng('scheduler')
    N = 1
    w = World(e, N)
    lv = z3.BitVec('level', 32)
    e.fact(eq_i(z3.Extract(0, 0, lv), 1 if odd else 0))
    e.fact(z3.ULT(lv, 1 << 30))
    st = {'F': lv, 'pop': 0, 'trace': []}
    rI = rec_q(e, SC + 'IGate::Secrets')
    gates = [e.alloc(Rec(rec_q(e, SC + 'IGate')['id'], {}), 'gate') for _ in range(m)]
    num = {g.loc: z3.BitVec('results_%d' % q, 32) for q, g in enumerate(gates)}
    tr = st['trace']
    e.contracts[GKI + 'getFirstUnexecutedLevel'] = lambda e, th, a, cl: simp(st['F'] + st['pop'])

    def pop(e, th, a, cl):
        st['pop'] += 1
        tr.append(('pop',))
        return Vec(list(gates))
    e.contracts[GKI + 'popFirstUnexecutedLevel'] = pop
    LB, LI = {}, {}
    for p in set(to):
        LB[p], LI[p] = w.operand_list('b', p), w.operand_list('i', p)

    def compute(e, th, a, cl):
        g = [q for q, x in enumerate(gates) if x.loc == th.loc][0]
        tr.append(('compute', g))
        # the last gate leaves behind what the whole level opens
        if g == m - 1:
            es = []
            for p in sorted(set(to)):
                es.append((True, p, Rec(rI['id'], {'booleanSecrets': LB[p], 'integerSecrets': LI[p]})))
            e.store(a[1], MapV(es))
    e.contracts[SC + 'IGate::compute'] = compute

    def collect(e, th, a, cl):
        g = [q for q, x in enumerate(gates) if x.loc == th.loc][0]
        tr.append(('collect', g, e.load(a[1])))
    e.contracts[SC + 'IGate::collectScheduledResult'] = collect
    e.contracts[SC + 'IGate::getNumberOfResults'] = lambda e, th, a, cl: num[th.loc]
    ans = {}

    def reveal(e, th, a, cl):
        v = w.arg(a[1])
        rt = e.types[cl.f['ret']]
        k = 'b' if e.types[rt['a'][0]['t']]['k'] == 'bool' else 'i'
        F = z3.Function(fresh_name('opened_' + k), B64, z3.BoolSort() if k == 'b' else B64)
        r = VecS(vlen(v), lambda j: F(bv(j, 64)))
        tr.append(('reveal', w.arg(a[0]), k, v, r))
        return r
    e.contracts[ENG + 'revealToParty'] = reveal
    e.contracts[ENG + 'executeScheduledOperations'] = lambda e, th, a, cl: tr.append(('execute',))
    s = sched_obj(e, w, 'Lazy', gate=w.obj(GKI[:-2]))
    before = e.load(s).f
    callv(e, fn(e, LZ + '::executeOneLevel'), s, [], 'running a level')
    kinds = [t[0] for t in tr]
    e.prove('running a level: one level is taken', kinds.count('pop') == 1)
    e.prove('running a level: every gate of the level is computed, in order', [t[1] for t in tr if t[0] == 'compute'] == list(range(m)))
    if odd:
        ex = [i for i, x in enumerate(kinds) if x == 'execute']
        e.prove('running a level: the engine runs the scheduled operations once', len(ex) == 1)
        lastc = max([i for i, x in enumerate(kinds) if x == 'compute'] + [-1])
        firstcol = min([i for i, x in enumerate(kinds) if x == 'collect'] + [len(kinds)])
        e.prove('running a level: after every gate is computed, before any result is collected', len(ex) == 1 and lastc < ex[0] < firstcol)
        e.prove('running a level: every gate collects its result', [t[1] for t in tr if t[0] == 'collect'] == list(range(m)))
        for p in set(to):
            for k, L in (('b', LB), ('i', LI)):
                rs = [t for t in tr if t[0] == 'reveal' and same(simp(bv(t[1], 32)), simp(bv(p, 32))) and t[2] == k]
                e.prove('running a level: what is asked for is opened to the party it was asked for', len(rs) == 1)
                if len(rs) != 1:
                    continue
                e.prove('running a level: all of it is opened', eq_i(vlen(rs[0][3]), vlen(L[p])))
                with each(e, vlen(L[p])) as j:
                    e.prove('running a level: the shares are opened as they are', eq_i(at(rs[0][3], j), at(L[p], j)))
                for t in tr:
                    if t[0] == 'collect':
                        x = [y[2] for y in t[2].es if same(y[1], p)]
                        e.prove('running a level: opened values are handed to the gates', len(x) == 1)
                        if len(x) != 1:
                            continue
                        o = x[0].f['booleanSecrets' if k == 'b' else 'integerSecrets']
                        e.prove('running a level: opened values, size', eq_i(vlen(o), vlen(rs[0][4])))
                        with each(e, vlen(o)) as j:
                            e.prove('running a level: opened values', eq_i(at(o, j), at(rs[0][4], j)))
        # every party opens in the same order: the order depends on nothing but the parties
        ps = [(int(simp(bv(t[1], 32))), t[2]) for t in tr if t[0] == 'reveal']
        e.prove('running a level: parties open in one order', ps == sorted(ps))
    else:
        e.prove('running a level: a local level needs no communication', 'execute' not in kinds and 'reveal' not in kinds)
    tot = z3.BitVecVal(0, 64)
    for g in gates:
        tot = tot + z3.ZeroExt(32, num[g.loc])
    a = e.load(s).f
    e.prove('running a level: statistics', land(eq_i(a['freeGates_'], before['freeGates_'] + (0 if odd else tot)), eq_i(a['nonFreeGates_'], before['nonFreeGates_'] + (tot if odd else 0))))


def operand_list(self, k, p):
    n = z3.BitVec('opened_%s_%s' % (k, p), 64)
    self.e.fact(z3.ULT(n, 1 << 24))
    F = z3.Function('share_%s_%s' % (k, p), B64, z3.BoolSort() if k == 'b' else B64)
    return VecS(n, lambda j: F(bv(j, 64)))


World.operand_list = operand_list
for _m, _t in ((0, ()), (1, (0,)), (2, (1, 0)), (3, (0, 1, 2))):
    for _o in (True, False):
        task(['S01', 'S02'], 'scheduler', name='lazy scheduler level', cases=[(_m, _o, _t if _o else ())], bounded='%d gates, openings of any size to %d parties' % (_m, len(_t)))(lazy_level)


def keeper_levels(T_, depth, d, sizes):
    """a gate joins the level it was placed at, behind the gates already there; levels come out in order"""
    e = T_.eng('scheduler')
    r = rec_q(e, GK)
    F = z3.BitVec('firstUnexecutedLevel', 32)
    U = z3.BitVec('unexecuted', 32)
    e.fact(z3.ULT(F, 1 << 30))
    e.fact(z3.And(z3.ULT(U, 1 << 30), z3.UGE(U, sum(sizes))))
    rG = rec_q(e, SC + 'IGate')['id']
    old = [[e.alloc(Rec(rG, {}), 'gate') for _ in range(s)] for s in sizes]
    k = e.alloc(mkobj(e, r, firstUnexecutedLevel_=F, numUnexecutedGates_=U, kMaxUnexecutedGates=z3.BitVec('limit', 32),
                      gatesByLevelOffset_=Vec([Vec(list(l)) for l in old])), 'keeper')
    g = e.alloc(Rec(rG, {}), 'gate')
    f = fn(e, GK + '::addGate')
    callv(e, f, k, [g, simp(F + d)], 'addGate')
    want = [list(l) for l in old] + [[] for _ in range(max(0, d + 1 - depth))]
    want[d] = want[d] + [g]
    first = fn(e, GK + '::getFirstUnexecutedLevel')
    pop = fn(e, GK + '::popFirstUnexecutedLevel')
    for i, l in enumerate(want):
        e.prove('gate keeper: levels come out in order', eq_i(callv(e, first, k, [], 'getFirstUnexecutedLevel'), simp(F + i)))
        got = callv(e, pop, k, [], 'popFirstUnexecutedLevel')
        ok = isinstance(got, Vec) and [x.loc if isinstance(x, Ptr) else None for x in got.xs] == [x.loc for x in l]
        e.prove('gate keeper: a level holds its gates in the order they were added', ok)
    lim = fn(e, GK + '::hasReachedBatchingLimit')


for _d, _l, _s in ((0, 0, ()), (0, 3, ()), (1, 0, (1,)), (1, 1, (2,)), (2, 0, (1, 2)), (2, 1, (2, 0)), (3, 1, (1, 1, 1)), (2, 4, (1, 0))):
    task(['S01', 'S02'], 'scheduler', name='gate keeper levels', cases=[(_d, _l, _s)], bounded='%d levels waiting, level %d' % (_d, _l))(keeper_levels)


# ------------------------------------------------------------------ wire keeper over an allocator
IAL = SC + 'IAllocator::'


class Alloc:
    """allocators hand out storage: an id stays bound to its record until it is freed"""

    def __init__(self, e):
        self.e = e
        self.mem, self.next, self.freed = {}, {}, []
        self.objs = {}
        for nm in ('allocate', 'free', 'get', 'getWritableReference'):
            if not [f for f in e.tu.fns.values() if f['q'] == IAL + nm]:
                raise Unsupported('allocator interface changed')
        c = e.contracts
        c[IAL + 'allocate'] = self.allocate
        c[IAL + 'free'] = self.free
        c[IAL + 'get'] = self.get
        c[IAL + 'getWritableReference'] = self.get

    def make(self, name):
        o = self.e.alloc(Rec([r for r in self.e.tu.recs.values() if r['q'] == SC + 'IAllocator'][0]['id'], {}), name)
        self.mem[o.loc] = {}
        self.next[o.loc] = 100
        self.objs[name] = o
        return o

    def allocate(self, e, th, a, cl):
        v = e.load(a[0]) if isinstance(a[0], Ptr) else a[0]
        k = self.next[th.loc]
        self.next[th.loc] += 1
        self.mem[th.loc][k] = e.alloc(v, 'record')
        return k

    def get(self, e, th, a, cl):
        k = a[0]
        e.prove('wire keeper: the wire exists in the storage it is looked up in', k in self.mem[th.loc], kind='pre')
        if k not in self.mem[th.loc]:
            raise Dead()
        c = self.mem[th.loc][k]
        e.prove('wire keeper: a released wire is not accessed', eq_i(e.load(self.gone(c)), False), kind='pre')
        return c

    def gone(self, c):
        if not hasattr(self, 'flags'):
            self.flags = {}
        if c.loc not in self.flags:
            raise Unsupported('unknown record')
        return self.flags[c.loc]

    def free(self, e, th, a, cl):
        c = self.get(e, th, a, cl)
        e.store(self.gone(c), True)


def keeper_world(e):
    A = Alloc(e)
    A.flags = {}
    r = rec_q(e, SC + 'WireKeeper')
    fs = dict(e.tu.fields(r['id']))
    al = {}
    for n, t in fs.items():
        if n.endswith('Allocator_'):
            al[n] = A.make(n)
    if sorted(al) != ['boolAllocator_', 'boolBatchAllocator_', 'intAllocator_', 'intBatchAllocator_']:
        raise Unsupported('wire keeper layout changed')
    k = e.alloc(mkobj(e, r, wiresAllocated_=z3.BitVec('allocated', 64), wiresDeallocated_=z3.BitVec('deallocated', 64), **al), 'keeper')
    # one wire of every kind, all with the same id
    recs = {}
    for n, o in al.items():
        batch = 'Batch' in n
        b = n.startswith('bool')
        rr = [x for x in e.tu.recs.values() if x['q'] == SC + 'IWireKeeper::WireRecord' and any(f == 'expectedBatchSize' for f, _ in e.tu.fields(x['id'])) == batch
              and ('bool' in x['c']) == b]
        if len(rr) != 1:
            raise Unsupported('wire records changed')
        f = {'firstAvailableLevel': z3.BitVec(n + 'level', 32), 'referenceCount': z3.BitVec(n + 'refs', 32)}
        e.fact(z3.UGT(f['referenceCount'], 0))
        e.fact(z3.ULT(f['referenceCount'], 1 << 31))
        m = z3.BitVec(n + 'n', 64)
        e.fact(z3.ULT(m, 1 << 24))
        if batch:
            F = z3.Function(n + 'v', B64, z3.BoolSort() if b else B64)
            f['v'] = VecS(m, lambda j, F=F: F(bv(j, 64)))
            f['expectedBatchSize'] = z3.BitVec(n + 'ebs', 64)
        else:
            f['v'] = z3.Bool(n + 'v') if b else z3.BitVec(n + 'v', 64)
        c = e.alloc(Rec(rr[0]['id'], f), 'record')
        A.mem[o.loc][7] = c
        A.flags[c.loc] = e.alloc(False, 'gone')
        recs[n] = (c, Rec(rr[0]['id'], f))
    return A, k, al, recs


def same_rec(e, what, now, was, changed=()):
    for f in was.f:
        if f in changed:
            continue
        a, b = now.f[f], was.f[f]
        if isinstance(b, VecS):
            e.prove('%s: size unchanged' % what, eq_i(vlen(a), vlen(b)))
            with each(e, vlen(b)) as j:
                e.prove('%s: elements unchanged' % what, eq_i(at(a, j), at(b, j)))
        else:
            e.prove('%s: %s unchanged' % (what, f), eq_i(a, b))


def wire_keeper(T_, K, batch):
    B = 'Batch' if batch else ''
    mine = ('bool' if K == 'Boolean' else 'int') + B + 'Allocator_'
    tK = 'Boolean' if K == 'Boolean' else 'Arithmetic'
    k = 'b' if K == 'Boolean' else 'i'
    pk = lambda g: tK in g['_t0']

    def method(e, nm, byid=True):
        return fn(e, SC + 'WireKeeper::' + nm, pred=(lambda g: tK in e.tu.tname(g['ps'][0]['t'])) if byid else None)

    def fresh():
        e = T_.eng('scheduler')
        A, kp, al, recs = keeper_world(e)
        w = [r for r in e.tu.recs.values() if r['q'] == SC + 'IScheduler::WireId' and tK in r['c']][0]['id']
        return e, A, kp, al, recs, Rec(w, {'id_': Opt(True, 7)})

    def rest(e, A, recs, what, changed=()):
        for n, (c, was) in recs.items():
            same_rec(e, what + (' (other wires)' if n != mine else ''), e.load(c), was, changed if n == mine else ())
            if n != mine:
                e.prove('%s: other wires stay' % what, eq_i(e.load(A.flags[c.loc]), False))
    n = z3.BitVec('n', 64)

    def val(nm):
        if batch:
            F = z3.Function(nm, B64, z3.BoolSort() if k == 'b' else B64)
            return VecS(n, lambda j: F(bv(j, 64)))
        return z3.Bool(nm) if k == 'b' else z3.BitVec(nm, 64)

    def same_val(e, what, a, b):
        if batch:
            e.prove('%s: size' % what, eq_i(vlen(a), vlen(b)))
            with each(e, vlen(b)) as j:
                e.prove('%s: elements' % what, eq_i(at(a, j), at(b, j)))
        else:
            e.prove(what, eq_i(a, b))
    # allocation
    e, A, kp, al, recs, w = fresh()
    e.fact(z3.ULT(n, 1 << 24))
    v = val('v')
    lv, ebs = z3.BitVec('level', 32), z3.BitVec('ebs', 64)
    before = e.load(kp)
    out = callv(e, method(e, 'allocate%s%sValue' % (B, K), False), kp, [v, ebs, lv] if batch else [v, lv], 'allocation')
    i = out.f['id_']
    e.prove('allocation: the wire refers to the new storage', land(i.has is True, i.v == 100))
    if i.has is not True or 100 not in A.mem[al[mine].loc]:
        e.prove('allocation: storage is taken', False)
        raise Dead()
    r = e.load(A.mem[al[mine].loc][100])
    same_val(e, 'allocation: value', r.f['v'], v)
    e.prove('allocation: level', eq_i(r.f['firstAvailableLevel'], lv))
    e.prove('allocation: one reference', eq_i(r.f['referenceCount'], 1))
    if batch:
        e.prove('allocation: batch size', eq_i(r.f['expectedBatchSize'], ebs))
    e.prove('allocation: only this storage', all(100 not in A.mem[o.loc] for nn, o in al.items() if nn != mine))
    e.prove('allocation: statistics', land(eq_i(e.load(kp).f['wiresAllocated_'], before.f['wiresAllocated_'] + 1), eq_i(e.load(kp).f['wiresDeallocated_'], before.f['wiresDeallocated_'])))
    rest(e, A, recs, 'allocation')
    # reading
    reads = [('get%s%sValue' % (B, K), 'v'), ('get%sFirstAvailableLevel' % B, 'firstAvailableLevel')]
    if batch:
        reads += [('getBatchSize', 'expectedBatchSize'), ('getWritableBatch%sValue' % K, 'v')]
    for nm, fld in reads:
        e, A, kp, al, recs, w = fresh()
        out = callv(e, method(e, nm), kp, [w], nm)
        if isinstance(recs[mine][1].f[fld], VecS):
            same_val(e, nm, out, recs[mine][1].f[fld])
        else:
            e.prove(nm, eq_i(out, recs[mine][1].f[fld]))
        rest(e, A, recs, nm)
    # writing
    e, A, kp, al, recs, w = fresh()
    e.fact(z3.ULT(n, 1 << 24))
    v = val('v')
    callv(e, method(e, 'set%s%sValue' % (B, K)), kp, [w, v], 'setting a value')
    same_val(e, 'setting a value', e.load(recs[mine][0]).f['v'], v)
    rest(e, A, recs, 'setting a value', ('v',))
    e, A, kp, al, recs, w = fresh()
    callv(e, method(e, 'set%sFirstAvailableLevel' % B), kp, [w, lv], 'setting a level')
    e.prove('setting a level', eq_i(e.load(recs[mine][0]).f['firstAvailableLevel'], lv))
    rest(e, A, recs, 'setting a level', ('firstAvailableLevel',))
    # counting
    e, A, kp, al, recs, w = fresh()
    callv(e, method(e, 'increase%sReferenceCount' % B), kp, [w], 'counting up')
    e.prove('counting up', eq_i(e.load(recs[mine][0]).f['referenceCount'], recs[mine][1].f['referenceCount'] + 1))
    e.prove('counting up keeps the wire', eq_i(e.load(A.flags[recs[mine][0].loc]), False))
    rest(e, A, recs, 'counting up', ('referenceCount',))
    e, A, kp, al, recs, w = fresh()
    before = e.load(kp)
    callv(e, method(e, 'decrease%sReferenceCount' % B), kp, [w], 'counting down')
    c, was = recs[mine]
    last = eq_i(was.f['referenceCount'], 1)
    gone = e.load(A.flags[c.loc])
    e.prove('counting down releases the wire with its last reference, not before', eq_i(gone, last))
    e.prove('counting down', limp(lnot(last), eq_i(e.load(c).f['referenceCount'], was.f['referenceCount'] - 1)))
    e.prove('counting down: statistics', eq_i(e.load(kp).f['wiresDeallocated_'], before.f['wiresDeallocated_'] + z3.If(zb(last), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))))
    rest(e, A, recs, 'counting down', ('referenceCount',))
    e.cover('reachable')


for _k in ('Boolean', 'Integer'):
    for _b in (False, True):
        task('S02', 'scheduler', name='wire keeper', cases=[(_k, _b)])(wire_keeper)


def arena(T_, elem, unsafe):
    """the arena never hands out storage that is in use, and keeps what it stores"""
    nm = {'bool': 'WireRecord<bool', 'int': 'WireRecord<unsigned long'}[elem]

    def fresh():
        e = T_.eng('scheduler')
        r = [x for x in e.tu.recs.values() if x['q'] == SC + 'VectorArenaAllocator' and nm in x['c'] and x['c'].rstrip('>').rstrip().endswith('true' if unsafe else 'false')]
        if len(r) != 1:
            raise Unsupported('arena instances: %s' % [x['c'] for x in e.tu.recs.values() if x['q'] == SC + 'VectorArenaAllocator'])
        r = r[0]
        S, N = z3.BitVec('size', 64), z3.BitVec('nextAvailable', 64)
        e.fact(z3.ULT(S, 1 << 24))
        e.fact(z3.ULE(N, S))
        fb = z3.Function('free', B64, B64)
        H = z3.Function('has', B64, z3.BoolSort())
        V = z3.Function('value', B64, z3.BoolSort() if elem == 'bool' else B64)
        L, R = z3.Function('level', B64, z3.BitVecSort(32)), z3.Function('refs', B64, z3.BitVecSort(32))
        rr = [x for x in e.tu.recs.values() if x['q'] == SC + 'IWireKeeper::WireRecord' and nm in x['c']][0]
        mk = lambda j: Rec(rr['id'], {'v': V(bv(j, 64)), 'firstAvailableLevel': L(bv(j, 64)), 'referenceCount': R(bv(j, 64))})
        blocks = VecS(S, mk) if unsafe else VecS(S, lambda j: Opt(H(bv(j, 64)), mk(j)))
        o = e.alloc(mkobj(e, r, blocks_=blocks, freeBlocks_=VecS(S, lambda j: fb(bv(j, 64))), nextAvailableBlockIndex_=N), 'arena')
        g = dict(S=S, N=N, fb=fb, H=H, mk=mk, rr=rr, r=r)

        def inv(*js):
            """the free list: distinct, in range"""
            for j in js:
                e.fact(limp(land(z3.UGE(j, N), z3.ULT(j, S)), z3.ULT(fb(j), S)))
                for l in js:
                    if l is not j:
                        e.fact(limp(conj([z3.UGE(j, N), z3.ULT(j, S), z3.UGE(l, N), z3.ULT(l, S), lnot(eq_i(j, l))]), lnot(eq_i(fb(j), fb(l)))))
        return e, o, g, inv

    def method(e, g, n):
        return [f for f in e.tu.fns.values() if f['q'] == SC + 'VectorArenaAllocator::' + n and e.types[f['rec']].get('id') == g['r']['id']][0]

    def blk(e, v, j):
        x = at(v, j)
        return x if unsafe else x.v

    def same_blk(e, what, a, b):
        for f in b.f:
            e.prove('%s: %s' % (what, f), eq_i(a.f[f], b.f[f]))
    # allocation
    e, o, g, inv = fresh()
    j, l = z3.BitVec('j', 64), z3.BitVec('l', 64)
    inv(g['N'], j, l)
    v = Rec(g['rr']['id'], {'v': z3.Bool('nv') if elem == 'bool' else z3.BitVec('nv', 64), 'firstAvailableLevel': z3.BitVec('nl', 32), 'referenceCount': z3.BitVec('nr', 32)})
    was = e.load(o)
    out = callv(e, method(e, g, 'allocate'), o, [v], 'allocate')
    now = e.load(o)
    S2, N2 = vlen(now.f['blocks_']), now.f['nextAvailableBlockIndex_']
    fl = now.f['freeBlocks_']
    e.prove('arena: as many list entries as blocks', eq_i(vlen(fl), S2))
    e.prove('arena: one more block is in use', land(eq_i(N2, g['N'] + 1), z3.ULE(bv(N2, 64), bv(S2, 64))))
    e.prove('arena: the id is in range', z3.ULT(bv(out, 64), bv(S2, 64)))
    e.prove('arena: the new block was free', lor(z3.UGE(bv(out, 64), g['S']), land(z3.ULT(g['N'], g['S']), eq_i(out, g['fb'](g['N'])))))
    same_blk(e, 'arena: the record is stored', blk(e, now.f['blocks_'], out), v)
    if not unsafe:
        e.prove('arena: the block holds a record', at(now.f['blocks_'], out).has)
    with under(e, land(z3.ULT(j, g['S']), lnot(eq_i(j, out)))):
        same_blk(e, 'arena: other records stay', blk(e, now.f['blocks_'], j), g['mk'](j))
        if not unsafe:
            e.prove('arena: other blocks stay', eq_i(at(now.f['blocks_'], j).has, g['H'](j)))
    with under(e, conj([z3.UGE(j, bv(N2, 64)), z3.ULT(j, bv(S2, 64))])):
        e.prove('arena: free blocks are in range', z3.ULT(bv(at(fl, j), 64), bv(S2, 64)))
        e.prove('arena: the block in use is not listed as free', lnot(eq_i(at(fl, j), out)))
        with under(e, conj([z3.UGE(l, bv(N2, 64)), z3.ULT(l, bv(S2, 64)), lnot(eq_i(j, l))])):
            e.prove('arena: free blocks are listed once', lnot(eq_i(at(fl, j), at(fl, l))))
        e.prove('arena: nothing in use becomes free', lor(z3.UGE(bv(at(fl, j), 64), g['S']), land(z3.ULT(j, g['S']), eq_i(at(fl, j), g['fb'](j)))))
    e.cover('reachable')
    # release of a block in use
    e, o, g, inv = fresh()
    inv(j, l)
    i = z3.BitVec('id', 64)
    e.fact(z3.ULT(i, g['S']))
    e.fact(z3.UGT(g['N'], 0))
    for x in (j, l):
        e.fact(limp(land(z3.UGE(x, g['N']), z3.ULT(x, g['S'])), lnot(eq_i(g['fb'](x), i))))      # id is in use
    callv(e, method(e, g, 'free'), o, [i], 'free')
    now = e.load(o)
    fl, N2 = now.f['freeBlocks_'], now.f['nextAvailableBlockIndex_']
    e.prove('arena: one block less is in use', eq_i(N2, g['N'] - 1))
    e.prove('arena: sizes stay', land(eq_i(vlen(fl), g['S']), eq_i(vlen(now.f['blocks_']), g['S'])))
    with under(e, land(z3.UGE(j, bv(N2, 64)), z3.ULT(j, g['S']))):
        e.prove('arena: free blocks are in range after a release', z3.ULT(bv(at(fl, j), 64), g['S']))
        e.prove('arena: only the released block becomes free', lor(eq_i(at(fl, j), i), land(z3.UGE(j, g['N']), eq_i(at(fl, j), g['fb'](j)))))
        with under(e, conj([z3.UGE(l, bv(N2, 64)), z3.ULT(l, g['S']), lnot(eq_i(j, l))])):
            e.prove('arena: free blocks are listed once after a release', lnot(eq_i(at(fl, j), at(fl, l))))
    with under(e, land(z3.ULT(j, g['S']), lnot(eq_i(j, i)))):
        same_blk(e, 'arena: other records stay after a release', blk(e, now.f['blocks_'], j), g['mk'](j))
        if not unsafe:
            e.prove('arena: other blocks stay after a release', eq_i(at(now.f['blocks_'], j).has, g['H'](j)))
    if not unsafe:
        e.prove('arena: a released block is empty', lnot(at(now.f['blocks_'], i).has))
    # access
    for nm_ in ('get', 'getWritableReference'):
        e, o, g, inv = fresh()
        f = method(e, g, nm_)
        alive, val, th = call(e, f, o, [i])
        throws_iff(e, th, e.st.pc if alive else None, z3.UGE(i, g['S']) if unsafe else lor(z3.UGE(i, g['S']), lnot(g['H'](i))), 'arena access')
        if alive:
            same_blk(e, 'arena: the stored record is found', e.load(val) if isinstance(val, Ptr) else val, g['mk'](i))


for _e in ('bool', 'int'):
    for _u in (False, True):
        task('S02', 'scheduler', name='arena', cases=[(_e, _u)])(arena)


def map_alloc(T_, elem):
    nm = {'bool': 'WireRecord<bool', 'int': 'WireRecord<unsigned long'}[elem]
    e = T_.eng('scheduler')
    r = [x for x in e.tu.recs.values() if x['q'] == SC + 'UnorderedMapAllocator' and nm in x['c']][0]
    rr = [x for x in e.tu.recs.values() if x['q'] == SC + 'IWireKeeper::WireRecord' and nm in x['c']][0]
    rec = lambda t: Rec(rr['id'], {'v': z3.Bool('v' + t) if elem == 'bool' else z3.BitVec('v' + t, 64), 'firstAvailableLevel': z3.BitVec('l' + t, 32), 'referenceCount': z3.BitVec('r' + t, 32)})
    N, x = z3.BitVec('nextId', 64), z3.BitVec('x', 64)
    e.fact(z3.ULT(x, N))
    e.fact(z3.ULT(N, 1 << 48))
    old, new = rec('0'), rec('1')
    o = e.alloc(mkobj(e, r, map_=MapV([(True, x, old)]), nextId_=N), 'arena')

    def method(n):
        return [f for f in e.tu.fns.values() if f['q'] == SC + 'UnorderedMapAllocator::' + n and e.types[f['rec']].get('id') == r['id']][0]

    def same(what, i, want):
        for g in ('get', 'getWritableReference'):
            out = callv(e, method(g), o, [i], what)
            out = e.load(out) if isinstance(out, Ptr) else out
            for f in want.f:
                e.prove('map storage: %s: %s' % (what, f), eq_i(out.f[f], want.f[f]))
    a = callv(e, method('allocate'), o, [new], 'allocate')
    e.prove('map storage: a new id', lnot(eq_i(a, x)))
    e.prove('map storage: later ids are newer', z3.ULT(bv(a, 64), bv(e.load(o).f['nextId_'], 64)))
    same('the stored record is found', a, new)
    same('other records stay', x, old)
    callv(e, method('free'), o, [a], 'free')
    same('other records stay after a release', x, old)
    alive, val, th = call(e, method('get'), o, [a])
    throws_iff(e, th, e.st.pc if alive else None, True, 'access after a release')


for _e in ('bool', 'int'):
    task('S02', 'scheduler', name='map storage', cases=[(_e,)])(map_alloc)
