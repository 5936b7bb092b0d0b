"""Secret-share engine: what every party computes, reconstructed over all parties, is the plaintext operation."""
import z3
from spec import *

S = 'fbpcf::engine::SecretShareEngine::'
TG = 'fbpcf::engine::tuple_generator::ITupleGenerator::'
AG = 'fbpcf::engine::tuple_generator::IArithmeticTupleGenerator::'
CA = 'fbpcf::engine::communication::ISecretShareEngineCommunicationAgent::'


def iface(eng, q):
    return eng.alloc(Rec(rec_q(eng, q)['id'], {}), 'iface')


def engine(eng, my, n, **fields):
    r = rec_q(eng, 'fbpcf::engine::SecretShareEngine')
    f = dict(tupleGenerator_=iface(eng, TG[:-2]), arithmeticTupleGenerator_=iface(eng, AG[:-2]), communicationAgent_=iface(eng, CA[:-2]),
             myId_=my, numberOfParty_=n)
    f.update(fields)
    v = mkobj(eng, r, **f)
    er = v.f['executionResults_']
    for k, x in list(v.f.items()):
        if x is Undef:
            t = dict(eng.tu.fields(r['id']))[k]
            if eng.types[t]['k'] == 'rec' and not eng.std.is_std(eng.types[t]):
                v = v.with_(k, eng.default(t))
    return eng.alloc(v, 'engine')


# ------------------------------------------------------------------ linear gates
def b_xor(xs):
    return xor_all(xs)


def w_add(xs):
    return add_all(xs)


# name, kind (bool/int), operands: 's' secret share, 'p' public; plaintext operation
LINEAR = [
    ('SymmetricXOR', 'b', 'ss', lambda a, b: lxor(a, b)),
    ('AsymmetricXOR', 'b', 'sp', lambda a, b: lxor(a, b)),
    ('SymmetricNOT', 'b', 'p', lambda a: lnot(a)),
    ('AsymmetricNOT', 'b', 's', lambda a: lnot(a)),
    ('FreeAND', 'b', 'sp', lambda a, b: land(a, b)),
    ('SymmetricPlus', 'i', 'ss', lambda a, b: a + b),
    ('AsymmetricPlus', 'i', 'sp', lambda a, b: a + b),
    ('SymmetricNeg', 'i', 's', lambda a: -a),
    ('FreeMult', 'i', 'sp', lambda a, b: a * b),
]


def operands(eng, f, shape, N):
    """per party argument lists: secret operands differ per party, public ones are shared"""
    pub = {}
    out = []
    for p in range(N):
        vs = []
        for k, c in enumerate(shape):
            ti = ptype(eng, f['ps'][k])
            if c == 'p':
                if k not in pub:
                    pub[k] = eng.symbolic(ti, 'pub%d' % k)
                vs.append(pub[k])
            else:
                vs.append(eng.symbolic(ti, 'sh%d_%d' % (k, p)))
        out.append(vs)
    return out


def plain(xs, shape, kind, N):
    comb = b_xor if kind == 'b' else w_add
    return [xs[0][k] if c == 'p' else comb([xs[p][k] for p in range(N)]) for k, c in enumerate(shape)]


def linear_scalar(T_, name, N):
    nm, kind, shape, op = [x for x in LINEAR if x[0] == name][0]
    e = T_.eng('engine')
    f = fn(e, S + 'compute' + nm)
    xs = operands(e, f, shape, N)
    outs = [callv(e, f, engine(e, p, N), xs[p], nm) for p in range(N)]
    comb = b_xor if kind == 'b' else w_add
    if shape == 'p':
        # an operation on a public wire: every party computes it locally on the public value
        for o in outs:
            e.prove('public %s' % nm, eq_i(o, op(xs[0][0])))
    else:
        e.prove('reconstruction of %s' % nm, eq_i(comb(outs), op(*plain(xs, shape, kind, N))))
    e.cover('reachable')


def linear_batch(T_, name, N):
    nm, kind, shape, op = [x for x in LINEAR if x[0] == name][0]
    e = T_.eng('engine')
    f = fn(e, S + 'computeBatch' + nm)
    xs = operands(e, f, shape, N)
    n = vlen(xs[0][0])
    # all parties hold vectors of the same lengths: left length n, right length m
    m = vlen(xs[0][-1])
    for p in range(N):
        for k, v in enumerate(xs[p]):
            e.assume(eq_i(vlen(v), n if k == 0 else m))
    outs = []
    for p in range(N):
        base = e.st
        alive, val, th = call(e, f, engine(e, p, N), xs[p])
        if len(shape) == 2:
            throws_iff(e, th, e.st.pc if alive else None, lnot(eq_i(n, m)), nm)
        else:
            throws_iff(e, th, None, False, nm)
        outs.append(val)
    comb = b_xor if kind == 'b' else w_add
    for p in range(N):
        e.prove('%s keeps the batch size' % nm, eq_i(vlen(outs[p]), n))
    with each(e, n) as j:
        xj = [[at(v, j) for v in xs[p]] for p in range(N)]
        oj = [at(o, j) for o in outs]
        if shape == 'p':
            for o in oj:
                e.prove('public batch %s' % nm, eq_i(o, op(xj[0][0])))
        else:
            e.prove('reconstruction of batch %s' % nm, eq_i(comb(oj), op(*plain(xj, shape, kind, N))))
        e.cover('some element')


def linear_step(T_, name):
    """any number of parties: adding one more party keeps the reconstruction right, and a party other than 0 does
    the same thing whatever its id"""
    nm, kind, shape, op = [x for x in LINEAR if x[0] == name][0]
    e = T_.eng('engine')
    f = fn(e, S + 'compute' + nm)
    id1, id2 = z3.BitVec('id1', 32), z3.BitVec('id2', 32)
    N = z3.BitVec('N', 32)
    for i in (id1, id2):
        e.assume(z3.And(i > 0, i < N))
    xs = operands(e, f, shape, 1)[0]
    o1 = callv(e, f, engine(e, id1, N), xs, nm)
    o2 = callv(e, f, engine(e, id2, N), xs, nm)
    e.prove('%s: parties other than 0 behave alike' % nm, eq_i(o1, o2), kind='sufficient')
    if shape == 'p':
        return
    comb = b_xor if kind == 'b' else w_add
    acc = [x if c == 'p' else e.symbolic(ptype(e, f['ps'][k]), 'acc') for k, (x, c) in enumerate(zip(xs, shape))]
    tot = [x if c == 'p' else comb([y, x]) for x, y, c in zip(xs, acc, shape)]
    e.prove('%s: one more party' % nm, eq_i(comb([op(*acc), o1]), op(*tot)), kind='sufficient')
    e.cover('reachable')


for _nm, _k, _s, _o in LINEAR:
    _p = 'E01'
    for _N in (2, 3):
        task(_p, 'engine', name='engine %s' % _nm, cases=[(_nm, _N)])(linear_scalar)
        task(_p, 'engine', name='engine batch %s' % _nm, cases=[(_nm, _N)])(linear_batch)
    task(_p, 'engine', name='engine any number of parties %s' % _nm, cases=[(_nm,)])(linear_step)


# ------------------------------------------------------------------ interactive gates
class Ghost:
    """what the environment of all parties guarantees: tuples whose shares multiply, openings that XOR / add up"""

    def __init__(self, e, N):
        self.e, self.N = e, N
        self.calls = {}
        self.cur = None
        self.opened = []      # (kind, function, [sent by party])
        B64 = z3.BitVecSort(64)
        self.B64 = B64
        self.tup = {}
        self.done = set()
        self.ghost_sizes = {}

    def start(self, p):
        self.cur = p
        self.cnt = {}

    def nth(self, kind):
        self.cnt[kind] = self.cnt.get(kind, 0) + 1
        return self.cnt[kind] - 1

    def bfn(self, key, p, sort=None, nd=1):
        k = (key, p)
        if k not in self.tup:
            self.tup[k] = z3.Function('%s_p%s' % ('_'.join(map(str, key)), p), *([self.B64] * nd + [z3.BoolSort() if sort is None else sort]))
        return self.tup[k]

    def install(self):
        e = self.e
        e.contracts[TG + 'getBooleanTuple'] = self.get_tuples
        e.contracts[TG + 'supportsCompositeTupleGeneration'] = lambda eng, th, a, c: self.supports
        e.contracts[TG + 'getNormalAndCompositeBooleanTuples'] = self.get_both
        e.contracts[TG + 'getCompositeTuple'] = self.get_comp
        e.contracts[AG + 'getIntegerTuple'] = self.get_int
        e.contracts[CA + 'openSecretsToAll'] = self.open_all

    def size_agree(self, key, n):
        """every party must ask for the same number of tuples (the generators run in lock step)"""
        if key in self.ghost_sizes:
            self.e.prove('parties request the same number of tuples', eq_i(n, self.ghost_sizes[key]))
        else:
            self.ghost_sizes[key] = n

    def tuples(self, n, tag):
        e = self.e
        r = rec_q(e, 'fbpcf::engine::tuple_generator::ITupleGenerator::BooleanTuple')
        ct = [f for f in (e.tu.fns[m] for m in r['ms']) if f.get('sp') != 'copy' and len(f['ps']) == 3][0]
        p = self.cur
        A, B, C = (self.bfn((tag, x), p) for x in 'abc')
        j = z3.BitVec(fresh_name('tj'), 64)
        v = e.construct(r['id'], ct, [A(j), B(j), C(j)])
        n64 = cast_int(n, 32, 0, 64)
        self.size_agree(tag, n64)
        return VecS(n64, lambda i: subst(v, lambda t: z3.substitute(t, (j, bv(i, 64)))))

    def get_tuples(self, eng, this, args, call):
        return self.tuples(args[0], 'bt%d' % self.nth('bt'))

    def get_int(self, eng, this, args, call):
        e = self.e
        tag = 'it%d' % self.nth('it')
        r = rec_q(e, 'fbpcf::engine::tuple_generator::IArithmeticTupleGenerator::IntegerTuple')
        ct = [f for f in (e.tu.fns[m] for m in r['ms']) if len(f['ps']) == 3][0]
        p = self.cur
        A, B, C = (self.bfn((tag, x), p, z3.BitVecSort(64)) for x in 'abc')
        j = z3.BitVec(fresh_name('tj'), 64)
        v = e.construct(r['id'], ct, [A(j), B(j), C(j)])
        n64 = cast_int(args[0], 32, 0, 64)
        self.size_agree(tag, n64)
        return VecS(n64, lambda i: subst(v, lambda t: z3.substitute(t, (j, bv(i, 64)))))

    def comp(self, sizes, tag):
        """map from composite size to the requested number of composite tuples"""
        e = self.e
        m = e.load(sizes)
        r = rec_q(e, 'fbpcf::engine::tuple_generator::ITupleGenerator::CompositeBooleanTuple')
        ct = [f for f in (e.tu.fns[x] for x in r['ms']) if len(f['ps']) == 3][0]
        es = []
        p = self.cur
        for g, k, cnt in m.es:
            if g is not True or is_sym(k):
                raise Unsupported('composite sizes must be concrete in this specification')
            A = self.bfn((tag, k, 'a'), p)
            B = self.bfn((tag, k, 'b'), p, nd=2)
            C = self.bfn((tag, k, 'c'), p, nd=2)
            j = z3.BitVec(fresh_name('tj'), 64)
            v = e.construct(r['id'], ct, [A(j), Vec([B(j, z3.BitVecVal(i, 64)) for i in range(k)]), Vec([C(j, z3.BitVecVal(i, 64)) for i in range(k)])])
            n64 = cast_int(cnt, 32, 0, 64)
            self.size_agree((tag, k), n64)
            es.append((True, k, VecS(n64, lambda i, v=v, j=j: subst(v, lambda t: z3.substitute(t, (j, bv(i, 64)))))))
        return MapV(es)

    def get_comp(self, eng, this, args, call):
        return self.comp(args[0], 'ct%d' % self.nth('ct'))

    def get_both(self, eng, this, args, call):
        a = self.tuples(args[0], 'bt%d' % self.nth('bt'))
        return Rec('pair', {'first': a, 'second': self.comp(args[1], 'ct%d' % self.nth('ct'))})

    def open_all(self, eng, this, args, call):
        v = eng.load(args[0])
        isb = eng.types[eng.types[eng.types[call.f['ps'][0]['t']]['e']]['a'][0]['t']]['k'] == 'bool'
        i = self.nth('open')
        while len(self.opened) <= i:
            self.opened.append((isb, z3.Function('opened%d' % len(self.opened), self.B64, z3.BoolSort() if isb else z3.BitVecSort(64)), {}))
        kb, O, sent = self.opened[i]
        if kb != isb:
            raise Unsupported('parties open different kinds of secrets')
        if sent:
            q = next(iter(sent))
            eng.prove('parties open equally many secrets', eq_i(vlen(v), vlen(sent[q])))
        sent[self.cur] = v
        return VecS(vlen(v), lambda j: O(bv(j, 64)))

    # -- axioms, instantiated at the terms of a goal ------------------------
    def instantiate(self, goal):
        e = self.e
        work = [goal]
        for _ in range(4):
            new = []
            for isb, O, sent in self.opened:
                for a in apps_of(work, O):
                    if a.get_id() in self.done:
                        continue
                    self.done.add(a.get_id())
                    t = a.arg(0)
                    if len(sent) == self.N:
                        xs = [at(sent[p], t) for p in range(self.N)]
                        ax = eq_i(a, xor_all(xs) if isb else add_all(xs))
                        inr = z3.ULT(t, bv(vlen(sent[0]), 64))
                        e.fact(limp(inr, ax))
                        new.append(zb(ax))
            new += self.tuple_axioms(work + new)
            if not new:
                break
            work = new

    def tuple_axioms(self, work):
        e = self.e
        out = []
        keys = {k[0][:-1] for k in self.tup}
        for key in keys:
            pts = {}
            for (kk, p), F in list(self.tup.items()):
                if kk[:-1] == key:
                    for a in apps_of(work, F):
                        args = a.children()
                        pts[tuple(x.get_id() for x in args)] = args
            for args in pts.values():
                mk = (key, tuple(x.get_id() for x in args))
                if mk in self.done:
                    continue
                self.done.add(mk)
                self.keep = getattr(self, 'keep', []) + list(args)
                srt = z3.BitVecSort(64) if key[0].startswith('it') else None
                if key[0].startswith('ct'):
                    if len(args) < 2:
                        continue
                    a = xor_all([self.bfn(key + ('a',), p)(args[0]) for p in range(self.N)])
                    b = xor_all([self.bfn(key + ('b',), p, nd=2)(*args) for p in range(self.N)])
                    c = xor_all([self.bfn(key + ('c',), p, nd=2)(*args) for p in range(self.N)])
                    ax = eq_i(c, land(a, b))
                elif srt is None:
                    a, b, c = (xor_all([self.bfn(key + (x,), p)(args[0]) for p in range(self.N)]) for x in 'abc')
                    ax = eq_i(c, land(a, b))
                else:
                    a, b, c = (add_all([self.bfn(key + (x,), p, srt)(args[0]) for p in range(self.N)]) for x in 'abc')
                    ax = eq_i(c, a * b)
                e.fact(ax)
                out.append(zb(ax))
        return out

    def prove(self, name, goal, **kw):
        self.instantiate(zb(goal))
        return self.e.prove(name, goal, **kw)


def family(e, n, build):
    """sequence of n objects; build(j) makes the object for a generic index j (run once on the real constructor)"""
    j = z3.BitVec(fresh_name('fj'), 64)
    v = build(j)
    return VecS(n, lambda i: subst(v, lambda t: z3.substitute(t, (j, bv(i, 64)))))


def nested_rec(e, q):
    return rec_q(e, 'fbpcf::engine::SecretShareEngine::' + q)


def ctor_of(e, r, k):
    return [f for f in (e.tu.fns[m] for m in r['ms']) if len(f['ps']) == k and f.get('sp') not in ('copy', 'move') and f['n'] == r['q'].split('::')[-1]][0]


def build(e, q, args):
    """construct a gate record through its real constructor; args are values (passed by reference where needed)"""
    r = nested_rec(e, q)
    c = ctor_of(e, r, len(args))
    return e.construct(r['id'], c, [pass_arg(e, p, v) for p, v in zip(c['ps'], args)])


def engine_task(T_, N, supports, nand, batches, comps, bcomps, nmult, imults):
    """execute a mix of scheduled gates.  nand / nmult: None = any number; batches, imults: list of sizes (None = any size);
    comps: list of composite sizes; bcomps: list of (batch size, composite size)"""
    e = T_.eng('engine')
    e.split = bool(nmult is None or imults)
    g = Ghost(e, N)
    g.supports = supports
    g.install()
    B64 = z3.BitVecSort(64)
    Bo = z3.BoolSort()
    un = {}

    def size(name, n):
        if n is not None:
            return n
        x = z3.BitVec(name, 64)
        e.fact(z3.ULT(x, z3.BitVecVal(1 << 24, 64)))
        if 'batch' in name or 'imult' in name:
            e.fact(x != 0)      # empty batches are rejected where inputs are made
        return x

    def F(name, p, sort, nd):
        k = '%s_p%d' % (name, p)
        return z3.Function(k, *([B64] * nd + [sort]))

    def seq(n, name, p, sort):
        f = F(name, p, sort, 1)
        return Vec([f(z3.BitVecVal(i, 64)) for i in range(n)]) if isinstance(n, int) else VecS(n, lambda j: f(bv(j, 64)))
    I64 = z3.BitVecSort(64)
    n_and = size('n_and', nand)
    n_mult = size('n_mult', nmult)
    bs = [size('n_batch%d' % i, b) for i, b in enumerate(batches)]
    ims = [size('n_imult%d' % i, b) for i, b in enumerate(imults)]

    def gates(p):
        f = {}
        l, r = F('andl', p, Bo, 1), F('andr', p, Bo, 1)
        if isinstance(n_and, int):
            f['scheduledANDGates_'] = Vec([build(e, 'ScheduledAND', [l(z3.BitVecVal(i, 64)), r(z3.BitVecVal(i, 64))]) for i in range(n_and)])
        else:
            f['scheduledANDGates_'] = family(e, n_and, lambda j: build(e, 'ScheduledAND', [l(j), r(j)]))
        l2, r2 = F('mull', p, I64, 1), F('mulr', p, I64, 1)
        if isinstance(n_mult, int):
            f['scheduledMultGates_'] = Vec([build(e, 'ScheduledMult', [l2(z3.BitVecVal(i, 64)), r2(z3.BitVecVal(i, 64))]) for i in range(n_mult)])
        else:
            f['scheduledMultGates_'] = family(e, n_mult, lambda j: build(e, 'ScheduledMult', [l2(j), r2(j)]))
        f['scheduledBatchANDGates_'] = Vec([build(e, 'ScheduledBatchAND', [seq(b, 'bl%d' % i, p, Bo), seq(b, 'br%d' % i, p, Bo)]) for i, b in enumerate(bs)])
        f['scheduledBatchMultGates_'] = Vec([build(e, 'ScheduledBatchMult', [seq(b, 'iml%d' % i, p, I64), seq(b, 'imr%d' % i, p, I64)]) for i, b in enumerate(ims)])
        f['scheduledCompositeANDGates_'] = Vec([build(e, 'ScheduledCompositeAND', [F('cl%d' % i, p, Bo, 1)(z3.BitVecVal(0, 64)), seq(c, 'cr%d' % i, p, Bo)]) for i, c in enumerate(comps)])
        f['scheduledBatchCompositeANDGates_'] = Vec([build(e, 'ScheduledBatchCompositeAND', [seq(b, 'bcl%d' % i, p, Bo), Vec([seq(b, 'bcr%d_%d' % (i, q), p, Bo) for q in range(c)])]) for i, (b, c) in enumerate(bcomps)])
        return f
    ex = fn(e, S + 'executeScheduledOperations')
    engs = []
    for p in range(N):
        this = engine(e, p, N, **gates(p))
        g.start(p)
        callv(e, ex, this, [], 'executing scheduled gates')
        engs.append(this)
        after = e.load(this)
        for q in ('scheduledANDGates_', 'scheduledBatchANDGates_', 'scheduledCompositeANDGates_', 'scheduledBatchCompositeANDGates_', 'scheduledMultGates_', 'scheduledBatchMultGates_'):
            e.prove('nothing stays scheduled after execution', eq_i(vlen(after.f[q]), 0))
    e.cover('execution completes')

    def get(name, idx, p):
        f = fn(e, S + name)
        return callv(e, f, engs[p], [idx], name)

    def i32(j):
        return z3.Extract(31, 0, j) if is_sym(j) else j
    if is_sym(n_and) or n_and:
        for j in each_of(e, n_and):
            rs = [get('getANDExecutionResult', i32(j), p) for p in range(N)]
            g.prove('AND of the reconstructed operands', eq_i(xor_all(rs), land(xor_all([F('andl', p, Bo, 1)(j) for p in range(N)]), xor_all([F('andr', p, Bo, 1)(j) for p in range(N)]))))
    if is_sym(n_mult) or n_mult:
        for j in each_of(e, n_mult):
            rs = [get('getMultExecutionResult', i32(j), p) for p in range(N)]
            prove_mult(g, 'product of the reconstructed operands', rs, [F('mull', p, I64, 1)(j) for p in range(N)], [F('mulr', p, I64, 1)(j) for p in range(N)])
    for i, b in enumerate(bs):
        rs = [get('getBatchANDExecutionResult', i, p) for p in range(N)]
        for r in rs:
            e.prove('batch AND result size', eq_i(vlen(r), b))
        for j in each_of(e, b):
            g.prove('batch AND of the reconstructed operands', eq_i(xor_all([at(r, j) for r in rs]), land(xor_all([F('bl%d' % i, p, Bo, 1)(j) for p in range(N)]), xor_all([F('br%d' % i, p, Bo, 1)(j) for p in range(N)]))))
    for i, b in enumerate(ims):
        rs = [get('getBatchMultExecutionResult', i, p) for p in range(N)]
        for r in rs:
            e.prove('batch product result size', eq_i(vlen(r), b))
        for j in each_of(e, b):
            prove_mult(g, 'batch product of the reconstructed operands', [at(r, j) for r in rs], [F('iml%d' % i, p, I64, 1)(j) for p in range(N)], [F('imr%d' % i, p, I64, 1)(j) for p in range(N)])
    for i, c in enumerate(comps):
        rs = [get('getCompositeANDExecutionResult', i, p) for p in range(N)]
        for r in rs:
            e.prove('composite AND result size', eq_i(vlen(r), c))
        L = xor_all([F('cl%d' % i, p, Bo, 1)(z3.BitVecVal(0, 64)) for p in range(N)])
        for q in range(c):
            g.prove('composite AND of the reconstructed operands', eq_i(xor_all([at(r, q) for r in rs]), land(L, xor_all([F('cr%d' % i, p, Bo, 1)(z3.BitVecVal(q, 64)) for p in range(N)]))))
    for i, (b, c) in enumerate(bcomps):
        rs = [get('getBatchCompositeANDExecutionResult', i, p) for p in range(N)]
        for r in rs:
            e.prove('batch composite AND result count', eq_i(vlen(r), c))
        for q in range(c):
            for r in rs:
                e.prove('batch composite AND result size', eq_i(vlen(at(r, q)), b))
            for j in range(b):
                jj = z3.BitVecVal(j, 64)
                g.prove('batch composite AND of the reconstructed operands', eq_i(xor_all([at(at(r, q), j) for r in rs]), land(
                    xor_all([F('bcl%d' % i, p, Bo, 1)(jj) for p in range(N)]), xor_all([F('bcr%d_%d' % (i, q), p, Bo, 1)(jj) for p in range(N)]))))


def prove_mult(g, name, rs, ls, rr):
    """sum of result shares == (sum of left)*(sum of right): eliminated by ring normal form after substituting the openings"""
    e = g.e
    goal = eq_i(add_all(rs), add_all(ls) * add_all(rr))
    g.instantiate(zb(goal))
    e.prove(name, goal, timeout=30000)


ANYAND = [(2, s) for s in (True, False)] + [(3, False)]


@task('E02', 'engine', name='engine any number of ANDs', cases=ANYAND)
def any_ands(T_, N, sup):
    engine_task(T_, N, sup, None, [], [], [], 0, [])


@task('E02', 'engine', name='engine batch AND of any size', cases=ANYAND)
def any_batch(T_, N, sup):
    engine_task(T_, N, sup, 0, [None], [], [], 0, [])


@task('E02', 'engine', name='engine ANDs and batch ANDs of any size', cases=ANYAND, timeout=400)
def any_batches(T_, N, sup):
    engine_task(T_, N, sup, None, [None], [], [], 0, [])


@task('E02', 'engine', name='engine mixed boolean gates', cases=ANYAND, bounded='1 AND, batches of 2 and 1, composites of sizes 2,3,2, batch composites (2x2),(1x3)', timeout=400)
def mixed(T_, N, sup):
    engine_task(T_, N, sup, 1, [2, 1], [2, 3, 2], [(2, 2), (1, 3)], 0, [])


@task('E03', 'engine', name='engine any number of products', cases=[2, 3])
def any_mults(T_, N):
    engine_task(T_, N, False, 0, [], [], [], None, [])


@task('E03', 'engine', name='engine batch products of any size', cases=[(2, True), (3, False)])
def any_imults(T_, N, sup):
    engine_task(T_, N, sup, 0, [], [], [], 0, [None])


@task('E03', 'engine', name='engine products with batches of fixed sizes', cases=[(2, True), (3, False)], bounded='2 products, batches of 2, 1 and 3')
def some_imults(T_, N, sup):
    engine_task(T_, N, sup, 0, [], [], [], 2, [2, 1, 3])


@task('E03', 'engine', name='engine products and batch products of any size', cases=[(2, True), (3, False)], timeout=400)
def any_imults2(T_, N, sup):
    engine_task(T_, N, sup, 0, [], [], [], None, [None])


@task(['E02', 'E03'], 'engine', name='engine boolean and integer gates together', cases=[(2, True), (2, False)], bounded='1 AND, a batch AND of 2, a composite of 2, 1 product, a batch of 2 products')
def both(T_, N, sup):
    engine_task(T_, N, sup, 1, [2], [2] if sup else [], [], 1, [2])


# ------------------------------------------------------------------ inputs and outputs
import ghost


def lockstep(e, N, tag='c'):
    """engines whose pairwise generators share a seed and have served equally many requests (any number)"""
    ghost.install_prg(e)
    K = {(p, q): z3.BitVec('key_%d_%d' % (p, q), 128) for p in range(N) for q in range(N) if p != q}
    C = {k: z3.BitVec('cnt_%d_%d' % k, 64) for k in K}
    out = []
    for p in range(N):
        es = []
        for q in range(N):
            if q != p:
                es.append((True, q, Rec('pair', {'first': ghost.prg(e, K[p, q], C[p, q]), 'second': ghost.prg(e, K[q, p], C[q, p])})))
        out.append(engine(e, p, N, inputPrgs_=MapV(es)))
    return out


def check_lockstep(e, engs, what):
    st = {}
    N = len(engs)
    for p in range(N):
        m = e.load(engs[p]).f['inputPrgs_']
        seen = set()
        for g, q, v in m.es:
            if g is not True or is_sym(q):
                raise Unsupported('symbolic generator map')
            seen.add(q)
            st[p, q, 1] = ghost.prg_state(e, v.f['first'])
            st[p, q, 2] = ghost.prg_state(e, v.f['second'])
        e.prove('%s: a pair of generators for every other party' % what, seen == set(range(N)) - {p})
    for p in range(N):
        for q in range(N):
            if p != q:
                a, b = st[p, q, 1], st[q, p, 2]
                e.prove('%s: paired generators share their seed' % what, eq_i(a[0], b[0], 128))
                e.prove('%s: paired generators stay in step' % what, eq_i(a[1], b[1]))


def input_task(T_, N, op):
    e = T_.eng('engine')
    f = fn(e, S + 'set' + op)
    for owner in range(N):
        st0 = e.st
        e.st = e.st.copy()
        engs = lockstep(e, N)
        batch = 'Batch' in op
        integer = 'Integer' in op
        comb = add_all if integer else xor_all
        if batch:
            t = ptype(e, f['ps'][1])
            v = e.symbolic(t, 'value')
            n = vlen(v)
            e.assume(eq_i(n, 0) if False else lnot(eq_i(n, 0)))
            outs = []
            for p in range(N):
                # a party that does not own the input passes a dummy of the same size
                x = v
                if p != owner:
                    x = e.symbolic(t, 'dummy%d' % p)
                    e.assume(eq_i(vlen(x), n))
                outs.append(callv(e, f, engs[p], [owner, x], op))
            for o in outs:
                e.prove('%s keeps the size' % op, eq_i(vlen(o), n))
            with each(e, n) as j:
                e.prove('%s: the shares reconstruct the input' % op, eq_i(comb([at(o, j) for o in outs]), at(v, j)))
        else:
            v = z3.BitVec('value', 64) if integer else z3.Bool('value')
            outs = []
            for p in range(N):
                x = Opt(True, v) if p == owner else Opt(False, Undef)
                outs.append(callv(e, f, engs[p], [owner, x], op))
            e.prove('%s: the shares reconstruct the input' % op, eq_i(comb(outs), v))
        check_lockstep(e, engs, op)
        e.cover('input of party %d' % owner)
        e.st = st0


for _op in ('Input', 'BatchInput', 'IntegerInput', 'BatchIntegerInput'):
    task('E04', 'engine', name='engine input', cases=[(2, _op), (3, _op)])(input_task)


@task('E04', 'engine', name='engine input missing', cases=['Input', 'IntegerInput', 'BatchInput', 'BatchIntegerInput'])
def input_missing(T_, op):
    """the owner must provide a value"""
    e = T_.eng('engine')
    f = fn(e, S + 'set' + op)
    engs = lockstep(e, 2)
    x = Opt(False, Undef) if 'Batch' not in op else Vec([])
    alive, val, th = call(e, f, engs[0], [0, x])
    e.prove('%s: an absent input is rejected' % op, not alive and len(th) > 0)


@task('E04', 'engine', name='engine construction pairs the generators', cases=[2, 3])
def construct(T_, N):
    e = T_.eng('engine')
    ghost.install_prg(e)
    keys = {}
    cur = [None]
    e.contracts['fbpcf::engine::util::getRandomM128iFromSystemNoise'] = lambda eng, th, a, c: z3.BitVec(fresh_name('noise_p%d' % cur[0]), 128)
    sent = {}

    def exchange(eng, this, args, call):
        p = cur[0]
        m = eng.load(args[0])
        sent[p] = {k: v for g, k, v in m.es}
        eng.prove('a fresh key for every other party', set(sent[p]) == set(range(N)) - {p})
        return MapV([(True, q, z3.BitVec('sent_%d_to_%d' % (q, p), 128)) for q in range(N) if q != p])
    e.contracts[CA + 'exchangeKeys'] = exchange
    e.contracts['fbpcf::engine::util::IPrgFactory::create'] = lambda eng, th, a, c: ghost.prg(e, a[0], 0)
    r = rec_q(e, 'fbpcf::engine::SecretShareEngine')
    ct = [f for f in (e.tu.fns[m] for m in r['ms']) if f['n'] == 'SecretShareEngine' and len(f['ps']) == 6][0]
    engs = []
    for p in range(N):
        cur[0] = p
        v = e.construct(r['id'], ct, [iface(e, TG[:-2]), iface(e, AG[:-2]), iface(e, CA[:-2]), iface(e, 'fbpcf::engine::util::IPrgFactory'), p, N])
        engs.append(e.alloc(v, 'engine'))
    # what the peers received is what was sent
    for p in range(N):
        for q, k in sent[p].items():
            e.fact(bv(k, 128) == z3.BitVec('sent_%d_to_%d' % (p, q), 128))
    check_lockstep(e, engs, 'construction')
    for p in range(N):
        e.prove('my id is kept', eq_i(e.load(engs[p]).f['myId_'], p, 32))
        ks = list(sent[p].values())
        for i in range(len(ks)):
            for j in range(i):
                e.prove('keys for different parties are drawn independently', not (is_sym(ks[i]) and is_sym(ks[j]) and ks[i].eq(ks[j])))


@task('E04', 'engine', name='engine reveal', cases=[('std::vector<bool>',), ('std::vector<unsigned long>',)])
def reveal(T_, ty):
    """reveal opens exactly the given shares to exactly the given party and returns what was opened"""
    e = T_.eng('engine')
    got = []

    def opened(eng, this, args, call):
        v = eng.load(args[1])
        got.append((args[0], v))
        isb = 'bool' in ty
        F = z3.Function('revealed', z3.BitVecSort(64), z3.BoolSort() if isb else z3.BitVecSort(64))
        return VecS(vlen(v), lambda j: F(bv(j, 64)))
    e.contracts[CA + 'openSecretsToParty'] = opened
    f = [x for x in e.tu.fns.values() if x['q'] == S + 'revealToParty' and ('bool' in ty) == (e.types[e.types[ptype(e, x['ps'][1])]['a'][0]['t']]['k'] == 'bool')][0]
    v = e.symbolic(ptype(e, f['ps'][1]), 'shares')
    idp = z3.BitVec('receiver', 32)
    out = callv(e, f, engine(e, 0, 2), [idp, v], 'reveal')
    e.prove('one opening', len(got) == 1)
    e.prove('to the requested party', eq_i(got[0][0], idp, 32))
    e.prove('of every share', eq_i(vlen(got[0][1]), vlen(v)))
    with each(e, v) as j:
        e.prove('the share itself', eq_i(at(got[0][1], j), at(v, j)))
        F = z3.Function('revealed', z3.BitVecSort(64), z3.BoolSort() if 'bool' in ty else z3.BitVecSort(64))
        e.prove('the opened value is returned', eq_i(at(out, j), F(j)))


# ------------------------------------------------------------------ operations that need no party to know its number
LOCAL = {'SymmetricXOR': (2, lambda x, y: lxor(x, y)), 'SymmetricNOT': (1, lambda x: lnot(x)), 'FreeAND': (2, lambda x, y: land(x, y)),
         'SymmetricPlus': (2, lambda x, y: x + y), 'SymmetricNeg': (1, lambda x: -x), 'FreeMult': (2, lambda x, y: x * y)}


def local_op(T_, nm):
    """a party's result is a function of its own operands only: what the schedulers use for public values"""
    ar, op = LOCAL[nm]
    for batch in (False, True):
        e = T_.eng('engine')
        f = fn(e, S + 'compute' + ('Batch' if batch else '') + nm)
        my, N = z3.BitVec('my', 32), z3.BitVec('N', 32)
        xs = sym_args(e, f)
        if batch and ar == 2:
            e.assume(eq_i(vlen(xs[0]), vlen(xs[1])))
        out = callv(e, f, engine(e, my, N), xs, nm)
        if batch:
            e.prove('%s on one party: size' % nm, eq_i(vlen(out), vlen(xs[0])))
            with each(e, vlen(xs[0])) as j:
                e.prove('%s on one party' % nm, eq_i(at(out, j), op(*[at(x, j) for x in xs])))
        else:
            e.prove('%s on one party' % nm, eq_i(out, op(*xs)))


for _nm in LOCAL:
    task('E01' if 'Mult' not in _nm and 'Plus' not in _nm and 'Neg' not in _nm else 'E03', 'engine', name='engine local', cases=[(_nm,)])(local_op)
