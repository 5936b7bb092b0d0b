"""Frontend types: integers, bits and bit strings compute what the plaintext operation computes, for every value, every
width under contract, secret and public operands, single and batched."""
import z3
from spec import *
from sched_ghost import *

DRV = 'frontend'


def dname(S, W, P, Q, BT):
    return ('drv::D', (S, W, P, Q, BT))


def iname(S, W, P, BT):
    return ('fbpcf::frontend::Int', (S, W, P, 0, BT))


def bname(P, BT):
    return ('fbpcf::frontend::Bit', (P, 0, BT))


class F:
    """frontend world of one task: batch size, ghost scheduler, builders"""

    def __init__(self, T_, driver=DRV, batch=None):
        self.e = T_.eng(driver)
        self.s = Sched(self.e)
        self.bt = batch is not None
        self.n = None
        if self.bt:
            self.n = z3.BitVec('batch', 64) if batch == 'sym' else batch
            if batch == 'sym':
                self.e.assume(z3.ULT(self.n, z3.BitVecVal(1 << 31, 64)))
                self.e.assume(z3.UGT(self.n, z3.BitVecVal(0, 64)))

    def word(self, W, name):
        """an integer operand: a term, or a function of the index when batched"""
        if not self.bt:
            x = z3.BitVec(name, W)
            return x
        f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(W))
        return f

    def at(self, x, j):
        return x if not self.bt else x(bv(j, 64))

    def bits(self, x, W):
        if not self.bt:
            return [bit_of(x, i) for i in range(W)]
        return [memo(self.n, (lambda i: lambda j: bit_of(x(bv(j, 64)), i))(i)) for i in range(W)]

    def Int(self, S, W, P, x):
        e = self.e
        b = e.tu.find_rec(bname(P, self.bt))
        r = e.tu.find_rec(iname(S, W, P, self.bt))
        return mkobj(e, r, data_=Vec([self.s.bit(b, v, P) for v in self.bits(x, W)]))

    def boolean(self, name):
        if not self.bt:
            return z3.Bool(name)
        f = z3.Function(name, z3.BitVecSort(64), z3.BoolSort())
        return memo(self.n, lambda j: f(bv(j, 64)))

    def Bit(self, P, v):
        return self.s.bit(bname(P, self.bt), v, P)

    def val(self, o, j=None):
        """the integer a result object carries (at index j)"""
        bs = [self.s.bitval(b) for b in o.f['data_'].xs]
        if self.bt:
            bs = [at(b, j) for b in bs]
        return bools_to_bv(bs)

    def bval(self, o, j=None):
        v = self.s.bitval(o)
        return at(v, j) if self.bt else v

    def fn(self, rec, n):
        return fn(self.e, rec[0] + '::' + n, rec=self.e.tu.find_rec(rec))

    def size_ok(self, o, what):
        if self.bt:
            bs = o.f['data_'].xs if 'data_' in o.f else [o]
            for b in (bs.xs if isinstance(bs, Vec) else bs):
                self.e.prove('%s keeps the batch size' % what, eq_i(vlen(self.s.bitval(b)), self.n))

    def each(self):
        """all indices to look at: None for a single value, an arbitrary index of a batch"""
        if not self.bt:
            yield None
        elif isinstance(self.n, int):
            for i in range(self.n):
                yield z3.BitVecVal(i, 64)
        else:
            with each(self.e, self.n) as j:
                yield j


def lt_(S):
    return (lambda a, b: a < b) if S else z3.ULT


ARITH = {
    'add': lambda S, a, b: a + b,
    'sub': lambda S, a, b: a - b,
    'max': lambda S, a, b: z3.If(lt_(S)(a, b), b, a),
    'min': lambda S, a, b: z3.If(lt_(S)(a, b), a, b),
}
CMP = {
    'lt': lambda S, a, b: lt_(S)(a, b),
    'le': lambda S, a, b: z3.Not(lt_(S)(b, a)),
    'gt': lambda S, a, b: lt_(S)(b, a),
    'ge': lambda S, a, b: z3.Not(lt_(S)(a, b)),
    'eq': lambda S, a, b: a == b,
}


def int_task(T_, S, W, P, Q, BT):
    """every operation of one integer type"""
    D = dname(S, W, P, Q, BT)
    nm = '%s%d' % ('int' if S else 'uint', W)
    fr = F(T_, batch='sym' if BT else None)
    e = fr.e
    x, y = fr.word(W, 'x'), fr.word(W, 'y')
    A, B = fr.Int(S, W, P, x), fr.Int(S, W, Q, y)
    for op, sem in list(ARITH.items()) + list(CMP.items()):
        o = callv(e, fr.fn(D, op), NULL, [A, B], op)
        for j in fr.each():
            want = sem(S, fr.at(x, j), fr.at(y, j))
            if op in CMP:
                e.prove('%s %s gives the plaintext answer' % (nm, op), eq_i(fr.bval(o, j), want))
            else:
                e.prove('%s %s gives the plaintext result' % (nm, op), fr.val(o, j) == want)
        fr.size_ok(o, op)
    if S:
        o = callv(e, fr.fn(D, 'neg'), NULL, [A], 'neg')
        for j in fr.each():
            e.prove('%s negation' % nm, fr.val(o, j) == -fr.at(x, j))
        o = callv(e, fr.fn(D, 'abs'), NULL, [A], 'abs')
        for j in fr.each():
            v = fr.at(x, j)
            e.prove('%s absolute value' % nm, fr.val(o, j) == z3.If(v < 0, -v, v))
    for m, sec in (('muxs', True), ('muxp', False)):
        c = fr.boolean('choice')
        o = callv(e, fr.fn(D, m), NULL, [A, fr.Bit(sec, c), B], 'mux')
        for j in fr.each():
            cj = c if j is None else at(c, j)
            e.prove('%s mux takes the other value iff the choice is set' % nm, fr.val(o, j) == z3.If(zb(cj), fr.at(y, j), fr.at(x, j)))
    e.cover('operands')


def io_task(T_, S, W, P, Q, BT):
    """inputs, openings, share extraction, casts, indexing of one integer type"""
    D = dname(S, W, P, Q, BT)
    nm = '%s%d' % ('int' if S else 'uint', W)
    fr = F(T_, batch='sym' if BT else None)
    e, s = fr.e, fr.s
    x = fr.word(W, 'x')
    A = fr.Int(S, W, P, x)
    lo = -(1 << (W - 1)) if S else 0
    hi = (1 << (W - 1)) - 1 if S else (1 << W) - 1

    def inrange(v):
        if S:
            return z3.And(v >= lo, v <= hi) if W < 64 else z3.BoolVal(True)
        return z3.ULE(v, z3.BitVecVal(hi, 64)) if W < 64 else z3.BoolVal(True)
    # inputs: in-range values are represented exactly, anything else is rejected
    raw = z3.Function('raw', z3.BitVecSort(64), z3.BitVecSort(64)) if BT else z3.BitVec('raw', 64)
    v = VecS(fr.n, lambda j: raw(bv(j, 64))) if BT else raw
    for kind in ['priv'] if P else ['pub']:
        f = fr.fn(D, kind)
        party = z3.BitVec('party', 32)
        args = [v] + ([party] if kind == 'priv' else [])
        st0 = e.st
        if not BT:
            alive, o, th = call(e, f, NULL, args)
            throws_iff(e, th, e.st.pc if alive else None, z3.Not(inrange(raw)), '%s input out of range' % nm)
        else:
            e.bounded_batch = True
            o = None
        if BT:
            # every element in range (the rejection of a single element is the unbatched case)
            jq = z3.BitVec('jq', 64)
            e.assume(z3.ForAll([jq], inrange(raw(jq)), patterns=[raw(jq)]))
            o = callv(e, f, NULL, args, 'batch input in range')
        del s.inputs[:-W]
        for j in fr.each():
            w = raw if j is None else raw(j)
            e.prove('%s input is represented exactly' % nm, z3.Implies(inrange(w), fr.val(o, j) == z3.Extract(W - 1, 0, w)))
        if kind == 'priv':
            e.prove('%s input has one wire per bit' % nm, len(s.inputs) == W)
            for p, _ in s.inputs:
                e.prove('%s input belongs to the given party' % nm, eq_i(p, party, 32))
        fr.size_ok(o, 'input')
        e.st = st0
    ext = (lambda t: z3.SignExt(64 - W, t)) if S else (lambda t: z3.ZeroExt(64 - W, t))
    if not P:
        o = callv(e, fr.fn(D, 'value'), NULL, [A], 'getValue')
        if BT:
            e.prove('%s value keeps the batch size' % nm, eq_i(vlen(o), fr.n))
        for j in fr.each():
            e.prove('%s value is read back exactly' % nm, eq_i(at(o, j) if BT else o, ext(fr.at(x, j)) if W < 64 else fr.at(x, j)))
    else:
        party = z3.BitVec('receiver', 32)
        o = callv(e, fr.fn(D, 'open'), NULL, [A, party], 'open')
        for j in fr.each():
            e.prove('%s open carries the value' % nm, fr.val(o, j) == fr.at(x, j))
        for p, _ in s.opened:
            e.prove('%s opened to the given party' % nm, eq_i(p, party, 32))
        e.prove('%s every bit is opened once' % nm, len(s.opened) == W and len(set(w for _, w in s.opened)) == W)
        ex = callv(e, fr.fn(D, 'extract'), NULL, [A], 'extract')
        r = callv(e, fr.fn(D, 'recover'), NULL, [ex], 'recover')
        for j in fr.each():
            e.prove('%s recovering extracted shares gives the value back' % nm, fr.val(r, j) == fr.at(x, j))
        sv = callv(e, fr.fn(D, 'sharesValue'), NULL, [ex], 'value of extracted shares')
        for j in fr.each():
            e.prove('%s extracted shares as a number' % nm, eq_i(at(sv, j) if BT else sv, ext(fr.at(x, j)) if W < 64 else fr.at(x, j)))
        sb = callv(e, fr.fn(D, 'sharesBits'), NULL, [ex], 'bits of extracted shares')
        e.prove('%s one share per bit' % nm, eq_i(vlen(sb), W))
        for j in fr.each():
            for i in range(W):
                b = at(sb, i)
                e.prove('%s bit shares in order' % nm, eq_i(at(b, j) if BT else b, bit_of(fr.at(x, j), i)))
        # shares written as a number
        t = callv(e, fr.fn(D, 'shares'), NULL, [v], 'shares from a number')
        r = callv(e, fr.fn(D, 'recover'), NULL, [t], 'recover')
        for j in fr.each():
            e.prove('%s shares built from a number' % nm, fr.val(r, j) == z3.Extract(W - 1, 0, raw if j is None else raw(j)))
    for op, NW in (('up', (W * 2 + 1 if W < 32 else 64)), ('same', W), ('down', (W + 1) // 2)):
        if (op == 'up' and W >= 64) or (op == 'down' and W < 2):
            continue
        o = callv(e, fr.fn(D, op), NULL, [A], 'cast')
        for j in fr.each():
            v_ = fr.at(x, j)
            want = v_ if NW == W else z3.Extract(NW - 1, 0, v_) if NW < W else (z3.SignExt if S else z3.ZeroExt)(NW - W, v_)
            e.prove('%s cast to %d bits' % (nm, NW), fr.val(o, j) == want)
        fr.size_ok(o, 'cast')
    f = fr.fn(D, 'index')
    for i in range(W):
        o = callv(e, f, NULL, [A, i], 'index')
        for j in fr.each():
            e.prove('%s bit %d is addressed' % (nm, i), eq_i(fr.bval(o, j), bit_of(fr.at(x, j), i)))
    alive, _, th = call(e, f, NULL, [A, W])
    e.prove('%s index beyond the width is rejected' % nm, not alive and len(th) > 0)
    if BT:
        o = callv(e, fr.fn(D, 'size'), NULL, [A], 'batch size')
        e.prove('%s batch size' % nm, eq_i(o, fr.n))
    e.cover('operands')


WIDTHS = [1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 63, 64]
CASES = [(S, W, True, True, False) for W in WIDTHS for S in (True, False)]
CASES += [(S, W, P, Q, False) for S in (True, False) for W in (8, 64) for P, Q in ((True, False), (False, True), (False, False))]
BCASES = [(S, 4, P, Q, True) for S in (True, False) for P, Q in ((True, False), (False, True), (False, False))] + [(S, W, True, True, True) for S in (True, False) for W in (1, 2, 4, 8, 64)]
task('F02', DRV, name='integer operations', cases=CASES + BCASES)(int_task)
task('F03', DRV, name='integer inputs, outputs and casts', timeout=lambda S, W, P, Q, BT: 600 if BT else 120,
     tier=lambda S, W, P, Q, BT: 'thorough' if BT and W == 64 else 'quick', cases=CASES + BCASES)(io_task)


# ---------------------------------------------------------------- bits
def bitty(P, BT):
    return ('fbpcf::frontend::Bit', (P, 0, BT))


def callp(e, f, args):
    """call with given pointers for the reference parameters"""
    alive, val, th = e.run(lambda: e.call_fn(f, NULL, args))
    for t in th:
        e.prove('%s does not throw' % f['n'], False, pc=t.st.pc)
    if not alive:
        raise Dead()
    return val


def bit_task(T_, P, Q, BT):
    D = ('drv::B', (P, Q, BT))
    nm = '%s/%s%s bit' % ('secret' if P else 'public', 'secret' if Q else 'public', ' batch' if BT else '')
    fr = F(T_, batch='sym' if BT else None)
    e, s = fr.e, fr.s
    x, y, c3 = fr.boolean('x'), fr.boolean('y'), fr.boolean('c')
    A, B, C = fr.Bit(P, x), fr.Bit(Q, y), fr.Bit(Q, c3)

    def g(v, j):
        return v if j is None else at(v, j)
    for op, sem in (('band', land), ('bxor', lxor), ('bor', lor)):
        o = callv(e, fr.fn(D, op), NULL, [A, B], op)
        e.prove('%s: %s is secret iff an operand is' % (nm, op), s.secret[s.wid(o.f['id_'])] == (P or Q))
        for j in fr.each():
            e.prove('%s: %s' % (nm, op), eq_i(fr.bval(o, j), sem(g(x, j), g(y, j))))
        fr.size_ok(o, op)
    o = callv(e, fr.fn(D, 'bnot'), NULL, [A], 'bnot')
    for j in fr.each():
        e.prove('%s: not' % nm, eq_i(fr.bval(o, j), lnot(g(x, j))))
    for op in ('bandv', 'bands'):
        o = callv(e, fr.fn(D, op), NULL, [A, Vec([B, C, B])], op)
        e.prove('%s: composite AND has one result per operand' % nm, eq_i(vlen(o), 3))
        for k, w in enumerate((y, c3, y)):
            for j in fr.each():
                e.prove('%s: composite AND, result %d' % (nm, k), eq_i(fr.bval(at(o, k), j), land(g(x, j), g(w, j))))
    # inputs, values, opening, shares
    v = fr.boolean('v')
    if P:
        party = z3.BitVec('party', 32)
        del s.inputs[:]
        o = callv(e, fr.fn(D, 'priv'), NULL, [v, party], 'private input')
        e.prove('%s: private input goes in once' % nm, len(s.inputs) == 1)
        e.prove('%s: private input is owned by the given party' % nm, eq_i(s.inputs[0][0], party, 32))
        for j in fr.each():
            e.prove('%s: private input' % nm, eq_i(fr.bval(o, j), g(v, j)))
        del s.opened[:]
        o = callv(e, fr.fn(D, 'open'), NULL, [A, party], 'open')
        e.prove('%s: opened once, to the given party' % nm, len(s.opened) == 1 and eq_i(s.opened[0][0], party, 32))
        for j in fr.each():
            e.prove('%s: open carries the bit' % nm, eq_i(fr.bval(o, j), g(x, j)))
        o = callv(e, fr.fn(D, 'extract'), NULL, [A], 'extract')
        r = callv(e, fr.fn(D, 'recover'), NULL, [o], 'recover')
        e.prove('%s: a recovered bit is secret' % nm, s.secret[s.wid(r.f['id_'])])
        for j in fr.each():
            e.prove('%s: recovering an extracted share gives the bit back' % nm, eq_i(fr.bval(r, j), g(x, j)))
    else:
        o = callv(e, fr.fn(D, 'pub'), NULL, [v], 'public input')
        for j in fr.each():
            e.prove('%s: public input' % nm, eq_i(fr.bval(o, j), g(v, j)))
        o = callv(e, fr.fn(D, 'value'), NULL, [A], 'value')
        for j in fr.each():
            e.prove('%s: value' % nm, eq_i(g(o, j), g(x, j)))
    if BT:
        o = callv(e, fr.fn(D, 'size'), NULL, [A], 'size')
        e.prove('%s: batch size' % nm, eq_i(o, fr.n))
    e.cover('operands')


def ref_task(T_, P, BT):
    """reference counting of wires: every live Bit holds one reference of its wire, whatever is copied, moved or assigned"""
    D = ('drv::B', (P, P, BT))
    nm = '%s%s bit' % ('secret' if P else 'public', ' batch' if BT else '')
    fr = F(T_, batch='sym' if BT else None)
    e, s = fr.e, fr.s
    rec = e.tu.find_rec(bitty(P, BT))
    mk = lambda n: fr.Bit(P, fr.boolean(n))

    def idof(o):
        return s.wid(o.f['id_'])

    def trace():
        t = list(s.refs)
        del s.refs[:]
        return t
    for empty in (False, True):
        A = mk('x') if not empty else mkobj(e, rec, id_=Rec(s.rec, {'id_': Opt(False, Undef)}))
        a = None if empty else idof(A)
        w = ' of an empty bit' if empty else ''
        p = e.alloc(A, 'a')
        o = callp(e, fr.fn(D, 'copy'), [p])
        t = trace()
        # the copy and (when not elided) the returned temporary: net one new reference per live object
        e.prove('%s: copying%s takes exactly one more reference' % (nm, w), [x for x in t] == ([] if empty else [(1, a)]))
        e.prove('%s: the copy%s names the same wire' % (nm, w), s.empty(o) if empty else (not s.empty(o) and idof(o) == a))
        e.prove('%s: copying%s leaves the source' % (nm, w), s.empty(e.load(p)) if empty else idof(e.load(p)) == a)
        o = callp(e, fr.fn(D, 'moved'), [p])
        e.prove('%s: moving%s keeps the number of references' % (nm, w), trace() == [])
        e.prove('%s: the new bit%s names the wire' % (nm, w), s.empty(o) if empty else (not s.empty(o) and idof(o) == a))
        e.prove('%s: moving%s empties the source' % (nm, w), s.empty(e.load(p)))
        for empty2 in (False, True):
            A = mk('x') if not empty else mkobj(e, rec, id_=Rec(s.rec, {'id_': Opt(False, Undef)}))
            B = mk('y') if not empty2 else mkobj(e, rec, id_=Rec(s.rec, {'id_': Opt(False, Undef)}))
            a = None if empty else idof(A)
            b = None if empty2 else idof(B)
            for op in ('assign', 'moveAssign'):
                pa, pb = e.alloc(A, 'a'), e.alloc(B, 'b')
                callp(e, fr.fn(D, op), [pa, pb])
                t = trace()
                want = ([] if empty else [(-1, a)]) + ([(1, b)] if op == 'assign' and not empty2 else [])
                e.prove('%s: %s releases the old wire and %s the new one' % (nm, op, 'holds' if op == 'assign' else 'takes over'), sorted(t) == sorted(want))
                o = e.load(pa)
                e.prove('%s: %s names the new wire' % (nm, op), s.empty(o) if empty2 else (not s.empty(o) and idof(o) == b))
                o = e.load(pb)
                e.prove('%s: %s %s the source' % (nm, op, 'leaves' if op == 'assign' else 'empties'), (s.empty(o) if (empty2 or op == 'moveAssign') else (not s.empty(o) and idof(o) == b)))
    A = mk('x')
    a = idof(A)
    pa = e.alloc(A, 'a')
    callp(e, fr.fn(D, 'assign'), [pa, pa])
    t = trace()
    n, low = 1, 1
    for d, w in t:
        e.prove('%s: self assignment touches only its own wire' % nm, w == a)
        n += d
        low = min(low, n)
    e.prove('%s: self assignment keeps the wire alive and its count' % nm, n == 1 and low >= 1)
    e.prove('%s: self assignment keeps the wire' % nm, not s.empty(e.load(pa)) and idof(e.load(pa)) == a)
    # two live bits with the same wire: assignment must not drop the last reference in between
    B = mk('y')
    d = [f for f in e.tu.fns.values() if f.get('sp') == 'dtor' and e.types[f['rec']].get('id') == rec['id'] and 'body' in f]
    if not d:
        raise Unsupported('no destructor of Bit')
    pb = e.alloc(B, 'b')
    e.run(lambda: e.call_fn(d[0], pb, []))
    e.prove('%s: destruction releases the wire once' % nm, trace() == [(-1, idof(B))])
    E = mkobj(e, rec, id_=Rec(s.rec, {'id_': Opt(False, Undef)}))
    pe = e.alloc(E, 'e')
    e.run(lambda: e.call_fn(d[0], pe, []))
    e.prove('%s: destruction of an empty bit releases nothing' % nm, trace() == [])
    m = [f for f in e.tu.fns.values() if f['n'] == ('privateInput' if P else 'publicInput') and f.get('rec') is not None and e.types[f['rec']].get('id') == rec['id'] and 'body' in f]
    if m:
        v = fr.boolean('v')
        C = mk('z')
        pc = e.alloc(C, 'c')
        args = [pass_arg(e, q, u) for q, u in zip(m[0]['ps'], [v, 0])]
        e.run(lambda: e.call_fn(m[0], pc, args))
        e.prove('%s: a new input releases the old wire once' % nm, trace() == [(-1, idof(C))])
    e.cover('bits')


# ---------------------------------------------------------------- bit strings
LENS = (0, 1, 3)


def sobj(fr, P, BT, bits):
    e = fr.e
    r = e.tu.find_rec(('fbpcf::frontend::BitString', (P, 0, BT)))
    return mkobj(e, r, data_=Vec(bits))


def sval(fr, o):
    return [fr.s.bitval(b) for b in o.f['data_'].xs]


def string_task(T_, P, Q, BT, L):
    D = ('drv::B', (P, Q, BT))
    nm = '%s/%s%s string' % ('secret' if P else 'public', 'secret' if Q else 'public', ' batch' if BT else '')
    fr = F(T_, batch='sym' if BT else None)
    e, s = fr.e, fr.s
    xs, ys = [fr.boolean('x%d' % i) for i in range(L)], [fr.boolean('y%d' % i) for i in range(L)]
    mkA = lambda: sobj(fr, P, BT, [fr.Bit(P, v) for v in xs])
    A, B = mkA(), sobj(fr, Q, BT, [fr.Bit(Q, v) for v in ys])

    def g(v, j):
        return v if j is None else at(v, j)

    def same(what, got, want):
        e.prove('%s: %s has one bit per position' % (nm, what), len(got) == len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            if BT:
                e.prove('%s: %s keeps the batch size' % (nm, what), eq_i(vlen(a), fr.n))
            for j in fr.each():
                e.prove('%s: %s, bit %d' % (nm, what, i), eq_i(g(a, j), b(j)))
    for op, sem in (('sand', land), ('sxor', lxor)):
        o = callv(e, fr.fn(D, op), NULL, [A, B], op)
        same(op, sval(fr, o), [(lambda i: lambda j: sem(g(xs[i], j), g(ys[i], j)))(i) for i in range(L)])
    o = callv(e, fr.fn(D, 'snot'), NULL, [A], 'snot')
    same('not', sval(fr, o), [(lambda i: lambda j: lnot(g(xs[i], j)))(i) for i in range(L)])
    for m, sec in (('smux', True), ('smuxp', False)):
        c = fr.boolean('choice')
        o = callv(e, fr.fn(D, m), NULL, [A, fr.Bit(sec, c), B], 'mux')
        same('mux', sval(fr, o), [(lambda i: lambda j: ite_s(g(c, j), g(ys[i], j), g(xs[i], j)))(i) for i in range(L)])
    short = sobj(fr, Q, BT, [fr.Bit(Q, v) for v in ys[:-1]] if L else [fr.Bit(Q, fr.boolean('extra'))])
    for m in ('sand', 'sxor', 'smux', 'smuxp'):
        args = [A, short] if m in ('sand', 'sxor') else [A, fr.Bit(m == 'smux', fr.boolean('choice')), short]
        st0 = e.st
        alive, o, th = call(e, fr.fn(D, m), NULL, args)
        e.prove('%s: %s of strings of different lengths is rejected' % (nm, m), not alive and len(th) > 0)
        e.st = st0
    data = Vec(xs)
    if P:
        party = z3.BitVec('party', 32)
        del s.inputs[:]
        o = callv(e, fr.fn(D, 'spriv'), NULL, [data, party], 'private input')
        e.prove('%s: one input per bit' % nm, len(s.inputs) == L)
        for p_, _ in s.inputs:
            e.prove('%s: input owned by the given party' % nm, eq_i(p_, party, 32))
        same('private input', sval(fr, o), [(lambda i: lambda j: g(xs[i], j))(i) for i in range(L)])
        del s.opened[:]
        o = callv(e, fr.fn(D, 'sopen'), NULL, [A, party], 'open')
        e.prove('%s: every bit is opened once' % nm, len(s.opened) == L and len(set(w for _, w in s.opened)) == L)
        for p_, _ in s.opened:
            e.prove('%s: opened to the given party' % nm, eq_i(p_, party, 32))
        same('open', sval(fr, o), [(lambda i: lambda j: g(xs[i], j))(i) for i in range(L)])
        o = callv(e, fr.fn(D, 'sextract'), NULL, [A], 'extract')
        same('extracted shares', callv(e, fr.fn(D, 'ssharesValue'), NULL, [o], 'value of shares').xs, [(lambda i: lambda j: g(xs[i], j))(i) for i in range(L)])
        r = callv(e, fr.fn(D, 'srecover'), NULL, [o], 'recover')
        same('recovered', sval(fr, r), [(lambda i: lambda j: g(xs[i], j))(i) for i in range(L)])
        r = callv(e, fr.fn(D, 'srecover'), NULL, [callv(e, fr.fn(D, 'sshares'), NULL, [data], 'shares')], 'recover')
        same('recovered from values', sval(fr, r), [(lambda i: lambda j: g(xs[i], j))(i) for i in range(L)])
        if BT and L >= 2:
            # one inner batch of another size
            m = z3.BitVec('other', 64)
            alive, o, th = call(e, fr.fn(D, 'sshares'), NULL, [Vec(xs[:-1] + [VecS(m, lambda j: z3.BoolVal(False))])])
            throws_iff(e, th, e.st.pc if alive else None, lnot(eq_i(m, fr.n)), '%s: shares of unequal batch sizes' % nm)
    else:
        o = callv(e, fr.fn(D, 'spub'), NULL, [data], 'public input')
        same('public input', sval(fr, o), [(lambda i: lambda j: g(xs[i], j))(i) for i in range(L)])
        o = callv(e, fr.fn(D, 'svalue'), NULL, [A], 'value')
        same('value', o.xs, [(lambda i: lambda j: g(xs[i], j))(i) for i in range(L)])
    if BT:
        st0 = e.st
        alive, o, th = call(e, fr.fn(D, 'ssize'), NULL, [A])
        if L == 0:
            e.prove('%s: the batch size of no bits is rejected' % nm, not alive and len(th) > 0)
        else:
            e.prove('%s: batch size' % nm, alive and eq_i(o, fr.n))
        e.st = st0
    e.cover('operands')


# ---------------------------------------------------------------- batching and unbatching
def rebatch_task(T_, kind, P, k):
    """kind: bit, string or int; k others; then the combined value is split by the sizes again"""
    D = ('drv::B', (P, P, True)) if kind != 'int' else ('drv::D', (kind == 'int', 4, True, True, True))
    fr = F(T_, batch='sym')
    e, s = fr.e, fr.s
    L = 1 if kind == 'bit' else 2 if kind == 'string' else 4
    nm = '%s %s' % ('secret' if P else 'public', kind)
    sizes = [z3.ZeroExt(32, z3.BitVec('n%d' % i, 32)) for i in range(k + 1)]
    for n in sizes:
        e.assume(z3.ULT(n, z3.BitVecVal(1 << 20, 64)))
    fs = [[z3.Function('v%d_%d' % (i, b), z3.BitVecSort(64), z3.BoolSort()) for b in range(L)] for i in range(k + 1)]
    bt = bitty(P, True)

    def obj(i):
        bits = [s.bit(bt, memo(sizes[i], (lambda f: lambda j: f(bv(j, 64)))(f)), P) for f in fs[i]]
        if kind == 'bit':
            return bits[0]
        if kind == 'string':
            return sobj(fr, P, True, bits)
        return mkobj(e, e.tu.find_rec(iname(True, 4, True, True)), data_=Vec(bits))
    bitsof = (lambda o: [o]) if kind == 'bit' else (lambda o: o.f['data_'].xs)
    pre = 's' if kind == 'string' else ''
    objs = [obj(i) for i in range(k + 1)]
    o = callv(e, fr.fn(D, pre + 'batch'), NULL, [objs[0], Vec(objs[1:])], 'batching')
    total = sizes[0]
    for n in sizes[1:]:
        total = total + n

    def expect(b, j):
        r, off = fs[-1][b](j - (total - sizes[-1])), total - sizes[-1]
        for i in range(k - 1, -1, -1):
            start = sizes[0] * 0
            for n in sizes[:i]:
                start = start + n
            r = z3.If(z3.ULT(j, start + sizes[i]), fs[i][b](j - start), r)
        return r
    e.prove('%s: batching keeps every bit' % nm, len(bitsof(o)) == L)
    for b, x in enumerate(bitsof(o)):
        e.prove('%s: the combined batch has the sum of the sizes' % nm, eq_i(vlen(s.bitval(x)), total))
        with each(e, total) as j:
            e.prove('%s: batches are joined in order' % nm, eq_i(at(s.bitval(x), j), expect(b, j)))
    strat = e.alloc(Vec([z3.Extract(31, 0, n) for n in sizes]), 'strategy')
    f = fr.fn(D, pre + 'unbatch')
    r = callv(e, f, NULL, [o, strat], 'unbatching')
    e.prove('%s: one batch per size' % nm, eq_i(vlen(r), k + 1))
    for i in range(k + 1):
        q = at(r, i)
        e.prove('%s: unbatching keeps every bit' % nm, len(bitsof(q)) == L)
        for b, x in enumerate(bitsof(q)):
            e.prove('%s: batch %d has its size' % (nm, i), eq_i(vlen(s.bitval(x)), sizes[i]))
            with each(e, sizes[i]) as j:
                e.prove('%s: unbatching returns every batch' % nm, eq_i(at(s.bitval(x), j), fs[i][b](j)))
    if kind == 'string':
        bad = sobj(fr, P, True, [s.bit(bt, memo(sizes[0], lambda j: z3.BoolVal(True)), P)])
        alive, _, th = call(e, fr.fn(D, 'sbatch'), NULL, [objs[0], Vec([bad])])
        e.prove('string: batching strings of different lengths is rejected', not alive and len(th) > 0)
    e.cover('operands')


PQ = [(True, True), (True, False), (False, True), (False, False)]
task('F01', DRV, name='bit operations', cases=[(P, Q, BT) for P, Q in PQ for BT in (False, True)])(bit_task)
task('F01', DRV, name='wire references', cases=[(P, BT) for P in (True, False) for BT in (False, True)])(ref_task)
task('F01', DRV, name='bit strings', bounded=lambda P, Q, BT, L: 'strings of %d bits' % L, cases=[(P, Q, BT, L) for P, Q in PQ for BT in (False, True) for L in LENS])(string_task)
task('F03', DRV, name='batching', bounded=lambda kind, P, k: '%d batches' % (k + 1), cases=[('bit', True, 0), ('bit', True, 2), ('bit', False, 2), ('string', True, 1), ('string', True, 2), ('int', True, 1), ('int', True, 2)])(rebatch_task)


def family_task(T_, kind, P, op):
    """rebatching any number of values: exactly the wires of the parts, in order, reach the scheduler, and the wires it
    hands back are put in order"""
    e = T_.eng(DRV)
    s = Sched(e)
    D = ('drv::B', (P, P, True)) if kind != 'int' else ('drv::D', (True, 2, True, True, True))
    nm = '%s %s' % ('secret' if P else 'public', kind)
    L = 1 if kind == 'bit' else 2
    bit = e.tu.find_rec(bitty(P, True))
    rec = bit if kind == 'bit' else e.tu.find_rec(('fbpcf::frontend::BitString', (P, 0, True))) if kind == 'string' else e.tu.find_rec(iname(True, 2, True, True))
    k = z3.ZeroExt(32, z3.BitVec('others', 32))
    e.assume(z3.ULT(k, z3.BitVecVal(1 << 30, 64)))
    W = z3.Function('wire', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))

    def wireid(t):
        return Rec(s.rec, {'id_': Opt(True, t)})

    def bits(j):
        return [mkobj(e, bit, id_=wireid(W(bv(j, 64), z3.BitVecVal(b, 64)))) for b in range(L)]

    def obj(j):
        b = bits(j)
        return b[0] if kind == 'bit' else mkobj(e, rec, data_=Vec(b))
    IS_ = IS
    refs = lambda eng, th, a, c: None
    for n in ('increaseReferenceCount', 'decreaseReferenceCount', 'increaseReferenceCountBatch', 'decreaseReferenceCountBatch'):
        e.contracts[IS_ + n] = refs
    calls = []
    outs = []

    def batching(eng, th, a, c):
        v = s.arg(a[0])
        calls.append(v)
        return wireid(z3.BitVecVal(7000 + len(calls), 64))

    def unbatching(eng, th, a, c):
        f = z3.Function('part%d' % len(outs), z3.BitVecSort(64), z3.BitVecSort(64))
        st = eng.load(a[1])
        outs.append((s.arg(a[0]), f))
        return VecS(vlen(st), lambda j: wireid(f(bv(j, 64))))
    e.contracts[IS_ + 'batchingUp'] = batching
    e.contracts[IS_ + 'unbatching'] = unbatching
    f = lambda n: fn(e, D[0] + '::' + ('s' if kind == 'string' else '') + n, rec=e.tu.find_rec(D))
    bitsof = (lambda o: [o]) if kind == 'bit' else (lambda o: o.f['data_'].xs)
    me = obj(z3.BitVecVal(0, 64))
    if op == 'batch':
        others = VecS(k, lambda j: obj(simp(bv(j, 64) + 1)))
        o = callv(e, f('batch'), NULL, [me, others], 'batching')
        e.prove('%s: one combination per bit' % nm, len(calls) == L and len(bitsof(o)) == L)
        for b, c in enumerate(calls):
            e.prove('%s: every part takes part once' % nm, eq_i(vlen(c), simp(bv(k, 64) + 1)))
            with each(e, simp(bv(k, 64) + 1)) as j:
                e.prove('%s: parts are combined in order' % nm, eq_i(at(c, j).f['id_'].v, W(j, z3.BitVecVal(b, 64))))
            e.prove('%s: combined bit %d goes to its place' % (nm, b), eq_i(bitsof(o)[b].f['id_'].f['id_'].v, 7001 + b))
    else:
        stf = z3.Function('sizes', z3.BitVecSort(64), z3.BitVecSort(32))
        strat = e.alloc(VecS(k, lambda j: stf(bv(j, 64))), 'strategy')
        o = callv(e, f('unbatch'), NULL, [me, strat], 'unbatching')
        e.prove('%s: one split per bit' % nm, len(outs) == L)
        e.prove('%s: one part per size' % nm, eq_i(vlen(o), k))
        for b, (src, g) in enumerate(outs):
            e.prove('%s: bit %d is split' % (nm, b), eq_i(src.f['id_'].v, W(z3.BitVecVal(0, 64), z3.BitVecVal(b, 64))))
            with each(e, k) as j:
                e.prove('%s: parts come back in order' % nm, eq_i(bitsof(at(o, j))[b].f['id_'].f['id_'].v, g(j)))
    e.cover('wires')


task('F03', DRV, name='rebatching any number', cases=[(kd, P, op) for kd, P in (('bit', True), ('bit', False), ('string', True), ('int', True)) for op in ('batch', 'unbatch') if kd == 'bit' or op == 'batch'])(family_task)
