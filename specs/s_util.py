"""Fixed-width integers, their bit representations, and the functional helpers."""
import z3
from spec import *
from s_crypto import arg_cell
from core import fresh_name
from s_tuples import c64, B64, B128, Bo

UT = 'fbpcf::mpc_std_lib::util::'


def intp(e, s, w):
    for t in (e.types.values() if isinstance(e.types, dict) else e.types):
        if t and t.get('k') == 'rec' and t['n'] == UT + 'Intp' and [int(x['i']) for x in t['a']] == [s, w]:
            return t
    raise Unsupported('Intp<%d,%d>' % (s, w))


def nat(w):
    return 8 if w <= 8 else 16 if w <= 16 else 32 if w <= 32 else 64


def canon(s, w, x):
    """the value of the low w bits"""
    n = nat(w)
    x = z3.Extract(w - 1, 0, x) if x.size() > w else x
    if w == n:
        return x
    return z3.SignExt(n - w, x) if s else z3.ZeroExt(n - w, x)


def val(e, s, w, name):
    return canon(s, w, z3.BitVec(name, w))


def ofn(e, q, t, np=None):
    return e.find_fn(UT + 'Intp::' + q, nparams=np, rec=t)


def v_of(e, r):
    r = e.load(r) if isinstance(r, Ptr) else r
    return r.f['v_']


GROUPS = [(s, lo, min(lo + 7, 64)) for s in (0, 1) for lo in range(1, 65, 8)]


def contracts(e, s, w):
    """rounding and the range check by what the tasks below prove of them"""
    n = nat(w)

    def rnd(eng, this, args, call):
        return canon(s, w, bv(args[0], n))

    def chk(eng, this, args, call):
        x = bv(args[0], n)
        eng.prove('width %d: a value in range' % w, eq_i(x, canon(s, w, x)))
        return x
    e.contracts[UT + 'Intp::round'] = rnd
    e.contracts[UT + 'Intp::validateValue'] = chk


@task('U01', 'util', name='integer arithmetic', cases=GROUPS)
def arith(T_, s, lo, hi):
    """sum, difference and negation modulo 2^width, in the value range of the type, for every value"""
    e = T_.eng('util')
    st0 = e.st
    for w in range(lo, hi + 1):
        t = intp(e, s, w)
        n = nat(w)
        obj = lambda x: e.alloc(Rec(t['id'], {'v_': x}), 'i')
        contracts(e, s, w)

        a, b = z3.BitVec('a', n), z3.BitVec('b', n)
        e.st = st0.copy()
        e.assume(land(a == canon(s, w, a), b == canon(s, w, b)))
        for q, args, want in (('operator+', [b], a + b), ('operator-', [b], a - b), ('operator-', [], -a)):
            f = ofn(e, q, t, len(args))
            out = callv(e, f, obj(a), [ByRef(obj(x)) for x in args], '%s, width %d' % (q, w))
            e.prove('%s%s modulo 2^%d' % (q, '' if args else ' (negation)', w), eq_i(bv(v_of(e, out), n), canon(s, w, want)))


@task('U01', 'util', name='integer range check', cases=GROUPS)
def valid(T_, s, lo, hi):
    """a value outside the range of the type is rejected, one inside is kept"""
    e = T_.eng('util')
    for w in range(lo, hi + 1):
        t = intp(e, s, w)
        n = nat(w)
        x = z3.BitVec('x', n)
        f = ofn(e, 'validateValue', t)
        st0 = e.st
        alive, out, th = call(e, f, None, [x])
        inside = x == canon(s, w, x)
        throws_iff(e, th, e.st.pc if alive else None, z3.Not(inside), 'width %d' % w)
        if alive:
            e.prove('the value itself', eq_i(bv(out, n), x))
        e.st = st0.copy()
        out = callv(e, ofn(e, 'round', t), None, [x], 'round')
        e.prove('width %d: rounding keeps the low bits' % w, eq_i(bv(out, n), canon(s, w, x)))
        e.st = st0.copy()


def adapter(e, q, t):
    for f in e.tu.byq[UT + 'Adapters::' + q]:
        if 'body' in f and e.types[f['rec']]['c'] == UT + 'Adapters<%s>' % t['c']:
            return f
    raise Unsupported('Adapters::' + q)


@task('U01', 'util', name='bits of integers', cases=GROUPS)
def to_bits(T_, s, lo, hi):
    """bit i of the representation is bit i of the value; reading it back gives the value; too many bits are rejected"""
    e = T_.eng('util')
    st0 = e.st
    for w in range(lo, hi + 1):
        e.st = st0.copy()
        t = intp(e, s, w)
        n = nat(w)
        low = z3.BitVec('a', w)
        a = canon(s, w, low)
        o = e.alloc(Rec(t['id'], {'v_': a}), 'i')
        bits = callv(e, adapter(e, 'convertToBits', t), None, [ByRef(o)], 'convertToBits %d' % w)
        e.prove('width %d: one bit per position' % w, eq_i(vlen(bits), w, 64))
        for i in range(w):
            e.prove('width %d: bit %d' % (w, i), eq_i(at(bits, i), z3.Extract(i, i, low) == 1))
        f = adapter(e, 'convertFromBits', t)
        xs = [z3.Bool('bit%d' % i) for i in range(w)]
        for m in sorted({0, 1, w // 2, w}):
            out = callv(e, f, None, [ByRef(e.alloc(Vec(xs[:m]), 'bits'))], 'convertFromBits %d' % w)
            want = z3.Concat(*[z3.If(xs[i], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if i < m else z3.BitVecVal(0, 1) for i in range(w - 1, -1, -1)]) if w > 1 else (z3.If(xs[0], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if m else z3.BitVecVal(0, 1))
            e.prove('width %d: value of %d bits' % (w, m), eq_i(bv(v_of(e, out), n), canon(s, w, want)))
        alive, out, th = call(e, f, None, [ByRef(e.alloc(Vec(xs + [z3.Bool('extra')]), 'bits'))])
        e.prove('width %d: too many bits are rejected' % w, not alive and len(th) > 0)
        e.st = st0.copy()
        k = z3.BitVec('key', 128)
        out = callv(e, adapter(e, 'generateFromKey', t), None, [k], 'generateFromKey %d' % w)
        e.prove('width %d: value of the low bits of a key' % w, eq_i(bv(v_of(e, out), n), canon(s, w, z3.Extract(w - 1, 0, k))))


class WordInv:
    """the low t bits are written, the others are still to come"""

    def __init__(self, e, src):
        self.e, self.src = e, src

    def bit(self, j):
        return z3.Extract(0, 0, z3.LShR(self.src, z3.Extract(31, 0, bv(j, 64)))) == 1

    def rest(self, t):
        return z3.If(z3.ULT(t, 32), z3.LShR(self.src, z3.Extract(31, 0, t)), z3.BitVecVal(0, 32))

    def check(self, L, when):
        e = self.e
        t, tmp, rst = bv(L.get('t'), 64), bv(L.get('tmp'), 32), L.get('rst')
        e.prove('%s: 32 bits' % when, land(eq_i(vlen(rst), 32, 64), z3.ULE(t, 32)))
        e.prove('%s: the bits to come' % when, eq_i(tmp, self.rest(t)))
        for j in range(32):
            e.prove('%s: bit %d' % (when, j), eq_i(at(rst, j), land(z3.ULT(j, t), self.bit(j))))

    def havoc(self, L):
        e = self.e
        t = z3.BitVec(fresh_name('t'), 64)
        e.assume(z3.ULE(t, 32))
        self.t = t
        L.set('t', t)
        L.set('tmp', self.rest(t))
        L.set('rst', VecS(c64(32), lambda j: land(z3.ULT(bv(j, 64), t), self.bit(j))))

    def measure(self, L):
        return c64(32) - bv(L.get('t'), 64)


@task('U01', 'util', name='bits of 32-bit words and aggregation values')
def words32(T_):
    e = T_.eng('util')
    A32 = [x for x in e.tu.byq[UT + 'Adapters::convertToBits'] if x['file'].endswith('uint32_impl.h')][0]
    F32 = [x for x in e.tu.byq[UT + 'Adapters::convertFromBits'] if x['file'].endswith('uint32_impl.h')][0]
    K32 = [x for x in e.tu.byq[UT + 'Adapters::generateFromKey'] if x['file'].endswith('uint32_impl.h')][0]
    a = z3.BitVec('a', 32)
    e.invariants[A32['q']] = WordInv(e, a)
    out = callv(e, A32, None, [ByRef(arg_cell(e, A32, 0, a))], 'to bits')
    e.invariants = {}
    word32 = lambda eng, this, args, call: (lambda x: Vec([z3.Extract(i, i, x) == 1 for i in range(32)]))(bv(eng.load(args[0].ptr if hasattr(args[0], 'ptr') else args[0]), 32))
    e.prove('32 bits', eq_i(vlen(out), 32, 64))
    for i in range(32):
        e.prove('bit %d' % i, eq_i(at(out, i), z3.Extract(i, i, a) == 1))
    xs = [z3.Bool('bit%d' % i) for i in range(33)]
    word = lambda b: z3.Concat(*[z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x in reversed(b)])
    for m in (0, 1, 7, 31, 32):
        out = callv(e, F32, None, [ByRef(e.alloc(Vec(xs[:m]), 'bits'))], 'from bits')
        e.prove('value of %d bits' % m, eq_i(bv(out, 32), z3.ZeroExt(32 - m, word(xs[:m])) if m > 1 else z3.ZeroExt(31, z3.If(xs[0], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))) if m else 0))
    alive, out, th = call(e, F32, None, [ByRef(e.alloc(Vec(xs), 'bits'))])
    e.prove('33 bits are rejected', not alive and len(th) > 0)
    e = T_.eng('util')
    k = z3.BitVec('key', 128)
    e.prove('low word of a key', eq_i(bv(callv(e, K32, None, [k], 'key'), 32), z3.Extract(31, 0, k)))
    g = {q: [x for x in e.tu.byq[UT + 'Adapters::' + q] if x['file'].endswith('aggregationValue_impl.h')][0] for q in ('convertToBits', 'convertFromBits', 'generateFromKey')}
    t = rec_q(e, UT + 'AggregationValue')
    c, v = z3.BitVec('count', 32), z3.BitVec('value', 32)
    av = e.alloc(Rec(t['id'], {'conversionCount': c, 'conversionValue': v}), 'av')
    # the two words of an aggregation value are converted by what was proved above
    conv = UT + 'Adapters::convertToBits'
    e.contracts[conv] = word32
    out = callv(e, g['convertToBits'], None, [ByRef(av)], 'to bits')
    del e.contracts[conv]
    e.prove('count, then value', eq_i(vlen(out), 64, 64))
    for i in range(64):
        e.prove('bit %d' % i, eq_i(at(out, i), z3.Extract(i % 32, i % 32, c if i < 32 else v) == 1))
    ys = [z3.Bool('b%d' % i) for i in range(65)]
    out = callv(e, g['convertFromBits'], None, [ByRef(e.alloc(Vec(ys[:64]), 'bits'))], 'from bits')
    e.prove('count and value', land(eq_i(bv(out.f['conversionCount'], 32), word(ys[:32])), eq_i(bv(out.f['conversionValue'], 32), word(ys[32:64]))))
    kk = callv(e, g['generateFromKey'], None, [k], 'key')
    e.prove('two words of a key', land(eq_i(bv(kk.f['conversionCount'], 32), z3.Extract(63, 32, k)), eq_i(bv(kk.f['conversionValue'], 32), z3.Extract(31, 0, k))))
    # group operations
    c2, v2 = z3.BitVec('count2', 32), z3.BitVec('value2', 32)
    bv2 = e.alloc(Rec(t['id'], {'conversionCount': c2, 'conversionValue': v2}), 'av')
    for q, np, args, wc, wv in (('operator+', 2, [av, bv2], c + c2, v + v2), ('operator-', 2, [av, bv2], c - c2, v - v2), ('operator-', 1, [av], -c, -v)):
        out = callv(e, [f for f in e.tu.byq[UT + q] if len(f['ps']) == np][0], None, [ByRef(x) for x in args], q)
        e.prove('%s component by component' % q, land(eq_i(bv(out.f['conversionCount'], 32), wc), eq_i(bv(out.f['conversionValue'], 32), wv)))
    out = callv(e, e.tu.byq[UT + 'operator=='][0], None, [ByRef(av), ByRef(bv2)], '==')
    e.prove('equality', eq_i(out, land(c == c2, v == v2)))
    callv(e, e.tu.byq[UT + 'operator+='][0], None, [ByRef(av), ByRef(bv2)], '+=')
    r = e.load(av)
    e.prove('+=', land(eq_i(bv(r.f['conversionCount'], 32), c + c2), eq_i(bv(r.f['conversionValue'], 32), v + v2)))
    for sz in (0, 63, 65):
        st0 = e.st
        alive, out, th = call(e, g['convertFromBits'], None, [ByRef(e.alloc(Vec(ys[:sz]), 'bits'))])
        e.prove('%d bits are rejected' % sz, not alive and len(th) > 0)
        e.st = st0.copy()


@task('U01', 'util', name='vectors')
def vectors(T_):
    """position by position, any length; unequal lengths are rejected"""
    for q, op in (('Add', lambda x, y: x + y), ('Xor', lambda x, y: x ^ y)):
        e = T_.eng('util')
        f = fn(e, 'fbpcf::vector::' + q)
        n, m = z3.ZeroExt(33, z3.BitVec('n', 31)), z3.ZeroExt(33, z3.BitVec('m', 31))
        F, G = z3.Function('a', B64, B64), z3.Function('b', B64, B64)
        alive, out, th = call(e, f, None, [VecS(n, lambda j: F(bv(j, 64))), VecS(m, lambda j: G(bv(j, 64)))])
        throws_iff(e, th, e.st.pc if alive else None, z3.Not(n == m), q)
        e.prove('as many as the operands', eq_i(vlen(out), n))
        with each(e, n) as j:
            e.prove('position by position', eq_i(at(out, j), op(F(j), G(j))))
        e.cover('reachable')


@task('U01', 'util', name='map and reduce')
def mapred(T_):
    e = T_.eng('util')
    n = z3.ZeroExt(33, z3.BitVec('n', 31))
    F = z3.Function('a', B64, B64)
    H = z3.Function('f', B64, B64)

    def deref(x):
        return bv(e.load(x) if isinstance(x, Ptr) else x, 64)
    out = callv(e, fn(e, 'fbpcf::functional::map'), None, [VecS(n, lambda j: F(bv(j, 64))), Clo([], {}, None, lambda eng, a, lv: H(deref(a[0])))], 'map')
    e.prove('one result per element', eq_i(vlen(out), n))
    with each(e, n) as j:
        e.prove('f of the element', eq_i(at(out, j), H(F(j))))


@task('U01', 'util', name='reduce', cases=list(range(0, 6)), bounded='up to 5 elements')
def reduce_(T_, n):
    e = T_.eng('util')
    xs = [z3.BitVec('x%d' % i, 64) for i in range(n)]
    G = z3.Function('g', B64, B64, B64)

    def deref(x):
        return bv(e.load(x) if isinstance(x, Ptr) else x, 64)
    alive, out, th = call(e, fn(e, 'fbpcf::functional::reduce'), None, [Vec(xs), Clo([], {}, None, lambda eng, a, lv: G(deref(a[0]), deref(a[1])))])
    if n == 0:
        e.prove('nothing to reduce is rejected', not alive and len(th) > 0)
        return
    w = xs[0]
    for x in xs[1:]:
        w = G(w, x)
    e.prove('from left to right', eq_i(out, w))
