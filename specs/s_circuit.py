"""The AES circuit: its boxes, its rounds, counter mode."""
import z3
from spec import *
from core import fresh_name

AC = 'fbpcf::mpc_std_lib::aes_circuit::'


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


def sbox_table():
    t = []
    for x in range(256):
        i = next((y for y in range(256) if gmul(x, y) == 1), 0)
        r = 0x63
        for k in range(5):
            r ^= ((i << k) | (i >> (8 - k))) & 255
        t.append(r)
    return t


SB = sbox_table()
ISB = [SB.index(i) for i in range(256)]


def circuit(e):
    o = mkobj(e, rec_q(e, AC + 'AesCircuit'))
    return o if isinstance(o, VPtr) else e.alloc(o, 'circuit')


def fnc(e, q, np=None):
    return e.find_fn(AC + 'AesCircuit::' + q, nparams=np)


def table(t, x):
    """bits (most significant first) of t[x]"""
    out = []
    v = z3.Concat(*[z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for b in x])
    for k in range(8):
        out.append(z3.Or([v == i for i in range(256) if (t[i] >> (7 - k)) & 1]))
    return out


@task('L01', 'aescircuit', name='substitution boxes', cases=['sBoxInPlace', 'inverseSBoxInPlace'])
def boxes(T_, q):
    """the circuit computes the AES substitution (its inverse) on every byte"""
    e = T_.eng('aescircuit')
    xs = [z3.Bool('x%d' % i) for i in range(8)]
    p = e.alloc(Vec(xs), 'byte')
    callv(e, fnc(e, q), circuit(e), [ByRef(p)], q)
    out = e.load(p)
    want = table(SB if q == 'sBoxInPlace' else ISB, xs)
    e.prove('eight bits', eq_i(vlen(out), 8, 64))
    for k in range(8):
        e.prove('bit %d' % k, eq_i(at(out, k), want[k]))


def mix(w, m):
    """column of bytes (bit lists, most significant first) times the circulant matrix of row m"""
    out = []
    for i in range(4):
        byte = []
        for k in range(8):
            terms = []
            for j in range(4):
                c = m[(j - i) % 4]
                for b in range(8):
                    if (gmul(c, 1 << b) >> (7 - k)) & 1:
                        terms.append(w[j][7 - b])
            r = z3.BoolVal(False)
            for t in terms:
                r = z3.Xor(r, t)
            byte.append(r)
        out.append(byte)
    return out


@task('L01', 'aescircuit', name='mixing of columns', cases=['mixColumnsInPlace', 'inverseMixColumnsInPlace'])
def mixing(T_, q):
    """the circuit multiplies every column by the AES matrix (its inverse)"""
    e = T_.eng('aescircuit')
    w = [[z3.Bool('x%d_%d' % (i, j)) for j in range(8)] for i in range(4)]
    p = e.alloc(Vec([Vec(b) for b in w]), 'word')
    callv(e, fnc(e, q), circuit(e), [ByRef(p)], q)
    out = e.load(p)
    want = mix(w, [2, 3, 1, 1] if q == 'mixColumnsInPlace' else [14, 11, 13, 9])
    for i in range(4):
        for k in range(8):
            e.prove('byte %d, bit %d' % (i, k), eq_i(at(at(out, i), k), want[i][k]))


@task('L01', 'aescircuit', name='shifting of rows', cases=['shiftRowInPlace', 'inverseShiftRowInPlace'])
def shifting(T_, q):
    e = T_.eng('aescircuit')
    st = [[[z3.Bool('x%d_%d_%d' % (c, i, j)) for j in range(8)] for i in range(4)] for c in range(4)]
    p = e.alloc(Vec([Vec([Vec(b) for b in w]) for w in st]), 'block')
    callv(e, fnc(e, q), circuit(e), [ByRef(p)], q)
    out = e.load(p)
    d = 1 if q == 'shiftRowInPlace' else -1
    for c in range(4):
        for i in range(4):
            e.prove('column %d, row %d' % (c, i), z3.And(*[zb(eq_i(at(at(at(out, c), i), k), st[(c + d * i) % 4][i][k])) for k in range(8)]))


def bools(v, n):
    return [zb(at(v, i)) for i in range(n)]


def parity(x):
    """a word that is 0 or 1 as a sum modulo 2 of booleans: (booleans, constant)"""
    if z3.is_bv_value(x):
        return ([], bool(x.as_long())) if x.as_long() < 2 else None
    k = x.decl().kind()
    if k == z3.Z3_OP_ITE and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)):
        t, f = x.arg(1).as_long(), x.arg(2).as_long()
        return ([x.arg(0)], bool(f)) if {t, f} == {0, 1} else None
    if k == z3.Z3_OP_BXOR:
        bs, c = [], False
        for y in x.children():
            p = parity(y)
            if p is None:
                return None
            bs += p[0]
            c ^= p[1]
        return bs, c
    return None


def terms(x, acc):
    """the boolean as a sum modulo 2: toggles its terms in acc, returns the constant"""
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    k = x.decl().kind()
    if k == z3.Z3_OP_NOT:
        return not terms(x.arg(0), acc)
    if k == z3.Z3_OP_XOR or k == z3.Z3_OP_DISTINCT and x.num_args() == 2 and z3.is_bool(x.arg(0)):
        c = False
        for y in x.children():
            c ^= terms(y, acc)
        return c
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(x.arg(0)):
        return not (terms(x.arg(0), acc) ^ terms(x.arg(1), acc))
    if (k == z3.Z3_OP_DISTINCT and x.num_args() == 2 or k == z3.Z3_OP_EQ) and z3.is_bv(x.arg(0)):
        p = [parity(y) for y in x.children()]
        if None not in p:
            c = k == z3.Z3_OP_EQ
            for bs, d in p:
                c ^= d
                for b in bs:
                    c ^= terms(b, acc)
            return c
    i = x.get_id()
    if i in acc:
        del acc[i]
    else:
        acc[i] = x
    return False


class Boxes:
    """the substitution box and its inverse as uninterpreted functions of eight bits: equal sums of terms in, the same symbols out"""
    def __init__(self):
        self.memo = {}

    def __call__(self, kind, xs):
        key = [kind]
        for x in xs:
            acc = {}
            c = terms(x, acc)
            key.append((c, tuple(sorted(acc))))
        key = tuple(key)
        if key not in self.memo:
            n = len(self.memo)
            self.memo[key] = ([z3.Bool('%s%d_%d' % (kind, n, k)) for k in range(8)], xs)
        return self.memo[key][0]


def norm(x):
    """sums modulo 2 in one order, equal terms cancelled"""
    acc = {}
    c = terms(x, acc)
    r = None
    for i in sorted(acc):
        r = acc[i] if r is None else z3.Xor(r, acc[i])
    r = z3.BoolVal(False) if r is None else r
    return z3.Not(r) if c else r


ENC, DEC = [2, 3, 1, 1], [14, 11, 13, 9]


def contracts(e, bx):
    """the boxes uninterpreted (the AES ones by the tasks above), the column mixing as the products proved above"""
    def box(kind):
        def c(eng, this, args, call):
            p = args[0].ptr if hasattr(args[0], 'ptr') else args[0]
            eng.store(p, Vec(bx(kind, bools(eng.load(p), 8))))
        return c

    def mixc(m):
        def c(eng, this, args, call):
            p = args[0].ptr if hasattr(args[0], 'ptr') else args[0]
            w = eng.load(p)
            out = mix([[norm(b) for b in bools(at(w, i), 8)] for i in range(4)], m)
            eng.store(p, Vec([Vec([norm(b) for b in x]) for x in out]))
        return c
    e.contracts[AC + 'AesCircuit::sBoxInPlace'] = box('box')
    e.contracts[AC + 'AesCircuit::inverseSBoxInPlace'] = box('ibox')
    e.contracts[AC + 'AesCircuit::mixColumnsInPlace'] = mixc(ENC)
    e.contracts[AC + 'AesCircuit::inverseMixColumnsInPlace'] = mixc(DEC)


def rounds(st, keys, enc, bx):
    """128 bits through the cipher; keys(r, i) is bit i of round key r"""
    byte = lambda s, c, r: s[32 * c + 8 * r:32 * c + 8 * r + 8]
    add = lambda s, r: [norm(z3.Xor(x, keys(r, i))) for i, x in enumerate(s)]

    def sub(s, F):
        return [b for c in range(4) for r in range(4) for b in bx(F, byte(s, c, r))]

    def shift(s, d):
        return [b for c in range(4) for r in range(4) for b in byte(s, (c + d * r) % 4, r)]

    def mixs(s, F):
        return [norm(b) for c in range(4) for w in mix([byte(s, c, r) for r in range(4)], F) for b in w]
    s = add(st, 0)
    for r in range(1, 11):
        if enc:
            s = shift(sub(s, 'box'), 1)
            if r != 10:
                s = mixs(s, ENC)
        else:
            s = sub(shift(s, -1), 'ibox')
            if r != 10:
                s = mixs(s, DEC)
        s = add(s, r)
    return s


@task('L01', 'aescircuit', name='cipher', cases=[(q, n) for q in ('encrypt', 'decrypt') for n in (0, 1, 2, 3)], bounded='up to 3 blocks')
def cipher(T_, q, n):
    """each block goes through the AES rounds under the given round keys, independently of the others"""
    e = T_.eng('aescircuit')
    bx = Boxes()
    contracts(e, bx)
    xs = [z3.Bool('x%d' % i) for i in range(128 * n)]
    ks = [z3.Bool('k%d' % i) for i in range(1408)]
    f = e.find_fn(AC + 'IAesCircuit::' + q)
    out = callv(e, f, circuit(e), [ByRef(e.alloc(Vec(xs), 'text')), ByRef(e.alloc(Vec(ks), 'key'))], q)
    e.prove('as many bits', eq_i(vlen(out), 128 * n, 64))
    for b in range(n):
        want = rounds(xs[128 * b:128 * b + 128], lambda r, i: ks[128 * r + i], q == 'encrypt', bx)
        for i in range(128):
            e.prove('block %d, bit %d' % (b, i), eq_i(norm(zb(at(out, 128 * b + i))), want[i]))


B64 = z3.BitVecSort(64)


@task('L01', 'aescircuit', name='sizes', cases=['encrypt', 'decrypt'])
def sizes(T_, q):
    """texts that are no whole blocks and keys that are not eleven round keys are rejected, others are not"""
    e = T_.eng('aescircuit')
    n, k = (z3.ZeroExt(33, z3.BitVec(x, 31)) for x in 'nk')
    F, K = z3.Function('text', B64, z3.BoolSort()), z3.Function('key', B64, z3.BoolSort())
    R = z3.Function('result', B64, z3.BoolSort())
    for w in ('encrypt_impl', 'decrypt_impl'):
        e.contracts[AC + 'AesCircuit::' + w] = (lambda v: lambda eng, this, args, call: VecS(vlen(eng.load(args[0].ptr if hasattr(args[0], 'ptr') else args[0])), lambda j: z3.Not(R(bv(j, 64))) if v else R(bv(j, 64))))(w != q + '_impl')
    alive, out, th = call(e, e.find_fn(AC + 'IAesCircuit::' + q), circuit(e), [ByRef(e.alloc(VecS(n, lambda j: F(bv(j, 64))), 'text')), ByRef(e.alloc(VecS(k, lambda j: K(bv(j, 64))), 'key'))])
    throws_iff(e, th, e.st.pc if alive else None, z3.Or(n % 128 != 0, k != 1408), q)
    e.prove('the rounds of ' + q, eq_i(vlen(out), n))
    with each(e, n) as j:
        e.prove('bit by bit', eq_i(at(out, j), R(j)))


class BlockInv:
    """the first k blocks are done"""

    def __init__(self, e, n, want):
        self.e, self.n, self.want = e, n, want

    def applies(self, L):
        return not L.fr.loops

    def check(self, L, when):
        e = self.e
        i, rst = bv(L.get('i'), 32), L.get('rst')
        if when.startswith('before'):
            e.prove('%s: nothing yet' % when, land(eq_i(i, 0, 32), eq_i(vlen(rst), 0, 64)))
            return
        e.prove('%s: next block' % when, land(eq_i(i, z3.Extract(31, 0, self.k + 1)), eq_i(vlen(rst), (self.k + 1) << 7)))
        with each(e, self.k << 7) as j:
            e.prove('%s: earlier bits stay' % when, eq_i(at(rst, j), self.want(j)))
        with each(e, z3.BitVecVal(128, 64)) as j:
            q = (self.k << 7) + j
            e.prove('%s: the bits of the block' % when, eq_i(at(rst, q), self.want(q)))

    def havoc(self, L):
        self.k = z3.ZeroExt(40, z3.BitVec(fresh_name('block'), 24))
        self.e.assume(z3.ULE(self.k << 7, self.n))
        L.set('i', z3.Extract(31, 0, self.k))
        L.set('rst', VecS(self.k << 7, lambda j: self.want(bv(j, 64))))

    def measure(self, L):
        return self.n - (z3.ZeroExt(32, bv(L.get('i'), 32)) << 7)


@task('L01', 'aescircuit', name='counter mode', cases=['encrypt', 'decrypt'])
def ctr(T_, q):
    """the text exclusive-or the encrypted counters, for any number of blocks; sizes that do not fit are rejected"""
    e = T_.eng('aescircuit')
    n, m, k = (z3.ZeroExt(33, z3.BitVec(x, 31)) for x in 'nmk')
    F, K, M, R = (z3.Function(x, B64, z3.BoolSort()) for x in ('text', 'key', 'counters', 'pad'))
    ok = []

    def enc(eng, this, args, call):
        a, b = [eng.load(x.ptr if hasattr(x, 'ptr') else x) for x in args]
        j = z3.BitVec('any', 64)
        eng.prove('the counters are encrypted', land(eq_i(vlen(a), m), limp(z3.ULT(j, m), eq_i(at(a, j), M(j)))))
        eng.prove('under the key', land(eq_i(vlen(b), k), limp(z3.ULT(j, k), eq_i(at(b, j), K(j)))))
        ok.append(1)
        return VecS(vlen(a), lambda j: R(bv(j, 64)))
    e.long_loop = 16
    e.invariants[AC + 'AesCircuitCtr::encrypt_impl'] = BlockInv(e, n, lambda j: z3.Xor(F(j), R(j)))
    e.contracts[AC + 'IAesCircuit::encrypt'] = enc
    r = rec_q(e, AC + 'AesCircuitCtr')
    c = e.alloc(mkobj(e, r, AesCircuit_=circuit(e)), 'ctr')
    alive, out, th = call(e, e.find_fn(AC + 'IAesCircuitCtr::' + q), c, [ByRef(e.alloc(VecS(s, lambda j, G=G: G(bv(j, 64))), 'in')) for s, G in ((n, F), (k, K), (m, M))])
    throws_iff(e, th, e.st.pc if alive else None, z3.Or(n % 128 != 0, k != 1408, n != m), q)
    e.prove('the circuit is used', bool(ok))
    e.prove('as many bits', eq_i(vlen(out), n))
    with each(e, n) as j:
        e.prove('text exclusive-or pad', eq_i(at(out, j), z3.Xor(F(j), R(j))))
    e.cover('reachable')
