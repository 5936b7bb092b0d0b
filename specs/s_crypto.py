"""AES, the generator built on it, block helpers and the packing of bits for messages."""
import z3
from spec import *
from ghost import *
import intrin
from s_tuples import c64, eq_v, vmap, vmap_i, iface, UT, CAG, B64, B128, Bo, agent

AES = UT + 'Aes::'
PRG = UT + 'AesPrg::'


def arg_cell(e, f, i, v, hint='data'):
    """a cell of the type of parameter i, passed by reference"""
    t = f['ps'][i]['t']
    while e.types[t]['k'] in ('ref', 'ptr', 'rref', 'lref'):
        t = e.types[t]['e']
    return e.alloc(v, hint, t)


def b8(x):
    return z3.BitVecVal(x, 8)


def byte(x, i):
    return z3.Extract(8 * i + 7, 8 * i, x)


def block(bs):
    """16 bytes, the first one lowest in memory"""
    return z3.Concat(*[bv(b, 8) for b in reversed(bs)])


def fips_keys(key):
    """FIPS 197, 5.2: words w0..w43 (S-box uninterpreted)"""
    w = [[byte(key, 4 * i + k) for k in range(4)] for i in range(4)]
    rcon = 1
    for i in range(4, 44):
        t = w[i - 1]
        if i % 4 == 0:
            t = [bv(intrin.sub(x), 8) for x in t[1:] + t[:1]]
            t = [t[0] ^ b8(rcon)] + t[1:]
            rcon = (rcon << 1) ^ (0x11b if rcon & 0x80 else 0)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    return [block(sum(w[4 * r:4 * r + 4], [])) for r in range(11)]


def xtime(x):
    return (x << 1) ^ z3.If(z3.Extract(7, 7, x) == 1, b8(0x1b), b8(0))


def fips_round(x, k, last):
    """FIPS 197, 5.1: SubBytes, ShiftRows, MixColumns, AddRoundKey; state byte s[r][c] is input byte r + 4c"""
    s = [[bv(intrin.sub(byte(x, r + 4 * c)), 8) for c in range(4)] for r in range(4)]
    s = [[s[r][(c + r) % 4] for c in range(4)] for r in range(4)]
    if not last:
        t = [[None] * 4 for _ in range(4)]
        for c in range(4):
            a = [s[r][c] for r in range(4)]
            for r in range(4):
                t[r][c] = xtime(a[r]) ^ xtime(a[(r + 1) % 4]) ^ a[(r + 1) % 4] ^ a[(r + 2) % 4] ^ a[(r + 3) % 4]
        s = t
    return block([s[i % 4][i // 4] for i in range(16)]) ^ k


@task('C01', 'tuples', name='AES key schedule')
def key_schedule(T_):
    """every key: the eleven round keys are those of FIPS 197"""
    e = T_.eng('tuples')
    key = z3.BitVec('key', 128)
    v = callv(e, fn(e, AES + 'expandEncryptionKey'), NULL, [key], 'expand')
    want = fips_keys(key)
    for i in range(11):
        e.prove('round key %d' % i, eq_i(at(v, i), want[i]))
    e.cover('reachable')


@task('C01', 'tuples', name='AES decryption keys')
def dec_schedule(T_):
    """every key: reversed order, the inner keys through InvMixColumns"""
    e = T_.eng('tuples')
    key = z3.BitVec('key', 128)
    ks = [z3.BitVec('rk%d' % i, 128) for i in range(11)]
    e.contracts[AES + 'expandEncryptionKey'] = lambda eng, this, args, call: Vec(ks)
    v = callv(e, fn(e, AES + 'expandDecryptionKey'), NULL, [key], 'expand')
    for i in range(11):
        j = 10 - i
        w = ks[j] if i in (0, 10) else intrin.cat(intrin.mixcols(intrin.lanes(ks[j], 8), intrin.IMC), 8)
        e.prove('round key %d' % i, eq_i(at(v, i), w))


@task('C01', 'tuples', name='AES rounds')
def rounds(T_):
    """one round of the modelled instruction is the round of FIPS 197"""
    e = T_.eng('tuples')
    x, k = z3.BitVec('state', 128), z3.BitVec('key', 128)
    for last in (False, True):
        e.prove('round%s' % (' without MixColumns' if last else ''), eq_i(intrin.enc(x, k, last), fips_round(x, k, last)))


ROUND = [z3.Function(n, B128, B128, B128) for n in ('aes_round', 'aes_last_round')]


def aes_fn(rks, x):
    x = x ^ rks[0]
    for i in range(1, 10):
        x = ROUND[0](x, rks[i])
    return ROUND[1](x, rks[10])


def with_rounds(f):
    old = intrin.enc
    intrin.enc = lambda v, key, last: ROUND[last](bv(v, 128), bv(key, 128))
    try:
        return f()
    finally:
        intrin.enc = old


@task('C01', 'tuples', name='AES encryption')
def encrypt(T_):
    """any number of blocks, any round keys: every block goes through the ten rounds in order, on its own"""
    e = T_.eng('tuples')
    n = z3.ZeroExt(33, z3.BitVec('n', 31))
    ks = [z3.BitVec('rk%d' % i, 128) for i in range(11)]
    F = z3.Function('plain', B64, B128)
    this = e.alloc(mkobj(e, rec_q(e, AES[:-2]), roundKey_=Vec(ks)), 'aes')
    p = arg_cell(e, fn(e, AES + 'encryptInPlace'), 0, VecS(n, lambda j: F(bv(j, 64))))
    with_rounds(lambda: callv(e, fn(e, AES + 'encryptInPlace'), this, [ByRef(p)], 'encrypt'))
    out = e.load(p)
    e.prove('as many blocks', eq_i(vlen(out), n))
    with each(e, n) as j:
        e.prove('encrypted block', eq_i(at(out, j), aes_fn(ks, F(j))))
    e.cover('reachable')


ENCF = z3.Function('aes_enc', B128, B128, B128)


def install_cipher(e):
    """Aes objects under contract: the key is kept, encryption is a function of key and block"""
    e.contracts[AES + 'expandEncryptionKey'] = lambda eng, this, args, call: Rec('keyed', {'key': eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]})

    def enc(eng, this, args, call):
        key = bv(eng.load(this).f['roundKey_'].f['key'], 128)
        v = eng.load(args[0])
        eng.store(args[0], vmap(v, lambda x: ENCF(key, bv(x, 128))))
    e.contracts[AES + 'encryptInPlace'] = enc


def cipher(e, key):
    return mkobj(e, rec_q(e, AES[:-2]), roundKey_=Rec('keyed', {'key': key}))


@task('C01', 'tuples', name='AES hash')
def aes_hash(T_):
    e = T_.eng('tuples')
    install_cipher(e)
    n = z3.ZeroExt(33, z3.BitVec('n', 31))
    e.assume(n != 0)
    F = z3.Function('plain', B64, B128)
    key = z3.BitVec('key', 128)
    this = e.alloc(cipher(e, key), 'aes')
    p = arg_cell(e, fn(e, AES + 'inPlaceHash'), 0, VecS(n, lambda j: F(bv(j, 64))))
    callv(e, fn(e, AES + 'inPlaceHash'), this, [ByRef(p)], 'hash')
    out = e.load(p)
    e.prove('as many blocks', eq_i(vlen(out), n))
    with each(e, n) as j:
        e.prove('encryption plus the block itself', eq_i(at(out, j), ENCF(key, F(j)) ^ F(j)))
    e.cover('reachable')


@task('C01', 'tuples', name='key expander')
def expander(T_):
    """any number of keys: key i controls outputs 2i and 2i+1 through two fixed ciphers"""
    e = T_.eng('tuples')
    install_cipher(e)
    n = z3.ZeroExt(34, z3.BitVec('n', 30))
    e.assume(n != 0)
    F = z3.Function('keys', B64, B128)
    k0, k1 = z3.BitVec('c0', 128), z3.BitVec('c1', 128)
    this = e.alloc(mkobj(e, rec_q(e, UT + 'Expander'), cipher0_=cipher(e, k0), cipher1_=cipher(e, k1)), 'expander')
    out = callv(e, fn(e, UT + 'Expander::expand'), this, [VecS(n, lambda j: F(bv(j, 64)))], 'expand')
    e.prove('twice as many', eq_i(vlen(out), n << 1))
    with each(e, n) as j:
        for b, k in ((0, k0), (1, k1)):
            q = z3.simplify(z3.Concat(z3.Extract(62, 0, j), z3.BitVecVal(b, 1)))
            e.prove('child %d' % b, eq_i(at(out, q), ENCF(k, F(j)) ^ F(j)))
    e.cover('reachable')


@task('C01', 'tuples', name='block helpers', cases=['getLsb', 'getMsb', 'getLast64Bits', 'setLsbTo0', 'setLsbTo1', 'lShiftByBitsInPlace', 'buildM128i'])
def helpers(T_, n):
    e = T_.eng('tuples')
    x = z3.BitVec('x', 128)
    f = fn(e, UT + n)
    if n == 'buildM128i':
        bs = [z3.BitVec('byte%d' % i, 8) for i in range(16)]
        e.prove('bytes in memory order', eq_i(callv(e, f, NULL, [Vec(bs)], n), block(bs)))
        return
    if n.startswith('get'):
        v = callv(e, f, NULL, [x], n)
        w = {'getLsb': lambda: z3.Extract(0, 0, x) == 1, 'getMsb': lambda: z3.Extract(127, 127, x) == 1, 'getLast64Bits': lambda: z3.Extract(63, 0, x)}[n]()
        e.prove('value', eq_i(v, w))
        return
    p = e.alloc(x, 'x')
    if n == 'lShiftByBitsInPlace':
        k = z3.BitVec('offset', 32)
        e.assume(z3.And(k >= 0, k < 128))
        callv(e, f, NULL, [ByRef(p), k], n)
        e.prove('shifted', eq_i(e.load(p), x << z3.ZeroExt(96, k)))
        return
    callv(e, f, NULL, [ByRef(p)], n)
    one = z3.BitVecVal(1, 128)
    e.prove('only the lowest bit changes', eq_i(e.load(p), x & ~one if n.endswith('0') else x | one))


def bytes_stream(e):
    """AsyncBuffer::getData under contract (proved with T01): consecutive elements of the stream"""
    S = z3.Function('stream_byte', B64, z3.BitVecSort(8))
    pos = e.alloc(z3.BitVec('position', 64), 'ghost position')

    def get(eng, this, args, call):
        n = args[0]
        p = eng.load(pos)
        eng.store(pos, p + bv(n, 64))
        return VecS(bv(n, 64), lambda j: S(p + bv(j, 64)))
    e.contracts[UT + 'AsyncBuffer::getData'] = get
    return S, pos


@task('C01', 'tuples', name='generator requests', cases=['getRandomBits', 'getRandomBytes', 'getRandomUInt64'])
def prg_requests(T_, n):
    """any size: every request is made of consecutive bytes of the stream"""
    e = T_.eng('tuples')
    S, pos = bytes_stream(e)
    p0 = e.load(pos)
    size = z3.BitVec('size', 32)
    e.assume(z3.ULT(size, 1 << (28 if n == 'getRandomUInt64' else 31)))
    buf = e.alloc(Rec('buffer', {}), 'asyncBuffer')
    this = e.alloc(mkobj(e, rec_q(e, PRG[:-2]), asyncBuffer_=buf), 'prg')
    out = callv(e, fn(e, PRG + n), this, [size], n)
    s = z3.ZeroExt(32, size)
    e.prove('as many as asked for', eq_i(vlen(out), s))
    e.prove('whole bytes are consumed', eq_i(e.load(pos), p0 + {'getRandomBits': z3.UDiv(s + 7, c64(8)), 'getRandomBytes': s, 'getRandomUInt64': s * 8}[n]))
    with each(e, s) as j:
        if n == 'getRandomBytes':
            e.prove('byte', eq_i(at(out, j), S(p0 + j)))
        elif n == 'getRandomBits':
            e.prove('bit j%8 of byte j/8', eq_i(at(out, j), z3.Extract(0, 0, z3.LShR(S(p0 + z3.LShR(j, 3)), z3.ZeroExt(5, z3.Extract(2, 0, j)))) == 1))
        else:
            e.prove('eight bytes, the first one highest', eq_i(at(out, j), z3.Concat(*[S(p0 + (j << 3) + k) for k in range(8)])))
    e.cover('reachable')


@task('C01', 'tuples', name='generator blocks')
def prg_blocks(T_):
    """any number of blocks and any counter: block i is the encryption of counter + i; no counter is used twice"""
    e = T_.eng('tuples')
    install_cipher(e)
    n = z3.ZeroExt(33, z3.BitVec('n', 31))
    c = z3.BitVec('counter', 64)
    key = z3.BitVec('seed', 128)
    this = e.alloc(mkobj(e, rec_q(e, PRG[:-2]), cipher_=cipher(e, key), prgCounter_=c), 'prg')
    p = arg_cell(e, fn(e, PRG + 'getRandomDataInPlace'), 0, VecS(n, lambda j: z3.Function('old', B64, B128)(bv(j, 64))))
    alive, _, th = call(e, fn(e, PRG + 'getRandomDataInPlace'), this, [ByRef(p)])
    throws_iff(e, th, e.st.pc if alive else None, z3.UGT(c, c64(2**64 - 1) - n), 'the counter would wrap')
    out = e.load(p)
    e.prove('size kept', eq_i(vlen(out), n))
    e.prove('counter moves past the blocks', eq_i(e.load(this).f['prgCounter_'], c + n))
    with each(e, n) as j:
        e.prove('encrypted counter', eq_i(at(out, j), ENCF(key, z3.Concat(c64(0), c + j))))
    e.cover('reachable')


class BitsInv:
    """blocks 0..i-1 are unpacked"""

    def __init__(self, e, n, blk):
        self.e, self.n, self.blk = e, n, blk
        self.X = z3.Function('unpacked', B64, Bo)

    def applies(self, L):
        return not L.fr.loops

    def bit(self, j):
        return z3.Extract(0, 0, z3.LShR(self.blk(z3.LShR(j, 7)), z3.ZeroExt(121, z3.Extract(6, 0, j)))) == 1

    def lim(self, i):
        return z3.If(z3.ULT(i << 7, self.n), i << 7, self.n)

    def check(self, L, when):
        e = self.e
        i = bv(L.get('iEncrypted'), 64)
        d = L.get('data')
        e.prove('%s: size' % when, eq_i(vlen(d), self.n))
        e.prove('%s: scratch size' % when, eq_i(vlen(L.get('extractedBits')), 128))
        with each(e, self.n) as j:
            e.prove('%s: bits of the blocks so far' % when, limp(z3.ULT(j, i << 7), eq_i(at(d, j), self.bit(j))))
        if not when.startswith('before'):
            e.prove('%s: next block' % when, land(eq_i(i, self.i + 1), z3.ULE(i, self.m)))

    def havoc(self, L):
        e = self.e
        self.i = z3.ZeroExt(39, z3.BitVec(fresh_name('block'), 25))
        L.set('iEncrypted', self.i)
        L.set('data', VecS(self.n, lambda j: z3.If(z3.ULT(bv(j, 64), self.i << 7), self.bit(bv(j, 64)), self.X(bv(j, 64)))))
        Y = z3.Function(fresh_name('scratch'), B64, Bo)
        L.set('extractedBits', VecS(c64(128), lambda j: Y(bv(j, 64))))
        self.m = z3.LShR(self.n + 127, 7)
        e.assume(z3.ULE(self.i, self.m))

    def measure(self, L):
        return self.m - bv(L.get('iEncrypted'), 64)


@task('C01', 'tuples', name='generator bits in place')
def prg_bits(T_):
    """any size: bit j is bit j%128 of the block of counter + j/128"""
    e = T_.eng('tuples')
    install_cipher(e)
    n = z3.ZeroExt(33, z3.BitVec('n', 31))
    c = z3.BitVec('counter', 64)
    e.assume(z3.ULT(c, c64(1 << 63)))
    key = z3.BitVec('seed', 128)
    this = e.alloc(mkobj(e, rec_q(e, PRG[:-2]), cipher_=cipher(e, key), prgCounter_=c), 'prg')

    def blocks(eng, this, args, call):
        v = eng.load(args[0])
        eng.prove('enough blocks', eq_i(bv(vlen(v), 64), z3.LShR(n + 127, 7)))
        eng.store(args[0], vmap_i(v, lambda j: ENCF(key, z3.Concat(c64(0), c + bv(j, 64)))))
    e.contracts[PRG + 'getRandomDataInPlace'] = blocks

    def lnb(eng, this, args, call):
        x = bv(eng.load(args[0]) if isinstance(args[0], Ptr) else args[0], 128)
        v = eng.load(args[1])
        eng.prove('whole block', eq_i(vlen(v), 128))
        eng.store(args[1], vmap_i(v, lambda i: z3.Extract(0, 0, z3.LShR(x, z3.ZeroExt(64, bv(i, 64)))) == 1))
    e.contracts[UT + 'extractLnbToVector'] = lnb
    p = arg_cell(e, fn(e, PRG + 'getRandomBitsInPlace'), 0, VecS(n, lambda j: z3.Function('old', B64, Bo)(bv(j, 64))))
    f = fn(e, PRG + 'getRandomBitsInPlace')
    e.invariants[f['q']] = BitsInv(e, n, lambda j: ENCF(key, z3.Concat(c64(0), c + j)))
    callv(e, f, this, [ByRef(p)], 'bits')
    out = e.load(p)
    e.prove('size kept', eq_i(vlen(out), n))
    with each(e, n) as j:
        e.prove('bit of the block', eq_i(at(out, j), e.invariants[f['q']].bit(j)))
    e.cover('reachable')


MAC = 'fbpcf::primitive::mac::'


@task('C01', 'tuples', name='synthetic IV', cases=list(range(16)) + ['long'])
def s2v(T_, n):
    """any text: the MAC of the text, padded to a block if shorter, with the doubled MAC of the zero block in its last 16 bytes"""
    e = T_.eng('tuples')
    Z = z3.BitVec('mac_of_zero', 128)
    B8 = z3.BitVecSort(8)
    TX = z3.Function('text', B64, B8)
    if n == 'long':
        n = z3.ZeroExt(33, z3.BitVec('n', 31))
        e.assume(z3.UGE(n, c64(16)))
        text = VecS(n, lambda j: TX(bv(j, 64)))
        m = n
    else:
        text = Vec([TX(c64(i)) for i in range(n)])
        m = 16
    seen = []

    def block(eng, this, args, call):
        v = eng.load(args[0]) if isinstance(args[0], Ptr) else args[0]
        eng.prove('the zero block', eq_i(vlen(v), 16))
        for i in range(16):
            eng.prove('the zero block', eq_i(at(v, i), 0))
        return Z

    def mac(eng, this, args, call):
        seen.append(eng.load(args[0]) if isinstance(args[0], Ptr) else args[0])
        return Vec([z3.BitVec('tag%d' % i, 8) for i in range(16)])
    e.contracts[MAC + 'IMac::getMacM128i'] = block
    e.contracts[MAC + 'IMac::getMac128'] = mac
    this = e.alloc(mkobj(e, rec_q(e, MAC + 'S2v'), mac_=iface(e, MAC + 'IMac')), 's2v')
    out = callv(e, fn(e, MAC + 'S2v::getMac128'), this, [text], 'getMac128')
    D = (Z << 1) ^ z3.If(z3.Extract(127, 127, Z) == 1, z3.BitVecVal(0x87, 128), z3.BitVecVal(0, 128))
    e.prove('one MAC', len(seen) == 1)
    t = seen[0]
    e.prove('length of the text', eq_i(vlen(t), m))
    for i in range(16):
        j = i if isinstance(m, int) else m - 16 + i
        x = at(text, j) if not isinstance(n, int) else (TX(c64(i)) if i < n else z3.BitVecVal(0x80 if i == n else 0, 8))
        e.prove('the last block is masked', eq_i(at(t, j), x ^ z3.Extract(8 * i + 7, 8 * i, D)))
    if not isinstance(n, int):
        with each(e, n - 16) as j:
            e.prove('the rest stays', eq_i(at(t, j), TX(j)))
    for i in range(16):
        e.prove('the tag', eq_i(at(out, i), z3.BitVec('tag%d' % i, 8)))
    e.cover('reachable')


@task('C01', 'tuples', name='generator bytes')
def prg_bytes(T_):
    """any number of bytes and any counter: byte k is byte k%16 of the block of counter + k/16"""
    e = T_.eng('tuples')
    install_cipher(e)
    n = z3.ZeroExt(33, z3.BitVec('n', 31))
    c = z3.BitVec('counter', 64)
    e.assume(z3.ULT(c, c64(1 << 63)))
    key = z3.BitVec('seed', 128)
    this = e.alloc(mkobj(e, rec_q(e, PRG[:-2]), cipher_=cipher(e, key), prgCounter_=c), 'prg')
    out = callv(e, fn(e, PRG + 'generateRandomData'), this, [n], 'bytes')
    m = z3.LShR(n + 15, 4)
    e.prove('as many as asked for', eq_i(vlen(out), n))
    e.prove('no counter is used twice', eq_i(e.load(this).f['prgCounter_'], c + m))
    with each(e, n) as j:
        b = ENCF(key, z3.Concat(c64(0), c + z3.LShR(j, 4)))
        e.prove('byte of the block', eq_i(at(out, j), z3.Extract(7, 0, z3.LShR(b, z3.Concat(z3.BitVecVal(0, 121), z3.Extract(3, 0, j), z3.BitVecVal(0, 3))))))
    e.cover('reachable')
