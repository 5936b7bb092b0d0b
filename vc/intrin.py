"""Bit-precise models of the SSE/AES-NI intrinsics (128-bit values; byte 0 is the least significant)."""
import z3
from core import *

M128 = (1 << 128) - 1


def lane(v, i, w):
    if isinstance(v, int):
        return (v >> (i * w)) & mask(w)
    return z3.simplify(z3.Extract(i * w + w - 1, i * w, v)) if term_size(v, 60) < 60 else z3.Extract(i * w + w - 1, i * w, v)


def cat(xs, w):
    """xs[0] is the least significant lane"""
    if all(isinstance(x, int) for x in xs):
        r = 0
        for i, x in enumerate(xs):
            r |= x << (i * w)
        return r
    return z3.Concat(*[bv(x, w) for x in reversed(xs)])


def lanes(v, w):
    return [lane(v, i, w) for i in range(128 // w)]


SBOX = None


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


def sbox_tables():
    global SBOX
    if SBOX is None:
        inv = [0] * 256
        for a in range(1, 256):
            for b in range(1, 256):
                if gmul(a, b) == 1:
                    inv[a] = b
                    break
        s = []
        for a in range(256):
            b = inv[a]
            r = 0
            for i in range(8):
                bit = (b >> i) ^ (b >> ((i + 4) % 8)) ^ (b >> ((i + 5) % 8)) ^ (b >> ((i + 6) % 8)) ^ (b >> ((i + 7) % 8)) ^ (0x63 >> i)
                r |= (bit & 1) << i
            s.append(r)
        si = [0] * 256
        for a, b in enumerate(s):
            si[b] = a
        SBOX = (s, si)
    return SBOX


sub_f = z3.Function('aes_sbox', z3.BitVecSort(8), z3.BitVecSort(8))
isub_f = z3.Function('aes_inv_sbox', z3.BitVecSort(8), z3.BitVecSort(8))


def sub(b):
    return sbox_tables()[0][b] if isinstance(b, int) else sub_f(b)


def isub(b):
    return sbox_tables()[1][b] if isinstance(b, int) else isub_f(b)


def xt(b):
    if isinstance(b, int):
        return gmul(b, 2)
    return z3.If(z3.Extract(7, 7, b) == 1, (b << 1) ^ 0x1b, b << 1)


def mul(b, c):
    r = 0
    p = b
    while c:
        if c & 1:
            r = binop('^', r, p, 8, False)
        p = xt(p)
        c >>= 1
    return r


def shiftrows(bs, inv=False):
    out = [None] * 16
    for c in range(4):
        for r in range(4):
            if inv:
                out[4 * ((c + r) % 4) + r] = bs[4 * c + r]
            else:
                out[4 * c + r] = bs[4 * ((c + r) % 4) + r]
    return out


def mixcols(bs, m):
    out = []
    for c in range(4):
        col = bs[4 * c:4 * c + 4]
        for r in range(4):
            v = 0
            for k in range(4):
                v = binop('^', v, mul(col[k], m[(k - r) % 4]), 8, False)
            out.append(v)
    return out


MC = [2, 3, 1, 1]
IMC = [14, 11, 13, 9]


def enc(v, key, last):
    bs = shiftrows([sub(b) for b in lanes(v, 8)])
    if not last:
        bs = mixcols(bs, MC)
    return binop('^', cat(bs, 8), key, 128, False)


def dec(v, key, last):
    bs = [isub(b) for b in shiftrows(lanes(v, 8), True)]
    if not last:
        bs = mixcols(bs, IMC)
    return binop('^', cat(bs, 8), key, 128, False)


def call(m, f, x, as_):
    n = f['n']
    e = m.e
    vs = [m.val(a) for a in as_]
    ws = [m.T(a['t']).get('w') for a in as_]

    def idx(i):
        if not isinstance(vs[i], int):
            raise Unsupported('symbolic intrinsic immediate')
        return vs[i]
    if n in ('_mm_xor_si128',):
        return binop('^', vs[0], vs[1], 128, False)
    if n == '_mm_and_si128':
        return binop('&', vs[0], vs[1], 128, False)
    if n == '_mm_or_si128':
        return binop('|', vs[0], vs[1], 128, False)
    if n == '_mm_andnot_si128':
        a = (~vs[0]) & M128 if isinstance(vs[0], int) else ~vs[0]
        return binop('&', a, vs[1], 128, False)
    if n == '_mm_setzero_si128':
        return 0
    if n.startswith('_mm_set1_'):
        w = {'epi8': 8, 'epi16': 16, 'epi32': 32, 'epi64x': 64}[n.split('_')[-1]]
        v = cast_int(vs[0], ws[0], 0, w)
        return cat([v] * (128 // w), w)
    if n.startswith('_mm_set_') or n.startswith('_mm_setr_'):
        w = {'epi8': 8, 'epi16': 16, 'epi32': 32, 'epi64x': 64, 'epi64': 64}[n.split('_')[-1]]
        xs = [cast_int(v, ww, 0, w) for v, ww in zip(vs, ws)]
        return cat(xs if 'setr' in n else xs[::-1], w)
    if n in ('_mm_loadu_si128', '_mm_load_si128', '_mm_lddqu_si128'):
        return m.load128(vs[0])
    if n in ('_mm_storeu_si128', '_mm_store_si128'):
        m.store128(vs[0], vs[1])
        return None
    if n in ('_mm_cvtsi128_si64', '_mm_cvtsi128_si64x'):
        return lane(vs[0], 0, 64)
    if n == '_mm_cvtsi128_si32':
        return lane(vs[0], 0, 32)
    if n == '_mm_cvtsi64_si128':
        return cat([vs[0], 0], 64)
    if n == '_mm_cvtsi32_si128':
        return cat([vs[0], 0, 0, 0], 32)
    mm = {'_mm_unpacklo': 0, '_mm_unpackhi': 1}
    for p in mm:
        if n.startswith(p):
            w = {'epi8': 8, 'epi16': 16, 'epi32': 32, 'epi64': 64}[n.split('_')[-1]]
            k = 128 // w // 2
            a, b = lanes(vs[0], w), lanes(vs[1], w)
            out = []
            for i in range(k):
                out += [a[i + k * mm[p]], b[i + k * mm[p]]]
            return cat(out, w)
    if n == '_mm_movemask_epi8' or n == '__builtin_ia32_pmovmskb128':
        bits = [lane(b, 7, 1) for b in lanes(vs[0], 8)]
        return cast_int(cat(bits, 1), 16, 0, 32)
    base = {'_mm_slli': '<<', '_mm_srli': '>>', '__builtin_ia32_psllwi128': None}
    for p in ('_mm_slli_', '_mm_srli_'):
        if n.startswith(p):
            k = n[len(p):]
            if k == 'si128':
                return bshift(vs[0], idx(1), '<<' if 'sll' in p else '>>')
            w = {'epi16': 16, 'epi32': 32, 'epi64': 64}[k]
            op = '<<' if 'sll' in p else '>>'
            c = vs[1]
            if not isinstance(c, int):
                cw = ws[1]
                big = z3.UGE(bv(c, cw), z3.BitVecVal(w, cw))
                return z3.If(big, z3.BitVecVal(0, 128), bv(cat([shift(op, bv(l, w), c, w, False, cw) for l in lanes(vs[0], w)], w), 128))
            if c >= w:
                return 0
            return cat([shift(op, l, c, w, False, 32) for l in lanes(vs[0], w)], w)
    if n in ('_mm_add_epi64', '_mm_add_epi32', '_mm_sub_epi64', '_mm_sub_epi32', '_mm_add_epi8'):
        w = int(n.split('epi')[1])
        op = '+' if 'add' in n else '-'
        return cat([binop(op, a, b, w, False) for a, b in zip(lanes(vs[0], w), lanes(vs[1], w))], w)
    if n in ('_mm_cmpeq_epi8', '_mm_cmpeq_epi32', '_mm_cmpeq_epi64'):
        w = int(n.split('epi')[1])
        out = []
        for a, b in zip(lanes(vs[0], w), lanes(vs[1], w)):
            c = simp(binop('==', a, b, w, False))
            out.append(ite_w(c, mask(w), 0, w))
        return cat(out, w)
    if n.startswith('__builtin_ia32_pslldqi128'):
        return bshift(vs[0], idx(1), '<<')
    if n.startswith('__builtin_ia32_psrldqi128'):
        return bshift(vs[0], idx(1), '>>')
    if n in ('__builtin_ia32_vec_ext_v2di',):
        return lane(vs[0], idx(1) & 1, 64)
    if n in ('__builtin_ia32_vec_ext_v4si',):
        return lane(vs[0], idx(1) & 3, 32)
    if n in ('__builtin_ia32_vec_ext_v16qi',):
        return lane(vs[0], idx(1) & 15, 8)
    if n in ('__builtin_ia32_vec_ext_v8hi',):
        return lane(vs[0], idx(1) & 7, 16)
    if n in ('__builtin_ia32_vec_set_v2di',):
        xs = lanes(vs[0], 64)
        xs[idx(2) & 1] = vs[1]
        return cat(xs, 64)
    if n in ('__builtin_ia32_vec_set_v4si',):
        xs = lanes(vs[0], 32)
        xs[idx(2) & 3] = vs[1]
        return cat(xs, 32)
    if n in ('__builtin_ia32_pshufd',):
        xs = lanes(vs[0], 32)
        i = idx(1)
        return cat([xs[(i >> (2 * k)) & 3] for k in range(4)], 32)
    if n in ('_mm_aesenc_si128', '__builtin_ia32_aesenc128'):
        return enc(vs[0], vs[1], False)
    if n in ('_mm_aesenclast_si128', '__builtin_ia32_aesenclast128'):
        return enc(vs[0], vs[1], True)
    if n in ('_mm_aesdec_si128', '__builtin_ia32_aesdec128'):
        return dec(vs[0], vs[1], False)
    if n in ('_mm_aesdeclast_si128', '__builtin_ia32_aesdeclast128'):
        return dec(vs[0], vs[1], True)
    if n in ('_mm_aesimc_si128', '__builtin_ia32_aesimc128'):
        return cat(mixcols(lanes(vs[0], 8), IMC), 8)
    if n == '__builtin_ia32_aeskeygenassist128':
        d = lanes(vs[0], 32)
        rc = idx(1) & 0xff

        def subw(wd):
            bs = [lane(wd, i, 8) for i in range(4)]
            return [sub(b) for b in bs]
        s1, s3 = subw(d[1]), subw(d[3])
        rot = lambda b: [b[1], b[2], b[3], b[0]]
        r1, r3 = rot(s1), rot(s3)
        r1[0] = binop('^', r1[0], rc, 8, False)
        r3[0] = binop('^', r3[0], rc, 8, False)
        return cat(s1 + r1 + s3 + r3, 8)
    raise Unsupported('intrinsic ' + n)


def bshift(v, n, op):
    if n > 15:
        return 0
    bs = lanes(v, 8)
    if op == '<<':
        return cat([0] * n + bs[:16 - n], 8)
    return cat(bs[n:] + [0] * n, 8)
