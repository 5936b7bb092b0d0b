"""Ghost contracts shared by several specifications: pseudo-random generators as functions of (key, call number, index)."""
import z3
from spec import *

IPRG = 'fbpcf::engine::util::IPrg'
B128, B64 = z3.BitVecSort(128), z3.BitVecSort(64)
PRG_BIT = z3.Function('prg_bit', B128, B64, B64, B64, z3.BoolSort())          # key, call, size, index
PRG_BYTE = z3.Function('prg_byte', B128, B64, B64, B64, z3.BitVecSort(8))
PRG_U64 = z3.Function('prg_u64', B128, B64, B64, B64, B64)
PRG_BLK = z3.Function('prg_block', B128, B64, z3.BitVecSort(128))


def prg(e, key, count):
    """a generator object seeded with key that has already served count calls"""
    return e.alloc(Rec(rec_q(e, IPRG)['id'], {'key': key, 'count': count}), 'prg')


def install_prg(e):
    """two generators with one seed that receive the same requests in the same order give the same answers"""
    def take(eng, this):
        v = eng.load(this)
        k, c = v.f['key'], bv(v.f['count'], 64)
        eng.store(this, v.with_('count', simp(c + 1)))
        return bv(k, 128), c

    def stream(F):
        def m(eng, this, args, call):
            k, c = take(eng, this)
            n = cast_int(args[0], 32, 0, 64)
            return VecS(n, lambda j: F(k, c, bv(n, 64), bv(j, 64)))
        return m
    e.contracts[IPRG + '::getRandomBits'] = stream(PRG_BIT)
    e.contracts[IPRG + '::getRandomBytes'] = stream(PRG_BYTE)
    e.contracts[IPRG + '::getRandomUInt64'] = stream(PRG_U64)

    def m128(eng, this, args, call):
        k, c = take(eng, this)
        return PRG_BLK(k, c)
    e.contracts[IPRG + '::getRandomM128i'] = m128


def prg_state(e, p):
    v = e.load(p)
    return v.f['key'], v.f['count']
