"""Value domain and exact machine arithmetic for the verification-condition generator.

Integers are Python ints (already reduced modulo 2^w, unsigned representation) when concrete and
z3 bit-vectors otherwise; booleans are Python bools or z3 Bools.  Everything else is a small
immutable tree of the classes below, so that program states can be copied by copying one dict.
"""
import z3

z3.set_param('memory_max_size', 6000)


class Unsupported(Exception):
    """A construct outside the verifier's reach: the function is reported as undecided."""


class Dead(Exception):
    """The current path ended (throw, return, break, infeasible)."""


class _Undef:
    def __repr__(self):
        return 'Undef'


Undef = _Undef()


def is_sym(v):
    return isinstance(v, z3.ExprRef)


# ---------------------------------------------------------------- scalars
def mask(w):
    return (1 << w) - 1


def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def bv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def zb(v):
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise Unsupported('not a bool: %r' % (v,))


def fold(e):
    """turn a z3 literal back into a Python value"""
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def simp(e):
    if is_sym(e):
        return fold(z3.simplify(e))
    return e


def same(a, b):
    if a is b:
        return True
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if is_sym(a) or is_sym(b):
        return False
    return type(a) == type(b) and a == b


def land(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    if same(a, b):
        return a
    return z3.And(a, b)


def lor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    if same(a, b):
        return a
    return z3.Or(a, b)


def lnot(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def limp(a, b):
    return lor(lnot(a), b)


def lxor(a, b):
    if isinstance(a, bool):
        return lnot(b) if a else b
    if isinstance(b, bool):
        return lnot(a) if b else a
    if same(a, b):
        return False
    return z3.Xor(a, b)


def conj(xs):
    r = True
    for x in xs:
        r = land(r, x)
    return r


def ite_s(c, a, b):
    """scalar ite"""
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return lnot(c)
        return z3.If(c, zb(a), zb(b))
    w = a.size() if isinstance(a, z3.BitVecRef) else (b.size() if isinstance(b, z3.BitVecRef) else None)
    if w is None:
        raise MergeClash()
    return ite_bv(c, bv(a, w), bv(b, w))


def ite_bv(c, a, b):
    """bit-vector ite; If(x == k, f(k), f(x)) is f(x)"""
    d, neg = c, False
    if z3.is_not(d):
        d, neg = d.arg(0), True
    if z3.is_eq(d) and isinstance(d.arg(0), z3.BitVecRef):
        x, k = d.arg(0), d.arg(1)
        if z3.is_bv_value(x):
            x, k = k, x
        if z3.is_bv_value(k) and z3.is_app(x) and x.num_args() == 0:
            sp, gen = (b, a) if neg else (a, b)
            if z3.is_bv_value(sp) or term_size(sp, 60) < 60:
                if term_size(gen, 200) < 200 and z3.simplify(z3.substitute(gen, (x, k))).eq(z3.simplify(z3.substitute(sp, (x, k)))):
                    return gen
    return z3.If(c, a, b)


class MergeClash(Exception):
    pass


def eq_i(a, b, w=64):
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return lnot(lxor(a, b))
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if same(a, b):
        return True
    if isinstance(a, z3.BitVecRef):
        w = a.size()
    elif isinstance(b, z3.BitVecRef):
        w = b.size()
    return fold_light(bv(a, w) == bv(b, w))


def fold_light(e):
    return e


def _nontriv(op):
    return op


def low_zero(a, c):
    """a + c without carries: a ends in enough literal zero bits to hold c"""
    if not c:
        return None
    if a.decl().kind() == z3.Z3_OP_BSHL:
        a = z3.simplify(a)
    if a.decl().kind() != z3.Z3_OP_CONCAT:
        return None
    ch = a.children()
    z = ch[-1]
    if not z3.is_bv_value(z) or z.as_long() or c >> z.size():
        return None
    return z3.simplify(z3.Concat(*ch[:-1], z3.BitVecVal(c, z.size())))


def binop(op, a, b, w, signed):
    """arithmetic / bitwise operator on w-bit operands; the result is w bits (bool for comparisons)"""
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if op == '==':
            return lnot(lxor(a, b))
        if op == '!=':
            return lxor(a, b)
        if op == '&':
            return land(a, b)
        if op == '|':
            return lor(a, b)
        if op == '^':
            return lxor(a, b)
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, z3.BoolRef):
        a = bv(a, w)
    if isinstance(b, z3.BoolRef):
        b = bv(b, w)
    ca, cb = isinstance(a, int), isinstance(b, int)
    if not ca and not isinstance(a, z3.BitVecRef) or not cb and not isinstance(b, z3.BitVecRef):
        raise Unsupported('binop %s on %s, %s' % (op, type(a).__name__, type(b).__name__))
    if op in ('+', '^', '|') and ca != cb:
        r = low_zero(*((a, b & mask(w)) if cb else (b, a & mask(w))))
        if r is not None:
            return r
    if ca and cb:
        m = mask(w)
        if op == '+':
            return (a + b) & m
        if op == '-':
            return (a - b) & m
        if op == '*':
            return (a * b) & m
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        sa, sb = (tosigned(a, w), tosigned(b, w)) if signed else (a, b)
        if op == '<':
            return sa < sb
        if op == '>':
            return sa > sb
        if op == '<=':
            return sa <= sb
        if op == '>=':
            return sa >= sb
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if op == '/':
            if sb == 0:
                raise Unsupported('division by zero')
            q = abs(sa) // abs(sb)
            return (q if (sa < 0) == (sb < 0) else -q) & m
        if op == '%':
            if sb == 0:
                raise Unsupported('division by zero')
            q = abs(sa) % abs(sb)
            return (-q if sa < 0 else q) & m
        raise Unsupported('op ' + op)
    # light algebra that keeps index terms readable
    if op == '+':
        if ca and a == 0:
            return b
        if cb and b == 0:
            return a
    elif op == '-':
        if cb and b == 0:
            return a
        if same(a, b):
            return 0
    elif op == '*':
        if ca and a == 1:
            return b
        if cb and b == 1:
            return a
        if (ca and a == 0) or (cb and b == 0):
            return 0
    elif op == '^':
        if ca and a == 0:
            return b
        if cb and b == 0:
            return a
        if same(a, b):
            return 0
    elif op == '&':
        if (ca and a == 0) or (cb and b == 0):
            return 0
        if ca and a == mask(w):
            return b
        if cb and b == mask(w):
            return a
    elif op == '|':
        if ca and a == 0:
            return b
        if cb and b == 0:
            return a
    elif op in ('==', '<=', '>=') and same(a, b):
        return True
    elif op in ('!=', '<', '>') and same(a, b):
        return False
    x, y = bv(a, w), bv(b, w)
    if x.size() != y.size():
        raise Unsupported('width mismatch %s %d %d' % (op, x.size(), y.size()))
    if op == '+':
        return lin(x + y)
    if op == '-':
        return lin(x - y)
    if op == '*':
        return x * y
    if op == '&':
        return x & y
    if op == '|':
        return x | y
    if op == '^':
        return x ^ y
    if op == '/':
        return (x / y) if signed else z3.UDiv(x, y)
    if op == '%':
        return z3.SRem(x, y) if signed else z3.URem(x, y)
    if op == '<':
        r = x < y if signed else z3.ULT(x, y)
    elif op == '>':
        r = x > y if signed else z3.UGT(x, y)
    elif op == '<=':
        r = x <= y if signed else z3.ULE(x, y)
    elif op == '>=':
        r = x >= y if signed else z3.UGE(x, y)
    elif op == '==':
        r = x == y
    elif op == '!=':
        r = x != y
    else:
        raise Unsupported('op ' + op)
    return r


def lin(e):
    """cheap normalisation of sums so that (i+1)-1 becomes i"""
    if e.num_args() == 2:
        a, b = e.arg(0), e.arg(1)
        if z3.is_bv_value(a) or z3.is_bv_value(b) or a.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB) or b.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
            if term_size(e, 40) < 40:
                return fold(z3.simplify(e))
    return e


def term_size(e, cap):
    n = 0
    st = [e]
    while st and n < cap:
        x = st.pop()
        n += 1
        st.extend(x.children())
    return n


def shift(op, a, b, w, signed, wb):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, (bool,)):
        b = int(b)
    if isinstance(a, int) and isinstance(b, int):
        if b >= w:
            return None
        if op == '<<':
            return (a << b) & mask(w)
        return (tosigned(a, w) >> b) & mask(w) if signed else a >> b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(b, int):
        if b >= w:
            return None
        x, y = bv(a, w), z3.BitVecVal(b, w)
    else:
        x = bv(a, w)
        y = bv(b, wb)
        if wb < w:
            y = z3.ZeroExt(w - wb, y)
        elif wb > w:
            y = z3.Extract(w - 1, 0, y)
    if op == '<<':
        return x << y
    return x >> y if signed else z3.LShR(x, y)


def cast_int(v, ws, ss, wd):
    """convert a ws-bit (signed if ss) integer to wd bits"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, z3.BoolRef):
        return bv(v, wd)
    if isinstance(v, int):
        if wd <= ws:
            return v & mask(wd)
        return (tosigned(v, ws) & mask(wd)) if ss else v
    if not isinstance(v, z3.BitVecRef):
        raise Unsupported('integral cast of %s' % type(v).__name__)
    if wd == ws:
        return v
    if wd < ws:
        # extract(zext(x)) -> x
        k = v.decl().kind()
        if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            x = v.arg(0)
            if x.size() == wd:
                return x
            if x.size() > wd:
                return z3.Extract(wd - 1, 0, x)
            return z3.ZeroExt(wd - x.size(), x) if k == z3.Z3_OP_ZERO_EXT else z3.SignExt(wd - x.size(), x)
        return fold(z3.simplify(z3.Extract(wd - 1, 0, v))) if term_size(v, 12) < 12 else z3.Extract(wd - 1, 0, v)
    return z3.SignExt(wd - ws, v) if ss else z3.ZeroExt(wd - ws, v)


# ---------------------------------------------------------------- aggregates
class Rec:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t = t          # record id (dynamic type) or a string tag for built-in shapes
        self.f = f

    def with_(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Rec(self.t, d)

    def __repr__(self):
        return 'Rec(%s,%r)' % (self.t, self.f)


class Vec:
    """concrete-length sequence"""
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = tuple(xs)

    @property
    def n(self):
        return len(self.xs)

    def __repr__(self):
        return 'Vec%r' % (self.xs,)


class VecS:
    """symbolic-length sequence: n is a 64-bit term, get(j) the element at index term j"""
    __slots__ = ('n', 'get', 'tag')

    def __init__(self, n, get, tag=None):
        self.n = n
        self.get = get
        self.tag = tag

    def __repr__(self):
        return 'VecS(n=%s)' % (self.n,)


class Ptr:
    """lvalue / pointer / iterator: memory root and a path of field names and Idx steps.
    vw: element width in bits when the pointer re-interprets the pointee (None: natural)"""
    __slots__ = ('loc', 'path', 'vw')

    def __init__(self, loc, path=(), vw=None):
        self.loc = loc
        self.path = path
        self.vw = vw

    def fld(self, f):
        return Ptr(self.loc, self.path + (f,))

    def idx(self, i):
        return Ptr(self.loc, self.path + (Idx(i),))

    def __repr__(self):
        return 'Ptr(%s%s)' % (self.loc, ''.join('.' + str(p) for p in self.path))


class VPtr(Ptr):
    """pointer to void; remembers the width of the elements it came from"""
    __slots__ = ('w',)

    def __init__(self, loc, path, vw, w):
        Ptr.__init__(self, loc, path, vw)
        self.w = w


class Idx:
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return '[%s]' % (self.i,)


class Opt:
    __slots__ = ('has', 'v')

    def __init__(self, has, v):
        self.has = has
        self.v = v


class MapV:
    """association list; later entries shadow earlier ones.  entries: (guard, key, value)"""
    __slots__ = ('es', 'ordered')

    def __init__(self, es=()):
        self.es = tuple(es)


class Clo:
    __slots__ = ('fns', 'caps', 'this', 'native')

    def __init__(self, fns, caps, this, native=None):
        self.fns = fns
        self.caps = caps    # var id -> Ptr
        self.this = this
        self.native = native


class Choice:
    """value that differs per branch and has no common shape"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class Opaque:
    """a value about which nothing is known and that nothing inspects (strings, streams, metrics)"""
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


class RefBox:
    """a reference member: holds the referenced lvalue"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'Ref(%r)' % (self.p,)


class Flt:
    """symbolic floating value with known provenance"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class Null:
    def __repr__(self):
        return 'Null'


NULL = Null()


def same_ptr(a, b):
    if a is b:
        return True
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        return False
    if a.loc != b.loc or len(a.path) != len(b.path) or a.vw != b.vw:
        return False
    for x, y in zip(a.path, b.path):
        if isinstance(x, Idx) and isinstance(y, Idx):
            if not same(x.i, y.i):
                return False
        elif x != y or isinstance(x, Idx) != isinstance(y, Idx):
            return False
    return True


def vlen(v):
    return len(v.xs) if isinstance(v, Vec) else v.n


def merge(c, a, b):
    """value that is a when c holds and b otherwise"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is Undef:
        return b
    if b is Undef:
        return a
    if isinstance(a, (bool, int, z3.ExprRef)) and isinstance(b, (bool, int, z3.ExprRef)):
        if same(a, b):
            return a
        try:
            return ite_s(c, a, b)
        except MergeClash:
            return Choice(c, a, b)      # two different concrete ints: width supplied on use
    if isinstance(a, Rec) and isinstance(b, Rec) and a.t == b.t:
        ks = set(a.f) | set(b.f)
        out = {}
        for k in ks:
            out[k] = merge(c, a.f.get(k, Undef), b.f.get(k, Undef))
        return Rec(a.t, out)
    if isinstance(a, (Vec, VecS)) and isinstance(b, (Vec, VecS)):
        if isinstance(a, Vec) and isinstance(b, Vec) and len(a.xs) == len(b.xs):
            return Vec([merge(c, x, y) for x, y in zip(a.xs, b.xs)])
        return VecS(ite_w(c, vlen(a), vlen(b), 64), lambda j: merge(c, vget_loose(a, j), vget_loose(b, j)))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if same_ptr(a, b):
            return a
        if a.loc == b.loc and len(a.path) == len(b.path) and a.vw == b.vw and all(
                (isinstance(x, Idx) and isinstance(y, Idx)) or x == y for x, y in zip(a.path, b.path)):
            return Ptr(a.loc, tuple(Idx(ite_w(c, x.i, y.i, 64)) if isinstance(x, Idx) else x for x, y in zip(a.path, b.path)), a.vw)
        return Choice(c, a, b)
    if isinstance(a, Opt) and isinstance(b, Opt):
        return Opt(merge(c, a.has, b.has), merge(c, a.v, b.v))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a
    if a is NULL and b is NULL:
        return a
    if isinstance(a, MapV) and isinstance(b, MapV):
        k = 0
        while k < len(a.es) and k < len(b.es) and a.es[k] is b.es[k]:
            k += 1
        es = list(a.es[:k])
        es += [(land(c, g), kk, v) for g, kk, v in a.es[k:]]
        es += [(land(lnot(c), g), kk, v) for g, kk, v in b.es[k:]]
        return MapV(es)
    if isinstance(a, Clo) and isinstance(b, Clo) and a.fns == b.fns and a.fns and set(a.caps) == set(b.caps) and all(same_ptr(a.caps[k], b.caps[k]) for k in a.caps):
        return a
    if isinstance(a, float) and isinstance(b, float) and a == b:
        return a
    if isinstance(a, RefBox) and isinstance(b, RefBox):
        return RefBox(merge(c, a.p, b.p))
    return Choice(c, a, b)


def ite_w(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    return ite_bv(c, bv(a, w), bv(b, w))


def vget_loose(v, j):
    """element at j; outside a concrete vector the value is irrelevant (callers guard the index)"""
    if isinstance(v, VecS):
        return v.get(j)
    if isinstance(j, int):
        if 0 <= j < len(v.xs):
            return v.xs[j]
        return Undef
    r = Undef
    for k in range(len(v.xs) - 1, -1, -1):
        if r is Undef:
            r = v.xs[k]
        else:
            r = merge_w(fold_light(bv(j, 64) == k), v.xs[k], r)
    return r


def merge_w(c, a, b):
    return merge(c, a, b)


def resolve_width(v, w):
    """a Choice between concrete ints becomes a bit-vector once the width is known"""
    if isinstance(v, Choice) and not isinstance(v.a, (Ptr, Null, Rec)) :
        a, b = resolve_width(v.a, w), resolve_width(v.b, w)
        if isinstance(a, (int, z3.BitVecRef)) and isinstance(b, (int, z3.BitVecRef)) and not isinstance(a, bool):
            return ite_w(v.c, a, b, w)
    return v


def subst(v, fn):
    """apply the term transformer fn to every z3 term inside a value"""
    if is_sym(v):
        return fold(fn(v))
    if isinstance(v, (bool, int, float, str)) or v is Undef or v is NULL or isinstance(v, (Opaque, Clo)) or v is None:
        return v
    if isinstance(v, Rec):
        return Rec(v.t, {k: subst(x, fn) for k, x in v.f.items()})
    if isinstance(v, Vec):
        return Vec([subst(x, fn) for x in v.xs])
    if isinstance(v, VecS):
        return VecS(subst(v.n, fn), lambda j, g=v.get: subst_get(g, j, fn))
    if isinstance(v, Ptr):
        return Ptr(v.loc, tuple(Idx(subst(p.i, fn)) if isinstance(p, Idx) else p for p in v.path), v.vw)
    if isinstance(v, RefBox):
        return RefBox(subst(v.p, fn))
    if isinstance(v, Opt):
        return Opt(subst(v.has, fn), subst(v.v, fn))
    if isinstance(v, MapV):
        return MapV([(subst(g, fn), subst(k, fn), subst(x, fn)) for g, k, x in v.es])
    if isinstance(v, Choice):
        return merge(subst(v.c, fn), subst(v.a, fn), subst(v.b, fn))
    raise Unsupported('subst %s' % type(v).__name__)


_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return '%s!%d' % (p, _fresh[0])


FACTS = []      # the engine's list of global facts (shared object)


def subst_get(g, j, fn):
    # the index may mention the substituted symbols itself: go through a fresh placeholder;
    # facts recorded while reading the element are replayed for the substituted element
    n = len(FACTS)
    if not is_sym(j):
        v = subst(g(j), fn)
        new = FACTS[n:]
        del FACTS[n:]
        for f in new:
            FACTS.append(f)
            h = fn(f)
            if not h.eq(f):
                FACTS.append(h)
        return v
    ph = z3.BitVec(fresh_name('ph'), 64)
    tr = lambda e: z3.substitute(fn(e), (ph, j))
    v = subst(g(ph), tr)
    new = FACTS[n:]
    del FACTS[n:]
    for f in new:
        FACTS.append(tr(f))
    return v


def leaves(v, path=()):
    """scalar leaves of a value without sequences of symbolic length: (path, leaf)"""
    if isinstance(v, Rec):
        for k in sorted(v.f):
            yield from leaves(v.f[k], path + (k,))
    elif isinstance(v, Vec):
        for i, x in enumerate(v.xs):
            yield from leaves(x, path + (Idx(i),))
    elif isinstance(v, Opt):
        yield from leaves(v.has, path + ('?has',))
        yield from leaves(v.v, path + ('?',))
    else:
        yield path, v
