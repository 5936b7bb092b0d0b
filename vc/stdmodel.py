"""Models of the C++ standard library and of the x86 intrinsics used by the code under verification.
Everything in this file is trusted (listed in the evidence as assumed contracts of dependencies)."""
import math
import z3
from core import *
import core

SEQ = ('std::vector', 'std::deque', 'std::basic_string', 'std::array', 'std::initializer_list', 'std::queue', 'std::stack', 'std::list')
MAPS = ('std::map', 'std::unordered_map')
SETS = ('std::set', 'std::unordered_set')
PTRS = ('std::unique_ptr', 'std::shared_ptr')
INT32 = {'k': 'int', 'w': 32, 's': 1}


class StdModel:
    def __init__(self, eng):
        self.e = eng

    # ------------------------------------------------------------ classification
    def is_std(self, t):
        n = t['n']
        return n.startswith('std::') or n.startswith('__gnu_cxx::') or n.startswith('folly::') or n.startswith('emp::') or n.startswith('boost::') or n.startswith('nlohmann::') or n.startswith('fmt::') or n.startswith('re2::')

    def use(self, n):
        self.e.used_models.add(n)

    def T(self, i):
        return self.e.types[i]

    # ------------------------------------------------------------ construction
    def default(self, t):
        n = t['n']
        e = self.e
        if n == 'std::array':
            d = e.default(t['a'][0]['t'])
            return Vec([d] * int(t['a'][1]['i']))
        if n in SEQ:
            return Vec([])
        if n in MAPS or n in SETS:
            return MapV([])
        if n in PTRS or n in ('std::function', 'std::weak_ptr'):
            return NULL
        if n == 'std::optional':
            return Opt(False, Undef)
        if n == 'std::pair':
            return Rec('pair', {'first': e.default(t['a'][0]['t']), 'second': e.default(t['a'][1]['t'])})
        if n == 'std::tuple':
            return Rec('tuple', {str(i): e.default(x['t']) for i, x in enumerate(t['a'])})
        if n in ('std::atomic', 'std::__atomic_base'):
            return e.default(t['a'][0]['t'])
        if n in ('std::_Bit_reference', 'std::reference_wrapper'):
            return Undef
        return Opaque(n)

    def ctor_other(self, t, f, e):
        return None

    def ilist(self, t, vals):
        if t['n'] == 'std::pair':
            return Rec('pair', {'first': vals[0], 'second': vals[1]})
        if t['n'] in ('std::array',):
            return Vec(vals)
        if t['n'] == 'std::initializer_list':
            return Vec(vals)
        if not vals:
            return self.default(t)
        if len(vals) == 1 and t['n'] in SEQ and isinstance(vals[0], (Vec, VecS)):
            return vals[0]
        raise Unsupported('braced init of ' + t['n'])

    def val(self, a):
        """rvalue of an argument expression"""
        e = self.e
        v = e.ev(a)
        if a.get('lv'):
            v = e.norm(e.load(v), a['t'])
        return v

    def ref(self, a):
        e = self.e
        v = e.ev(a)
        if not a.get('lv'):
            v = e.alloc(v)
        return v

    def ctor(self, t, f, x):
        e = self.e
        n = t['n']
        as_ = x['as']
        ps = f['ps']
        sp = f.get('sp')
        self.use(n + ' construction')
        pt = [self.T(p['t']) for p in ps]
        if sp in ('copy', 'move') and len(as_) >= 1:
            src = e.ev(as_[0])
            if not as_[0].get('lv'):
                return src
            v = e.load(src)
            if sp == 'move' and (n in SEQ or n in MAPS or n in SETS) and n not in ('std::array', 'std::initializer_list'):
                e.store(src, Vec([]) if n in SEQ else MapV([]))
            if sp == 'move' and n in PTRS:
                e.store(src, NULL)
            if sp == 'copy' and n in ('std::vector', 'std::deque', 'std::array', 'std::pair', 'std::optional'):
                v = self.deep_copy(t, v)
            return v
        if n in ('std::vector', 'std::deque', 'std::list') or n == 'std::basic_string':
            return self.ctor_seq(t, f, x, pt)
        if n == 'std::queue' or n == 'std::stack':
            if not as_:
                return Vec([])
        if n in MAPS:
            if not as_ or sp == 'def':
                return MapV([])
            if pt and (pt[0].get('n') == 'std::initializer_list'):
                v = self.val(as_[0])
                return MapV([(True, p.f['first'], p.f['second']) for p in v.xs])
            if 'ta' in f and len(as_) >= 2:
                a, b = self.val(as_[0]), self.val(as_[1])
                s = self.seq_range(a, b)
                if isinstance(s, Vec):
                    return MapV([(True, p.f['first'], p.f['second']) for p in s.xs])
        if n in SETS:
            if not as_ or sp == 'def':
                return MapV([])
            if 'ta' in f and len(as_) >= 2:
                s = self.seq_range(self.val(as_[0]), self.val(as_[1]))
                if isinstance(s, Vec):
                    m = MapV([])
                    for v in s.xs:
                        m = self.map_put(m, v, True)
                    return m
        if n in PTRS:
            if not as_:
                return NULL
            a0 = as_[0]
            if a0.get('lv'):
                src = e.ev(a0)
                v = e.norm(e.load(src), a0['t'])
                if len(pt) >= 1 and pt[0]['k'] == 'ref' and pt[0].get('r'):
                    e.store(src, NULL)
            else:
                v = self.val(a0)
            if isinstance(v, (Ptr, Null, Choice)):
                return v
            raise Unsupported('smart pointer from %s' % type(v).__name__)
        if n == 'std::function':
            if not as_:
                return NULL
            v = self.val(as_[0])
            return v
        if n == 'std::pair':
            if not as_:
                return self.default(t)
            if len(as_) == 1:
                v = self.val(as_[0])
                if isinstance(v, Rec):
                    ta = t['a']
                    sts = self.T(as_[0]['t']) if self.T(as_[0]['t'])['k'] == 'rec' else None
                    return v
            if len(as_) == 2:
                vs = []
                for i, a in enumerate(as_):
                    v = self.val(a)
                    if a.get('lv') and pt[i]['k'] == 'ref' and pt[i].get('r') and self.T(a['t']).get('n') in ('std::vector',):
                        e.store(e.ev(a), Vec([]))
                    vs.append(self.conv(v, a['t'], t['a'][i]['t']))
                return Rec('pair', {'first': vs[0], 'second': vs[1]})
        if n == 'std::tuple':
            if len(as_) == len(t['a']):
                out = {}
                for i, a in enumerate(as_):
                    tt = self.T(t['a'][i]['t'])
                    if tt['k'] == 'ref':
                        out[str(i)] = RefBox(self.ref(a))
                    else:
                        out[str(i)] = self.conv(self.val(a), a['t'], t['a'][i]['t'])
                return Rec('tuple', out)
            if len(as_) == 1:
                return self.val(as_[0])
        if n == 'std::optional':
            if not as_ or self.T(as_[0]['t']).get('n') == 'std::nullopt_t':
                return Opt(False, Undef)
            v = self.val(as_[0])
            if isinstance(v, Opt):
                return v
            return Opt(True, self.conv(v, as_[0]['t'], t['a'][0]['t']))
        if n in ('std::atomic', 'std::__atomic_base'):
            return self.val(as_[0]) if as_ else e.default(t['a'][0]['t'])
        if n == '__gnu_cxx::__normal_iterator' or n == 'std::move_iterator' or n == 'std::_Bit_iterator' or n == 'std::_Bit_const_iterator':
            return self.val(as_[0]) if as_ else Undef
        if n == 'std::reverse_iterator':
            v = self.val(as_[0])
            return v if isinstance(v, Rec) else Rec('rit', {'p': v})
        if n in ('std::initializer_list', 'std::array'):
            return self.val(as_[0]) if as_ else self.default(t)
        if n == 'std::reference_wrapper':
            a0 = as_[0]
            t0 = self.T(a0['t'])
            v = e.ev(a0)
            if t0['k'] == 'rec' and t0['n'] == n:
                return e.load(v) if a0.get('lv') else v
            return v
        if n == 'std::allocator':
            return Opaque('alloc')
        h = e.contracts.get('ctor:' + n)
        if h:
            return h(e, t, f, x)
        # exceptions, streams, locks, random devices ...
        for a in as_:
            e.ev(a)
        return Opaque(n)

    def conv(self, v, tfrom, tto):
        a, b = self.T(tfrom), self.T(tto)
        if a['k'] in ('int', 'bool') and b['k'] == 'int':
            return cast_int(v, a.get('w', 1), a.get('s', 0), b['w'])
        if a['k'] == 'int' and b['k'] == 'bool':
            return binop('!=', v, 0, a['w'], False)
        return v

    def needs_copy(self, ti, depth=0):
        """does copying an element run user code?"""
        t = self.T(ti)
        if t['k'] != 'rec':
            return None
        if self.is_std(t):
            return None
        c = self.e.contracts.get('copy:' + t['n'])
        if c:
            return c
        for m in self.e.tu.recs[t['id']].get('ms', []):
            f = self.e.tu.fns[m]
            if f.get('sp') == 'copy' and 'body' in f and not f.get('dflt'):
                return f
        return None

    def deep_copy(self, t, v):
        return v

    def copy_elem(self, eng, ep, v):
        """initialise a by-value range-for variable from *it"""
        i = v['i']
        t = eng.types[v['t']]
        if t['k'] == 'rec' and t['n'] == 'std::_Bit_reference':
            return ep
        x = eng.norm(eng.load(ep), v['t'] if t['k'] in ('int', 'bool', 'vec') else None)
        # conversions on the way (e.g. bool -> int)
        node = i
        if node and node['k'] == 'cast' and node['ck'] in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            st = eng.types[node['e']['t']]
            if node['ck'] == 'IntegralToBoolean':
                return binop('!=', x, 0, st['w'], False)
            return cast_int(x, st.get('w', 1), st.get('s', 0), t['w'])
        return x

    def ctor_seq(self, t, f, x, pt):
        e = self.e
        as_ = x['as']
        et = t['a'][0]['t']
        if not as_ or f.get('sp') == 'def':
            return Vec([])
        if pt[0].get('n') in ('std::allocator',):
            return Vec([])
        t0 = self.T(as_[0]['t'])
        if pt[0].get('n') == 'std::initializer_list':
            return self.val(as_[0])
        if 'ta' in f and len(as_) >= 2 and len(pt) >= 2 and pt[0].get('c') == pt[1].get('c') and pt[0].get('k') == pt[1].get('k') and pt[0]['k'] in ('rec', 'ptr'):
            a, b = self.val(as_[0]), self.val(as_[1])
            s = self.seq_range(a, b)
            return self.conv_seq(s, self.iter_elem(as_[0]['t']), et)
        if t['n'] == 'std::basic_string':
            if pt[0]['k'] == 'ptr':
                p = self.val(as_[0])
                if len(pt) >= 2 and pt[1]['k'] == 'int':
                    n = self.val(as_[1])
                    return self.seq_range(p, e.padvance(p, n))
                return self.cstr(p)
            if pt[0]['k'] == 'int' and len(as_) >= 2:
                n, c = self.val(as_[0]), self.val(as_[1])
                return self.rep(n, c)
            if pt[0]['k'] == 'ref':
                v = self.val(as_[0])
                if len(pt) >= 3 and pt[1]['k'] == 'int':
                    pos, cnt = self.val(as_[1]), self.val(as_[2])
                    return self.substr(v, pos, cnt)
                return v
            return Opaque('string')
        if pt[0]['k'] == 'int':
            n = cast_int(self.val(as_[0]), t0.get('w', 1), t0.get('s', 0), 64)
            if len(pt) >= 2 and pt[1]['k'] == 'ref' and self.T(pt[1]['e']).get('n') != 'std::allocator':
                v = self.conv(self.val(as_[1]), as_[1]['t'], et)
                return self.rep(n, v)
            return self.rep(n, e.default(et))
        if pt[0]['k'] == 'ref' and self.T(pt[0]['e']).get('n') == t['n']:
            return self.val(as_[0])
        raise Unsupported('sequence constructor')

    def iter_elem(self, ti):
        t = self.T(ti)
        if t['k'] == 'ptr':
            return t['e']
        if t['k'] == 'rec':
            if t['n'] in ('__gnu_cxx::__normal_iterator', 'std::move_iterator', 'std::reverse_iterator'):
                return self.iter_elem(t['a'][0]['t'])
            if t['n'] in ('std::_Bit_iterator', 'std::_Bit_const_iterator'):
                return self.e.bool_t()
            if t['n'] == 'std::_Deque_iterator':
                return t['a'][0]['t']
        return None

    def conv_seq(self, s, et_from, et_to):
        if et_from is None or et_to is None or et_from == et_to:
            return s
        a, b = self.T(et_from), self.T(et_to)
        if a['k'] not in ('int', 'bool') or b['k'] not in ('int', 'bool') or (a['k'] == b['k'] and a.get('w') == b.get('w')):
            return s
        fn = lambda v: self.conv(v, et_from, et_to)
        if isinstance(s, Vec):
            return Vec([fn(v) for v in s.xs])
        return VecS(s.n, lambda j: fn(s.get(j)))

    def rep(self, n, v):
        e = self.e
        if isinstance(n, int):
            if n > 200000:
                e.safety('allocation size is sane', n < (1 << 31))
                return VecS(n, lambda j: v)
            return Vec([v] * n) if n < 700 else VecS(n, lambda j: v)
        e.safety('allocation size is sane', z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
        return VecS(n, lambda j: v)

    def cstr(self, p):
        c = self.e.load(Ptr(p.loc, p.path[:-1]))
        if isinstance(c, Vec) and all(isinstance(x, int) for x in c.xs):
            xs = list(c.xs)
            return Vec(xs[:xs.index(0)])
        return Opaque('string')

    def substr(self, v, pos, cnt):
        if isinstance(v, Vec) and isinstance(pos, int) and isinstance(cnt, int):
            return Vec(v.xs[pos:pos + cnt])
        n = vlen(v)
        mx = binop('-', n, pos, 64, False)
        c = ite_w(simp(zb(binop('<', cnt, mx, 64, False))), cnt, mx, 64)
        return VecS(c, lambda j: vget_loose(v, binop('+', j, pos, 64, False)))

    # ------------------------------------------------------------ sequences
    def split_it(self, p):
        if isinstance(p, Ptr):
            if p.path and isinstance(p.path[-1], Idx):
                return Ptr(p.loc, p.path[:-1]), p.path[-1].i
            return p, 0
        raise Unsupported('iterator %s' % type(p).__name__)

    def seq_range(self, a, b):
        """[a, b) as a sequence value"""
        e = self.e
        if isinstance(a, Rec) and a.t == 'rit':
            base, i = self.split_it(a.f['p'])
            _, j = self.split_it(b.f['p'])
            n = binop('-', i, j, 64, False)
            c = e.load(base)
            e.safety('iterator range', land(binop('<=', j, i, 64, False), binop('<=', i, vlen(c), 64, False)))
            im1 = binop('-', i, 1, 64, False)
            if isinstance(n, int) and isinstance(c, Vec) and isinstance(i, int):
                return Vec([c.xs[i - 1 - k] for k in range(n)])
            return VecS(n, lambda k: vget_loose(c, binop('-', im1, k, 64, False)))
        if a is NULL and b is NULL:
            return Vec([])
        if isinstance(a, Choice) or isinstance(b, Choice):
            raise Unsupported('range of conditional iterators')
        if a.vw is not None:
            return self.view_seq(a, e.pdiff(b, a))
        base, i = self.split_it(a)
        base2, j = self.split_it(b)
        if not same_ptr(base, base2):
            raise Unsupported('iterator pair of different containers')
        c = e.load(base)
        if isinstance(c, MapV):
            raise Unsupported('map iterator range')
        if not isinstance(c, (Vec, VecS)):
            raise Unsupported('iterator into %s' % type(c).__name__)
        e.safety('iterator range', land(binop('<=', i, j, 64, False), binop('<=', j, vlen(c), 64, False)))
        n = binop('-', j, i, 64, False)
        return self.slice(c, i, n)

    def slice(self, c, i, n):
        if isinstance(i, int) and isinstance(n, int) and isinstance(c, Vec):
            return Vec(c.xs[i:i + n])
        if isinstance(n, int) and n <= 700:
            return Vec([vget_loose(c, binop('+', i, k, 64, False)) for k in range(n)])
        if isinstance(i, int) and i == 0:
            return VecS(n, lambda k: vget_loose(c, k))
        return VecS(n, lambda k: vget_loose(c, binop('+', i, k, 64, False)))

    def concat(self, a, b):
        if isinstance(a, Vec) and isinstance(b, Vec):
            return Vec(a.xs + b.xs)
        na, nb = vlen(a), vlen(b)
        if isinstance(na, int) and na == 0:
            return b
        if isinstance(nb, int) and nb == 0:
            return a
        n = binop('+', na, nb, 64, False)
        return VecS(n, lambda k: merge(simp(z3.ULT(bv(k, 64), bv(na, 64))), vget_loose(a, k), vget_loose(b, binop('-', k, na, 64, False))))

    def push(self, v, x):
        if isinstance(v, Vec):
            return Vec(v.xs + (x,))
        n = v.n
        g = v.get
        return VecS(binop('+', n, 1, 64, False), lambda j: merge(eq_i(j, n), x, g(j)))

    def overwrite(self, v, i, src, n):
        """v with n elements of src written at index i"""
        if isinstance(v, Vec) and isinstance(i, int) and isinstance(n, int):
            s = [vget_loose(src, k) for k in range(n)]
            return Vec(v.xs[:i] + tuple(s) + v.xs[i + n:])
        if isinstance(v, Vec) and len(v.xs) <= 64:
            out = []
            for k, x in enumerate(v.xs):
                d = binop('-', k, i, 64, False)
                out.append(merge(simp(binop('<', d, n, 64, False)), vget_loose(src, d), x))
            return Vec(out)
        return VecS(vlen(v), lambda k: self._ow(v, i, src, n, k))

    def _ow(self, v, i, src, n, k):
        d = binop('-', k, i, 64, False)
        return merge(simp(binop('<', d, n, 64, False)), vget_loose(src, d), vget_loose(v, k))

    def store_range(self, it, src):
        """write sequence src through output iterator it; returns advanced iterator"""
        e = self.e
        n = vlen(src)
        if isinstance(it, Rec) and it.t == 'backins':
            p = it.f['p']
            e.store(p, self.concat(e.load(p), src))
            return it
        if isinstance(it, Rec) and it.t == 'rit':
            base, i = self.split_it(it.f['p'])
            rs = VecS(n, lambda k: vget_loose(src, binop('-', binop('-', n, 1, 64, False), k, 64, False))) if not isinstance(src, Vec) else Vec(reversed(src.xs))
            st = binop('-', i, n, 64, False)
            c = e.load(base)
            e.safety('output range', binop('<=', n, i, 64, False))
            e.store(base, self.overwrite(c, st, rs, n))
            return Rec('rit', {'p': base.idx(st)})
        if isinstance(it, Ptr) and it.vw is not None:
            raise Unsupported('copy through reinterpreted pointer')
        base, i = self.split_it(it)
        c = e.load(base)
        if not isinstance(c, (Vec, VecS)):
            raise Unsupported('output into %s' % type(c).__name__)
        end = binop('+', i, n, 64, False)
        e.safety('output range', land(binop('<=', i, end, 64, False), binop('<=', end, vlen(c), 64, False)))
        e.store(base, self.overwrite(c, i, src, n))
        return base.idx(end)

    # ------------------------------------------------------------ reinterpreted memory
    def cast_view(self, p, wa, wb):
        """pointer to wa-bit elements seen as wb-bit elements (little endian)"""
        e = self.e
        if p.vw is not None:
            base, i = self.split_it(p)
            kind, nat = p.vw[1]
            if nat == wb:        # cast back
                return base if kind == 'one' else Ptr(base.loc, base.path + (Idx(self.rescale(i, p.vw[0], wb)),))
            return Ptr(base.loc, base.path + (Idx(self.rescale(i, p.vw[0], wb)),), (wb, p.vw[1]))
        base, i = self.split_it(p)
        c = e.load(base)
        if not isinstance(c, (Vec, VecS)):
            # single object
            return Ptr(p.loc, p.path + (Idx(0),), (wb, ('one', wa)))
        return Ptr(base.loc, base.path + (Idx(self.rescale(i, wa, wb)),), (wb, ('seq', wa)))

    def rescale(self, i, wa, wb):
        if isinstance(i, int):
            if i * wa % wb:
                raise Unsupported('misaligned view')
            return i * wa // wb
        if wa % wb == 0:
            return binop('*', i, wa // wb, 64, False)
        raise Unsupported('view of symbolic offset')

    def view(self, p, w, nat=None):
        """memory at p as w-bit elements: container location, its value, natural width, offset of p in w-bit units"""
        e = self.e
        base, i = self.split_it(p)
        if p.vw is not None:
            kind, nat = p.vw[1]
            off = self.rescale(i, p.vw[0], w)
            if kind == 'one':
                return base, Vec([e.load(base)]), nat, off, True
            return base, e.load(base), nat, off, False
        c = e.load(base)
        one = not isinstance(c, (Vec, VecS))
        if one:
            c, i = Vec([c]), 0
        nat = getattr(p, 'w', None) or nat
        if nat is None:
            x = vget_loose(c, 0) if not isinstance(c, Vec) or c.xs else 0
            nat = e.elem_width(x)
        if nat is None:
            raise Unsupported('bytes of elements of unknown width')
        return base, c, nat, self.rescale(i, nat, w), one

    def view_get(self, p, w, nat=None):
        """function: j-th w-bit element from p on; and how many there are"""
        base, c, nat, off, _ = self.view(p, w, nat)
        n = vlen(c)

        def item(k):
            x = vget_loose(c, k)
            if isinstance(x, (bool, z3.BoolRef)):
                x = ite_s(x, 1, 0) if not isinstance(x, bool) else int(x)
            if not isinstance(x, (int, z3.BitVecRef)):
                raise Unsupported('bytes of %s' % type(x).__name__)
            return bv(x, nat)

        def get(j):
            k = binop('+', off, j, 64, False) if not (isinstance(off, int) and off == 0) else j
            if nat == w:
                return item(k)
            if nat < w:
                r = w // nat
                b = binop('*', k, r, 64, False)
                return z3.simplify(z3.Concat(*[item(binop('+', b, t, 64, False)) for t in reversed(range(r))]))
            r = nat // w
            lg = r.bit_length() - 1
            if isinstance(k, int):
                return z3.simplify(z3.Extract((k % r) * w + w - 1, (k % r) * w, item(k // r)))
            k = z3.simplify(bv(k, 64))
            sub = z3.simplify(z3.Extract(lg - 1, 0, k))
            el = item(z3.simplify(z3.LShR(k, lg)))
            if z3.is_bv_value(sub):
                t = sub.as_long()
                return z3.simplify(z3.Extract(t * w + w - 1, t * w, el))
            out = z3.Extract(w - 1, 0, el)
            for t in range(1, r):
                out = z3.If(sub == t, z3.Extract(t * w + w - 1, t * w, el), out)
            return out
        if nat == w:
            m = n
        elif nat > w:
            m = binop('*', n, nat // w, 64, False)
        else:
            m = n // (w // nat) if isinstance(n, int) else z3.LShR(bv(n, 64), (w // nat).bit_length() - 1)
        return get, binop('-', m, off, 64, False)

    def view_seq(self, p, n):
        get, m = self.view_get(p, p.vw[0])
        self.e.safety('range within the re-interpreted object', binop('<=', n, m, 64, False))
        if isinstance(n, int):
            return Vec([get(j) for j in range(n)])
        return VecS(n, get)

    def view_put(self, p, w, src, n, nat=None):
        """n w-bit elements src written at p"""
        e = self.e
        base, c, nat, off, one = self.view(p, w, nat)
        if nat == w:
            r = self.overwrite(c, off, src, n)
        elif nat < w:
            k = w // nat

            def get(j):
                if isinstance(j, int):
                    t = j % k
                    return z3.simplify(z3.Extract(t * nat + nat - 1, t * nat, bv(vget_loose(src, j // k), w)))
                raise Unsupported('store through reinterpreted pointer')
            if not isinstance(n, int):
                raise Unsupported('store through reinterpreted pointer')
            m = n * k
            r = self.overwrite(c, binop('*', off, k, 64, False), Vec([get(j) for j in range(m)]), m)
        else:
            k = nat // w
            if not (isinstance(off, int) and isinstance(n, int) and isinstance(c, Vec)):
                raise Unsupported('store through reinterpreted pointer')
            xs = list(c.xs)
            for j in range(n):
                q, t = (off + j) // k, (off + j) % k
                if q >= len(xs):
                    e.safety('index in range', False)
                old = bv(xs[q], nat)
                parts = [bv(vget_loose(src, j), w) if u == t else z3.Extract(u * w + w - 1, u * w, old) for u in reversed(range(k))]
                xs[q] = z3.simplify(z3.Concat(*parts))
            r = Vec(xs)
        e.store(base, r.xs[0] if one else r)

    def load128(self, p):
        return self.e.load(p)

    def store128(self, p, x):
        self.e.store(p, x)

    # ------------------------------------------------------------ maps
    def keyeq(self, a, b):
        if isinstance(a, (bool, int, z3.ExprRef)) and isinstance(b, (bool, int, z3.ExprRef)):
            return simp(eq_i(a, b))
        if isinstance(a, Vec) and isinstance(b, Vec):
            if len(a.xs) != len(b.xs):
                return False
            return conj([self.keyeq(x, y) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, Rec) and isinstance(b, Rec):
            return conj([self.keyeq(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.e.peq(a, b)
        raise Unsupported('map key %s' % type(a).__name__)

    def map_find(self, m, key):
        """(present, [(cond, n)]): entries that may hold key, latest first"""
        hits = []
        none = True
        for n in range(len(m.es) - 1, -1, -1):
            g, k, v = m.es[n]
            c = land(g, self.keyeq(k, key))
            if c is False:
                continue
            hits.append((land(none, c), n))
            none = land(none, lnot(c))
            if none is False:
                break
        return lnot(none), hits

    def map_put(self, m, key, val, overwrite=True):
        """insert or assign (entries later in the list win)"""
        for n in range(len(m.es)):
            g, k, v = m.es[n]
            c = self.keyeq(k, key)
            if c is True and g is True:
                if not overwrite:
                    return m
                es = list(m.es)
                es[n] = (g, k, val)
                return MapV(es)
        if overwrite:
            es = []
            for g, k, v in m.es:
                c = self.keyeq(k, key)
                es.append((land(g, lnot(c)), k, v) if c is not False else (g, k, v))
            return MapV(es + [(True, key, val)])
        present, _ = self.map_find(m, key)
        return MapV(list(m.es) + [(lnot(present), key, val)])

    def map_order(self, m):
        idx = list(range(len(m.es)))
        try:
            idx.sort(key=lambda n: self.pykey(m.es[n][1]))
        except TypeError:
            # symbolic keys: in order if that is valid here, whether read as signed or unsigned
            ks = [k for _, k, _ in m.es]
            ok = len(ks) < 2 or all(z3.is_bv(k) or isinstance(k, int) for k in ks) and any(z3.is_bv(k) for k in ks)
            if ok and len(ks) > 1:
                w = next(k.size() for k in ks if z3.is_bv(k))
                bs = [bv(k, w) for k in ks]
                ok = all(self.e.valid(z3.And(z3.ULT(a, b), a < b)) for a, b in zip(bs, bs[1:]))
            if not ok:
                raise Unsupported('iteration over a map with symbolic keys')
        return idx

    def pykey(self, k):
        if isinstance(k, (int, bool)):
            return k
        if isinstance(k, Vec):
            return tuple(self.pykey(x) for x in k.xs)
        if isinstance(k, Rec):
            return tuple(self.pykey(k.f[f]) for f in sorted(k.f))
        raise TypeError()

    def map_size(self, m):
        n = 0
        for i, (g, k, v) in enumerate(m.es):
            if g is True:
                n = binop('+', n, 1, 64, False)
            else:
                n = binop('+', n, bv(zb(g), 64), 64, False)
        return n

    def map_at(self, p, m, key, ins=None):
        """lvalue of the mapped value; ins: value inserted when absent (operator[])"""
        e = self.e
        present, hits = self.map_find(m, key)
        present = simp(present)
        if present is False and ins is None:
            e.throw('std::out_of_range')
        if present is not True:
            if ins is None:
                e.fork(present, lambda: None, lambda: e.throw('std::out_of_range'))
            else:
                m = MapV(list(m.es) + [(lnot(present), key, ins())])
                e.store(p, m)
                hits = hits + [(lnot(present), len(m.es) - 1)]
        r = None
        for c, n in reversed(hits):
            q = p.fld('@%d' % n)
            r = q if r is None else Choice(c, q, r)
        if len(hits) == 1:
            r = p.fld('@%d' % hits[0][1])
        return r

    # ------------------------------------------------------------ member calls
    def mcall(self, rt, f, this, x):
        e = self.e
        n = f['n']
        rn = rt.get('n', '')
        as_ = x['as']
        q = f['q']
        if q in e.contracts:
            args = e.eval_args(f, as_)
            e.used_contracts.add(q)
            from interp import Call
            return e.contracts[q](e, this, args, Call(f, x))
        if isinstance(this, Choice) and rn not in PTRS:
            return e.fork(this.c, lambda: self.mcall(rt, f, this.a, x), lambda: self.mcall(rt, f, this.b, x))
        cls = q.rsplit('::', 1)[0]
        self.use(q)
        if rn in SEQ or cls in SEQ or cls in ('std::__cxx11::basic_string',):
            return self.m_seq(rt, f, this, x, n, as_)
        if rn in MAPS or rn in SETS:
            return self.m_map(rt, f, this, x, n, as_)
        if rn in PTRS or cls in ('std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr'):
            return self.m_ptr(rt, f, this, x, n, as_)
        if rn in ('__gnu_cxx::__normal_iterator', 'std::_Bit_iterator', 'std::_Bit_const_iterator', 'std::_Bit_iterator_base', 'std::move_iterator', 'std::reverse_iterator', 'std::_Deque_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator') or rn.startswith('std::__detail::_Node'):
            return self.m_iter(rt, f, this, x, n, as_)
        if rn == 'std::reference_wrapper':
            if n == 'operator=':
                v = e.ev(as_[0])
                t0 = self.T(as_[0]['t'])
                e.store(this, e.load(v) if t0['k'] == 'rec' and t0['n'] == rn and as_[0].get('lv') else v)
                return this
            return e.load(this)           # get, conversion
        if rn == 'std::_Bit_reference':
            p = e.load(this)
            if n == 'operator bool':
                return e.norm(e.load(p), e.bool_t())
            if n == 'operator=':
                v = self.val(as_[0])
                if isinstance(v, Ptr):
                    v = e.load(v)
                e.store(p, v)
                return this
            if n == 'flip':
                e.store(p, lnot(e.load(p)))
                return None
        if rn == 'std::optional' or cls.startswith('std::optional') or cls.startswith('std::_Optional'):
            return self.m_opt(rt, f, this, x, n, as_)
        if rn in ('std::atomic', 'std::__atomic_base') or cls in ('std::__atomic_base', 'std::atomic'):
            return self.m_atomic(rt, f, this, x, n, as_)
        if rn == 'std::function':
            if n == 'operator()':
                args = [e.ev(a) for a in as_]
                return e.call_clo(e.load(this), args, [bool(a.get('lv')) for a in as_])
            if n == 'operator=':
                e.store(this, self.val(as_[0]))
                return this
            if n == 'operator bool':
                return e.ptr_nonnull(e.load(this))
        if rn in ('std::pair', 'std::tuple'):
            if n == 'operator=':
                a = as_[0]
                v = self.val(a)
                cur = e.load(this)
                if isinstance(cur, Rec) and any(isinstance(y, RefBox) for y in cur.f.values()):
                    ks, vs = sorted(cur.f), sorted(v.f)
                    for k1, k2 in zip(ks, vs):
                        tgt = cur.f[k1]
                        e.store(tgt.p if isinstance(tgt, RefBox) else this.fld(k1), v.f[k2])
                    return this
                e.store(this, v)
                return this
        if rn in ('std::future', 'std::shared_future', 'std::__basic_future'):
            if n == 'get':
                return self.fut_get(e.load(this))
            if n in ('wait', 'valid'):
                return True
        if rn in ('std::thread',):
            if n in ('join', 'detach'):
                return None
            if n == 'joinable':
                return True
        if n == 'operator=' and len(as_) == 1:
            e.store(this, self.val(as_[0]))
            return this
        h = e.contracts.get('std:' + n)
        if h:
            return h(e, this, x)
        cur = e.load(this)
        if isinstance(cur, Opaque):
            for a in as_:
                e.ev(a)
            return self.opaque_ret(f)
        raise Unsupported('library method %s on %s' % (q, rn))

    def fut_get(self, v):
        if isinstance(v, Rec) and v.t == 'future':
            if v.f.get('exc'):
                self.e.throw(v.f['exc'])
            return v.f['v']
        raise Unsupported('future')

    def opaque_ret(self, f):
        t = self.T(f['ret'])
        if t['k'] == 'void':
            return None
        if t['k'] in ('int', 'bool'):
            return self.e.sym_scalar(f['ret'], 'opaque')
        if t['k'] == 'ref':
            return self.e.alloc(Opaque('ref'))
        return Opaque(f['n'])

    def index(self, a):
        t = self.T(a['t'])
        return cast_int(self.val(a), t.get('w', 1), t.get('s', 0), 64)

    def m_seq(self, rt, f, this, x, n, as_):
        e = self.e
        v = e.load(this)
        if isinstance(v, Opaque):
            for a in as_:
                e.ev(a)
            return self.opaque_ret(f) if n not in ('operator+=', 'append', 'push_back') else this
        if v is Undef:
            raise Unsupported('uninitialised container')
        if isinstance(v, Choice):
            return e.fork(v.c, lambda: self._with(this, v.a, rt, f, x, n, as_), lambda: self._with(this, v.b, rt, f, x, n, as_))
        et = rt['a'][0]['t'] if rt.get('a') else None
        if rt['n'] in ('std::queue', 'std::stack'):
            if n in ('push', 'emplace'):
                n = 'push_back' if n == 'push' else 'emplace_back'
            elif n == 'pop':
                n = 'pop_front' if rt['n'] == 'std::queue' else 'pop_back'
            elif n == 'top':
                n = 'back'
        if n in ('size', 'length'):
            return vlen(v)
        if n == 'empty':
            return eq_i(vlen(v), 0)
        if n in ('operator[]', 'at'):
            i = self.index(as_[0])
            if n == 'at':
                c = simp(binop('<', i, vlen(v), 64, False))
                if c is not True:
                    e.fork(c, lambda: None, lambda: e.throw('std::out_of_range'))
            else:
                lim = vlen(v)
                if rt['n'] == 'std::basic_string':
                    lim = binop('+', lim, 1, 64, False)
                e.safety('index in range', binop('<', i, lim, 64, False))
            p = this.idx(i)
            if self.T(f['ret'])['k'] == 'bool':
                return e.norm(e.load(p), f['ret'])
            return p
        if n in ('push_back', 'emplace_back'):
            if n == 'push_back':
                a = as_[0]
                val = self.val(a)
                pt0 = self.T(f['ps'][0]['t'])
                if a.get('lv') and pt0['k'] == 'ref' and pt0.get('r'):
                    self.moved_from(e.ev_again(a) if False else None, a)
                val = self.conv(val, a['t'], et) if et is not None and self.T(a['t'])['k'] in ('int', 'bool') else val
            else:
                val = self.emplace(et, as_)
            cur = e.load(this)
            e.store(this, self.push(cur, val))
            nm = binop('-', vlen(e.load(this)), 1, 64, False)
            return this.idx(nm) if n == 'emplace_back' and self.T(f['ret'])['k'] != 'void' else None
        if n == 'reserve' or n == 'shrink_to_fit':
            for a in as_:
                e.ev(a)
            return None
        if n == 'capacity':
            return e.fresh_bv('capacity', 64)
        if n == 'clear':
            e.store(this, Vec([]))
            return None
        if n in ('begin', 'cbegin', 'data', 'c_str'):
            return this.idx(0)
        if n in ('end', 'cend'):
            return this.idx(vlen(v))
        if n in ('rbegin', 'crbegin'):
            return Rec('rit', {'p': this.idx(vlen(v))})
        if n in ('rend', 'crend'):
            return Rec('rit', {'p': this.idx(0)})
        if n == 'front':
            e.safety('front of non-empty', binop('!=', vlen(v), 0, 64, False))
            p = this.idx(0)
            return e.load(p) if self.T(f['ret'])['k'] == 'bool' else p
        if n == 'back':
            e.safety('back of non-empty', binop('!=', vlen(v), 0, 64, False))
            p = this.idx(binop('-', vlen(v), 1, 64, False))
            return e.load(p) if self.T(f['ret'])['k'] == 'bool' else p
        if n == 'pop_back':
            e.safety('pop of non-empty', binop('!=', vlen(v), 0, 64, False))
            e.store(this, self.slice(v, 0, binop('-', vlen(v), 1, 64, False)))
            return None
        if n == 'pop_front':
            e.safety('pop of non-empty', binop('!=', vlen(v), 0, 64, False))
            e.store(this, self.slice(v, 1, binop('-', vlen(v), 1, 64, False)))
            return None
        if n == 'push_front':
            val = self.val(as_[0])
            e.store(this, self.concat(Vec([val]), v))
            return None
        if n == 'resize':
            k = self.index(as_[0])
            d = self.val(as_[1]) if len(as_) > 1 else e.default(et)
            o = vlen(v)
            if isinstance(k, int) and isinstance(v, Vec):
                e.store(this, Vec(list(v.xs[:k]) + [d] * (k - len(v.xs))))
            else:
                e.store(this, VecS(k, lambda j: merge(simp(binop('<', j, o, 64, False)), vget_loose(v, j), d)))
            return None
        if n == 'assign':
            if len(as_) == 2 and self.T(as_[0]['t'])['k'] == 'int':
                k, d = self.index(as_[0]), self.conv(self.val(as_[1]), as_[1]['t'], et)
                e.store(this, self.rep(k, d))
                return None
            if len(as_) == 2:
                e.store(this, self.seq_range(self.val(as_[0]), self.val(as_[1])))
                return None
        if n == 'fill':
            d = self.val(as_[0])
            e.store(this, Vec([d] * len(v.xs)) if isinstance(v, Vec) else VecS(v.n, lambda j: d))
            return None
        if n == 'insert':
            pos = self.val(as_[0])
            _, i = self.split_it(pos)
            if len(as_) == 3 and 'ta' in f:
                s = self.conv_seq(self.seq_range(self.val(as_[1]), self.val(as_[2])), self.iter_elem(as_[1]['t']), et)
            elif len(as_) == 3:
                s = self.rep(self.index(as_[1]), self.val(as_[2]))
            else:
                if self.T(as_[1]['t']).get('n') == 'std::initializer_list':
                    s = self.val(as_[1])
                else:
                    s = Vec([self.val(as_[1])])
            v = e.load(this)
            tail = self.slice(v, i, binop('-', vlen(v), i, 64, False))
            e.store(this, self.concat(self.concat(self.slice(v, 0, i), s), tail))
            return this.idx(i)
        if n == 'erase':
            a = self.val(as_[0])
            _, i = self.split_it(a)
            if len(as_) == 2:
                _, j = self.split_it(self.val(as_[1]))
                e.safety('erase range', land(binop('<=', i, j, 64, False), binop('<=', j, vlen(v), 64, False)))
            else:
                j = binop('+', i, 1, 64, False)
                e.safety('erase position', binop('<', i, vlen(v), 64, False))
            tail = self.slice(v, j, binop('-', vlen(v), j, 64, False))
            e.store(this, self.concat(self.slice(v, 0, i), tail))
            return this.idx(i)
        if n == 'operator=':
            a = as_[0]
            src = e.ev(a)
            s = e.load(src) if a.get('lv') else src
            pt0 = self.T(f['ps'][0]['t'])
            if a.get('lv') and pt0['k'] == 'ref' and pt0.get('r') and not same_ptr(src, this):
                e.store(src, Vec([]))
            e.store(this, s)
            return this
        if n == 'swap':
            o = e.ev(as_[0])
            w = e.load(o)
            e.store(o, v)
            e.store(this, w)
            return None
        if n in ('operator+=', 'append'):
            a = as_[0]
            at = self.T(a['t'])
            if at['k'] == 'int' and len(as_) == 1:
                s = Vec([self.val(a)])
            elif at['k'] == 'ptr' and len(as_) == 1:
                s = self.cstr(self.val(a))
            elif len(as_) == 2 and 'ta' in f:
                s = self.seq_range(self.val(as_[0]), self.val(as_[1]))
            elif len(as_) == 2 and at['k'] == 'ptr':
                p = self.val(a)
                s = self.seq_range(p, e.padvance(p, self.index(as_[1])))
            else:
                s = self.val(a)
            if isinstance(s, Opaque):
                e.store(this, s)
            else:
                e.store(this, self.concat(v, s))
            return this
        if n == 'substr':
            pos = self.index(as_[0]) if as_ else 0
            cnt = self.index(as_[1]) if len(as_) > 1 else mask(64)
            c = simp(binop('<=', pos, vlen(v), 64, False))
            e.fork(c, lambda: None, lambda: e.throw('std::out_of_range'))
            return self.substr(v, pos, cnt)
        if n == 'emplace':
            raise Unsupported('emplace')
        if n == 'compare':
            raise Unsupported('compare')
        raise Unsupported('sequence method %s' % n)

    def _with(self, this, v, rt, f, x, n, as_):
        self.e.store(this, v)
        return self.m_seq(rt, f, this, x, n, as_)

    def moved_from(self, p, a):
        """push_back(std::move(x)) leaves x empty"""
        e = self.e
        t = self.T(a['t'])
        if t['k'] == 'rec' and t['n'] in ('std::vector', 'std::deque', 'std::basic_string') or t['k'] == 'rec' and t['n'] in PTRS:
            q = e.ev(a) if self.pure_lv(a) else None
            if q is not None and isinstance(q, Ptr):
                e.store(q, NULL if t['n'] in PTRS else Vec([]))

    def pure_lv(self, a):
        k = a['k']
        if k == 'var':
            return True
        if k == 'mem':
            return self.pure_lv(a['b']) if a['b'].get('lv') else a['b']['k'] == 'this'
        if k == 'call':
            return self.e.tu.fns[a['fn']]['q'] in ('std::move', 'std::forward') and self.pure_lv(a['as'][0])
        if k == 'cast':
            return self.pure_lv(a['e'])
        return False

    def emplace(self, et, as_):
        e = self.e
        t = self.T(et)
        if len(as_) == 1:
            a = as_[0]
            at = self.T(a['t'])
            if at['k'] == 'rec' and t['k'] == 'rec' and at['c'] == t['c']:
                v = self.val(a)
                if a.get('lv') and self.is_move(a):
                    self.moved_from(None, a)
                return v
            if t['k'] in ('int', 'bool') and at['k'] in ('int', 'bool'):
                return self.conv(self.val(a), a['t'], et)
            if at['k'] == t['k'] and t['k'] in ('vec', 'ptr', 'flt'):
                return self.val(a)
            if t['k'] == 'rec' and t['n'] in PTRS and at['k'] in ('rec', 'ptr'):
                return self.val(a)
            if t['k'] == 'rec' and t['n'] in ('std::vector',) and at['k'] == 'int':
                return self.rep(self.index(a), e.default(t['a'][0]['t']))
        if t['k'] == 'rec' and t['n'] == 'std::pair' and len(as_) == 2:
            return Rec('pair', {'first': self.conv(self.val(as_[0]), as_[0]['t'], t['a'][0]['t']), 'second': self.conv(self.val(as_[1]), as_[1]['t'], t['a'][1]['t'])})
        if t['k'] == 'rec' and t['n'] == 'std::tuple' and len(as_) == len(t['a']):
            return Rec('tuple', {str(i): self.conv(self.val(a), a['t'], t['a'][i]['t']) for i, a in enumerate(as_)})
        if not as_:
            return e.default(et)
        if t['k'] == 'rec' and t['n'] in ('std::vector',) and len(as_) == 2:
            if self.T(as_[0]['t'])['k'] == 'int':
                return self.rep(self.index(as_[0]), self.conv(self.val(as_[1]), as_[1]['t'], t['a'][0]['t']))
            return self.seq_range(self.val(as_[0]), self.val(as_[1]))
        if t['k'] == 'rec' and not self.is_std(t):
            return self.make_obj(t, as_)
        raise Unsupported('emplace construction')

    def is_move(self, a):
        return a['k'] == 'call' and self.e.tu.fns[a['fn']]['q'] == 'std::move'

    def make_obj(self, t, as_):
        """construct an own-record object from forwarded arguments: choose the constructor by arity and types"""
        e = self.e
        rec = e.tu.recs[t['id']]
        cands = []
        for m in rec.get('ms', []):
            f = e.tu.fns[m]
            if f.get('sp') in ('ctor', 'def', 'copy', 'move') and len(f['ps']) == len(as_):
                sc = 0
                ok = True
                for p, a in zip(f['ps'], as_):
                    pt = self.T(p['t'])
                    if pt['k'] == 'ref':
                        pt = self.T(pt['e'])
                    at = self.T(a['t'])
                    if pt['k'] != at['k']:
                        if pt['k'] in ('int', 'bool', 'flt') and at['k'] in ('int', 'bool', 'flt'):
                            sc += 1
                        elif pt['k'] == 'rec' and pt['n'] in PTRS + ('std::function', 'std::basic_string', 'std::optional'):
                            sc += 2
                        else:
                            ok = False
                    elif pt['k'] == 'rec' and pt['c'] != at['c']:
                        if pt['n'] == at['n'] or at.get('n') == '(lambda)':
                            sc += 2
                        elif at.get('id') is not None and pt.get('id') is not None and e.tu.derives(at['id'], pt['c']):
                            sc += 1
                        else:
                            ok = False
                    elif pt['k'] in ('int',) and pt['w'] != at['w']:
                        sc += 1
                if ok and self.T(f['ps'][0]['t'])['k'] == 'ref' and as_:
                    p0 = self.T(f['ps'][0]['t'])
                    if p0.get('r') and as_[0].get('lv') and not self.is_move(as_[0]):
                        sc += 50
                if ok:
                    cands.append((sc, len(cands), f))
        if not cands:
            if not as_:
                return e.default_of_rec(t)
            raise Unsupported('no constructor of %s for forwarded arguments' % t['n'])
        f = min(cands, key=lambda c: c[:2])[2]
        q = f['q']
        vals = []
        for p, a in zip(f['ps'], as_):
            pt = self.T(p['t'])
            at = self.T(a['t'])
            v = e.ev(a)
            if pt['k'] == 'ref':
                if not a.get('lv'):
                    v = e.alloc(v)
                pe = self.T(pt['e'])
                if pe['k'] == 'int' and at['k'] in ('int', 'bool') and pe['w'] != at.get('w', 1):
                    v = e.alloc(self.conv(e.load(v), a['t'], pt['e']))
            else:
                if a.get('lv'):
                    src = v
                    v = e.norm(e.load(v), a['t'])
                    if self.is_move(a) and at['k'] == 'rec':
                        self.moved_from(None, a)
                v = self.conv(v, a['t'], p['t']) if pt['k'] in ('int', 'bool') else v
            vals.append(v)
        from interp import Call
        if q in e.contracts:
            e.used_contracts.add(q)
            return e.contracts[q](e, None, vals, Call(f, None))
        if 'body' not in f:
            if f.get('sp') in ('copy', 'move'):
                return e.load(vals[0])
            if f.get('sp') == 'def':
                return e.default_of_rec(t)
            raise Unsupported('constructor %s has no body' % q)
        return e.construct(t['id'], f, vals)

    # maps ------------------------------------------------------------------
    def m_map(self, rt, f, this, x, n, as_):
        e = self.e
        m = e.load(this)
        isset = rt['n'] in SETS
        if isinstance(m, Opaque):
            for a in as_:
                e.ev(a)
            return self.opaque_ret(f)
        if not isinstance(m, MapV):
            raise Unsupported('map value %s' % type(m).__name__)
        kt = rt['a'][0]['t']

        def key(a):
            return self.conv(self.val(a), a['t'], kt)
        if n in ('size',):
            return self.map_size(m)
        if n == 'empty':
            return eq_i(self.map_size(m), 0)
        if n == 'clear':
            e.store(this, MapV([]))
            return None
        if n in ('count', 'contains'):
            pr, _ = self.map_find(m, key(as_[0]))
            pr = simp(pr)
            if n == 'contains':
                return pr
            return int(pr) if isinstance(pr, bool) else bv(pr, 64)
        if n == 'at':
            return self.map_at(this, m, key(as_[0]))
        if n == 'operator[]':
            return self.map_at(this, m, key(as_[0]), ins=lambda: e.default(rt['a'][1]['t']))
        if n == 'find':
            pr, hits = self.map_find(m, key(as_[0]))
            pr = simp(pr)
            r = Ptr(this.loc, this.path + ('@end',))
            for c, k in reversed(hits):
                q = Ptr(this.loc, this.path + ('@%d' % k,), None)
                r = q if c is True else Choice(c, q, r)
            if pr is True and hits:
                r = None
                for c, k in reversed(hits):
                    q = this.fld('@%d' % k)
                    r = q if r is None else Choice(c, q, r)
            return r
        if n in ('end', 'cend'):
            return this.fld('@end')
        if n in ('begin', 'cbegin'):
            o = self.map_order(m)
            return this.fld('@%d' % o[0]) if o else this.fld('@end')
        if n in ('emplace', 'insert', 'insert_or_assign', 'try_emplace'):
            if isset:
                k = key(as_[0])
                v = True
            elif n == 'insert' or len(as_) == 1:
                p = self.val(as_[0])
                if not isinstance(p, Rec):
                    raise Unsupported('map insert')
                k, v = p.f['first'], p.f['second']
            else:
                k = key(as_[0])
                t1 = self.T(rt['a'][1]['t'])
                v = self.emplace(rt['a'][1]['t'], as_[1:])
            m = e.load(this)
            pr, _ = self.map_find(m, k)
            e.store(this, self.map_put(m, k, v, overwrite=(n == 'insert_or_assign')))
            m2 = e.load(this)
            pr2, hits = self.map_find(m2, k)
            it = None
            for c, kk in reversed(hits):
                qq = this.fld('@%d' % kk)
                it = qq if it is None else Choice(c, qq, it)
            return Rec('pair', {'first': it, 'second': lnot(simp(pr))})
        if n == 'erase':
            t0 = self.T(as_[0]['t'])
            if t0['k'] == 'rec' and 'iterator' in t0['n']:
                it = self.val(as_[0])
                if isinstance(it, Ptr) and it.path[-1].startswith('@') and it.path[-1] != '@end':
                    k = int(it.path[-1][1:])
                    es = list(m.es)
                    es[k] = (False, es[k][1], es[k][2])
                    e.store(this, MapV(es))
                    return this.fld('@end')
                raise Unsupported('erase iterator')
            k = key(as_[0])
            pr, _ = self.map_find(m, k)
            es = []
            for g, kk, v in m.es:
                c = self.keyeq(kk, k)
                g2 = land(g, lnot(c))
                if g2 is not False:
                    es.append((g2, kk, v))
            e.store(this, MapV(es))
            return bv(zb(pr), 64) if is_sym(pr) else int(pr)
        if n == 'reserve':
            e.ev(as_[0])
            return None
        if n == 'operator=':
            a = as_[0]
            e.store(this, self.val(a))
            return this
        raise Unsupported('map method ' + n)

    # smart pointers -----------------------------------------------------------
    def m_ptr(self, rt, f, this, x, n, as_):
        e = self.e
        v = e.load(this)
        if n in ('operator->', 'get'):
            return v
        if n == 'operator*':
            return e.ptr_of(v)
        if n == 'operator bool':
            return e.ptr_nonnull(v)
        if n == 'operator[]':
            return e.padvance(v, self.index(as_[0]))
        if n == 'operator=':
            a = as_[0]
            if self.T(a['t'])['k'] == 'nullptr':
                e.store(this, NULL)
                return this
            src = e.ev(a)
            nv = e.load(src) if a.get('lv') else src
            pt0 = self.T(f['ps'][0]['t'])
            if a.get('lv') and pt0['k'] == 'ref' and pt0.get('r'):
                e.store(src, NULL)
            e.store(this, nv)
            return this
        if n == 'reset':
            nv = self.val(as_[0]) if as_ else NULL
            e.store(this, nv)
            return None
        if n == 'release':
            e.store(this, NULL)
            return v
        if n == 'swap':
            o = e.ev(as_[0])
            w = e.load(o)
            e.store(o, v)
            e.store(this, w)
            return None
        if n == 'use_count':
            return e.fresh_bv('use_count', 64)
        raise Unsupported('pointer method ' + n)

    def m_opt(self, rt, f, this, x, n, as_):
        e = self.e
        v = e.load(this)
        if n in ('has_value', 'operator bool'):
            return v.has
        if n in ('value', 'operator*', 'operator->'):
            if n == 'value':
                e.fork(v.has, lambda: None, lambda: e.throw('std::bad_optional_access'))
            else:
                e.safety('optional has a value', v.has)
            return this.fld('?')
        if n == 'value_or':
            d = self.val(as_[0])
            return merge(v.has, v.v, d)
        if n == 'operator=':
            a = as_[0]
            t = self.T(a['t'])
            if t.get('n') == 'std::nullopt_t':
                e.store(this, Opt(False, Undef))
            else:
                y = self.val(a)
                e.store(this, y if isinstance(y, Opt) else Opt(True, self.conv(y, a['t'], rt['a'][0]['t'])))
            return this
        if n == 'reset':
            e.store(this, Opt(False, Undef))
            return None
        if n == 'emplace':
            e.store(this, Opt(True, self.emplace(rt['a'][0]['t'], as_)))
            return this.fld('?')
        raise Unsupported('optional method ' + n)

    def m_atomic(self, rt, f, this, x, n, as_):
        e = self.e
        t = self.T(rt['a'][0]['t'])
        v = e.load(this)
        if n == 'load' or n.startswith('operator ') and not as_:
            return v
        if n in ('store', 'operator='):
            nv = self.conv(self.val(as_[0]), as_[0]['t'], rt['a'][0]['t'])
            e.store(this, nv)
            return nv
        w = t.get('w', 1)
        if isinstance(v, Opaque):
            for a in as_[:1]:
                e.ev(a)
            return v
        if n in ('fetch_add', 'operator+='):
            d = self.val(as_[0])
            nv = binop('+', v, self.conv(d, as_[0]['t'], rt['a'][0]['t']), w, False)
            e.store(this, nv)
            return v if n == 'fetch_add' else nv
        if n in ('fetch_sub', 'operator-='):
            nv = binop('-', v, self.conv(self.val(as_[0]), as_[0]['t'], rt['a'][0]['t']), w, False)
            e.store(this, nv)
            return v if n == 'fetch_sub' else nv
        if n == 'operator++':
            nv = binop('+', v, 1, w, False)
            e.store(this, nv)
            return v if as_ else nv
        if n == 'operator--':
            nv = binop('-', v, 1, w, False)
            e.store(this, nv)
            return v if as_ else nv
        if n == 'exchange':
            e.store(this, self.val(as_[0]))
            return v
        raise Unsupported('atomic method ' + n)

    def m_iter(self, rt, f, this, x, n, as_):
        e = self.e
        v = e.load(this)
        rev = isinstance(v, Rec) and v.t == 'rit'

        def adv(v, d):
            if rev:
                return Rec('rit', {'p': e.padvance(v.f['p'], binop('-', 0, d, 64, False) if not isinstance(d, int) else (-d) & mask(64))})
            if isinstance(v, Ptr) and v.path and isinstance(v.path[-1], str) and v.path[-1].startswith('@'):
                return self.map_next(v, d)
            return e.padvance(v, d)
        if n == 'base':
            return v.f['p'] if rev else v
        if n in ('operator*', 'operator->'):
            p = v
            if rev:
                p = e.padvance(v.f['p'], mask(64))
            if isinstance(p, Choice):
                p = self.resolve_choice(p)
            if isinstance(p, Ptr) and p.path and isinstance(p.path[-1], str) and p.path[-1].startswith('@'):
                if p.path[-1] == '@end':
                    e.safety('dereference of end iterator', False)
                    raise Dead()
                m = e.load(Ptr(p.loc, p.path[:-1]))
                k = int(p.path[-1][1:])
                # pair view: first is a copy, second aliases the map entry
                return e.alloc(Rec('pair', {'first': m.es[k][1], 'second': RefBox(p)}), 'mapit')
            if isinstance(p, Ptr) and p.vw is None and p.path and isinstance(p.path[-1], Idx):
                c = e.load(Ptr(p.loc, p.path[:-1]))
                if isinstance(c, (Vec, VecS)):
                    e.safety('iterator dereference in range', binop('<', p.path[-1].i, vlen(c), 64, False))
            if self.T(f['ret'])['k'] == 'bool':
                return e.load(p)
            return p
        if n == 'operator++':
            nv = adv(v, 1)
            e.store(this, nv)
            return v if as_ else this
        if n == 'operator--':
            nv = adv(v, mask(64))
            e.store(this, nv)
            return v if as_ else this
        if n in ('operator+=', 'operator-=', 'operator+', 'operator-'):
            t = self.T(as_[0]['t'])
            if t['k'] != 'int':
                w = self.val(as_[0])
                return e.pdiff(v, w)
            d = self.index(as_[0])
            if '-' in n:
                d = binop('-', 0, d, 64, False) if not isinstance(d, int) else (-d) & mask(64)
            nv = adv(v, d)
            if n.endswith('='):
                e.store(this, nv)
                return this
            return nv
        if n == 'operator[]':
            return e.padvance(v, self.index(as_[0]))
        if n == 'operator=':
            e.store(this, self.val(as_[0]))
            return this
        raise Unsupported('iterator method ' + n)

    def resolve_choice(self, p):
        """a conditional iterator: drop the infeasible side"""
        e = self.e
        while isinstance(p, Choice):
            if not e.feasible(p.c):
                p = p.b
            elif not e.feasible(lnot(p.c)):
                p = p.a
            else:
                raise Unsupported('conditional map iterator')
        return p

    def map_next(self, v, d):
        e = self.e
        m = e.load(Ptr(v.loc, v.path[:-1]))
        o = self.map_order(m)
        if v.path[-1] == '@end':
            pos = len(o)
        else:
            pos = o.index(int(v.path[-1][1:]))
        if not isinstance(d, int):
            raise Unsupported('map iterator step')
        pos += tosigned(d, 64)
        return Ptr(v.loc, v.path[:-1] + ('@%d' % o[pos] if pos < len(o) else '@end',))

    # ------------------------------------------------------------ floating point
    def float_op(self, op, a, b):
        if isinstance(a, int):
            a = float(a)
        if isinstance(b, int):
            b = float(b)
        if isinstance(a, float) and isinstance(b, float):
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()
        raise Unsupported('symbolic floating point')

    def float_to_int(self, v, td):
        raise Unsupported('symbolic floating point conversion')

    # ------------------------------------------------------------ free functions
    def call(self, f, x):
        e = self.e
        q = f['q']
        n = f['n']
        as_ = x['as']
        m = getattr(self, 'f_' + q.replace('std::', '').replace('::', '_'), None)
        self.use(q)
        if m is not None:
            return m(f, x, as_)
        if n.startswith('_mm_') or n.startswith('__builtin_ia32') or n.startswith('_mm256'):
            import intrin
            return intrin.call(self, f, x, as_)
        if n.startswith('operator'):
            return self.f_operator(f, x, as_, n)
        if n in ('__assert_fail',):
            e.safety('assert', False)
            raise Dead()
        if q in ('std::pow', 'std::log2', 'log2', 'pow', 'std::ceil', 'std::floor', 'ceil', 'floor', 'std::sqrt', 'sqrt', 'std::log', 'std::log10', 'std::round', 'round', 'std::exp', 'std::__log2'):
            vs = []
            for a in as_:
                v = self.val(a)
                t = self.T(a['t'])
                if isinstance(v, int) and t['k'] == 'int':
                    v = float(tosigned(v, t['w']) if t['s'] else v)
                vs.append(v)
            if all(isinstance(v, float) for v in vs):
                return float(getattr(math, {'round': 'floor'}.get(n, n))(*vs)) if n != 'round' else float(math.floor(vs[0] + 0.5))
            h = e.contracts.get('math:' + n)
            if h:
                return h(e, vs)
            raise Unsupported('symbolic %s' % n)
        if q.startswith('folly::') or q.startswith('std::operator<<') or q.startswith('fmt::') or n in ('printf', 'fprintf'):
            for a in as_:
                try:
                    e.ev(a)
                except Unsupported:
                    pass
            return self.opaque_ret(f)
        h = e.contracts.get('fn:' + n)
        if h:
            return h(e, f, x)
        raise Unsupported('library function %s' % q)

    def f_operator(self, f, x, as_, n):
        e = self.e
        t0 = self.T(as_[0]['t'])
        rn = t0.get('n', '')
        op = n[len('operator'):]
        if op in ('==', '!=', '<', '>', '<=', '>=', '-', '+'):
            a, b = self.val(as_[0]), self.val(as_[1])
            if isinstance(a, Choice) and (isinstance(a.a, (Ptr, Null)) or isinstance(a.b, (Ptr, Null))) or isinstance(a, (Ptr, Null)) or isinstance(b, Ptr):
                if op == '==':
                    return simp(self.iteq(a, b))
                if op == '!=':
                    return simp(lnot(self.iteq(a, b)))
                if op == '-':
                    return e.pdiff(a, b)
                if op == '+':
                    if isinstance(a, Ptr):
                        return e.padvance(a, self.index(as_[1]))
                    return e.padvance(b, cast_int(a, t0['w'], t0['s'], 64))
                d = e.pdiff(a, b)
                return binop(op, d, 0, 64, True)
            if isinstance(a, Rec) and a.t == 'rit':
                if op == '==':
                    return e.peq(a.f['p'], b.f['p'])
                if op == '!=':
                    return lnot(e.peq(a.f['p'], b.f['p']))
                if op == '-':
                    return e.pdiff(b.f['p'], a.f['p'])
            if op in ('==', '!='):
                if isinstance(a, Opt) or isinstance(b, Opt):
                    r = self.opteq(a, b)
                else:
                    if isinstance(b, Ptr) and isinstance(a, (Vec, VecS)):
                        b = self.cstr(b)
                    r = self.valeq(a, b)
                return simp(r) if op == '==' else simp(lnot(r))
            if op == '+' and (isinstance(a, (Vec, Opaque)) or isinstance(b, (Vec, Opaque)) or isinstance(a, VecS) or isinstance(b, VecS)):
                return self.str_concat(a, b, t0, self.T(as_[1]['t']))
            if op in ('<', '>', '<=', '>=') and isinstance(a, Vec) and isinstance(b, Vec):
                ka, kb = self.pykey(a), self.pykey(b)
                return {'<': ka < kb, '>': ka > kb, '<=': ka <= kb, '>=': ka >= kb}[op]
        if op == '+' :
            return Opaque('string')
        if op in ('<<', '>>'):
            p = self.ref(as_[0])
            for a in as_[1:]:
                try:
                    e.ev(a)
                except Unsupported:
                    pass
            return p
        if op in ('&', '|'):
            return Opaque('flags')
        raise Unsupported('operator%s on %s' % (op, rn))

    def str_concat(self, a, b, ta, tb):
        def s(v, t):
            if isinstance(v, (Vec, VecS, Opaque)):
                return v
            if isinstance(v, Ptr):
                return self.cstr(v)
            return Vec([v])
        a, b = s(a, ta), s(b, tb)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('string')
        return self.concat(a, b)

    def iteq(self, a, b):
        e = self.e
        if isinstance(a, Choice):
            return ite_s(a.c, self.iteq(a.a, b), self.iteq(a.b, b))
        if isinstance(b, Choice):
            return ite_s(b.c, self.iteq(a, b.a), self.iteq(a, b.b))
        return e.peq(a, b)

    def opteq(self, a, b):
        if not isinstance(a, Opt):
            a, b = b, a
        if isinstance(b, Opt):
            return lor(land(lnot(a.has), lnot(b.has)), land(land(a.has, b.has), self.valeq(a.v, b.v) if a.v is not Undef and b.v is not Undef else False))
        if isinstance(b, Opaque):      # nullopt
            return lnot(a.has)
        return land(a.has, self.valeq(a.v, b))

    def valeq(self, a, b):
        if isinstance(a, (bool, int, z3.ExprRef)) and isinstance(b, (bool, int, z3.ExprRef)):
            return eq_i(a, b)
        if isinstance(a, (Vec, VecS)) and isinstance(b, (Vec, VecS)):
            na, nb = vlen(a), vlen(b)
            if isinstance(na, int) and isinstance(nb, int):
                if na != nb:
                    return False
                return conj([self.valeq(vget_loose(a, i), vget_loose(b, i)) for i in range(na)])
            if isinstance(na, int) or isinstance(nb, int):
                c = na if isinstance(na, int) else nb
                return land(eq_i(na, nb), conj([self.valeq(vget_loose(a, i), vget_loose(b, i)) for i in range(c)]))
            raise Unsupported('equality of symbolic sequences')
        if isinstance(a, Rec) and isinstance(b, Rec):
            return conj([self.valeq(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, Opt) and isinstance(b, Opt):
            return self.opteq(a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.e.fresh_bool('opaque_eq')
        if isinstance(a, MapV) and isinstance(b, MapV):
            raise Unsupported('map equality')
        raise Unsupported('equality of %s' % type(a).__name__)

    # utilities ---------------------------------------------------------------
    def f_move(self, f, x, as_):
        if len(as_) == 3:      # std::move(first, last, out)
            return self.f_copy(f, x, as_)
        return self.e.ev(as_[0])

    def f_forward(self, f, x, as_):
        return self.e.ev(as_[0])

    f_as_const = f_forward
    f_addressof = f_forward
    f___addressof = f_forward
    f_ref = f_forward
    f_cref = f_forward

    def f_swap(self, f, x, as_):
        e = self.e
        a, b = e.ev(as_[0]), e.ev(as_[1])
        if not as_[0].get('lv'):
            a = e.load(e.alloc(a)) if isinstance(a, Ptr) else a
        if not as_[1].get('lv'):
            b = b
        va, vb = e.load(a), e.load(b)
        e.store(a, vb)
        e.store(b, va)
        return None

    def f_iter_swap(self, f, x, as_):
        e = self.e
        a, b = self.val(as_[0]), self.val(as_[1])
        va, vb = e.load(a), e.load(b)
        e.store(a, vb)
        e.store(b, va)

    def f_min(self, f, x, as_, op='<'):
        e = self.e
        if len(as_) == 1:
            raise Unsupported('min of list')
        a, b = self.ref(as_[0]), self.ref(as_[1])
        t = self.T(as_[0]['t'])
        va, vb = e.norm(e.load(a), as_[0]['t']), e.norm(e.load(b), as_[1]['t'])
        if t['k'] == 'flt':
            return a if (va <= vb) == (op == '<') else b
        c = binop(op, vb, va, t['w'], bool(t['s']))
        return e.alloc(merge(simp(c), vb, va) if not (isinstance(va, int) and isinstance(vb, int) and is_sym(c)) else ite_w(c, vb, va, t['w']))

    def f_max(self, f, x, as_):
        return self.f_min(f, x, as_, '>')

    def f_abs(self, f, x, as_):
        t = self.T(as_[0]['t'])
        v = self.val(as_[0])
        if isinstance(v, float):
            return abs(v)
        c = binop('<', v, 0, t['w'], True)
        return ite_w(simp(c), binop('-', 0, v, t['w'], False), v, t['w'])

    def f_make_pair(self, f, x, as_):
        t = self.T(x['t'])
        vs = []
        for a, ta in zip(as_, t['a']):
            v = self.val(a)
            if a.get('lv') and self.is_move(a):
                self.moved_from(None, a)
            vs.append(v)
        return Rec('pair', {'first': vs[0], 'second': vs[1]})

    def f_make_tuple(self, f, x, as_):
        return Rec('tuple', {str(i): self.val(a) for i, a in enumerate(as_)})

    def f_tie(self, f, x, as_):
        return Rec('tuple', {str(i): RefBox(self.ref(a)) for i, a in enumerate(as_)})

    def f_forward_as_tuple(self, f, x, as_):
        return self.f_tie(f, x, as_)

    def f_get(self, f, x, as_):
        e = self.e
        p = self.ref(as_[0])
        i = int(f['ta'][0]['i']) if 'i' in f['ta'][0] else 0
        v = e.load(p)
        if isinstance(v, Rec) and v.t == 'pair':
            k = ['first', 'second'][i]
        elif isinstance(v, Vec):
            return p.idx(i)
        else:
            k = str(i)
        y = v.f[k]
        if isinstance(y, RefBox):
            return y.p
        return p.fld(k)

    def f_make_unique(self, f, x, as_):
        e = self.e
        t = self.T(x['t'])
        et = t['a'][0]['t']
        tt = self.T(et)
        if tt['k'] == 'arr' or tt['k'] == 'other':
            raise Unsupported('make_unique of array')
        v = self.emplace(et, as_) if tt['k'] != 'rec' or self.is_std(tt) else (self.make_obj(tt, as_) if as_ else e.default(et))
        if tt['k'] == 'rec' and self.is_std(tt) and False:
            pass
        return e.alloc(v, 'heap', et)

    f_make_shared = f_make_unique

    def f_make_optional(self, f, x, as_):
        return Opt(True, self.val(as_[0]))

    def f_begin(self, f, x, as_):
        return self.e.ev(as_[0]).idx(0)

    f_cbegin = f_begin

    def f_end(self, f, x, as_):
        p = self.e.ev(as_[0])
        return p.idx(vlen(self.e.load(p)))

    f_cend = f_end

    def f_size(self, f, x, as_):
        return vlen(self.val(as_[0]))

    def f_empty(self, f, x, as_):
        return eq_i(vlen(self.val(as_[0])), 0)

    def f_next(self, f, x, as_):
        d = self.index(as_[1]) if len(as_) > 1 else 1
        v = self.val(as_[0])
        if isinstance(v, Ptr) and v.path and isinstance(v.path[-1], str) and v.path[-1].startswith('@'):
            return self.map_next(v, d)
        return self.e.padvance(v, d)

    def f_prev(self, f, x, as_):
        d = self.index(as_[1]) if len(as_) > 1 else 1
        return self.e.padvance(self.val(as_[0]), binop('-', 0, d, 64, False))

    def f_advance(self, f, x, as_):
        p = self.e.ev(as_[0])
        self.e.store(p, self.e.padvance(self.e.load(p), self.index(as_[1])))

    def f_distance(self, f, x, as_):
        return self.e.pdiff(self.val(as_[1]), self.val(as_[0]))

    def f_make_move_iterator(self, f, x, as_):
        return self.val(as_[0])

    def f_make_reverse_iterator(self, f, x, as_):
        return Rec('rit', {'p': self.val(as_[0])})

    def f_back_inserter(self, f, x, as_):
        return Rec('backins', {'p': self.e.ev(as_[0])})

    def f_to_string(self, f, x, as_):
        v = self.val(as_[0])
        t = self.T(as_[0]['t'])
        if isinstance(v, int) and t['k'] == 'int':
            return Vec(list(str(tosigned(v, t['w']) if t['s'] else v).encode()))
        h = self.e.contracts.get('std::to_string')
        if h:
            return h(self.e, v, t)
        return Opaque('to_string')

    # algorithms ----------------------------------------------------------------
    def out_conv(self, s, as_from, as_to):
        a, b = self.iter_elem(as_from), self.iter_elem(as_to)
        return self.conv_seq(s, a, b)

    def f_copy(self, f, x, as_):
        a, b = self.val(as_[0]), self.val(as_[1])
        s = self.seq_range(a, b)
        out = self.val(as_[2])
        return self.store_range(out, self.out_conv(s, as_[0]['t'], as_[2]['t']))

    def f_copy_n(self, f, x, as_):
        a = self.val(as_[0])
        s = self.seq_range(a, self.e.padvance(a, self.index(as_[1])))
        return self.store_range(self.val(as_[2]), self.out_conv(s, as_[0]['t'], as_[2]['t']))

    def f_fill(self, f, x, as_):
        s = self.seq_range(self.val(as_[0]), self.val(as_[1]))
        v = self.val(as_[2])
        et = self.iter_elem(as_[0]['t'])
        if et is not None:
            v = self.conv(v, as_[2]['t'], et)
        self.store_range(self.val(as_[0]), Vec([v] * vlen(s)) if isinstance(vlen(s), int) else VecS(vlen(s), lambda j: v))

    def f_fill_n(self, f, x, as_):
        n = self.index(as_[1])
        v = self.val(as_[2])
        return self.store_range(self.val(as_[0]), self.rep(n, v))

    def f_iota(self, f, x, as_):
        s = self.seq_range(self.val(as_[0]), self.val(as_[1]))
        v = self.val(as_[2])
        et = self.iter_elem(as_[0]['t'])
        w = self.T(et)['w']
        v = self.conv(v, as_[2]['t'], et)
        n = vlen(s)
        if isinstance(n, int):
            r = Vec([binop('+', v, k & mask(w), w, False) for k in range(n)])
        else:
            r = VecS(n, lambda j: binop('+', v, cast_int(j, 64, 0, w), w, False))
        self.store_range(self.val(as_[0]), r)

    def f_reverse(self, f, x, as_):
        a = self.val(as_[0])
        s = self.seq_range(a, self.val(as_[1]))
        n = vlen(s)
        r = Vec(reversed(s.xs)) if isinstance(s, Vec) else VecS(n, lambda j: s.get(binop('-', binop('-', n, 1, 64, False), j, 64, False)))
        self.store_range(a, r)

    def native_loop(self, n, body, line=None):
        """for k in 0..n: body(k) with side effects, through the general loop machinery"""
        e = self.e
        kp = e.alloc(0, 'alg', 'u64')

        def cond():
            return binop('<', e.load(kp), n, 64, False)

        def b():
            body(e.load(kp))

        def inc():
            e.store(kp, binop('+', e.load(kp), 1, 64, False))
        from loops import run_loop
        run_loop(e, {'l': line}, cond, b, inc)

    def it_at(self, it, k):
        if isinstance(it, Rec) and it.t == 'rit':
            return self.e.padvance(it.f['p'], binop('-', mask(64), k, 64, False))
        return self.e.padvance(it, k)

    def emit(self, it, k, v):
        """*(it + k) = v for output iterators"""
        e = self.e
        if isinstance(it, Rec) and it.t == 'backins':
            p = it.f['p']
            e.store(p, self.push(e.load(p), v))
        else:
            q = self.it_at(it, k)
            base, i = self.split_it(q)
            e.safety('output in range', binop('<', i, vlen(e.load(base)), 64, False))
            e.store(q, v)

    def after(self, it, n):
        if isinstance(it, Rec) and it.t == 'backins':
            return it
        if isinstance(it, Rec):
            return Rec('rit', {'p': self.e.padvance(it.f['p'], binop('-', 0, n, 64, False))})
        return self.e.padvance(it, n)

    def clo_ret_t(self, c):
        for fid in c.fns:
            return self.e.tu.fns[fid]['ret']
        return None

    def f_transform(self, f, x, as_):
        e = self.e
        a, b = self.val(as_[0]), self.val(as_[1])
        s = self.seq_range(a, b)
        n = vlen(s)
        if len(as_) == 4:
            out, fn = self.val(as_[2]), self.val(as_[3])
            oi = as_[2]

            def body(k):
                p = self.it_at(a, k)
                v = e.call_clo(fn, [p], [True])
                v = self.ret_val(fn, v)
                self.emit(out, k, self.conv_out(v, fn, oi))
        else:
            a2, out, fn = self.val(as_[2]), self.val(as_[3]), self.val(as_[4])
            oi = as_[3]

            def body(k):
                v = e.call_clo(fn, [self.it_at(a, k), self.it_at(a2, k)], [True, True])
                v = self.ret_val(fn, v)
                self.emit(out, k, self.conv_out(v, fn, oi))
        self.native_loop(n, body, x.get('l'))
        return self.after(out, n)

    def ret_val(self, fn, v):
        rt = self.clo_ret_t(fn)
        if rt is not None and self.T(rt)['k'] == 'ref':
            return self.e.load(v)
        return v

    def conv_out(self, v, fn, oi):
        rt = self.clo_ret_t(fn)
        et = self.iter_elem(oi['t'])
        if rt is None or et is None:
            return v
        return self.conv(v, rt, et)

    def f_for_each(self, f, x, as_):
        e = self.e
        a, b, fn = self.val(as_[0]), self.val(as_[1]), self.val(as_[2])
        n = vlen(self.seq_range(a, b))
        self.native_loop(n, lambda k: e.call_clo(fn, [self.it_at(a, k)], [True]), x.get('l'))
        return fn

    def f_generate(self, f, x, as_):
        e = self.e
        a, b, fn = self.val(as_[0]), self.val(as_[1]), self.val(as_[2])
        n = vlen(self.seq_range(a, b))
        self.native_loop(n, lambda k: self.emit(a, k, self.conv_out(self.ret_val(fn, e.call_clo(fn, [], [])), fn, as_[0])), x.get('l'))

    def f_accumulate(self, f, x, as_):
        e = self.e
        a, b = self.val(as_[0]), self.val(as_[1])
        n = vlen(self.seq_range(a, b))
        init = self.val(as_[2])
        ti = as_[2]['t']
        acc = e.alloc(init, 'acc', ti)
        t = self.T(ti)

        def body(k):
            p = self.it_at(a, k)
            if len(as_) > 3:
                fn = self.val(as_[3])
                v = self.ret_val(fn, e.call_clo(fn, [acc, p], [True, True])) if not fn_native(fn) else e.call_clo(fn, [e.load(acc), e.load(p)], [False, False])
                rt = self.clo_ret_t(fn)
                if rt is not None:
                    v = self.conv(v, rt, ti)
            else:
                y = e.load(p)
                et = self.iter_elem(as_[0]['t'])
                y = self.conv(y, et, ti) if et is not None else y
                v = binop('+', e.load(acc), y, t['w'], t['s'])
            e.store(acc, v)
        self.native_loop(n, body, x.get('l'))
        return e.load(acc)

    def f_equal(self, f, x, as_):
        s = self.seq_range(self.val(as_[0]), self.val(as_[1]))
        n = vlen(s)
        b = self.val(as_[2])
        if not isinstance(n, int):
            raise Unsupported('std::equal on symbolic length')
        o = self.seq_range(b, self.e.padvance(b, n)) if len(as_) == 3 else self.seq_range(b, self.val(as_[3]))
        return simp(self.valeq(s, o))

    def quant(self, as_, combine, unit):
        e = self.e
        a, b, fn = self.val(as_[0]), self.val(as_[1]), self.val(as_[2])
        n = vlen(self.seq_range(a, b))
        acc = e.alloc(unit, 'acc', e.bool_t())

        def body(k):
            v = self.ret_val(fn, e.call_clo(fn, [self.it_at(a, k)], [True]))
            e.store(acc, combine(e.load(acc), v))
        self.native_loop(n, body)
        return e.load(acc)

    def f_all_of(self, f, x, as_):
        return self.quant(as_, land, True)

    def f_any_of(self, f, x, as_):
        return self.quant(as_, lor, False)

    def f_none_of(self, f, x, as_):
        return lnot(self.quant(as_, lor, False))

    def f_max_element(self, f, x, as_, op='>'):
        e = self.e
        a = self.val(as_[0])
        s = self.seq_range(a, self.val(as_[1]))
        n = vlen(s)
        if not isinstance(n, int):
            raise Unsupported('max_element on symbolic length')
        if n == 0:
            return a
        t = self.T(self.iter_elem(as_[0]['t']))
        best, bi = vget_loose(s, 0), 0
        for k in range(1, n):
            v = vget_loose(s, k)
            c = simp(binop(op, v, best, t['w'], bool(t['s'])))
            best = ite_w(c, v, best, t['w'])
            bi = ite_w(c, k, bi, 64)
        return e.padvance(a, bi)

    def f_min_element(self, f, x, as_):
        return self.f_max_element(f, x, as_, '<')

    def f_find(self, f, x, as_):
        e = self.e
        a = self.val(as_[0])
        s = self.seq_range(a, self.val(as_[1]))
        n = vlen(s)
        if not isinstance(n, int):
            raise Unsupported('find on symbolic length')
        v = self.val(as_[2])
        r = n
        for k in range(n - 1, -1, -1):
            r = ite_w(simp(self.valeq(vget_loose(s, k), v)), k, r, 64)
        return e.padvance(a, r)

    def f_count(self, f, x, as_):
        s = self.seq_range(self.val(as_[0]), self.val(as_[1]))
        n = vlen(s)
        if not isinstance(n, int):
            raise Unsupported('count on symbolic length')
        v = self.val(as_[2])
        r = 0
        for k in range(n):
            c = simp(self.valeq(vget_loose(s, k), v))
            r = binop('+', r, ite_w(c, 1, 0, 64), 64, False)
        return r

    def f_sort(self, f, x, as_):
        e = self.e
        a = self.val(as_[0])
        s = self.seq_range(a, self.val(as_[1]))
        if isinstance(s, Vec) and len(as_) == 2 and all(isinstance(v, int) for v in s.xs):
            t = self.T(self.iter_elem(as_[0]['t']))
            key = (lambda v: tosigned(v, t['w'])) if t['s'] else (lambda v: v)
            self.store_range(a, Vec(sorted(s.xs, key=key)))
            return None
        raise Unsupported('std::sort on symbolic data')

    def f_async(self, f, x, as_):
        """sequentialised: the task runs at the call"""
        e = self.e
        t0 = self.T(as_[0]['t'])
        k = 1 if t0.get('en') == 'std::launch' else 0
        fn = self.val(as_[k])
        args, lvs = [], []
        for a in as_[k + 1:]:
            v = e.ev(a)
            args.append(v)
            lvs.append(bool(a.get('lv')))
        if 'async' not in e.assumed:
            e.assumed.append('std::async tasks are executed at the call (sequentialised)')
        v = e.call_clo(fn, args, lvs)
        return Rec('future', {'v': v})

    def f_memcpy(self, f, x, as_):
        d, s, n = self.val(as_[0]), self.val(as_[1]), self.val(as_[2])
        return self.memcpy(d, s, n)
    f_memmove = f_memcpy

    def memcpy(self, d, s, n):
        e = self.e
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            raise Unsupported('memcpy')
        wd = self.view(d, 8)[2]
        k = wd // 8
        if isinstance(n, int):
            if n % k:
                raise Unsupported('memcpy of part of an element')
            m = n // k
        elif k == 1:
            m = n
        else:
            lg = k.bit_length() - 1
            low = z3.Extract(lg - 1, 0, bv(n, 64))
            if not e.valid(low == 0):
                raise Unsupported('memcpy of part of an element')
            m = z3.simplify(z3.LShR(bv(n, 64), lg))
        get, avail = self.view_get(s, wd)
        _, room = self.view_get(d, wd)
        e.safety('memcpy within the source', binop('<=', m, avail, 64, False))
        e.safety('memcpy within the destination', binop('<=', m, room, 64, False))
        self.view_put(d, wd, VecS(m, get) if not isinstance(m, int) else Vec([get(j) for j in range(m)]), m)
        return d

    def f___builtin_expect(self, f, x, as_):
        return self.val(as_[0])

    def f___builtin_unreachable(self, f, x, as_):
        raise Dead()

    def f___builtin_memcpy(self, f, x, as_):
        # implicit copy of arrays
        e = self.e
        d, s = self.val(as_[0]), self.val(as_[1])
        e.store(d, e.load(s))
        return d

    def f___assert_fail(self, f, x, as_):
        e = self.e
        if e.assert_mode == 'check':
            e.safety('assert', False)
        else:
            e.throw('assert')
        raise Dead()

    def unknown_method(self, f, this, args, x):
        e = self.e
        h = e.contracts.get('virtual:' + f['n'])
        if h:
            from interp import Call
            return h(e, this, args, Call(f, x))
        obj = e.load(this)
        if isinstance(obj, Opaque):
            return self.opaque_ret(f)
        raise Unsupported('no body or contract for %s' % f['q'])


def fn_native(fn):
    return isinstance(fn, Clo) and fn.native is not None
