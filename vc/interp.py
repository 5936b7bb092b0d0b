"""Symbolic executor over the exported syntax trees: generates and discharges the obligations."""
import json
import os
import sys
import time
import z3
from core import *
import core

sys.setrecursionlimit(20000)


class TU:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {f['id']: f for f in d['fns']}
        self.types = d['types']
        self.recs = {r['id']: r for r in d['recs']}
        self.globals = {g['id']: g for g in d['globals']}
        self.recByC = {r['c']: r for r in d['recs']}
        self.byq = {}
        self._rk = None
        for f in d['fns']:
            self.byq.setdefault(f['q'], []).append(f)
        self._over = {}

    def T(self, i):
        return self.types[i]

    def tname(self, i):
        t = self.types[i]
        k = t['k']
        if k == 'int':
            return t.get('en') or t.get('n')
        if k in ('ptr', 'ref'):
            return self.tname(t['e']) + ('*' if k == 'ptr' else '&')
        if k == 'rec':
            return t['c']
        return k

    def overrides(self, fid):
        """all methods that fid overrides, transitively, including itself"""
        if fid in self._over:
            return self._over[fid]
        r = {fid}
        for o in self.fns[fid].get('over', []):
            r |= self.overrides(o)
        self._over[fid] = r
        return r

    def base_recs(self, rid):
        return [self.types[b]['id'] for b in self.recs[rid].get('bases', []) if self.types[b]['k'] == 'rec']

    def derives(self, rid, cname):
        r = self.recs[rid]
        if r['c'] == cname or r['q'] == cname:
            return True
        return any(self.derives(b, cname) for b in self.base_recs(rid))

    def final_overrider(self, rid, fid):
        r = self.recs[rid]
        for m in r.get('ms', []):
            if fid in self.overrides(m):
                return m
        for b in self.base_recs(rid):
            m = self.final_overrider(b, fid)
            if m is not None:
                return m
        return None

    def fields(self, rid):
        out = []
        for b in self.base_recs(rid):
            out += self.fields(b)
        out += [(f['n'], f['t']) for f in self.recs[rid].get('fs', [])]
        return out

    def find_rec(self, c):
        """record by canonical name (ignoring spaces), or by (qualified name, integral template arguments)"""
        if isinstance(c, tuple):
            if self._rk is None:
                self._rk = {}
                for t in self.types:
                    if t['k'] == 'rec' and 'id' in t:
                        k = (t['n'], tuple(int(a['i']) for a in t['a'] if 'i' in a))
                        self._rk.setdefault(k, t['id'])
            k = (c[0], tuple(int(x) for x in c[1]))
            if k in self._rk and self._rk[k] in self.recs:
                return self.recs[self._rk[k]]
            raise Unsupported('no record %s%s' % k)
        n = c.replace(' ', '')
        for r in self.recs.values():
            if r['c'].replace(' ', '') == n:
                return r
        raise Unsupported('no record ' + c)


class State:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem=None, pc=()):
        self.mem = mem if mem is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.mem), self.pc)


class Frame:
    def __init__(self, fn, this, caps=None):
        self.fn = fn
        self.this = this
        self.vars = {}
        self.caps = caps or {}
        self.returns = []      # (State, value)
        self.loops = []        # stack of [breaks, continues]


class Thrown:
    def __init__(self, st, ty, what=None):
        self.st = st
        self.ty = ty
        self.what = what


def merge_states(a, b):
    """join two states whose path conditions share a prefix and exclude each other"""
    k = 0
    while k < len(a.pc) and k < len(b.pc) and a.pc[k] is b.pc[k]:
        k += 1
    ca, cb = conj(a.pc[k:]), conj(b.pc[k:])
    c = ca
    mem = {}
    for loc in a.mem:
        if loc in b.mem:
            x, y = a.mem[loc], b.mem[loc]
            mem[loc] = x if x is y else merge(c, x, y)
        else:
            mem[loc] = a.mem[loc]
    for loc in b.mem:
        if loc not in mem:
            mem[loc] = b.mem[loc]
    pc = a.pc[:k]
    d = lor(ca, cb)
    if not (is_sym(d) and is_sym(ca) and is_sym(cb) and same(lnot(ca), cb)) and d is not True:
        d2 = simp(d)
        if d2 is not True:
            pc = pc + (zb(d2),)
    return State(mem, pc), c


HASMUL = {}


def has_mul(e):
    if not is_sym(e):
        return False
    k = e.get_id()
    r = HASMUL.get(k)
    if r is None or not r[0].eq(e):
        r = HASMUL[k] = (e, has_mul_(e))
    return r[1]


def has_mul_(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_BMUL and sum(1 for c in x.children() if not z3.is_bv_value(c)) > 1 and x.size() >= 16:
                return True
            st.extend(x.children())
    return False


def abs_mul(e, memo, keep):
    st = [e]
    while st:
        x = st[-1]
        i = x.get_id()
        if i in memo:
            st.pop()
            continue
        if not z3.is_app(x) or x.num_args() == 0:
            memo[i] = x
            keep.append(x)
            st.pop()
            continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        cs = [memo[c.get_id()] for c in ch]
        if x.decl().kind() == z3.Z3_OP_BMUL and x.size() >= 16:
            w = x.size()
            num = [c for c in cs if z3.is_bv_value(c)]
            oth = sorted([c for c in cs if not z3.is_bv_value(c)], key=lambda c: (c.decl().name(), c.get_id()))
            if len(oth) > 1:
                f = z3.Function('mul%d' % w, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
                r = oth[0]
                for c in oth[1:]:
                    r = f(r, c)
                    keep.append(r)
                for c in num:
                    r = c * r
            else:
                r = x.decl()(*cs)
        elif all(c.eq(d) for c, d in zip(cs, ch)):
            r = x
        else:
            r = x.decl()(*cs)
        memo[i] = r
        keep.append(r)
        keep.append(x)
    return memo[e.get_id()]


class Obligation:
    def __init__(self, name, status, secs, model=None, detail='', kind='assert'):
        self.name, self.status, self.secs, self.model, self.detail, self.kind = name, status, secs, model, detail, kind


INTERNAL = object()


class Eng:
    def __init__(self, tu, timeout_ms=20000, unroll=1500):
        self.tu = tu
        self.types = tu.types
        self.timeout = timeout_ms
        self.maxunroll = unroll
        self.facts = core.FACTS
        del self.facts[:]
        self.obls = []
        self.invariants = {}    # function qname -> loop contract (see loops.inductive)
        self.contracts = {}     # qname -> python callable(eng, this, args, call)
        self.loop_hints = {}
        self.st = State()
        self.frames = []
        self.nloc = 0
        self.catch = []         # stack of lists collecting Thrown
        self.solver_time = 0.0
        self.queries = 0
        self.inlined = set()
        self.used_contracts = set()
        self.own_bodies = ()    # classes whose overriders run their own body, although the overridden method has a contract
        self.used_models = set()
        self.assumed = []
        self.check_safety = True
        self.trace = []
        self.depth = 0
        self.opaque_virtual = None
        self.fname = '?'
        self.write_log = None
        self.feas_cache = {}
        self.check_overflow = True
        self.dtors = set()       # record q-names whose destructors are executed
        self.covers = []
        self.loctype = {}
        self.silent = False
        self.foralls = []        # (k, K, term): term holds for every k < K
        self.inst_terms = []
        self.folds = []
        self.partial = []
        self.loop_fail = []
        self.sym_unroll = 140
        self.long_loop = 300
        from stdmodel import StdModel
        self.std = StdModel(self)

    # ------------------------------------------------------------ solver
    def _solver(self, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        return s

    def check(self, exprs, timeout):
        s = self._solver(timeout)
        seen = set()
        for f in self.facts:
            if f.get_id() not in seen:
                seen.add(f.get_id())
                s.add(f)
        for e in exprs:
            s.add(zb(e))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r, s

    def feasible(self, cond, timeout=3000):
        cond = simp(cond)
        if cond is False:
            return False
        key = (tuple(x.get_id() for x in self.st.pc), cond.get_id() if is_sym(cond) else cond, len(self.facts))
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        n = len(self.facts)
        r, _ = self.check(list(self.st.pc) + [cond], timeout)
        res = r != z3.unsat
        self.feas_cache[key] = (res, cond, self.st.pc)   # keep terms alive
        return res

    def valid(self, goal, timeout=5000):
        """is goal implied by the current path?"""
        g = simp(goal)
        if isinstance(g, bool):
            if g:
                return True
        r, _ = self.check(list(self.st.pc) + [lnot(g)], timeout)
        return r == z3.unsat

    def prove(self, name, goal, timeout=None, kind='assert', pc=None):
        """emit and discharge one obligation under the current path condition"""
        if self.silent:
            return True
        pcs = list(self.st.pc if pc is None else pc) + self.forall_instances()
        t0 = time.time()
        full = self.fname + ': ' + name
        g = simp(goal)
        if g is True:
            self.obls.append(Obligation(full, 'proved', 0.0, kind=kind, detail='simplifier'))
            return True
        goals = pcs + [lnot(g)]
        r = z3.unknown
        if z3.is_eq(zb(goal)) and isinstance(goal.arg(0), z3.BitVecRef) and goal.arg(0).size() >= 16 and self.ring(zb(goal), pcs):
            self.obls.append(Obligation(full, 'proved', time.time() - t0, kind=kind, detail='ring'))
            return True
        if any(has_mul(e) for e in goals):
            r, s = self.check_abs(goals, timeout or self.timeout)
            if r != z3.unsat:
                r = z3.unknown
        if r == z3.unknown:
            r, s = self.check(goals, timeout or self.timeout)
        if r == z3.unknown:
            r, s = self.retry(goals, timeout or self.timeout)
        dt = time.time() - t0
        if r == z3.unsat:
            self.obls.append(Obligation(full, 'proved', dt, kind=kind))
            return True
        if r == z3.sat and kind == 'sufficient':
            self.obls.append(Obligation(full, 'unknown', dt, kind=kind))
            return False
        if r == z3.sat:
            m = s.model()
            self.obls.append(Obligation(full, 'refuted', dt, model=m, kind=kind))
            return False
        self.obls.append(Obligation(full, 'unknown', dt, kind=kind))
        return False

    def ring(self, g, pcs, depth=0, sub=()):
        """polynomial identity under the equations among the hypotheses"""
        import ring
        from loops import consts_of
        if depth == 0 and not (g.arg(0).decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG, z3.Z3_OP_ITE) or g.arg(1).decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG, z3.Z3_OP_ITE)):
            return False
        if not z3.is_eq(g):
            return False
        w = g.arg(0).size()
        hyps = []
        memo = {}

        def res(c):
            k = c.get_id()
            if k not in memo:
                q = lambda x: self.check_abs(pcs + [x], 2000)[0] == z3.unsat or self.check_slice(pcs + [x], 2000)
                memo[k] = (True if q(lnot(c)) else False if q(c) else None, c)
            return memo[k][0]

        def add(h, depth=0):
            if z3.is_and(h):
                for c in h.children():
                    add(c, depth)
            elif z3.is_eq(h) and isinstance(h.arg(0), z3.BitVecRef) and h.arg(0).size() == w:
                hyps.append(h)
            elif z3.is_or(h) or z3.is_implies(h):
                cs = h.children()
                if z3.is_implies(h):
                    cs = [z3.Not(cs[0]), cs[1]]
                eqs = [c for c in cs if z3.is_eq(c) and isinstance(c.arg(0), z3.BitVecRef) and c.arg(0).size() == w]
                if len(eqs) == 1 and len(cs) <= 4 and depth == 0:
                    if all(res(c) is False for c in cs if c is not eqs[0] and not c.eq(eqs[0])):
                        hyps.append(eqs[0])
        for h in list(self.facts) + [zb(x) for x in pcs]:
            add(z3.substitute(h, *sub) if sub else h)
        try:
            if ring.prove_eq(g, hyps, res):
                return True
        except z3.Z3Exception:
            return False
        und = [c for v, c in memo.values() if v is None]
        if und and depth < 4:
            c = und[0]
            s1, g1 = sub, g
            if z3.is_eq(c) and isinstance(c.arg(0), z3.BitVecRef):
                x, y = c.arg(0), c.arg(1)
                if not (z3.is_app(x) and x.num_args() == 0 and not z3.is_bv_value(x)):
                    x, y = y, x
                if z3.is_app(x) and x.num_args() == 0 and not z3.is_bv_value(x) and x.decl() not in consts_of(y):
                    s1 = sub + ((x, y),)
                    g1 = z3.substitute(g, (x, y))
            return self.ring(g1, pcs + [c], depth + 1, s1) and self.ring(g, pcs + [lnot(c)], depth + 1, sub)
        return False

    def check_slice(self, exprs, timeout):
        """unsat from the assumptions alone, without the background facts that mention products"""
        s = self._solver(timeout)
        for f in self.facts:
            if not has_mul(f):
                s.add(f)
        for e in exprs:
            s.add(zb(e))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r == z3.unsat

    def check_abs(self, exprs, timeout):
        """non-linear products become an uninterpreted commutative function: unsat carries over"""
        memo = {}
        keep = []
        s = self._solver(timeout)
        for f in self.facts:
            s.add(abs_mul(f, memo, keep))
        for e in exprs:
            s.add(abs_mul(zb(e), memo, keep))
        seen = set()
        for x in list(keep):
            if z3.is_app(x) and x.num_args() == 2 and x.decl().name().startswith('mul') and x.get_id() not in seen:
                seen.add(x.get_id())
                if not x.arg(0).eq(x.arg(1)):
                    s.add(x == x.decl()(x.arg(1), x.arg(0)))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r, s

    def forall_instances(self):
        out = []
        for k, K, t in self.foralls:
            for x in self.inst_terms:
                out.append(z3.Implies(z3.ULT(x, bv(K, 64)), z3.substitute(zb(t), (k, x))))
        return out

    def skolem(self, name='ix'):
        j = z3.BitVec(fresh_name(name), 64)
        self.inst_terms.append(j)
        return j

    def retry(self, exprs, timeout):
        """second chance: ring normal form, then a bit-blasting tactic"""
        s = z3.Solver()
        s.set('timeout', timeout)
        gl = z3.Goal()
        for f in self.facts:
            gl.add(f)
        for e in exprs:
            gl.add(zb(e))
        t = time.time()
        last = z3.unknown
        for tac in (z3.Then(z3.With('simplify', som=True, flat=True), 'solve-eqs', z3.With('simplify', som=True), 'smt'),
                    z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'simplify', 'bit-blast', 'sat')):
            try:
                s = tac.solver()
                s.set('timeout', timeout)
                for e in gl:
                    s.add(e)
                last = s.check()
            except z3.Z3Exception:
                last = z3.unknown
            self.queries += 1
            if last != z3.unknown:
                break
        self.solver_time += time.time() - t
        return last, s

    def assume(self, c):
        c = simp(c)
        if c is True:
            return
        if c is False:
            raise Dead()
        self.st.pc = self.st.pc + (c,)

    def fact_pc(self, c):
        """a contract's postcondition: holds whenever the current path is taken"""
        self.fact(limp(conj(self.st.pc), c) if self.st.pc else c)

    def fact(self, c):
        """a globally valid assumption (precondition, definition instance, axiom of a contract)"""
        c = simp(c) if not isinstance(c, bool) else c
        if c is True:
            return
        self.facts.append(zb(c))

    def cover(self, name):
        """reachability guard: the current path must be satisfiable"""
        r, _ = self.check(list(self.st.pc), 10000)
        self.covers.append((self.fname + ': ' + name, str(r)))
        if r == z3.unsat:
            self.obls.append(Obligation(self.fname + ': VACUOUS ' + name, 'unknown', 0.0, kind='cover'))

    def safety(self, what, cond, node=None):
        """implicit obligation (bounds, null, division): proved, then assumed"""
        c = simp(cond)
        if c is True:
            return
        if self.check_safety:
            self.prove('safe: ' + what + self.where(), c, kind='safety')
        self.assume(c)

    def where(self):
        if self.frames:
            return ' in ' + self.frames[-1].fn['q'].split('fbpcf::')[-1]
        return ''

    # ------------------------------------------------------------ fresh values
    def fresh_bv(self, name, w):
        return z3.BitVec(fresh_name(name), w)

    def fresh_bool(self, name):
        return z3.Bool(fresh_name(name))

    def sym_scalar(self, ti, name):
        t = self.types[ti]
        if t['k'] == 'bool':
            return self.fresh_bool(name)
        if t['k'] == 'int':
            return self.fresh_bv(name, t['w'])
        if t['k'] == 'vec':
            return self.fresh_bv(name, t['w'])
        if t['k'] == 'flt':
            return Opaque('float')
        raise Unsupported('symbolic ' + str(t))

    def leaf_sort(self, ti):
        t = self.types[ti]
        if t['k'] == 'bool':
            return z3.BoolSort()
        if t['k'] in ('int', 'vec'):
            return z3.BitVecSort(t['w'])
        return None

    def fold_get(self, e):
        return e

    def sym_fn(self, ti, name, dims):
        """value of type ti that is an uninterpreted function of the index terms dims"""
        t = self.types[ti]
        s = self.leaf_sort(ti)
        if s is not None:
            if not dims:
                return self.sym_scalar(ti, name)
            f = z3.Function(fresh_name(name), *([z3.BitVecSort(64)] * len(dims) + [s]))
            return lambda *ix: f(*[bv(i, 64) for i in ix])
        raise Unsupported('sym_fn')

    def symbolic(self, ti, name, bound=None, shape=None):
        """fresh unconstrained value of type ti (sequence lengths below 2^31)"""
        mk = self.symbolic_family(ti, name, 0)
        return mk()

    def symbolic_family(self, ti, name, nd):
        """callable taking nd index terms -> value of type ti"""
        t = self.types[ti]
        s = self.leaf_sort(ti)
        if s is not None:
            if nd == 0:
                return lambda: self.sym_scalar(ti, name)
            f = z3.Function(fresh_name(name), *([z3.BitVecSort(64)] * nd + [s]))
            return lambda *ix: f(*[bv(i, 64) for i in ix])
        if t['k'] == 'rec':
            n = t['n']
            if n in ('std::vector', 'std::deque') or n == 'std::basic_string':
                et = t['a'][0]['t']
                ln = z3.Function(fresh_name(name + '.len'), *([z3.BitVecSort(64)] * nd + [z3.BitVecSort(64)])) if nd else None
                elem = self.symbolic_family(et, name, nd + 1)

                def mk(*ix):
                    L = ln(*[bv(i, 64) for i in ix]) if nd else self.fresh_bv(name + '.len', 64)
                    self.fact(z3.ULT(L, z3.BitVecVal(1 << 31, 64)))
                    return VecS(L, lambda j: elem(*(ix + (j,))))
                return mk
            if n == 'std::array':
                et = t['a'][0]['t']
                cnt = int(t['a'][1]['i'])
                elem = self.symbolic_family(et, name, nd + 1)
                return lambda *ix: Vec([elem(*(ix + (k,))) for k in range(cnt)]) if nd else Vec([self.symbolic(et, '%s_%d' % (name, k)) for k in range(cnt)])
            if n == 'std::pair':
                a = self.symbolic_family(t['a'][0]['t'], name + '.first', nd)
                b = self.symbolic_family(t['a'][1]['t'], name + '.second', nd)
                return lambda *ix: Rec('pair', {'first': a(*ix), 'second': b(*ix)})
            if n == 'std::tuple':
                fs = [self.symbolic_family(x['t'], '%s.%d' % (name, i), nd) for i, x in enumerate(t['a'])]
                return lambda *ix: Rec('tuple', {str(i): f(*ix) for i, f in enumerate(fs)})
            if n == 'std::optional':
                a = self.symbolic_family(t['a'][0]['t'], name, nd)
                hb = self.symbolic_family(self.bool_t(), name + '.has', nd)
                return lambda *ix: Opt(hb(*ix), a(*ix))
            rid = t['id']
            fs = [(fn, self.symbolic_family(ft, name + '.' + fn, nd)) for fn, ft in self.tu.fields(rid)]
            return lambda *ix: Rec(rid, {fn: f(*ix) for fn, f in fs})
        if t['k'] == 'arr':
            elem = self.symbolic_family(t['e'], name, nd + 1)
            return lambda *ix: Vec([elem(*(ix + (k,))) for k in range(t['n'])])
        return lambda *ix: Opaque(name)

    def bool_t(self):
        for i, t in enumerate(self.types):
            if t['k'] == 'bool':
                return i
        raise Unsupported('no bool type')

    # ------------------------------------------------------------ memory
    def alloc(self, v, hint='t', ti=None):
        self.nloc += 1
        loc = '%s#%d' % (hint, self.nloc)
        if ti is not None:
            self.loctype[loc] = ti
        self.st.mem[loc] = v
        return Ptr(loc)

    def load(self, p):
        if isinstance(p, Choice):
            return merge(p.c, self.load_in(p.c, p.a), self.load_in(lnot(p.c), p.b))
        if not isinstance(p, Ptr):
            if p is NULL or p is Undef:
                self.safety('dereference of null or uninitialised pointer', False)
            raise Unsupported('load through %s' % type(p).__name__)
        if p.loc not in self.st.mem:
            raise Unsupported('dangling location %s' % p.loc)
        v = self.st.mem[p.loc]
        if p.vw is not None:
            return self.load_view(p)
        for s in p.path:
            v = self.step(v, s)
        return v

    def load_in(self, c, p):
        if p is NULL:
            self.safety('dereference of null pointer', lnot(c))
            return Undef
        return self.load(p)

    def step(self, v, s):
        if isinstance(v, Choice):
            return merge(v.c, self.step(v.a, s), self.step(v.b, s))
        if isinstance(s, Idx):
            if isinstance(v, (Vec, VecS)):
                if isinstance(v, Vec) and isinstance(s.i, int) and s.i >= len(v.xs):
                    self.safety('index in range', False)
                return vget_loose(v, s.i)
            if v is Undef:
                return Undef
            if isinstance(s.i, int) and s.i == 0:
                return v          # &x + 0
            raise Unsupported('index into %s' % type(v).__name__)
        if isinstance(v, Rec):
            if s not in v.f:
                raise Unsupported('no field %s' % s)
            return v.f[s]
        if isinstance(v, Opt) and s == '?':
            return v.v
        if isinstance(v, MapV) and s[0] == '@':
            return v.es[int(s[1:])][2]
        if v is Undef:
            return Undef
        raise Unsupported('field %s of %s' % (s, type(v).__name__))

    def store(self, p, x):
        if isinstance(p, Choice):
            sa = self.st
            a = sa.copy()
            a.pc = a.pc + (zb(p.c),)
            b = sa.copy()
            b.pc = b.pc + (zb(lnot(p.c)),)
            self.st = a
            self.store(p.a, x)
            self.st = b
            self.store(p.b, x)
            m, _ = merge_states(a, b)
            m.pc = sa.pc
            self.st = m
            return
        if not isinstance(p, Ptr):
            if p is NULL:
                self.safety('store through null pointer', False)
            raise Unsupported('store through %s' % type(p).__name__)
        if p.vw is not None:
            return self.store_view(p, x)
        if self.write_log is not None:
            self.write_log.append(p)
        self.st.mem[p.loc] = self.upd(self.st.mem[p.loc], p.path, 0, x)

    def upd(self, v, path, k, x):
        if k == len(path):
            return x
        s = path[k]
        if isinstance(v, Choice):
            return merge(v.c, self.upd(v.a, path, k, x), self.upd(v.b, path, k, x))
        if isinstance(s, Idx):
            i = s.i
            if isinstance(v, Vec):
                if isinstance(i, int):
                    if i >= len(v.xs):
                        self.safety('index in range', False)
                    xs = list(v.xs)
                    xs[i] = self.upd(xs[i], path, k + 1, x)
                    return Vec(xs)
                return Vec([merge(bv(i, 64) == j, self.upd(e, path, k + 1, x), e) for j, e in enumerate(v.xs)])
            if isinstance(v, VecS):
                if k + 1 == len(path):
                    new = x
                else:
                    new = self.upd(v.get(i), path, k + 1, x)
                g = v.get
                return VecS(v.n, lambda j: merge(eq_i(j, i), new, g(j)))
            if isinstance(i, int) and i == 0:
                return self.upd(v, path, k + 1, x)
            raise Unsupported('store at index of %s' % type(v).__name__)
        if isinstance(v, Rec):
            return v.with_(s, self.upd(v.f.get(s, Undef), path, k + 1, x))
        if isinstance(v, Opt) and s == '?':
            return Opt(v.has, self.upd(v.v, path, k + 1, x))
        if isinstance(v, MapV) and s[0] == '@':
            n = int(s[1:])
            es = list(v.es)
            g, kk, vv = es[n]
            es[n] = (g, kk, self.upd(vv, path, k + 1, x))
            return MapV(es)
        raise Unsupported('store into field %s of %s' % (s, type(v).__name__))

    # re-interpreted (byte view) accesses -----------------------------------
    def elem_width(self, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return 8
        if isinstance(v, z3.BitVecRef):
            return v.size()
        return None

    def load_view(self, p):
        get, n = self.std.view_get(p, p.vw[0])
        self.safety('load within the re-interpreted object', binop('!=', n, 0, 64, False) if isinstance(n, int) else simp(z3.And(bv(n, 64) != 0, bv(n, 64) > 0)))
        return get(0)

    def store_view(self, p, x):
        get, n = self.std.view_get(p, p.vw[0])
        self.safety('store within the re-interpreted object', binop('!=', n, 0, 64, False) if isinstance(n, int) else simp(z3.And(bv(n, 64) != 0, bv(n, 64) > 0)))
        self.std.view_put(p, p.vw[0], Vec([x]), 1)

    # ------------------------------------------------------------ forks
    def fork(self, c, fa, fb):
        """run fa where c holds and fb where it does not; join; returns merged result"""
        c = simp(c)
        if c is True:
            return fa()
        if c is False:
            return fb()
        fc, fnc = self.feasible(c), None
        if not fc:
            self.st.pc = self.st.pc + (zb(lnot(c)),)
            return fb()
        fnc = self.feasible(lnot(c))
        if not fnc:
            self.st.pc = self.st.pc + (zb(c),)
            return fa()
        base = self.st
        A = base.copy()
        A.pc = base.pc + (zb(c),)
        B = base.copy()
        B.pc = base.pc + (zb(lnot(c)),)
        ra = rb = None
        self.st = A
        try:
            ra = fa()
            A = self.st
            oka = True
        except Dead:
            oka = False
        self.st = B
        try:
            rb = fb()
            B = self.st
            okb = True
        except Dead:
            okb = False
        if oka and okb:
            m, cc = merge_states(A, B)
            self.st = m
            if ra is None and rb is None:
                return None
            if ra is rb:
                return ra
            return merge(cc, ra, rb)
        if oka:
            self.st = A
            return ra
        if okb:
            self.st = B
            return rb
        self.st = base
        raise Dead()

    def throw(self, ty, what=None):
        self.catch[-1].append(Thrown(self.st.copy(), ty, what))
        raise Dead()

    # ------------------------------------------------------------ expressions
    def tk(self, ti):
        return self.types[ti]

    def rv(self, e):
        """value of an expression (loads through glvalues)"""
        v = self.ev(e)
        if e.get('lv'):
            return self.norm(self.load(v), e.get('t'))
        return v

    def norm(self, v, ti):
        """normalise a loaded scalar to its static type"""
        if ti is None:
            return v
        t = self.types[ti]
        if isinstance(v, Choice):
            if t['k'] in ('int', 'vec'):
                v = resolve_width(v, t['w'])
        if v is Undef:
            if t['k'] in ('bool', 'int', 'vec'):
                return self.sym_scalar(ti, 'uninit')
        return v

    def ev(self, e):
        return getattr(self, 'x_' + e['k'])(e)

    def x_unsup(self, e):
        raise Unsupported('construct %s%s' % (e['w'], self.where()))

    def x_nop(self, e):
        return None

    def x_int(self, e):
        t = self.types[e['t']]
        v = int(e['v'])
        if t['k'] == 'bool':
            return bool(v)
        return v & mask(t['w'])

    def x_flt(self, e):
        return float(e['v'])

    def x_str(self, e):
        # an lvalue of array type: C string
        s = e['v'].encode('latin-1', 'replace')
        return self.alloc(Vec(list(s) + [0]), 'str')

    def x_null(self, e):
        return NULL

    def x_zero(self, e):
        return self.default(e['t'])

    def x_this(self, e):
        return self.frames[-1].this

    def lookup(self, e):
        f = self.frames[-1]
        i = e['id']
        if i in f.vars:
            return f.vars[i]
        if i in f.caps:
            return f.caps[i]
        if e.get('g'):
            return self.global_lv(i)
        raise Unsupported('variable %s not bound%s' % (e['n'], self.where()))

    def global_lv(self, i):
        loc = 'g#%d' % i
        if loc not in self.st.mem:
            g = self.tu.globals.get(i)
            h = self.contracts.get('global:' + (g['q'] if g else '?'))
            if h:
                self.st.mem[loc] = h(self)
            elif g and g['i']:
                self.frames.append(Frame({'q': 'global ' + g['q'], 'ps': []}, None))
                try:
                    self.st.mem[loc] = self.init_value(g['i'], g['t'])
                finally:
                    self.frames.pop()
            elif g and g['t'] is not None:
                self.st.mem[loc] = self.default(g['t'])
            else:
                raise Unsupported('global %d' % i)
        return Ptr(loc)

    def x_var(self, e):
        return self.lookup(e)

    def x_fn(self, e):
        return Clo([e['fn']], {}, None)

    def x_mem(self, e):
        b = self.ev(e['b'])
        if e['ar']:
            p = self.ptr_of(b)
        elif not e['b'].get('lv'):
            p = self.alloc(b)
        else:
            p = b
        fld = e['f']
        q = self.padd(p, fld)
        # reference members hold a pointer
        v = self.peek(q)
        if isinstance(v, RefBox):
            return v.p
        return q

    def peek(self, q):
        try:
            if isinstance(q, Choice):
                return None
            v = self.st.mem.get(q.loc)
            for s in q.path:
                if isinstance(v, Rec) and not isinstance(s, Idx):
                    v = v.f.get(s)
                elif isinstance(v, Vec) and isinstance(s, Idx) and isinstance(s.i, int):
                    v = v.xs[s.i] if s.i < len(v.xs) else None
                elif isinstance(v, VecS) and isinstance(s, Idx):
                    v = v.get(s.i)
                else:
                    return None
            return v
        except Exception:
            return None

    def padd(self, p, fld):
        if isinstance(p, Choice):
            return Choice(p.c, self.padd(p.a, fld), self.padd(p.b, fld))
        if p is NULL:
            return NULL
        if not isinstance(p, Ptr):
            raise Unsupported('member %s of %s' % (fld, type(p).__name__))
        return p.fld(fld)

    def ptr_of(self, b):
        """raw pointer value of something used with -> or *"""
        if isinstance(b, (Ptr, Choice)):
            return b
        if b is NULL or b is Undef:
            self.safety('dereference of null pointer', False)
            raise Dead()
        raise Unsupported('pointer %s' % type(b).__name__)

    def x_tmp(self, e):
        v = self.ev(e['e'])
        if e['e'].get('lv'):
            return v
        return self.alloc(v)

    def widen(self, v, ws, ss, wd):
        """integral conversion; widening the low half of a 64-bit term known to be small gives the term back"""
        if wd == 64 and ws == 32 and is_sym(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_EXTRACT and v.params() == [31, 0] and v.arg(0).size() == 64:
            x = v.arg(0)
            if self.small(x, 31 if ss else 32):
                return x
        return cast_int(v, ws, ss, wd)

    def small(self, x, bits):
        key = ('small', x.get_id(), bits, tuple(p.get_id() for p in self.st.pc))
        c = self.feas_cache.get(key)
        if c is None:
            ok = self.quick_unsat(list(self.st.pc) + [z3.UGE(x, z3.BitVecVal(1 << bits, 64))], 400)
            c = self.feas_cache[key] = (ok, x, self.st.pc)
        return c[0]

    def quick_unsat(self, exprs, timeout):
        return self.check_slice(exprs, timeout)

    def x_cast(self, e):
        ck = e['ck']
        sub = e['e']
        if ck == 'LValueToRValue':
            return self.norm(self.load(self.ev(sub)), e['t'])
        v = self.ev(sub)
        td = self.types[e['t']]
        ts = self.types[sub['t']]
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay', 'Dynamic', 'BuiltinFnToFnPtr', 'ConstructorConversion', 'UserDefinedConversion', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            return v
        if ck == 'ToVoid':
            return None
        if ck == 'IntegralCast':
            if ts['k'] == 'bool':
                return cast_int(v, 1, 0, td['w'])
            return self.widen(v, ts['w'], ts['s'], td['w'])
        if ck in ('IntegralToBoolean',):
            return binop('!=', v, 0, ts['w'], False)
        if ck == 'BooleanToSignedIntegral':
            return cast_int(v, 1, 0, td['w'])
        if ck == 'ArrayToPointerDecay':
            return v.idx(0)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'PointerToBoolean':
            return self.ptr_nonnull(v)
        if ck == 'BitCast':
            if td['k'] == 'vec' and ts['k'] == 'vec':
                return v
            return self.bitcast(v, ts, td)
        if ck == 'LValueBitCast':
            return self.bitcast(v, {'k': 'ptr', 'e': sub['t']}, {'k': 'ptr', 'e': e['t']})
        if ck == 'IntegralToFloating':
            if isinstance(v, int):
                return float(tosigned(v, ts['w']) if ts['s'] else v)
            return Flt(('int', v, ts['w'], ts['s']))
        if ck == 'FloatingToIntegral':
            if isinstance(v, float):
                return int(v) & mask(td['w'])
            return self.std.float_to_int(v, td)
        if ck == 'FloatingCast':
            return v
        if ck == 'FloatingToBoolean' and isinstance(v, float):
            return v != 0.0
        if ck == 'VectorSplat':
            raise Unsupported('VectorSplat')
        raise Unsupported('cast ' + ck)

    def bitcast(self, v, ts, td):
        if td['k'] == 'ptr' and ts['k'] == 'ptr':
            a, b = self.types[ts['e']], self.types[td['e']]
            if isinstance(v, Ptr):
                wa, wb = self.width_of(a), self.width_of(b)
                if b['k'] == 'void':
                    return VPtr(v.loc, v.path, v.vw, wa) if wa else v
                if a['k'] == 'void':
                    # keep natural view
                    return v
                if wa is not None and wb is not None and wa != wb:
                    return self.std.cast_view(v, wa, wb)
                return v
            return v
        raise Unsupported('bitcast')

    def width_of(self, t):
        if t['k'] in ('int', 'vec'):
            return t['w']
        if t['k'] == 'bool':
            return 8
        if t['k'] == 'rec' and t['n'] == 'emp::block':
            return 128
        return None

    def ptr_nonnull(self, v):
        if v is NULL:
            return False
        if isinstance(v, Choice):
            return ite_s(v.c, self.ptr_nonnull(v.a), self.ptr_nonnull(v.b))
        if isinstance(v, (Ptr, Clo)):
            return True
        if isinstance(v, Opaque):
            return True
        raise Unsupported('pointer test on %s' % type(v).__name__)

    def x_un(self, e):
        op = e['op']
        sub = e['e']
        if op == '&':
            return self.ev(sub)
        if op == '*':
            return self.ptr_of(self.rv(sub) if False else self.ev(sub))
        if op == '!':
            return lnot(self.ev(sub))
        t = self.types[e['t']]
        if op in ('++', '--'):
            p = self.ev(sub)
            st = self.types[sub['t']]
            old = self.norm(self.load(p), sub['t'])
            if st['k'] == 'ptr':
                new = self.padvance(old, 1 if op == '++' else mask(64))
            elif st['k'] == 'flt':
                raise Unsupported('float ++')
            else:
                if self.check_overflow and st['k'] == 'int' and st['s'] and st['w'] >= 32 and not isinstance(old, int):
                    lim = mask(st['w'] - 1) if op == '++' else 1 << (st['w'] - 1)
                    self.safety('signed increment does not overflow', binop('!=', old, lim, st['w'], False))
                new = binop('+' if op == '++' else '-', old, 1, st['w'], st['s'])
            self.store(p, new)
            return old if e['post'] else p
        v = self.ev(sub)
        if t['k'] == 'flt':
            if op == '-':
                return -v
            return v
        w = t['w']
        if op == '-':
            return binop('-', 0, v, w, t['s']) if not (isinstance(v, int)) else (-v) & mask(w)
        if op == '~':
            return (~v) & mask(w) if isinstance(v, int) else ~bv(v, w)
        if op == '+':
            return v
        if op == '__extension__':
            return v
        raise Unsupported('unary ' + op)

    def padvance(self, p, d):
        """pointer / iterator arithmetic; d is a 64-bit (mod 2^64) element count"""
        if isinstance(p, Choice):
            return merge(p.c, self.padvance(p.a, d), self.padvance(p.b, d))
        if not isinstance(p, Ptr):
            raise Unsupported('pointer arithmetic on %s' % type(p).__name__)
        if p.path and isinstance(p.path[-1], Idx):
            return Ptr(p.loc, p.path[:-1] + (Idx(binop('+', p.path[-1].i, d, 64, False)),), p.vw)
        if isinstance(d, int) and d == 0:
            return p
        return Ptr(p.loc, p.path + (Idx(d),), p.vw)

    def pdiff(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc == b.loc:
            ia = a.path[-1].i if a.path and isinstance(a.path[-1], Idx) else 0
            ib = b.path[-1].i if b.path and isinstance(b.path[-1], Idx) else 0
            return binop('-', ia, ib, 64, False)
        raise Unsupported('pointer difference')

    def peq(self, a, b):
        if isinstance(a, Choice):
            return ite_s(a.c, self.peq(a.a, b), self.peq(a.b, b))
        if isinstance(b, Choice):
            return ite_s(b.c, self.peq(a, b.a), self.peq(a, b.b))
        if a is NULL or b is NULL:
            return a is b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.loc != b.loc or len(a.path) != len(b.path):
                return False
            r = True
            for x, y in zip(a.path, b.path):
                if isinstance(x, Idx) and isinstance(y, Idx):
                    r = land(r, eq_i(x.i, y.i))
                elif x != y:
                    return False
            return r
        raise Unsupported('pointer comparison')

    def x_bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.ev(e['a'])
            return self.fork(a, lambda: self.ev(e['b']), lambda: False)
        if op == '||':
            a = self.ev(e['a'])
            return self.fork(a, lambda: True, lambda: self.ev(e['b']))
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op == '=':
            b = self.ev(e['b'])
            if e['b'].get('lv'):
                b = self.load(b)
            p = self.ev(e['a'])
            self.store(p, b)
            return p
        a, b = self.ev(e['a']), self.ev(e['b'])
        return self.arith(op, a, b, self.types[e['a']['t']], self.types[e['b']['t']], self.types[e['t']])

    def arith(self, op, a, b, ta, tb, tr):
        if ta['k'] == 'flt' or tb['k'] == 'flt':
            return self.std.float_op(op, a, b)
        if ta['k'] in ('ptr', 'nullptr') or tb['k'] in ('ptr', 'nullptr') or ta['k'] == 'arr':
            if op == '==':
                return self.peq(a, b)
            if op == '!=':
                return lnot(self.peq(a, b))
            if op in ('<', '<=', '>', '>='):
                d = self.pdiff(a, b)
                return binop(op, d, 0, 64, True)
            if op == '+':
                if ta['k'] == 'ptr':
                    return self.padvance(a, cast_int(b, tb['w'], tb['s'], 64))
                return self.padvance(b, cast_int(a, ta['w'], ta['s'], 64))
            if op == '-':
                if tb['k'] == 'ptr':
                    return self.pdiff(a, b)
                return self.padvance(a, binop('-', 0, cast_int(b, tb['w'], tb['s'], 64), 64, False))
            raise Unsupported('pointer op ' + op)
        if ta['k'] == 'vec':
            if op in ('^', '&', '|'):
                return binop(op, a, b, ta['w'], False)
            raise Unsupported('vector op ' + op)
        if ta['k'] == 'bool':
            return binop(op, a, b, 1, False)
        w, s = ta['w'], ta['s']
        if op in ('<<', '>>'):
            wb = tb['w'] if tb['k'] == 'int' else 1
            if not isinstance(b, (int, bool)):
                bb = bv(b, wb)
                self.safety('shift amount below width', z3.ULT(bb, z3.BitVecVal(w, wb)) if wb > 6 or (1 << wb) > w else True)
            r = shift(op, a, b, w, s, wb)
            if r is None:
                self.safety('shift amount below width', False)
                raise Dead()
            return r
        if op in ('/', '%'):
            if isinstance(b, int):
                if b == 0:
                    self.safety('division by zero', False)
                    raise Dead()
            else:
                self.safety('division by zero', binop('!=', b, 0, w, False))
            if isinstance(b, int) and not isinstance(a, int) and not s and b & (b - 1) == 0:
                k = b.bit_length() - 1
                return shift('>>', a, k, w, False, w) if op == '/' else binop('&', a, b - 1, w, False)
        if s and op in ('+', '-', '*') and self.check_overflow and w >= 32 and not (isinstance(a, int) and isinstance(b, int)):
            x, y = bv(a, w), bv(b, w)
            if op == '+':
                ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == '-':
                ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            self.safety('signed %s does not overflow' % op, ok)
        return binop(op, a, b, w, s)

    def x_cas(self, e):
        b = self.rv(e['b'])
        p = self.ev(e['a'])
        ta = self.types[e['a']['t']]
        old = self.norm(self.load(p), e['a']['t'])
        tc = self.types[e['ct']]
        tb = self.types[e['b']['t']]
        if ta['k'] == 'ptr':
            d = cast_int(b, tb['w'], tb['s'], 64)
            if e['op'] == '-':
                d = binop('-', 0, d, 64, False)
            self.store(p, self.padvance(old, d))
            return p
        if ta['k'] == 'vec':
            self.store(p, self.arith(e['op'], old, b, ta, tb, ta))
            return p
        if tc['k'] == 'flt':
            raise Unsupported('float compound assignment')
        if ta['k'] == 'bool':
            x = cast_int(old, 1, 0, tc['w'])
        else:
            x = cast_int(old, ta['w'], ta['s'], tc['w'])
        r = self.arith(e['op'], x, b, tc, tb, self.types[e['crt']])
        tr = self.types[e['crt']]
        if ta['k'] == 'bool':
            r = binop('!=', r, 0, tr['w'], False)
            if is_sym(r):
                r = simp(r)
        else:
            r = cast_int(r, tr['w'], tr['s'], ta['w'])
        self.store(p, r)
        return p

    def x_cond(self, e):
        c = self.ev(e['c'])
        return self.fork(c, lambda: self.norm(self.ev(e['a']), None if e.get('lv') else e['t']), lambda: self.norm(self.ev(e['b']), None if e.get('lv') else e['t'])) if e.get('lv') else self.norm(self.fork(c, lambda: self.ev(e['a']), lambda: self.ev(e['b'])), e['t'])

    def x_sub(self, e):
        b = self.ev(e['b'])
        i = self.ev(e['i'])
        ti = self.types[e['i']['t']]
        if ti['k'] == 'ptr' or ti['k'] == 'arr':
            b, i = i, b
            ti = self.types[e['b']['t']]
        i = self.widen(i, ti['w'], ti['s'], 64)
        p = self.padvance(b, i)
        if isinstance(p, Ptr) and p.vw is None and p.path and isinstance(p.path[-1], Idx):
            cont = self.load(Ptr(p.loc, p.path[:-1]))
            if isinstance(cont, (Vec, VecS)):
                self.safety('subscript in range', binop('<', p.path[-1].i, vlen(cont), 64, False))
        return p

    def x_stmtexpr(self, e):
        raise Unsupported('statement expression')

    def x_ilist(self, e):
        t = self.types[e['t']]
        es = e['es']
        if e.get('lv') and len(es) == 1 and es[0].get('lv'):
            return self.ev(es[0])         # reference bound in braces
        if t['k'] == 'arr':
            xs = [self.init_value(x, t['e']) for x in es]
            while len(xs) < t['n']:
                xs.append(self.init_value(e['fill'], t['e']) if e.get('fill') else self.default(t['e']))
            return Vec(xs)
        if t['k'] == 'rec':
            if t['n'] == 'std::array':
                if not es:
                    return self.default(e['t'])
                inner = self.rv(es[0])
                n = int(t['a'][1]['i'])
                if isinstance(inner, Vec):
                    return inner
                raise Unsupported('array init')
            if t['n'].startswith('std::') :
                return self.std.ilist(t, [self.rv(x) for x in es])
            rid = t['id']
            fs = []
            vals = [self.rv(x) for x in es]
            # bases first, then fields, in order
            out = {}
            order = []
            for b in self.tu.recs[rid].get('bases', []):
                order.append(('base', b))
            for f in self.tu.recs[rid].get('fs', []):
                order.append(('f', f['n'], f['t']))
            for o, x, ex in zip(order, vals, es):
                if o[0] == 'base':
                    out.update(x.f)
                else:
                    out[o[1]] = self.boxref(o[2], x, ex)
            for n, ft in self.tu.fields(rid):
                out.setdefault(n, Undef)
            return Rec(rid, out)
        if len(es) == 1:
            return self.rv(es[0])
        if not es:
            return self.default(e['t'])
        if t['k'] == 'vec':
            raise Unsupported('vector literal')
        raise Unsupported('init list')

    def boxref(self, ft, x, ex):
        if self.types[ft]['k'] == 'ref':
            return RefBox(self.ev(ex))
        return x

    def x_arrcopy(self, e):
        return self.rv(e['e'])

    def init_value(self, e, ti):
        """value for an object of type ti initialised by e"""
        if e is None:
            return Undef
        v = self.ev(e)
        if e.get('lv'):
            v = self.load(v)
        return v

    def x_new(self, e):
        if e['arr'] is not None:
            n = self.rv(e['arr'])
            d = self.default(e['et']) if e['init'] else Undef
            v = Vec([d] * n) if isinstance(n, int) else VecS(n, lambda j: d)
            return self.alloc(v, 'heap').idx(0)
        v = self.init_value(e['init'], e['et']) if e['init'] else self.default(e['et'])
        return self.alloc(v, 'heap')

    def x_delete(self, e):
        self.ev(e['e'])
        return None

    def x_throw(self, e):
        ty = 'rethrow'
        if e['e']:
            ty = self.tu.tname(e['e']['t'])
        self.throw(ty)

    def x_lambda(self, e):
        caps = {}
        this = None
        f = self.frames[-1]
        for c in e['caps']:
            if c.get('this'):
                this = f.this
                if c['copy']:
                    this = self.alloc(self.load(this))
            elif c.get('vla'):
                raise Unsupported('vla capture')
            elif c['ref']:
                caps[c['id']] = f.vars.get(c['id'], f.caps.get(c['id']))
                if caps[c['id']] is None:
                    caps[c['id']] = self.ev(c['i'])
            else:
                v = self.ev(c['i'])
                if c['i'].get('lv'):
                    v = self.load(v)
                caps[c['id']] = self.alloc(v, 'cap')
        return Clo(list(e['fns']), caps, this)

    # ------------------------------------------------------------ construction
    def default(self, ti):
        """value-initialised object"""
        t = self.types[ti]
        k = t['k']
        if k == 'bool':
            return False
        if k in ('int', 'vec'):
            return 0
        if k == 'flt':
            return 0.0
        if k in ('ptr', 'nullptr'):
            return NULL
        if k == 'arr':
            d = self.default(t['e'])
            return Vec([d] * t['n'])
        if k == 'rec':
            if self.std.is_std(t):
                return self.std.default(t)
            rid = t['id']
            for m in self.tu.recs[rid].get('ms', []):
                f = self.tu.fns[m]
                if f.get('sp') == 'def':
                    if 'body' in f:
                        return self.construct(rid, f, [])
            out = {}
            for n, ft in self.tu.fields(rid):
                out[n] = self.default(ft)
            return Rec(rid, out)
        return Opaque(str(k))

    def blank(self, rid):
        return Rec(rid, {n: Undef for n, _ in self.tu.fields(rid)})

    def construct(self, rid, f, args):
        p = self.alloc(self.blank(rid), 'obj', ('rec', rid))
        self.call_fn(f, p, args)
        return self.load(p)

    def x_ctor(self, e):
        f = self.tu.fns[e['fn']]
        t = self.types[e['t']]
        if t['k'] == 'arr':
            n = t['n']
            return Vec([self.x_ctor(dict(e, t=t['e'])) for _ in range(n)])
        q = f['q']
        if q in self.contracts:
            args = self.eval_args(f, e['as'])
            self.used_contracts.add(q)
            return self.contracts[q](self, None, args, Call(f, e))
        if t['k'] == 'rec' and self.std.is_std(t):
            return self.std.ctor(t, f, e)
        rid = t['id']
        if f.get('sp') in ('copy', 'move') and (f.get('triv') or 'body' not in f):
            src = self.ev(e['as'][0])
            v = self.load(src) if e['as'][0].get('lv') else src
            if isinstance(v, Rec) and v.t != rid and isinstance(v.t, int):
                # slicing copy
                v = Rec(rid, {n: v.f[n] for n, _ in self.tu.fields(rid)})
            return v
        if 'body' not in f:
            if f.get('sp') == 'def':
                r = self.blank(rid)
                if e['zi']:
                    return Rec(rid, {n: self.default(ft) for n, ft in self.tu.fields(rid)})
                return r
            h = self.std.ctor_other(t, f, e)
            if h is not None:
                return h
            raise Unsupported('constructor %s has no body' % q)
        args = self.eval_args(f, e['as'])
        return self.construct(rid, f, args)

    # ------------------------------------------------------------ calls
    def eval_args(self, f, as_):
        out = []
        ps = f['ps']
        for k, a in enumerate(as_):
            v = self.ev(a)
            if k < len(ps) and self.types[ps[k]['t']]['k'] == 'ref':
                if not a.get('lv'):
                    v = self.alloc(v)
            elif a.get('lv'):
                v = self.norm(self.load(v), a['t'])
            out.append(v)
        return out

    def x_call(self, e):
        f = self.tu.fns[e['fn']]
        q = f['q']
        if q in self.contracts:
            args = self.eval_args(f, e['as'])
            self.used_contracts.add(q)
            return self.contracts[q](self, None, args, Call(f, e))
        if 'body' in f and not q.startswith('std::'):
            args = self.eval_args(f, e['as'])
            return self.call_fn(f, None, args)
        return self.std.call(f, e)

    def x_icall(self, e):
        c = self.ev(e['c'])
        if e['c'].get('lv'):
            c = self.load(c)
        args = [self.ev(a) for a in e['as']]
        return self.call_clo(c, args, [bool(a.get('lv')) for a in e['as']])

    def call_clo(self, c, args, lvs=None):
        """call a closure; args are Ptr for lvalues when lvs says so, else values"""
        if isinstance(c, Choice):
            return self.fork(c.c, lambda: self.call_clo(c.a, args, lvs), lambda: self.call_clo(c.b, args, lvs))
        if not isinstance(c, Clo):
            raise Unsupported('call through %s' % type(c).__name__)
        if c.native:
            return c.native(self, args, lvs)
        f = None
        for fid in c.fns:
            g = self.tu.fns[fid]
            if 'body' in g and len(g['ps']) == len(args):
                f = g
                break
        if f is None:
            g = self.tu.fns[c.fns[0]] if c.fns else None
            if g is not None and g['q'] in self.contracts:
                return self.contracts[g['q']](self, None, args, Call(g, None))
            raise Unsupported('closure without body')
        out = []
        for k, a in enumerate(args):
            isref = self.types[f['ps'][k]['t']]['k'] == 'ref'
            lv = lvs[k] if lvs else False
            if isref and not lv:
                a = self.alloc(a)
            elif not isref and lv:
                a = self.norm(self.load(a), f['ps'][k]['t'])
            out.append(a)
        return self.call_fn(f, c.this, out, c.caps)

    def x_mcall(self, e):
        f = self.tu.fns[e['fn']]
        ot = self.types[e['o']['t']]
        o = self.ev(e['o'])
        if e['ar']:
            this = self.ptr_of(o)
            rt = self.types[ot['e']] if ot['k'] == 'ptr' else ot
        else:
            this = o if e['o'].get('lv') else self.alloc(o)
            rt = ot
        if rt['k'] == 'rec' and f['q'].startswith('(lambda)') or f['n'] == 'operator()' and rt.get('n') == '(lambda)':
            c = self.load(this)
            if isinstance(c, Clo):
                args = [self.ev(a) for a in e['as']]
                return self.call_clo(Clo([e['fn']], c.caps, c.this), args, [bool(a.get('lv')) for a in e['as']])
        if f['q'] in self.contracts and not e['v']:
            args = self.eval_args(f, e['as'])
            self.used_contracts.add(f['q'])
            return self.contracts[f['q']](self, this, args, Call(f, e))
        if rt['k'] == 'rec' and self.std.is_std(rt) or f['q'].startswith('std::') or f['q'].startswith('__gnu_cxx::'):
            return self.std.mcall(rt, f, this, e)
        args = self.eval_args(f, e['as'])
        return self.dispatch(f, e['v'], this, args, e)

    def dispatch(self, f, virt, this, args, e=None):
        if isinstance(this, Choice):
            return self.fork(this.c, lambda: self.dispatch(f, virt, this.a, args, e), lambda: self.dispatch(f, virt, this.b, args, e))
        if this is NULL:
            self.safety('method call on null', False)
            raise Dead()
        if virt:
            obj = self.load(this)
            if isinstance(obj, Choice):
                return self.fork(obj.c, lambda: self.dispatch_on(f, obj.a, this, args, e), lambda: self.dispatch_on(f, obj.b, this, args, e))
            return self.dispatch_on(f, obj, this, args, e)
        return self.invoke(f, this, args, e)

    def dispatch_on(self, f, obj, this, args, e):
        if isinstance(obj, Rec) and isinstance(obj.t, int):
            m = self.tu.final_overrider(obj.t, f['id'])
            if m is not None:
                f = self.tu.fns[m]
        return self.invoke(f, this, args, e)

    def invoke(self, f, this, args, e):
        q = f['q']
        # contracts may be registered for the method itself or any method it overrides
        for fid in self.tu.overrides(f['id']):
            qq = self.tu.fns[fid]['q']
            if qq in self.contracts and not (fid != f['id'] and 'body' in f and f['q'].startswith(self.own_bodies)):
                self.used_contracts.add(qq)
                return self.contracts[qq](self, this, args, Call(f, e))
        if 'body' not in f:
            if f.get('sp') in ('copyassign', 'moveassign'):
                v = args[0]
                if isinstance(v, Ptr):
                    v = self.load(v)
                self.store(this, v)
                return this
            if f.get('sp') == 'dtor':
                return None
            return self.std.unknown_method(f, this, args, e)
        return self.call_fn(f, this, args)

    def call_fn(self, f, this, args, caps=None):
        if 'body' not in f:
            raise Unsupported('no body for %s' % f['q'])
        self.depth += 1
        if self.depth > 200:
            raise Unsupported('recursion too deep')
        if f.get('sp') in ('copyassign', 'moveassign') and f.get('dflt') and not self.has_user_copy(f):
            self.depth -= 1
            v = self.load(args[0])
            self.store(this, v)
            return this
        self.inlined.add((f['q'], os.path.relpath(f['file'], '/repo') if f['file'].startswith('/repo') else f['file'], f['line']))
        fr = Frame(f, this, caps)
        for p, a in zip(f['ps'], args):
            if self.types[p['t']]['k'] == 'ref':
                fr.vars[p['id']] = a
            else:
                fr.vars[p['id']] = self.alloc(a, p['n'] or 'arg', p['t'])
        self.frames.append(fr)
        entry_pc = self.st.pc
        try:
            alive = True
            try:
                for i in f.get('inits', []):
                    self.ctor_init(i, this)
                self.exec(f['body'])
            except Dead:
                alive = False
            rets = fr.returns
            if alive:
                if f.get('sp') in ('copyassign', 'moveassign') and f.get('dflt'):
                    rets = rets + [(self.st, this)]
                else:
                    rets = rets + [(self.st, None)]
            if not rets:
                raise Dead()
            st, val = rets[0]
            for s2, v2 in rets[1:]:
                st, c = merge_states(st, s2)
                if val is not None or v2 is not None:
                    val = merge(c, val, v2)
            self.st = st
            if val is not None:
                rt = f['ret']
                if self.types[rt]['k'] in ('int', 'vec'):
                    val = self.norm(val, rt)
            return val
        finally:
            self.frames.pop()
            self.depth -= 1

    def has_user_copy(self, f):
        return True

    def ctor_init(self, i, this):
        if 'f' in i:
            ft = self.types[i['ft']]
            if ft['k'] == 'ref':
                self.store(this.fld(i['f']), RefBox(self.ev(i['e'])))
            else:
                v = self.init_value(i['e'], i['ft'])
                self.store(this.fld(i['f']), v)
        elif 'base' in i:
            bt = self.types[i['base']]
            e = i['e']
            if e is None:
                return
            if e['k'] == 'ctor' and bt['k'] == 'rec' and not self.std.is_std(bt):
                f = self.tu.fns[e['fn']]
                if f['q'] in self.contracts:
                    return
                if 'body' in f:
                    self.call_fn(f, this, self.eval_args(f, e['as']))
                elif f.get('sp') in ('copy', 'move'):
                    src = self.load(self.ev(e['as'][0]))
                    for n, _ in self.tu.fields(bt['id']):
                        self.store(this.fld(n), src.f[n])
                return
            v = self.init_value(e, i['base'])
            if isinstance(v, Rec):
                for k, x in v.f.items():
                    self.store(this.fld(k), x)
        else:
            e = i['e']
            f = self.tu.fns[e['fn']]
            self.call_fn(f, this, self.eval_args(f, e['as']))

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        getattr(self, 's_' + s['k'])(s)

    def s_unsup(self, s):
        raise Unsupported('statement %s' % s['w'])

    def s_block(self, s):
        for x in s['ss']:
            self.exec(x)

    def s_expr(self, s):
        self.ev(s['e'])

    def s_decl(self, s):
        for v in s['vs']:
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        t = self.types[v['t']]
        if v.get('st'):
            loc = 'g#%d' % v['id']
            if loc not in self.st.mem:
                self.st.mem[loc] = self.init_value(v['i'], v['t']) if v['i'] else self.default(v['t'])
            fr.vars[v['id']] = Ptr(loc)
            return
        if t['k'] == 'ref':
            e = v['i']
            p = self.ev(e)
            if not e.get('lv'):
                p = self.alloc(p, v['n'])
            fr.vars[v['id']] = p
        else:
            x = Undef
            if v['i'] is not None:
                x = self.init_value(v['i'], v['t'])
            elif t['k'] == 'arr':
                x = Vec([Undef] * t['n'])
            fr.vars[v['id']] = self.alloc(x, v['n'] or 'v', v['t'])
        for b in v.get('bind', []):
            self.declare(b)

    def s_if(self, s):
        if s['init']:
            self.exec(s['init'])
        if s['cv']:
            self.exec(s['cv'])
        c = self.ev(s['c'])

        def a():
            self.exec(s['a'])

        def b():
            self.exec(s['b'])
        self.fork(c, a, b)

    def s_ret(self, s):
        v = None
        if s['e'] is not None:
            f = self.frames[-1].fn
            rt = self.types[f['ret']]
            v = self.ev(s['e'])
            if rt['k'] == 'ref':
                if not s['e'].get('lv'):
                    v = self.alloc(v)
            elif s['e'].get('lv'):
                v = self.load(v)
        self.frames[-1].returns.append((self.st, v))
        raise Dead()

    def s_break(self, s):
        self.frames[-1].loops[-1][0].append(self.st)
        raise Dead()

    def s_continue(self, s):
        self.frames[-1].loops[-1][1].append(self.st)
        raise Dead()

    def join(self, states):
        st = states[0]
        for x in states[1:]:
            st, _ = merge_states(st, x)
        return st

    def s_switch(self, s):
        if s['init']:
            self.exec(s['init'])
        v = self.ev(s['c'])
        w = self.types[s['c']['t']]['w']
        body = s['b']
        items = body['ss'] if body['k'] == 'block' else [body]
        # flatten labels
        flat = []
        for it in items:
            labs = []
            while it is not None and it['k'] in ('case', 'default'):
                labs.append(it['v'] if it['k'] == 'case' else None)
                it = it['s']
            flat.append((labs, it))
        cases = [int(l['v']) & mask(w) for labs, _ in flat for l in labs if l is not None]
        fr = self.frames[-1]
        fr.loops.append([[], fr.loops[-1][1] if fr.loops else []])
        carried = None
        rest = self.st
        try:
            for labs, it in flat:
                if labs:
                    cond = False
                    for l in labs:
                        if l is None:
                            d = True
                            for c in cases:
                                d = land(d, binop('!=', v, c, w, False))
                            cond = lor(cond, d)
                        else:
                            cond = lor(cond, binop('==', v, int(l['v']) & mask(w), w, False))
                    cond = simp(cond)
                    ent = None
                    if cond is not False and rest is not None:
                        self.st = rest
                        if cond is True or self.feasible(cond):
                            ent = rest.copy()
                            if cond is not True:
                                ent.pc = ent.pc + (zb(cond),)
                        if cond is True:
                            rest = None
                        elif ent is not None:
                            r2 = rest.copy()
                            r2.pc = r2.pc + (zb(lnot(cond)),)
                            rest = r2
                    if ent is not None:
                        carried = ent if carried is None else merge_states(ent, carried)[0]
                if carried is not None:
                    self.st = carried
                    try:
                        self.exec(it)
                        carried = self.st
                    except Dead:
                        carried = None
        finally:
            brk, _ = fr.loops.pop()
        outs = list(brk)
        if carried is not None:
            outs.append(carried)
        if rest is not None:
            self.st = rest
            if self.feasible(True):
                outs.append(rest)
        if not outs:
            raise Dead()
        self.st = self.join(outs)

    def s_try(self, s):
        self.catch.append([])
        base_frames = len(self.frames)
        ok = None
        try:
            self.exec(s['b'])
            ok = self.st
        except Dead:
            ok = None
        thrown = self.catch.pop()
        outs = [ok] if ok is not None else []
        for t in thrown:
            handled = False
            for h in s['hs']:
                if h['t'] is None or self.catches(h['t'], t.ty):
                    self.st = t.st
                    if h['v'] is not None:
                        self.frames[-1].vars[h['v']] = self.alloc(Opaque('exception'), 'exc')
                    self.catch.append([])
                    try:
                        self.exec(h['b'])
                        outs.append(self.st)
                    except Dead:
                        pass
                    for t2 in self.catch.pop():
                        if t2.ty == 'rethrow':
                            t2.ty = t.ty
                        self.catch[-1].append(t2)
                    handled = True
                    break
            if not handled:
                self.catch[-1].append(t)
        if not outs:
            raise Dead()
        self.st = self.join(outs)

    def catches(self, ti, ty):
        t = self.types[ti]
        if t['k'] == 'ref':
            t = self.types[t['e']]
        n = t.get('c', '?')
        if n == ty or n == 'std::exception':
            return True
        r = self.tu.recByC.get(ty)
        if r and self.tu.derives(r['id'], n):
            return True
        return n == 'std::runtime_error' and ty in ('std::range_error', 'std::overflow_error') or n == 'std::logic_error' and ty in ('std::out_of_range', 'std::invalid_argument')

    def s_for(self, s):
        if s['init']:
            self.exec(s['init'])
        self.loop(s, (lambda: self.ev(s['c'])) if s['c'] else (lambda: True), lambda: self.exec(s['b']), (lambda: self.ev(s['inc'])) if s['inc'] else (lambda: None))

    def s_while(self, s):
        def cond():
            if s['cv']:
                self.exec(s['cv'])
            return self.ev(s['c'])
        self.loop(s, cond, lambda: self.exec(s['b']), lambda: None)

    def s_do(self, s):
        first = [True]

        def cond():
            if first[0]:
                first[0] = False
                return True
            return self.ev(s['c'])
        self.loop(s, cond, lambda: self.exec(s['b']), lambda: None, do=True)

    def s_rfor(self, s):
        if s['init']:
            self.exec(s['init'])
        r = self.ev(s['r'])
        if not s['r'].get('lv'):
            r = self.alloc(r, 'range')
        cont = self.load(r)
        if isinstance(cont, MapV):
            return self.range_map(s, r, cont)
        if not isinstance(cont, (Vec, VecS)):
            raise Unsupported('range-for over %s' % type(cont).__name__)
        v = s['v']
        t = self.types[v['t']]
        fr = self.frames[-1]
        kp = self.alloc(0, 'rfor', 'u64')

        def cond():
            return binop('<', self.load(kp), vlen(self.load(r)), 64, False)

        # the loop variable is initialised by the desugared `*__begin`
        def body():
            k = self.load(kp)
            ep = r.idx(k)
            if t['k'] == 'ref':
                fr.vars[v['id']] = ep
            else:
                x = self.std.copy_elem(self, ep, v)
                fr.vars[v['id']] = self.alloc(x, v['n'] or 'v', v['t'])
            for b in v.get('bind', []):
                self.declare(b)
            self.exec(s['b'])

        def inc():
            self.store(kp, binop('+', self.load(kp), 1, 64, False))
        self.loop(s, cond, body, inc, rfor=True)

    def range_map(self, s, r, cont):
        v = s['v']
        fr = self.frames[-1]
        t = self.types[v['t']]
        order = self.std.map_order(cont)
        fr.loops.append([[], []])
        for n in order:
            g, k, val = cont.es[n]
            if g is not True:
                raise Unsupported('iteration over symbolic map')
            pr = self.alloc(Rec('pair', {'first': k, 'second': self.load(r).es[n][2]}), 'kv')
            # references into the map value: write back afterwards
            fr.vars[v['id']] = pr
            for b in v.get('bind', []):
                self.declare(b)
            fr.loops[-1][1] = []
            alive = [None]
            try:
                self.exec(s['b'])
                alive = [self.st]
            except Dead:
                alive = []
            alive += fr.loops[-1][1]
            if not alive:
                break
            self.st = self.join(alive)
            if t['k'] == 'ref':
                self.store(r.fld('@%d' % n), self.load(pr).f['second'])
        else:
            brk = fr.loops.pop()[0]
            self.st = self.join([self.st] + brk)
            return
        brk = fr.loops.pop()[0]
        if not brk:
            raise Dead()
        self.st = self.join(brk)

    # loops -------------------------------------------------------------------
    def loop(self, s, cond, body, inc, do=False, rfor=False):
        from loops import run_loop
        return run_loop(self, s, cond, body, inc, do)

    # ------------------------------------------------------------ entry points
    def run(self, thunk):
        """run thunk, collecting thrown states; returns (alive, value, thrown)"""
        self.catch.append([])
        val = None
        alive = True
        try:
            val = thunk()
        except Dead:
            alive = False
        th = self.catch.pop()
        return alive, val, th

    def find_fn(self, q, nparams=None, rec=None, pred=None, body=True):
        c = []
        for f in self.tu.byq.get(q, []):
            if body and 'body' not in f:
                continue
            if nparams is not None and len(f['ps']) != nparams:
                continue
            if isinstance(rec, dict):
                if self.types[f['rec']].get('id') != rec['id']:
                    continue
            elif rec is not None and self.types[f['rec']]['c'].replace(' ', '') != rec.replace(' ', ''):
                continue
            if pred is not None and not pred(f):
                continue
            c.append(f)
        if not c:
            raise Unsupported('function %s not found' % q)
        return c[0]


class Call:
    """context handed to contract functions"""

    def __init__(self, f, e):
        self.f = f
        self.e = e
