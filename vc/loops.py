"""Loops.  A loop whose condition is concrete at every step is unrolled completely.  A loop whose trip
count is symbolic gets an inductive invariant: a closed form (value of every modified cell after k
iterations) is guessed from one generic iteration, and then *proved* inductive -- one obligation per
modified cell ("closed form preserved") plus the trip-count obligations.  A guess that cannot be proved is never
used: the loop is then reported as outside the verifier's reach."""
import re
import z3
from core import *
import core

SUF = re.compile(r'!(\d+)$')


def consts_of(e, acc=None, seen=None):
    """uninterpreted constants and functions in a term: set of FuncDeclRef"""
    acc = set() if acc is None else acc
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(d)
            st.extend(x.children())
    return acc


def fresh_in(d, lo, hi):
    m = SUF.search(d.name())
    return bool(m) and lo < int(m.group(1)) <= hi


class Cell:
    def __init__(self, loc, path, kind, v0, ty):
        self.loc, self.path, self.kind, self.v0, self.ty = loc, path, kind, v0, ty
        self.sym = None
        self.gen = None
        self.closed = None   # kk -> value

    def name(self):
        return self.loc.split('#')[0] + ''.join(('[%s]' % p.i if isinstance(p, Idx) else '.' + p) for p in self.path)


def pkey(path):
    return tuple(('i', p.i if isinstance(p.i, int) else p.i.get_id()) if isinstance(p, Idx) else p for p in path)


def get_path(v, path):
    for s in path:
        if isinstance(s, Idx):
            v = vget_loose(v, s.i)
        elif isinstance(v, Rec):
            v = v.f[s]
        elif isinstance(v, Opt):
            v = v.has if s == '?has' else v.v
        else:
            raise Unsupported('cell path')
    return v


def set_path(v, path, x, k=0):
    if k == len(path):
        return x
    s = path[k]
    if isinstance(s, Idx):
        xs = list(v.xs)
        xs[s.i] = set_path(xs[s.i], path, x, k + 1)
        return Vec(xs)
    if isinstance(v, Opt):
        if s == '?has':
            return Opt(x, v.v)
        return Opt(v.has, set_path(v.v, path, x, k + 1))
    return v.with_(s, set_path(v.f[s], path, x, k + 1))


def diff(a, b, path, out):
    if a is b:
        return
    if isinstance(a, Rec) and isinstance(b, Rec) and a.t == b.t:
        for f in b.f:
            diff(a.f.get(f, Undef), b.f[f], path + (f,), out)
        return
    if isinstance(a, Vec) and isinstance(b, Vec) and len(a.xs) == len(b.xs):
        for i, (x, y) in enumerate(zip(a.xs, b.xs)):
            diff(x, y, path + (Idx(i),), out)
        return
    if isinstance(a, (Vec, VecS)) and isinstance(b, (Vec, VecS)):
        out.append((path, 'vec'))
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if same_ptr(a, b):
            return
        if a.loc == b.loc and len(a.path) == len(b.path) and a.path and isinstance(a.path[-1], Idx) and all(
                (isinstance(x, Idx) and isinstance(y, Idx) and same(x.i, y.i)) or (not isinstance(x, Idx) and x == y) for x, y in zip(a.path[:-1], b.path[:-1])):
            out.append((path, 'ptr'))
            return
        if a.loc == b.loc and len(b.path) == len(a.path) + 1 and isinstance(b.path[-1], Idx):
            out.append((path, 'ptr'))
            return
        out.append((path, 'other'))
        return
    if isinstance(a, Opt) and isinstance(b, Opt):
        diff(a.has, b.has, path + ('?has',), out)
        diff(a.v, b.v, path + ('?',), out)
        return
    if isinstance(a, (bool, int, z3.ExprRef)) or a is Undef:
        if isinstance(b, (bool, int, z3.ExprRef)):
            if same(a, b):
                return
            if is_sym(b) and is_sym(a) and a.sort() == b.sort():
                if simp(a == b) is True:
                    return
            out.append((path, 'scalar'))
            return
        if isinstance(b, Choice):
            out.append((path, 'scalar'))
            return
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return
    if a is Undef and b is Undef or a is NULL and b is NULL:
        return
    if isinstance(a, RefBox) and isinstance(b, RefBox) and same_ptr(a.p, b.p):
        return
    if isinstance(a, MapV) and isinstance(b, MapV) and len(a.es) == len(b.es) and all(x is y for x, y in zip(a.es, b.es)):
        return
    if isinstance(a, float) and a == b:
        return
    if isinstance(a, Choice) and isinstance(b, Choice) and a is b:
        return
    out.append((path, 'other'))


def cell_type(eng, loc, path, v):
    ti = eng.loctype.get(loc)
    if ti is None and isinstance(v, Rec) and isinstance(v.t, int):
        ti = ('rec', v.t)
    for s in path:
        if isinstance(ti, str) or ti is None:
            # fall back on record values
            if isinstance(v, Rec) and isinstance(v.t, int):
                ti = ('rec', v.t)
        if isinstance(ti, tuple):
            rid = ti[1]
            t = None
        else:
            t = eng.types[ti] if isinstance(ti, int) else None
            rid = t.get('id') if t and t['k'] == 'rec' else None
        if isinstance(s, Idx):
            if t is None:
                return None
            if t['k'] == 'arr':
                ti = t['e']
            elif t['k'] == 'rec' and t.get('a'):
                ti = t['a'][0].get('t')
            else:
                return None
        else:
            if t is not None and t['k'] == 'rec' and t['n'] == 'std::pair':
                ti = t['a'][0 if s == 'first' else 1]['t']
            elif t is not None and t['k'] == 'rec' and t['n'] == 'std::tuple':
                ti = t['a'][int(s)]['t']
            elif t is not None and t['k'] == 'rec' and t['n'] == 'std::optional' and s == '?':
                ti = t['a'][0]['t']
            elif isinstance(v, Rec) and isinstance(v.t, int):
                ti = dict(eng.tu.fields(v.t)).get(s)
            elif rid is not None:
                ti = dict(eng.tu.fields(rid)).get(s)
            else:
                ti = None
        try:
            v = get_path(v, (s,)) if v is not None else None
        except Exception:
            v = None
        if ti is None and isinstance(v, Rec) and isinstance(v.t, int):
            ti = ('rec', v.t)
    return ti


class InvLocals:
    """named locals and members visible to a loop invariant"""

    def __init__(self, eng, fr):
        self.eng, self.fr = eng, fr

    def ptr(self, name):
        for i, p in reversed(list(self.fr.vars.items())):
            if isinstance(p, Ptr) and self.names().get(i) == name:
                return p
        raise Unsupported('loop invariant: no variable %s' % name)

    def names(self):
        if not hasattr(self, 'nm'):
            self.nm = {p['id']: p['n'] for p in self.fr.fn.get('ps', [])}

            def go(x):
                if isinstance(x, dict):
                    if x.get('k') == 'decl':
                        for v in x['vs']:
                            self.nm[v['id']] = v.get('n')
                    for y in x.values():
                        go(y)
                elif isinstance(x, list):
                    for y in x:
                        go(y)
            go(self.fr.fn.get('body'))
        return self.nm

    def get(self, name):
        return self.eng.load(self.ptr(name))

    def set(self, name, v):
        self.eng.store(self.ptr(name), v)


def inductive(eng, s, inv, cond, body, inc):
    """loop contract: inv.check(L) proves the invariant in the current state, inv.havoc(L) replaces the cells the loop
    may modify by arbitrary ones that satisfy it, inv.measure(L) must decrease"""
    fr = eng.frames[-1]
    L = InvLocals(eng, fr)
    inv.check(L, 'before the loop')
    before = dict(eng.st.mem)
    inv.havoc(L)
    owned = set()
    for loc, v in before.items():
        w = eng.st.mem.get(loc)
        if w is v:
            continue
        ds = []
        diff(v, w, (), ds)
        owned |= {(loc, pkey(p)) for p, _ in ds}
    H = eng.st.copy()
    c = cond()
    ex = eng.st.copy()
    ex.pc = ex.pc + (zb(lnot(c)),)
    outer = fr.loops[-1][0]
    fr.loops[-1] = [[], []]
    m0 = inv.measure(L) if hasattr(inv, 'measure') else None
    alive = []
    try:
        eng.assume(c)
        body()
        alive = [eng.st]
    except Dead:
        pass
    alive += fr.loops[-1][1]
    brk = fr.loops[-1][0]
    fr.loops[-1] = [outer, []]
    if alive:
        eng.st = eng.join(alive)
        inc()
        for loc, v in H.mem.items():
            w = eng.st.mem.get(loc)
            if w is None or w is v:
                continue
            ds = []
            diff(v, w, (), ds)
            for p, _ in ds:
                k = pkey(p)
                if not any((loc, k[:n]) in owned for n in range(len(k) + 1)):
                    raise Unsupported('loop contract: %s%s is modified outside the frame' % (loc, k))
        inv.check(L, 'kept by the loop')
        if m0 is not None:
            eng.prove('loop measure decreases', z3.ULT(bv(inv.measure(L), 64), bv(m0, 64)))
    return [ex] + brk


def run_loop(eng, s, cond, body, inc, do=False):
    fr = eng.frames[-1]
    inv = eng.invariants.get(fr.fn.get('q')) if eng.invariants else None
    if inv is not None and (not hasattr(inv, 'applies') or inv.applies(InvLocals(eng, fr))) and not do:
        fr.loops.append([[], []])
        try:
            exits = inductive(eng, s, inv, cond, body, inc)
        finally:
            brk = fr.loops.pop()[0]
        exits = exits + brk
        eng.st = eng.join([x for x in exits])
        return
    n = 0
    exits = []
    fr.loops.append([[], []])
    symbolic_unroll = 0
    mode = None

    def marks_():
        return (eng.st.copy(), len(eng.obls), len(eng.facts), len(fr.returns), len(eng.catch[-1]) if eng.catch else 0, len(eng.foralls), len(fr.loops[-1][0]))

    def rewind(m):
        eng.st = m[0].copy()
        del eng.obls[m[1]:]
        del eng.facts[m[2]:]
        del fr.returns[m[3]:]
        if eng.catch:
            del eng.catch[-1][m[4]:]
        del eng.foralls[m[5]:]
        fr.loops[-1] = [fr.loops[-1][0][:m[6]], []]
    start = marks_()
    concrete = not eng.silent
    try:
        while True:
            if n == eng.long_loop and concrete:
                # a long loop with a known number of iterations: look for a closed form first
                now = marks_()
                rewind(start)
                try:
                    exits += summarise(eng, s, cond, body, inc)
                    break
                except Unsupported as ex:
                    rewind(start)
                    exits = []
                    concrete = False
                    n = 0
                    continue
            c = simp(cond())
            if c is not True:
                concrete = concrete and c is False
            if c is False:
                exits.append(eng.st)
                break
            if c is not True:
                f = eng.feasible(c)
                if not f:
                    eng.st.pc = eng.st.pc + (zb(lnot(c)),)
                    exits.append(eng.st)
                    break
                g = eng.feasible(lnot(c))
                if g or mode is None:
                    if mode is None:
                        save = eng.st.copy()
                        marks = (len(eng.obls), len(eng.facts), len(fr.returns), len(eng.catch[-1]) if eng.catch else 0, len(eng.foralls))
                        try:
                            outs = summarise(eng, s, cond, body, inc)
                            exits += outs
                            break
                        except Unsupported as ex:
                            eng.loop_fail.append(str(ex))
                            eng.st = save
                            del eng.obls[marks[0]:]
                            del eng.facts[marks[1]:]
                            del fr.returns[marks[2]:]
                            del eng.catch[-1][marks[3]:]
                            del eng.foralls[marks[4]:]
                            fr.loops[-1] = [fr.loops[-1][0], []]
                            mode = 'unroll'
                    if not g:
                        mode = None if n < 2 else 'unroll'
                    symbolic_unroll += 1
                    if symbolic_unroll > eng.sym_unroll:
                        raise Unsupported('loop at line %s: no closed form (%s) and not bounded by %d iterations' % (s.get('l'), eng.loop_fail[-1] if eng.loop_fail else '', eng.sym_unroll))
                    if g:
                        ex = eng.st.copy()
                        ex.pc = ex.pc + (zb(lnot(c)),)
                        exits.append(ex)
                eng.st.pc = eng.st.pc + (zb(c),)
            n += 1
            if n > eng.maxunroll:
                raise Unsupported('loop unrolled more than %d times' % eng.maxunroll)
            fr.loops[-1][1] = []
            alive = []
            try:
                body()
                alive = [eng.st]
            except Dead:
                pass
            alive += fr.loops[-1][1]
            if not alive:
                break
            eng.st = eng.join(alive)
            inc()
    finally:
        brk = fr.loops.pop()[0]
    exits += brk
    if not exits:
        raise Dead()
    eng.st = eng.join(exits)


def one_iteration(eng, fr, cond, body, inc):
    """run cond (assumed), body, inc; returns the condition term"""
    c = cond()
    eng.assume(c)
    fr.loops[-1][1] = []
    alive = []
    try:
        body()
        alive = [eng.st]
    except Dead:
        pass
    alive += fr.loops[-1][1]
    fr.loops[-1][1] = []
    if not alive:
        raise Dead()
    eng.st = eng.join(alive)
    inc()
    return c


def widen(x, ty, eng):
    t = eng.types[ty]
    if t['k'] == 'bool':
        return zb(x)
    return bv(x, t['w'])


def summarise(eng, s, cond, body, inc):
    fr = eng.frames[-1]
    base = eng.st
    outer_brk, outer_cont = fr.loops[-1]
    k = z3.BitVec(fresh_name('k'), 64)
    cells = {}
    silent0 = eng.silent
    nfolds = len(eng.folds)
    nfacts = len(eng.facts)
    nforall = len(eng.foralls)
    marks = (len(fr.returns), len(eng.catch[-1]))
    first_cond = None
    vecforce = set()
    try:
        eng.silent = True
        for rnd in range(10):
            del eng.facts[nfacts:]
            del eng.foralls[nforall:]
            del fr.returns[marks[0]:]
            del eng.catch[-1][marks[1]:]
            fr.loops[-1] = [[], []]
            mark0 = core._fresh[0]
            G = base.copy()
            for c in cells.values():
                make_generic(eng, c)
                G.mem[c.loc] = set_path(G.mem[c.loc], c.path, c.gen)
            before = dict(G.mem)
            eng.st = G
            eng.write_log = []
            mark1 = core._fresh[0]
            try:
                cterm = one_iteration(eng, fr, cond, body, inc)
            except Dead:
                raise Unsupported('loop body never completes')
            wl = eng.write_log
            eng.write_log = None
            mark2 = core._fresh[0]
            after = eng.st
            new = []
            for loc, v in before.items():
                if loc not in after.mem:
                    continue
                w = after.mem[loc]
                if v is w:
                    continue
                ds = []
                diff(v, w, (), ds)
                for path, kind in ds:
                    if kind == 'other':
                        raise Unsupported('loop changes %s in an unsupported way' % loc)
                    new.append((loc, path, kind))
            # writes at symbolic index into concrete-length vectors: treat the vector as a whole
            for p in wl:
                for d, q in enumerate(p.path):
                    if isinstance(q, Idx) and is_sym(q.i) and p.loc in base.mem:
                        vecforce.add((p.loc, pkey(p.path[:d])))
                        break
            grew = False
            for loc, path, kind in new:
                # climb to an enclosing forced vector
                for d in range(len(path)):
                    if (loc, pkey(path[:d])) in vecforce and isinstance(path[d], Idx):
                        path, kind = path[:d], 'vec'
                        break
                # never index into a cell that is already a whole-vector cell
                key = (loc, pkey(path))
                if key in cells:
                    continue
                v0 = get_path(base.mem[loc], path)
                if kind == 'scalar' and isinstance(v0, (Vec, VecS)):
                    kind = 'vec'
                ty = cell_type(eng, loc, path, base.mem[loc])
                for kk in [kk for kk, c in cells.items() if kk[0] == loc and kk[1][:len(key[1])] == key[1]]:
                    del cells[kk]
                cells[key] = Cell(loc, path, kind, v0, ty)
                grew = True
            if not grew:
                break
        else:
            raise Unsupported('loop discovery does not stabilise')
        facts_k = eng.facts[nfacts:]
        del eng.facts[nfacts:]
        del eng.foralls[nforall:]
        del fr.returns[marks[0]:]
        del eng.catch[-1][marks[1]:]
        solve_cells(eng, cells, after, k, mark0, mark1, mark2, base, facts_k)
    finally:
        eng.silent = silent0
        eng.write_log = None
        fr.loops[-1] = [outer_brk, []]
        eng.st = base

    # facts recorded while building closed forms are templates over k
    nf2 = len(eng.facts)

    def at(kk):
        st = base.copy()
        for c in cells.values():
            st.mem[c.loc] = set_path(st.mem[c.loc], c.path, c.closed(kk))
        return st

    # ---- trip count -----------------------------------------------------------
    eng.st = at(k)
    eng.silent = True
    try:
        ck = cond()
    finally:
        eng.silent = silent0
    K = trip_count(eng, ck, k)
    exact = K is not None
    if K is None:
        K = z3.BitVec(fresh_name('K'), 64)
    # ---- inductive step -------------------------------------------------------
    eng.st = at(k)
    pc0 = base.pc
    kin = z3.ULT(k, bv(K, 64))
    eng.st.pc = pc0 + (kin,)
    if exact and not eng.silent:
        # the condition holds at every k < K and fails at K
        c1 = cond()
        eng.st.pc = pc0 + (kin,)
        if not eng.prove('loop runs exactly its trip count', c1, kind='loop'):
            eng.st = base
            raise Unsupported('trip count not provable')
        eng.st = at(K)
        eng.st.pc = pc0
        c2 = cond()
        if not eng.prove('loop stops at its trip count', lnot(zb(c2)), kind='loop'):
            eng.st = base
            raise Unsupported('trip count not provable')
        eng.st = at(k)
        eng.st.pc = pc0 + (kin,)
    fr.loops[-1] = [[], []]
    nret, nth = len(fr.returns), len(eng.catch[-1])
    one_iteration(eng, fr, cond, body, inc)
    brk = fr.loops[-1][0]
    fr.loops[-1] = [outer_brk, []]
    aft = eng.st
    early = [st for st, _ in fr.returns[nret:]] + [t.st for t in eng.catch[-1][nth:]] + list(brk)
    if not eng.silent:
        for c in cells.values():
            got = get_path(aft.mem[c.loc], c.path)
            want = c.closed(binop('+', k, 1, 64, False))
            if not prove_equal(eng, 'closed form of %s preserved' % c.name(), got, want, c.ty):
                raise Unsupported('closed form of %s is not inductive' % c.name())
    if exact and is_sym(K) and len(eng.folds) > nfolds and term_size(K, 400) < 400:
        # few iterations at most: the running folds are unrolled
        sv = z3.Solver()
        sv.set('timeout', 500)
        sv.add(z3.UGT(bv(K, 64), 16))
        if sv.check() == z3.unsat:
            for fo in eng.folds[nfolds:]:
                for i in range(16):
                    eng.facts.append(z3.simplify(fo['inst'](z3.BitVecVal(i, 64))))
    # ---- state after the loop -------------------------------------------------
    st = at(K)
    st.pc = pc0
    npre = len(pc0)
    ec = False
    for e in early:
        ec = lor(ec, conj(e.pc[npre:]))
    if ec is not False:
        # no early exit happened in any iteration: recorded for instantiation, and at k itself
        eng.foralls.append((k, K, lnot(ec)))
        st.pc = st.pc + (zb(limp(kin, lnot(ec))),)
    eng.st = st
    if not exact:
        eng.foralls.append((k, K, ck))
        c = cond()
        eng.assume(lnot(c))
        eng.partial.append('termination of a loop in %s is assumed' % fr.fn['q'])
    out = [eng.st] + brk
    return out


def prove_equal(eng, name, a, b, ty=None):
    """prove two values equal under the current path"""
    ok = True
    if isinstance(a, (Vec, VecS)) or isinstance(b, (Vec, VecS)):
        na, nb = vlen(a), vlen(b)
        if not eng.prove(name + ' (length)', eq_i(na, nb), kind='loop'):
            return False
        if isinstance(a, Vec) and isinstance(b, Vec):
            for i, (x, y) in enumerate(zip(a.xs, b.xs)):
                if not prove_equal(eng, name, x, y):
                    return False
            return True
        j = eng.skolem()
        save = eng.st
        eng.st = eng.st.copy()
        eng.st.pc = eng.st.pc + (z3.ULT(j, bv(na, 64)),)
        ety = None
        try:
            r = prove_equal(eng, name, vget_loose(a, j), vget_loose(b, j))
        finally:
            eng.st = save
        return r
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.t != b.t:
            return False
        for f in sorted(set(a.f) | set(b.f)):
            if not prove_equal(eng, name, a.f.get(f, Undef), b.f.get(f, Undef)):
                return False
        return True
    if isinstance(a, Opt) and isinstance(b, Opt):
        if not prove_equal(eng, name, a.has, b.has):
            return False
        save = eng.st
        eng.st = eng.st.copy()
        eng.st.pc = eng.st.pc + (zb(a.has),)
        try:
            return prove_equal(eng, name, a.v, b.v)
        finally:
            eng.st = save
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return eng.prove(name, eng.peq(a, b), kind='loop')
    if a is Undef or b is Undef:
        return a is b
    if a is NULL or b is NULL:
        return a is b
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return True
    if isinstance(a, RefBox) and isinstance(b, RefBox):
        return same_ptr(a.p, b.p)
    if isinstance(a, Choice) or isinstance(b, Choice):
        w = None
        for x in (a, b):
            if isinstance(x, z3.BitVecRef):
                w = x.size()
        if w:
            a, b = resolve_width(a, w), resolve_width(b, w)
        else:
            a, b = resolve_width(a, 64), resolve_width(b, 64)
        if isinstance(a, Choice) or isinstance(b, Choice):
            if a is b:
                return True
            raise Unsupported('comparing values of different shape')
    if isinstance(a, (bool, int, z3.ExprRef)) and isinstance(b, (bool, int, z3.ExprRef)):
        return eng.prove(name, eq_i(a, b), kind='loop')
    if isinstance(a, Clo) and a is b:
        return True
    if isinstance(a, float) and a == b:
        return True
    raise Unsupported('comparing %s with %s' % (type(a).__name__, type(b).__name__))


def make_generic(eng, c):
    if c.kind == 'scalar':
        if c.ty == 'u64':
            c.sym = z3.BitVec(fresh_name('gen'), 64)
        elif isinstance(c.ty, int) and eng.types[c.ty]['k'] in ('bool', 'int', 'vec'):
            c.sym = eng.sym_scalar(c.ty, 'gen')
        elif isinstance(c.v0, z3.ExprRef):
            c.sym = z3.Const(fresh_name('gen'), c.v0.sort())
        elif isinstance(c.v0, bool):
            c.sym = z3.Bool(fresh_name('gen'))
        else:
            raise Unsupported('loop variable %s of unknown width' % c.name())
        c.gen = c.sym
    elif c.kind == 'ptr':
        c.sym = z3.BitVec(fresh_name('gen'), 64)
        p = c.v0
        if p.path and isinstance(p.path[-1], Idx):
            c.i0 = p.path[-1].i
            c.pre = p.path[:-1]
        else:
            c.i0 = 0
            c.pre = p.path
        c.gen = Ptr(p.loc, c.pre + (Idx(c.sym),), p.vw)
    elif c.kind == 'vec':
        c.sym = z3.BitVec(fresh_name('genlen'), 64)
        et = None
        if isinstance(c.ty, int):
            t = eng.types[c.ty]
            if t['k'] == 'arr':
                et = t['e']
            elif t['k'] == 'rec' and t.get('a') and 't' in t['a'][0]:
                et = t['a'][0]['t']
        c.et = et
        c.hs = []
        if et is not None:
            fam = eng.symbolic_family(et, 'hgen', 1)
            c.h = fam
            c.gen = VecS(c.sym, lambda j: fam(j))
        else:
            c.h = None
            c.gen = VecS(c.sym, lambda j: Undef)
        if isinstance(c.v0, Vec) and c.v0.n and False:
            pass
    else:
        raise Unsupported('cell kind')


def index_terms(v, j, out):
    """terms t such that the value compares t with the index variable j"""
    if is_sym(v):
        seen = set()
        st = [v]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_eq(x):
                a, b = x.arg(0), x.arg(1)
                t = b if a.eq(j) else a if b.eq(j) else None
                if t is not None and not has(t, j):
                    if not any(t.eq(u) for u in out):
                        out.append(t)
            st.extend(x.children())
    elif isinstance(v, Rec):
        for x in v.f.values():
            index_terms(x, j, out)
    elif isinstance(v, Vec):
        for x in v.xs:
            index_terms(x, j, out)
    elif isinstance(v, VecS):
        index_terms(v.n, j, out)
        index_terms(v.get(z3.BitVec(fresh_name('jx'), 64)), j, out)
    elif isinstance(v, Opt):
        index_terms(v.has, j, out)
        index_terms(v.v, j, out)
    elif isinstance(v, Choice):
        index_terms(v.c, j, out)
        index_terms(v.a, j, out)
        index_terms(v.b, j, out)


def has(e, x):
    seen = set()
    st = [e]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(x):
            return True
        st.extend(y.children())
    return False


def solve_cells(eng, cells, after, k, mark0, mark1, mark2, base, facts_k):
    """find closed forms"""
    def mine(d):
        return fresh_in(d, mark0, mark2)

    skol = {}

    def skolemise(e):
        """symbols created by the iteration become functions of k"""
        cp, fp = [], []
        for d in consts_of(e):
            if fresh_in(d, mark1, mark2):
                if d not in skol:
                    srt = [d.domain(i) for i in range(d.arity())]
                    skol[d] = z3.Function(fresh_name('sk_' + d.name().split('!')[0]), *([z3.BitVecSort(64)] + srt + [d.range()]))
                f = skol[d]
                if d.arity() == 0:
                    cp.append((d(), f(k)))
                else:
                    fp.append((d, f(k, *[z3.Var(i, d.domain(i)) for i in range(d.arity())])))
        if fp:
            e = z3.substitute_funs(e, *fp)
        if cp:
            e = z3.substitute(e, *cp)
        return e

    solved = {}       # z3 symbol decl name -> (symbol, closed term at k)
    pend = dict(cells)
    spairs = []

    def sigma(e):
        if spairs:
            e = z3.substitute(e, *spairs)
        return e

    # old-content substitution for vector placeholders is added per cell below
    hpairs = []

    def fin(e):
        e = sigma(e)
        if hpairs:
            e = z3.substitute_funs(e, *hpairs)
            e = sigma(e)
        return skolemise(e)

    def unsolved(e):
        """does e still mention a symbol of an unsolved cell"""
        ds = consts_of(e)
        for c in pend.values():
            if c.sym.decl() in ds:
                return True
        return False

    def varying(e):
        """mentions the iteration (generic symbols or symbols created in it)"""
        return any(fresh_in(d, mark0, mark2) or d.name() == k.decl().name() for d in consts_of(e))

    # vector placeholders stand for the content before the loop (checked afterwards)
    for c in cells.values():
        if c.kind == 'vec' and c.h is not None:
            ph = z3.BitVec(fresh_name('ph'), 64)
            gl = list(flat(c.h(ph)))
            ol = list(flat(vget_loose(c.v0, ph)))
            if len(gl) != len(ol):
                continue
            for (pg, g), (po, o) in zip(gl, ol):
                if is_sym(g) and z3.is_app(g) and g.num_args() >= 1:
                    d = g.decl()
                    if isinstance(o, Choice) and isinstance(g, z3.BitVecRef):
                        o = resolve_width(o, g.size())
                    if isinstance(o, (bool, int)):
                        o = zb(o) if isinstance(g, z3.BoolRef) else bv(o, g.size())
                    if not is_sym(o) or o.sort() != g.sort():
                        continue
                    # arguments of g are (ph) or (ph, inner...)
                    prs = []
                    for i in range(g.num_args()):
                        prs.append((g.arg(i), z3.Var(i, g.arg(i).sort())))
                    hpairs.append((d, z3.substitute(o, *prs)))

    changed = True
    while changed:
        changed = False
        for key, c in list(pend.items()):
            v = get_path(after.mem[c.loc], c.path)
            if c.kind == 'ptr':
                if not isinstance(v, Ptr):
                    raise Unsupported('iterator changes shape')
                v = v.path[-1].i if v.path and isinstance(v.path[-1], Idx) else 0
                x0, w, isb = c.i0, 64, False
            elif c.kind == 'scalar':
                x0 = c.v0
                isb = isinstance(c.sym, z3.BoolRef)
                w = None if isb else c.sym.size()
                if isinstance(v, Choice):
                    v = resolve_width(v, w)
            elif c.kind == 'vec':
                # the length first
                if c.closed is not None:
                    continue
                v = vlen(v)
                x0, w, isb = vlen(c.v0), 64, False
            if isinstance(v, (bool, int)):
                v = zb(v) if isb else bv(v, w)
            if not is_sym(v):
                raise Unsupported('loop value %s' % type(v).__name__)
            if x0 is Undef:
                x0 = False if isb else 0      # indeterminate before the loop; only read after a write
            v1 = sigma(v)
            sol = None
            if not isb:
                delta = simp(v1 - c.sym)
                if not is_sym(delta) or not varying(delta):
                    sol = lin_closed(x0, delta, k, w)
            if sol is None and c.kind != 'vec':
                v2 = simp(v1)
                v2 = (zb(v2) if isb else bv(v2, w)) if not is_sym(v2) else v2
                ds = consts_of(v2)
                if c.sym.decl() not in ds and not unsolved(v2):
                    e = fin(v2)
                    x0z = zb(x0) if isb else bv(x0, w)
                    sol = ite_bv(k == 0, x0z, z3.simplify(z3.substitute(e, (k, k - 1)))) if isinstance(x0z, z3.BitVecRef) else z3.If(k == 0, x0z, z3.substitute(e, (k, k - 1)))
                elif not unsolved_except(v2, c, pend):
                    sol = fold_closed(eng, c, v2, x0, isb, w, k, fin)
            if sol is None:
                continue
            sol = sol if is_sym(sol) else (zb(sol) if isb else bv(sol, w))
            c.solk = sol
            spairs.append((c.sym, sol))
            del pend[key]
            changed = True
            if c.kind == 'scalar':
                c.closed = lambda kk, sol=sol: fold(z3.simplify(z3.substitute(sol, (k, bv(kk, 64))))) if term_size(sol, 60) < 60 else z3.substitute(sol, (k, bv(kk, 64)))
            elif c.kind == 'ptr':
                c.closed = lambda kk, sol=sol, c=c: Ptr(c.v0.loc, c.pre + (Idx(fold(z3.simplify(z3.substitute(sol, (k, bv(kk, 64)))))),), c.v0.vw)
    if pend:
        raise Unsupported('no closed form for %s' % ', '.join(c.name() for c in pend.values()))
    # vector contents
    templ = []
    for f in facts_k:
        g = fin(f)
        if has_decl(g, k):
            templ.append(g)
    def facts_at(q):
        for f in templ:
            eng.facts.append(z3.substitute(f, (k, bv(q, 64))))
    for c in cells.values():
        if c.kind != 'vec':
            continue
        v = get_path(after.mem[c.loc], c.path)
        j = z3.BitVec(fresh_name('j'), 64)
        tree = vget_loose(v, j)
        ts = []
        index_terms(tree, j, ts)
        if isinstance(v, Vec):
            raise Unsupported('vector of fixed length rewritten as a whole')
        lensol = c.solk
        writers = []
        for t in ts:
            tk = fin(t)
            tk = simp(tk)
            tkz = bv(tk, 64)
            if any(fresh_in(d, mark1, mark2) for d in consts_of(tkz)):
                raise Unsupported('index depends on the iteration in an unsupported way')
            step = simp(z3.substitute(tkz, (k, k + 1)) - tkz)
            a = simp(z3.substitute(tkz, (k, z3.BitVecVal(0, 64))))
            if is_sym(step):
                if has_decl(step, k):
                    # candidate: affine with the step seen at the first iteration (checked inductively below)
                    step = simp(z3.substitute(tkz, (k, z3.BitVecVal(1, 64))) - z3.substitute(tkz, (k, z3.BitVecVal(0, 64))))
                    if is_sym(step):
                        raise Unsupported('index is not an affine function of the iteration')
            val = subst(subst(tree, lambda e, t=t: z3.substitute(e, (j, t))), lambda e: fold(z3.simplify(e)) if term_size(e, 400) < 400 else e)
            # the element written by iteration k, as a function of k
            ek = subst(val, lambda e: unsext(fin(e)))
            writers.append((a, step, ek))
        # skip writers shadowed: later candidates are tried in order, all agree by the inductive check
        v0 = c.v0

        def closed(kk, c=c, writers=writers, v0=v0, lensol=lensol):
            kk64 = bv(kk, 64)
            n = simp(z3.substitute(lensol, (k, kk64)))

            def get(jx):
                r = vget_loose(v0, jx)
                for a, step, ek in writers:
                    jz = bv(jx, 64)
                    az = bv(a, 64)
                    if isinstance(step, int) and step == 0 or not is_sym(step) and step == 0:
                        hit = land(simp(jz == az), simp(kk64 != 0))
                        q = simp(kk64 - 1)
                    elif not is_sym(step) and tosigned(step, 64) > 0:
                        d = simp(jz - az)
                        if step == 1:
                            q = d
                            hit = simp(z3.ULT(bv(q, 64), kk64))
                        elif split_index(eng, d, step, kk64) is not None:
                            q, rem = split_index(eng, d, step, kk64)
                            hit = False if rem else simp(z3.ULT(bv(q, 64), kk64))
                        else:
                            dz = bv(d, 64)
                            if step & (step - 1) == 0:
                                sh = step.bit_length() - 1
                                q = simp(z3.LShR(dz, sh))
                                exactd = simp((dz & (step - 1)) == 0)
                            else:
                                q = simp(z3.UDiv(dz, z3.BitVecVal(step, 64)))
                                exactd = simp(z3.URem(dz, z3.BitVecVal(step, 64)) == 0)
                            hit = land(exactd, simp(z3.ULT(bv(q, 64), kk64)))
                    elif not is_sym(step):
                        m = -tosigned(step, 64)
                        d = simp(az - jz)
                        if m == 1:
                            q = d
                            hit = simp(z3.ULT(bv(q, 64), kk64))
                        else:
                            dz = bv(d, 64)
                            q = simp(z3.UDiv(dz, z3.BitVecVal(m, 64)))
                            hit = land(simp(z3.URem(dz, z3.BitVecVal(m, 64)) == 0), simp(z3.ULT(bv(q, 64), kk64)))
                    else:
                        raise Unsupported('symbolic stride')
                    if hit is False:
                        continue
                    facts_at(q)
                    val = subst(ek, lambda e, q=q: z3.substitute(e, (k, bv(q, 64))))
                    r = merge(hit, val, r)
                return r
            return VecS(n, get)
        c.closed = closed


def bit31(c, t):
    if not (z3.is_app(c) and c.decl().kind() == z3.Z3_OP_EXTRACT and c.params() == [31, 31]):
        return False
    x = c.arg(0)
    while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT and x.params()[1] == 0 and x.params()[0] >= 31:
        x = x.arg(0)
    return x.eq(t)


def unsext(e):
    """candidate rewriting: widening the low half of t is t (only used for closed forms, which are proved afterwards)"""
    memo = {}

    def low(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT and x.params() == [31, 0] and x.arg(0).size() == 64:
            return x.arg(0)

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][0]
        r = x
        if z3.is_app(x) and x.num_args():
            k = x.decl().kind()
            t = None
            if isinstance(x, z3.BitVecRef) and x.size() == 64:
                if k in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
                    t = low(x.arg(0)) if low(x.arg(0)) is not None else low(z3.simplify(x.arg(0)))
                elif k == z3.Z3_OP_CONCAT:
                    l = x.arg(x.num_args() - 1)
                    t = low(l)
                    if t is not None:
                        ok = all(bit31(c, t) for c in x.children()[:-1]) or (
                            x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0)
                        if not ok:
                            t = None
            if t is not None:
                r = go(t)
            else:
                ch = [go(c) for c in x.children()]
                if any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = x.decl()(*ch)
        memo[i] = (r, x)
        return r
    return go(e) if is_sym(e) and term_size(e, 2000) < 2000 else e


SMALL = 1 << 44


def split_index(eng, d, step, kk):
    """d = step*q + r syntactically with |q| provably small: (q, r), else None"""
    import ring
    if not is_sym(d) or not getattr(eng, 'split', False):
        return None
    if step >= 1 << 16:
        return None
    atoms = {}
    try:
        p = ring.poly(d, 64, atoms, lambda c: None)
    except ring.TooBig:
        return None
    q = z3.BitVecVal(0, 64)
    rem = 0
    for m, v in p.items():
        sv = tosigned(v, 64)
        if len(m) == 0:
            rem = sv % step
            q = q + z3.BitVecVal((sv // step) & mask(64), 64)
            continue
        if sv % step:
            return None
        t = z3.BitVecVal((sv // step) & mask(64), 64)
        for x in m:
            t = t * atoms[x]
        q = q + t
    q = z3.simplify(q)
    key = ('split', q.get_id(), kk.get_id(), tuple(x.get_id() for x in eng.st.pc), len(eng.facts))
    c = eng.feas_cache.get(key)
    if c is None:
        ok = eng.valid(z3.And(z3.ULT(q + z3.BitVecVal(SMALL, 64), z3.BitVecVal(2 * SMALL, 64)), z3.ULT(kk, z3.BitVecVal(SMALL, 64))), 1500)
        c = eng.feas_cache[key] = (ok, q, kk, eng.st.pc)
    if not c[0]:
        return None
    return fold(q), rem


def has_decl(e, x):
    return x.decl() in consts_of(e)


def unsolved_except(e, c, pend):
    ds = consts_of(e)
    for o in pend.values():
        if o is not c and o.sym.decl() in ds:
            return True
    return False


def flat(v, path=()):
    """leaves of a value including the lengths and generic elements of nested sequences"""
    if isinstance(v, Rec):
        for f in sorted(v.f):
            yield from flat(v.f[f], path + (f,))
    elif isinstance(v, Opt):
        yield from flat(v.has, path + ('?has',))
        yield from flat(v.v, path + ('?',))
    elif isinstance(v, VecS):
        yield path + ('#n',), v.n
        jj = z3.BitVec('flat_j%d' % len(path), 64)
        yield from flat(v.get(jj), path + ('#e',))
    elif isinstance(v, Vec):
        for i, x in enumerate(v.xs):
            yield from flat(x, path + (i,))
    else:
        yield path, v


def lin_closed(x0, delta, k, w):
    kw = k if w == 64 else (z3.Extract(w - 1, 0, k) if w < 64 else z3.ZeroExt(w - 64, k))
    x0z = bv(x0, w)
    if not is_sym(delta):
        if delta == 0:
            return x0z
        if delta == 1:
            return z3.simplify(x0z + kw)
        return z3.simplify(x0z + z3.BitVecVal(delta, w) * kw)
    return x0z + delta * kw


def fold_closed(eng, c, v2, x0, isb, w, k, fin):
    """x' = x op e(k): the running fold is a function symbol with its defining equations"""
    srt = z3.BoolSort() if isb else z3.BitVecSort(w)
    name = 'fold_' + c.name().replace('.', '_')
    if isb:
        a, b = simp(z3.substitute(v2, (c.sym, z3.BoolVal(False)))), simp(z3.substitute(v2, (c.sym, z3.BoolVal(True))))
        if b is True and a is not True:
            op, e = 'or', a
        elif a is False and b is not False:
            op, e = 'and', b
        elif simp(zb(a) == zb(lnot(b))) is True:
            op, e = 'xor', a
        else:
            op, e = None, None
    else:
        d = simp(v2 ^ c.sym)
        d2 = simp(v2 - c.sym)
        if is_sym(d) and c.sym.decl() not in consts_of(d):
            op, e = 'xor', d
        elif is_sym(d2) and c.sym.decl() not in consts_of(d2):
            op, e = 'add', d2
        else:
            op, e = None, None
    F = z3.Function(fresh_name(name), z3.BitVecSort(64), srt)
    stepk = z3.substitute(v2, (c.sym, F(k)))
    # the step, with every other symbol in closed form (fin replaces c.sym too if solved; it is not yet)
    stepk = fin(stepk)
    x0z = zb(x0) if isb else bv(x0, w)
    eng.facts.append(F(z3.BitVecVal(0, 64)) == x0z)
    inst = lambda kk: F(bv(kk, 64) + 1) == z3.substitute(stepk, (k, bv(kk, 64)))
    eng.folds.append({'F': F, 'op': op, 'x0': x0, 'e': (fin(e) if e is not None and is_sym(e) else e), 'k': k, 'inst': inst, 'name': c.name()})
    eng.facts.append(inst(k))
    return F(k)


def trip_count(eng, ck, k):
    """K with: condition holds exactly for the iterations k < K (proved by the caller)"""
    ck0 = ck
    if isinstance(ck, bool):
        return None
    e = ck
    neg = False
    while z3.is_not(e):
        e = e.arg(0)
        neg = not neg
    kind = e.decl().kind()
    if kind == z3.Z3_OP_ITE and (z3.is_false(e.arg(2)) if not neg else z3.is_true(e.arg(2))):
        # short circuit
        b = z3.Not(e.arg(1)) if neg else e.arg(1)
        return trip_count(eng, z3.And(e.arg(0), b), k)
    if kind == (z3.Z3_OP_OR if neg else z3.Z3_OP_AND):
        # a conjunction holds as long as its shortest conjunct does
        best = None
        for i in range(e.num_args()):
            ki = trip_count(eng, z3.Not(e.arg(i)) if neg else e.arg(i), k)
            if ki is None:
                return None
            ki = bv(ki, 64)
            best = ki if best is None else z3.If(z3.ULT(ki, best), ki, best)
        return simp(best) if best is not None else None
    if e.num_args() != 2:
        return None
    a, b = e.arg(0), e.arg(1)
    M = {z3.Z3_OP_ULT: '<', z3.Z3_OP_ULEQ: '<=', z3.Z3_OP_UGT: '>', z3.Z3_OP_UGEQ: '>=', z3.Z3_OP_SLT: 's<', z3.Z3_OP_SLEQ: 's<=', z3.Z3_OP_SGT: 's>', z3.Z3_OP_SGEQ: 's>=', z3.Z3_OP_EQ: '==', z3.Z3_OP_DISTINCT: '!='}
    op = M.get(kind)
    if op is None or not isinstance(a, z3.BitVecRef):
        return None
    if neg:
        op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', 's<': 's>=', 's<=': 's>', 's>': 's<=', 's>=': 's<', '==': '!=', '!=': '=='}[op]
    sg = op.startswith('s')
    op = op.lstrip('s')
    w = a.size()

    def affine(t):
        st = simp(z3.substitute(t, (k, k + 1)) - t)
        if isinstance(st, int):
            return st
        # sign/zero extensions hide the affine shape: look underneath
        u = None
        if t.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
            u = t.arg(0)
        elif t.decl().kind() == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0:
            u = t.arg(1)
        if u is not None:
            st = simp(z3.substitute(u, (k, k + 1)) - u)
            if not isinstance(st, int) and u.decl().kind() == z3.Z3_OP_EXTRACT and u.params()[1] == 0:
                v = u.arg(0)
                st = simp(z3.substitute(v, (k, k + 1)) - v)
                if isinstance(st, int):
                    st &= mask(u.size())
            if isinstance(st, int):
                return tosigned(st, u.size()) & mask(w)
        return None
    ka, kb = has_decl(a, k), has_decl(b, k)
    if ka and not kb:
        x, n = a, b
    elif kb and not ka:
        x, n = b, a
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
    else:
        return None
    c = affine(x)
    if c is None:
        return None
    c = tosigned(c, w)
    x0 = z3.simplify(z3.substitute(x, (k, z3.BitVecVal(0, 64))))

    def lt(p, q):
        return (p < q) if sg else z3.ULT(p, q)

    def ext(t):
        return t if w == 64 else z3.ZeroExt(64 - w, t)
    zero = z3.BitVecVal(0, 64)
    if op == '!=' and c == 1:
        return simp(ext(n - x0))
    if op == '!=' and c == -1:
        return simp(ext(x0 - n))
    if op == '!=' and c > 1:
        return simp(z3.UDiv(ext(n - x0), z3.BitVecVal(c, 64)) if c & (c - 1) else z3.LShR(ext(n - x0), c.bit_length() - 1))
    if c > 0 and op in ('<', '<='):
        d = ext(n - x0)
        if op == '<=':
            d = d + 1
            g = z3.Not(lt(n, x0))
        else:
            g = lt(x0, n)
        if c > 1:
            d = d + (c - 1)
            d = z3.LShR(d, c.bit_length() - 1) if c & (c - 1) == 0 else z3.UDiv(d, z3.BitVecVal(c, 64))
        return simp(z3.If(g, d, zero))
    if c < 0 and op in ('>', '>='):
        m = -c
        d = ext(x0 - n)
        if op == '>=':
            d = d + 1
            g = z3.Not(lt(x0, n))
        else:
            g = lt(n, x0)
        if m > 1:
            d = d + (m - 1)
            d = z3.LShR(d, m.bit_length() - 1) if m & (m - 1) == 0 else z3.UDiv(d, z3.BitVecVal(m, 64))
        return simp(z3.If(g, d, zero))
    return None
