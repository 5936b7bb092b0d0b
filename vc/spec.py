"""Specification support: tasks, contracts, proof helpers shared by the files in /verif/specs."""
import os
import sys
import time
import traceback
import z3
from core import *
import core
import interp
from interp import Eng, TU, Call, Obligation
from loops import prove_equal

TASKS = []          # dict(prop, name, fn, drivers, tier, kw)
_TUS = {}
TU_DIR = [None]
QUICK, THOROUGH = 'quick', 'thorough'


def task(prop, driver, name=None, tier=QUICK, bounded=None, timeout=240, cases=None):
    """register a proof task.  prop: id or list of ids.  bounded: text of the bound when shapes are enumerated"""
    props = [prop] if isinstance(prop, str) else list(prop)
    drivers = [driver] if isinstance(driver, str) else list(driver)

    def deco(fn):
        for c in (cases or [()]):
            cc = c if isinstance(c, tuple) else (c,)
            tr = tier(*cc) if callable(tier) else tier
            bd = bounded(*cc) if callable(bounded) else bounded
            TASKS.append(dict(props=props, name=(name or fn.__name__) + (('[' + ','.join(map(str, cc)) + ']') if cc else ''), fn=fn, args=cc,
                              drivers=drivers, tier=tr, bounded=bd, timeout=timeout(*cc) if callable(timeout) else timeout))
        return fn
    return deco


def tu(driver):
    if driver not in _TUS:
        _TUS[driver] = TU(os.path.join(TU_DIR[0], driver + '.json'))
    return _TUS[driver]


class T:
    """one running task"""

    def __init__(self, name, tier='quick'):
        self.name = name
        self.tier = tier
        self.engs = []

    def eng(self, driver, **kw):
        e = Eng(tu(driver), **kw)
        e.fname = self.name
        self.engs.append(e)
        return e


def run_task(t, tier='quick'):
    """run one task to a plain-data result"""
    ctx = T(t['name'], tier)
    t0 = time.time()
    err = None
    try:
        t['fn'](ctx, *t['args'])
    except Unsupported as ex:
        err = 'outside the verifier: %s' % ex
    except Dead:
        err = 'specification path ended early (dead)'
    except RecursionError:
        err = 'outside the verifier: recursion limit'
    except MemoryError:
        err = 'outside the verifier: memory'
    except z3.Z3Exception as ex:
        err = 'solver: %s' % ex
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()
    except Exception as ex:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        err = 'verifier error: %s: %s (%s)' % (type(ex).__name__, ex, where)
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()
    obl = []
    res = dict(name=t['name'], error=err, bounded=t['bounded'], inlined=set(), contracts=set(), models=set(), assumed=[], partial=[], loop_fail=[],
               covers=[], solver=0.0, queries=0, wall=0.0, consts=[])
    for e in ctx.engs:
        for o in e.obls:
            m = None
            if o.status == 'refuted' and o.model is not None:
                m, cs = render_model(o.model)
                res['consts'] += cs
            obl.append((o.name, o.status, round(o.secs, 3), o.kind, m))
        res['inlined'] |= e.inlined
        res['contracts'] |= e.used_contracts
        res['models'] |= e.used_models
        res['assumed'] += e.assumed
        res['partial'] += e.partial
        res['loop_fail'] += e.loop_fail
        res['covers'] += e.covers
        res['solver'] += e.solver_time
        res['queries'] += e.queries
    res['obl'] = obl
    res['wall'] = time.time() - t0
    if not obl and not err:
        res['error'] = 'no obligations were generated'
    return res


def render_model(m, limit=60):
    out = []
    cs = []
    for d in sorted(m.decls(), key=lambda d: d.name()):
        v = m[d]
        if d.arity() == 0:
            out.append('%s = %s' % (d.name(), v))
            if z3.is_bv_value(v):
                cs.append(v.as_long())
        elif len(out) < limit:
            s = str(v).replace('\n', ' ')
            out.append('%s = %s' % (d.name(), s[:300]))
            try:
                for i in range(v.num_entries()):
                    x = v.entry(i).value()
                    if z3.is_bv_value(x):
                        cs.append(x.as_long())
            except Exception:
                pass
    return '\n'.join(out[:limit]), cs[:200]


# ---------------------------------------------------------------- objects and calls
def rec_q(eng, q, pred=None):
    c = [r for r in eng.tu.recs.values() if r['q'] == q and (pred is None or pred(r))]
    if not c:
        raise Unsupported('record %s not found' % q)
    return c[0]


def rec_c(eng, cname):
    return eng.tu.find_rec(cname)


def mkobj(eng, r, sym=(), **fields):
    """object of record r; the named fields get values, those in sym fresh symbols, the rest default"""
    v = {}
    for n, t in eng.tu.fields(r['id']):
        if n in fields:
            v[n] = fields[n]
        elif sym is True or n in sym:
            v[n] = eng.symbolic(t, n)
        else:
            v[n] = default_safe(eng, t)
    for k in fields:
        if k not in v:
            raise Unsupported('record %s has no field %s' % (r['q'], k))
    return Rec(r['id'], v)


def default_safe(eng, t):
    ty = eng.types[t]
    try:
        if ty['k'] == 'rec' and not eng.std.is_std(ty):
            return Undef
        if ty['k'] in ('ref',):
            return Undef
        if ty['k'] in ('bool', 'int', 'vec', 'flt'):
            return Undef
        return eng.default(t)
    except Unsupported:
        return Undef


def has_field(eng, r, n):
    return any(f == n for f, _ in eng.tu.fields(r['id']))


def ptype(eng, p):
    t = eng.types[p['t']]
    return t['e'] if t['k'] == 'ref' else p['t']


class ByRef:
    """an argument object that already lives in memory"""

    def __init__(self, p):
        self.p = p


def pass_arg(eng, p, v):
    if isinstance(v, ByRef):
        return v.p
    t = eng.types[p['t']]
    if t['k'] == 'ref':
        return eng.alloc(v, p['n'] or 'arg', t['e'])
    return v


def sym_args(eng, f, names=None):
    out = []
    for k, p in enumerate(f['ps']):
        out.append(eng.symbolic(ptype(eng, p), (names[k] if names else p['n']) or 'a%d' % k))
    return out


def call(eng, f, this, vals):
    """call f with argument values; returns (alive, value, thrown)"""
    args = [pass_arg(eng, p, v) for p, v in zip(f['ps'], vals)]
    return eng.run(lambda: eng.call_fn(f, this, args))


def callv(eng, f, this, vals, what='call'):
    """call that must return normally on every path (a throw is a failed obligation)"""
    st0 = eng.st
    alive, val, th = call(eng, f, this, vals)
    for t in th:
        eng.prove('%s does not throw %s' % (what, t.ty), False, pc=t.st.pc)
    if not alive:
        raise Dead()
    if isinstance(val, Ptr) and eng.types[f['ret']]['k'] == 'ref':
        val = eng.load(val)
    return val


def fn(eng, q, nparams=None, pred=None, rec=None):
    return eng.find_fn(q, nparams=nparams, pred=pred, rec=rec)


def pname(eng, f, k):
    return eng.tu.tname(f['ps'][k]['t'])


class each:
    """with each(eng, vec) as j: an arbitrary index j of vec, its bound assumed"""

    def __init__(self, eng, n, name='ix', narrow=False):
        self.eng = eng
        self.narrow = narrow      # an index known to fit 32 bits
        self.n = vlen(n) if isinstance(n, (Vec, VecS)) else n

    def __enter__(self):
        e = self.eng
        self.save = e.st
        e.st = e.st.copy()
        self.j = z3.ZeroExt(32, z3.BitVec(fresh_name('ix'), 32)) if self.narrow else e.skolem()
        if self.narrow:
            e.inst_terms.append(self.j)
        e.st.pc = e.st.pc + (z3.ULT(self.j, bv(self.n, 64)),)
        return self.j

    def __exit__(self, *a):
        self.eng.st = self.save


def each_of(e, n, narrow=True):
    """every index of a concrete size one by one, or one arbitrary index of a symbolic size"""
    if isinstance(n, int):
        for i in range(n):
            yield z3.BitVecVal(i, 64)
    else:
        with each(e, n, narrow=narrow) as j:
            yield j


class under:
    """with under(eng, cond): the path where cond holds"""

    def __init__(self, eng, c):
        self.eng = eng
        self.c = c

    def __enter__(self):
        e = self.eng
        self.save = e.st
        e.st = e.st.copy()
        c = simp(self.c)
        if c is not True:
            e.st.pc = e.st.pc + (zb(c),)

    def __exit__(self, *a):
        self.eng.st = self.save


def at(v, j):
    return vget_loose(v, j)


def throws_iff(eng, th, alive_pc, cond, what):
    """every thrown path implies cond, and the normal path excludes it"""
    for t in th:
        eng.prove('%s: throws only when it must' % what, cond, pc=t.st.pc)
    if alive_pc is not None:
        eng.prove('%s: rejected input never gets through' % what, lnot(cond), pc=alive_pc)


def xor_all(xs):
    r = xs[0]
    for x in xs[1:]:
        r = lxor(r, x) if isinstance(x, (bool, z3.BoolRef)) else binop('^', r, x, x.size() if is_sym(x) else 64, False)
    return r


def add_all(xs, w=64):
    r = xs[0]
    for x in xs[1:]:
        r = binop('+', r, x, w, False)
    return r


def lemma(T_, driver, name, hyps, goal):
    e = T_.eng(driver)
    e.st.pc = tuple(zb(h) for h in hyps)
    e.prove(name, goal, kind='lemma')


def apps_of(es, f):
    """applications of the uninterpreted function f inside the terms es"""
    out, seen = [], set()
    st = [e for e in es if is_sym(e)]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(f):
                out.append(x)
            st.extend(x.children())
    return out
