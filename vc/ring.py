"""Decision procedure for polynomial identities modulo 2^w under equational hypotheses (sum of terms / Beaver algebra)."""
import z3


class TooBig(Exception):
    pass


def poly(e, w, atoms, res, depth=0):
    """multivariate polynomial: dict monomial(tuple of atom ids, sorted) -> coefficient mod 2^w"""
    M = (1 << w) - 1
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        r = None
        if z3.is_bv_value(x):
            v = x.as_long() & M
            r = {(): v} if v else {}
        elif z3.is_app(x):
            k = x.decl().kind()
            ch = x.children()
            if k == z3.Z3_OP_BADD:
                r = {}
                for c in ch:
                    for m, v in go(c).items():
                        s = (r.get(m, 0) + v) & M
                        if s:
                            r[m] = s
                        else:
                            r.pop(m, None)
            elif k == z3.Z3_OP_BSUB:
                r = dict(go(ch[0]))
                for c in ch[1:]:
                    for m, v in go(c).items():
                        s = (r.get(m, 0) - v) & M
                        if s:
                            r[m] = s
                        else:
                            r.pop(m, None)
            elif k == z3.Z3_OP_BNEG:
                r = {m: (-v) & M for m, v in go(ch[0]).items()}
            elif k == z3.Z3_OP_BMUL:
                r = {(): 1}
                for c in ch:
                    r = mul(r, go(c), M)
            elif k == z3.Z3_OP_ITE:
                d = res(ch[0])
                if d is not None:
                    r = go(ch[1] if d else ch[2])
        if r is None:
            a = canon(x, res)
            if a.get_id() != i:
                r = go(a)
            else:
                atoms[i] = x
                r = {(i,): 1}
        memo[i] = r
        return r
    return go(e)


def mul(a, b, M):
    r = {}
    if len(a) * len(b) > 20000:
        raise TooBig()
    for m, v in a.items():
        for n, u in b.items():
            k = tuple(sorted(m + n))
            s = (r.get(k, 0) + v * u) & M
            if s:
                r[k] = s
            else:
                r.pop(k, None)
    return r


def canon(x, res):
    y = z3.simplify(x)
    return y if y.sort() == x.sort() else x


def subst_atom(p, a, q, M):
    """replace atom a by polynomial q"""
    r = {}
    for m, v in p.items():
        n = m.count(a)
        if n == 0:
            t = {m: v}
        else:
            t = {tuple(x for x in m if x != a): v}
            for _ in range(n):
                t = mul(t, q, M)
        for k, u in t.items():
            s = (r.get(k, 0) + u) & M
            if s:
                r[k] = s
            else:
                r.pop(k, None)
    return r


def prove_eq(goal, hyps, res):
    """goal: z3 Eq over bit-vectors; hyps: list of z3 Eq terms over the same width known to hold"""
    if not z3.is_eq(goal):
        return False
    a, b = goal.arg(0), goal.arg(1)
    if not isinstance(a, z3.BitVecRef):
        return False
    w = a.size()
    M = (1 << w) - 1
    atoms = {}
    try:
        g = poly(a - b, w, atoms, res)
        if not g:
            return True
        hs = []
        for h in hyps:
            x, y = h.arg(0), h.arg(1)
            if isinstance(x, z3.BitVecRef) and x.size() == w:
                hs.append(poly(x - y, w, atoms, res))
        hs = [h for h in hs if h and len(h) < 400]
        # eliminate: each hypothesis solves for an atom occurring once, linearly, with coefficient +-1
        used = 0
        while hs and used < 200:
            used += 1
            ga = {x for m in g for x in m}
            best = None
            for hi, h in enumerate(hs):
                cnt = {}
                for m in h:
                    for x in set(m):
                        cnt[x] = cnt.get(x, 0) + 1
                for m, v in h.items():
                    if len(m) == 1 and v in (1, M) and cnt[m[0]] == 1:
                        pri = (m[0] in ga, -len(h), m[0])
                        if best is None or pri > best[0]:
                            best = (pri, hi, m[0], v)
            if best is None:
                break
            _, hi, x, v = best
            h = hs.pop(hi)
            q = {m: ((-u) & M if v == 1 else u) for m, u in h.items() if m != (x,)}
            g = subst_atom(g, x, q, M)
            if not g:
                return True
            hs = [t for t in (subst_atom(t, x, q, M) for t in hs) if t]
        return not g
    except TooBig:
        return False
