"""Entailment between guards.

`prove(g, phi)` asks whether every state satisfying the guard g satisfies phi.  It looks for an assignment of the
atoms that satisfies g and not phi, and discards the ones whose integer literals describe an empty polyhedron
(Fourier-Motzkin over the monomials, with the defining inequalities of floor divisions) or whose key
equalities clash.  The first surviving assignment is the reported counter-witness.
"""
import contextlib
import time
from fractions import Fraction
from math import gcd
from dd import *
import dd
from interp import lit_bounds, feasible_lits, SOFT, TOPT


class Budget(Exception):
    pass


# ---------------------------------------------------------------- named values
_hasdef = {}


def term_hasdef(t):
    r = _hasdef.get(t.id)
    if r is None:
        r = t.op == 'def' or any(arg_hasdef(a) for a in t.args)
        _hasdef[t.id] = r
    return r


def arg_hasdef(a):
    if isinstance(a, Term):
        return term_hasdef(a)
    if isinstance(a, Poly):
        return any(term_hasdef(Term.all[i]) for k, _ in a.m for i in k)
    if isinstance(a, tuple):
        return any(arg_hasdef(x) for x in a)
    return False


def vlift(key, f, *args):
    return applyn(key, f, list(args)) if len(args) > 1 else apply1(key, f, args[0])


_et = {}


def expand_term(t):
    """DD of the value of term t with every named value replaced by its definition"""
    r = _et.get(t.id)
    if r is None:
        if not term_hasdef(t):
            r = leaf(pterm(t)) if (t.lo is not None or t.hi is not None or t.op in ('def', 'div')) else leaf(t)
        elif t.op == 'def':
            r = expand_node(t.args[0])
        else:
            idx = [i for i, a in enumerate(t.args) if arg_hasdef(a)]
            subs = [expand_arg(t.args[i]) for i in idx]

            def rb(*xs):
                a = list(t.args)
                for i, x in zip(idx, xs):
                    a[i] = x
                if t.op == 'div':
                    return leaf(pdiv(a[0], a[1]))
                nt = T(t.op, *a, lo=t.lo, hi=t.hi)
                return leaf(pterm(nt)) if nt.lo is not None or nt.hi is not None else leaf(nt)
            r = applyn(('xt', t.id), rb, subs)
        _et[t.id] = r
    return r


def expand_arg(a):
    if isinstance(a, Poly):
        return expand_poly(a)
    if isinstance(a, Term):
        return expand_term(a)
    return leaf(a)


_ep = {}


def expand_poly(p):
    r = _ep.get(p.id)
    if r is None:
        if not arg_hasdef(p):
            r = leaf(p)
        else:
            r = None
            for k, c in p.m:
                m = leaf(pconst(c))
                for i in k:
                    t = Term.all[i]
                    v = expand_term(t) if term_hasdef(t) else leaf(pterm(t))
                    m = apply2('xmul', lambda x, y: leaf(pmul(x, y)), m, v)
                r = m if r is None else apply2('xadd', lambda x, y: leaf(padd(x, y)), r, m)
        _ep[p.id] = r
    return r


_xa = {}


def expand_atom(v):
    r = _xa.get(v)
    if r is None:
        a = ATOMS[v]
        if a[0] == 'ge' and arg_hasdef(a[1]):
            r = apply1(('xge', a[2]), lambda p: GE0(padd(p, pconst(a[2]), -1)), expand_poly(a[1]))
        elif a[0] == 'b' and term_hasdef(a[1]):
            t = expand_term(a[1])
            r = apply1('xb', lambda x: BOOLT(x) if isinstance(x, Term) else litnode(v), t)
        else:
            r = litnode(v)
        _xa[v] = r
    return r


_xn = {}


def expand_node(n):
    if isleaf(n):
        v = VAL[n]
        if isinstance(v, Poly):
            return expand_poly(v)
        if isinstance(v, Term) and term_hasdef(v):
            return expand_term(v)
        return n
    r = _xn.get(n)
    if r is None:
        r = ite(expand_atom(VAR[n]), expand_node(HI[n]), expand_node(LO[n]))
        _xn[n] = r
    return r


# ---------------------------------------------------------------- substitution
def subst_node(n, tid, q, cache=None):
    """replace the scalar term tid by polynomial q in every atom and leaf of a diagram"""
    cache = {} if cache is None else cache

    def go(x):
        r = cache.get(x)
        if r is None:
            if isleaf(x):
                v = VAL[x]
                r = leaf(psubst(v, tid, q)) if isinstance(v, Poly) else x
            else:
                a = ATOMS[VAR[x]]
                if a[0] == 'ge' and occurs(a[1], tid):
                    c = GE0(padd(psubst(a[1], tid, q), pconst(a[2]), -1))
                else:
                    c = litnode(VAR[x])
                r = ite(c, go(HI[x]), go(LO[x]))
            cache[x] = r
        return r
    return go(n)


def subst_many(n, sub):
    """replace several scalar terms {tid: polynomial} at once"""
    cache = {}

    def ps(p):
        for tid, q in sub.items():
            if occurs(p, tid):
                p = psubst(p, tid, q)
        return p

    def go(x):
        r = cache.get(x)
        if r is None:
            if isleaf(x):
                v = VAL[x]
                r = leaf(ps(v)) if isinstance(v, Poly) else x
            else:
                a = ATOMS[VAR[x]]
                c = None
                if a[0] == 'ge':
                    p = ps(a[1])
                    if p is not a[1]:
                        c = GE0(padd(p, pconst(a[2]), -1))
                if c is None:
                    c = litnode(VAR[x])
                r = go(HI[x]) if c == TR else go(LO[x]) if c == F else ite(c, go(HI[x]), go(LO[x]))
            cache[x] = r
        return r
    return go(n)


def pin_zero(a, sup):
    """for every variable x >= 0 that is compared with 1 in `sup`: use x = 0 in the part of the diagram where x < 1"""
    for v in sorted(sup):
        t = ATOMS[v]
        if t[0] != 'ge' or t[2] != 1 or len(t[1].m) != 1:
            continue
        (k, c), = t[1].m
        if c != 1 or len(k) != 1 or Term.all[k[0]].lo != 0:
            continue
        z = subst_node(a, k[0], P0)
        if z != a:
            a = ite(litnode(v), a, z)
    return a


def equal_under(g, a, b):
    """cheap equality test of two values under a guard, up to definitions and zero cases"""
    return normal_pair(g, a, b) is None


def project(g, a, b):
    """a without the conditions that, under g, follow from the amounts involved: conditions foreign to b and to the values of a and b"""
    terms = set()
    for x in leafset(a) + leafset(b):
        if isinstance(x, Poly):
            deep_terms(x, terms)
    foreign = lambda vs: {v for v in vs - support(b) if not atom_terms(v) & terms}
    if not foreign(support(a)) or size(a) > 5000:
        return a
    drop = foreign(support(g) | support(a))
    parts = []
    try:
        with allowance():
            for val, c in leaves(a):
                parts.append((leaf(val), exists(AND(g, c), drop)))
            r, seen = None, F
            for val, c in parts:
                if AND(seen, c) != F:
                    return a
                seen = OR(seen, c)
            r = parts[0][0]
            for val, c in parts[1:]:
                r = ite(c, val, r)
            r = restrict(r, seen)
    except TooBig:
        return a
    return r if size(r) < size(a) else a


def normal_pair(g, a, b):
    """None if the two values are syntactically equal under the guard, else simplified versions of them"""
    if any(x is TOPT for x in leafset(ite(g, a, F))):
        return a, b
    if ite(g, a, F) == ite(g, b, F):
        return None
    g, a, b = expand_node(g), expand_node(a), expand_node(b)
    if ite(g, a, F) == ite(g, b, F):
        return None
    f = forced(g)
    a, b = cofactor(a, f), cofactor(b, f)
    a = project(g, a, b)
    b = project(g, b, a)
    sup = support(a) | support(b)
    if size(a) > 20000 or size(b) > 20000:
        return a, b
    a, b = pin_zero(a, sup), pin_zero(b, sup)
    if ite(g, a, F) == ite(g, b, F):
        return None
    sup = support(a) | support(b)
    a1, b1 = pin_ties(a, sup), pin_ties(b, sup)
    if a1 is not None and b1 is not None:
        a, b = a1, b1
    if ite(g, a, F) == ite(g, b, F):
        return None
    return a, b


def pin_ties(a, sup):
    """where two compared values are equal (p = k, both p >= k and p >= k + 1 being tested) use one of them for the other"""
    for v in sorted(sup):
        t = ATOMS[v]
        if t[0] != 'ge':
            continue
        p, k = t[1], t[2]
        up = GE0(padd(p, pconst(k + 1), -1))
        if isleaf(up) or VAR[up] not in sup:
            continue
        best = None
        for m, c in p.m:
            if len(m) == 1 and abs(c) == 1 and not any(m2 != m and any(occurs(pterm(Term.all[j]), m[0]) for j in m2) for m2, _ in p.m):
                cand = (Term.all[m[0]].op == 'div', m[0])
                if best is None or cand < best[0]:
                    rest = mkpoly({mm: cc for mm, cc in p.m if mm != m})
                    rest = padd(pconst(k), rest, -1)
                    best = (cand, m[0], rest if c == 1 else pscale(rest, -1))
        if best is None:
            continue
        z = subst_node(a, best[1], best[2])
        if z != a:
            a = ite(AND(litnode(v), NOT(up)), z, a)
        if size(a) > 20000:
            return None
    return a


# ---------------------------------------------------------------- terms of an atom
_at = {}


def deep_terms(p, out):
    for k, _ in p.m:
        for i in k:
            if i not in out:
                out.add(i)
                t = Term.all[i]
                for a in t.args:
                    if isinstance(a, Poly):
                        deep_terms(a, out)


def atom_terms(v):
    r = _at.get(v)
    if r is None:
        a = ATOMS[v]
        r = set()
        if a[0] == 'ge':
            deep_terms(a[1], r)
        elif a[0] == 'eq':
            r = {a[1].id, a[2].id}
        else:
            r = {a[1].id}
        _at[v] = r
    return r


# ---------------------------------------------------------------- linear reasoning
class Lin:
    """conjunction of p >= 0 constraints over monomials"""

    def __init__(self):
        self.cs = []


def rows_of(lits):
    rows = []
    for v, pos in lits.items():
        a = ATOMS[v]
        if a[0] != 'ge':
            continue
        if pos:
            rows.append(padd(a[1], pconst(a[2]), -1))
        else:
            rows.append(padd(pconst(a[2] - 1), a[1], -1))
    return rows


def psubst(p, tid, q):
    """replace term tid by polynomial q everywhere in p (also inside divisions)"""
    if not occurs(p, tid):
        return p
    r = P0
    for k, c in p.m:
        m = pconst(c)
        for i in k:
            if i == tid:
                m = pmul(m, q)
            else:
                t = Term.all[i]
                if t.op == 'div' and (occurs(t.args[0], tid) or occurs(t.args[1], tid)):
                    nb = psubst(t.args[1], tid, q)
                    if nb.const == 0:
                        m = pmul(m, pterm(t))
                    else:
                        m = pmul(m, pdiv(psubst(t.args[0], tid, q), nb))
                elif t.op != 'div' and any(isinstance(a, Poly) and occurs(a, tid) for a in t.args):
                    m = pmul(m, pterm(T(t.op, *[psubst(a, tid, q) if isinstance(a, Poly) else a for a in t.args], lo=t.lo, hi=t.hi)))
                else:
                    m = pmul(m, pterm(t))
        r = padd(r, m)
    return r


_occ = {}


def occurs(p, tid):
    k = p.id
    s = _occ.get(k)
    if s is None:
        s = set()
        deep_terms(p, s)
        _occ[k] = s
    return tid in s


def div_facts(rows, limit=40):
    """defining inequalities of the floor divisions that occur (divisors are non-zero wherever the value exists)"""
    seen = set()
    out = []
    work = list(rows)
    while work and len(seen) < limit:
        p = work.pop()
        for k, _ in p.m:
            for i in k:
                if i in seen:
                    continue
                t = Term.all[i]
                if t.op == 'calculate_fee':
                    seen.add(i)
                    out.append(padd(t.args[1], pterm(t), -1))    # the fee never exceeds the amount
                    work.append(t.args[1])
                    continue
                if t.op != 'div':
                    continue
                seen.add(i)
                a, b = t.args
                out += sign_facts(a, rows)
                q = pterm(t)
                bq = pmul(b, q)
                f1 = padd(a, bq, -1)                       # a - b*q >= 0
                f2 = padd(padd(padd(bq, b), P1, -1), a, -1)   # b*q + b - 1 - a >= 0
                out += [f1, f2]
                work += [f1, f2]
    return out


def sign_facts(a, rows):
    """a >= 0 when a is a product of a non-negative variable and a difference known to be non-negative"""
    lo = prange(a)[0]
    if lo is not None and lo >= 0 or not a.m:
        return []
    common = set(a.m[0][0])
    for k, _ in a.m[1:]:
        common &= set(k)
    for z in common:
        t = Term.all[z]
        if t.lo is None or t.lo < 0:
            continue
        d = {}
        for k, c in a.m:
            k = list(k)
            k.remove(z)
            d[tuple(k)] = c
        g = 0
        for c in d.values():
            g = gcd(g, c)
        r = mkpoly({k: c // g for k, c in d.items()})
        for x in rows:
            e = padd(r, x, -1)
            if e.const is not None and e.const >= 0:
                return [a]
        lo = prange(r)[0]
        if lo is not None and lo >= 0:
            return [a]
    return []


def norm_row(p):
    """divide by content, tighten constant (integers)"""
    g = 0
    c0 = 0
    for k, c in p.m:
        if k == ():
            c0 = c
        else:
            g = gcd(g, c)
    if g > 1:
        return mkpoly({**{k: c // g for k, c in p.m if k != ()}, (): c0 // g})
    return p


def pinned(rows):
    """a variable that its range and the single-variable rows fix to one value"""
    b = {}
    for r in rows:
        nz = [(k, c) for k, c in r.m if k != ()]
        if len(nz) != 1 or len(nz[0][0]) != 1:
            continue
        k, c = nz[0]
        c0 = dict(r.m).get((), 0)
        t = Term.all[k[0]]
        lo, hi = b.get(k[0], (t.lo, t.hi))
        if c > 0:
            x = -(c0 // c)
            lo = x if lo is None else max(lo, x)
        else:
            x = c0 // (-c)
            hi = x if hi is None else min(hi, x)
        b[k[0]] = (lo, hi)
        if lo is not None and lo == hi:
            return (k[0], pconst(lo), t, None)
    return None


def fm_empty(rows, maxrows=400, maxvars=60):
    """True if the polyhedron {row >= 0} together with the variable ranges is certainly empty over the integers"""
    rows = [norm_row(r) for r in rows]
    # Gaussian step: equalities p>=0 and -p>=0
    for _ in range(30):
        s = set(r.id for r in rows)
        eq = None
        for r in rows:
            c = r.const
            if c is not None:
                if c < 0:
                    return True
                continue
            n = pscale(r, -1)
            if n.id in s:
                # pick a term with coefficient +-1 that is a lone linear monomial and not elsewhere inside r
                for k, c in r.m:
                    if len(k) == 1 and abs(c) == 1:
                        cnt = sum(1 for k2, _ in r.m if k[0] in k2)
                        t = Term.all[k[0]]
                        if cnt == 1 and not any(k2 != k and any(occurs(pterm(Term.all[j]), k[0]) for j in k2) for k2, _ in r.m):
                            cand = (t.op == 'div', t.id)
                            if eq is None or cand < eq[3]:
                                rest = mkpoly({kk: cc for kk, cc in r.m if kk != k})
                                eq = (k[0], pscale(rest, -1) if c == 1 else rest, t, cand)
                if eq:
                    break
        if eq is None:
            eq = pinned(rows)
        if eq is None:
            break
        tid, q, t, _ = eq
        lo, hi = t.lo, t.hi
        extra = []
        if lo is not None:
            extra.append(padd(q, pconst(lo), -1))
        if hi is not None:
            extra.append(padd(pconst(hi), q, -1))
        rows = [norm_row(psubst(r, tid, q)) for r in rows] + [norm_row(x) for x in extra]
        rows = list({r.id: r for r in rows if not (r.const is not None and r.const >= 0)}.values())
    rows = rows + div_facts(rows)
    rows = [norm_row(r) for r in rows]
    # bounds tightening: single variable rows
    tb = {}

    def tighten(r):
        nz = [(k, c) for k, c in r.m if k != ()]
        if len(nz) == 1 and len(nz[0][0]) == 1:
            k, c = nz[0]
            c0 = dict(r.m).get((), 0)
            t = Term.all[k[0]]
            lo, hi = tb.get(k[0], (t.lo, t.hi))
            if c > 0:
                x = -(c0 // c)
                lo = x if lo is None else max(lo, x)
            else:
                x = c0 // (-c)
                hi = x if hi is None else min(hi, x)
            tb[k[0]] = (lo, hi)
            if lo is not None and hi is not None and lo > hi:
                return True
        return False
    for r in rows:
        c = r.const
        if c is not None:
            if c < 0:
                return True
        elif tighten(r):
            return True
    allr = {}
    for r in rows:
        if r.const is not None:
            continue
        hi = prange(r, tb)[1]
        if hi is not None and hi < 0:
            return True
        allr[r.id] = r
    # products of nonneg bounds: monomials x*y with x>=1 give x*y >= y
    monos = set()
    for r in allr.values():
        for k, _ in r.m:
            if k != ():
                monos.add(k)
    extra = []
    for k in monos:
        lo, hi = mono_range(k, tb)
        x = mkpoly({k: 1})
        if lo is not None:
            extra.append(padd(x, pconst(lo), -1))
        if hi is not None:
            extra.append(padd(pconst(hi), x, -1))
        if len(k) > 1:
            for i in set(k):
                rest = list(k)
                rest.remove(i)
                rest = tuple(rest)
                if rest in monos or len(rest) == 1:
                    t = Term.all[i]
                    l2, h2 = tb.get(i, (t.lo, t.hi))
                    rl = mono_range(rest, tb)[0]
                    if rl is not None and rl >= 0:
                        y = mkpoly({rest: 1})
                        if l2 is not None and l2 > 0:
                            extra.append(padd(x, pscale(y, l2), -1))
                        if h2 is not None:
                            extra.append(padd(pscale(y, h2), x, -1))
    for e in extra:
        if e.const is None:
            allr[e.id] = e
        elif e.const < 0:
            return True
    rows = list(allr.values())
    # Fourier-Motzkin
    for _ in range(maxvars):
        cnt = {}
        for r in rows:
            for k, c in r.m:
                if k != ():
                    p, n = cnt.get(k, (0, 0))
                    cnt[k] = (p + (c > 0), n + (c < 0))
        if not cnt:
            return False
        # drop variables bounded on one side only (and the rows with them)
        onesided = {k for k, (p, n) in cnt.items() if p == 0 or n == 0}
        if onesided:
            rows = [r for r in rows if not any(k in onesided for k, _ in r.m)]
            if not rows:
                return False
            continue
        k = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x))
        pos = [r for r in rows if dict(r.m).get(k, 0) > 0]
        neg = [r for r in rows if dict(r.m).get(k, 0) < 0]
        rest = {r.id: r for r in rows if dict(r.m).get(k, 0) == 0}
        if len(pos) * len(neg) + len(rest) > maxrows:
            return False
        for a in pos:
            ca = dict(a.m)[k]
            for b in neg:
                cb = -dict(b.m)[k]
                g = gcd(ca, cb)
                r = norm_row(padd(pscale(a, cb // g), pscale(b, ca // g)))
                c = r.const
                if c is not None:
                    if c < 0:
                        return True
                    continue
                rest[r.id] = r
        # keep the tightest of parallel rows
        best = {}
        for r in rest.values():
            dirk = tuple((kk, cc) for kk, cc in r.m if kk != ())
            c0 = dict(r.m).get((), 0)
            o = best.get(dirk)
            if o is None or c0 < o[0]:
                best[dirk] = (c0, r)
        rows = [r for _, r in best.values()]
        if not rows:
            return False
    return False


_empty = {}
STATS = {'polyhedra': 0, 'cubes': 0, 'queries': 0}


def infeasible(lits, full=True):
    if not feasible_lits(lits):
        return True
    if not full:
        return False
    key = frozenset((v, p) for v, p in lits.items() if ATOMS[v][0] == 'ge')
    r = _empty.get(key)
    if r is None:
        STATS['polyhedra'] += 1
        r = fm_empty(rows_of(lits))
        _empty[key] = r
    return r


def has_quotient(p):
    return any(Term.all[i].op == 'div' for k, _ in p.m for i in k)


_tied = {}


def tied_infeasible(lits):
    """like infeasible, but first finds the comparisons that can only hold with equality, so that quotients of equal values are equal"""
    key = frozenset((v, p) for v, p in lits.items() if ATOMS[v][0] == 'ge')
    r = _tied.get(key)
    if r is None:
        rows = rows_of(lits)
        inside = set()
        for w in rows:
            for k, _ in w.m:
                for i in k:
                    t = Term.all[i]
                    if t.op == 'div':
                        for a in t.args:
                            if isinstance(a, Poly):
                                deep_terms(a, inside)
        ids = {w.id for w in rows}
        more = []
        for w in rows if inside else ():
            terms = {i for k, _ in w.m for i in k}
            if len(terms) < 2 or has_quotient(w) or not terms & inside or pscale(w, -1).id in ids:
                continue
            if fm_empty(rows + [padd(w, pconst(1), -1)]):
                more.append(pscale(w, -1))
        r = bool(more) and fm_empty(rows + more)
        _tied[key] = r
    return r


def relevant(n, seeds, hops):
    """atoms of n that share terms with the seed terms, up to `hops` steps"""
    sup = support(n)
    terms = set(seeds)
    got = set()
    for _ in range(hops):
        new = {v for v in sup if v not in got and atom_terms(v) & terms}
        if not new:
            break
        got |= new
        for v in new:
            terms |= atom_terms(v)
    return got, sup


def search(n, budget, extra=None):
    """a theory-consistent cube of n, or None"""
    t0 = time.process_time()
    cnt = [0]

    def go(n, lits):
        cnt[0] += 1
        STATS['cubes'] += 1
        if cnt[0] > budget[0] or time.process_time() - t0 > budget[1]:
            raise Budget()
        if n == F:
            return None
        f = forced(n)
        if f:
            l2 = dict(lits)
            for v, p in f.items():
                if l2.get(v, p) is not p:
                    return None
                l2[v] = p
            lits = l2
        if infeasible(lits):
            return None
        if n == TR:
            return None if tied_infeasible(lits) else lits
        if f:
            # strip the forced literals
            n2 = n
            g = TR
            for v, p in f.items():
                g = AND(g, litnode(v) if p else NOT(litnode(v)))
            n2 = cofactor(n, f)
            if n2 == TR:
                return None if tied_infeasible(lits) else lits
            n = n2
        v = VAR[n]
        for p, c in ((False, LO[n]), (True, HI[n])):
            if c == F:
                continue
            l2 = dict(lits)
            l2[v] = p
            if not feasible_lits(l2):
                continue
            r = go(c, l2)
            if r is not None:
                return r
        return None
    return go(n, dict(extra or {}))


def search2(g, nphi, budget):
    """a theory-consistent cube of g and nphi, or None; walks the (usually small) diagram nphi first"""
    t0 = time.process_time()
    cnt = [0]

    def tick():
        cnt[0] += 1
        STATS['cubes'] += 1
        if cnt[0] > budget[0] or time.process_time() - t0 > budget[1]:
            raise Budget()

    def add(lits, more):
        l2 = lits
        for v, p in more.items():
            q = l2.get(v)
            if q is None:
                if l2 is lits:
                    l2 = dict(lits)
                l2[v] = p
            elif q is not p:
                return None
        return l2

    def settle(g, n, lits):
        """propagate forced literals between both diagrams"""
        while True:
            f = dict(forced(g))
            for v, p in forced(n).items():
                if f.get(v, p) is not p:
                    return None
                f[v] = p
            if not f:
                return g, n, lits
            lits = add(lits, f)
            if lits is None:
                return None
            g, n = cofactor(g, f), cofactor(n, f)
            if g == F or n == F:
                return None

    def go(g, n, lits):
        tick()
        x = settle(g, n, lits)
        if x is None:
            return None
        g, n, lits = x
        if infeasible(lits):
            return None
        if n == TR:
            if g == TR:
                return None if tied_infeasible(lits) else lits
            left = budget[1] - (time.process_time() - t0)
            return search(g, (budget[0] - cnt[0], left), lits)
        v = VAR[n]
        for p, c in ((False, LO[n]), (True, HI[n])):
            if c == F:
                continue
            l2 = add(lits, {v: p})
            if l2 is None or not feasible_lits(l2):
                continue
            g2 = cofactor(g, {v: p})
            if g2 == F:
                continue
            r = go(g2, c, l2)
            if r is not None:
                return r
        return None
    if g == F or nphi == F:
        return None
    return go(g, nphi, {})


def cofactor(n, lits):
    cache = {}

    def go(x):
        if isleaf(x):
            return x
        r = cache.get(x)
        if r is None:
            v = VAR[x]
            if v in lits:
                r = go(HI[x] if lits[v] else LO[x])
            else:
                r = mk(v, go(LO[x]), go(HI[x]))
            cache[x] = r
        return r
    return go(n)


ALLOWANCE = 5000000   # new diagram nodes per obligation


@contextlib.contextmanager
def allowance():
    """bounds the growth of diagrams: TooBig beyond"""
    outer = CAP[0]
    CAP[0] = min(outer, len(VAR) + ALLOWANCE)
    try:
        yield
    finally:
        CAP[0] = outer


class Verdict:
    __slots__ = ('ok', 'lits', 'why')

    def __init__(self, ok, lits=None, why=''):
        self.ok = ok
        self.lits = lits
        self.why = why

    def __bool__(self):
        return self.ok

    def text(self, limit=14):
        if self.ok:
            return 'proved'
        if self.lits is None:
            return self.why
        s = []
        for v, p in sorted(self.lits.items(), key=lambda x: -x[0]):
            a = ATOMS[v]
            if a[0] == 'b' and a[1].op in ('typed', 'is_writable', 'deserializes', 'unknown', 'nondet'):
                continue
            if a[0] == 'ge' and 'naccounts' in pstr(a[1]):
                continue
            x = atomstr(v, p)
            if len(x) < 400:
                s.append(x)
        return 'possible when ' + ' and '.join(s[:limit])


BUDGET = (4000, 25)


def prove(g, phi, budget=None, hint=TR):
    """does g entail phi?  hint: part of g whose atoms are also worth looking at"""
    try:
        with allowance():
            return prove_(g, phi, budget or BUDGET, hint)
    except TooBig:
        return Verdict(False, None, 'undecided: the case distinction grows too large')


def prove_equal(g, a, b, eq, hint=TR):
    """are two values equal under g?  decided case by case: for every pair of different expressions that may meet"""
    try:
        with allowance():
            xg, a, b = expand_node(g), expand_node(a), expand_node(b)
            pairs = []
            lb = leaves(b)
            for va, ca in leaves(a):
                ga = AND(xg, ca)
                for vb, cb in lb if ga != F else ():
                    if leaf(va) != leaf(vb) or va is TOPT:
                        z = AND(ga, cb)
                        if z != F:
                            pairs.append((z, eq(leaf(va), leaf(vb))))
                if len(pairs) > 300:
                    raise TooBig()
    except TooBig:
        return prove(g, eq(a, b), hint=hint)
    for z, e in pairs:
        v = prove(z, e, hint=hint)
        if not v.ok:
            return v
    return Verdict(True)


def prove_(g, phi, budget, hint):
    STATS['queries'] += 1
    n = AND(g, NOT(phi))
    if n == F:
        return Verdict(True)
    xphi = expand_node(phi)
    xg = expand_node(g)
    n = AND(xg, NOT(xphi))
    if n == F:
        return Verdict(True)
    try:
        r = search2(xg, NOT(xphi), (min(1500, budget[0]), budget[1] / 3))
        if r is None:
            return Verdict(True)
    except Budget:
        pass
    seeds = set()
    for v in support(NOT(phi)) | support(xphi):
        seeds |= atom_terms(v)
    more = set(seeds)
    for v in support(hint):
        more |= atom_terms(v)
    last = None
    tried = []
    for sd, hops in ((seeds, 1), (seeds, 2), (seeds, 4), (seeds, 30), (more, 1), (more, 30), (None, 0)):
        if sd is None:
            sup = support(n)
            got = set(sup)
        elif not sd:
            continue
        else:
            got, sup = relevant(n, sd, hops)
        if got in tried:
            continue
        tried.append(got)
        try:
            m = exists(n, sup - got) if got != sup else n
            r = search(m, budget)
        except (Budget, TooBig):
            last = last or Verdict(False, None, 'undecided within the search budget')
            continue
        if r is None:
            return Verdict(True)
        last = Verdict(False, r)
    return last
