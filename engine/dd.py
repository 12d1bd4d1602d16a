"""Value domain of the analysis.

Scalars are decision diagrams ("gated values"): inner nodes are predicates over
input quantities, leaves are canonical integer polynomials / opaque terms /
references.  Booleans are the special case with leaves False/True (BDDs).
Joining two dataflow states is `ite(guard1, v1, v2)`, so no path is ever
enumerated and no relation between a branch condition and the values chosen by
it is lost.
"""
import sys
from fractions import Fraction
from math import gcd
sys.setrecursionlimit(200000)

INF = 10**9


class Term:
    """Interned opaque term: op(args) with integer range [lo,hi] (None = unbounded/not an integer)."""
    __slots__ = ('op', 'args', 'lo', 'hi', 'id', '_p')
    table = {}
    all = []

    def __repr__(self):
        return tstr(self)

    def __lt__(self, o):
        return self.id < o.id


def T(op, *args, lo=None, hi=None):
    k = (op,) + args
    t = Term.table.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.lo = lo
        t.hi = hi
        t.id = len(Term.all)
        t._p = None
        Term.all.append(t)
        Term.table[k] = t
    return t


class Poly:
    __slots__ = ('m', 'id', '_r')
    table = {}
    n = 0

    def __repr__(self):
        return pstr(self)

    @property
    def const(self):
        if not self.m:
            return 0
        if len(self.m) == 1 and self.m[0][0] == ():
            return self.m[0][1]
        return None


def mkpoly(d):
    m = tuple(sorted((k, c) for k, c in d.items() if c != 0))
    p = Poly.table.get(m)
    if p is None:
        p = Poly()
        p.m = m
        p._r = None
        p.id = Poly.n
        Poly.n += 1
        Poly.table[m] = p
    return p


def pconst(c):
    return mkpoly({(): c})


def pterm(t):
    if t._p is None:
        t._p = mkpoly({(t.id,): 1})
    return t._p


P0 = mkpoly({})
P1 = pconst(1)


def padd(a, b, s=1):
    if b is P0:
        return a
    d = dict(a.m)
    for k, c in b.m:
        d[k] = d.get(k, 0) + s * c
    return mkpoly(d)


def pmul(a, b):
    d = {}
    for k1, c1 in a.m:
        for k2, c2 in b.m:
            k = tuple(sorted(k1 + k2))
            d[k] = d.get(k, 0) + c1 * c2
    return mkpoly(d)


def pscale(a, c):
    return mkpoly({k: v * c for k, v in a.m})


def imul(a, b):
    if a == (0, 0) or b == (0, 0):
        return (0, 0)
    c = []
    for x in a:
        for y in b:
            if x is None or y is None:
                c.append(None)
            else:
                c.append(x * y)
    if None in c:
        # only handle nonneg with unbounded top
        if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            return (a[0] * b[0], None)
        return (None, None)
    return (min(c), max(c))


def mono_range(k, bounds=None):
    r = (1, 1)
    for t in k:
        tt = Term.all[t]
        b = (tt.lo, tt.hi)
        if bounds:
            x = bounds.get(t)
            if x:
                lo = b[0] if x[0] is None else (x[0] if b[0] is None else max(b[0], x[0]))
                hi = b[1] if x[1] is None else (x[1] if b[1] is None else min(b[1], x[1]))
                b = (lo, hi)
        r = imul(r, b)
    return r


def prange(p, bounds=None):
    if bounds is None and p._r is not None:
        return p._r
    lo = hi = 0
    for k, c in p.m:
        if k == ():
            a, b = c, c
        else:
            a, b = mono_range(k, bounds)
            if c >= 0:
                a = None if a is None else a * c
                b = None if b is None else b * c
            else:
                a, b = (None if b is None else b * c), (None if a is None else a * c)
        lo = None if lo is None or a is None else lo + a
        hi = None if hi is None or b is None else hi + b
    if bounds is None:
        p._r = (lo, hi)
    return (lo, hi)


def pdiv(a, b):
    """floor(a/b) for a>=0,b>0 (callers guarantee b != 0)"""
    ca, cb = a.const, b.const
    if cb is not None and cb != 0:
        if ca is not None:
            q = abs(ca) // abs(cb)
            return pconst(q if (ca >= 0) == (cb > 0) else -q)
        if cb == 1:
            return a
        if all(c % cb == 0 for _, c in a.m):
            return mkpoly({k: c // cb for k, c in a.m})
        # split off multiples of cb only if everything nonneg-compatible (floor is additive over multiples)
        if cb > 0 and (prange(a)[0] or -1) >= 0:
            whole = {k: (c // cb) for k, c in a.m if c % cb == 0}
            if whole:
                rest = mkpoly({k: c for k, c in a.m if c % cb != 0})
                rr = prange(rest)
                if rr[0] is not None and rr[0] >= 0:
                    return padd(mkpoly(whole), pdiv(rest, b))
        # x div c1 div c2 = x div (c1*c2)
        if len(a.m) == 1 and a.m[0][1] == 1 and len(a.m[0][0]) == 1:
            t = Term.all[a.m[0][0][0]]
            if t.op == 'div' and t.args[1].const is not None:
                return pdiv(t.args[0], pconst(t.args[1].const * cb))
        ra = prange(a)
        if ra[0] is not None and ra[1] is not None and ra[0] >= 0 and ra[1] < cb and cb > 0:
            return P0
    elif len(b.m) == 1:
        kb, c_b = b.m[0]
        q = {}
        for k, c in a.m:
            kk = list(k)
            try:
                for x in kb:
                    kk.remove(x)
            except ValueError:
                q = None
                break
            if c % c_b:
                q = None
                break
            q[tuple(kk)] = c // c_b
        if q is not None:
            return mkpoly(q)
    if a is P0:
        return P0
    # cancel common integer content
    g = 0
    for _, c in a.m + b.m:
        g = gcd(g, c)
    if g > 1:
        a = mkpoly({k: c // g for k, c in a.m})
        b = mkpoly({k: c // g for k, c in b.m})
    ra, rb = prange(a), prange(b)
    lo = 0 if (ra[0] is not None and ra[0] >= 0 and rb[0] is not None and rb[0] >= 0) else None
    hi = None
    if lo == 0 and ra[1] is not None:
        hi = ra[1] // max(1, rb[0])
    # ratio a = x*y, b = y*... handled above; bound floor(x*y/z) unknown
    return pterm(T('div', a, b, lo=lo, hi=hi))


# ---------------------------------------------------------------- printing
def tstr(t, d=0):
    if t.op == 'sym':
        return '.'.join(str(x) for x in t.args)
    if t.op == 'div':
        return 'floor(%s / %s)' % (pstr(t.args[0]), pstr(t.args[1]))
    if t.op == 'bytes':
        try:
            b = bytes.fromhex(t.args[0])
            if b and all(32 <= c < 127 for c in b):
                return repr(b.decode())
        except Exception:
            pass
        return '0x' + t.args[0]
    return '%s(%s)' % (t.op, ', '.join(vstr(a) for a in t.args))


def vstr(a):
    if isinstance(a, Term):
        return tstr(a)
    if isinstance(a, Poly):
        return pstr(a)
    if isinstance(a, tuple):
        return '[' + ', '.join(vstr(x) for x in a) + ']'
    return str(a)


def cstr(c):
    for n in (64, 128):
        if c == 2**n:
            return '2^%d' % n
        if c == 2**n - 1:
            return '(2^%d-1)' % n
    return str(c)


def pstr(p):
    if not p.m:
        return '0'
    out = []
    for k, c in sorted(p.m, key=lambda x: (-len(x[0]), x)):
        n = '*'.join(tstr(Term.all[t]) for t in k)
        if not k:
            s = cstr(abs(c))
        elif abs(c) == 1:
            s = n
        else:
            s = cstr(abs(c)) + '*' + n
        out.append(('-' if c < 0 else '+') + ' ' + s)
    r = ' '.join(out)
    if r.startswith('+ '):
        r = r[2:]
    return r if len(out) == 1 else '(' + r + ')'


# ---------------------------------------------------------------- decision diagrams
VAR = [INF, INF]
LO = [0, 1]
HI = [0, 1]
VAL = [False, True]
F, TR = 0, 1
_uniq = {}
_term = {False: 0}
_leafkey = {}


def leaf(v):
    if v is True:
        return TR
    if v is False:
        return F
    k = (type(v), v)
    n = _leafkey.get(k)
    if n is None:
        n = len(VAR)
        VAR.append(INF)
        LO.append(n)
        HI.append(n)
        VAL.append(v)
        _leafkey[k] = n
    return n


class TooBig(Exception):
    """a diagram grew beyond the allowance"""


CAP = [INF]


def mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(VAR)
        if n > CAP[0]:
            raise TooBig
        VAR.append(v)
        LO.append(lo)
        HI.append(hi)
        VAL.append(None)
        _uniq[k] = n
    return n


def isleaf(n):
    return VAR[n] == INF


_ite = {}


def ite(c, a, b):
    if c == TR:
        return a
    if c == F:
        return b
    if a == b:
        return a
    if a == TR and b == F:
        return c
    k = (c, a, b)
    r = _ite.get(k)
    if r is not None:
        return r
    v = min(VAR[c], VAR[a], VAR[b])
    c0, c1 = (LO[c], HI[c]) if VAR[c] == v else (c, c)
    a0, a1 = (LO[a], HI[a]) if VAR[a] == v else (a, a)
    b0, b1 = (LO[b], HI[b]) if VAR[b] == v else (b, b)
    r = mk(v, ite(c0, a0, b0), ite(c1, a1, b1))
    _ite[k] = r
    return r


def AND(a, b):
    if a == F or b == F:
        return F
    if a == TR or a == b:
        return b
    if b == TR:
        return a
    if a > b:
        a, b = b, a
    return ite(a, b, F)


def OR(a, b):
    if a == TR or b == TR:
        return TR
    if a == F or a == b:
        return b
    if b == F:
        return a
    if a > b:
        a, b = b, a
    return ite(a, TR, b)


_not = {}


def NOT(a):
    if a <= 1:
        return 1 - a
    r = _not.get(a)
    if r is None:
        r = mk(VAR[a], NOT(LO[a]), NOT(HI[a]))
        _not[a] = r
        _not[r] = a
    return r


def IMP(a, b):
    return OR(NOT(a), b)


_apply = {}


def apply2(key, f, a, b):
    """f(valA, valB) -> node"""
    if isleaf(a) and isleaf(b):
        k = (key, a, b)
        r = _apply.get(k)
        if r is None:
            r = f(VAL[a], VAL[b])
            _apply[k] = r
        return r
    k = (key, a, b)
    r = _apply.get(k)
    if r is not None:
        return r
    v = min(VAR[a], VAR[b])
    a0, a1 = (LO[a], HI[a]) if VAR[a] == v else (a, a)
    b0, b1 = (LO[b], HI[b]) if VAR[b] == v else (b, b)
    lo = apply2(key, f, a0, b0)
    hi = apply2(key, f, a1, b1)
    # results may themselves contain earlier variables -> ite on the variable
    r = ite(mk(v, F, TR), hi, lo)
    _apply[k] = r
    return r


def apply1(key, f, a):
    k = (key, a)
    r = _apply.get(k)
    if r is not None:
        return r
    if isleaf(a):
        r = f(VAL[a])
    else:
        lo = apply1(key, f, LO[a])
        hi = apply1(key, f, HI[a])
        r = ite(mk(VAR[a], F, TR), hi, lo)
    _apply[k] = r
    return r


def applyn(key, f, args):
    """f(*vals)->node, lifted over a list of nodes"""
    if all(isleaf(a) for a in args):
        k = (key,) + tuple(args)
        r = _apply.get(k)
        if r is None:
            r = f(*[VAL[a] for a in args])
            _apply[k] = r
        return r
    k = (key,) + tuple(args)
    r = _apply.get(k)
    if r is not None:
        return r
    v = min(VAR[a] for a in args)
    lo = applyn(key, f, [LO[a] if VAR[a] == v else a for a in args])
    hi = applyn(key, f, [HI[a] if VAR[a] == v else a for a in args])
    r = ite(mk(v, F, TR), hi, lo)
    _apply[k] = r
    return r


_restr = {}


def restrict(v, g):
    """simplify v using don't-care set not(g)"""
    if isleaf(v) or g == TR:
        return v
    if g == F:
        return v
    k = (v, g)
    r = _restr.get(k)
    if r is not None:
        return r
    gv, vv = VAR[g], VAR[v]
    if gv < vv:
        if LO[g] == F:
            r = restrict(v, HI[g])
        elif HI[g] == F:
            r = restrict(v, LO[g])
        else:
            r = restrict(v, OR(LO[g], HI[g]))
    elif gv == vv:
        if LO[g] == F:
            r = restrict(HI[v], HI[g])
        elif HI[g] == F:
            r = restrict(LO[v], LO[g])
        else:
            r = mk(vv, restrict(LO[v], LO[g]), restrict(HI[v], HI[g]))
    else:
        r = mk(vv, restrict(LO[v], g), restrict(HI[v], g))
    _restr[k] = r
    return r


def leaves(v):
    """[(value, bdd guard)]"""
    cache = {}

    def go(n):
        r = cache.get(n)
        if r is None:
            if isleaf(n):
                r = {n: TR}
            else:
                x = mk(VAR[n], F, TR)
                r = {}
                for k, g in go(LO[n]).items():
                    r[k] = AND(NOT(x), g)
                for k, g in go(HI[n]).items():
                    gg = AND(x, g)
                    r[k] = OR(r[k], gg) if k in r else gg
            cache[n] = r
        return r
    return [(VAL[k], g) for k, g in go(v).items()]


def leafset(v):
    seen = set()
    st = [v]
    out = []
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        if isleaf(n):
            out.append(VAL[n])
        else:
            st.append(LO[n])
            st.append(HI[n])
    return out


def support(v):
    seen = set()
    st = [v]
    out = set()
    while st:
        n = st.pop()
        if n in seen or isleaf(n):
            continue
        seen.add(n)
        out.add(VAR[n])
        st.append(LO[n])
        st.append(HI[n])
    return out


def size(v):
    seen = set()
    st = [v]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        if not isleaf(n):
            st.append(LO[n])
            st.append(HI[n])
    return len(seen)


# ---------------------------------------------------------------- atoms
ATOMS = []          # var index -> atom
_atom = {}
DIRS = {}           # dir poly -> sorted list of (k,var)


def atom(a):
    v = _atom.get(a)
    if v is None:
        v = len(ATOMS)
        ATOMS.append(a)
        _atom[a] = v
        if a[0] == 'ge':
            DIRS.setdefault(a[1], []).append((a[2], v))
    return v


def litnode(v):
    return mk(v, F, TR)


REMS = {}


def prem(a, b, q):
    """a - b*q for q = floor(a/b): known to be nonnegative (see GE0)"""
    r = padd(a, pmul(b, q), -1)
    if r.const is None:
        REMS[tuple((k, c) for k, c in r.m if k != ())] = dict(r.m).get((), 0)
    return r


def GE0(p):
    """BDD of p >= 0"""
    lo, hi = prange(p)
    if lo is not None and lo >= 0:
        return TR
    if hi is not None and hi < 0:
        return F
    # direction: non-constant part, primitive, sign-normalised
    d = [(k, c) for k, c in p.m if k != ()]
    k0 = dict(p.m).get((), 0)
    if REMS:
        c0 = REMS.get(tuple(d))
        if c0 is not None and k0 >= c0:
            return TR
    g = 0
    for _, c in d:
        g = gcd(g, c)
    s = 1 if d[0][1] > 0 else -1
    dp = mkpoly({k: s * c // g for k, c in d})
    # s*g*dir + k0 >= 0
    if s > 0:
        k = -((k0) // g)          # dir >= ceil(-k0/g)
        return _ge(dp, k)
    else:
        k = k0 // g               # dir <= floor(k0/g)
        return NOT(_ge(dp, k + 1))


def _ge(dp, k):
    lo, hi = prange(dp)
    if lo is not None and lo >= k:
        return TR
    if hi is not None and hi < k:
        return F
    return litnode(atom(('ge', dp, k)))


_cn = {}


def ceilnorm(n):
    """rewrite  'q+1 if a - b*q >= 1 else q'  with q = floor(a/b)  to  floor((a+b-1)/b), anywhere in a diagram"""
    if isleaf(n):
        return n
    r = _cn.get(n)
    if r is not None:
        return r
    l, h = ceilnorm(LO[n]), ceilnorm(HI[n])
    r = None
    a = ATOMS[VAR[n]]
    if a[0] == 'ge' and isleaf(l) and isleaf(h) and isinstance(VAL[l], Poly) and isinstance(VAL[h], Poly):
        d = padd(VAL[h], VAL[l], -1).const
        if d in (1, -1):
            small = VAL[l] if d == 1 else VAL[h]
            for mono, c in small.m:
                t = Term.all[mono[0]] if len(mono) == 1 and c == 1 else None
                if t is not None and t.op == 'div' and any(t.id in m for m, _ in a[1].m):
                    x, y = t.args
                    some = GE0(padd(prem(x, y, pterm(t)), P1, -1))
                    lit = litnode(VAR[n])
                    if some == (lit if d == 1 else NOT(lit)):
                        r = leaf(padd(padd(small, pterm(t), -1), pdiv(padd(padd(x, y), P1, -1), y)))
                        break
    if r is None:
        r = n if (l, h) == (LO[n], HI[n]) else ite(litnode(VAR[n]), h, l)
    _cn[n] = r
    return r


def ge(a, b):
    return GE0(padd(a, b, -1))


def gt(a, b):
    return GE0(padd(padd(a, b, -1), P1, -1))


def EQP(a, b):
    p = padd(a, b, -1)
    c = p.const
    if c is not None:
        return TR if c == 0 else F
    d = [c for k, c in p.m if k != ()]
    k0 = dict(p.m).get((), 0)
    g = 0
    for c in d:
        g = gcd(g, c)
    if k0 % g:
        return F
    return AND(GE0(p), GE0(pscale(p, -1)))


def isbytes(t):
    return isinstance(t, Term) and t.op == 'bytes'


def EQT(a, b):
    """equality of opaque terms (keys, byte strings)"""
    if a is b:
        return TR
    if isbytes(a) and isbytes(b):
        return F
    if isinstance(a, Poly) and isinstance(b, Poly):
        return EQP(a, b)
    if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == 'le' and a.args[0] == b.args[0]:
        return EQP(a.args[1], b.args[1])
    if not isinstance(a, Term) or not isinstance(b, Term):
        return litnode(atom(('b', T('eq?', vstr(a), vstr(b)))))
    if a.id > b.id:
        a, b = b, a
    return litnode(atom(('eq', a, b)))


def BOOLT(t):
    return litnode(atom(('b', t)))


def atomstr(v, pos=True):
    a = ATOMS[v]
    if a[0] == 'ge':
        return '%s %s %s' % (pstr(a[1]), '>=' if pos else '<', cstr(a[2]) if a[2] >= 0 else str(a[2]))
    if a[0] == 'eq':
        return '%s %s %s' % (tstr(a[1]), '==' if pos else '!=', tstr(a[2]))
    return ('' if pos else 'not ') + tstr(a[1])


_forced = {F: {}, TR: {}}


def forced(g):
    """literals implied by g, propositionally"""
    r = _forced.get(g)
    if r is not None:
        return r
    l, h = LO[g], HI[g]
    if l == F:
        r = dict(forced(h))
        r[VAR[g]] = True
    elif h == F:
        r = dict(forced(l))
        r[VAR[g]] = False
    else:
        a, b = forced(l), forced(h)
        r = {k: v for k, v in a.items() if b.get(k) is v}
    _forced[g] = r
    return r


def exists(g, vs):
    """existential quantification over var set"""
    cache = {}

    def go(n):
        if isleaf(n):
            return n
        r = cache.get(n)
        if r is None:
            l, h = go(LO[n]), go(HI[n])
            r = OR(l, h) if VAR[n] in vs else ite(litnode(VAR[n]), h, l)
            cache[n] = r
        return r
    return go(g)


def gstr(g, limit=40):
    """short human rendering of a guard"""
    f = forced(g)
    s = [atomstr(v, p) for v, p in sorted(f.items())]
    if len(s) > limit:
        s = s[:limit] + ['... (%d more)' % (len(s) - limit)]
    rest = restrict(g, TR)
    n = size(g) - len(f) - 2
    if n > 0:
        s.append('<+%d-node residual condition>' % n)
    return ' and '.join(s) if s else ('true' if g == TR else 'cond#%d' % g)
