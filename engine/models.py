"""Models of the code outside the repository (anchor, solana, spl, alloc) that has no MIR here.

Every model is a transfer function on abstract states.  Anything not listed is
treated as an unknown function of its arguments (fresh symbolic result, writes
through &mut arguments forgotten) and is reported in the evidence.
"""
import os
import re
from dd import *
from interp import *


def OK(v):
    return Enum(N0, {0: (v,)})


def ERR(v):
    return Enum(N1, {1: (v,)})


NONE = Enum(N0, {0: ()})


def SOME(v):
    return Enum(N1, {1: (v,)})


def errv(*a):
    return leaf(T('err', *a))


def short(n):
    return re.sub(r"<.*", '', n).split('::')[-1]


def tyshort(n):
    """last path segments of every path in a type name"""
    n = re.sub(r"<'_>|'_, |'[a-z]+, |<'[a-z]+>", '', n)
    return re.sub(r"(?:[A-Za-z_0-9]+::)+", '', n)


class Models:
    def __init__(self):
        self.exact = {}
        self.rx = []
        self.cache = {}

    def reg(self, *pats):
        def d(fn):
            for p in pats:
                self.rx.append((re.compile(p), fn))
            return fn
        return d

    def find(self, f):
        i = (f['nd'], f['name'])
        if i in self.cache:
            return self.cache[i]
        r = None
        nd = f['nd']
        nm = norm(f['name'])
        for p, fn in self.rx:
            if p.search(nd) or (p.pattern.startswith('NAME') and p.search('NAME ' + nm)):
                r = fn
                break
        self.cache[i] = r
        return r

    def unknown(self, I, st, f, args):
        I.unknown.setdefault(f['name'], 0)
        I.unknown[f['name']] += 1
        dty = I.dty
        argn = []
        det = True
        for a in args:
            a = I.expand(a) if isinstance(a, Sym) else a
            if isinstance(a, int) and isleaf(a) and isinstance(VAL[a], (Poly, Term)):
                argn.append(vstr(VAL[a]))
            else:
                det = False
        # havoc through &mut arguments
        for a, ty in zip(args, I.argtys or []):
            t = I.ty(ty)
            if t['k'] in ('ref', 'ptr') and t.get('mut'):
                et = I.ty(t['e'])
                I.fresh += 1
                a = I.scalar(st, a)
                I.write_ref(st, a, Sym(('havoc%d' % I.fresh,), t['e']) if et['k'] not in ('slice', 'str', 'dyn') else TOP)
        if not det or not args:
            I.fresh += 1
            argn.append('#%d' % I.fresh)
        if dty is None:
            return [(st, TOP)]
        return [(st, Sym(('%s(%s)' % (short(f['def']) + '?', ','.join(argn)),), dty))]


M = Models()
reg = M.reg


# ------------------------------------------------------------------ helpers
def acct_idx(I, st, v):
    """DD of account wrapper / AccountInfo / reference to one -> node with leaves Term('acct', i)"""
    v = I.expand(v)
    for _ in range(6):
        if isinstance(v, Agg):          # AccountInfo value
            k = I.scalar(st, v.f[0])
            return apply1('ai2acct', lambda t: leaf(T('acct', t.obj[1])) if isinstance(t, Ref) and t.obj[0] == 'key' else TOP, k)
        if isinstance(v, int):
            if any(isinstance(x, Ref) for x in leafset(v)):
                v = I.expand(I.read_ref(st, v))
                continue
            return restrict(v, st.g)
        return TOP
    return TOP


def key_of(n):
    def f(t):
        if isinstance(t, Term) and t.op == 'acct':
            return leaf(T('key', t.args[0]))
        if isinstance(t, Term) and t is not TOPT:
            return leaf(t)
        return TOP
    return apply1('key_of', f, n)


def ai_value(I, idx):
    """AccountInfo aggregate for account index idx (int or Poly)"""
    t = I.ai_ty
    vals = []
    for n, ft in I.ty(t)['vs'][0]['fs']:
        if n == 'key':
            vals.append(leaf(Ref(('key', idx), (), None)))
        elif n == 'owner':
            vals.append(leaf(Ref(('owner', idx), (), None)))
        elif n == 'is_signer':
            vals.append(BOOLT(T('is_signer', idx)))
        elif n == 'is_writable':
            vals.append(BOOLT(T('is_writable', idx)))
        elif n == 'executable':
            vals.append(BOOLT(T('executable', idx)))
        else:
            vals.append(leaf(T('ai_' + n, idx)))
    # 'key' must be first for acct_idx; reorder safe because field order comes from the type
    return Agg(vals)


def ix_of(p):
    return p.const if p.const is not None else p


def split(I, st, cond, okv, errval):
    out = []
    a = I.assume(st, cond)
    b = I.assume(st, NOT(cond))
    if a is not None:
        out.append((a if a is not st else st.copy() if b is not None else st, OK(okv)))
    if b is not None:
        out.append((b if b is not st else st.copy(), ERR(errval)))
    return out


def slice_bytes(I, st, refnode):
    """content of a byte slice/array reference as a node of byte terms"""
    refnode = I.scalar(st, refnode)

    def f(t):
        if not isinstance(t, Ref):
            return TOP
        v = I.get_path(st, I.load_obj(st, t.obj), t.path)
        v = I.expand(v)
        if isinstance(v, VecV):
            return leaf(T('vecbytes', I.valterm(st, v)))
        if isinstance(v, Arr):
            if t.meta and t.meta[2].const is not None and t.meta[1].const is not None:
                its = [I.scalar(st, I.arr_get(st, v, pconst(t.meta[1].const + i))) for i in range(t.meta[2].const)]
                return I.mkbytes(its)
            return leaf(T('slicebytes', I.valterm(st, v)))
        if isinstance(v, int):
            m = t.meta
            if m and m[0] == 'w':
                def g(b):
                    if isbytes(b) and m[1].const is not None and m[2].const is not None:
                        return leaf(T('bytes', b.args[0][2 * m[1].const:2 * (m[1].const + m[2].const)]))
                    if isinstance(b, Term) and m[1] is P0 and (m[2].const is None or blen(b) in (None, m[2].const)):
                        return leaf(b)
                    if isinstance(b, Term):
                        return leaf(T('sub', b, m[1], m[2]))
                    return TOP
                return apply1(('win', m), g, restrict(v, st.g))
            return restrict(v, st.g)
        return TOP
    r = None
    for t, g in leaves(restrict(refnode, st.g)):
        v = f(t)
        r = v if r is None else ite(g, v, r)
    return r


def slice_of_slices(I, st, refnode):
    """&[&[u8]] -> list of nodes (None if not resolvable)"""
    refnode = restrict(I.scalar(st, refnode), st.g)
    ls = leafset(refnode)
    if len(ls) != 1 or not isinstance(ls[0], Ref):
        return None
    t = ls[0]
    v = I.expand(I.get_path(st, I.load_obj(st, t.obj), t.path))
    if isinstance(v, VecV):
        v = v.arr
    if not isinstance(v, Arr):
        return None
    n = t.meta[2].const if t.meta else v.n
    s = t.meta[1].const if t.meta else 0
    if n is None or s is None:
        return None
    return [slice_bytes(I, st, I.arr_get(st, v, pconst(s + i))) for i in range(n)]


def valterm(I, st, v, depth=0):
    """canonical hashable rendering of a value (used inside opaque terms and effects)"""
    v = I.expand(v) if isinstance(v, Sym) and I.ty(v.ty)['leaf'] else v
    if isinstance(v, int):
        v = restrict(v, st.g)
        if isleaf(v):
            return VAL[v]
        return ('dd', v)
    if isinstance(v, Sym):
        return T('sym', *v.path)
    if isinstance(v, Agg):
        return tuple(valterm(I, st, x, depth + 1) for x in v.f)
    if isinstance(v, Enum):
        return ('enum', valterm(I, st, v.d), tuple((k, tuple(valterm(I, st, x) for x in fs)) for k, fs in sorted(v.v.items())))
    if isinstance(v, VecV):
        return ('vec', valterm(I, st, v.len), valterm(I, st, v.arr))
    if isinstance(v, Arr):
        return ('arr', str(v.base[1]) if v.base[0] == 'sym' else '', tuple((k, valterm(I, st, x)) for k, x in v.stores))
    if isinstance(v, Obj):
        return ('obj', v.k)
    return '?'


Interp.valterm = lambda self, st, v: valterm(self, st, v)


def effect(I, st, kind, **kw):
    kw['kind'] = kind
    kw['g'] = st.g
    kw['seq'] = len(I.effects)
    kw['site'] = list(I.stack[-3:])
    I.effects.append(kw)


# ------------------------------------------------------------------ trivial
@reg(r'sol_log', r'^std::panic::Location::<.*>::(caller|file|line)', r'^std::intrinsics::cold_path', r'precondition_check$',
     r'^std::hint::(black_box)$')
def m_unit(I, st, f, a):
    if 'Location' in f['nd'] or 'black_box' in f['nd']:
        return [(st, a[0] if 'black_box' in f['nd'] else TOP)]
    return [(st, UNIT)]


@reg(r'panicking::', r'^std::option::(unwrap_failed|expect_failed)', r'^std::result::unwrap_failed', r'slice_index_fail', r'slice_(start|end)_index', r'handle_alloc_error',
     r'^std::raw_vec::handle_error', r'^std::cell::panic', r'process::abort')
def m_panic(I, st, f, a):
    I.panics.append((I.stack[-1] if I.stack else '', f['name'], None, st.g))
    return []


@reg(r'std::fmt::', r'::to_string$', r'^std::fmt::rt', r'as std::fmt::', r'PresaleError::name$', r'ErrorCode::name$', r'std::string::String as std::clone::Clone',
     r'std::hint::must_use', r'String as std::ops::Deref')
def m_top(I, st, f, a):
    if 'must_use' in f['nd']:
        return [(st, a[0])]
    return [(st, TOP)]


@reg(r'std::intrinsics::caller_location')
def m_cl(I, st, f, a):
    return [(st, TOP)]


@reg(r'std::intrinsics::is_val_statically_known')
def m_known(I, st, f, a):
    return [(st, F)]


# ------------------------------------------------------------------ integer helpers
def prim(f):
    m = re.search(r'<impl ([ui](?:8|16|32|64|128|size))>', f['def'])
    return m.group(1) if m else None


@reg(r'num::<impl [ui]\w+>::div_ceil$')
def m_divceil(I, st, f, a):
    x, y = nameval(restrict(I.scalar(st, a[0]), st.g)), nameval(restrict(I.scalar(st, a[1]), st.g))
    bad = I.binop(st, 'Eq', y, N0, {'k': 'uint'})
    s = I.assume(st, NOT(bad))
    if s is None:
        return []

    def g(p, q):
        p, q = aspoly(p), aspoly(q)
        if p is None or q is None or q.const == 0:
            return TOP
        if p.const is not None and q.const is not None:
            return num(-(-p.const // q.const))
        return leaf(pdiv(padd(padd(p, q), P1, -1), q))
    return [(s, restrict(apply2('div_ceil', g, x, y), s.g))]


@reg(r'num::<impl [ui]\w+>::checked_(add|sub|mul)$')
def m_checked(I, st, f, a):
    op = f['nd'].rsplit('_', 1)[1].capitalize()
    n = prim(f)
    ty = I.ty(I.p.tyname[n])
    x, y = nameval(restrict(I.scalar(st, a[0]), st.g)), nameval(restrict(I.scalar(st, a[1]), st.g))

    def raw(p, q):
        p, q = aspoly(p), aspoly(q)
        if p is None or q is None:
            return TOP
        return leaf(padd(p, q) if op == 'Add' else padd(p, q, -1) if op == 'Sub' else pmul(p, q))
    v = restrict(apply2(('raw' + op,), raw, x, y), st.g)
    ok = restrict(apply1(('fits', n, op, I.soft), lambda p: I.fits(p, ty, op == 'Sub', op) if isinstance(p, Poly) else UNKB('ovf'), v), st.g)
    if op == 'Mul':
        I.noteprod(st, x, y, v, ty)
    if op == 'Sub' and ty['k'] == 'uint':
        I.note(st, 'CheckedSub', x, y, ty, restrict(apply1('nonneg', lambda p: GE0(p) if isinstance(p, Poly) else TR, v), st.g))
    return [(st, Enum(ite(ok, N1, N0), {0: (), 1: (v,)}))]


@reg(r'std::convert::num::(ptr_try_from_impls::)?<impl std::convert::TryFrom<[ui](8|16|32|64|128|size)> for [ui](8|16|32|64|128|size)>::try_from$')
def m_tryint(I, st, f, a):
    n = re.search(r'> for (\w+)>', f['nd']).group(1)
    ty = I.ty(I.p.tyname[n])
    v = nameval(restrict(I.scalar(st, a[0]), st.g))
    ok = restrict(apply1(('fits', n, 'Cast', I.soft), lambda p: I.fits(p, ty, True) if isinstance(p, Poly) else UNKB('cast'), v), st.g)
    I.noteprod(st, v, None, v, ty)
    return [(st, Enum(ite(ok, N0, N1), {0: (v,), 1: (errv('tryint'),)}))]


@reg(r'std::intrinsics::(saturating_(sub|add))$', r'num::<impl [ui]\w+>::saturating_(sub|add|mul)$')
def m_sat(I, st, f, a):
    x, y = nameval(restrict(I.scalar(st, a[0]), st.g)), nameval(restrict(I.scalar(st, a[1]), st.g))
    ty = I.ty(I.dty)
    lo, hi = I.sym_range(ty)
    op = re.search(r'saturating_(\w+)', f['def']).group(1)
    I.note(st, op.capitalize(), x, y, ty)

    def g(p, q):
        p, q = aspoly(p), aspoly(q)
        if p is None or q is None:
            return TOP
        r = {'sub': lambda: padd(p, q, -1), 'add': lambda: padd(p, q), 'mul': lambda: pmul(p, q)}[op]()
        return ite(NOT(GE0(padd(r, pconst(lo), -1))), num(lo), ite(NOT(GE0(padd(pconst(hi), r, -1))), num(hi), leaf(r)))
    return [(st, restrict(apply2(('sat', op, ty['name']), g, x, y), st.g))]


@reg(r'num::<impl [ui]\w+>::wrapping_(sub|add|mul)$', r'std::intrinsics::wrapping_(sub|add|mul)$')
def m_wrapping(I, st, f, a):
    op = re.search(r'wrapping_(\w+)', f['def']).group(1)
    return [(st, I.binop(st, op.capitalize(), I.scalar(st, a[0]), I.scalar(st, a[1]), I.ty(I.dty)))]


@reg(r'num::<impl [ui]\w+>::to_le_bytes$')
def m_tole(I, st, f, a):
    n = prim(f)
    w = 64 if n.endswith('size') else int(n[1:])
    return [(st, apply1(('tole', w), lambda p: mkle(w, p), I.scalar(st, a[0])))]


@reg(r'num::<impl [ui]\w+>::to_be_bytes$')
def m_tobe(I, st, f, a):
    n = prim(f)
    w = 64 if n.endswith('size') else int(n[1:])
    return [(st, apply1(('tobe', w), lambda p: (leaf(T('bytes', (p.const & (2**w - 1)).to_bytes(w // 8, 'big').hex())) if p.const is not None else mkle(8, p) if w == 8 else leaf(T('be', w, p))) if isinstance(p, Poly) else TOP, I.scalar(st, a[0])))]


@reg(r'std::intrinsics::raw_eq$')
def m_raweq(I, st, f, a):
    x, y = I.scalar(st, I.read_ref(st, a[0])), I.scalar(st, I.read_ref(st, a[1]))
    return [(st, restrict(apply2('EQT', EQT2, x, y), st.g))]


def EQT2(a, b):
    if a is TOPT or b is TOPT:
        return UNKB('eq')
    return EQT(a, b)


@reg(r'std::intrinsics::compare_bytes$')
def m_cmpb(I, st, f, a):
    def content(n):
        def g(t):
            if isinstance(t, Ref):
                p = t.path
                if p and p[-1][0] == 'i' and p[-1][1] is P0:
                    p = p[:-1]
                v = I.expand(I.get_path(st, I.load_obj(st, t.obj), p))
                return v if isinstance(v, int) else TOP
            return TOP
        n = restrict(I.scalar(st, n), st.g)
        r = None
        for t, gg in leaves(n):
            v = g(t)
            r = v if r is None else ite(gg, v, r)
        return r

    def c(x, y):
        if x is y and x is not TOPT:
            return N0
        if not isinstance(x, Term) or not isinstance(y, Term) or TOPT in (x, y):
            return leaf(pterm(T('cmpbytes?', UNKB('x'), lo=-1, hi=1)))
        if isbytes(x) and isbytes(y):
            return num((x.args[0] > y.args[0]) - (x.args[0] < y.args[0]))
        # three-way: eq atom and an order atom on the canonical pair
        e = EQT(x, y)
        s = 1
        if x.id > y.id:
            x, y, s = y, x, -1
        lt = BOOLT(T('bytes_lt', x, y))
        return ite(e, N0, ite(lt, num(-s), num(s)))
    return [(st, restrict(apply2('cmpbytes', c, content(a[0]), content(a[1])), st.g))]


# ------------------------------------------------------------------ slices and vectors
@reg(r'^std::slice::<impl \[T\]>::len$', r'^std::slice::<impl \[T\]>::is_empty$')
def m_len(I, st, f, a):
    n = apply1('slen', lambda t: leaf(t.meta[2]) if isinstance(t, Ref) and t.meta and t.meta[0] == 'w' else TOP, I.scalar(st, a[0]))
    if f['nd'].endswith('is_empty'):
        n = apply1('isz', lambda p: EQP(p, P0) if isinstance(p, Poly) else UNKB('len'), n)
    return [(st, restrict(n, st.g))]


def sidx(t, i):
    """reference to element i (Poly) of slice reference t"""
    if not isinstance(t, Ref) or not isinstance(i, Poly):
        return TOP
    s = t.meta[1] if t.meta and t.meta[0] == 'w' else P0
    return leaf(Ref(t.obj, t.path + (('i', padd(s, i)),), None))


@reg(r'^std::slice::<impl \[T\]>::get(_mut)?$', r'<usize as std::slice::SliceIndex<\[T\]>>::get(_mut)?$')
def m_get(I, st, f, a):
    if 'SliceIndex' in f['nd']:
        a = [a[1], a[0]]
    sl, i = I.scalar(st, a[0]), I.expand(a[1])
    if not isinstance(i, int):
        return NotImplemented
    ok = apply2('inb', lambda t, p: gt(t.meta[2], p) if isinstance(t, Ref) and t.meta and isinstance(p, Poly) else UNKB('get'), sl, i)
    el = apply2('sidx', sidx, sl, i)
    ok = restrict(ok, st.g)
    return [(st, Enum(ite(ok, N1, N0), {0: (), 1: (restrict(el, AND(st.g, ok)),)}))]


@reg(r'SliceContains>::slice_contains$', r'^std::slice::<impl \[T\]>::contains$')
def m_contains(I, st, f, a):
    x, sl = (a[1], a[0]) if f['nd'].endswith('::contains') else (a[0], a[1])
    x = I.expand(I.read_ref(st, x))
    sl = restrict(I.scalar(st, sl), st.g)

    def eq(p, q):
        if isinstance(p, Enum) and isinstance(q, Enum):
            if any(p.v.values()) or any(q.v.values()):
                return None
            return I.binop(st, 'Eq', p.d, q.d, {'k': 'uint'})
        if isinstance(p, int) and isinstance(q, int):
            return apply2('EQT', EQT2, p, q)
        return None
    r = F
    for t, g in leaves(sl):
        if AND(g, st.g) == F:
            continue
        if not (isinstance(t, Ref) and t.meta and t.meta[2].const is not None):
            I.gap('contains on slice of unknown length')
            r = OR(r, AND(g, UNKB('contains')))
            continue
        for i in range(t.meta[2].const):
            e = I.expand(I.get_path(st, I.load_obj(st, t.obj), t.path + (('i', padd(t.meta[1], pconst(i))),)))
            c = eq(e, x)
            if c is None:
                I.gap('contains on unmodelled element')
                c = UNKB('contains')
            r = OR(r, AND(g, c))
    return [(st, restrict(r, st.g))]


@reg(r'^std::slice::<impl \[T\]>::(first|last|split_first|split_last)(_mut)?$')
def m_first(I, st, f, a):
    k = re.search(r'(split_first|split_last|first|last)', f['nd'].split('::')[-1]).group(1)
    sl = I.scalar(st, a[0])
    ok = restrict(apply1('nonempty', lambda t: gt(t.meta[2], P0) if isinstance(t, Ref) and t.meta else UNKB('first'), sl), st.g)

    def el(t):
        if not (isinstance(t, Ref) and t.meta):
            return TOP
        return sidx(t, P0 if 'first' in k else padd(t.meta[2], P1, -1))

    def rest(t):
        if not (isinstance(t, Ref) and t.meta):
            return TOP
        return leaf(Ref(t.obj, t.path, ('w', padd(t.meta[1], P1) if 'first' in k else t.meta[1], padd(t.meta[2], P1, -1))))
    e = apply1('el' + k, el, sl)
    v = Agg([e, apply1('rest' + k, rest, sl)]) if k.startswith('split') else e
    return [(st, Enum(ite(ok, N1, N0), {0: (), 1: (v,)}))]


def subslice(I, st, sl, lo, hi):
    """-> [(st, ref)] after bounds check (panic otherwise)"""
    def ok(t, p, q):
        if not (isinstance(t, Ref) and t.meta and isinstance(p, Poly) and isinstance(q, Poly)):
            return UNKB('sub')
        return AND(ge(q, p), ge(t.meta[2], q))

    def mkr(t, p, q):
        if not (isinstance(t, Ref) and t.meta and isinstance(p, Poly) and isinstance(q, Poly)):
            return TOP
        return leaf(Ref(t.obj, t.path, ('w', padd(t.meta[1], p), padd(q, p, -1))))
    c = applyn('subok', ok, [sl, lo, hi])
    s = I.assume(st, c)
    if s is None:
        return []
    return [(s, restrict(applyn('submk', mkr, [sl, lo, hi]), s.g))]


def slen(sl):
    return apply1('slen', lambda t: leaf(t.meta[2]) if isinstance(t, Ref) and t.meta and t.meta[0] == 'w' else TOP, sl)


@reg(r'^std::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$', r'^std::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$',
     r'std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$')
def m_index(I, st, f, a):
    sl = I.scalar(st, a[0])
    self_t = I.ty(I.argtys[0]) if I.argtys else None
    if self_t and 'e' in self_t:
        et = I.ty(self_t['e'])
        if et['k'] == 'array':
            n = et['n']
            sl = apply1(('uns', n), lambda r: leaf(Ref(r.obj, r.path, ('w', P0, pconst(n)))) if isinstance(r, Ref) else TOP, sl)
        elif et['vec']:
            sl = vec_slice(I, st, sl)
    it = I.ty(I.argtys[1])['name']
    ix = I.expand(a[1])
    if isinstance(ix, int):
        c = apply2('inb', lambda t, p: gt(t.meta[2], p) if isinstance(t, Ref) and t.meta and isinstance(p, Poly) else UNKB('get'), sl, ix)
        s = I.assume(st, c)
        if s is None:
            return []
        return [(s, restrict(apply2('sidx', sidx, sl, ix), s.g))]
    if 'RangeFull' in it:
        return [(st, sl)]
    fs = [I.scalar(st, x) for x in ix.f] if isinstance(ix, Agg) else []
    if 'RangeFrom' in it:
        return subslice(I, st, sl, fs[0], slen(sl))
    if 'RangeToInclusive' in it:
        return NotImplemented
    if 'RangeTo' in it:
        return subslice(I, st, sl, N0, fs[0])
    if 'RangeInclusive' in it:
        return NotImplemented
    if 'Range<' in it:
        return subslice(I, st, sl, fs[0], fs[1])
    return NotImplemented


@reg(r'^std::slice::<impl \[T\]>::split_at(_mut)?$')
def m_splitat(I, st, f, a):
    sl, n = I.scalar(st, a[0]), I.scalar(st, a[1])
    out = []
    for s, l in subslice(I, st, sl, N0, n):
        for s2, r in subslice(I, s, sl, n, slen(sl)):
            out.append((s2, Agg([l, r])))
    return out


@reg(r'AsRef<\[T\]>>?( for .*)?>?::as_ref$', r'^std::array::<impl std::convert::AsRef<\[T\]>')
def m_asref_arr(I, st, f, a):
    t = I.ty(I.argtys[0])
    et = I.ty(t['e'])
    v = I.scalar(st, a[0])
    if et['k'] == 'array':
        n = et['n']
        v = apply1(('uns', n), lambda r: leaf(Ref(r.obj, r.path, ('w', P0, pconst(n)))) if isinstance(r, Ref) else TOP, v)
    elif et['vec']:
        v = vec_slice(I, st, v)
    return [(st, v)]


@reg(r'array::<impl \[T; N\]>::as_(mut_)?slice$')
def m_as_slice(I, st, f, a):
    return m_asref_arr(I, st, f, a)


def vec_slice(I, st, ref):
    def g(t):
        if not isinstance(t, Ref):
            return TOP
        v = I.expand(I.get_path(st, I.load_obj(st, t.obj), t.path))
        if isinstance(v, VecV):
            return apply1(('vsl', t), lambda n: leaf(Ref(t.obj, t.path + (('V',),), ('w', P0, n))) if isinstance(n, Poly) else TOP, restrict(v.len, st.g))
        if isinstance(v, Obj):
            return leaf(Ref(t.obj, t.path, ('w', P0, pterm(T('objlen', lo=0, hi=2**32)))))
        return TOP
    r = None
    for t, gg in leaves(restrict(I.scalar(st, ref), st.g)):
        v = g(t)
        r = v if r is None else ite(gg, v, r)
    return r


@reg(r'std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$', r'std::vec::Vec::<T, A>::as_(mut_)?slice$', r'Vec<T, A> as std::(convert::AsRef<\[T\]>|borrow::Borrow<\[T\]>)>')
def m_vecderef(I, st, f, a):
    return [(st, vec_slice(I, st, a[0]))]


@reg(r'std::vec::Vec::<T(, A)?>::(new|with_capacity|with_capacity_in)$', r'std::vec::Vec<T> as std::default::Default')
def m_vecnew(I, st, f, a):
    t = I.ty(I.dty)
    return [(st, VecV(Arr(None, t['ga'][0], ('val', UNDEF)), N0))]


@reg(r'std::vec::Vec::<T, A>::len$', r'std::vec::Vec::<T, A>::is_empty$')
def m_veclen(I, st, f, a):
    v = I.expand(I.read_ref(st, a[0]))
    n = v.len if isinstance(v, VecV) else TOP
    if f['nd'].endswith('is_empty'):
        n = apply1('isz', lambda p: EQP(p, P0) if isinstance(p, Poly) else UNKB('len'), n)
    return [(st, restrict(n, st.g))]


@reg(r'std::vec::Vec::<T, A>::push$')
def m_push(I, st, f, a):
    v = I.expand(I.read_ref(st, a[0]))
    if isinstance(v, VecV):
        ls = leaves(restrict(v.len, st.g))
        arr = v.arr
        for n, g in ls:
            if isinstance(n, Poly):
                old = I.arr_get(st, arr, n) if len(ls) > 1 else UNDEF
                arr = I.arr_set(arr, n, a[1] if len(ls) == 1 else I.merge(g, a[1], old))
        I.write_ref(st, I.scalar(st, a[0]), VecV(arr, apply1('inc', lambda p: leaf(padd(p, P1)) if isinstance(p, Poly) else TOP, v.len)))
    return [(st, UNIT)]


@reg(r'std::vec::Vec::<T, A>::(extend_from_slice|reserve|reserve_exact|append)$', r'std::iter::Extend')
def m_extend(I, st, f, a):
    if 'reserve' in f['nd']:
        return [(st, UNIT)]
    v = I.expand(I.read_ref(st, a[0]))
    tgt = I.scalar(st, a[0])
    src = None
    if 'extend_from_slice' in f['nd']:
        r = restrict(I.scalar(st, a[1]), st.g)
        if isleaf(r) and isinstance(VAL[r], Ref) and VAL[r].meta and VAL[r].meta[2].const is not None and isinstance(v, VecV) and isleaf(v.len) and isinstance(VAL[v.len], Poly):
            t = VAL[r]
            arr = v.arr
            n0 = VAL[v.len]
            for i in range(t.meta[2].const):
                e = I.get_path(st, I.load_obj(st, t.obj), t.path + (('i', padd(t.meta[1], pconst(i))),))
                arr = I.arr_set(arr, padd(n0, pconst(i)), e)
            I.write_ref(st, tgt, VecV(arr, leaf(padd(n0, t.meta[2]))))
            return [(st, UNIT)]
    I.gap('vec extend with unknown source')
    I.fresh += 1
    ety = v.arr.ety if isinstance(v, VecV) else I.p.tyname['u8']
    I.write_ref(st, tgt, VecV(Arr(None, ety, ('sym', ('extend#%d' % I.fresh,))), leaf(pterm(T('sym', 'extend#%d' % I.fresh, 'len', lo=0, hi=2**32)))))
    return [(st, UNIT)]


@reg(r'^std::boxed::box_new_uninit$', r'^std::boxed::Box::<T>::new_uninit$', r'^std::boxed::Box::<T>::new$', r'exchange_malloc')
def m_boxnew(I, st, f, a):
    I.fresh += 1
    o = ('H', I.fresh)
    if f['nd'].endswith('::new'):
        st.mem[o] = a[0]
    else:
        st.mem[o] = UNDEF
    return [(st, leaf(Ref(o, (), None)))]


@reg(r'box_assume_init_into_vec_unsafe$', r'slice::<impl \[T\]>::into_vec', r'slice::hack::into_vec')
def m_intovec(I, st, f, a):
    b = I.scalar(st, a[0])
    v = I.expand(I.read_ref(st, b))
    for _ in range(4):
        if isinstance(v, Agg) and len(v.f):
            v = I.expand(v.f[-1] if len(v.f) > 1 else v.f[0])
    ety = I.ty(I.dty)['ga'][0]
    if isinstance(v, Arr):
        return [(st, VecV(v, num(v.n)))]
    if isinstance(v, int):
        t = I.ty(I.dty)
        n = None
        for x in leafset(v):
            n = blen(x) if isinstance(x, Term) else None
        if n is not None:
            return [(st, VecV(Arr(None, ety, ('val', UNDEF), tuple((pconst(i), apply1(('byte', pconst(i)), lambda t, i=i: byte_at(t, pconst(i)), v)) for i in range(n))), num(n)))]
    I.gap('into_vec of unknown')
    return [(st, TOP)]


@reg(r'slice::<impl \[T\]>::to_vec', r'ToOwned for \[T\]>::to_owned', r'std::vec::Vec<T> as std::convert::From<&')
def m_tovec(I, st, f, a):
    r = restrict(I.scalar(st, a[0]), st.g)
    if isleaf(r) and isinstance(VAL[r], Ref) and VAL[r].meta:
        t = VAL[r]
        v = I.expand(I.get_path(st, I.load_obj(st, t.obj), t.path))
        if isinstance(v, Arr) and t.meta[1] is P0:
            return [(st, VecV(Arr(None, v.ety, v.base, v.stores), leaf(t.meta[2])))]
        if isinstance(v, (Arr, int)) and t.meta[2].const is not None:
            ety = I.ty(I.dty)['ga'][0]
            return [(st, VecV(Arr(None, ety, ('val', UNDEF), tuple((pconst(i), I.step(st, v, ('i', padd(t.meta[1], pconst(i))))) for i in range(t.meta[2].const))), leaf(t.meta[2])))]
    if isleaf(r) and isinstance(VAL[r], Ref):
        v = I.expand(I.get_path(st, I.load_obj(st, VAL[r].obj), VAL[r].path))
        if isinstance(v, Obj):
            return [(st, v)]
    I.gap('to_vec of unknown')
    return [(st, Sym(('tovec?',), I.dty))]


@reg(r'std::vec::Vec<T, A> as std::clone::Clone>::clone')
def m_vecclone(I, st, f, a):
    return [(st, I.read_ref(st, a[0]))]


# iterators -----------------------------------------------------------
def mkiter(sl):
    return Obj('iter', {'ref': sl, 'pos': N0, 'end': slen(sl)})


@reg(r'^std::slice::<impl \[T\]>::iter(_mut)?$', r'slice::iter::<impl std::iter::IntoIterator for &\S* ?(mut )?\[T\]>::into_iter', r'^std::slice::Iter(Mut)?::<.*>::new$',
     r'array::<impl std::iter::IntoIterator for &', r'Vec<T, A> as std::iter::IntoIterator>::into_iter$', r'<&.*std::vec::Vec<T, A> as std::iter::IntoIterator>', r'vec::<impl std::iter::IntoIterator for &')
def m_iter(I, st, f, a):
    t = I.ty(I.argtys[0]) if I.argtys else None
    v = a[0]
    if t is not None and t['vec']:
        v = I.expand(v)
        if isinstance(v, VecV):
            return [(st, Obj('vit', {'arr': v.arr, 'pos': N0, 'end': v.len}))]
        return [(st, v)]
    v = I.scalar(st, v)
    if t is not None and 'e' in t:
        et = I.ty(t['e'])
        if et['k'] == 'array':
            n = et['n']
            v = apply1(('uns', n), lambda r: leaf(Ref(r.obj, r.path, ('w', P0, pconst(n)))) if isinstance(r, Ref) else TOP, v)
        elif et['vec']:
            v = vec_slice(I, st, v)
    return [(st, mkiter(v))]


def iter_next(I, st, it, back=False):
    """-> (cond has-next, elem, new iterator)"""
    if it.k == 'zip':
        ca, ea, na = iter_next(I, st, it.d['a'])
        cb, eb, nb = iter_next(I, st, it.d['b'])
        return AND(ca, cb), Agg([ea, eb]), Obj('zip', {'a': na, 'b': nb})
    c = restrict(apply2('lt', lambda p, q: gt(q, p) if isinstance(p, Poly) and isinstance(q, Poly) else UNKB('iter'), it.d['pos'], it.d['end']), st.g)
    d = dict(it.d)
    if back:
        nend = apply1('dec', lambda p: leaf(padd(p, P1, -1)) if isinstance(p, Poly) else TOP, it.d['end'])
        i = nend
        d['end'] = ite(c, nend, it.d['end'])
    else:
        i = it.d['pos']
        d['pos'] = ite(c, apply1('inc', lambda p: leaf(padd(p, P1)) if isinstance(p, Poly) else TOP, it.d['pos']), it.d['pos'])
    if it.k == 'iter':
        el = restrict(apply2('sidx', sidx, it.d['ref'], i), AND(st.g, c))
    else:
        el = UNDEF
        for p, g in leaves(restrict(i, AND(st.g, c))):
            if isinstance(p, Poly):
                x = I.arr_get(st, it.d['arr'], p)
                el = x if el is UNDEF else I.merge(g, x, el)
    return c, el, Obj(it.k, d)


@reg(r'<std::slice::Iter(Mut)?<.*> as std::iter::(Iterator|DoubleEndedIterator)>::next(_back)?$', r'IntoIter<T, [AN]> as std::iter::(Iterator|DoubleEndedIterator)>::next(_back)?$', r'^<std::iter::Zip<A, B> as std::iter::Iterator>::next$')
def m_next(I, st, f, a):
    it = I.read_ref(st, a[0])
    if 'Zip' in f['nd'] and not (isinstance(it, Obj) and it.k == 'zip'):
        return NotImplemented
    if not isinstance(it, Obj) or it.k not in ITERS:
        if os.environ.get('DBGN'):
            print('NEXT', f['name'], a, it, I.stack)
        I.gap('next on unknown iterator')
        return [(st, Sym(('next?%d' % st.g,), I.dty))]
    c, el, nit = iter_next(I, st, it, f['nd'].endswith('back'))
    I.write_ref(st, I.scalar(st, a[0]), nit)
    return [(st, Enum(ite(c, N1, N0), {0: (), 1: (el,)}))]


@reg(r'<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::nth$')
def m_nth(I, st, f, a):
    it = I.read_ref(st, a[0])
    if not isinstance(it, Obj) or it.k != 'iter':
        return NotImplemented
    n = restrict(I.scalar(st, a[1]), st.g)
    pos = restrict(apply2('nth', lambda p, q: leaf(padd(p, q)) if isinstance(p, Poly) and isinstance(q, Poly) else TOP, it.d['pos'], n), st.g)
    c, el, nit = iter_next(I, st, Obj('iter', dict(it.d, pos=pos)))
    I.write_ref(st, I.scalar(st, a[0]), Obj('iter', dict(nit.d, pos=ite(c, nit.d['pos'], it.d['end']))))
    return [(st, Enum(ite(c, N1, N0), {0: (), 1: (el,)}))]


@reg(r'^<std::iter::Zip<A, B> as std::iter::adapters::zip::ZipImpl<A, B>>::new$')
def m_zip(I, st, f, a):
    if all(isinstance(x, Obj) and x.k in ITERS for x in a):
        return [(st, Obj('zip', {'a': a[0], 'b': a[1]}))]
    return NotImplemented


@reg(r'^std::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter$', r'^std::array::IntoIter::<T, N>::new$')
def m_arriter(I, st, f, a):
    v = I.expand(a[0])
    if isinstance(v, Arr) and v.n is not None:
        return [(st, Obj('vit', {'arr': v, 'pos': N0, 'end': num(v.n)}))]
    return NotImplemented


@reg(r'(Iter(Mut)?<.*>|IntoIter<T, [AN]>) as std::iter::(Iterator|ExactSizeIterator)>::(len|size_hint|count)$', r'std::iter::ExactSizeIterator::len$')
def m_itlen(I, st, f, a):
    it = I.read_ref(st, a[0]) if not isinstance(a[0], Obj) else a[0]
    if not isinstance(it, Obj) or 'pos' not in it.d:
        return [(st, TOP)]
    n = apply2('sub', lambda p, q: leaf(padd(q, p, -1)) if isinstance(p, Poly) and isinstance(q, Poly) else TOP, it.d['pos'], it.d['end'])
    if f['nd'].endswith('size_hint'):
        return [(st, Agg([n, SOME(n)]))]
    return [(st, n)]


def closure_callee(I, f):
    """(function run by the consumed closure or function item, is it a plain function)"""
    ft = I.ty(I.argtys[-1]) if I.argtys else None
    if ft is not None and ft['k'] == 'fndef' and ft.get('f') is not None:
        return ft['f'], True
    direct = None
    for b in f.get('blocks', []):
        t = b['t']
        if t[0] == 'call' and t[1] is not None:
            tm = I.p.F[t[1]].get('tm') or I.p.F[t[1]]['nd']
            if re.search(r'Fn(Mut|Once)?::call(_mut|_once)?$', norm(tm)) or '{closure' in I.p.F[t[1]]['def']:
                direct = t[1]
                break
    if ft is None or ft['k'] != 'closure':
        return direct, False

    def is_it(fid):
        g = I.p.F[fid]
        if 'blocks' not in g or len(g.get('locals', ())) < 2:
            return False
        t1 = I.ty(g['locals'][1])
        return t1['name'] == ft['name'] or ('e' in t1 and I.ty(t1['e'])['name'] == ft['name'])
    if direct is not None and is_it(direct):
        return direct, False
    # the body may hand the closure on
    seen, todo = set(), [f['id']]
    for _ in range(60):
        if not todo:
            break
        g = I.p.F[todo.pop(0)]
        for b in g.get('blocks', []):
            t = b['t']
            if t[0] == 'call' and t[1] is not None and t[1] not in seen:
                seen.add(t[1])
                if is_it(t[1]) and ('{closure' in I.p.F[t[1]]['def'] or re.search(r'call(_mut|_once)?$', norm(I.p.F[t[1]].get('tm') or I.p.F[t[1]]['nd']))):
                    return t[1], False
                todo.append(t[1])
    return direct, False


ITERS = ('iter', 'vit', 'zip')


def it_unbounded(I, st, it):
    if it.k == 'zip':
        return it_unbounded(I, st, it.d['a']) and it_unbounded(I, st, it.d['b'])
    return I.unbounded(st, it.d['end'])


def synth_fold(I, st, f, a, op, cal, it, by_ref, plain=False):
    """consume an iterator of unknown length: run `while let Some(x) = it.next()` as a loop, so that it is summarised like one"""
    P = I.p
    unit = P.tyname.get('()')
    if unit is None:
        unit = P.tyname['bool']
    cache = P.__dict__.setdefault('synth', {})
    opt = next(i for i, t in enumerate(P.TY) if t['k'] == 'enum' and norm(t.get('def', '')) == 'std::option::Option')
    dty = I.dty
    key = (op, cal, dty, plain)
    if key not in cache:
        nxt = dict(id=len(P.F), name='<std::slice::Iter as std::iter::Iterator>::next', krate='core', kind='item', shim=None, argc=1, locals=[unit, unit])
        nxt['def'] = "<std::slice::Iter<'a, T> as std::iter::Iterator>::" + ('next_back' if op == 'rfold' else 'next')
        nxt['nd'] = nxt['def']
        P.F.append(nxt)
        L = f.get('l')
        c = lambda l: ['c', [l, []]]

        def blk(s, t):
            return dict(s=s, t=t, l=L)
        E = ['use', ['m', [4, [['d', 1], ['f', 0, unit]]]]]
        K = lambda v: ['use', ['k', dict(t=P.tyname['bool'], b=v, p=[])]]
        b = [blk([], ['goto', 1]),
             blk([], ['call', nxt['id'], None, [c(1)], [4, []], 2]),
             blk([['=', [5, []], ['discr', [4, []]], L]], ['switch', c(5), [[0, 5]], 3])]
        acc = unit
        AR = lambda *x: list(x) if plain else [c(2), c(7)]
        if op in ('fold', 'rfold'):
            acc = dty
            b += [blk([['=', [6, []], E, L], ['=', [7, []], ['agg', ['tuple'], [c(3), c(6)]], L]], ['call', cal, None, AR(c(3), c(6)), [3, []], 1]),
                  blk([], ['ret']),
                  blk([['=', [0, []], ['use', c(3)], L]], ['ret'])]
        elif op == 'for_each':
            b += [blk([['=', [6, []], E, L], ['=', [7, []], ['agg', ['tuple'], [c(6)]], L]], ['call', cal, None, AR(c(6)), [8, []], 1]),
                  blk([], ['ret']),
                  blk([['=', [0, []], ['agg', ['tuple'], []], L]], ['ret'])]
        elif op in ('any', 'all'):
            b += [blk([['=', [6, []], E, L], ['=', [7, []], ['agg', ['tuple'], [c(6)]], L]], ['call', cal, None, AR(c(6)), [8, []], 4]),
                  blk([], ['switch', c(8), [[0, 1 if op == 'any' else 6]], 6 if op == 'any' else 1]),
                  blk([['=', [0, []], K('00' if op == 'any' else '01'), L]], ['ret']),
                  blk([['=', [0, []], K('01' if op == 'any' else '00'), L]], ['ret'])]
        elif op == 'find':
            b += [blk([['=', [6, []], E, L], ['=', [9, []], ['ref', [6, []]], L], ['=', [7, []], ['agg', ['tuple'], [c(9)]], L]], ['call', cal, None, AR(c(9)), [8, []], 4]),
                  blk([], ['switch', c(8), [[0, 1]], 6]),
                  blk([['=', [0, []], ['agg', ['adt', dty, 0], []], L]], ['ret']),
                  blk([['=', [0, []], ['agg', ['adt', dty, 1], [c(6)]], L]], ['ret'])]
        elif op == 'find_map':
            b += [blk([['=', [6, []], E, L], ['=', [7, []], ['agg', ['tuple'], [c(6)]], L]], ['call', cal, None, AR(c(6)), [0, []], 4]),
                  blk([['=', [5, []], ['discr', [0, []]], L]], ['switch', c(5), [[0, 1]], 6]),
                  blk([['=', [0, []], ['agg', ['adt', dty, 0], []], L]], ['ret']),
                  blk([], ['ret'])]
        else:
            return NotImplemented
        g = dict(id=len(P.F), name=f['name'], krate=f['krate'], kind=f['kind'], shim=None, argc=3, nd='synthetic::' + op, l=L, blocks=b,
                 locals=[dty, unit, unit, acc, opt, unit, unit, unit, P.tyname['bool'], unit])
        g['def'] = 'synthetic::' + op
        P.F.append(g)
        cache[key] = g
    g = cache[key]
    if by_ref:
        iref = a[0]
    else:
        I.fresh += 1
        st.mem[('H', I.fresh)] = it
        iref = leaf(Ref(('H', I.fresh), (), None))
    I.fresh += 1
    st.mem[('H', I.fresh)] = a[-1]
    return I.run(st, g, [iref, leaf(Ref(('H', I.fresh), (), None)), a[1] if op in ('fold', 'rfold') else UNIT])


@reg(r'(Iter(Mut)?<.*>|IntoIter<T, [AN]>|iter::Zip<A, B>) as std::iter::Iterator>::(fold|any|all|for_each|position|find|try_fold|rfold|find_map)$')
def m_fold(I, st, f, a):
    op = f['nd'].split('::')[-1]
    if op not in ('fold', 'any', 'all', 'for_each', 'position', 'find', 'rfold', 'find_map'):
        return NotImplemented
    cal, plain = closure_callee(I, f)
    by_ref = op not in ('fold', 'for_each', 'rfold')
    it = I.read_ref(st, a[0]) if by_ref else a[0]
    if cal is None or not isinstance(it, Obj) or it.k not in ITERS:
        I.gap('iterator %s on unknown' % op)
        return [(st, Sym(('%s?%d' % (op, st.g),), I.dty))]
    if it_unbounded(I, st, it):
        return synth_fold(I, st, f, a, op, cal, it, by_ref, plain)
    clos = a[-1]
    # closure by value lives in a temp object so that &mut closure works
    I.fresh += 1
    co = ('H', I.fresh)
    st.mem[co] = clos
    cref = leaf(Ref(co, (), None))
    acc = a[1] if op in ('fold', 'rfold') else UNIT

    def keep(s, nit):
        # the iterator is borrowed: what was consumed stays consumed
        if by_ref:
            I.write_ref(s, I.scalar(s, a[0]), nit)
    live = [(st, it, acc, 0)]
    done = []
    rounds = 0
    while live and rounds < 40:
        rounds += 1
        nxt = []
        for s, it, acc, k in live:
            c, el, nit = iter_next(I, s, it, op == 'rfold')
            e = I.assume(s, NOT(c))
            if e is not None:
                e = e if e is not s else s.copy()
                end = {'fold': acc, 'rfold': acc, 'for_each': UNIT, 'any': F, 'all': TR, 'position': NONE, 'find': NONE, 'find_map': NONE}[op]
                keep(e, nit)
                done.append((e, end))
            n = I.assume(s, c)
            if n is None:
                continue
            n = n if n is not s else s.copy()
            if op in ('fold', 'rfold'):
                args = [cref, Agg([acc, el])]
            elif op == 'find':
                I.fresh += 1
                to = ('H', I.fresh)
                n.mem[to] = el
                args = [cref, Agg([leaf(Ref(to, (), None))])]
            else:
                args = [cref, Agg([el])]
            sv = (I.dty, I.argtys)
            outs = I.call(n, cal, list(args[1].f) if plain else args)
            I.dty, I.argtys = sv
            for s2, r in outs:
                if op in ('fold', 'rfold'):
                    nxt.append((s2, nit, r, k + 1))
                elif op == 'for_each':
                    nxt.append((s2, nit, UNIT, k + 1))
                elif op == 'find_map':
                    r = I.expand(r)
                    hit = apply1('is1', lambda p: EQP(p, P1) if isinstance(p, Poly) else UNKB('fm'), r.d)
                    h = I.assume(s2, hit)
                    if h is not None:
                        h = h.copy()
                        keep(h, nit)
                        done.append((h, r))
                    m = I.assume(s2, NOT(hit))
                    if m is not None:
                        nxt.append((m.copy(), nit, UNIT, k + 1))
                else:
                    r = I.scalar(s2, r)
                    if not isbool(r):
                        r = UNKB('pred')
                    hit = NOT(r) if op == 'all' else r
                    h = I.assume(s2, hit)
                    if h is not None:
                        h = h.copy()
                        keep(h, nit)
                        done.append((h, {'any': TR, 'all': F, 'position': SOME(num(k)), 'find': SOME(el)}[op]))
                    m = I.assume(s2, NOT(hit))
                    if m is not None:
                        nxt.append((m.copy(), nit, UNIT, k + 1))
        # join the live states of this round
        grp = {}
        for s, it2, acc2, k in nxt:
            grp.setdefault(errkey(acc2), []).append((s, it2, acc2, k))
        live = []
        for ek, l in grp.items():
            s, it2, acc2, k = l[0]
            for s3, it3, acc3, _ in l[1:]:
                c3 = I.sel(s, s3)
                acc2 = I.merge(c3, acc2, acc3)
                it2 = I.merge(c3, it2, it3)
                s = I.join(s, s3)
            live.append((s, it2, acc2, k))
        if rounds > MAXLOOP + 8:
            for s, *_ in live:
                I.loopcuts.append((f['name'], s.g))
            break
    return I.collapse(done)


def find_obj(v, kinds, depth=0):
    if depth > 12:
        return None
    if isinstance(v, Obj):
        if v.k in kinds:
            return v
        for x in v.d.values():
            r = find_obj(x, kinds, depth + 1)
            if r is not None:
                return r
        return None
    if isinstance(v, Agg):
        for x in v.f:
            r = find_obj(x, kinds, depth + 1)
            if r is not None:
                return r
    if isinstance(v, Enum):
        for fs in v.v.values():
            for x in fs:
                r = find_obj(x, kinds, depth + 1)
                if r is not None:
                    return r
    return None


@reg(r'^std::iter::Iterator::collect$', r'std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter')
def m_collect(I, st, f, a):
    o = find_obj(a[0], ('event',))
    if o is not None:
        return [(st, o)]
    v = a[0]
    if isinstance(v, Obj) and v.k == 'vit' and v.d['pos'] == N0:
        return [(st, VecV(v.d['arr'], v.d['end']))]
    return NotImplemented


# ------------------------------------------------------------------ errors
@reg(r'anchor_lang::error::Error as std::convert::From<', r'Error::with_(account_name|pubkeys|values|source)', r'From<errors::PresaleError> for', r'as std::convert::From<errors::PresaleError>>::from',
     r'NAME <anchor_lang::error::Error as std::convert::From<presale::errors::PresaleError>>::from', r'num_enum::TryFromPrimitiveError', r'NAME <.*PresaleError as std::convert::From')
def m_err(I, st, f, a):
    if 'with_' in f['nd']:
        return [(st, a[0])]
    if 'TryFromPrimitiveError' in f['name'] and 'From<' not in f['name']:
        return [(st, errv('prim'))]
    if re.search(r'u32 as |for u32>', f['name']):
        return m_errnum(I, st, f, a)
    v = I.expand(a[0]) if a else TOP
    code = None
    if isinstance(v, Enum) and isleaf(v.d):
        code = str(VAL[errcode(f['name'], v.d)])
    elif isinstance(v, Agg):
        for x in v.f:
            x = I.expand(x)
            if isinstance(x, int) and isleaf(x) and isinstance(VAL[x], Poly):
                code = str(VAL[x])
    return [(st, errv('E', code) if code else TOP)]


def errcode(fname, d):
    """the number of an error enum's variant; the two families are kept apart by their offset"""
    off = 6000 if 'PresaleError' in fname else 100000
    return apply1(('errcode', off), lambda p: leaf(padd(p, pconst(off))) if isinstance(p, Poly) else TOP, d)


@reg(r'anchor_lang::error::Error as std::cmp::PartialEq')
def m_erreq(I, st, f, a):
    x, y = I.scalar(st, I.read_ref(st, a[0])), I.scalar(st, I.read_ref(st, a[1]))
    if not I.precise and (TOPT in leafset(x) or TOPT in leafset(y)):
        raise NeedErrors()

    def eq(p, q):
        for t in (p, q):
            if not (isinstance(t, Term) and t.op == 'err'):
                return UNKB('erreq')
        if p.args[0] == 'E' and q.args[0] == 'E':
            return TR if p is q else F
        return UNKB('erreq') if p.args[0] == q.args[0] else F
    r = apply2(('erreq',), eq, restrict(x, st.g), restrict(y, st.g))
    return [(st, r if f['nd'].endswith('::eq') else NOT(r))]


@reg(r'From<anchor_lang::error::ErrorCode> for u32', r'From<errors::PresaleError> for u32', r'u32 as std::convert::From<.*ErrorCode>')
def m_errnum(I, st, f, a):
    v = I.expand(a[0])
    return [(st, errcode(f['name'], v.d) if isinstance(v, Enum) else TOP)]


# ------------------------------------------------------------------ keys
@reg(r'Pubkey as std::cmp::PartialEq>::(eq|ne)$', r'Hash as std::cmp::PartialEq>::(eq|ne)$', r'array::equality::<impl std::cmp::PartialEq.*>::(eq|ne)$')
def m_keyeq(I, st, f, a):
    x, y = I.expand(I.read_ref(st, a[0])), I.expand(I.read_ref(st, a[1]))
    if not isinstance(x, int) or not isinstance(y, int):
        return NotImplemented
    r = restrict(apply2('EQT', EQT2, x, y), st.g)
    return [(st, NOT(r) if f['nd'].endswith('::ne') else r)]


def LEXLT(x, y):
    if not (isinstance(x, Term) and isinstance(y, Term)) or x is TOPT or y is TOPT:
        return UNKB('lex')
    if x is y:
        return F
    if x.id > y.id:
        # a total order: x < y unless y < x or both are the same
        return AND(NOT(BOOLT(T('lex_lt', y, x))), NOT(EQT(x, y)))
    return BOOLT(T('lex_lt', x, y))


@reg(r'(Pubkey|Hash) as std::cmp::(PartialOrd|Ord)>::(lt|le|gt|ge|cmp|partial_cmp|min|max)$', r'NAME .*<impl std::cmp::(PartialOrd|Ord) for \[u8(; 32)?\]>::(lt|le|gt|ge|cmp|partial_cmp|min|max)$')
def m_lex(I, st, f, a):
    """lexicographic order of byte strings"""
    op = f['nd'].rsplit('::', 1)[1]
    if ' for [u8]>' in f['name']:
        x, y = slice_bytes(I, st, a[0]), slice_bytes(I, st, a[1])
    elif op in ('min', 'max'):
        x, y = I.expand(a[0]), I.expand(a[1])
    else:
        x, y = I.expand(I.read_ref(st, a[0])), I.expand(I.read_ref(st, a[1]))
    if not isinstance(x, int) or not isinstance(y, int):
        return [(st, TOP if 'cmp' in op or op in ('min', 'max') else UNKB('lex'))]
    lt = restrict(apply2('LEXLT', LEXLT, x, y), st.g)
    gt = restrict(apply2('LEXLT', LEXLT, y, x), st.g)
    if op in ('min', 'max'):
        # min(a, b) is a unless b < a; max(a, b) is b unless b < a
        return [(st, ite(gt, y, x) if op == 'min' else ite(gt, x, y))]
    if 'cmp' in op:
        o = Enum(ite(lt, N0, ite(gt, leaf(pconst(2)), N1)), {0: (), 1: (), 2: ()})     # variant indices of Ordering
        return [(st, Enum(N1, {0: (), 1: (o,)}) if op == 'partial_cmp' else o)]
    return [(st, {'lt': lt, 'gt': gt, 'le': NOT(gt), 'ge': NOT(lt)}[op])]


@reg(r'Pubkey as std::convert::AsRef<\[u8\]>>::as_ref$', r'Hash as std::convert::AsRef<\[u8\]>>::as_ref$')
def m_keyasref(I, st, f, a):
    return [(st, apply1(('uns', 32), lambda r: leaf(Ref(r.obj, r.path, ('w', P0, pconst(32)))) if isinstance(r, Ref) else TOP, I.scalar(st, a[0])))]


@reg(r'Pubkey::to_bytes$', r'Hash::to_bytes$', r'Pubkey::new_from_array$', r'Hash::new_from_array$', r'Pubkey as std::convert::From<\[u8; 32\]>')
def m_ident(I, st, f, a):
    v = a[0]
    return [(st, v)]


@reg(r'Pubkey as std::default::Default')
def m_keydef(I, st, f, a):
    return [(st, leaf(T('bytes', '00' * 32)))]


@reg(r'Pubkey as std::clone::Clone', r'Hash as std::clone::Clone', r'TransferFee as std::clone::Clone')
def m_clone(I, st, f, a):
    return [(st, I.read_ref(st, a[0]))]


@reg(r'Pubkey::(find|try_find|create)_program_address$')
def m_pda(I, st, f, a):
    seeds = slice_of_slices(I, st, a[0])
    prog = I.scalar(st, I.read_ref(st, a[1]))
    if seeds is None:
        I.gap('pda seeds unresolved')
        I.fresh += 1
        seeds = [leaf(T('seeds?', I.fresh))]
    k = applyn('pda', lambda *x: leaf(T('pda', *x)), [prog] + seeds)
    b = applyn('bump', lambda *x: leaf(pterm(T('bump', *x, lo=0, hi=255))), [prog] + seeds)
    if 'create' in f['nd']:
        return [(st, OK(k))]
    if 'try_find' in f['nd']:
        return [(st, SOME(Agg([k, b])))]
    return [(st, Agg([k, b]))]


@reg(r'get_associated_token_address_with_program_id$', r'get_associated_token_address$')
def m_ata(I, st, f, a):
    xs = [I.scalar(st, I.read_ref(st, x)) for x in a]
    return [(st, applyn('ata', lambda *x: leaf(T('ata', *x)), xs))]


@reg(r'hash::hashv?$', r'keccak::hashv?$', r'sha256::hashv?$', r'hasher::hashv?$', r'(^|::)hashv?$')
def m_hash(I, st, f, a):
    if f['krate'] in ('presale', 'merkle_tree'):
        return NotImplemented
    kind = '::'.join(f['def'].split('::')[-2:])
    if f['def'].endswith('hashv'):
        parts = slice_of_slices(I, st, a[0])
    else:
        parts = [slice_bytes(I, st, a[0])]
    if parts is None:
        I.gap('hash input unresolved')
        I.fresh += 1
        parts = [leaf(T('hashin?', I.fresh))]
    kind = kind.replace('::hashv', '').replace('::hash', '')
    r = applyn(('hash', kind), lambda *x: leaf(T('hash', kind, *flat(x))), parts)
    if getattr(I, 'hashlog', None) is not None:
        I.hashlog.append((st.g, restrict(r, st.g), list(I.stack[-3:]), f['line'] if 'line' in f else ''))
    return [(st, r)]


def regroup(t):
    """a string given byte by byte, as the values whose whole byte strings are lined up in it"""
    out, i, xs = [], 0, t.args

    def byte(x):
        if isinstance(x, Poly) and len(x.m) == 1 and x.m[0][1] == 1 and len(x.m[0][0]) == 1:
            b = Term.all[x.m[0][0][0]]
            if b.op == 'byte' and b.args[1].const is not None:
                return b.args[0], b.args[1].const
        return None, None
    while i < len(xs):
        x = xs[i]
        if isinstance(x, Poly) and x.const is not None:
            out.append(T('bytes', bytes([x.const & 255]).hex()))
            i += 1
            continue
        b, k = byte(x)
        if b is not None and k == 0:
            n = 1
            while i + n < len(xs) and byte(xs[i + n]) == (b, n):
                n += 1
            if n == (blen(b) or 32):
                out.append(b)
                i += n
                continue
        out.append(T('le', 8, x))
        i += 1
    return out


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, Term) and x.op == 'cat':
            out += list(x.args)
        elif isinstance(x, Term) and x.op == 'u8s':
            out += regroup(x)
        elif isbytes(x) and x.args[0] == '':
            continue
        else:
            out.append(x)
    r = []
    for x in out:
        if isbytes(x) and r and isbytes(r[-1]):
            r[-1] = T('bytes', r[-1].args[0] + x.args[0])
        else:
            r.append(x)
    return r


@reg(r'anchor_lang::Id>::id$', r'anchor_lang::Id::id$')
def m_progid(I, st, f, a):
    m = re.search(r'<(.*?) as', f['name'])
    n = tyshort(m.group(1)) if m else f['name']
    ids = {'Token': TOKEN, 'Token2022': TOKEN2022}
    return [(st, leaf(T('bytes', ids[n]) if n in ids else T('program_id', n)))]


def b58(s):
    al = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
    n = 0
    for c in s:
        n = n * 58 + al.index(c)
    return n.to_bytes(32, 'big').hex()


TOKEN = b58('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA')
TOKEN2022 = b58('TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb')
PROGRAMS = {'System': '00' * 32, 'Token': TOKEN, 'Token2022': TOKEN2022}


# ------------------------------------------------------------------ account wrappers
@reg(r'anchor_lang::Key>::key$', r'<impl anchor_lang::Key for .*>::key$')
def m_key(I, st, f, a):
    return [(st, key_of(acct_idx(I, st, a[0])))]


@reg(r'ToAccountInfo<.*>>::to_account_info$', r'ToAccountInfo::to_account_info$', r"AccountInfo<'a> as std::clone::Clone", r'AccountInfo.* as std::clone::Clone')
def m_toai(I, st, f, a):
    n = acct_idx(I, st, a[0])
    r = None
    for t, g in leaves(restrict(n, st.g)):
        v = ai_value(I, t.args[0]) if isinstance(t, Term) and t.op == 'acct' else TOP
        r = v if r is None else I.merge(g, v, r)
    return [(st, r)]


@reg(r'std::convert::AsRef<anchor_lang::prelude::AccountInfo.*>::as_ref$', r'(Signer|Interface|Program|UncheckedAccount|SystemAccount)<.*> as std::ops::Deref>::deref$')
def m_asref(I, st, f, a):
    n = acct_idx(I, st, a[0])
    return [(st, apply1('accref', lambda t: leaf(Ref(('accts',), (('i', t.args[0] if isinstance(t.args[0], Poly) else pconst(t.args[0])),), None)) if isinstance(t, Term) and t.op == 'acct' else TOP, n))]


def st_obj(I, tyid, idx):
    nm = tyshort(I.ty(tyid)['name'])
    k = (nm, idx)
    if k not in I.stnames:
        used = [x for x in I.stnames if x[0] == nm]
        I.stnames[k] = nm if not used else '%s@%s' % (nm, idx)
    I.stidx[I.stnames[k]] = idx
    return ('st', tyid, (I.stnames[k],))


def deref_state(I, st, a, tyid):
    n = acct_idx(I, st, a)
    return apply1(('std', tyid), lambda t: leaf(Ref(st_obj(I, tyid, t.args[0]), (), None)) if isinstance(t, Term) and t.op == 'acct' else TOP, n)


@reg(r'(InterfaceAccount|Account)<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$')
def m_iaderef(I, st, f, a):
    return [(st, deref_state(I, st, a[0], I.ty(I.dty)['e']))]


@reg(r'(Mint|TokenAccount) as std::ops::Deref>::deref$')
def m_spl_deref(I, st, f, a):
    # newtype over the spl state: project field 0
    return [(st, apply1('nt0', lambda t: leaf(Ref(t.obj, t.path + (('f', 0),), None)) if isinstance(t, Ref) else TOP, I.scalar(st, a[0])))]


@reg(r'AccountLoader::<.*>::(load|load_mut|load_init)$')
def m_load(I, st, f, a):
    t = I.ty(I.dty)
    rt = I.ty(t['ga'][0])          # Ref<T>/RefMut<T>
    T_ = rt['ga'][0]
    r = deref_state(I, st, a[0], T_)
    n = len(rt['vs'][0]['fs'])
    if f['nd'].endswith('load_init'):
        for x in leafset(r):
            if isinstance(x, Ref):
                I.inits.append((x.obj, st.g))
        I.write_ref(st, r, I.zero(T_))
    return [(st, OK(Agg([r] + [TOP] * (n - 1))))]


@reg(r'(AccountLoader|Account|InterfaceAccount)::<.*>::(try_from|try_from_unchecked)$')
def m_tryfrom(I, st, f, a):
    n = restrict(acct_idx(I, st, a[-1]), st.g)
    if f['nd'].endswith('unchecked'):
        return [(st, OK(n))]
    t = I.ty(I.ty(I.dty)['ga'][0])
    nm = tyshort(I.ty(t['ga'][0])['name'])
    c = apply1(('typed', nm), lambda x: BOOLT(T('typed', nm, x.args[0])) if isinstance(x, Term) and x.op == 'acct' else UNKB('typed'), n)
    return split(I, st, c, n, errv('anchor', nm))


@reg(r'anchor_lang::Accounts<.*>::try_accounts$')
def m_try_accounts(I, st, f, a):
    if 'blocks' in f:
        return NotImplemented
    sref = I.scalar(st, a[1])
    sl = restrict(I.scalar(st, I.read_ref(st, sref)), st.g)
    ls = leafset(sl)
    rty = I.ty(I.ty(I.dty)['ga'][0])
    boxed = rty.get('box')
    if boxed:
        rty = I.ty(I.box_elem(rty))
    w = short(rty['name'])
    if len(ls) != 1 or not isinstance(ls[0], Ref) or ls[0].obj != ('accts',):
        I.gap('try_accounts on unknown slice')
        return [(st, TOP)]
    r = ls[0]
    idx = ix_of(r.meta[1])
    left = r.meta[2]
    I.write_ref(st, sref, leaf(Ref(r.obj, r.path, ('w', padd(r.meta[1], P1), padd(left, P1, -1)))))
    c = gt(left, P0)
    nm = None
    if w in ('AccountLoader', 'Account', 'InterfaceAccount'):
        nm = tyshort(I.ty(rty['ga'][0])['name'])
        c = AND(c, BOOLT(T('typed', nm, idx)))
    elif w == 'Signer':
        c = AND(c, BOOLT(T('is_signer', idx)))
    elif w in ('Program', 'Interface'):
        nm = tyshort(I.ty(rty['ga'][0])['name'])
        if w == 'Program':
            c = AND(c, EQT(T('key', idx), T('bytes', PROGRAMS[nm]) if nm in PROGRAMS else T('program_id', nm)))
        else:
            c = AND(c, BOOLT(T('is_' + nm, idx)))
    I.accts.setdefault(idx, (w, nm))
    v = leaf(T('acct', idx))
    if w == 'AccountInfo':
        v = ai_value(I, idx)
    if boxed:
        I.fresh += 1
        o = ('H', I.fresh)
        st.mem[o] = v
        v = leaf(Ref(o, (), None))
    return split(I, st, c, v, errv('anchor', 'acct%s' % idx))


@reg(r'anchor_lang::AccountsExit<.*>::exit$', r'anchor_lang::AccountsExit::exit$', r'<impl anchor_lang::AccountsExit<.*>::exit$')
def m_exit(I, st, f, a):
    if 'blocks' in f:
        return NotImplemented
    return [(st, OK(UNIT))]


@reg(r'anchor_lang::AccountsClose<.*>::close$')
def m_close(I, st, f, a):
    n = acct_idx(I, st, a[0])
    d = acct_idx(I, st, a[1])
    effect(I, st, 'close', acct=n, dest=d, ty=tyshort(f['name']))
    return [(st, OK(UNIT))]


@reg(r'anchor_lang::context::Context::<.*>::new$')
def m_ctx(I, st, f, a):
    t = I.ty(I.dty)
    names = [n for n, _ in t['vs'][0]['fs']]
    d = {'program_id': a[0], 'accounts': a[1], 'remaining_accounts': a[2], 'bumps': a[3]}
    I.ctxs.append(a[1])
    return [(st, Agg([d[n] for n in names]))]


@reg(r'anchor_lang::context::CpiContext::<.*>::(new|new_with_signer)$')
def m_cpictx(I, st, f, a):
    d = {'program': a[0], 'accounts': a[1], 'ty': tyshort(I.ty(I.argtys[1])['name'])}
    d['=tyid'] = I.argtys[1]
    d['seeds'] = a[2] if len(a) > 2 else UNIT
    return [(st, Obj('cpictx', d))]


@reg(r'anchor_lang::context::CpiContext::<.*>::with_signer$')
def m_cpisign(I, st, f, a):
    if isinstance(a[0], Obj):
        d = dict(a[0].d)
        d['seeds'] = a[1]
        return [(st, Obj('cpictx', d))]
    return [(st, a[0])]


def cpi_accounts(I, st, ctx):
    t = I.ty(ctx.d['=tyid'])
    v = I.expand(ctx.d['accounts'])
    out = {}
    if isinstance(v, Agg):
        for (n, _), x in zip(t['vs'][0]['fs'], v.f):
            out[n] = restrict(acct_idx(I, st, x), st.g)
    return out


def signer_seeds(I, st, v):
    """&[&[&[u8]]] -> list of lists of nodes / [] / None when unresolved"""
    if isinstance(v, Agg):
        return []
    n = restrict(I.scalar(st, v), st.g)
    ls = leafset(n)
    if len(ls) != 1 or not isinstance(ls[0], Ref):
        return None
    t = ls[0]
    if t.meta is None or t.meta[2].const is None:
        return None
    if t.meta[2].const == 0:
        return []
    arr = I.expand(I.get_path(st, I.load_obj(st, t.obj), t.path))
    if not isinstance(arr, Arr):
        return None
    out = []
    for i in range(t.meta[2].const):
        x = slice_of_slices(I, st, I.arr_get(st, arr, pconst(i)))
        if x is None:
            return None
        out.append(x)
    return out


@reg(r'system_program::(allocate|assign|create_account|transfer)$', r'token_2022::(burn|initialize_account3|mint_to|transfer_checked|transfer|close_account)$', r'token::(burn|transfer|close_account|initialize_account3)$',
     r'token_interface::(burn|initialize_account3|mint_to|transfer_checked|transfer|close_account)$')
def m_cpi(I, st, f, a):
    nm = '::'.join(f['def'].split('::')[-2:])
    ctx = a[0]
    if isinstance(ctx, Obj) and ctx.k == 'cpictx':
        ac = cpi_accounts(I, st, ctx)
        sd = signer_seeds(I, st, ctx.d['seeds'])
        effect(I, st, nm.split('::')[-1] if 'system' not in nm else 'sys.' + nm.split('::')[-1], accts=ac, seeds=sd, cpiprog=restrict(acct_idx(I, st, ctx.d['program']), st.g), args=[restrict(I.scalar(st, x), st.g) if not isinstance(I.expand(x), Agg) else None for x in a[1:]])
    else:
        I.gap('cpi with unknown context ' + nm)
        effect(I, st, nm.split('::')[-1], accts={}, seeds=None, args=[TOP for _ in a[1:]])
    return [(st, OK(UNIT))]


@reg(r'anchor_spl::memo::build_memo$')
def m_memo(I, st, f, a):
    effect(I, st, 'memo', memo=slice_bytes(I, st, a[1]))
    return [(st, OK(UNIT))]


# ------------------------------------------------------------------ AccountInfo data / mint extensions
@reg(r"AccountInfo::<.*>::(lamports|data_len|try_data_len|try_lamports)$")
def m_lamports(I, st, f, a):
    k = re.search(r'(data_len|lamports)$', f['nd']).group(1)
    n = acct_idx(I, st, a[0])
    v = apply1(('ai', k), lambda t: leaf(pterm(T(k, t.args[0], lo=0, hi=2**64 - 1))) if isinstance(t, Term) and t.op == 'acct' else TOP, n)
    return [(st, OK(v) if 'try_' in f['nd'] else v)]


@reg(r"AccountInfo::<.*>::(try_borrow_data|try_borrow_mut_data)$")
def m_data(I, st, f, a):
    n = acct_idx(I, st, a[0])
    r = apply1('data', lambda t: leaf(Ref(('data', t.args[0]), (), None)) if isinstance(t, Term) and t.op == 'acct' else TOP, n)
    return [(st, OK(Agg([r, TOP, TOP])))]


def data_idx(I, st, v):
    """&[u8] / &Ref<&mut [u8]> onto account data -> account index node"""
    v = I.expand(v)
    for _ in range(6):
        if isinstance(v, int):
            ls = leafset(restrict(v, st.g))
            if all(isinstance(x, Ref) and x.obj[0] == 'data' for x in ls):
                return apply1('dixr', lambda t: leaf(T('acct', t.obj[1])), restrict(v, st.g))
            if all(isinstance(x, Term) and x.op == 'data' for x in ls):
                return apply1('dix', lambda t: leaf(T('acct', t.args[0])), restrict(v, st.g))
            if all(isinstance(x, Ref) for x in ls):
                v = I.expand(I.read_ref(st, v))
                continue
            return TOP
        if isinstance(v, Agg):
            v = I.expand(v.f[0])
            continue
        return TOP
    return TOP


@reg(r'StateWithExtensions::<.*>::unpack$')
def m_unpack(I, st, f, a):
    n = data_idx(I, st, a[0])
    t = I.ty(I.ty(I.dty)['ga'][0])
    kind = tyshort(I.ty(t['ga'][-1])['name']) if t.get('ga') else '?'
    c = apply1(('unp', kind), lambda x: BOOLT(T('unpacks', kind, x.args[0])) if isinstance(x, Term) and x.op == 'acct' else UNKB('unpack'), n)
    return split(I, st, c, Obj('swe', {'acct': n, '=kind': kind}), errv('prog', 'unpack'))


def swe(I, st, v):
    v = I.read_ref(st, v) if not isinstance(v, Obj) else v
    if isinstance(v, Obj) and v.k == 'swe':
        return v.d['acct']
    return TOP


@reg(r'BaseStateWithExtensions::get_extension$', r'BaseStateWithExtensions<.*>>::get_extension$')
def m_getext(I, st, f, a):
    n = swe(I, st, a[0])
    e = I.ty(I.ty(I.dty)['ga'][0])['e']
    nm = tyshort(I.ty(e)['name'])
    c = apply1(('hasext', nm), lambda x: BOOLT(T('has_ext', nm, x.args[0])) if isinstance(x, Term) and x.op == 'acct' else UNKB('ext'), n)
    r = apply1(('ext', nm), lambda x: leaf(Ref(('D', ('%s@%s' % (nm, x.args[0]),), e), (), None)) if isinstance(x, Term) and x.op == 'acct' else TOP, n)
    return split(I, st, c, r, errv('prog', 'ext'))


@reg(r'get_extension_types$')
def m_exts(I, st, f, a):
    n = swe(I, st, a[0])
    vt = I.ty(I.dty)['ga'][0]
    r = None
    for t, g in leaves(restrict(n, st.g)):
        v = I.expand(Sym(('exts@%s' % (t.args[0],),), vt)) if isinstance(t, Term) and t.op == 'acct' else TOP
        r = v if r is None else I.merge(g, v, r)
    return [(st, OK(r))]


@reg(r'ExtensionType::get_required_init_account_extensions$')
def m_reqext(I, st, f, a):
    return [(st, Sym(('required_account_extensions',), I.dty))]


@reg(r'ExtensionType::try_calculate_account_len$')
def m_acclen(I, st, f, a):
    return [(st, OK(leaf(pterm(T('account_len', lo=0, hi=2**32)))))]


@reg(r'ExtensionType as std::cmp::PartialEq>::(eq|ne)$')
def m_exteq(I, st, f, a):
    x, y = I.expand(I.read_ref(st, a[0])), I.expand(I.read_ref(st, a[1]))
    if isinstance(x, Enum) and isinstance(y, Enum):
        r = I.binop(st, 'Eq', x.d, y.d, {'k': 'uint'})
        return [(st, NOT(r) if f['nd'].endswith('ne') else r)]
    return [(st, UNKB('exteq'))]


@reg(r'transfer_hook::get_program_id')
def m_hookid(I, st, f, a):
    n = swe(I, st, a[0])
    c = apply1('hashook', lambda x: BOOLT(T('has_hook', x.args[0])) if isinstance(x, Term) and x.op == 'acct' else UNKB('hook'), n)
    k = apply1('hookid', lambda x: leaf(T('hook_program', x.args[0])) if isinstance(x, Term) and x.op == 'acct' else TOP, n)
    return [(st, Enum(ite(c, N1, N0), {0: (), 1: (k,)}))]


@reg(r'native_mint::check_id$')
def m_native(I, st, f, a):
    k = I.scalar(st, I.read_ref(st, a[0]))
    nid = T('token2022_native_mint') if 'token_2022' in f['def'] else T('native_mint')
    return [(st, apply1(('nm', nid.id), lambda x: EQT(x, nid) if isinstance(x, Term) and x is not TOPT else UNKB('nm'), k))]


@reg(r'TransferFeeConfig::get_epoch_fee$')
def m_epochfee(I, st, f, a):
    cfg = restrict(I.scalar(st, a[0]), st.g)
    ep = restrict(I.scalar(st, a[1]), st.g)
    e = I.ty(I.dty)['e']

    def g(r, p):
        if isinstance(r, Ref) and r.obj[0] == 'D':
            return leaf(Ref(('D', ('epoch_fee(%s,%s)' % ('.'.join(r.obj[1]), vstr(p)),), e), (), None))
        return TOP
    return [(st, apply2(('epfee', e), g, cfg, ep))]


def feepath(I, st, ref):
    v = I.read_ref(st, ref)
    if isinstance(v, Sym):
        return leaf(T('sym', *v.path))
    v0 = v
    if isinstance(v, Agg):
        x = v.f[0]
        if isinstance(x, Sym):
            return leaf(T('sym', *x.path[:-1]))
    r = restrict(I.scalar(st, ref), st.g)
    return apply1('feepath', lambda t: leaf(T('sym', *t.obj[1])) if isinstance(t, Ref) and t.obj[0] == 'D' else TOP, r)


@reg(r'TransferFee::calculate_(fee|inverse_fee|post_fee_amount|pre_fee_amount)$')
def m_calcfee(I, st, f, a):
    k = f['def'].split('_')[-2] if False else f['nd'].split('::')[-1]
    p = feepath(I, st, a[0])
    x = nameval(restrict(I.scalar(st, a[1]), st.g))

    def val(t, q):
        return leaf(pterm(T(k, t, q, lo=0, hi=2**64 - 1))) if isinstance(t, Term) and isinstance(q, Poly) else TOP

    def okc(t, q):
        return BOOLT(T(k + '_ok', t, q)) if isinstance(t, Term) and isinstance(q, Poly) else UNKB('fee')
    c = apply2(k + 'ok', okc, p, x)
    return [(st, Enum(ite(c, N1, N0), {0: (), 1: (apply2(k, val, p, x),)}))]


@reg(r'From<.*Pod(U16|U64|U32|U128)> for u\d+>::from$')
def m_pod(I, st, f, a):
    w = int(re.search(r'Pod(?:U)(\d+)', f['nd']).group(1))
    v = I.scalar(st, a[0])
    return [(st, apply1(('pod', w), lambda t: fromle(w, t) if not isinstance(t, Poly) else leaf(t), v))]


@reg(r'From<.*PodBool> for bool>::from$')
def m_podb(I, st, f, a):
    v = I.scalar(st, a[0])
    return [(st, apply1('podb', lambda t: NOT(EQP(t, P0)) if isinstance(t, Poly) else UNKB('podbool'), v))]


@reg(r'instruction::transfer_checked$')
def m_tc(I, st, f, a):
    ks = [restrict(I.scalar(st, I.read_ref(st, x)), st.g) for x in a[:5]]
    d = dict(program=ks[0], source=ks[1], mint=ks[2], dest=ks[3], authority=ks[4], amount=restrict(I.scalar(st, a[6]), st.g), decimals=restrict(I.scalar(st, a[7]), st.g), hook=F)
    c = apply1('tcok', lambda t: BOOLT(T('valid_token_program', t)) if isinstance(t, Term) else UNKB('tc'), ks[0])
    return split(I, st, c, Obj('ix.transfer', d), errv('prog', 'tc'))


@reg(r'instruction::(burn|burn_checked|mint_to|set_authority|close_account|transfer|approve|transfer_checked_with_fee)$')
def m_otherix(I, st, f, a):
    return [(st, OK(Obj('ix.other', {'=name': f['def']})))]


@reg(r'add_extra_accounts_for_execute_cpi$')
def m_hook(I, st, f, a):
    ix = I.read_ref(st, a[0])
    names = ['source', 'mint', 'dest', 'authority']
    ac = {n: restrict(acct_idx(I, st, x), st.g) for n, x in zip(names, a[3:7])}
    prog = restrict(I.scalar(st, I.read_ref(st, a[2])), st.g)
    ex = restrict(I.scalar(st, a[8]), st.g)
    effect(I, st, 'hook', accts=ac, program=prog, amount=restrict(I.scalar(st, a[7]), st.g), extra=ex)
    if isinstance(ix, Obj) and ix.k == 'ix.transfer':
        d = dict(ix.d)
        d['hook'] = TR
        I.write_ref(st, I.scalar(st, a[0]), Obj('ix.transfer', d))
    return [(st, OK(UNIT))]


@reg(r'Instruction::new_with_(bytes|borsh|bincode)$')
def m_ixbytes(I, st, f, a):
    d = a[1]
    v = d
    if not isinstance(v, Obj):
        v = I.read_ref(st, I.scalar(st, d)) if isinstance(I.expand(d), int) else d
    return [(st, Obj('ix.raw', {'prog': I.scalar(st, a[0]), '=data': v}))]


@reg(r'AccountMeta::new(_readonly)?$')
def m_meta(I, st, f, a):
    return [(st, Obj('meta', {'k': I.scalar(st, a[0])}))]


@reg(r'program::invoke(_signed)?(_unchecked)?$')
def m_invoke(I, st, f, a):
    ix = I.read_ref(st, a[0])
    sd = signer_seeds(I, st, a[2]) if len(a) > 2 else []
    if isinstance(ix, Obj) and ix.k == 'ix.transfer':
        effect(I, st, 'transfer', seeds=sd, **{k: v for k, v in ix.d.items()})
    elif isinstance(ix, Obj) and ix.k == 'ix.raw' and isinstance(ix.d['=data'], Obj) and ix.d['=data'].k == 'event':
        e = ix.d['=data']
        effect(I, st, 'event', ty=e.d['=ty'], fields=e.d['=fields'], prog=ix.d['prog'], seeds=sd)
    else:
        I.gap('invoke of unknown instruction')
        effect(I, st, 'invoke?', what=repr(ix)[:80], seeds=sd)
    return [(st, OK(UNIT))]


@reg(r'anchor_lang::Event>::data$')
def m_event(I, st, f, a):
    v = I.expand(I.read_ref(st, a[0]))
    et = I.ty(I.ty(I.argtys[0])['e'])
    fl = {}
    if isinstance(v, Agg):
        for (n, _), x in zip(et['vs'][0]['fs'], v.f):
            x = I.expand(x) if isinstance(x, Sym) and I.ty(x.ty)['leaf'] else x
            fl[n] = restrict(x, st.g) if isinstance(x, int) else x
    return [(st, Obj('event', {'=ty': tyshort(et['name']), '=fields': fl}))]


# ------------------------------------------------------------------ sysvars, deserialisation
@reg(r'prelude::Clock>::get$', r'prelude::Rent>::get$', r'SolanaSysvar for .*>::get$', r'Sysvar::get$', r'Clock::get$', r'Rent::get$')
def m_sysvar(I, st, f, a):
    t = I.ty(I.dty)['ga'][0]
    return [(st, OK(Sym((tyshort(I.ty(t)['name']).lower(),), t)))]


@reg(r'Rent::(minimum_balance|is_exempt)$')
def m_rent(I, st, f, a):
    if f['nd'].endswith('is_exempt'):
        return [(st, UNKB('rent'))]
    n = I.scalar(st, a[1])
    return [(st, apply1('rent', lambda p: leaf(pterm(T('rent_min', p, lo=0, hi=2**64 - 1))) if isinstance(p, Poly) else TOP, n))]


@reg(r'anchor_lang::AnchorDeserialize>?::deserialize$', r'BorshDeserialize>?::deserialize$', r'AnchorDeserialize::(deserialize|try_from_slice)$')
def m_deser(I, st, f, a):
    t = I.ty(I.dty)['ga'][0]
    nm = tyshort(I.ty(t)['name'])
    c = BOOLT(T('deserializes', nm))
    # anchor deserialises #[instruction(..)] args a second time: same bytes, same values, so name by field only
    return split(I, st, c, Sym(('arg',), t), errv('deser'))


@reg(r'bytemuck::try_cast_slice(_mut)?$', r'bytemuck::cast_slice(_mut)?$')
def m_castslice(I, st, f, a):
    t = I.ty(I.argtys[0])
    e = I.ty(t['e'])
    el = I.ty(e['e'])

    def g(r):
        if isinstance(r, Ref) and r.meta and r.meta[2].const is not None:
            return leaf(Ref(r.obj, r.path, ('w', P0, pconst(r.meta[2].const * el['sz']))))
        return TOP
    v = apply1('castslice', g, I.scalar(st, a[0]))
    return [(st, OK(v) if 'try_' in f['nd'] else v)]


@reg(r'bytemuck::try_from_bytes(_mut)?$', r'bytemuck::from_bytes(_mut)?$')
def m_frombytes(I, st, f, a):
    rt = I.ty(I.dty)
    if 'try_' in f['nd']:
        rt = I.ty(rt['ga'][0])
    e = rt['e']
    et = I.ty(e)

    def g(r):
        if isinstance(r, Ref) and r.meta and r.meta[2].const == et['sz']:
            off = r.meta[1].const or 0
            return leaf(Ref(r.obj, r.path + (('view', e, off),), None))
        return TOP
    v = apply1(('frombytes', e), g, I.scalar(st, a[0]))
    if v == TOP:
        I.gap('from_bytes size mismatch')
        return [(st, ERR(TOP))]
    return [(st, OK(v) if 'try_' in f['nd'] else v)]


@reg(r'bytemuck::(try_)?pod_read_unaligned$', r'bytemuck::(try_)?from_bytes_copied$')
def m_podread(I, st, f, a):
    return NotImplemented


@reg(r'std::collections::BTreeSet::<T>::new$', r'BTreeSet')
def m_bts(I, st, f, a):
    return [(st, TOP)]


@reg(r'std::mem::(replace)$')
def m_replace(I, st, f, a):
    old = I.read_ref(st, a[0])
    I.write_ref(st, I.scalar(st, a[0]), a[1])
    return [(st, old)]


@reg(r'std::mem::take$')
def m_take(I, st, f, a):
    old = I.read_ref(st, a[0])
    t = I.ty(I.argtys[0])['e']
    I.write_ref(st, I.scalar(st, a[0]), I.zero(t))
    return [(st, old)]


@reg(r'std::mem::swap$')
def m_swap(I, st, f, a):
    x, y = I.read_ref(st, a[0]), I.read_ref(st, a[1])
    I.write_ref(st, I.scalar(st, a[0]), y)
    I.write_ref(st, I.scalar(st, a[1]), x)
    return [(st, UNIT)]


@reg(r'std::mem::(drop|forget)$')
def m_drop(I, st, f, a):
    return [(st, UNIT)]


@reg(r'^std::ptr::drop_in_place')
def m_dip(I, st, f, a):
    return [(st, UNIT)]
