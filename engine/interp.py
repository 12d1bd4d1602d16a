"""Interprocedural abstract interpreter over the dumped, type-checked MIR.

One forward dataflow pass per instruction entry point; states that meet at a
control-flow merge are joined (see dd.py), so the cost is in the size of the
program and not in the number of its paths.
"""
import heapq
import json
import re
from collections import namedtuple, defaultdict
from dd import *

Ref = namedtuple('Ref', 'obj path meta')      # meta: None | ('w', start Poly, len Poly) | ('vt', concrete ty id)
FnVal = namedtuple('FnVal', 'f')


class Agg:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return 'Agg' + repr(self.f)


class Enum:
    __slots__ = ('d', 'v')

    def __init__(self, d, v):
        self.d = d
        self.v = v

    def __repr__(self):
        return 'Enum(%s,%r)' % (self.d, self.v)


class Sym:
    __slots__ = ('path', 'ty')

    def __init__(self, path, ty):
        self.path = path
        self.ty = ty

    def __repr__(self):
        return 'Sym(%s)' % (self.path,)


class Arr:
    """array / vec buffer: stores newest first over a base (Sym path+elem ty, or a fixed default value)"""
    __slots__ = ('n', 'ety', 'base', 'stores')

    def __init__(self, n, ety, base, stores=()):
        self.n = n
        self.ety = ety
        self.base = base      # ('sym', path) | ('val', value)
        self.stores = stores

    def __repr__(self):
        return 'Arr(%s,%r)' % (self.base, self.stores)


class VecV:
    __slots__ = ('arr', 'len')

    def __init__(self, arr, ln):
        self.arr = arr
        self.len = ln

    def __repr__(self):
        return 'Vec(%r,len=%s)' % (self.arr, self.len)


class Raw:
    """raw byte storage seen through typed views: fields by (offset,width)"""
    __slots__ = ('path', 'zero', 'w')

    def __init__(self, path, zero, w):
        self.path = path
        self.zero = zero
        self.w = w            # dict (off,width)->node


class Obj:
    """opaque structured value produced by a model (instruction, event bytes, iterator...)"""
    __slots__ = ('k', 'd')

    def __init__(self, k, d):
        self.k = k
        self.d = d

    def __repr__(self):
        return 'Obj(%s,%r)' % (self.k, self.d)


class _U:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _U()
TOPT = T('top')


class NeedErrors(Exception):
    """error values are compared: they have to be tracked (they are not by default)"""

TOP = leaf(TOPT)
UNIT = Agg(())
N0 = leaf(P0)
N1 = leaf(P1)


def num(n):
    return leaf(pconst(n))


class AnalysisGap(Exception):
    pass


class State:
    """memory, path condition g, and s: the latest soft conditions passed on the way (see assume), kept
    apart from g and used only to tell two joined states apart"""
    __slots__ = ('mem', 'g', 's')

    def __init__(self, mem, g, s=()):
        self.mem = mem
        self.g = g
        self.s = s

    def copy(self):
        return State(dict(self.mem), self.g, self.s)


def norm(s):
    return s.replace('core::', 'std::').replace('alloc::', 'std::')


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.F = d['fns']
        self.TY = d['tys']
        self.AL = d['allocs']
        self.vt = {}
        self.vtn = {}
        for c, dn, fs in d['vtables']:
            self.vt.setdefault(c, []).append((dn, fs))
        self.crate = d['crate']
        self.roots = d['roots']
        for t in self.TY:
            self._prep(t)
        for i, f in enumerate(self.F):
            f['id'] = i
            f['nd'] = norm(f['def'])
        self.tyname = {}
        for i, t in enumerate(self.TY):
            self.tyname.setdefault(t['name'], i)
        self.info = {}
        self.own = {f['name'] for f in self.F if f['krate'] == 'presale'}

    def _prep(self, t):
        k = t['k']
        n = t['name']
        t['leaf'] = False
        d = t.get('def', '')
        if k in ('bool', 'char', 'int', 'uint', 'float', 'ptr', 'ref', 'fnptr'):
            t['leaf'] = True
        elif k == 'array' and self.TY[t['e']]['name'] == 'u8':
            t['leaf'] = True
            t['bytes'] = True
        elif k == 'struct':
            if t.get('box'):
                t['leaf'] = True
            elif d.split('::')[-1] in ('Pubkey', 'Address') and len(t['vs'][0]['fs']) == 1:
                t['leaf'] = True
                t['bytes'] = True
                t['key'] = True
            elif d.split('::')[-1] in ('Hash',) and len(t['vs'][0]['fs']) == 1:
                t['leaf'] = True
                t['bytes'] = True
            elif norm(d) in ('std::ptr::NonNull', 'std::ptr::Unique', 'std::ptr::non_null::NonNull', 'std::ptr::unique::Unique'):
                t['leaf'] = True
            elif d.startswith('anchor_lang::') and d.split('::')[-1] in ('AccountLoader', 'InterfaceAccount', 'Interface', 'Program', 'Signer', 'UncheckedAccount', 'Account', 'SystemAccount'):
                t['leaf'] = True
                t['acct'] = True
        elif k == 'pat':
            t['leaf'] = True
        t['vec'] = k == 'struct' and norm(d) in ('std::vec::Vec',)

    # ------------------------------------------------------------ what a loop reads
    def loop_uses(self, f, comp):
        """locals mentioned in the blocks of a loop"""
        key = ('lu', f['id'], min(comp), len(comp))
        r = self.info.get(key)
        if r is None:
            r = set()

            def walk(x):
                if isinstance(x, list):
                    if len(x) == 2 and type(x[0]) is int and isinstance(x[1], list):
                        r.add(x[0])
                    for y in x:
                        walk(y)
            for b in comp:
                for s in f['blocks'][b]['s']:
                    walk(s)
                walk(f['blocks'][b]['t'])
            self.info[key] = r
        return r

    def loop_sets(self, f, comp):
        """locals assigned as a whole in the blocks of a loop"""
        key = ('ls', f['id'], min(comp), len(comp))
        r = self.info.get(key)
        if r is None:
            r = set()
            for b in comp:
                for s in f['blocks'][b]['s']:
                    if s[0] == '=' and not s[1][1]:
                        r.add(s[1][0])
                t = f['blocks'][b]['t']
                if t[0] == 'call' and t[4] and not t[4][1]:
                    r.add(t[4][0])
            self.info[key] = r
        return r

    def loop_bounds(self, f, comp):
        """what comparisons inside a loop compare with: ('len', place of a slice or vector), ('val', local), ('range', place)"""
        key = ('lb', f['id'], min(comp), len(comp))
        r = self.info.get(key)
        if r is not None:
            return r
        dfn = {}
        for b in comp:
            for s in f['blocks'][b]['s']:
                if s[0] == '=' and not s[1][1]:
                    dfn.setdefault(s[1][0], []).append(s[2])
            t = f['blocks'][b]['t']
            if t[0] == 'call' and not t[4][1]:
                dfn.setdefault(t[4][0], []).append(('call', t))
        r = []

        def place(o):
            return o[1] if isinstance(o, (list, tuple)) and o and o[0] in ('c', 'm') else None

        def base(p, d=0):
            """the place outside the loop that this reference designates"""
            if p is None or d > 8:
                return None
            if p[0] not in dfn:
                return p
            if p[1] and p[1] != ['*']:
                return None
            for x in dfn[p[0]]:
                if x[0] in ('use', 'cast'):
                    return base(place(x[1] if x[0] == 'use' else next((y for y in x[1:] if isinstance(y, list)), None)), d + 1)
                if x[0] in ('ref', 'addr', 'rawref'):
                    q = x[1]
                    if q[0] in dfn:
                        if q[1] and q[1][0] == '*':
                            return base([q[0], q[1][:1]], d + 1) if len(q[1]) == 1 else None
                        return None
                    return q
                if x[0] == 'call' and x[1][3] and x[1][1] is not None and re.search(r'(deref|as_slice|as_ref)$', self.F[x[1][1]]['nd']):
                    return base(place(x[1][3][0]), d + 1)
            return None

        def bound(o, d=0):
            p = place(o)
            if p is None or d > 8:
                return
            if p[0] not in dfn:
                r.append(('val', p))
                return
            if p[1]:
                return
            for x in dfn[p[0]]:
                if x[0] == 'use':
                    bound(x[1], d + 1)
                elif x[0] == 'un' and x[1] == 'PtrMetadata':
                    q = base(place(x[2]))
                    if q is not None:
                        r.append(('len', q))
                elif x[0] == 'call' and x[1][1] is not None and x[1][3] and re.search(r'::len$', self.F[x[1][1]]['nd']):
                    q = base(place(x[1][3][0]))
                    if q is not None:
                        r.append(('len', q))
        for b in comp:
            for s in f['blocks'][b]['s']:
                if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                    for o in s[2][2:]:
                        bound(o)
            t = f['blocks'][b]['t']
            if t[0] == 'call' and t[1] is not None and re.search(r'Range(Inclusive)?<.*::next$', self.F[t[1]]['name']) and t[3]:
                q = base(place(t[3][0]))
                if q is not None:
                    r.append(('range', q))
        self.info[key] = r
        return r

    # ------------------------------------------------------------ CFG info
    def cfg(self, f):
        fi = self.info.get(f['id'])
        if fi:
            return fi
        bl = f['blocks']
        succ = []
        for b in bl:
            t = b['t']
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop':
                s = [t[2]]
            elif k == 'call':
                s = [t[5]] if t[5] >= 0 else []
            elif k == 'assert':
                s = [t[3]]
            else:
                s = []
            succ.append(s)
        order, comps = wto(succ)
        live = liveness(f, succ)
        res = {}
        for i, ty in enumerate(f['locals']):
            tt = self.TY[ty]
            if tt['k'] == 'enum' and norm(tt.get('def', '')) in ('std::result::Result', 'std::ops::ControlFlow', 'std::ops::control_flow::ControlFlow'):
                res[i] = 'R' if norm(tt.get('def', '')) == 'std::result::Result' else 'C'
        fi = (order, live, res, comps)
        self.info[f['id']] = fi
        return fi


def wto(succ):
    """position of every block in a weak topological order (loop bodies contiguous)"""
    n = len(succ)
    pos = {}
    cnt = [0]
    comps = {}

    def sccs(nodes, entry, removed):
        index = {}
        low = {}
        st = []
        on = set()
        out = []
        ctr = [0]
        for root in ([entry] if entry is not None else []):
            work = [(root, iter(succ[root]))]
            index[root] = low[root] = ctr[0]
            ctr[0] += 1
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in nodes or (v, w) in removed:
                        continue
                    if w not in index:
                        index[w] = low[w] = ctr[0]
                        ctr[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(succ[w])))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append((v, c))
        out.reverse()
        return out

    def rec(nodes, entry, removed):
        for head, c in sccs(nodes, entry, removed):
            if len(c) == 1:
                pos[c[0]] = cnt[0]
                cnt[0] += 1
            else:
                # head = entry of the SCC in DFS = loop header
                comps[head] = frozenset(c)
                rem = set(removed)
                for v in c:
                    if head in succ[v]:
                        rem.add((v, head))
                rec(set(c), head, rem)

    rec(set(range(n)), 0, set())
    return pos, comps


def liveness(f, succ):
    bl = f['blocks']
    n = len(bl)
    use = []
    dfn = []

    def pl(p, u, d, write=False):
        if p[1]:
            if p[0] not in d:
                u.add(p[0])
            for pr in p[1]:
                if isinstance(pr, list) and pr[0] == 'i' and pr[1] not in d:
                    u.add(pr[1])
        else:
            if write:
                d.add(p[0])
            elif p[0] not in d:
                u.add(p[0])

    def op(o, u, d):
        if o[0] in ('c', 'm'):
            pl(o[1], u, d)

    for b in bl:
        u = set()
        d = set()
        for s in b['s']:
            if s[0] == '=':
                rv = s[2]
                if rv[0] in ('ref', 'discr', 'len'):
                    pl(rv[1], u, d)
                elif rv[0] == 'agg':
                    for o in rv[2]:
                        op(o, u, d)
                else:
                    for o in rv[1:]:
                        if isinstance(o, list) and o and o[0] in ('c', 'm') and len(o) == 2:
                            op(o, u, d)
                pl(s[1], u, d, True)
            elif s[0] == 'sd':
                pl(s[1], u, d)
        t = b['t']
        if t[0] == 'switch':
            op(t[1], u, d)
        elif t[0] == 'call':
            if t[2]:
                op(t[2], u, d)
            for o in t[3]:
                op(o, u, d)
            pl(t[4], u, d, True)
        elif t[0] == 'assert':
            op(t[1], u, d)
        elif t[0] == 'ret':
            if 0 not in d:
                u.add(0)
        use.append(u)
        dfn.append(d)
    live = [set(use[i]) for i in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            new = set(use[i])
            for s in succ[i]:
                new |= live[s] - dfn[i]
            if new != live[i]:
                live[i] = new
                ch = True
    return live


MAXLOOP = 9


class Interp:
    lastprog = None

    def __init__(self, prog, models):
        if Interp.lastprog is not prog:
            # type numbers occur in memoisation keys and differ between programs
            import dd
            dd._apply.clear()
            Interp.lastprog = prog
        self.p = prog
        self.models = models
        self.frame = 0
        self.effects = []
        self.unknown = {}
        self.gaps = {}
        self.stats = defaultdict(int)
        self.stack = []
        self.panics = []
        self.arith = []
        self.objty = {}
        self.fresh = 0
        self.loopcuts = []
        self.lossy = []
        self.cur = None
        self.fnseen = set()
        self.loopmax = MAXLOOP
        self.stnames = {}
        self.stidx = {}
        self.inits = []
        self.accts = {}
        self.ctxs = []
        self.dty = None
        self.soft = True
        self.prods = []
        self.precise = False
        self.cz = None
        self.loops = {}
        self.nd = {}
        self.argtys = []
        self.ai_ty = next((i for i, t in enumerate(prog.TY) if t['k'] == 'struct' and t.get('def', '').endswith('::AccountInfo')), None)

    # ------------------------------------------------------------ symbolic expansion
    def ty(self, i):
        return self.p.TY[i]

    def sym_range(self, t):
        k = t['k']
        if k == 'uint':
            return (0, 2 ** t['w'] - 1)
        if k == 'int':
            return (-2 ** (t['w'] - 1), 2 ** (t['w'] - 1) - 1)
        if k == 'char':
            return (0, 0x10ffff)
        return (None, None)

    def expand(self, s):
        if not isinstance(s, Sym):
            return s
        t = self.ty(s.ty)
        k = t['k']
        if k in ('uint', 'int', 'char'):
            lo, hi = self.sym_range(t)
            return leaf(pterm(T('sym', *s.path, lo=lo, hi=hi)))
        if k == 'bool':
            return BOOLT(T('sym', *s.path))
        if k in ('ref', 'ptr') or t.get('box'):
            e = t['e'] if k in ('ref', 'ptr') else self.box_elem(t)
            et = self.ty(e)
            meta = None
            if et['k'] in ('slice', 'str'):
                meta = ('w', P0, pterm(T('sym', *s.path, 'len', lo=0, hi=2**32)))
                o = ('D', s.path, e)
            else:
                o = ('D', s.path, e)
            return leaf(Ref(o, (), meta))
        if t['leaf']:
            return leaf(T('sym', *s.path))
        if t['vec']:
            ety = self.vec_elem(t)
            return VecV(Arr(None, ety, ('sym', s.path)), leaf(pterm(T('sym', *s.path, 'len', lo=0, hi=2**32))))
        if k in ('struct', 'tuple', 'closure'):
            if k == 'struct':
                fs = t['vs'][0]['fs']
                return Agg([Sym(s.path + (n,), ft) for n, ft in fs])
            fs = t['fs']
            return Agg([Sym(s.path + (str(i),), ft) for i, ft in enumerate(fs)])
        if k == 'enum':
            vs = t['vs']
            d = leaf(pterm(T('sym', *s.path, '#', lo=0, hi=len(vs) - 1))) if len(vs) > 1 else N0
            return Enum(d, {i: tuple(Sym(s.path + (v['n'], n), ft) for n, ft in v['fs']) for i, v in enumerate(vs)})
        if k == 'array':
            return Arr(t['n'], t['e'], ('sym', s.path))
        if k == 'slice':
            return Arr(None, t['e'], ('sym', s.path))
        if k == 'str':
            return leaf(T('sym', *s.path))
        return leaf(T('sym', *s.path))

    def vec_elem(self, t):
        return t['ga'][0]

    def box_elem(self, t):
        return t['ga'][0]

    def zero(self, tyid):
        t = self.ty(tyid)
        k = t['k']
        if k in ('uint', 'int', 'char'):
            return N0
        if k == 'bool':
            return F
        if t.get('bytes'):
            return leaf(T('bytes', '00' * t['sz']))
        if k == 'struct':
            return Agg([self.zero(ft) for _, ft in t['vs'][0]['fs']])
        if k == 'tuple':
            return Agg([self.zero(ft) for ft in t['fs']])
        if k == 'array':
            return Arr(t['n'], t['e'], ('val', self.zero(t['e'])))
        if k == 'enum':
            return Enum(N0, {0: tuple(self.zero(ft) for _, ft in t['vs'][0]['fs'])})
        return TOP

    # ------------------------------------------------------------ constants
    def decode(self, tyid, b, prov, off=0):
        """b: hex string, prov: {off: alloc}"""
        t = self.ty(tyid)
        k = t['k']
        sz = t['sz']
        h = b[2 * off:2 * (off + sz)] if sz is not None else ''
        if k in ('uint', 'int', 'char', 'bool') or k == 'float':
            if '_' in h:
                return UNDEF
            v = int.from_bytes(bytes.fromhex(h), 'little', signed=(k == 'int'))
            if k == 'bool':
                return TR if v else F
            return num(v)
        if k in ('ref', 'ptr', 'fnptr') or t.get('box') or (t['leaf'] and not t.get('bytes')):
            a = prov.get(off)
            et = self.ty(t['e']) if k in ('ref', 'ptr') else None
            if a is None:
                if '_' in h:
                    return UNDEF
                v = int.from_bytes(bytes.fromhex(h[:16]), 'little')
                if et is not None and et['k'] in ('slice', 'str'):
                    n = int.from_bytes(bytes.fromhex(h[16:32]), 'little')
                    return leaf(Ref(('dangling',), (), ('w', P0, pconst(n))))
                return leaf(Ref(('addr', v), (), None))
            al = self.p.AL[a]
            if al['k'] == 'fn':
                return leaf(FnVal(al['f']))
            if et is None:
                return TOP
            aoff = int.from_bytes(bytes.fromhex(h[:16]), 'little')
            o = ('alloc', a, t['e'] if et['k'] not in ('slice', 'str') else et.get('e'), et['k'], aoff)
            meta = None
            if et['k'] in ('slice', 'str'):
                n = int.from_bytes(bytes.fromhex(h[16:32]), 'little')
                meta = ('w', P0, pconst(n))
                o = ('alloc', a, et.get('e'), et['k'], aoff, n)
            elif et['k'] == 'dyn':
                return TOP
            return leaf(Ref(o, (), meta))
        if t.get('bytes'):
            return leaf(T('bytes', h)) if '_' not in h else TOP
        if k == 'struct':
            if t['vec']:
                if all(c in '0_' for c in h[32:]) or True:
                    return VecV(Arr(None, self.vec_elem(t), ('val', UNDEF)), N0)
            return Agg([self.decode(ft, b, prov, off + t['off'][i]) for i, (_, ft) in enumerate(t['vs'][0]['fs'])])
        if k in ('tuple', 'closure'):
            return Agg([self.decode(ft, b, prov, off + t['off'][i]) for i, ft in enumerate(t['fs'])])
        if k == 'array':
            e = self.ty(t['e'])
            st = [(pconst(i), self.decode(t['e'], b, prov, off + i * e['sz'])) for i in range(t['n'])]
            return Arr(t['n'], t['e'], ('val', UNDEF), tuple(st))
        if k == 'enum':
            vs = t['vs']
            if all(not v['fs'] for v in vs):
                if len(vs) == 1:
                    return Enum(N0, {0: ()})
                v = int.from_bytes(bytes.fromhex(h), 'little') if '_' not in h else None
                sg = int.from_bytes(bytes.fromhex(h), 'little', signed=True) if '_' not in h else None
                for i, x in enumerate(vs):
                    if int(x['d']) in (v, sg):
                        return Enum(num(i), {i: ()})
                return TOP
            lay = t.get('lay')
            i = None
            if lay is None:
                live = [j for j, v in enumerate(vs) if not any(self.ty(ft)['k'] == 'never' or self.ty(ft)['k'] == 'enum' and not self.ty(ft)['vs'] for _, ft in v['fs'])]
                i = live[0] if len(live) == 1 else None
                offs = t['off']
            else:
                tg = h[2 * lay['o']:2 * (lay['o'] + lay['n'])]
                ptr = prov.get(off + lay['o']) is not None
                v = None if '_' in tg or ptr else int.from_bytes(bytes.fromhex(tg), 'little')
                if lay['e'] is None:
                    sg = v - (1 << 8 * lay['n']) if v is not None and v >> (8 * lay['n'] - 1) else v
                    i = next((j for j, x in enumerate(vs) if v is not None and int(x['d']) in (v, sg)), None)
                else:
                    un, first, last, start = lay['e']
                    if v is None:
                        i = un if ptr else None
                    else:
                        d = (v - int(start)) % (1 << 8 * lay['n'])
                        i = first + d if d <= last - first else un
                offs = lay['v'][i] if i is not None else None
            if i is not None:
                return Enum(num(i), {i: tuple(self.decode(ft, b, prov, off + offs[j]) for j, (_, ft) in enumerate(vs[i]['fs']))})
            self.gap('const-enum ' + t['name'])
            return TOP
        if sz == 0:
            return UNIT
        return TOP

    def zst(self, tyid):
        t = self.ty(tyid)
        k = t['k']
        if k == 'struct':
            if t['leaf'] and not t.get('bytes'):
                return TOP
            return Agg([self.zst(ft) for _, ft in t['vs'][0]['fs']])
        if k in ('tuple', 'closure'):
            return Agg([self.zst(ft) for ft in t['fs']])
        if k == 'enum':
            vs = t['vs']
            for i, v in enumerate(vs):
                return Enum(num(i), {i: tuple(self.zst(ft) for _, ft in v['fs'])})
        if t.get('bytes'):
            return leaf(T('bytes', ''))
        if k == 'array':
            return Arr(t['n'], t['e'], ('val', UNDEF))
        return UNIT

    def gap(self, msg, st=None):
        msg = msg + ' @ ' + (self.stack[-1] if self.stack else '')
        self.gaps[msg] = self.gaps.get(msg, 0) + 1

    # ------------------------------------------------------------ memory
    def initial(self, o):
        k = o[0]
        if k == 'D':
            return Sym(o[1], o[2])
        if k == 'alloc':
            al = self.p.AL[o[1]]
            if al['k'] != 'mem':
                return TOP
            prov = {x[0]: x[1] for x in al['p']}
            if o[3] == 'str':
                return leaf(T('bytes', al['b'][2 * o[4]:2 * (o[4] + o[5])]))
            if o[3] == 'slice':
                e = self.ty(o[2])
                if e['name'] == 'u8':
                    return leaf(T('bytes', al['b'][2 * o[4]:2 * (o[4] + o[5])]))
                st = tuple((pconst(i), self.decode(o[2], al['b'], prov, o[4] + i * e['sz'])) for i in range(o[5]))
                return Arr(o[5], o[2], ('val', UNDEF), st)
            return self.decode(o[2], al['b'], prov, o[4])
        if k == 'st':      # account state
            return Sym(o[2], o[1])
        if k == 'key':
            return leaf(T('key', o[1]))
        if k == 'owner':
            return leaf(T('owner', o[1]))
        if k == 'accts':
            return Arr(None, self.ai_ty, ('acct', None))
        if k == 'data':
            return leaf(T('data', o[1]))
        if k == 'val':
            return o[1]
        return UNDEF

    def load_obj(self, st, o):
        v = st.mem.get(o)
        if v is None:
            v = self.initial(o)
        return v

    def arr_get(self, st, a, idx):
        acc = None
        sel = []
        for key, v in a.stores:
            if key is idx:
                base = v
                break
            if key.const is not None and idx.const is not None:
                continue
            c = restrict(EQP(key, idx), st.g)
            if c == F:
                continue
            sel.append((c, v))
            if c == TR:
                base = None
                break
        else:
            if a.base[0] == 'sym':
                base = Sym(a.base[1] + ('[%s]' % pstr(idx),), a.ety)
            elif a.base[0] == 'acct':
                base = self.ai_value(idx.const if idx.const is not None else idx)
            else:
                base = a.base[1]
        if sel and base is None:
            base = sel.pop()[1]
        for c, v in reversed(sel):
            base = self.merge(c, v, base)
        return base

    def arr_set(self, a, idx, v):
        return Arr(a.n, a.ety, a.base, ((idx, v),) + tuple(s for s in a.stores if s[0] is not idx))

    def step(self, st, v, el):
        """project value v by one path element"""
        if isinstance(v, Sym):
            v = self.expand(v)
        k = el[0]
        if v is UNDEF or (isinstance(v, int) and v == TOP):
            return v
        if k == 'f':
            if isinstance(v, Agg):
                return v.f[el[1]]
            if isinstance(v, Enum):   # field after missing downcast (single variant)
                for vi, fs in v.v.items():
                    return fs[el[1]] if el[1] < len(fs) else UNDEF
                return UNDEF
            if isinstance(v, int):
                if el[1] == 0:
                    return v
                return TOP
            if isinstance(v, Obj):
                h = v.d.get(el[1]) if isinstance(v.d, dict) else None
                if h is not None:
                    return h
                return TOP
            if isinstance(v, VecV):
                return TOP
            return TOP
        if k == 'd':
            if isinstance(v, Enum):
                return Enum(num(el[1]), {el[1]: v.v[el[1]]}) if el[1] in v.v else UNDEF
            return v
        if k == 'i':
            if isinstance(v, Arr):
                return self.arr_get(st, v, el[1])
            if isinstance(v, VecV):
                return self.arr_get(st, v.arr, el[1])
            if isinstance(v, int):
                return apply1(('byte', el[1]), lambda t: byte_at(t, el[1]), v)
            return TOP
        if k == 'V':
            if isinstance(v, VecV):
                return v.arr
            return v
        if k == 'view':
            return v if not isinstance(v, (Arr,)) else self.as_raw(v)
        if k == 'raw':
            r = self.as_raw(v)
            return self.raw_read(r, el[1], el[2])
        return TOP

    def as_raw(self, v):
        if isinstance(v, Raw):
            return v
        if isinstance(v, Arr):
            if v.base[0] == 'sym' and not v.stores:
                return Raw(v.base[1], False, {})
            if v.base[0] == 'val' and not v.stores:
                return Raw(None, True, {})
        return Raw(('?raw',), False, {})

    def raw_read(self, r, off, tyid):
        """typed read of raw bytes at offset"""
        t = self.ty(tyid)
        k = t['k']
        if k == 'struct' and not t['leaf']:
            return Agg([self.raw_read(r, off + t['off'][i], ft) for i, (_, ft) in enumerate(t['vs'][0]['fs'])])
        if k == 'array' and not t['leaf']:
            e = self.ty(t['e'])
            return Arr(t['n'], t['e'], ('val', UNDEF), tuple((pconst(i), self.raw_read(r, off + i * e['sz'], t['e'])) for i in range(t['n'])))
        w = t['sz']
        if (off, w) in r.w:
            return r.w[(off, w)]
        for (o2, w2) in r.w:
            if o2 <= off and off + w <= o2 + w2 and isinstance(r.w[(o2, w2)], int) and k == 'uint':
                # part of a wider little-endian integer
                def part(p, sh=8 * (off - o2), n=8 * w):
                    if not isinstance(p, Poly):
                        return TOP
                    if p.const is not None:
                        return num((p.const >> sh) & ((1 << n) - 1))
                    lo, hi = prange(p)
                    if sh == 0 and lo is not None and hi is not None and 0 <= lo and hi < 1 << n:
                        return leaf(p)
                    return TOP
                return apply1(('rawpart', off - o2, w), part, r.w[(o2, w2)])
        for (o2, w2) in r.w:
            if o2 < off + w and off < o2 + w2:
                return TOP
        if r.zero:
            return self.zero(tyid)
        return self.expand(Sym(r.path + ('@%d:%d' % (off, w),), tyid))

    def raw_write(self, r, off, tyid, v):
        t = self.ty(tyid)
        k = t['k']
        if k == 'struct' and not t['leaf']:
            v = self.expand(v)
            for i, (_, ft) in enumerate(t['vs'][0]['fs']):
                r = self.raw_write(r, off + t['off'][i], ft, v.f[i] if isinstance(v, Agg) else TOP)
            return r
        if k == 'array' and not t['leaf']:
            v = self.expand(v)
            e = self.ty(t['e'])
            for i in range(t['n']):
                x = self.arr_get(State({}, TR), v, pconst(i)) if isinstance(v, Arr) else TOP
                r = self.raw_write(r, off + i * e['sz'], t['e'], x)
            return r
        w = dict(r.w)
        sz = t['sz']
        for (o2, w2) in list(w):
            if o2 < off + sz and off < o2 + w2 and (o2, w2) != (off, sz):
                w[(o2, w2)] = TOP
        w[(off, sz)] = self.expand(v)
        return Raw(r.path, r.zero, w)

    def get_path(self, st, v, path):
        i = 0
        while i < len(path):
            el = path[i]
            if el[0] == 'view':
                # typed view onto raw storage: collapse following field steps to an offset
                r = self.as_raw(self.expand(v) if isinstance(v, Sym) else v)
                off, ty, i = self.view_off(path, i)
                return self.get_path(st, self.raw_read(r, off, ty), path[i:])
            v = self.step(st, v, el)
            i += 1
        return v

    def view_off(self, path, i):
        ty = path[i][1]
        off = path[i][2] if len(path[i]) > 2 else 0
        i += 1
        while i < len(path):
            t = self.ty(ty)
            el = path[i]
            if el[0] == 'f' and t['k'] in ('struct', 'tuple') and not t['leaf']:
                off += t['off'][el[1]]
                ty = t['vs'][0]['fs'][el[1]][1] if t['k'] == 'struct' else t['fs'][el[1]]
            elif el[0] == 'i' and t['k'] == 'array' and el[1].const is not None:
                ty = t['e']
                off += self.ty(ty)['sz'] * el[1].const
            elif el[0] == 'view':
                ty = el[1]
                off += el[2] if len(el) > 2 else 0
            else:
                break
            i += 1
        return off, ty, i

    def set_path(self, st, v, path, new, i=0):
        if i == len(path):
            return new
        el = path[i]
        if isinstance(v, Sym):
            v = self.expand(v)
        k = el[0]
        if k == 'view':
            r = self.as_raw(v)
            off, ty, j = self.view_off(path, i)
            if j < len(path):
                sub = self.set_path(st, self.raw_read(r, off, ty), path, new, j)
            else:
                sub = new
            return self.raw_write(r, off, ty, sub)
        if k == 'f':
            if isinstance(v, Agg):
                f = list(v.f)
                f[el[1]] = self.set_path(st, f[el[1]], path, new, i + 1)
                return Agg(f)
            if isinstance(v, Enum) and len(v.v) == 1:
                (vi, fs), = v.v.items()
                f = list(fs)
                while len(f) <= el[1]:
                    f.append(UNDEF)
                f[el[1]] = self.set_path(st, f[el[1]], path, new, i + 1)
                return Enum(v.d, {vi: tuple(f)})
            if v is UNDEF:
                f = [UNDEF] * (el[1] + 1)
                f[el[1]] = self.set_path(st, UNDEF, path, new, i + 1)
                return Agg(f)
            if isinstance(v, int) and el[1] == 0:
                return self.set_path(st, v, path, new, i + 1)
            return v
        if k == 'd':
            if isinstance(v, Enum):
                cur = v.v.get(el[1], ())
                sub = self.set_path(st, Enum(num(el[1]), {el[1]: cur}), path, new, i + 1)
                d = dict(v.v)
                d[el[1]] = sub.v[el[1]] if isinstance(sub, Enum) else cur
                return Enum(v.d, d)
            if v is UNDEF:
                sub = self.set_path(st, Enum(num(el[1]), {el[1]: ()}), path, new, i + 1)
                return sub
            return v
        if k == 'i':
            a = v
            if isinstance(v, VecV):
                return VecV(self.set_path(st, v.arr, path, new, i), v.len)
            if isinstance(a, Arr):
                if i + 1 == len(path):
                    return self.arr_set(a, el[1], new)
                old = self.arr_get(st, a, el[1])
                return self.arr_set(a, el[1], self.set_path(st, old, path, new, i + 1))
            if isinstance(v, int):
                return self.setbyte(v, el[1], new)
            return v
        if k == 'V':
            if isinstance(v, VecV):
                return VecV(self.set_path(st, v.arr, path, new, i + 1), v.len)
            return v
        return v

    def setbyte(self, v, idx, new):
        def f(a, b):
            if isbytes(a) and idx.const is not None and isinstance(b, Poly) and b.const is not None:
                x = bytearray.fromhex(a.args[0])
                x[idx.const] = b.const
                return leaf(T('bytes', bytes(x).hex()))
            return leaf(T('setbyte', a, idx, b))
        return apply2(('setbyte', idx), f, v if isinstance(v, int) else TOP, new if isinstance(new, int) else TOP)

    # ------------------------------------------------------------ merge
    def merge(self, c, a, b):
        """value = c ? a : b"""
        if a is b:
            return a
        if c == TR:
            return a
        if c == F:
            return b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        ia, ib = isinstance(a, int), isinstance(b, int)
        if ia and ib:
            return ceilnorm(ite(c, a, b)) if a > 1 and b > 1 else ite(c, a, b)
        if isinstance(a, Sym) and isinstance(b, Sym) and a.path == b.path and a.ty == b.ty:
            return a
        if isinstance(a, Sym):
            a = self.expand(a)
        if isinstance(b, Sym):
            b = self.expand(b)
        ia, ib = isinstance(a, int), isinstance(b, int)
        if ia and ib:
            return ite(c, a, b)
        if ia or ib:
            return TOP
        if isinstance(a, Agg) and isinstance(b, Agg):
            if len(a.f) != len(b.f):
                return TOP
            ch = [self.merge(c, x, y) for x, y in zip(a.f, b.f)]
            if all(x is y for x, y in zip(ch, a.f)):
                return a
            return Agg(ch)
        if isinstance(a, Enum) and isinstance(b, Enum):
            v = {}
            for k in set(a.v) | set(b.v):
                if k in a.v and k in b.v:
                    fa, fb = a.v[k], b.v[k]
                    if fa is fb:
                        v[k] = fa
                    else:
                        n = max(len(fa), len(fb))
                        fa = tuple(fa) + (UNDEF,) * (n - len(fa))
                        fb = tuple(fb) + (UNDEF,) * (n - len(fb))
                        v[k] = tuple(self.merge(c, x, y) for x, y in zip(fa, fb))
                else:
                    v[k] = a.v[k] if k in a.v else b.v[k]
            return Enum(ite(c, a.d, b.d), v)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.merge_arr(c, a, b)
        if isinstance(a, VecV) and isinstance(b, VecV):
            return VecV(self.merge_arr(c, a.arr, b.arr), ite(c, a.len, b.len))
        if isinstance(a, (Raw, Arr)) and isinstance(b, (Raw, Arr)):
            a, b = self.as_raw(a), self.as_raw(b)
            if a.path != b.path or a.zero != b.zero:
                return TOP
            w = {}
            ks = set(a.w) | set(b.w)
            ks = {k for k in ks if not any(q != k and q[0] <= k[0] and k[0] + k[1] <= q[0] + q[1] for q in ks)}
            for k in ks:
                x = a.w.get(k)
                y = b.w.get(k)
                if x is None:
                    x = self.raw_default(a, k, b.w)
                if y is None:
                    y = self.raw_default(b, k, a.w)
                w[k] = self.merge(c, x, y)
            return Raw(a.path, a.zero, w)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.k == b.k:
            if a.d.keys() == b.d.keys():
                d = {}
                for k in a.d:
                    x, y = a.d[k], b.d[k]
                    if x is y or x == y:
                        d[k] = x
                    elif isinstance(x, (int, Agg, Enum, Arr, VecV, Sym)) and not isinstance(x, bool) and k[:1] != '=':
                        d[k] = self.merge(c, x, y)
                    else:
                        d = None
                        break
                if d is not None:
                    return Obj(a.k, d)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return Obj('alt', {'c': c, '=a': a, '=b': b})
        return TOP

    def raw_default(self, r, k, other):
        parts = [(o2, w2) for (o2, w2) in r.w if o2 < k[0] + k[1] and k[0] < o2 + w2]
        if parts:
            # narrower writes over a zeroed area, read as one little-endian integer
            if not r.zero or k[1] > 16 or any(o2 < k[0] or o2 + w2 > k[0] + k[1] for o2, w2 in parts):
                return TOP
            acc = N0
            for o2, w2 in parts:
                x = r.w[(o2, w2)]
                if not isinstance(x, int):
                    return TOP
                sh = 256 ** (o2 - k[0])
                acc = apply2(('rawcat', sh), lambda p, q: leaf(padd(p, pscale(q, sh))) if isinstance(p, Poly) and isinstance(q, Poly) else TOP, acc, x)
            return acc
        if r.zero:
            return N0 if k[1] <= 16 else TOP
        lo, hi = 0, 2 ** (8 * k[1]) - 1
        return leaf(pterm(T('sym', *(r.path + ('@%d:%d' % k,)), lo=lo, hi=hi)))

    def merge_arr(self, c, a, b):
        if a.base != b.base:
            if a.base[0] == 'val' and b.base[0] == 'val':
                # defaults: UNDEF or structurally equal zero values
                if a.base[1] is UNDEF:
                    base = b.base
                elif b.base[1] is UNDEF:
                    base = a.base
                elif struct_eq(a.base[1], b.base[1]):
                    base = a.base
                else:
                    return TOP
            else:
                return TOP
        else:
            base = a.base
        if a.stores == b.stores:
            return a
        # same key sequence?
        ka = [s[0] for s in a.stores]
        kb = [s[0] for s in b.stores]
        if ka == kb:
            return Arr(a.n, a.ety, base, tuple((k, self.merge(c, x[1], y[1])) for k, x, y in zip(ka, a.stores, b.stores)))
        # general: keys all constants (or one side superset) -> per key merge
        keys = []
        for k in ka + kb:
            if k not in keys:
                keys.append(k)
        stt = State({}, TR)
        allc = all(k.const is not None for k in keys)
        if allc or (set(ka) <= set(kb)) or (set(kb) <= set(ka)):
            if not allc:
                big = a if set(kb) <= set(ka) else b
                keys = [s[0] for s in big.stores]
                small = b if big is a else a
                # only exact if the small side's values do not shadow (at most one symbolic key, or small empty)
                if small.stores and [k for k in keys if k in [s[0] for s in small.stores]] != [s[0] for s in small.stores]:
                    return TOP
            out = []
            for k in keys:
                out.append((k, self.merge(c, self.arr_get(stt, a, k), self.arr_get(stt, b, k))))
            return Arr(a.n, a.ety, base, tuple(out))
        return TOP

    def sel(self, s1, s2, g=None):
        """selector for a join: first state's value under it, else the second's; nondeterministic where both guards hold"""
        g1, g2 = s1.g, s2.g
        if g is None:
            g = OR(g1, g2)
        ov = AND(g1, g2)
        if ov == F:
            return restrict(g1, g)
        if s1.s and s2.s:
            # told apart by a soft condition?
            r1, r2 = [x for x in s1.s if x not in s2.s], [x for x in s2.s if x not in s1.s]
            for x in r1:
                for y in r2:
                    if AND(ov, AND(x, y)) == F:
                        return restrict(ite(g2, AND(g1, simplify_against(x, y)), g1), g)
        k = (g1, g2)
        n = self.nd.get(k)
        if n is None:
            self.fresh += 1
            n = self.nd[k] = BOOLT(T('nondet', self.fresh))
        return restrict(ite(g2, AND(g1, n), g1), g)

    def join_soft(self, s1, s2):
        if s1.s == s2.s:
            return s1.s
        both = tuple(x for x in s1.s if x in s2.s)
        r1, r2 = [x for x in s1.s if x not in both], [x for x in s2.s if x not in both]
        if (r1 or r2) and len(r1) < 4 and len(r2) < 4:
            g = OR(s1.g, s2.g)
            d = OR(AND(restrict(s1.g, g), conj(r1)), AND(restrict(s2.g, g), conj(r2)))
            if d != TR and size(d) < 24:
                both += (d,)
        return both

    def join(self, s1, s2, coarse=False):
        g = OR(s1.g, s2.g)
        mem = {}
        self.stats['joins'] += 1
        m1, m2 = s1.mem, s2.mem
        if coarse:
            self.cz = self.sel(s1, s2) if self.precise else None
            for o, v in m1.items():
                w = m2.get(o)
                if w is None:
                    if o[0] != 'L':
                        mem[o] = TOP
                    continue
                mem[o] = v if v is w else self.coarse(v, w)
            for o in m2:
                if o not in m1 and o[0] != 'L':
                    mem[o] = TOP
            return State(mem, g, self.join_soft(s1, s2))
        c = self.sel(s1, s2, g)
        for o, v in m1.items():
            w = m2.get(o)
            if w is None:
                if o[0] == 'L':
                    continue
                w = self.initial(o)
            mem[o] = v if v is w else self.merge(c, v, w)
        for o, w in m2.items():
            if o not in m1:
                if o[0] == 'L':
                    continue
                mem[o] = self.merge(c, self.initial(o), w)
        return State(mem, g, self.join_soft(s1, s2))

    def coarse(self, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Enum) and isinstance(b, Enum) and a.d == b.d:
            v = {}
            for k in a.v:
                if k in b.v and len(a.v[k]) == len(b.v[k]):
                    v[k] = tuple(self.coarse(x, y) for x, y in zip(a.v[k], b.v[k]))
            return Enum(a.d, v)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            return Agg([self.coarse(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, int) and isinstance(b, int):
            if a != b and self.cz is not None and all(isinstance(x, Term) and x.op == 'err' for n in (a, b) for x in leafset(n)):
                return ite(self.cz, a, b)
            return a if a == b else TOP
        return TOP

    # ------------------------------------------------------------ feasibility
    _feas = {}

    def fits(self, p, ty, hardlow, op=None):
        """condition 'p is representable in ty'.  Upper-range conditions of checked arithmetic are
        'soft': opaque atoms that are forgotten once a branch has been taken on them (see assume)"""
        lo, hi = self.sym_range(ty)
        l = GE0(padd(p, pconst(lo), -1))
        h = GE0(padd(pconst(hi), p, -1))
        if ty['k'] == 'uint':
            # both operands are in range: a difference cannot be too large, a sum or product not negative
            if op == 'Sub':
                h = TR
            elif op in ('Add', 'Mul'):
                l = TR
        if not self.soft:
            return AND(l, h)
        if l == F or h == F:
            return F
        if h != TR:
            h = softatom(T('fits', ty['name'], p))
        if l != TR and not hardlow:
            l = softatom(T('fits-', ty['name'], p))
        return AND(l, h)

    def assume(self, st, c):
        """new state with guard strengthened, or None"""
        s = st.s
        if SOFT:
            c0 = c
            c = dropsoft(c)
            if c != c0:
                c0 = restrict(c0, st.g)
                if any(AND(x, c0) == F for x in s):
                    return None
                if c0 not in s:
                    s = s[-SOFTMEM:] + (c0,)
        c = restrict(c, st.g)
        if c == F:
            return None
        if c == TR:
            return st if s == st.s else State(dict(st.mem), st.g, s)
        g = AND(st.g, c)
        if g == F or not feasible(g):
            return None
        return State(dict(st.mem), g, s)

    # ------------------------------------------------------------ places
    def place_alts(self, st, fr, p):
        alts = [(TR, ('L', fr, p[0]), (), None)]
        for pr in p[1]:
            if pr == '*':
                new = []
                for g, o, path, win in alts:
                    v = self.get_path(st, self.load_obj(st, o), path)
                    if isinstance(v, Sym):
                        v = self.expand(v)
                    if not isinstance(v, int):
                        if isinstance(v, Obj) and v.k == 'boxed':
                            v = v.d['ref']
                        else:
                            new.append((g, ('top',), (), None))
                            continue
                    v = restrict(v, st.g)
                    for t, gg in leaves(v):
                        g2 = AND(g, gg)
                        if g2 == F or AND(g2, st.g) == F:
                            continue
                        if isinstance(t, Ref):
                            new.append((g2, t.obj, t.path, t.meta))
                        else:
                            new.append((g2, ('top',), (), None))
                alts = new
            else:
                k = pr[0]
                if k == 'f':
                    alts = [(g, o, path + (('f', pr[1]),), None) for g, o, path, w in alts]
                elif k == 'd':
                    alts = [(g, o, path + (('d', pr[1]),), None) for g, o, path, w in alts]
                elif k == 'i':
                    iv = restrict(self.scalar(st, st.mem.get(('L', fr, pr[1]), UNDEF)), st.g)
                    new = []
                    for t, gg in leaves(iv):
                        for g, o, path, w in alts:
                            g2 = AND(g, gg)
                            if g2 == F or AND(g2, st.g) == F:
                                continue
                            idx = t if isinstance(t, Poly) else pterm(TOPT)
                            if w and w[0] == 'w':
                                idx = padd(idx, w[1])
                            new.append((g2, o, path + (('i', idx),), None))
                    alts = new
                elif k == 'ci':
                    new = []
                    for g, o, path, w in alts:
                        idx = pconst(pr[1])
                        if pr[3]:
                            if w:
                                idx = padd(w[2], pconst(pr[1]), -1)
                            else:
                                v = self.get_path(st, self.load_obj(st, o), path)
                                v = self.expand(v)
                                idx = pconst(v.n - pr[1])
                        if w and w[0] == 'w':
                            idx = padd(idx, w[1])
                        new.append((g, o, path + (('i', idx),), None))
                    alts = new
                elif k == 'ss':
                    new = []
                    for g, o, path, w in alts:
                        if not w:
                            v = self.expand(self.get_path(st, self.load_obj(st, o), path))
                            w = ('w', P0, pconst(v.n if isinstance(v, Arr) else 0))
                        end = padd(w[2], pconst(pr[2]), -1) if pr[3] else pconst(pr[2])
                        new.append((g, o, path, ('w', padd(w[1], pconst(pr[1])), padd(end, pconst(pr[1]), -1))))
                    alts = new
                # 'o' opaque/subtype: ignore
        return alts

    def read_place(self, st, fr, p):
        if not p[1]:
            v = st.mem.get(('L', fr, p[0]), UNDEF)
            return v
        alts = self.place_alts(st, fr, p)
        return self.read_alts(st, alts)

    def read_alts(self, st, alts):
        if not alts:
            return UNDEF
        r = None
        for g, o, path, w in reversed(alts):
            if o == ('top',):
                v = TOP
            else:
                v = self.get_path(st, self.load_obj(st, o), path)
            r = v if r is None else self.merge(restrict(g, st.g), v, r)
        return r

    def write_place(self, st, fr, p, v):
        if not p[1]:
            st.mem[('L', fr, p[0])] = v
            return
        self.write_alts(st, self.place_alts(st, fr, p), v)

    def write_alts(self, st, alts, v):
        for g, o, path, w in alts:
            if o == ('top',):
                self.gap('write through unknown pointer')
                continue
            old = self.load_obj(st, o)
            if len(alts) == 1:
                nv = v
            else:
                nv = self.merge(restrict(g, st.g), v, self.get_path(st, old, path))
            st.mem[o] = self.set_path(st, old, path, nv)

    def write_ref(self, st, refnode, v):
        alts = [(g, t.obj, t.path, t.meta) for t, g in leaves(restrict(refnode, st.g)) if isinstance(t, Ref) and AND(g, st.g) != F]
        self.write_alts(st, alts, v)

    def read_ref(self, st, refnode):
        if isinstance(refnode, Sym):
            refnode = self.expand(refnode)
        if not isinstance(refnode, int):
            return TOP
        r = None
        for t, g in leaves(restrict(refnode, st.g)):
            if isinstance(t, Ref):
                v = self.get_path(st, self.load_obj(st, t.obj), t.path)
            else:
                v = TOP
            r = v if r is None else self.merge(g, v, r)
        return UNDEF if r is None else r

    def scalar(self, st, v):
        v = self.expand(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.scalar(st, v.f[0])
        return TOP

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        k = o[0]
        if k in ('c', 'm'):
            v = self.read_place(st, fr, o[1])
            if isinstance(v, int):
                return restrict(v, st.g)
            return v
        if k == 'k':
            c = o[1]
            if 'u' in c:
                self.gap('unevaluated const')
                return TOP
            if 'z' in c:
                return self.zst(c['t'])
            key = ('K', c['t'], c['b'], tuple(map(tuple, c.get('p', []))))
            r = self._kc.get(key)
            if r is None:
                r = self.decode(c['t'], c['b'], {x[0]: x[1] for x in c.get('p', [])})
                self._kc[key] = r
            return r
        return TR if o[0] == 'rc' and o[1] == 'OverflowChecks' else F

    _kc = {}

    def optype(self, f, o):
        """type id of an operand"""
        if o[0] == 'k':
            return o[1]['t']
        if o[0] == 'rc':
            return self.p.tyname['bool']
        return self.place_ty(f, o[1])

    def place_ty(self, f, p):
        t = f['locals'][p[0]]
        for pr in p[1]:
            tt = self.ty(t)
            if pr == '*':
                t = tt['e'] if 'e' in tt else self.box_elem(tt)
            elif pr[0] == 'f':
                t = pr[2]
            elif pr[0] in ('i', 'ci'):
                t = tt['e']
        return t

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, f, rv, dty, loc):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            p = rv[1]
            if len(p[1]) == 1 and p[1][0] == '*':
                v = st.mem.get(('L', fr, p[0]), UNDEF)      # reborrow
                return self.expand(v) if isinstance(v, Sym) else v
            alts = self.place_alts(st, fr, p)
            r = None
            for g, o, path, w in reversed(alts):
                n = TOP if o == ('top',) else leaf(Ref(o, path, w))
                r = n if r is None else ite(restrict(g, st.g), n, r)
            return TOP if r is None else r
        if k == 'bin' or k == 'cbin':
            a = self.scalar(st, self.operand(st, fr, rv[2]))
            b = self.scalar(st, self.operand(st, fr, rv[3]))
            ty = self.ty(self.optype(f, rv[2]))
            a, b = nameval(restrict(a, st.g)), nameval(restrict(b, st.g))
            if k == 'cbin':
                t = self.cur[0]['blocks'][self.cur[1]]['t']
                return self.checked(st, rv[1], a, b, ty, t[0] == 'assert')
            return self.binop(st, rv[1], a, b, ty)
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'PtrMetadata':
                v = self.scalar(st, v)
                return apply1('ptrmeta', lambda t: leaf(t.meta[2]) if isinstance(t, Ref) and t.meta and t.meta[0] == 'w' else (UNITLEAF if isinstance(t, Ref) else TOP), v)
            v = self.scalar(st, v)
            ty = self.ty(self.optype(f, rv[2]))
            if rv[1] == 'Not':
                if ty['k'] == 'bool':
                    return NOT(v) if isbool(v) else TOP
                mx = 2 ** ty['w'] - 1
                if ty['k'] == 'uint':
                    return apply1(('bnot', mx), lambda t: leaf(padd(pconst(mx), t, -1)) if isinstance(t, Poly) else TOP, v)
                return apply1(('bnots',), lambda t: leaf(padd(pconst(-1), t, -1)) if isinstance(t, Poly) else TOP, v)
            if rv[1] == 'Neg':
                return self.binop(st, 'Sub', N0, v, ty)
            return TOP
        if k == 'cast':
            return self.cast(st, f, rv[1], self.operand(st, fr, rv[2]), self.optype(f, rv[2]), rv[3])
        if k == 'discr':
            v = self.expand(self.read_place(st, fr, rv[1]))
            ty = self.ty(self.place_ty(f, rv[1]))
            if isinstance(v, Enum):
                vs = ty['vs']
                if all(int(x['d']) == i for i, x in enumerate(vs)):
                    return restrict(v.d, st.g)
                m = {i: int(x['d']) for i, x in enumerate(vs)}
                if ty['name'].endswith('cmp::Ordering'):
                    m = {i: x - 256 if x > 127 else x for i, x in m.items()}

                def fd(t):
                    if not isinstance(t, Poly):
                        return TOP
                    c = t.const
                    if c is not None:
                        return num(m[c])
                    r = num(m[len(vs) - 1])
                    for i in range(len(vs) - 2, -1, -1):
                        r = ite(EQP(t, pconst(i)), num(m[i]), r)
                    return r
                return restrict(apply1(('discr', ty['name']), fd, v.d), st.g)
            if isinstance(v, Obj) and 'd' in v.d:
                return v.d['d']
            return TOP
        if k == 'len':
            alts = self.place_alts(st, fr, rv[1])
            for g, o, path, w in alts:
                if w and w[0] == 'w':
                    return leaf(w[2])
            v = self.expand(self.read_place(st, fr, rv[1]))
            if isinstance(v, Arr) and v.n is not None:
                return num(v.n)
            return TOP
        if k == 'rep':
            v = self.operand(st, fr, rv[1])
            t = self.ty(dty)
            if t.get('bytes'):
                s = self.scalar(st, v)
                n = t['n'] if 'n' in t else t['sz']
                return apply1(('repb', n), lambda x: leaf(T('bytes', ('%02x' % x.const) * n)) if isinstance(x, Poly) and x.const is not None else leaf(T('rep', x, n)), s)
            return Arr(t['n'], t['e'], ('val', v))
        if k == 'agg':
            kind = rv[1]
            ops = [self.operand(st, fr, o) for o in rv[2]]
            if kind[0] == 'tuple':
                return Agg(ops)
            if kind[0] == 'closure':
                return Agg(ops)
            if kind[0] == 'array':
                t = self.ty(dty)
                if t.get('bytes'):
                    return self.mkbytes([self.scalar(st, o) for o in ops])
                return Arr(len(ops), kind[1], ('val', UNDEF), tuple((pconst(i), o) for i, o in enumerate(ops)))
            if kind[0] == 'adt':
                t = self.ty(kind[1])
                if t['k'] == 'enum':
                    return Enum(num(kind[2]), {kind[2]: tuple(ops)})
                if t['k'] == 'union':
                    return Agg(ops) if ops else UNIT
                if t['leaf']:
                    return self.scalar(st, ops[0]) if ops else TOP
                return Agg(ops)
            if kind[0] == 'rawptr':
                # fat pointer from (data, meta)
                m = self.scalar(st, ops[1]) if not isinstance(ops[1], Agg) else None
                d = self.scalar(st, ops[0])
                if m is None:
                    return d

                def fp(t, ml):
                    if isinstance(t, Ref) and isinstance(ml, Poly):
                        s = t.meta[1] if t.meta and t.meta[0] == 'w' else P0
                        return leaf(Ref(t.obj, t.path, ('w', s, ml)))
                    return TOP
                return apply2('fatptr', fp, d, m)
            return TOP
        return TOP

    def mkbytes(self, items):
        def f(*xs):
            if all(isinstance(x, Poly) and x.const is not None for x in xs):
                return leaf(T('bytes', bytes(x.const & 255 for x in xs).hex()))
            if len(xs) == 1:
                return leaf(T('le', 8, xs[0]))
            # [byte(t,0), byte(t,1)...] -> t
            ts = []
            for i, x in enumerate(xs):
                if isinstance(x, Poly) and len(x.m) == 1 and x.m[0][1] == 1 and len(x.m[0][0]) == 1:
                    t = Term.all[x.m[0][0][0]]
                    if t.op == 'byte' and t.args[1] is pconst(i):
                        ts.append(t.args[0])
                        continue
                return leaf(T('u8s', *xs))
            if ts and all(t is ts[0] for t in ts) and blen(ts[0]) in (None, len(ts)):
                return leaf(ts[0])
            return leaf(T('u8s', *xs))
        if len(items) > 64:
            return TOP
        return applyn(('mkbytes', len(items)), f, items)

    def wrap(self, p, ty):
        lo, hi = self.sym_range(ty)
        a = AND(GE0(padd(p, pconst(lo), -1)), GE0(padd(pconst(hi), p, -1)))
        if a == TR:
            return leaf(p)
        w = T('wrap', ty['name'], p, lo=lo, hi=hi)
        return ite(a, leaf(p), leaf(pterm(w)))

    def checked(self, st, op, a, b, ty, asserted=False):
        lo, hi = self.sym_range(ty)

        def raw(x, y):
            x, y = aspoly(x), aspoly(y)
            if x is None or y is None:
                return TOP
            if op == 'Add':
                r = padd(x, y)
            elif op == 'Sub':
                r = padd(x, y, -1)
            elif op == 'Mul':
                r = pmul(x, y)
            else:
                return TOP
            return leaf(r)
        if op in ('Shl', 'Shr'):
            v = self.binop(st, op, a, b, ty)
            bits = ty['w']
            ov = apply1(('shov', bits), lambda t: NOT(AND(GE0(t), GE0(padd(pconst(bits - 1), t, -1)))) if isinstance(t, Poly) else UNKB('sh'), b)
            return Agg([v, ov])
        x = restrict(apply2(('raw' + op,), raw, a, b), st.g)
        if asserted:
            # overflow-checked arithmetic: the flag is asserted right away, so the surviving value is exact
            ok = apply1(('fits', ty['name'], op, self.soft), lambda p: self.fits(p, ty, op == 'Sub', op) if isinstance(p, Poly) else UNKB('ovf'), x)
            if op == 'Mul':
                self.noteprod(st, a, b, x, ty)
            return Agg([x, NOT(ok)])
        # both operands of an unsigned type are in range: a difference cannot be too large, a sum or product not negative
        nolo, nohi = (ty['k'] == 'uint' and op in ('Add', 'Mul')), (ty['k'] == 'uint' and op == 'Sub')
        ok = apply1(('inr', ty['name'], nolo, nohi), lambda p: AND(TR if nolo else GE0(padd(p, pconst(lo), -1)), TR if nohi else GE0(padd(pconst(hi), p, -1))) if isinstance(p, Poly) else UNKB('ovf'), x)
        v = apply1(('wr', ty['name']), lambda p: self.wrap(p, ty) if isinstance(p, Poly) else TOP, x)
        return Agg([ite(ok, x, v), NOT(ok)])

    def noteprod(self, st, a, b, v, ty):
        """record a checked multiplication of the program, which fails when the product does not fit"""
        if any(x in self.p.own for x in self.stack[-4:]):
            self.prods.append((st.g, a, b, v, ty, list(self.stack[-3:]), self.cur[0]['blocks'][self.cur[1]].get('l') if self.cur else ''))

    def note(self, st, op, a, b, ty, ok=None):
        """record an operation of the program whose result may differ from the exact one"""
        own = self.p.own
        if any(x in own for x in self.stack[-2:]):
            self.lossy.append((st.g, op, a, b, ty, list(self.stack[-3:]), self.cur[0]['blocks'][self.cur[1]].get('l') if self.cur else '', ok))

    def binop(self, st, op, a, b, ty):
        k = ty['k']
        if k in ('int', 'uint') and op in ('Add', 'Sub', 'Mul', 'Shl', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked'):
            self.note(st, op[:3], a, b, ty)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if k == 'bool':
                if not (isbool(a) and isbool(b)):
                    return UNKB('cmp')
                if op == 'Eq':
                    return NOT(ite(a, NOT(b), b))
                if op == 'Ne':
                    return ite(a, NOT(b), b)
                if op == 'Lt':
                    return AND(NOT(a), b)
                if op == 'Le':
                    return OR(NOT(a), b)
                if op == 'Gt':
                    return AND(a, NOT(b))
                return OR(a, NOT(b))

            def cmpf(x, y):
                if isinstance(x, Ref) or isinstance(y, Ref) or isinstance(x, FnVal):
                    if x == y:
                        return TR if op in ('Eq', 'Le', 'Ge') else F
                    return UNKB('ptrcmp')
                px, py = aspoly(x), aspoly(y)
                if px is None or py is None:
                    if x is y and x is not TOPT:
                        return TR if op in ('Eq', 'Le', 'Ge') else F
                    return UNKB('cmp')
                if op == 'Eq':
                    return EQP(px, py)
                if op == 'Ne':
                    return NOT(EQP(px, py))
                if op == 'Lt':
                    return gt(py, px)
                if op == 'Le':
                    return ge(py, px)
                if op == 'Gt':
                    return gt(px, py)
                return ge(px, py)
            return restrict(apply2(('cmp', op), cmpf, a, b), st.g)
        if k == 'bool':
            if not (isbool(a) and isbool(b)):
                return UNKB('bool')
            if op == 'BitAnd':
                return AND(a, b)
            if op == 'BitOr':
                return OR(a, b)
            if op == 'BitXor':
                return ite(a, NOT(b), b)
            return TOP
        if op == 'Cmp':
            def fc(x, y):
                px, py = aspoly(x), aspoly(y)
                if px is None or py is None:
                    return TOP
                return ite(gt(py, px), num(0), ite(EQP(px, py), num(1), num(2)))
            d = apply2('Cmp', fc, a, b)
            return Enum(d, {0: (), 1: (), 2: ()})
        if op == 'Offset':
            return apply2('ptroff', ptr_off, a, b)
        unchecked = op.endswith('Unchecked')
        base = op.replace('Unchecked', '')

        def ar(x, y):
            x, y = aspoly(x), aspoly(y)
            if x is None or y is None:
                return TOP
            if base == 'Add':
                r = padd(x, y)
            elif base == 'Sub':
                r = padd(x, y, -1)
            elif base == 'Mul':
                r = pmul(x, y)
            elif base == 'Div':
                rx = prange(x)
                if y.const == 0:
                    return TOP
                if k == 'int' and not (rx[0] is not None and rx[0] >= 0 and (prange(y)[0] or -1) >= 0):
                    r0 = pterm(T('sdiv', x, y, lo=self.sym_range(ty)[0], hi=self.sym_range(ty)[1]))
                    return leaf(r0)
                return leaf(pdiv(x, y))
            elif base == 'Rem':
                if y.const == 0:
                    return TOP
                if k == 'int':
                    return leaf(pterm(T('srem', x, y, lo=self.sym_range(ty)[0], hi=self.sym_range(ty)[1])))
                return leaf(prem(x, y, pdiv(x, y)))
            elif base == 'Shl':
                if y.const is None:
                    return leaf(pterm(T('shl', x, y, ty['name'], lo=self.sym_range(ty)[0], hi=self.sym_range(ty)[1])))
                r = pscale(x, 2 ** y.const)
            elif base == 'Shr':
                if y.const is None or k == 'int':
                    return leaf(pterm(T('shr', x, y, lo=0, hi=self.sym_range(ty)[1])))
                return leaf(pdiv(x, pconst(2 ** y.const)))
            elif base in ('BitAnd', 'BitOr', 'BitXor'):
                if x.const is not None and y.const is not None:
                    c = {'BitAnd': x.const & y.const, 'BitOr': x.const | y.const, 'BitXor': x.const ^ y.const}[base]
                    return leaf(pconst(c))
                if base == 'BitAnd':
                    for u, v in ((x, y), (y, x)):
                        if v.const is not None and v.const >= 0 and (v.const + 1) & v.const == 0:
                            return leaf(padd(u, pscale(pdiv(u, pconst(v.const + 1)), v.const + 1), -1))
                if y.const == 0 and base != 'BitAnd':
                    return leaf(x)
                if x.const == 0 and base != 'BitAnd':
                    return leaf(y)
                s = sorted([x, y], key=lambda q: q.id)
                if base == 'BitOr' and k == 'uint':
                    for u, v in ((x, y), (y, x)):
                        if v.const == 1:      # setting a flag: 1 whenever the other operand is 0 or 1
                            t = leaf(pterm(T(base, *s, lo=1, hi=self.sym_range(ty)[1])))
                            return ite(GE0(padd(pconst(1), u, -1)), leaf(pconst(1)), t)
                return leaf(pterm(T(base, *s, lo=self.sym_range(ty)[0], hi=self.sym_range(ty)[1])))
            else:
                return TOP
            if unchecked:
                return leaf(r)
            return self.wrap(r, ty)
        return restrict(apply2(('ar', op, ty['name']), ar, a, b), st.g)

    def cast(self, st, f, kind, v, fromty, toty):
        ft, tt = self.ty(fromty), self.ty(toty)
        if kind.startswith('IntToInt') or (kind.startswith('Transmute') and ft['k'] in ('int', 'uint') and tt['k'] in ('int', 'uint')):
            v = self.expand(v)
            if isinstance(v, Enum):
                vs = ft['vs']
                v = v.d if all(int(x['d']) == i for i, x in enumerate(vs)) else TOP
            v = self.scalar(st, v)
            if ft['k'] == 'bool':
                return ite(v, N1, N0) if isbool(v) else TOP
            if tt['k'] == 'char' or tt['k'] not in ('int', 'uint'):
                return v
            if ft['k'] in ('int', 'uint'):
                (l1, h1), (l2, h2) = self.sym_range(ft), self.sym_range(tt)
                if l2 <= l1 and h1 <= h2:
                    return v        # widening: the source value is in range of its own type
                self.note(st, 'Cast', v, v, tt)
            return restrict(apply1(('cast', tt['name']), lambda p: self.wrap(p, tt) if isinstance(p, Poly) else TOP, v), st.g)
        if 'Unsize' in kind:
            v = self.scalar(st, v)
            e1 = ft['e'] if 'e' in ft else (self.box_elem(ft) if ft.get('box') else None)
            e2 = tt['e'] if 'e' in tt else (self.box_elem(tt) if tt.get('box') else None)
            if e1 is None or e2 is None:
                return v
            t1, t2 = self.ty(e1), self.ty(e2)
            if t2['k'] == 'slice' and t1['k'] == 'array':
                return apply1(('uns', t1['n']), lambda r: leaf(Ref(r.obj, r.path, ('w', P0, pconst(t1['n'])))) if isinstance(r, Ref) else TOP, v)
            if t2['k'] == 'dyn' and t1['k'] == 'dyn':
                return v
            if t2['k'] == 'dyn':
                return apply1(('unsd', e1), lambda r: leaf(Ref(r.obj, r.path, ('vt', e1))) if isinstance(r, Ref) else TOP, v)
            return v
        if kind.startswith('PtrToPtr') or 'PointerCoercion(MutToConst' in kind or 'ArrayToPointer' in kind:
            # slice pointer -> thin element pointer
            if ft['k'] in ('ptr', 'ref') and tt['k'] in ('ptr', 'ref'):
                a, b = self.ty(ft['e']), self.ty(tt['e'])
                if a['k'] in ('slice', 'array') and b['k'] not in ('slice', 'array', 'str', 'dyn') and b['name'] == self.ty(a['e'])['name']:
                    def thin(r):
                        if isinstance(r, Ref):
                            s = r.meta[1] if r.meta and r.meta[0] == 'w' else P0
                            return leaf(Ref(r.obj, r.path + (('i', s),), None))
                        return TOP
                    return apply1('thin', thin, self.scalar(st, v))
            return v
        if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind:
            if ft['k'] == 'fndef' and ft.get('f') is not None:
                return leaf(FnVal(ft['f']))
            return TOP
        if kind.startswith('Transmute'):
            if fromty == toty:
                return v
            if ft['k'] in ('uint', 'int') and tt.get('bytes'):
                return apply1(('tole', ft['w']), lambda p: mkle(ft['w'], p), self.scalar(st, v))
            if ft.get('bytes') and tt['k'] == 'uint':
                return apply1(('fromle', tt['w']), lambda t: fromle(tt['w'], t), self.scalar(st, v))
            if ft.get('bytes') and tt.get('bytes'):
                return v
            if ft['leaf'] and tt['leaf']:
                return v
            if tt['k'] == 'enum' and ft['k'] in ('uint', 'int') and all(not x['fs'] for x in tt['vs']):
                vs = tt['vs']
                if all(int(x['d']) == i for i, x in enumerate(vs)):
                    return Enum(self.scalar(st, v), {i: () for i in range(len(vs))})
            if ft['k'] == 'struct' and tt['k'] == 'struct':
                return v
            if ft['leaf'] or tt['leaf']:
                return v
            return v
        if kind.startswith('FnPtrToPtr') or 'Expose' in kind or 'FloatTo' in kind or 'IntToFloat' in kind:
            return TOP
        return v

    # ------------------------------------------------------------ calls
    def call(self, st, fid, args, site=''):
        """-> list of (state, value)"""
        f = self.p.F[fid]
        m = self.models.find(f)
        if m is not None:
            r = m(self, st, f, args)
            if r is not NotImplemented:
                self.stats['modelled calls'] += 1
                return r
        if f['kind'].startswith('virtual'):
            return self.virtual(st, f, args)
        if f.get('shim') == 'fnptr' and len(args) == 2 and f.get('ga'):
            # a function item called through Fn/FnMut/FnOnce
            t = self.ty(f['ga'][0])
            tup = self.expand(args[1])
            if t['k'] == 'fndef' and t.get('f') is not None and isinstance(tup, Agg):
                return self.call(st, t['f'], list(tup.f), site)
        if 'blocks' not in f:
            return self.models.unknown(self, st, f, args)
        if f['shim'] == 'drop':
            return [(st, UNIT)]
        return self.run(st, f, args)

    def virtual(self, st, f, args):
        idx = int(f['kind'].split(':')[1])
        recv = self.scalar(st, args[0])
        out = []
        for t, g in leaves(restrict(recv, st.g)):
            s2 = self.assume(st, g)
            if s2 is None:
                continue
            if s2 is st:
                s2 = st.copy()
            if not (isinstance(t, Ref) and t.meta and t.meta[0] == 'vt'):
                self.gap('virtual call on unknown receiver ' + f['name'])
                out += self.models.unknown(self, s2, f, args)
                continue
            fid = None
            tr = (f.get('tm') or '').rsplit('::', 1)[0]
            for dn, fs in self.p.vt.get(t.meta[1], []):
                if len(fs) > idx and fs[idx] is not None:
                    cand = fs[idx]
                    fid = cand
                    if tr and self.p.F[cand].get('tm', '') and self.p.F[cand]['tm'].rsplit('::', 1)[0] == tr:
                        break
            if fid is None:
                self.gap('no vtable entry ' + f['name'])
                out += self.models.unknown(self, s2, f, args)
                continue
            a = [leaf(Ref(t.obj, t.path, None))] + list(args[1:])
            out += self.call(s2, fid, a)
        return self.collapse(out)

    def restype(self, t):
        d = norm(self.ty(t).get('def', '') or '')
        return 'R' if d == 'std::result::Result' else 'C' if d.endswith('::ControlFlow') else 'O'

    def collapse(self, outs, kind=None):
        """merge results of alternatives: one Ok-ish, one Err-ish"""
        groups = {}
        for s, v in outs:
            k = errkey(v, kind)
            groups.setdefault(k, []).append((s, v))
        res = []
        for k, l in groups.items():
            s, v = l[0]
            for s2, v2 in l[1:]:
                if k:
                    self.cz = self.sel(s, s2) if self.precise else None
                    v = self.coarse(v, v2)
                    s = self.join(s, s2, True)
                else:
                    c = self.sel(s, s2)
                    v = self.merge(c, v, v2)
                    s = self.join(s, s2)
            res.append((s, v))
        return res

    def callval(self, st, fv, tyid, args):
        """call a closure / fn item / fn pointer value given the type of the callee"""
        raise NotImplementedError

    def run(self, st, f, args):
        self.frame += 1
        fr = self.frame
        if len(self.stack) > 60:
            self.gap('recursion too deep')
            return self.models.unknown(self, st, f, args)
        self.stack.append(f['name'])
        self.fnseen.add(f['id'])
        self.stats['function activations'] += 1
        argc = f['argc']
        st = st.copy()
        if f.get('spread', -1) is not None and f.get('spread', -1) > 0 and len(args) != argc:
            sp = f['spread']
            args = list(args[:sp - 1]) + [Agg(args[sp - 1:])]
        if len(args) != argc:
            if len(args) == 2 and isinstance(self.expand(args[1]), Agg):
                args = [args[0]] + list(self.expand(args[1]).f)
            elif len(args) == 1 and isinstance(self.expand(args[0]), Agg) and argc == len(self.expand(args[0]).f):
                args = list(self.expand(args[0]).f)
        elif argc == 2 and '{closure' in f['def'].split('::')[-1]:
            # a closure called through Fn*::call* gets its one argument in a tuple
            x = args[1]
            if isinstance(x, Agg) and len(x.f) == 1:
                t2 = self.ty(f['locals'][2])
                if not (self.one_field(t2) and not self.one_field_val(x.f[0])):
                    args = [args[0], x.f[0]]
        if len(args) != argc:
            self.gap('arity mismatch %s %d/%d' % (f['name'], len(args), argc))
        for i, a in enumerate(args):
            st.mem[('L', fr, i + 1)] = a
        rets, _, _ = self.sched(f, fr, {0: {(): [st]}}, None, None)
        self.stack.pop()
        out = []
        nl = len(f['locals'])
        for s in rets:
            v = s.mem.get(('L', fr, 0), UNDEF)
            for i in range(nl):
                s.mem.pop(('L', fr, i), None)
            out.append((s, v))
        return self.collapse(out, self.restype(f['locals'][0]))

    def one_field(self, t):
        return t['k'] == 'tuple' and len(t['fs']) == 1 or t['k'] == 'struct' and not t['leaf'] and not t['vec'] and len(t['vs'][0]['fs']) == 1

    def one_field_val(self, v):
        v = self.expand(v)
        return isinstance(v, Agg) and len(v.f) == 1

    def sched(self, f, fr, pend, region, head):
        """propagate states through f (or through one loop region of it) in weak topological order.
        -> (return states, [(exit block, state)], [back-edge states to head])"""
        order, live, resl, comps = self.p.cfg(f)
        heap = [(order[b], b) for b in pend]
        heapq.heapify(heap)
        inq = set(pend)
        rets = []
        exits = []
        back = []
        visits = defaultdict(int)

        def push(tgt, ns):
            k2 = self.key(ns, fr, live[tgt], resl)
            pend.setdefault(tgt, {}).setdefault(k2, []).append(ns)
            if tgt not in inq:
                inq.add(tgt)
                heapq.heappush(heap, (order[tgt], tgt))

        def route(succs):
            for tgt, ns in succs:
                if region is not None:
                    if tgt == head:
                        back.append(ns)
                        continue
                    if tgt not in region:
                        exits.append((tgt, ns))
                        continue
                push(tgt, ns)
        while heap:
            # a loop head waits until the current iteration of its loop is finished
            held = []
            while True:
                x = heapq.heappop(heap)
                b = x[1]
                if b in comps and b != head and heap and any(y != b and y in comps[b] for y in inq):
                    held.append(x)
                    continue
                break
            for x in held:
                heapq.heappush(heap, x)
            inq.discard(b)
            groups = pend.pop(b)
            visits[b] += 1
            for key, ss in groups.items():
                s = ss[0]
                for x in ss[1:]:
                    s = self.join(s, x, bool(key))
                if b in comps and b != head:
                    if visits[b] > self.loopmax or (visits[b] == 1 and self.symbolic_loop(s, fr, f, comps[b])):
                        r2, e2 = self.accelerate(f, fr, b, comps[b], s, live[b])
                        rets.extend(r2)
                        route(e2)
                        continue
                elif visits[b] > 4 * MAXLOOP:
                    self.loopcuts.append((f['name'], s.g))
                    continue
                route(self.block(s, fr, f, b, rets))
        return rets, exits, back

    def unbounded(self, st, n):
        """is this length neither constant nor known to be small?"""
        iv = None
        for x in leafset(restrict(n, st.g)):
            if isinstance(x, Poly) and x.const is not None:
                continue
            if iv is None:
                iv = lit_bounds(forced(st.g)) or {}
            if isinstance(x, Poly):
                d = iv.get(x)
                if d is not None and d[1] is not None and d[1] < MAXLOOP:
                    continue
            return True
        return False

    def symbolic_loop(self, st, fr, f, comp):
        """does the loop advance an iterator, or an index, up to a length that is not a constant?"""
        used = self.p.loop_uses(f, comp)
        for i in used:
            v = st.mem.get(('L', fr, i))
            if v is None:
                continue
            if isinstance(v, int) and not isbool(v):
                for x in leafset(v):
                    if isinstance(x, Ref) and (x.meta is None or x.meta[0] != 'w'):
                        v = self.get_path(st, self.load_obj(st, x.obj), x.path)
                        if any(self.unbounded(st, o.d['end']) for o in iter_objs(v)):
                            return True
                continue
            if any(self.unbounded(st, o.d['end']) for o in iter_objs(v)):
                return True
        # while let Some((x, rest)) = slice.split_first()
        for i in self.p.loop_sets(f, comp):
            v = st.mem.get(('L', fr, i))
            if isinstance(v, int) and not isbool(v) and isleaf(v) and isinstance(VAL[v], Ref) and VAL[v].meta and VAL[v].meta[0] == 'w' \
                    and self.unbounded(st, leaf(VAL[v].meta[2])):
                return True
        # while i < slice.len()
        for kind, p in self.p.loop_bounds(f, comp):
            try:
                v = self.read_place(st, fr, p)
            except (KeyError, AttributeError, TypeError):
                continue
            v = self.expand(v)
            if kind == 'len':
                if isinstance(v, VecV):
                    if self.unbounded(st, v.len):
                        return True
                elif isinstance(v, int) and not isbool(v):
                    for x in leafset(restrict(v, st.g)):
                        if isinstance(x, Ref) and x.meta and x.meta[0] == 'w':
                            if self.unbounded(st, leaf(x.meta[2])):
                                return True
                        elif isinstance(x, Ref):
                            w = self.expand(self.get_path(st, self.load_obj(st, x.obj), x.path))
                            if isinstance(w, VecV) and self.unbounded(st, w.len):
                                return True
            elif kind == 'val' and isinstance(v, int) and not isbool(v):
                for x in leafset(restrict(v, st.g)):
                    if isinstance(x, Poly) and x.const is None and is_length(x) and self.unbounded(st, leaf(x)):
                        return True
            elif kind == 'range' and isinstance(v, Agg):
                e = v.f[1] if len(v.f) > 1 else None
                if isinstance(e, int) and not isbool(e) and any(isinstance(x, Poly) and x.const is None and is_length(x) for x in leafset(e)) and self.unbounded(st, e):
                    return True
        return False

    def snapshot(self):
        return (len(self.effects), len(self.panics), len(self.loopcuts), len(self.inits), dict(self.gaps), dict(self.unknown), dict(self.loops), len(getattr(self, 'hashlog', None) or ()), len(self.lossy), len(self.prods))

    def rollback(self, s):
        del self.effects[s[0]:]
        del self.panics[s[1]:]
        del self.loopcuts[s[2]:]
        del self.inits[s[3]:]
        self.gaps, self.unknown, self.loops = dict(s[4]), dict(s[5]), dict(s[6])
        if getattr(self, 'hashlog', None):
            del self.hashlog[s[7]:]
        del self.lossy[s[8]:]
        del self.prods[s[9]:]

    def accelerate(self, f, fr, head, comp, base, live):
        """analyse a loop of unknown trip count once, with every location it changes replaced by a symbol"""
        lid = 'loop:%s:%d' % (f['def'].split('::')[-1], head)
        if lid in self.loops:
            k = 2
            while '%s#%d' % (lid, k) in self.loops:
                k += 1
            lid = '%s#%d' % (lid, k)
        W = {}
        snap = self.snapshot()
        for it in range(6):
            h = State(dict(base.mem), base.g)
            for (o, path), (v, ty) in W.items():
                h.mem[o] = self.set_path(h, self.load_obj(h, o), path, self.havoc(lid, o, path, v, ty, h))
            e0 = len(self.effects)
            rets, exits, back = self.sched(f, fr, {head: {(): [h.copy()]}}, comp, head)
            new = {}
            for s in back:
                for o, v in s.mem.items():
                    if o[0] == 'L':
                        if o[1] != fr and o not in base.mem:
                            continue
                        if o[1] == fr and o[2] not in live:
                            continue
                    elif o not in base.mem and o[0] in ('H',):
                        continue
                    b0 = h.mem.get(o)
                    if b0 is None:
                        if o[0] == 'L':
                            continue
                        b0 = self.initial(o)
                    ty = self.obj_ty(f, fr, o)
                    for path, bv, t2 in self.diff(b0, v, ty, ()):
                        if not any(o == k[0] and path[:len(k[1])] == k[1] for k in W):
                            new[(o, path)] = (bv, t2)
                # a slice window may only move within its own object
                for (o, path), (v, ty) in list(W.items()):
                    r = slice_base(v)
                    if r is not None and slice_base(self.get_path(s, self.load_obj(s, o), path)) != r:
                        new[(o, path)] = (TOP, ty)
                        del W[(o, path)]
            if not new:
                break
            self.rollback(snap)
            for (o, path), x in new.items():
                for k in [k for k in W if k[0] == o and k[1][:len(path)] == path]:
                    del W[k]
                if not any(o == k[0] and path[:len(k[1])] == k[1] for k in W):
                    W[(o, path)] = x
        else:
            self.gap('loop did not stabilise')
        bg = F
        steps = []
        for s in back:
            bg = OR(bg, s.g)
            steps.append({(o, p): self.get_path(s, self.load_obj(s, o), p) for (o, p) in W})
        self.loops[lid] = {'f': f['name'], 'phis': {k: (self.get_path(base, self.load_obj(base, k[0]), k[1]), self.get_path(h, self.load_obj(h, k[0]), k[1])) for k in W},
                           'steps': steps, 'back': back, 'entry': base.g, 'g': bg, 'exits': [s.g for _, s in exits]}
        for e in self.effects[e0:]:
            e.setdefault('loop', lid)
        # every completed iteration satisfied the condition under which the body reaches the back edge
        fact = BOOLT(T('iterations_satisfy', lid, restrict(bg, base.g))) if bg != F else TR
        out = []
        for tgt, s in exits:
            n = self.assume(s, fact)
            if n is not None:
                out.append((tgt, n))
        rr = []
        for s in rets:
            n = self.assume(s, fact)
            if n is not None:
                rr.append(n)
        return rr, out

    def obj_ty(self, f, fr, o):
        if o[0] == 'L' and o[1] == fr:
            return f['locals'][o[2]]
        if o[0] == 'D':
            return o[2]
        if o[0] == 'st':
            return o[1]
        return None

    def diff(self, a, b, ty, path):
        if a is b:
            return
        if isinstance(a, Sym) and isinstance(b, Sym) and a.path == b.path:
            return
        if isinstance(a, Sym):
            a = self.expand(a)
        if isinstance(b, Sym):
            b = self.expand(b)
        if isinstance(a, int) and isinstance(b, int):
            if a != b:
                yield path, a, ty
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            t = self.ty(ty) if ty is not None else None
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                ft = None
                if t is not None and t['k'] == 'struct' and len(t['vs'][0]['fs']) == len(a.f):
                    ft = t['vs'][0]['fs'][i][1]
                elif t is not None and t['k'] in ('tuple', 'closure') and len(t['fs']) == len(a.f):
                    ft = t['fs'][i]
                yield from self.diff(x, y, ft, path + (('f', i),))
            return
        if isinstance(a, Obj) and isinstance(b, Obj) and a.k == b.k and a.d.keys() == b.d.keys() and all(a.d[k] is b.d[k] or a.d[k] == b.d[k] for k in a.d):
            return
        if struct_eq(a, b):
            return
        yield path, a if a is not UNDEF else b, ty

    def havoc(self, lid, o, path, v, ty, st):
        p = (lid, '%s%s' % (o[2] if o[0] == 'L' else o[0], ''.join('.%s' % (x[1],) for x in path)))
        if isinstance(v, Obj):
            if v.k == 'zip':
                return Obj('zip', {x: self.havoc(lid, o, path + (('z', x),), v.d[x], ty, st) for x in v.d})
            if v.k in ('iter', 'vit'):
                d = dict(v.d)
                pos = pterm(T('sym', *p, 'pos', lo=0, hi=2**32))
                d['pos'] = leaf(pos)
                st.g = AND(st.g, apply1(('poslt', pos), lambda e: ge(e, pos) if isinstance(e, Poly) else TR, v.d['end']))
                return Obj(v.k, d)
            return TOP
        if isinstance(v, VecV):
            return VecV(Arr(None, v.arr.ety, ('sym', p)), leaf(pterm(T('sym', *p, 'len', lo=0, hi=2**32))))
        if isinstance(v, Arr):
            return Arr(v.n, v.ety, ('sym', p))
        r = slice_base(v)
        if r is not None:
            return leaf(Ref(r[0], r[1], ('w', pterm(T('sym', *p, 'start', lo=0, hi=2**32)), pterm(T('sym', *p, 'len', lo=0, hi=2**32)))))
        if ty is not None:
            return Sym(p, ty)
        if isinstance(v, int):
            if isbool(v):
                return BOOLT(T('sym', *p))
            ls = leafset(v)
            if all(isinstance(x, Poly) for x in ls):
                return leaf(pterm(T('sym', *p)))
            if all(isinstance(x, Term) for x in ls):
                return leaf(T('sym', *p))
        return TOP

    def maxloop(self, f):
        return MAXLOOP

    def key(self, st, fr, live, resl):
        k = []
        for l, kind in resl.items():
            if l not in live:
                continue
            v = st.mem.get(('L', fr, l))
            e = errkey(v, kind)
            if e:
                k.append((l, e))
        return tuple(sorted(k))

    def block(self, st, fr, f, b, rets):
        bl = f['blocks'][b]
        self.stats['blocks'] += 1
        self.cur = (f, b)
        mem = st.mem
        for s in bl['s']:
            k = s[0]
            self.stats['statements'] += 1
            if k == '=':
                p = s[1]
                dty = f['locals'][p[0]] if not p[1] else self.place_ty(f, p)
                v = self.rvalue(st, fr, f, s[2], dty, s[3] if len(s) > 3 else '')
                if not p[1]:
                    mem[('L', fr, p[0])] = v
                else:
                    self.write_place(st, fr, p, v)
            elif k == 'dead':
                mem.pop(('L', fr, s[1]), None)
            elif k == 'sd':
                v = self.expand(self.read_place(st, fr, s[1]))
                if isinstance(v, Enum):
                    self.write_place(st, fr, s[1], Enum(num(s[2]), v.v))
                else:
                    self.write_place(st, fr, s[1], Enum(num(s[2]), {s[2]: ()}))
            elif k == 'assume':
                c = self.scalar(st, self.operand(st, fr, s[1]))
                if not isbool(c) or any(ATOMS[v][0] == 'b' and ATOMS[v][1].op == 'unknown' for v in support(c)):
                    continue
                n = self.assume(st, c)
                if n is None:
                    return []
                st = n
                mem = st.mem
        t = bl['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'drop':
            return [(t[2], st)]
        if k == 'ret':
            rets.append(st)
            return []
        if k == 'switch':
            return self.switch(st, fr, f, t)
        if k == 'assert':
            if len(t) > 4 and ('pointer dereference' in str(t[4]) or 'null reference' in str(t[4])):
                # compiler-inserted reference validity checks: cannot fail for safe references
                return [(t[3], st)]
            c = self.scalar(st, self.operand(st, fr, t[1]))
            if not isbool(c):
                c = UNKB('assert')
            if not t[2]:
                c = NOT(c)
            bad = AND(st.g, NOT(c))
            if bad != F:
                self.panics.append((f['name'], str(t[4]) if len(t) > 4 else '', bl.get('l'), bad))
            n = self.assume(st, c)
            return [] if n is None else [(t[3], n)]
        if k == 'call':
            args = [self.operand(st, fr, o) for o in t[3]]
            fid = t[1]
            if fid is None:
                fv = self.scalar(st, self.operand(st, fr, t[2]))
                outs = []
                for x, g in leaves(restrict(fv, st.g)):
                    s2 = self.assume(st, g)
                    if s2 is None:
                        continue
                    if isinstance(x, FnVal):
                        outs += self.call(s2.copy(), x.f, args)
                    else:
                        self.gap('indirect call')
                        outs.append((s2, TOP))
            else:
                self.dty = f['locals'][t[4][0]] if not t[4][1] else self.place_ty(f, t[4])
                self.argtys = [self.optype(f, o) for o in t[3]]
                outs = self.call(st, fid, args)
            if t[5] < 0:
                for s2, v in outs:
                    self.panics.append((f['name'], 'diverge', bl.get('l'), s2.g))
                return []
            res = []
            for s2, v in outs:
                s2 = s2 if len(outs) == 1 else s2
                p = t[4]
                if not p[1]:
                    s2.mem[('L', fr, p[0])] = v
                else:
                    self.write_place(s2, fr, p, v)
                res.append((t[5], s2))
            return res
        if k in ('unreach', 'resume', 'abort', 'asm'):
            return []
        self.gap('terminator ' + k)
        return []

    def switch(self, st, fr, f, t):
        v = self.scalar(st, self.operand(st, fr, t[1]))
        ot = self.ty(self.optype(f, t[1])) if t[1][0] in ('c', 'm') else None
        if ot and ot['k'] == 'int' and ot.get('sz'):
            w = 8 * ot['sz']
            t = [t[0], t[1], [[c - 2**w if c is not None and c >= 2**(w - 1) else c, x] for c, x in t[2]], t[3]]
        v = restrict(v, st.g)
        out = {}

        def add(tgt, g):
            out[tgt] = OR(out.get(tgt, F), g)
        isb = isbool(v)
        for val, g in leaves(v):
            if AND(g, st.g) == F:
                continue
            if isb or isinstance(val, bool):
                val = P1 if val is True else P0
            if not isinstance(val, Poly):
                for c, tgt in t[2] + [[None, t[3]]]:
                    add(tgt, AND(g, UNKB('switch')))
                continue
            c = val.const
            if c is not None:
                for x, tgt in t[2]:
                    if c == x or (c < 0 and x == c + 2 ** self.bits(f, t[1])):
                        add(tgt, g)
                        break
                else:
                    add(t[3], g)
            else:
                rest = g
                for x, tgt in t[2]:
                    e = EQP(val, pconst(x))
                    add(tgt, AND(rest, e))
                    rest = AND(rest, NOT(e))
                if rest != F:
                    add(t[3], rest)
        res = []
        n = len(out)
        for tgt, g in out.items():
            s2 = self.assume(st, g)
            if s2 is None:
                continue
            if s2 is st and n > 1:
                s2 = st.copy()
            res.append((tgt, s2))
        return res

    def bits(self, f, o):
        t = self.ty(self.optype(f, o))
        return t.get('w', 64) or 64


def iter_objs(v, d=0):
    if isinstance(v, Obj):
        if v.k in ('iter', 'vit'):
            yield v
        elif v.k == 'zip':
            yield min((list(iter_objs(v.d[x], d + 1)) for x in ('a', 'b')), key=lambda l: any(not (isinstance(y, Poly) and y.const is not None) for i in l for y in leafset(i.d['end'])))[0]
        else:
            for x in v.d.values():
                if d < 6:
                    yield from iter_objs(x, d + 1)
    elif isinstance(v, Agg) and d < 6:
        for x in v.f:
            yield from iter_objs(x, d + 1)
    elif isinstance(v, Enum) and d < 6:
        for fs in v.v.values():
            for x in fs:
                yield from iter_objs(x, d + 1)


def is_length(p):
    """a polynomial over lengths of slices or vectors only"""
    return all(Term.all[t].op == 'sym' and Term.all[t].args[-1] == 'len' for m, _ in p.m for t in m)


def slice_base(v):
    """(object, path) if v is certainly a window into one slice"""
    if not isinstance(v, int) or isbool(v):
        return None
    r = None
    for x in leafset(v):
        if not isinstance(x, Ref) or not x.meta or x.meta[0] != 'w':
            return None
        if r is None:
            r = (x.obj, x.path)
        elif r != (x.obj, x.path):
            return None
    return r


def errkey(v, kind=None):
    """'E' if v is definitely an Err value, or a Break / Some carrying one.  kind: 'R' (the type is Result), 'C' (ControlFlow), 'O' (anything else), None (not known)"""
    if isinstance(v, Enum) and isleaf(v.d):
        x = VAL[v.d]
        if isinstance(x, Poly) and x is P1 and 1 in v.v and 0 not in v.v:
            if kind == 'R':
                return 'E'
            if kind == 'O':
                return ''
            return 'E' if v.v[1] and all(errlike(y) for y in v.v[1]) else ''
    return ''


def errlike(y):
    if isinstance(y, Enum):
        return bool(errkey(y)) or (isleaf(y.d) and all(not fs for fs in y.v.values()))
    if isinstance(y, int) and not isbool(y):
        return all(isinstance(x, Term) and x.op in ('err', 'top') for x in leafset(y))
    return False


def isbool(n):
    if n <= 1:
        return True
    m = n
    while not isleaf(m):
        m = LO[m]
    return m <= 1


NAMEK = 6
_nm = {}


def nameval(n):
    """give a name to an integer value with many alternatives, so that later conditions on it are one atom each.
    The definition (a decision diagram) stays reachable as the term's argument."""
    if n <= 1 or isleaf(n):
        return n
    r = _nm.get(n)
    if r is None:
        ls = leafset(n)
        r = n
        if len(ls) > NAMEK and all(isinstance(x, Poly) for x in ls) and not all(x.const is not None for x in ls):
            los = [prange(x)[0] for x in ls]
            his = [prange(x)[1] for x in ls]
            r = leaf(pterm(T('def', n, lo=None if None in los else min(los), hi=None if None in his else max(his))))
        _nm[n] = r
    return r


UNITLEAF = leaf(T('unit'))
_unk = [0]


def UNKB(why):
    _unk[0] += 1
    return BOOLT(T('unknown', why, _unk[0]))


def aspoly(x):
    if isinstance(x, Poly):
        return x
    if x is True:
        return P1
    if x is False:
        return P0
    if isinstance(x, Term) and x.op not in ('top',):
        return pterm(x)
    return None


def ptr_off(r, n):
    if isinstance(r, Ref) and isinstance(n, Poly):
        if r.path and r.path[-1][0] == 'i':
            return leaf(Ref(r.obj, r.path[:-1] + (('i', padd(r.path[-1][1], n)),), r.meta))
        if n is P0:
            return leaf(r)
    return TOP


def blen(t):
    if isbytes(t):
        return len(t.args[0]) // 2
    if t.op == 'le':
        return t.args[0] // 8
    if t.op in ('key', 'pda', 'hash'):
        return 32
    return None


def byte_at(t, idx):
    if isbytes(t) and idx.const is not None:
        b = bytes.fromhex(t.args[0])
        if idx.const < len(b):
            return num(b[idx.const])
        return TOP
    if isinstance(t, Term) and t.op == 'le' and t.args[0] == 8 and idx is P0:
        return leaf(t.args[1])
    if isinstance(t, Term) and t.op == 'u8s' and idx.const is not None and idx.const < len(t.args):
        return leaf(t.args[idx.const])
    if isinstance(t, Term):
        return leaf(pterm(T('byte', t, idx, lo=0, hi=255)))
    return TOP


def mkle(w, p):
    if isinstance(p, Poly):
        if p.const is not None:
            return leaf(T('bytes', (p.const & (2**w - 1)).to_bytes(w // 8, 'little').hex()))
        if len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1:
            t = Term.all[p.m[0][0][0]]
            if t.op == 'fromle' and t.args[0] == w:
                return leaf(t.args[1])
        return leaf(T('le', w, p))
    return TOP


def fromle(w, t):
    if isbytes(t):
        return num(int.from_bytes(bytes.fromhex(t.args[0]), 'little'))
    if isinstance(t, Term) and t.op == 'le' and t.args[0] == w:
        return leaf(t.args[1])
    if isinstance(t, Term) and t is not TOPT:
        return leaf(pterm(T('fromle', w, t, lo=0, hi=2**w - 1)))
    return TOP


def struct_eq(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.f) == len(b.f) and all(struct_eq(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.n == b.n and a.stores == b.stores and (a.base == b.base or (a.base[0] == b.base[0] == 'val' and struct_eq(a.base[1], b.base[1])))
    return False


# ---------------------------------------------------------------- cheap theory
SOFT = set()
SOFTMEM = 24      # soft conditions remembered per state
_ds = {}


def softatom(t):
    n = BOOLT(t)
    SOFT.add(VAR[n])
    return n


def dropsoft(c):
    if c <= 1:
        return c
    r = _ds.get(c)
    if r is None:
        s = support(c) & SOFT
        r = exists(c, s) if s else c
        _ds[c] = r
    return r


def conj(l):
    r = TR
    for x in l:
        r = AND(r, x)
    return r


def simplify_against(a, b):
    """for disjoint a and b: a condition that holds under a and not under b, a single literal of a if one does"""
    fa, fb = forced(a), forced(b)
    for v, p in fa.items():
        if v in fb and fb[v] != p:
            return litnode(v) if p else NOT(litnode(v))
    return a


_feas = {}


def feasible(g):
    r = _feas.get(g)
    if r is None:
        r = _feas[g] = feasible_lits(forced(g))
    return r


def lit_bounds(lits):
    """per-direction intervals from ge-literals; None if contradictory"""
    iv = {}
    for v, pos in lits.items():
        a = ATOMS[v]
        if a[0] != 'ge':
            continue
        d = a[1]
        lo, hi = iv.get(d) or prange(d)
        if pos:
            lo = a[2] if lo is None else max(lo, a[2])
        else:
            hi = a[2] - 1 if hi is None else min(hi, a[2] - 1)
        if lo is not None and hi is not None and lo > hi:
            return None
        iv[d] = (lo, hi)
    return iv


def feasible_lits(lits):
    iv = lit_bounds(lits)
    if iv is None:
        return False
    # propagate single-term bounds into larger directions
    tb = {}
    for d, (lo, hi) in iv.items():
        if len(d.m) == 1 and len(d.m[0][0]) == 1 and d.m[0][1] == 1:
            tb[d.m[0][0][0]] = (lo, hi)
    if tb:
        for d, (lo, hi) in iv.items():
            if len(d.m) > 1 or len(d.m[0][0]) > 1:
                a, b = prange(d, tb)
                if lo is not None and b is not None and b < lo:
                    return False
                if hi is not None and a is not None and a > hi:
                    return False
    # equalities of opaque terms
    uf = {}

    def find(x):
        while uf.get(x, x) is not x:
            x = uf[x]
        return x
    ne = []
    for v, pos in lits.items():
        a = ATOMS[v]
        if a[0] == 'eq':
            if pos:
                x, y = find(a[1]), find(a[2])
                if x is not y:
                    if isbytes(x) and isbytes(y):
                        return False
                    if isbytes(x):
                        x, y = y, x
                    uf[x] = y
            else:
                ne.append((a[1], a[2]))
    for x, y in ne:
        if find(x) is find(y):
            return False
    return True
