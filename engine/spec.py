"""Small language in which the rules are written: gated values (V), conditions (B) and the facts of one
analysed instruction (Q)."""
from dd import *
import dd
import interp
from interp import *
import theory
import query
from models import tyshort


class Anchor(Exception):
    """something a rule refers to does not exist in the program any more"""


class B:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __and__(self, o):
        return B(AND(self.n, o.n))

    def __or__(self, o):
        return B(OR(self.n, o.n))

    def __invert__(self):
        return B(NOT(self.n))

    def __rshift__(self, o):
        return B(OR(NOT(self.n), o.n))

    def __bool__(self):
        raise TypeError('use & | ~ on conditions')


BT, BF = B(TR), B(F)


def conj(*bs):
    r = BT
    for b in bs:
        r = r & b
    return r


def disj(*bs):
    r = BF
    for b in bs:
        r = r | b
    return r


def _poly(x):
    return x if isinstance(x, Poly) else aspoly(x) if (x is True or x is False) else (pterm(x) if isinstance(x, Term) and x is not TOPT and x.lo is not None else None)


def _num2(f):
    def g(x, y):
        a, b = _poly(x), _poly(y)
        if a is None or b is None:
            return TOP
        return leaf(f(a, b))
    return g


def _cmp2(f, why):
    def g(x, y):
        a, b = _poly(x), _poly(y)
        if a is None or b is None:
            return UNKB(why)
        return f(a, b)
    return g


def _eqf(x, y):
    if x is TOPT or y is TOPT:
        return UNKB('spec-eq')
    if isinstance(x, bool) and isinstance(y, bool):
        return TR if x == y else F
    a, b = _poly(x), _poly(y)
    if a is not None and b is not None:
        return EQP(a, b)
    if isinstance(x, Term) and isinstance(y, Term):
        return EQT(x, y)
    return UNKB('spec-eq')


def _divf(x, y):
    a, b = _poly(x), _poly(y)
    if a is None or b is None or b.const == 0:
        return TOP
    return leaf(pdiv(a, b))


class V:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n if not isinstance(n, bool) else (TR if n else F)

    @staticmethod
    def of(x):
        if isinstance(x, V):
            return x
        if isinstance(x, int):
            return V(leaf(pconst(x)))
        if isinstance(x, (Term, Poly)):
            return V(leaf(x))
        raise TypeError(x)

    def __add__(self, o):
        return V(apply2('s+', _num2(padd), self.n, V.of(o).n))

    __radd__ = __add__

    def __sub__(self, o):
        return V(apply2('s-', _num2(lambda a, b: padd(a, b, -1)), self.n, V.of(o).n))

    def __rsub__(self, o):
        return V.of(o) - self

    def __mul__(self, o):
        return V(apply2('s*', _num2(pmul), self.n, V.of(o).n))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return V(apply2('s/', _divf, self.n, V.of(o).n))

    def __ge__(self, o):
        return B(apply2('s>=', _cmp2(ge, 'spec-ge'), self.n, V.of(o).n))

    def __gt__(self, o):
        return B(apply2('s>', _cmp2(gt, 'spec-gt'), self.n, V.of(o).n))

    def __le__(self, o):
        return V.of(o) >= self

    def __lt__(self, o):
        return V.of(o) > self

    def eq(self, o):
        return B(apply2('s==', _eqf, self.n, V.of(o).n))

    def ne(self, o):
        return ~self.eq(o)

    def __str__(self):
        return query.nodestr(self.n, 3)


def ceildiv(a, b):
    return (a + (b - 1)) // b


def cond(c, a, b):
    return V(ite(c.n, V.of(a).n, V.of(b).n))


def vmin(a, b):
    a, b = V.of(a), V.of(b)
    return cond(a <= b, a, b)


def vmin_tie(a, b):
    """the smaller; a tie may go either way, so use the comparison that is already there"""
    a, b = V.of(a), V.of(b)
    c, d = a <= b, a < b
    return cond(d if VAR[d.n] < VAR[c.n] else c, a, b)


def vmax(a, b):
    a, b = V.of(a), V.of(b)
    return cond(a >= b, a, b)


# ---------------------------------------------------------------- layouts (on-chain ABI): name -> byte offset
LAYOUT = {
    'Presale': ['owner:0', 'quote_mint:32', 'base_mint:64', 'base_token_vault:96', 'quote_token_vault:128', 'base:160', 'presale_mode:193', 'whitelist_mode:194',
                'presale_maximum_cap:200', 'presale_minimum_cap:208', 'presale_start_time:216', 'presale_end_time:224', 'presale_supply:232', 'total_deposit:240',
                'total_escrow:248', 'created_at:256', 'lock_duration:264', 'vest_duration:272', 'immediate_release_timestamp:280', 'vesting_start_time:296',
                'vesting_end_time:304', 'total_claimed_token:312', 'total_refunded_quote_token:320', 'total_deposit_fee:328', 'deposit_fee_collected:336',
                'has_creator_withdrawn:344', 'base_token_program_flag:345', 'quote_token_program_flag:346', 'total_presale_registry_count:347',
                'unsold_token_action:348', 'is_unsold_token_action_performed:349', 'immediate_release_bps:350', 'presale_mode_raw_data:352', 'presale_registries:464'],
    'PresaleRegistry': ['presale_supply:0', 'total_deposit:8', 'total_escrow:16', 'total_claimed_token:24', 'total_refunded_quote_token:32',
                        'buyer_minimum_deposit_cap:40', 'buyer_maximum_deposit_cap:48', 'total_deposit_fee:56', 'deposit_fee_bps:64'],
    'Escrow': ['presale:0', 'owner:32', 'total_deposit:64', 'total_claimed_token:72', 'is_remaining_quote_withdrawn:80', 'registry_index:81',
               'pending_claim_token:88', 'deposit_max_cap:96', 'created_at:104', 'total_deposit_fee:112', 'last_refreshed_at:120'],
    'FixedPricePresaleExtraArgs': ['disable_withdraw:15', 'q_price:16', 'owner:32', 'presale:64'],
    'MerkleRootConfig': ['root:0', 'presale:40', 'version:72'],
    'Operator': ['owner:0', 'creator:32'],
}
LAYOUT = {s: {x.split(':')[0]: int(x.split(':')[1]) for x in fs} for s, fs in LAYOUT.items()}
STATE_STRUCTS = ('Presale', 'Escrow', 'FixedPricePresaleExtraArgs', 'MerkleRootConfig', 'Operator', 'PermissionedServerMetadata')


def struct_ty(prog, name):
    c = [i for i, t in enumerate(prog.TY) if t['k'] == 'struct' and tyshort(t['name']) == name and '::program::' not in t['name'] and not t['name'].startswith('program::') and t['vs'][0]['fs']
         and not t['name'].startswith(('instruction::', 'accounts::'))]
    if not c:
        raise Anchor('no struct %s in the program' % name)
    return c[0]


def field(prog, tyid, name):
    """(index, actual field name, type) of a layout field: by name, else by its fixed byte offset"""
    t = prog.TY[tyid]
    fs = t['vs'][0]['fs']
    for i, (n, ft) in enumerate(fs):
        if n == name:
            return i, n, ft
    off = LAYOUT.get(tyshort(t['name']), {}).get(name)
    if off is not None:
        for i, (n, ft) in enumerate(fs):
            if t['off'][i] == off and prog.TY[ft].get('sz') != 0:
                return i, n, ft
    raise Anchor('no field %s in %s' % (name, t['name']))


class Q:
    """facts about one instruction"""

    def __init__(self, prog, R):
        self.prog = prog
        self.R = R
        self.I = R.I
        self.name = R.name
        self.g = B(R.g)
        self.ok = R.g != F
        self.now = self.sym(('clock', 'unix_timestamp'), -2**63, 2**63 - 1)
        self._inits = None
        self._changes = None
        self._fin = {}

    def sym(self, path, lo=None, hi=None):
        t = T('sym', *path, lo=lo, hi=hi)
        return V(leaf(pterm(t) if t.lo is not None else t))

    # -------- objects
    def has(self, obj):
        return obj in self.I.stidx

    def key(self, obj):
        """address of the account holding state object `obj`"""
        self.inits()
        if obj not in self.I.stidx:
            raise Anchor('%s uses no %s account' % (self.name, obj))
        return V(leaf(T('key', self.I.stidx[obj])))

    def init(self, obj, *path):
        """value of a state field before the instruction"""
        tid = struct_ty(self.prog, obj)
        v = Sym((obj,), tid)
        return self._walk(v, tid, path, State({}, TR))

    def final(self, obj, *path):
        """value of a state field after a successful run"""
        k = (obj,) + tuple(p if not isinstance(p, V) else p.n for p in path)
        r = self._fin.get(k)
        if r is None:
            tid = struct_ty(self.prog, obj)
            v = Sym((obj,), tid)
            for o, x in self.R.ok.mem.items():
                if o[0] == 'st' and o[2] == (obj,):
                    v = x
            r = self._walk(v, tid, path, State({}, self.R.g))
            r = V(restrict(r.n, self.R.g))
            self._fin[k] = r
        return r

    def _walk(self, v, tid, path, st):
        I = self.I
        for p in path:
            v = I.expand(v)
            t = self.prog.TY[tid]
            if isinstance(p, str) and p.startswith('@'):
                off, w = map(int, p[1:].split(':'))
                r = I.as_raw(v)
                tid = next(i for i, t in enumerate(self.prog.TY) if t['k'] == 'uint' and t.get('w') == 8 * w)
                v = I.raw_read(r, off, tid)
            elif isinstance(p, str):
                i, n, ft = field(self.prog, tid, p)
                if not isinstance(v, Agg):
                    return V(TOP)
                v = v.f[i]
                tid = ft
            else:
                idx = pconst(p) if isinstance(p, int) else p
                if isinstance(p, V):
                    if not isleaf(p.n):
                        raise Anchor('gated index')
                    idx = VAL[p.n]
                tid = t['e']
                v = I.arr_get(st, v, idx) if isinstance(v, Arr) else TOP
        v = I.expand(v)
        if not isinstance(v, int):
            return V(TOP)
        return V(v)

    # short hands
    def P(self, f):
        return self.init('Presale', f)

    def E(self, f):
        return self.init('Escrow', f)

    @property
    def ridx(self):
        return self.init('Escrow', 'registry_index')

    def G(self, f, idx=None):
        """registry field (initial) at the escrow's registry index (or a given index)"""
        return self.init('Presale', 'presale_registries', self.ridx if idx is None else idx, f)

    def P1(self, f):
        return self.final('Presale', f)

    def E1(self, f):
        return self.final('Escrow', f)

    def G1(self, f, idx=None):
        return self.final('Presale', 'presale_registries', self.ridx if idx is None else idx, f)

    def raw(self, off, w, final=False):
        return (self.final if final else self.init)('Presale', 'presale_mode_raw_data', '@%d:%d' % (off, w))

    def arg(self, *path):
        """instruction argument; path elements are field names (or positions), ints >= 0 inside vectors are ('i', n)"""
        d = [t for t in self.prog.TY if t['k'] == 'struct' and t['name'].startswith('instruction::') and t['name'].split('::')[-1].replace('_', '').lower() == self.name.replace('_', '').lower()]
        if not d:
            raise Anchor('no argument struct for ' + self.name)
        t = d[0]
        cur = ('arg',)
        tid = None
        for p in path:
            if isinstance(p, tuple):
                cur += ('[%d]' % p[0],) if not isinstance(p[0], V) else ('[%s]' % pstr(VAL[p[0].n]),)
                tid = t['ga'][0]
                t = self.prog.TY[tid]
                continue
            if p == 'len':
                return V(leaf(pterm(T('sym', *cur, 'len', lo=0, hi=2**32))))
            if p == '#':
                return V(leaf(pterm(T('sym', *cur, '#', lo=0, hi=len(t['vs']) - 1))))
            if isinstance(p, str) and p.startswith('?'):
                vs = [v for v in t['vs'] if v['n'] == p[1:]][0]
                cur += (vs['n'], vs['fs'][0][0])
                tid = vs['fs'][0][1]
                t = self.prog.TY[tid]
                continue
            name, pos = p if isinstance(p, list) else (p, None)
            fs = t['vs'][0]['fs']
            c = [(n, ft) for n, ft in fs if n == name]
            if not c and pos is not None and pos < len(fs):
                c = [fs[pos]]
            if not c:
                raise Anchor('no argument %s in %s' % (name, self.name))
            cur += (c[0][0],)
            tid = c[0][1]
            t = self.prog.TY[tid]
        v = self.I.expand(Sym(cur, tid))
        return V(v) if isinstance(v, int) else v

    # -------- changes
    @property
    def changes(self):
        if self._changes is None:
            self._changes = query.changes(self.R)
        return self._changes

    def inits(self):
        """names of the state objects this instruction creates"""
        if self._inits is not None:
            return self._inits
        out = []
        for o, g in self.I.inits:
            if AND(g, self.R.g) != F and o[2][0] not in out:
                out.append(o[2][0])
        for n, i in self.I.stidx.items():
            if n not in out and n.split('@')[0] in STATE_STRUCTS:
                made = F
                for e in self.I.effects:
                    if e['kind'] in ('sys.create_account', 'sys.assign'):
                        a = e['accts'].get('to', e['accts'].get('account_to_assign'))
                        if a is not None and any(isinstance(x, Term) and x.op == 'acct' and x.args[0] == i for x in leafset(a)):
                            made = OR(made, e['g'])
                if made != F and theory.prove(self.R.g, made).ok:
                    out.append(n)
        self._inits = out
        return out

    def closes(self):
        return [(e, self.objname(e['acct'])) for e in self.I.effects if e['kind'] == 'close' and AND(e['g'], self.R.g) != F]

    def objname(self, acctnode):
        for x in leafset(acctnode):
            if isinstance(x, Term) and x.op == 'acct':
                for n, i in self.I.stidx.items():
                    if i == x.args[0]:
                        return n
                a = self.I.accts.get(x.args[0])
                if a:
                    return a[1]
        return None

    # -------- effects
    def effects(self, *kinds):
        for e in self.I.effects:
            if e['kind'] in kinds and AND(e['g'], self.R.g) != F:
                yield e

    def token_moves(self):
        """every token movement: dict(kind, g(B), source, mint, dest, authority, amount (V), program, seeds, e)"""
        out = []
        for e in self.I.effects:
            k = e['kind']
            g = B(AND(e['g'], self.R.g))
            if g.n == F or k in ('hook', 'memo', 'event', 'close', 'initialize_account3') or k.startswith('sys.'):
                continue
            m = dict(kind=k, g=g, e=e, seeds=e.get('seeds'))
            if k == 'transfer' and 'source' in e:
                for f in ('source', 'mint', 'dest', 'authority', 'program', 'amount', 'decimals'):
                    m[f] = V(restrict(e[f], g.n))
            else:
                ac = {a: V(self._key(b)) for a, b in (e.get('accts') or {}).items()}
                m['source'] = ac.get('from', V(TOP))
                m['mint'] = ac.get('mint', V(TOP))
                m['dest'] = ac.get('to')
                m['authority'] = ac.get('authority', V(TOP))
                a = e.get('args') or [TOP]
                m['amount'] = V(a[0] if a and a[0] is not None else TOP)
                m['program'] = V(self._key(e['cpiprog'])) if isinstance(e.get('cpiprog'), int) else V(TOP)
                if k in ('transfer', 'transfer_checked') and m['dest'] is not None:
                    m['kind'] = 'transfer'
            out.append(m)
        return out

    def _key(self, n):
        return apply1('acct2key', lambda t: leaf(T('key', t.args[0])) if isinstance(t, Term) and t.op == 'acct' else TOP, n)

    def total(self, moves):
        """sum of the amounts moved over all movements, under their guards"""
        s = V.of(0)
        for m in moves:
            s = s + cond(m['g'], m['amount'], 0)
        return V(restrict(s.n, self.R.g))

    def signer_indices(self):
        out = set()
        for v in support(self.R.g):
            a = ATOMS[v]
            if a[0] == 'b' and a[1].op == 'is_signer':
                out.add(a[1].args[0])
        return sorted(out, key=str)

    def signed(self, keyv):
        """some account that signed the transaction has this key"""
        r = BF
        for i in self.signer_indices():
            r = r | (B(BOOLT(T('is_signer', i))) & V(leaf(T('key', i))).eq(keyv))
        return r

    def seeds_key(self, seeds):
        """address derived from constant signer seeds (bump included), or None"""
        import hashlib
        bs = []
        for n in seeds:
            ls = leafset(n)
            if len(ls) != 1 or not isinstance(ls[0], Term) or ls[0].op != 'bytes':
                return None
            bs.append(bytes.fromhex(ls[0].args[0]))
        p = pid(self.prog)
        if p.op != 'bytes':
            return None
        h = hashlib.sha256(b''.join(bs) + bytes.fromhex(p.args[0]) + b'ProgramDerivedAddress').hexdigest()
        return V(leaf(T('bytes', h)))

    def pda(self, *seeds):
        """canonical program derived address"""
        xs = []
        for s in seeds:
            if isinstance(s, bytes):
                xs.append(T('bytes', s.hex()))
            else:
                if not isleaf(s.n):
                    raise Anchor('gated seed')
                xs.append(VAL[s.n])
        return V(leaf(T('pda', pid(self.prog), *xs)))

    def le(self, v, bits):
        x = VAL[V.of(v).n]
        if isinstance(x, Poly) and x.const is not None:
            return V(leaf(T('bytes', x.const.to_bytes(bits // 8, 'little').hex())))
        return V(leaf(T('le', bits, x)))

    def ata(self, owner, mint, prog):
        return V(leaf(T('ata', VAL[owner.n], VAL[mint.n], VAL[prog.n])))

    def typed(self, obj):
        """the account behind state object obj was checked to be a program account of that type"""
        idx = self.I.stidx[obj]
        return B(BOOLT(T('typed', obj.split('@')[0], idx)))

    def events(self):
        return [e for e in self.effects('event')]


def pid(prog):
    import entry
    return entry.program_id(prog)
