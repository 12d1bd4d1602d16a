"""The rules that decide each property, over the facts of the analysed instructions (see spec.Q)."""
import re
import time
from dd import *
from interp import *
from spec import *
import theory
import entry
from models import LEXLT

U64 = 2**64 - 1
TWO64 = 2**64
FIXED, PRORATA, FCFS = 0, 1, 2
ALL = ['initialize_fixed_price_presale_args', 'close_fixed_price_presale_args', 'initialize_presale', 'create_merkle_root_config',
       'close_merkle_root_config', 'create_permissionless_escrow', 'create_permissioned_escrow_with_creator',
       'create_permissioned_escrow_with_merkle_proof', 'create_operator', 'revoke_operator', 'deposit', 'withdraw', 'claim',
       'withdraw_remaining_quote', 'perform_unsold_base_token_action', 'close_escrow', 'creator_withdraw', 'refresh_escrow',
       'create_permissioned_server_metadata', 'close_permissioned_server_metadata', 'creator_collect_fee']
CREATE_ESCROW = ALL[5:8]

EXPLANATION = ('Interprocedural gated value-flow analysis (abstract interpretation with joins at control-flow merges) of the monomorphised MIR of each instruction entry point, '
               'compiled from the current working tree: it yields, for every stored field, token movement, event and account check, its value as a function of the inputs and the '
               'guard under which it happens. Each obligation of the property is an entailment between such guards, decided by decision-diagram operations and integer '
               'polyhedra emptiness (Fourier-Motzkin); an obligation that cannot be discharged is reported. Nothing is executed, concretely or symbolically, and no solver is called. '
               'Obligations hold for all accounts, arguments, clocks and stored states; histories are covered by per-instruction preservation. It is not a machine-checked proof: see trusted_base.')
TRUSTED = [
    'rustc nightly front end and its MIR (the analysed program is the one rustc type-checks from /repo\'s working tree, monomorphised, overflow checks as in [profile.release])',
    'the driver /verif/driver that prints that MIR, and the abstract interpreter and entailment engine in /verif/engine',
    'the models in engine/models.py of functions outside the repository: core/alloc collections and integers, anchor-lang account wrappers, borsh, bytemuck, ruint, solana syscalls, and SPL token / token-2022 as specified by their documentation',
]
ASSUMED = [
    'Solana runtime: a failing instruction changes nothing; only the owning program writes an account; signer flags and the clock are genuine; distinct state accounts of one instruction do not alias (account types have distinct discriminators)',
    'SPL token and token-2022 move exactly the amount asked for, less the mint\'s transfer fee',
    'facts about stored state used as premises (positive caps and price, registry count 1..5, flags 0/1, release percentage and schedule order, ...) are those established by initialize_presale / escrow creation and preserved by every instruction, which rules C04, C16, C19, C20, C23 and C24 check',
]


def prove_equal(g, a, b, hint=TR):
    return theory.prove_equal(g, a, b, lambda x, y: V(x).eq(V(y)).n, hint)


class Ctx:
    def __init__(self, prog, merkle=None, log=None, repo='/repo'):
        self.repo = repo
        self.prog = prog
        self.merkle = merkle
        self.qs = {}
        self.obl = []
        self.viol = []
        self.log = log
        self.times = {}
        self.pid = None

    # ------------------------------------------------------------ analysed instructions
    def names(self):
        return list(entry.instructions(self.prog))

    def q(self, name):
        if name not in self.qs:
            if name not in entry.instructions(self.prog):
                raise Anchor('instruction %s does not exist' % name)
            t = time.time()
            R = entry.analyse(self.prog, name)
            self.times[name] = time.time() - t
            if R.ok is None:
                raise Anchor('instruction %s can never succeed' % name)
            for fn, g in R.I.loopcuts:
                if not theory.prove(g, F).ok:
                    raise Anchor('instruction %s: the loop in %s could not be followed to its end' % (name, fn))
            self.qs[name] = Q(self.prog, R)
        return self.qs[name]

    def all(self):
        return [self.q(n) for n in self.names()]

    def coverage(self):
        ins, fns, gaps = [], set(), []
        for n, q in self.qs.items():
            ins.append(dict(instruction=n, atoms_in_guard=len(support(q.R.g)), state_writes=len(q.changes), effects=len(q.I.effects),
                            where=self.where(q), seconds=round(self.times[n], 2)))
            fns |= q.I.fnseen
            gaps += ['%s: %s' % (n, g) for g in q.I.gaps]
        return dict(instructions=ins, functions=len(fns), mir_functions_in_dump=len(self.prog.F), entailment=dict(theory.STATS), modelled_as_unknown=gaps[:50])

    # ------------------------------------------------------------ obligations
    def record(self, q, key, text, ok, why='', where=None):
        self.obl.append(dict(instruction=q.name if q else '-', rule=key, text=text, ok=bool(ok)))
        if not ok:
            self.viol.append(dict(instruction=q.name if q else '-', rule=key, text=text, why=why, where=where or self.where(q)))
        if self.log:
            self.log('%s %-40s %-28s %s%s' % ('ok  ' if ok else 'FAIL', q.name if q else '-', key, text, '' if ok else '  <<' + why[:1500]))
        return ok

    def where(self, q):
        if q is None:
            return ''
        for f in self.prog.F:
            if f['krate'] == 'presale' and re.search(r'::handle_%s(::<.*>)?$' % q.name, f['name']):
                return '%s (%s)' % (f['name'], f.get('l'))
        for f in self.prog.F:
            if f['name'] == 'presale::presale::' + q.name or f['name'].startswith('presale::presale::' + q.name + '::<'):
                return '%s (%s)' % (f['name'], f.get('l'))
        return q.name

    def site(self, e):
        return ' > '.join(re.sub(r"::<'_.*?>", '', s) for s in e.get('site', []))

    def need(self, q, key, text, phi, under=None, where=None):
        """obligation: whenever the instruction succeeds (and `under` holds), phi holds"""
        g = q.R.g if under is None else AND(q.R.g, under.n)
        t = time.time()
        v = theory.prove(g, phi.n, hint=TR if under is None else under.n)
        dt = time.time() - t
        if dt > 1 and self.log:
            self.log('     (%.1fs)' % dt)
        return self.record(q, key, text, v.ok, v.text(), where)

    def same(self, q, key, text, a, b, under=None, where=None):
        """obligation: two values are equal whenever the instruction succeeds (and `under` holds)"""
        a, b = V.of(a), V.of(b)
        g = q.R.g if under is None else AND(q.R.g, under.n)
        pr = theory.normal_pair(g, a.n, b.n) if g != F else None
        if pr is None:
            return self.record(q, key, text, True)
        t = time.time()
        v = prove_equal(g, pr[0], pr[1], TR if under is None else under.n)
        if time.time() - t > 1 and self.log:
            self.log('     (%.1fs)' % (time.time() - t))
        return self.record(q, key, text, v.ok, 'found %s, expected %s; %s' % (a, b, v.text()), where)

    def same_per(self, q, key, text, a, b, under):
        """like same, by cases on the number of registries and the presale mode; unused registries are empty (inv_registries).
        b: value, or function of (number of registries, mode)"""
        n = q.P('total_presale_registry_count')
        self.need(q, key + '-cases', 'case distinction is complete', conj(n >= 1, n <= 5, mode(q) <= 2), under)
        bad = []
        xg, xu, xa = theory.expand_node(q.R.g), theory.expand_node(under.n), theory.expand_node(a.n)
        for k, m, sub in cases(q):
            gk = AND(theory.subst_many(xg, sub), theory.subst_many(xu, sub))
            if gk == F:
                continue
            ak = theory.subst_many(xa, sub)
            bk = theory.subst_many(theory.expand_node((b(k, m) if callable(b) else b).n), sub)
            pr = theory.normal_pair(gk, ak, bk)
            if pr is None:
                continue
            v = prove_equal(gk, pr[0], pr[1])
            if not v.ok:
                bad.append('%d registries, mode %d: found %s, expected %s; %s' % (k, m, V(ak), V(bk), v.text()))
                break
        return self.record(q, key, text, not bad, '; '.join(bad))

    def must(self, q, key, text, ok, why='', where=None):
        return self.record(q, key, text, ok, why, where)


# ---------------------------------------------------------------- shared vocabulary
def mode(q):
    return q.P('presale_mode')


def is_fixed(q):
    return mode(q).eq(FIXED)


def is_prorata(q):
    return mode(q).eq(PRORATA)


def is_fcfs(q):
    return mode(q).eq(FCFS)


def ongoing(q):
    return (q.now >= q.P('presale_start_time')) & (q.now < q.P('presale_end_time'))


def ended(q):
    return q.now >= q.P('presale_end_time')


def cap_met(q):
    return q.P('total_deposit') >= q.P('presale_minimum_cap')


def succeeded(q):
    return ended(q) & cap_met(q)


def failed(q):
    return ended(q) & ~cap_met(q)


def q_price(q):
    return q.raw(0, 16)


def tokens_for(q, amount):
    return (V.of(amount) * TWO64) // q_price(q)


def quote_for(q, tokens):
    return ceildiv(tokens * q_price(q), V.of(TWO64))


def inv(q):
    """facts about stored state that hold from creation on: established by initialize_presale (rules C19, C20),
    preserved because no instruction writes the fields (C24) or writes only 0/1 (C04), timing shifts keep them (C23),
    escrow creation (C16)"""
    P = q.P
    r = conj(mode(q) <= 2, P('whitelist_mode') <= 2, P('presale_minimum_cap') >= 1, P('presale_minimum_cap') <= P('presale_maximum_cap'),
             P('presale_start_time') < P('presale_end_time'), P('immediate_release_bps') <= 10000, P('unsold_token_action') <= 1,
             P('total_presale_registry_count') >= 1, P('total_presale_registry_count') <= 5,
             P('has_creator_withdrawn') <= 1, P('deposit_fee_collected') <= 1, P('is_unsold_token_action_performed') <= 1,
             P('immediate_release_timestamp') <= P('vesting_start_time') + P('vest_duration'))
    return r


def inv_fixed(q):
    return is_fixed(q) >> (q_price(q) >= 1)


def inv_escrow(q):
    return conj(q.ridx < q.P('total_presale_registry_count'), q.ridx <= 4, q.E('is_remaining_quote_withdrawn') <= 1,
                q.G('presale_supply') >= 1, q.G('deposit_fee_bps') <= 5000,
                q.G('buyer_minimum_deposit_cap') <= q.G('buyer_maximum_deposit_cap'),
                q.E('deposit_max_cap') <= q.G('buyer_maximum_deposit_cap'))


def inv_registries(q):
    r = BT
    n = q.P('total_presale_registry_count')
    for i in range(5):
        r = r & ((n > i) >> (q.G('presale_supply', i) >= 1))
        for f in REG_FIELDS:
            r = r & ((n <= i) >> q.G(f, i).eq(0))
    return r


REG_FIELDS = ('presale_supply', 'total_deposit', 'total_deposit_fee', 'buyer_minimum_deposit_cap', 'buyer_maximum_deposit_cap', 'deposit_fee_bps')


def cases(q, modes=(FIXED, PRORATA, FCFS)):
    """(registries, mode, substitution): every number of registries and mode a presale can have; unused registries are all zero"""
    tid = lambda v: VAL[v.n].m[0][0][0]
    for m in modes:
        for k in range(1, 6):
            sub = {tid(q.P('total_presale_registry_count')): pconst(k), tid(mode(q)): pconst(m)}
            for i in range(k, 5):
                for f in REG_FIELDS:
                    sub[tid(q.G(f, i))] = pconst(0)
            yield k, m, sub


def escrow_users(c):
    """instructions acting on an existing escrow"""
    return [q for q in c.all() if q.has('Escrow') and 'Escrow' not in q.inits()]


def changed(q, obj, fld):
    """does the instruction (possibly) change this field?  fld may be a registry field written '[].name'"""
    out = []
    fld = real_name(q, obj, fld)
    for (o, f), (ini, fin, ty) in q.changes.items():
        if o != obj:
            continue
        f2 = re.sub(r'\[[^\]]*\]+(\.[a-z_]+\])?', '[]', f)
        if f == fld or f2 == fld or f2.startswith(fld + '.') :
            out.append(f)
    return out


def real_name(q, obj, fld):
    """field path with the names used in the program (fields are found by name, else by their fixed offset)"""
    ps = fld.split('.')
    try:
        i, n, ft = field(q.prog, struct_ty(q.prog, obj.split('@')[0]), ps[0])
        ps[0] = n
        if len(ps) > 2 and ps[1] == '[]':
            ps[2] = field(q.prog, q.prog.TY[ft]['e'], ps[2])[1]
    except KeyError:
        raise Anchor('no field %s.%s' % (obj, fld))
    return '.'.join(ps)


def moves_out(q):
    """movements signed by the program (out of a vault)"""
    return [m for m in q.token_moves() if m['seeds'] != []]


def moves_in(q):
    return [m for m in q.token_moves() if m['seeds'] == []]


# ---------------------------------------------------------------- C01
def c01(c):
    n = 0
    for q in c.all():
        opens = 'Escrow' in q.inits()
        dep = q.has('Presale') and q.has('Escrow') and not opens and (changed(q, 'Escrow', 'total_deposit') or changed(q, 'Presale', 'total_deposit'))
        pay_in = q.has('Escrow') and moves_in(q)
        if opens or dep or pay_in:
            n += 1
            c.need(q, 'after-start', 'succeeds only at or after the presale start', q.now >= q.P('presale_start_time'))
            c.need(q, 'before-end', 'succeeds only strictly before the presale end', q.now < q.P('presale_end_time'))
    c.must(None, 'instances', 'five instructions open, fund or defund an escrow', n >= 5, 'only %d found' % n)


# ---------------------------------------------------------------- C02
def c02(c):
    for n in ('claim', 'creator_collect_fee', 'perform_unsold_base_token_action'):
        q = c.q(n)
        c.need(q, 'after-end', 'succeeds only after the presale end', ended(q), inv(q))
        c.need(q, 'min-cap-met', 'succeeds only if deposits reached the minimum cap', cap_met(q), inv(q))
    q = c.q('withdraw_remaining_quote')
    c.need(q, 'after-end', 'succeeds only after the presale end', ended(q), inv(q))
    c.need(q, 'failed-or-prorata', 'succeeds only if the minimum cap was missed or the presale is pro-rata', ~cap_met(q) | is_prorata(q), inv(q))
    q = c.q('creator_withdraw')
    c.need(q, 'after-end', 'succeeds only after the presale end', ended(q), inv(q))
    # nothing else pays out of a vault, except the withdrawal of a deposit during the sale
    for q in c.all():
        if q.name in ('claim', 'creator_collect_fee', 'perform_unsold_base_token_action', 'withdraw_remaining_quote', 'creator_withdraw'):
            continue
        for m in moves_out(q):
            c.must(q, 'other-payout', 'only the withdrawal of a deposit may also pay out of a vault', q.name == 'withdraw', 'unexpected token movement at ' + c.site(m['e']))


# ---------------------------------------------------------------- C03
def c03(c):
    q = c.q('creator_withdraw')
    ms = q.token_moves()
    c.must(q, 'moves', 'the creator withdrawal moves tokens', len(ms) >= 1, 'no token movement found')
    ok = succeeded(q)
    raised = vmin(q.P('total_deposit'), q.P('presale_maximum_cap'))
    c.same(q, 'amount', 'pays min(total deposits, maximum cap) on success, the presale supply on failure', q.total(ms),
           cond(cap_met(q), raised, q.P('presale_supply')), inv(q))
    for m in ms:
        loc = c.site(m['e'])
        c.must(q, 'kind', 'the payment is a transfer', m['kind'] == 'transfer', m['kind'], loc)
        c.need(q, 'source', 'quote vault on success, base vault on failure',
               m['source'].eq(cond(cap_met(q), q.P('quote_token_vault'), q.P('base_token_vault'))), m['g'] & inv(q), loc)
        c.need(q, 'mint', 'quote mint on success, base mint on failure',
               m['mint'].eq(cond(cap_met(q), q.P('quote_mint'), q.P('base_mint'))), m['g'] & inv(q), loc)
    one_at_most(c, q, ms)


def one_at_most(c, q, ms):
    for i in range(len(ms)):
        c.must(q, 'once', 'a movement is not repeated in a loop', not ms[i]['e'].get('loop'), 'movement inside a loop', c.site(ms[i]['e']))
        for j in range(i):
            c.need(q, 'single', 'no two token movements in one run', BF, ms[i]['g'] & ms[j]['g'], c.site(ms[i]['e']))


# ---------------------------------------------------------------- C04
FLAGS = [('creator_withdraw', 'Presale', 'has_creator_withdrawn'), ('creator_collect_fee', 'Presale', 'deposit_fee_collected'),
         ('perform_unsold_base_token_action', 'Presale', 'is_unsold_token_action_performed'),
         ('withdraw_remaining_quote', 'Escrow', 'is_remaining_quote_withdrawn')]


def c04(c):
    for n, o, f in FLAGS:
        q = c.q(n)
        c.need(q, f + '-before', 'succeeds only if the payout was not recorded before', q.init(o, f).eq(0), q.init(o, f) <= 1)
        c.same(q, f + '-after', 'records the payout', q.final(o, f), 1, q.init(o, f) <= 1)
    for q in c.all():
        for n, o, f in FLAGS:
            if not q.has(o):
                continue
            if o in q.inits():
                c.same(q, f + '-new', 'starts unset', q.final(o, f), 0)
            else:
                c.need(q, f + '-kept', 'a recorded payout stays recorded', q.final(o, f).eq(1), q.init(o, f).eq(1))
                c.need(q, f + '-01', 'the record is 0 or 1', q.final(o, f) <= 1, q.init(o, f) <= 1)
                if q.name != n:
                    c.same(q, f + '-own', 'only its own instruction sets the record', q.final(o, f), q.init(o, f))
        for e, o in q.closes():
            if o == 'Presale':
                c.must(q, 'close', 'a presale account is never closed', False, 'closes a Presale', c.site(e))


# ---------------------------------------------------------------- C05
def deltas(q):
    return {
        'escrow': q.E1('total_deposit') - q.E('total_deposit'), 'registry': q.G1('total_deposit') - q.G('total_deposit'), 'presale': q.P1('total_deposit') - q.P('total_deposit'),
        'escrow_fee': q.E1('total_deposit_fee') - q.E('total_deposit_fee'), 'registry_fee': q.G1('total_deposit_fee') - q.G('total_deposit_fee'),
        'presale_fee': q.P1('total_deposit_fee') - q.P('total_deposit_fee')}


def c05(c):
    for n in ('deposit', 'withdraw'):
        q = c.q(n)
        d = deltas(q)
        c.same(q, 'registry=escrow', 'registry total moves with the escrow total', d['registry'], d['escrow'])
        c.same(q, 'presale=escrow', 'presale total moves with the escrow total', d['presale'], d['escrow'])
        c.same(q, 'registry-fee=escrow-fee', 'registry fee moves with the escrow fee', d['registry_fee'], d['escrow_fee'])
        c.same(q, 'presale-fee=escrow-fee', 'presale fee moves with the escrow fee', d['presale_fee'], d['escrow_fee'])
    q = c.q('deposit')
    c.need(q, 'deposit-adds', 'a deposit increases the totals', (q.E1('total_deposit') >= q.E('total_deposit')) & (q.E1('total_deposit_fee') >= q.E('total_deposit_fee')), inv(q) & inv_escrow(q))
    q = c.q('withdraw')
    c.need(q, 'withdraw-subtracts', 'a withdrawal decreases the totals', q.E1('total_deposit') <= q.E('total_deposit'))
    c.same(q, 'withdraw-fee', 'a withdrawal leaves the fees alone', q.E1('total_deposit_fee'), q.E('total_deposit_fee'))
    for q in c.all():
        for o, f in (('Presale', 'total_deposit'), ('Presale', 'total_deposit_fee'), ('Escrow', 'total_deposit'), ('Escrow', 'total_deposit_fee'),
                     ('Presale', 'presale_registries.[].total_deposit'), ('Presale', 'presale_registries.[].total_deposit_fee')):
            if not q.has(o):
                continue
            if o in q.inits():
                if '[]' in f:
                    for i in range(5):
                        c.same(q, 'start-zero', 'a new registry starts with no deposits', q.final(o, 'presale_registries', i, f.split('.')[-1]), 0)
                else:
                    c.same(q, 'start-zero', 'a new %s starts with zero %s' % (o, f), q.final(o, f), 0)
                continue
            ch = changed(q, o, f)
            if '[]' in f and q.name in ('deposit', 'withdraw'):
                idx = pstr(VAL[q.ridx.n])
                bad = [x for x in ch if '[%s]' % idx not in x]
                c.must(q, 'other-registry', 'only the registry of the escrow changes', not bad, ', '.join(bad))
            elif q.name not in ('deposit', 'withdraw'):
                c.must(q, 'others-untouched', '%s.%s is changed only by deposit and withdraw' % (o, f), not ch, 'changes ' + ', '.join(ch))


# ---------------------------------------------------------------- C06
def deposit_fee(q, d):
    bps = q.G('deposit_fee_bps')
    return ceildiv(V.of(d) * 10000, 10000 - bps) - d


def mint_index(m):
    xs = [x for x in leafset(m.n)]
    if len(xs) == 1 and isinstance(xs[0], Term) and xs[0].op == 'key':
        return xs[0].args[0]
    return None


def fee_terms(q, i, x):
    """(has transfer fee, epoch fee bps, max fee, inverse(x))"""
    tok = T('bytes', interp_tok())
    has = B(AND(NOT(EQT(tok, T('owner', i))), BOOLT(T('has_ext', 'TransferFeeConfig', i))))
    return has


def interp_tok():
    return '06ddf6e1d765a193d9cbe146ceeb79ac1cb485ed5f5b37913a8cf5857eff00a9'


def epoch_fee_name(i):
    return 'epoch_fee(TransferFeeConfig@%s,clock.epoch)' % i


def calc(fn, i, x):
    t = T('sym', epoch_fee_name(i))
    return V(apply1((fn, i), lambda p: leaf(pterm(T(fn, t, p, lo=0, hi=U64))) if isinstance(p, Poly) else TOP, theory.expand_node(x.n)))


def gross_up_ok(q, m, x):
    """the movement's amount, less the mint's transfer fee, is exactly x"""
    i = mint_index(m['mint'])
    if i is None:
        return BF
    has = fee_terms(q, i, x)
    a = m['amount']
    bps = V(leaf(pterm(T('fromle', 16, T('sym', epoch_fee_name(i), 'transfer_fee_basis_points', '0'), lo=0, hi=65535))))
    mx = V(leaf(pterm(T('fromle', 64, T('sym', epoch_fee_name(i), 'maximum_fee', '0'), lo=0, hi=U64))))
    inv_ = calc('calculate_inverse_fee', i, x)
    with_fee = cond(bps.eq(10000), x + mx, x + inv_)
    return (~has & a.eq(x)) | (has & (a.eq(with_fee) | (x.eq(0) & a.eq(0)))) | (has & (a - calc('calculate_fee', i, a)).eq(x))


def c06(c):
    q = c.q('deposit')
    d = deltas(q)
    cr, fee = d['escrow'], d['escrow_fee']
    I = inv(q) & inv_escrow(q)
    c.same(q, 'fee', 'the fee is the least amount covering the fee rate applied to credit plus fee, rounded up', fee, deposit_fee(q, cr), I)
    c.need(q, 'positive', 'the credited amount is positive', cr >= 1, I)
    c.need(q, 'at-most-requested', 'the credited amount is at most the requested maximum', cr <= q.arg(['max_amount', 0]), I & inv_fixed(q))
    ms = q.token_moves()
    c.must(q, 'moves', 'a deposit transfers tokens', len(ms) >= 1, 'no token movement')
    one_at_most(c, q, ms)
    cover = disj(*[m['g'] for m in ms])
    c.need(q, 'always-collected', 'every successful deposit collects', cover)
    for m in ms:
        loc = c.site(m['e'])
        c.must(q, 'kind', 'collected by a transfer with the payer\'s own authority', m['kind'] == 'transfer' and m['seeds'] == [], '', loc)
        c.need(q, 'dest', 'paid into the presale\'s quote vault', m['dest'].eq(q.P('quote_token_vault')), m['g'], loc)
        c.need(q, 'mint', 'paid in the quote mint', m['mint'].eq(q.P('quote_mint')), m['g'], loc)
        c.need(q, 'authority', 'under the authority of a signer', q.signed(m['authority']), m['g'], loc)
        c.need(q, 'gross-up', 'the vault receives credited amount plus fee in full', gross_up_ok(q, m, cr + fee), m['g'] & I, loc)


# ---------------------------------------------------------------- C07
def c07(c):
    q = c.q('deposit')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    c.need(q, 'personal-cap', 'escrow total stays within its personal cap', q.E1('total_deposit') <= q.E('deposit_max_cap'), I)
    c.need(q, 'buyer-max', 'escrow total stays within the registry buyer maximum', q.E1('total_deposit') <= q.G('buyer_maximum_deposit_cap'), I)
    c.need(q, 'buyer-min', 'escrow total reaches the registry buyer minimum', q.E1('total_deposit') >= q.G('buyer_minimum_deposit_cap'), I)
    c.need(q, 'max-cap', 'fixed-price and fcfs totals never exceed the maximum cap', q.P1('total_deposit') <= q.P('presale_maximum_cap'), I & ~is_prorata(q))
    sold = vmin(tokens_for(q, q.G('total_deposit')), q.G('presale_supply'))
    c.need(q, 'sold-out', 'no deposit into a sold-out fixed-price registry', sold < q.G('presale_supply'), I & is_fixed(q))


# ---------------------------------------------------------------- entitlement, refunds (shared by C09-C12, C18, C22)
def sold(q, idx=None):
    """tokens a registry sells in the end: what its buyers share"""
    sup = q.G('presale_supply', idx)
    return cond(is_fixed(q), vmin(tokens_for(q, q.G('total_deposit', idx)), sup), sup)


def share(q, amount):
    return (amount * q.E('total_deposit')) // q.G('total_deposit')


def immediate_part(q):
    return (sold(q) * q.P('immediate_release_bps')) // 10000


def vested_part(q, t):
    v = sold(q) - immediate_part(q)
    start, dur = q.P('vesting_start_time'), q.P('vest_duration')
    el = vmin(t - start, dur)
    return cond(t < start, 0, cond(dur.eq(0), v, (v * el) // dur))


def entitlement(q, t):
    """cumulative token entitlement of the escrow at time t"""
    e = cond(t >= q.P('immediate_release_timestamp'), share(q, immediate_part(q)), 0) + share(q, vested_part(q, t))
    return cond(q.E('total_deposit').eq(0) | q.G('total_deposit').eq(0), 0, e)


def full_entitlement(q):
    """what the escrow is entitled to once everything is released"""
    e = share(q, immediate_part(q)) + share(q, sold(q) - immediate_part(q))
    return cond(q.E('total_deposit').eq(0) | q.G('total_deposit').eq(0), 0, e)


def oversubscription(q):
    return cond(q.P('total_deposit') >= q.P('presale_maximum_cap'), q.P('total_deposit') - q.P('presale_maximum_cap'), 0)


def registry_refund(q, idx=None):
    """(quote, fee) a registry gets back in an oversubscribed pro-rata presale"""
    rd, rf = q.G('total_deposit', idx), q.G('total_deposit_fee', idx)
    zero = q.P('total_deposit').eq(0) | rd.eq(0)
    quote = (oversubscription(q) * rd) // q.P('total_deposit')
    fee = (rf * quote) // rd
    return cond(zero, 0, quote), cond(zero, 0, fee)


def refund(q):
    """what the escrow is refunded: (deposit part, fee part)"""
    rq, rf = registry_refund(q)
    d = cond(q.G('total_deposit').eq(0), 0, (q.E('total_deposit') * rq) // q.G('total_deposit'))
    f = cond(q.G('total_deposit_fee').eq(0), 0, (q.E('total_deposit_fee') * rf) // q.G('total_deposit_fee'))
    return cond(cap_met(q), d, q.E('total_deposit')), cond(cap_met(q), f, q.E('total_deposit_fee'))


def pays_from(c, q, ms, side, under):
    """all movements are transfers out of the presale's `side` vault, in that mint, under the program's seeds"""
    for m in ms:
        loc = c.site(m['e'])
        c.must(q, 'kind', 'paid by a transfer signed by the program', m['kind'] == 'transfer' and m['seeds'] != [], m['kind'], loc)
        c.need(q, 'source', 'paid from the presale\'s %s vault' % side, m['source'].eq(q.P(side + '_token_vault')), m['g'] & under, loc)
        c.need(q, 'mint', 'paid in the presale\'s %s mint' % side, m['mint'].eq(q.P(side + '_mint')), m['g'] & under, loc)


# ---------------------------------------------------------------- C08
def c08(c):
    """withdraw: amount moved == amount deducted, limits, modes"""
    q = c.q('withdraw')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    amt = q.E('total_deposit') - q.E1('total_deposit')
    ms = q.token_moves()
    c.must(q, 'moves', 'a withdrawal transfers tokens', len(ms) >= 1, 'no token movement')
    c.same(q, 'amount', 'transfers exactly the amount deducted from the escrow', q.total(ms), amt, I)
    c.need(q, 'positive', 'the amount is positive', amt >= 1, I)
    c.need(q, 'requested', 'at most the requested amount', amt <= q.arg(['max_amount', 0]), I)
    c.need(q, 'deposited', 'at most the escrow\'s deposit', amt <= q.E('total_deposit'), I)
    left = q.E1('total_deposit')
    c.need(q, 'range', 'leaves the escrow empty or within the registry\'s buyer range',
           left.eq(0) | ((left >= q.G('buyer_minimum_deposit_cap')) & (left <= q.G('buyer_maximum_deposit_cap'))), I)
    c.need(q, 'not-fcfs', 'never in a first-come-first-served presale', ~is_fcfs(q), inv(q))
    c.need(q, 'not-disabled', 'never in a fixed-price presale with withdrawal disabled', ~(is_fixed(q) & q.raw(16, 1).ne(0)), inv(q))
    pays_from(c, q, ms, 'quote', I)
    one_at_most(c, q, ms)


# ---------------------------------------------------------------- C09
def c09(c):
    """claim: payout == entitlement now - claimed before; totals move with it; refresh moves nothing"""
    q = c.q('claim')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    ms = q.token_moves()
    c.must(q, 'moves', 'a claim transfers tokens', len(ms) >= 1, 'no token movement')
    due = entitlement(q, q.now) - q.E('total_claimed_token')
    paid = q.total(ms)
    c.same(q, 'amount', 'pays the cumulative entitlement now minus everything claimed before', paid, due, I)
    for o, a, b in (('escrow', q.E1, q.E), ('registry', q.G1, q.G), ('presale', q.P1, q.P)):
        c.same(q, o + '-claimed', 'the %s\'s claimed total grows by what was paid' % o, a('total_claimed_token') - b('total_claimed_token'), paid, I)
    c.same(q, 'nothing-pending', 'nothing stays pending after a claim', q.E1('pending_claim_token'), 0, I)
    pays_from(c, q, ms, 'base', I)
    one_at_most(c, q, ms)
    q = c.q('refresh_escrow')
    c.must(q, 'refresh-no-tokens', 'a refresh moves no tokens', not q.token_moves(), 'token movement')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    c.same(q, 'refresh-done', 'after success a refresh makes claimed plus pending the entitlement now', q.E1('pending_claim_token') + q.E('total_claimed_token'),
           entitlement(q, q.now), I & succeeded(q))
    c.same(q, 'refresh-before', 'before success a refresh changes no entitlement', q.E1('pending_claim_token'), q.E('pending_claim_token'), I & ~succeeded(q))
    for q in c.all():
        for o, f in (('Escrow', 'total_claimed_token'), ('Escrow', 'pending_claim_token'), ('Presale', 'total_claimed_token'), ('Presale', 'presale_registries.[].total_claimed_token')):
            if not q.has(o):
                continue
            if o in q.inits():
                if '[]' in f:
                    for i in range(5):
                        c.same(q, 'start-zero', 'a new registry starts with nothing claimed', q.final(o, 'presale_registries', i, f.split('.')[-1]), 0)
                else:
                    c.same(q, 'start-zero', 'a new %s starts with zero %s' % (o, f), q.final(o, f), 0)
            elif q.name != 'claim' and not (q.name == 'refresh_escrow' and f == 'pending_claim_token'):
                ch = changed(q, o, f)
                c.must(q, 'others-untouched', '%s.%s is changed only by claim and refresh' % (o, f), not ch, 'changes ' + ', '.join(ch))
            elif '[]' in f:
                idx = pstr(VAL[q.ridx.n])
                bad = [x for x in changed(q, o, f) if '[%s]' % idx not in x]
                c.must(q, 'other-registry', 'only the registry of the escrow changes', not bad, ', '.join(bad))


# ---------------------------------------------------------------- C10
def c10(c):
    """entitlement formula at claim, refresh and close"""
    for n in ('claim', 'refresh_escrow'):
        q = c.q(n)
        I = inv(q) & inv_escrow(q) & inv_fixed(q)
        e = q.E1('total_claimed_token') + q.E1('pending_claim_token')
        U = I & succeeded(q)
        for nm, m in (('fixed', is_fixed(q)), ('prorata', is_prorata(q)), ('fcfs', is_fcfs(q))):
            c.same(q, 'schedule-' + nm, 'claimed plus pending is the entitlement of the release schedule (%s)' % nm, e, entitlement(q, q.now), U & m)
            start, dur, imm = q.P('vesting_start_time'), q.P('vest_duration'), q.P('immediate_release_timestamp')
            share_ok = q.E('total_deposit').ne(0) & q.G('total_deposit').ne(0)
            W = U & m & share_ok
            c.same(q, 'before-all-' + nm, 'nothing before immediate release and lock end', e, 0, W & (q.now < imm) & (q.now < start))
            c.same(q, 'immediate-' + nm, 'only the immediate share between immediate release and lock end', e, share(q, immediate_part(q)), W & (q.now >= imm) & (q.now < start))
            c.same(q, 'complete-' + nm, 'everything once immediate release and vesting are over', e, full_entitlement(q), W & (q.now >= imm) & (q.now >= start + dur))
    q = c.q('close_escrow')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    c.same(q, 'close', 'the amount an escrow must have claimed is the entitlement after complete release', q.E('total_claimed_token'), full_entitlement(q), I & succeeded(q))


# ---------------------------------------------------------------- C12
def c12(c):
    """withdraw_remaining_quote: payout and totals equal the refund formula"""
    q = c.q('withdraw_remaining_quote')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    ms = q.token_moves()
    c.must(q, 'moves', 'a refund transfers tokens', len(ms) >= 1, 'no token movement')
    paid = q.total(ms)
    d, f = refund(q)
    c.same(q, 'failed', 'a failed presale refunds deposit plus fee', paid, q.E('total_deposit') + q.E('total_deposit_fee'), I & ~cap_met(q))
    c.same(q, 'prorata', 'an oversubscribed pro-rata presale refunds the share of the excess and of its fee', paid, d + f, I & cap_met(q))
    c.same(q, 'presale-total', 'the presale\'s refund total grows by what was paid', q.P1('total_refunded_quote_token') - q.P('total_refunded_quote_token'), paid, I)
    c.same(q, 'registry-total', 'the registry\'s refund total grows by what was paid', q.G1('total_refunded_quote_token') - q.G('total_refunded_quote_token'), paid, I)
    pays_from(c, q, ms, 'quote', I)
    one_at_most(c, q, ms)
    for q in c.all():
        for o, f in (('Presale', 'total_refunded_quote_token'), ('Presale', 'presale_registries.[].total_refunded_quote_token')):
            if q.has(o) and o not in q.inits() and q.name != 'withdraw_remaining_quote':
                ch = changed(q, o, f)
                c.must(q, 'others-untouched', '%s.%s is changed only by refunds' % (o, f), not ch, 'changes ' + ', '.join(ch))


# ---------------------------------------------------------------- C11
def c11(c):
    """direction of every rounding: the exact amounts, with floors for what users get and ceilings for what they pay"""
    for n in ('claim', 'refresh_escrow'):
        q = c.q(n)
        I = inv(q) & inv_escrow(q) & inv_fixed(q) & succeeded(q)
        e = q.E1('total_claimed_token') + q.E1('pending_claim_token')
        c.same(q, 'entitlement-down', 'the entitlement recorded is rounded down at every division', e, entitlement(q, q.now), I)
    q = c.q('claim')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    c.same(q, 'claim-down', 'the claim pays no more than the rounded-down entitlement', q.total(q.token_moves()) + q.E('total_claimed_token'), entitlement(q, q.now), I)
    q = c.q('withdraw_remaining_quote')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    d, f = refund(q)
    c.same(q, 'refund-down', 'deposit and fee refunds are rounded down', q.total(q.token_moves()), d + f, I)
    q = c.q('creator_collect_fee')
    n = q.P('total_presale_registry_count')
    c.same_per(q, 'fee-refund-down', 'the fee kept back for refunds is the buyers\' rounded-down share', q.total(q.token_moves()), lambda k, m: fees_due(q, k, m), inv(q) & inv_registries(q))
    q = c.q('perform_unsold_base_token_action')
    n = q.P('total_presale_registry_count')
    c.same_per(q, 'bought-down', 'tokens counted as sold are rounded down', q.P('presale_supply') - q.total(q.token_moves()), lambda k, m: total_sold(q, k, m), inv(q) & inv_fixed(q) & inv_registries(q))
    q = c.q('deposit')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    dl = deltas(q)
    c.same(q, 'fee-up', 'the deposit fee is rounded up', dl['escrow_fee'], deposit_fee(q, dl['escrow']), I)
    c.same(q, 'price-up', 'a fixed-price deposit is charged the rounded-up price of rounded-down tokens', dl['escrow'], quote_for(q, tokens_for(q, allowed_deposit(q))), I & is_fixed(q))
    q = c.q('withdraw')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    x = vmin(q.arg(['max_amount', 0]), q.E('total_deposit'))
    out = q.E('total_deposit') - q.E1('total_deposit')
    c.need(q, 'withdraw-price', 'a withdrawal never returns more than was asked for or deposited', out <= x, I)


def total_sold(q, k, m):
    """tokens sold by k registries in mode m"""
    s = V.of(0)
    for i in range(k):
        s = s + (vmin_tie(tokens_for(q, q.G('total_deposit', i)), q.G('presale_supply', i)) if m == FIXED else cond(q.G('total_deposit', i).eq(0), 0, q.G('presale_supply', i)))
    return s


def fees_due(q, k, m):
    """deposit fees of k registries not owed back, in mode m"""
    if m != PRORATA:
        return q.P('total_deposit_fee')
    s = V.of(0)
    for i in range(k):
        s = s + q.G('total_deposit_fee', i) - registry_refund(q, i)[1]
    return s


def allowed_deposit(q):
    """the most the deposit may add: the request, the room under the cap, the room in the escrow, the tokens left"""
    req = q.arg(['max_amount', 0])
    room = cond(q.P('presale_maximum_cap') >= q.P('total_deposit'), q.P('presale_maximum_cap') - q.P('total_deposit'), 0)
    cap = vmin(q.G('buyer_maximum_deposit_cap'), q.E('deposit_max_cap'))
    personal = cond(cap >= q.E('total_deposit'), cap - q.E('total_deposit'), 0)
    left = quote_for(q, q.G('presale_supply') - vmin(tokens_for(q, q.G('total_deposit')), q.G('presale_supply')))
    a = vmin(req, personal)
    a = cond(is_prorata(q), a, vmin(a, room))
    return cond(is_fixed(q), vmin(a, left), a)


# ---------------------------------------------------------------- C13
def c13(c):
    for q in c.all():
        if not q.has('Escrow') or 'Escrow' in q.inits():
            continue
        pays = moves_out(q) or any(o == 'Escrow' for _, o in q.closes())
        if pays:
            c.need(q, 'escrow-owner', 'needs the signature of the owner recorded in the escrow', q.signed(q.E('owner')))
    for n in ('claim', 'withdraw', 'withdraw_remaining_quote', 'close_escrow'):
        q = c.q(n)
        c.need(q, 'escrow-owner-named', 'needs the signature of the owner recorded in the escrow', q.signed(q.E('owner')))
    for q in c.all():
        if q.has('Escrow') or not moves_out(q):
            continue
        for m in moves_out(q):
            ok = q.signed(q.P('owner'))
            if m['dest'] is not None:
                ok = ok | ata_of_creator(q, m)
                c.need(q, 'creator', 'goes out with the creator\'s signature or to the creator\'s associated token account', ok, m['g'], c.site(m['e']))
            else:
                c.must(q, 'burn', 'only the unsold-token action burns', q.name == 'perform_unsold_base_token_action' and m['kind'] == 'burn', m['kind'], c.site(m['e']))
    for n in ('creator_withdraw', 'creator_collect_fee'):
        q = c.q(n)
        c.need(q, 'creator-signed', 'needs the signature of the creator recorded in the presale', q.signed(q.P('owner')))
    q = c.q('perform_unsold_base_token_action')
    for m in moves_out(q):
        if m['dest'] is not None:
            c.need(q, 'unsold-dest', 'unsold tokens go to the creator\'s associated token account', ata_of_creator(q, m), m['g'], c.site(m['e']))


def ata_of_creator(q, m):
    """the destination is the associated token account of the presale's creator for the moved mint"""
    r = BF
    for v in support(q.R.g):
        a = ATOMS[v]
        if a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if isinstance(x, Term) and x.op == 'ata' and isinstance(y, Term) and y.op == 'key':
                    own, mint = x.args[0], x.args[1]
                    e = B(EQT(x, y)) & m['dest'].eq(V(leaf(y))) & V(leaf(own)).eq(q.P('owner')) & V(leaf(mint)).eq(m['mint'])
                    r = r | e
    return r


# ---------------------------------------------------------------- C14
KNOWN_EFFECTS = ('transfer', 'transfer_checked', 'burn', 'hook', 'memo', 'event', 'close', 'initialize_account3')


def token_program_ok(q, v):
    """the called program is the token program or token-2022"""
    r = BF
    for x in leafset(v.n):
        if isinstance(x, Term) and x.op == 'key':
            k = V(leaf(x))
            r = r | (v.eq(k) & (B(BOOLT(T('is_TokenInterface', x.args[0]))) | B(BOOLT(T('valid_token_program', x)))))
            tok, t22 = V(leaf(T('bytes', interp_tok()))), V(leaf(T('bytes', TOK22)))
            r = r | (v.eq(k) & (k.eq(tok) | k.eq(t22)))
        elif isinstance(x, Term) and x.op == 'bytes':
            r = r | (v.eq(V(leaf(x))) if x.args[0] in (interp_tok(), TOK22) else BF)
        elif isinstance(x, Term) and x.op == 'owner':
            r = r | v.eq(V(leaf(x))) & B(BOOLT(T('typed', 'Mint', x.args[0])))
    return r


TOK22 = '06ddf6e1ee758fde18425dbce46ccddab61afc4d83b90d27febdf928d8a18bfc'


def c14(c):
    auth = None
    q = c.q('initialize_presale')
    vault_auth = []
    for e in q.effects('initialize_account3'):
        vault_auth.append(e)
    presale = q.key('Presale')
    bv, qv = q.final('Presale', 'base_token_vault'), q.final('Presale', 'quote_token_vault')
    c.need(q, 'base-vault', 'the base vault is the presale\'s own derived account', bv.eq(q.pda(b'base_vault', presale)))
    c.need(q, 'quote-vault', 'the quote vault is the presale\'s own derived account', qv.eq(q.pda(b'quote_vault', presale)))
    auth = program_authority(c)
    got = {}
    for e in vault_auth:
        ac = {a: V(q._key(b)) for a, b in e['accts'].items()}
        au = V(e['args'][0]) if e.get('args') else ac.get('authority')
        loc = c.site(e)
        acct, mint = ac.get('account'), ac.get('mint')
        c.need(q, 'vault-authority', 'the vaults belong to the program\'s fixed authority', au.eq(auth), B(e['g']), loc)
        c.need(q, 'vault-mint', 'each vault holds its own mint', (acct.eq(bv) & mint.eq(q.final('Presale', 'base_mint'))) | (acct.eq(qv) & mint.eq(q.final('Presale', 'quote_mint'))), B(e['g']), loc)
    c.must(q, 'vaults', 'both vaults are created here', len(vault_auth) >= 2, '%d token accounts initialised' % len(vault_auth))
    for q in c.all():
        for e in q.I.effects:
            k = e['kind']
            if k not in KNOWN_EFFECTS and not k.startswith('sys.') and AND(e['g'], q.R.g) != F:
                c.must(q, 'effect', 'no other token operation is used', False, 'calls ' + k, c.site(e))
            if k == 'initialize_account3' and q.name != 'initialize_presale':
                c.must(q, 'effect', 'vaults are created only with the presale', False, k, c.site(e))
        for m in q.token_moves():
            loc = c.site(m['e'])
            if not q.has('Presale'):
                c.must(q, 'moves', 'tokens move only in instructions of a presale', False, m['kind'], loc)
                continue
            F_ = q.P1 if 'Presale' in q.inits() else q.P
            if m['seeds'] != []:
                c.need(q, 'vault-and-mint', 'taken from the presale\'s own vault, in that vault\'s mint',
                       (m['source'].eq(F_('base_token_vault')) & m['mint'].eq(F_('base_mint'))) | (m['source'].eq(F_('quote_token_vault')) & m['mint'].eq(F_('quote_mint'))), m['g'], loc)
                sk = q.seeds_key(m['seeds'][0]) if m['seeds'] and len(m['seeds']) == 1 else None
                c.must(q, 'signer-seeds', 'signed with the seeds of the program\'s fixed authority', sk is not None and sk.n == auth.n, 'signer seeds %s' % (m['seeds'],), loc)
                c.need(q, 'authority', 'under the program\'s fixed authority', m['authority'].eq(auth), m['g'], loc)
            else:
                if 'Presale' in q.inits():
                    d = m['dest'].eq(F_('base_token_vault')) & m['mint'].eq(F_('base_mint'))
                else:
                    d = (m['dest'].eq(F_('base_token_vault')) & m['mint'].eq(F_('base_mint'))) | (m['dest'].eq(F_('quote_token_vault')) & m['mint'].eq(F_('quote_mint')))
                c.need(q, 'into-own-vault', 'paid into the presale\'s own vault, in that vault\'s mint', d if m['dest'] is not None else BF, m['g'], loc)
            c.need(q, 'token-program', 'through the token program or token-2022', token_program_ok(q, m['program']), m['g'], loc)
        if q.has('Escrow') and 'Escrow' not in q.inits():
            c.must(q, 'escrow-alone', 'an escrow is only used together with a presale', q.has('Presale'), 'no presale account')
            if q.has('Presale'):
                c.need(q, 'escrow-of-presale', 'the escrow belongs to the presale used', q.E('presale').eq(q.key('Presale')))
        for o in q.I.stidx:
            if o.split('@')[0] in STATE_STRUCTS and o not in q.inits():
                c.need(q, 'typed', '%s is an account of the program of that type' % o, q.typed(o),
                       q.P1('presale_mode').eq(FIXED) if (q.name, o) == ('initialize_presale', 'FixedPricePresaleExtraArgs') else None)


def program_authority(c):
    q = c.q('initialize_presale')
    import hashlib
    for b in range(255, -1, -1):
        h = hashlib.sha256(b'presale_authority' + bytes([b]) + bytes.fromhex(pid(c.prog).args[0]) + b'ProgramDerivedAddress').digest()
        if not on_curve(h):
            return V(leaf(T('bytes', h.hex())))
    raise Anchor('no authority')


def on_curve(b):
    """is the 32-byte string a compressed edwards25519 point?"""
    p = 2**255 - 19
    d = (-121665 * pow(121666, p - 2, p)) % p
    y = int.from_bytes(b, 'little') & ((1 << 255) - 1)
    y %= p
    u, v = (y * y - 1) % p, (d * y * y + 1) % p
    x2 = u * pow(v, p - 2, p) % p
    return x2 == 0 or pow(x2, (p - 1) // 2, p) == 1


# ---------------------------------------------------------------- C15
def c15(c):
    n = 0
    for q in c.all():
        if 'Escrow' not in q.inits():
            continue
        n += 1
        w = q.P('whitelist_mode')
        U = w <= 2
        plain, auth, merkle = w.eq(0), w.eq(2), w.eq(1)
        c.need(q, 'authority', 'with authority whitelisting an operator of the creator must sign', operator_signed(c, q), U & auth)
        c.need(q, 'merkle', 'with Merkle whitelisting a proof for exactly this buyer, registry and cap is needed', merkle_proved(c, q)[0], U & merkle)
        c.need(q, 'known-mode', 'the whitelist mode is a known one', plain | auth | merkle)
    for name, m in (('create_permissionless_escrow', 0), ('create_permissioned_escrow_with_creator', 2), ('create_permissioned_escrow_with_merkle_proof', 1)):
        q = c.q(name)
        c.need(q, 'mode', 'only on a presale configured for this way of opening', q.P('whitelist_mode').eq(m))
    q = c.q('create_permissioned_escrow_with_creator')
    c.need(q, 'operator', 'needs the signature of an operator of the presale\'s creator', operator_signed(c, q))
    q = c.q('create_permissioned_escrow_with_merkle_proof')
    phi, notes = merkle_proved(c, q)
    c.need(q, 'proof', 'needs a proof of the buyer, registry index and cap against a root of this presale', phi)
    for ok, text, why, where in notes:
        c.must(q, 'proof-fold', text, ok, why, where)
    c.must(None, 'instances', 'three ways to open an escrow', n >= 3, str(n))


def operator_signed(c, q):
    r = BF
    for o in q.I.stidx:
        if o.split('@')[0] == 'Operator' and o not in q.inits():
            r = r | (q.typed(o) & q.signed(q.init(o, 'owner')) & q.init(o, 'creator').eq(q.P('owner')))
    return r


def leaf_hash(q, owner, idx, cap):
    def t(v):
        x = VAL[v.n] if isleaf(v.n) else None
        return x
    o, i, k = t(owner), t(q.le(idx, 8)), t(q.le(cap, 64))
    inner = T('hash', 'hash', o, i, k)
    return T('hash', 'hash', T('bytes', '00'), inner)


def merkle_proved(c, q):
    """(condition, [(ok, text, why, where)]) : the value compared with a registered root is the Merkle fold of this escrow's leaf"""
    notes = []
    r = BF
    for o in q.I.stidx:
        if o.split('@')[0] != 'MerkleRootConfig' or o in q.inits():
            continue
        root = VAL[q.init(o, 'root').n]
        base = q.typed(o) & q.init(o, 'presale').eq(q.key('Presale'))
        want = leaf_hash(q, q.E1('owner'), q.E1('registry_index'), q.E1('deposit_max_cap'))
        done = {}
        for v in sorted(support(q.R.g)):
            a = ATOMS[v]
            if a[0] != 'eq' or (a[1] is not root and a[2] is not root):
                continue
            x = a[2] if a[1] is root else a[1]
            ok, why, cnd = folds(q, x, want, done, notes)
            if ok:
                r = r | (base & B(EQT(x, root)) & cnd)
            else:
                notes.append((False, 'the value compared with the root is the Merkle fold of this escrow\'s leaf', why, q.name))
    return r, notes


def folds(q, x, want, done, notes, depth=0):
    """is the term x the fold of the leaf `want` with proof elements, ordered pairs under prefix 0x01?
    -> (ok, why, side condition)"""
    if x is want:
        return True, '', BT
    if depth > 40:
        return False, 'too deep', BF
    if isinstance(x, Term) and x.op == 'hash' and len(x.args) == 4 and isbytes(x.args[1]) and x.args[1].args[0] == '01':
        a, b = x.args[2], x.args[3]
        for cur, other, first in ((a, b, True), (b, a, False)):
            ok, why, cnd = folds(q, cur, want, done, notes, depth + 1)
            if ok and isinstance(other, Term) and other.op == 'sym' and 'proof' in str(other.args):
                return True, '', cnd & ~B(LEXLT(b, a))
        return False, 'inner node %s' % tstr(x), BF
    if isinstance(x, Term) and x.op == 'hash':
        return False, 'hashes %s, expected leaf %s' % (tstr(x), tstr(want)), BF
    if x in done:
        return done[x]
    for lid, L in q.I.loops.items():
        for k, (ini, phi) in L['phis'].items():
            ph = q.I.expand(phi)
            if not (isinstance(ph, int) and isleaf(ph) and VAL[ph] is x):
                continue
            done[x] = (True, '', BT)
            why = ''
            inn = q.I.expand(ini) if not isinstance(ini, int) else ini
            for t, g in leaves(inn):
                if AND(g, L['entry']) == F:
                    continue
                ok, w, cnd = folds(q, t, want, done, notes, depth + 1)
                if not ok:
                    why = why or 'starts from %s; %s' % (vstr(t), w)
                elif not theory.prove(AND(L['entry'], g), cnd.n).ok:
                    why = why or 'entry order'
            for s, st in zip(L['steps'], L['back']):
                v = s[k]
                v = q.I.expand(v) if not isinstance(v, int) else v
                if not isinstance(v, int):
                    why = why or 'unknown step'
                    continue
                for t, g in leaves(v):
                    gg = AND(st.g, g)
                    if gg == F:
                        continue
                    if t is x:
                        why = why or 'a proof element is skipped'
                        continue
                    ok, w, cnd = folds(q, t, want, done, notes, depth + 1)
                    if not ok:
                        why = why or 'step to %s; %s' % (vstr(t), w)
                    elif not theory.prove(gg, cnd.n).ok:
                        why = why or 'pair order of %s' % vstr(t)
            done[x] = (not why, why, BT if not why else BF)
            notes.append((not why, 'every step of %s is an ordered pair hash under prefix 01 of the current node and the next proof element' % lid, why, lid))
            return done[x]
    return False, '%s is not a Merkle fold' % vstr(x), BF


# ---------------------------------------------------------------- C16
def c16(c):
    for q in c.all():
        if 'Escrow' not in q.inits():
            continue
        idx, own = q.E1('registry_index'), q.E1('owner')
        presale = q.key('Presale')
        c.must(q, 'index-single', 'one registry index is used', isleaf(idx.n) and isleaf(own.n), str(idx))
        c.same(q, 'presale', 'records its presale', q.E1('presale'), presale)
        c.need(q, 'address', 'lives at the address derived from presale, buyer and registry index', q.key('Escrow').eq(q.pda(b'escrow', presale, own, q.le(idx, 8))))
        c.must(q, 'buyer', 'the buyer is an account of the instruction', isleaf(own.n) and isinstance(VAL[own.n], Term) and VAL[own.n].op == 'key', str(own))
        c.same(q, 'opened-at', 'records the opening time', q.E1('created_at'), q.now)
        c.need(q, 'index', 'the registry index designates a configured registry', idx < q.P('total_presale_registry_count'), inv(q))
        cap = q.E1('deposit_max_cap')
        lo, hi = q.G('buyer_minimum_deposit_cap', idx), q.G('buyer_maximum_deposit_cap', idx)
        plain = q.P('whitelist_mode').eq(0)
        c.same(q, 'cap-permissionless', 'a permissionless escrow gets the registry maximum', cap, hi, plain & inv(q))
        c.need(q, 'cap-range', 'a personal cap is positive and within the registry\'s buyer range', (cap >= 1) & (cap >= lo) & (cap <= hi), ~plain & inv(q))
        c.same(q, 'count', 'the presale\'s escrow count grows by one', q.P1('total_escrow'), q.P('total_escrow') + 1)
        c.same(q, 'registry-count', 'the registry\'s escrow count grows by one', q.G1('total_escrow', idx), q.G('total_escrow', idx) + 1)
        only_registry(c, q, idx, 'total_escrow')
        for m in q.token_moves():
            c.must(q, 'no-tokens', 'opening an escrow moves no tokens', False, m['kind'], c.site(m['e']))
    for name in ('create_permissioned_escrow_with_creator', 'create_permissioned_escrow_with_merkle_proof'):
        q = c.q(name)
        c.same(q, 'index-arg', 'opens the requested registry', q.E1('registry_index'), q.arg(['params', 0], ['registry_index', None]))
        c.same(q, 'cap-arg', 'records the requested personal cap', q.E1('deposit_max_cap'), q.arg(['params', 0], ['deposit_cap', None]))
    q = c.q('close_escrow')
    c.same(q, 'close-count', 'closing lowers the presale\'s escrow count by one', q.P1('total_escrow'), q.P('total_escrow') - 1)
    c.same(q, 'close-registry-count', 'closing lowers the registry\'s escrow count by one', q.G1('total_escrow'), q.G('total_escrow') - 1)
    only_registry(c, q, q.ridx, 'total_escrow')
    n = [e for e, o in q.closes() if o == 'Escrow']
    c.must(q, 'closed', 'the escrow account is closed', len(n) >= 1, 'not closed')
    if n:
        c.need(q, 'closed-always', 'a successful close removes the escrow account', disj(*[B(e['g']) for e in n]))
    for q in c.all():
        if q.name != 'close_escrow':
            for e, o in q.closes():
                c.must(q, 'other-close', 'only close_escrow removes an escrow', o != 'Escrow', '', c.site(e))
        if 'Escrow' in q.inits() or q.name == 'close_escrow' or not q.has('Presale') or 'Presale' in q.inits():
            continue
        for f in ('total_escrow', 'presale_registries.[].total_escrow'):
            ch = changed(q, 'Presale', f)
            c.must(q, 'count-untouched', 'only opening and closing change the escrow counts', not ch, ', '.join(ch))


def only_registry(c, q, idx, f):
    t = pstr(VAL[idx.n]) if isleaf(idx.n) else '?'
    bad = [x for x in changed(q, 'Presale', 'presale_registries.[].' + f) if '[%s]' % t not in x]
    c.must(q, 'other-registry', 'no other registry\'s %s changes' % f, not bad, ', '.join(bad))


# ---------------------------------------------------------------- C17
def c17(c):
    # the on-chain side: the value compared with a registered root is the fold of exactly this leaf
    q = c.q('create_permissioned_escrow_with_merkle_proof')
    phi, notes = merkle_proved(c, q)
    c.need(q, 'verifier', 'the verifier hashes (buyer, registry index as one byte, cap as eight little-endian bytes), then prefix 00, then ordered pairs under prefix 01', phi)
    for ok, text, why, where in notes:
        c.must(q, 'verifier-fold', text, ok, why, where)
    # the builder
    mk = Builder(c)
    mk.entry_hash()
    mk.tree()
    mk.paths()
    mk.config()
    mk.address()


class FnQ:
    """a library function of the merkle-tree crate, analysed with symbolic arguments"""
    def __init__(self, prog, suffix, **fixed):
        fs = [f for f in prog.F if f['krate'] == 'merkle_tree' and re.search(r'(^|::)%s(::<.*>)?$' % re.escape(suffix), f['name'])]
        if not fs:
            raise Anchor('function %s does not exist in merkle-tree' % suffix)
        f = fs[0]
        self.name = suffix
        self.f = f
        self.I = I = Interp(prog, __import__('models').M)
        I.dty = None
        I.hashlog = []
        I.loopmax = 0
        args = []
        for k in range(1, 1 + f['argc']):
            t = I.ty(f['locals'][k])
            if k in fixed.get('args', {}):
                args.append(fixed['args'][k])
            elif t['k'] == 'ref' and I.ty(t['e'])['k'] in ('slice',):
                n = pterm(T('sym', 'a%d' % k, 'len', lo=0, hi=2**32))
                args.append(leaf(Ref(('D', ('a%d' % k,), t['e']), (), ('w', P0, n))))
            elif t['k'] == 'ref' and fixed.get('slices') and k in fixed['slices']:
                n = pterm(T('sym', 'a%d' % k, 'len', lo=0, hi=2**32))
                args.append(leaf(Ref(('D', ('a%d' % k,), t['e']), (), ('w', P0, n))))
            elif t['k'] == 'ref':
                args.append(leaf(Ref(('D', ('a%d' % k,), t['e']), (), None)))
            else:
                args.append(Sym(('a%d' % k,), f['locals'][k]))
        self.outs = I.call(State({}, TR), f['id'], args)


def iphis(L, I):
    """integer loop variables: [(initial, symbol, [(guard, next)])]"""
    out = []
    for k, (ini, ph) in L['phis'].items():
        ini, ph = I.expand(ini), I.expand(ph)
        if not (isinstance(ph, int) and isleaf(ph) and isinstance(VAL[ph], Poly) and isinstance(ini, int)):
            continue
        nxt = []
        for s, bk in zip(L['steps'], L['back']):
            v = I.expand(s[k])
            nxt.append((bk.g, restrict(v, bk.g) if isinstance(v, int) else TOP))
        out.append((V(ini), V(ph), nxt))
    return out


class Builder:
    def __init__(self, c):
        self.c = c
        self.fallback = []

    def get(self, suffix, **kw):
        return FnQ(self.c.merkle, suffix, **kw)

    def must(self, key, text, ok, why='', f=None):
        self.c.must(None, key, text, ok, why, '%s (%s)' % (f.f['name'], f.f.get('l')) if f is not None else 'merkle-tree')

    def prove(self, g, b):
        return g == F or theory.prove(g, b.n).ok

    def entry_hash(self):
        f = self.get('TreeNode::hash')
        s = lambda x, hi=None: T('sym', 'a1', x) if hi is None else pterm(T('sym', 'a1', x, lo=0, hi=hi))
        le = lambda v, w: VAL[Q.le(None, V(leaf(v)), w).n]
        want = T('hash', 'hash', s('escrow_owner'), le(s('registry_index', 255), 8), le(s('deposit_cap', 2**64 - 1), 64))
        for st, v in f.outs:
            got = leafset(v) if isinstance(v, int) else [v]
            self.must('builder-entry', 'the builder hashes an entry as (owner, registry index as one byte, cap as eight little-endian bytes)', got == [want],
                      'hashes %s, the verifier needs %s' % (', '.join(vstr(x) for x in got), tstr(want)), f)

    # every hash computed by f is one of the three kinds
    def kinds(self, f, what):
        n = dict(leaf=0, inner=0)
        for g, h, stk, _ in f.I.hashlog:
            for t, gt in leaves(h):
                if AND(g, gt) == F:
                    continue
                a = t.args if isinstance(t, Term) and t.op == 'hash' else ()
                pre = a[1].args[0] if len(a) > 1 and isbytes(a[1]) else None
                if a[:1] != ('hash',):
                    self.must('builder-hash', 'only SHA-256 over known input is used', False, vstr(t), f)
                elif len(a) == 4 and pre is None:
                    continue      # an entry, see entry_hash
                elif len(a) == 3 and pre == '00':
                    n['leaf'] += 1
                elif len(a) == 4 and pre == '01':
                    n['inner'] += 1
                    x, y = a[2], a[3]
                    ordered = BT if x is y else ~B(LEXLT(y, x))
                    self.must('builder-pair-order', 'inner nodes hash the smaller child first (%s)' % what, self.prove(AND(g, gt), ordered), '%s is hashed without ordering its children' % vstr(t), f)
                else:
                    self.must('builder-prefix', 'leaves hash under prefix 00 and inner nodes (two children) under prefix 01 (%s)' % what, False, vstr(t), f)
        return n

    def tree(self):
        f = self.get('MerkleTree::new', slices=(1,), args={2: TR})
        n = self.kinds(f, 'MerkleTree::new')
        self.must('builder-leaf', 'leaves are hashed under prefix 00', n['leaf'] >= 1, 'no leaf hash found', f)
        self.must('builder-inner', 'inner nodes are hashed under prefix 01', n['inner'] >= 1, 'no inner hash found', f)
        self.layout(f)

    @staticmethod
    def nextlen(n):
        return cond(n.eq(1), 0, (n + 1) // 2)

    def layout(self, f):
        """nodes are stored level by level; node i of a level hashes nodes 2i and 2i+1 of the previous one (2i twice when that is the last)"""
        I = f.I
        n = V(leaf(pterm(T('sym', 'a1', 'len', lo=0, hi=2**32))))
        for lid, L in I.loops.items():
            pushed = []
            for k, (ini, ph) in L['phis'].items():
                for s, bk in zip(L['steps'], L['back']):
                    v = I.expand(s[k])
                    if isinstance(v, VecV) and isinstance(v.arr, Arr):
                        for _, x in v.arr.stores:
                            x = I.expand(x)
                            if isinstance(x, int):
                                pushed += [(t, AND(bk.g, g)) for t, g in leaves(x) if AND(bk.g, g) != F]
            pushed = [(t, g) for t, g in pushed if isinstance(t, Term) and t.op == 'hash' and len(t.args) == 4]
            if not pushed:
                continue
            txt = lambda t: str(t.args[-1]) if isinstance(t, Term) and t.op == 'sym' else ''
            outer = [(l2, L2) for l2, L2 in I.loops.items() if l2 != lid]
            for i0, i, inx in iphis(L, I):
                if not isleaf(i0.n) or i0.n != V.of(0).n or any(x != (i + 1).n for _, x in inx):
                    continue
                for l2, L2 in outer:
                    ps = iphis(L2, I)
                    for p0, p, pn in ps:
                        lt, rt = '[%s]' % pstr(VAL[(p + 2 * i).n]), '[%s]' % pstr(VAL[(p + 2 * i + 1).n])
                        if not all({txt(t.args[2]), txt(t.args[3])} <= {lt, rt} for t, g in pushed):
                            continue
                        self.roles(f, L, L2, ps, n, i, (p0, p, pn), pushed, lt, rt, txt)
                        return
        self.fallback.append('the way MerkleTree::new lays out its levels is not recognised')

    def roles(self, f, L, L2, ps, n, i, P, pushed, lt, rt, txt):
        why = []
        p0, p, pn = P
        # the next level starts where this one does, etc.
        S = [x for x in ps if all(v == x[1].n for _, v in pn)]
        if not S or p0.n != V.of(0).n:
            why.append('the children of the first level do not start at 0, or not where the previous level started')
        N = [x for x in ps if S and all(v == (S[0][1] + x[1]).n for _, v in S[0][2])]
        if S and not N:
            why.append('a level does not start where the previous one ends')
        if S and S[0][0].n != n.n:
            why.append('the first inner level does not start after the leaves')
        if N:
            n0, nn, nx = N[0]
            for g, v in nx:
                if not self.prove(AND(g, (nn >= 1).n), V(v).eq(self.nextlen(nn))):
                    why.append('a level of k nodes is followed by %s nodes, not ceil(k/2) (none after the root)' % V(v))
            if not self.prove(L2['entry'], n0.eq(self.nextlen(n)) | n.eq(0)):
                why.append('the first inner level has %s nodes, not ceil(n/2)' % n0)
            for g in L['exits']:
                if not self.prove(g, i >= nn):
                    why.append('a level is left before all its nodes are computed')
            for g in L2['exits']:
                if not self.prove(g, nn <= 0):
                    why.append('building stops before the root')
            M = [x for x in ps if x[0].n == n.n and all(v == nn.n for _, v in x[2])]
            ok = False
            for m0, m, _ in M:
                ok = ok or all(self.prove(g, (2 * i + 1 < m) if rt in (txt(t.args[2]), txt(t.args[3])) else (2 * i + 1 >= m)) for t, g in pushed)
            if not ok:
                why.append('the last node of an odd level is not paired with itself (or another one is)')
        self.must('builder-layout', 'levels are laid out one after the other; node i hashes children 2i and 2i+1 of the level below, the last odd one twice', not why, '; '.join(why), f)

    def paths(self):
        f = self.get('get_proof')
        I = f.I
        for st, v in f.outs:
            v = I.expand(v)
            lid = v.arr.base[1][0] if isinstance(v, VecV) and isinstance(v.arr, Arr) and v.arr.base[0] == 'sym' else None
            L = I.loops.get(lid)
            if L is None or any(x[0].n == V(leaf(pterm(T('sym', 'a2', lo=0, hi=2**64 - 1)))).n for x in iphis(L, I)):
                continue
            why = []
            for k, (ini, ph) in L['phis'].items():
                ph = I.expand(ph)
                if not (isinstance(ph, VecV) and ph.arr.base == v.arr.base):
                    continue
                for s, bk in zip(L['steps'], L['back']):
                    n1 = restrict(I.expand(s[k]).len, bk.g)
                    if n1 != (V(ph.len) + 1).n:
                        why.append('a level adds %s elements' % (V(n1) - V(ph.len)))
            self.must('builder-proof', 'a proof has one element per level of the path', not why, '; '.join(why), f)
        cnt = V(leaf(pterm(T('sym', 'a1', 'leaf_count', lo=0, hi=2**64 - 1))))
        idx = V(leaf(pterm(T('sym', 'a2', lo=0, hi=2**64 - 1))))
        for lid, L in I.loops.items():
            ps = iphis(L, I)
            X = [x for x in ps if x[0].n == idx.n]
            N = [x for x in ps if x[0].n == cnt.n]
            S = [x for x in ps if x[0].n == V.of(0).n]
            if not (len(X) == len(N) == 1 and S):
                continue
            x, nn = X[0], N[0]
            sib = []
            for s, bk in zip(L['steps'], L['back']):
                for k, v in s.items():
                    v = I.expand(v)
                    if isinstance(v, Enum) and 1 in v.v and len(v.v[1]) == 1:
                        pay = I.expand(v.v[1][0])
                        if isinstance(pay, int):
                            sib += [(r, AND(AND(bk.g, g), V(v.d).eq(1).n)) for r, g in leaves(pay) if isinstance(r, Ref) and r.obj[0] == 'D' and r.path and r.path[-1][0] == 'i']
            sib = [(r, g) for r, g in sib if g != F]
            if not sib:
                continue
            why = []
            s0 = [y for y in S if all(v == (y[1] + nn[1]).n for _, v in y[2])]
            if not s0:
                why.append('a level does not start where the previous one ends')
            for g, v in x[2]:
                if v != (x[1] // 2).n:
                    why.append('the parent of node k is not k/2')
            for g, v in nn[2]:
                if not self.prove(AND(g, (nn[1] >= 1).n), V(v).eq(self.nextlen(nn[1]))):
                    why.append('a level of k nodes is followed by %s nodes, not ceil(k/2)' % V(v))
            for g in L['exits']:
                if not self.prove(g, nn[1] <= 0):
                    why.append('the path stops before the root')
            if s0:
                for r, g in sib:
                    at = V(leaf(r.path[-1][1]))
                    k = at - s0[0][1]
                    even = (x[1] - 2 * (x[1] // 2)).eq(0)
                    want = cond(even, cond(x[1] + 1 < nn[1], x[1] + 1, x[1]), x[1] - 1)
                    if not self.prove(g, k.eq(want)):
                        why.append('node %s is given as sibling of node %s' % (k, x[1]))
            self.must('builder-path', 'a proof lists, level by level up to the root, the other child of the same parent (the node itself when it is the last of an odd level)', not why, '; '.join(why), f)
            return
        self.fallback.append('the way find_path walks the levels is not recognised')

    def address(self):
        f = self.get('ConfigMerkleTree::get_merkle_root_config_pubkey')
        q = self.c.q('create_merkle_root_config')
        ver = VAL[self.c_le(pterm(T('sym', 'a1', 'version', lo=0, hi=2**64 - 1)))]
        for st, v in f.outs:
            v = f.I.expand(v)
            t = VAL[v] if isinstance(v, int) and isleaf(v) else None
            ok = isinstance(t, Term) and t.op == 'pda' and t.args[:1] == (T('sym', 'a3'),)
            if not ok or any(not isbytes(x) and x is not T('sym', 'a2') and x is not ver for x in t.args[1:]):
                self.must('builder-address', 'the tool derives the root account address from the program, the presale and the version', False, vstr(t) if t else str(v), f)
                continue
            ps = VAL[q.key('Presale').n]
            av = VAL[q.le(q.arg(['params', 0], ['version', None]), 64).n]
            mine = T('pda', VAL[q.pda().n].args[0], *[ps if x is T('sym', 'a2') else av if x is ver else x for x in t.args[1:]])
            self.c.need(q, 'root-address', 'the root account is created where the tool looks for it', q.key('MerkleRootConfig').eq(V(leaf(mine))))

    @staticmethod
    def c_le(v):
        return Q.le(None, V(leaf(v)), 64).n

    def config(self):
        f = self.get('ConfigMerkleTree::new')
        n = self.kinds(f, 'ConfigMerkleTree::new')
        self.must('builder-leaf', 'leaves are hashed under prefix 00', n['leaf'] >= 1, 'no leaf hash found', f)
        self.must('builder-inner', 'inner nodes are hashed under prefix 01', n['inner'] >= 1, 'no inner hash found', f)
        if self.fallback:
            ok = any(a[0] == 'b' and a[1].op == 'iterations_satisfy' and any(
                ATOMS[v][0] == 'b' and str(ATOMS[v][1].op).startswith('verify') and AND(a[1].args[1], NOT(litnode(v))) == F for v in support(a[1].args[1]))
                for st, _ in f.outs for a in (ATOMS[x] for x in support(st.g)))
            self.must('builder-validated', 'a tree is only handed out after every proof passed the on-chain verifier', ok, '; '.join(self.fallback) + ' and the tree is not validated either', f)


# ---------------------------------------------------------------- C18
def c18(c):
    q = c.q('close_escrow')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    empty = q.E('total_deposit').eq(0) & q.E('total_deposit_fee').eq(0)
    took = q.E('is_remaining_quote_withdrawn').eq(1)
    c.need(q, 'not-before-start', 'never succeeds before the sale starts', q.now >= q.P('presale_start_time'), I)
    c.need(q, 'ongoing', 'during the sale only an empty escrow can be closed', empty, I & ongoing(q))
    c.need(q, 'failed', 'after a failed presale only once refunded, or with nothing to refund', took | empty, I & failed(q))
    d, f = refund(q)
    due = is_prorata(q) & ((d + f) >= 1)
    c.need(q, 'refund-taken', 'after a successful presale any refund due was withdrawn', due >> took, I & succeeded(q))
    for nm, m in (('fixed', is_fixed(q)), ('prorata', is_prorata(q)), ('fcfs', is_fcfs(q))):
        c.same(q, 'all-claimed-' + nm, 'after a successful presale everything it will ever be entitled to was claimed (%s)' % nm, q.E('total_claimed_token'), full_entitlement(q), I & succeeded(q) & m)
    for q in c.all():
        for e, o in q.closes():
            c.must(q, 'closes', 'no other instruction closes an escrow', o != 'Escrow' or q.name == 'close_escrow', '', c.site(e))


# ---------------------------------------------------------------- C19, C20
DAY = 86400
REG_ARGS = ('buyer_minimum_deposit_cap', 'buyer_maximum_deposit_cap', 'presale_supply', 'deposit_fee_bps')


def init_args(q):
    top = ['params', 0]
    A = lambda f: q.arg(top, 'presale_params', f)
    L = lambda f: q.arg(top, 'locked_vesting_params', f)
    R = lambda i, f: q.arg(top, 'presale_registries', (i,), f)
    n = q.arg(top, 'presale_registries', 'len')
    return A, L, R, n


def fixed_arg(q, f):
    return q.init('FixedPricePresaleExtraArgs', f)


def has_vesting(q):
    """a locked vesting schedule was given (the all-zero value means none)"""
    A, L, R, n = init_args(q)
    return L('immediately_release_bps').ne(0) | L('lock_duration').ne(0) | L('vest_duration').ne(0) | L('immediate_release_timestamp').ne(0)


def c19(c):
    q = c.q('initialize_presale')
    A, L, R, n = init_args(q)
    lo, hi = A('presale_minimum_cap'), A('presale_maximum_cap')
    c.need(q, 'min-cap', 'the minimum cap is positive', lo >= 1)
    c.need(q, 'caps', 'the minimum cap is at most the maximum cap', lo <= hi)
    start, end = vmax(A('presale_start_time'), q.now), A('presale_end_time')
    c.need(q, 'start-ahead', 'the start is at most 30 days ahead', start - q.now <= 30 * DAY)
    c.need(q, 'min-duration', 'the sale lasts at least 60 seconds', end - start >= 60)
    c.need(q, 'max-duration', 'the sale lasts at most 30 days', end - start <= 30 * DAY)
    c.need(q, 'registries', 'there are 1 to 5 registries', (n >= 1) & (n <= 5))
    perm = A('whitelist_mode').ne(0)
    c.need(q, 'several-permissioned', 'several registries only under a permissioned whitelist', (n >= 2) >> perm)
    c.need(q, 'mode-known', 'the presale mode is a known one', A('presale_mode') <= 2)
    c.need(q, 'whitelist-known', 'the whitelist mode is a known one', A('whitelist_mode') <= 2)
    c.need(q, 'unsold-known', 'the unsold-token action is a known one', A('unsold_token_action') <= 1)
    c.need(q, 'flag-known', 'the early-end flag is 0 or 1', A('disable_earlier_presale_end_once_cap_reached') <= 1)
    fixed = A('presale_mode').eq(FIXED)
    price = fixed_arg(q, 'q_price')
    tok = lambda x: (V.of(x) * TWO64) // price
    for i in range(5):
        u = n > i
        bmin, bmax, sup, bps = (R(i, f) for f in REG_ARGS)
        c.need(q, 'supply-%d' % i, 'registry %d has a positive supply' % i, sup >= 1, u)
        c.need(q, 'buyer-range-%d' % i, 'buyer minimum of registry %d is at most its maximum' % i, bmin <= bmax, u)
        c.need(q, 'buyer-max-%d' % i, 'buyer maximum of registry %d is positive and at most the maximum cap' % i, (bmax >= 1) & (bmax <= hi), u)
        c.need(q, 'fee-%d' % i, 'deposit fee of registry %d is at most 50%%' % i, bps <= 5000, u)
        c.need(q, 'buyable-min-%d' % i, 'the buyer minimum of registry %d buys a token at the fixed price' % i, tok(bmin) >= 1, u & fixed & (price >= 1))
        c.need(q, 'buyable-max-%d' % i, 'the buyer maximum of registry %d buys at least one and at most 2^64-1 tokens' % i, (tok(bmax) >= 1) & (tok(bmax) <= U64), u & fixed & (price >= 1))
        c.need(q, 'wide-max-%d' % i, 'a permissioned presale leaves the buyer maximum of registry %d at the maximum cap' % i, bmax.eq(hi), u & perm)
        c.need(q, 'wide-min-%d' % i, 'a permissioned dynamic-price presale leaves the buyer minimum of registry %d at 1' % i, bmin.eq(1), u & perm & ~fixed)
        c.same(q, 'wide-min-fixed-%d' % i, 'a permissioned fixed-price presale leaves the buyer minimum of registry %d at the price of one token' % i, bmin, ceildiv(price, V.of(TWO64)),
               u & perm & fixed & (price >= 1))
    total = sum((cond(n > i, R(i, 'presale_supply'), 0) for i in range(5)), V.of(0))
    F_ = fixed & (price >= 1)
    c.need(q, 'fixed-supply', 'the supply covers the maximum cap at the fixed price', total >= tok(hi), F_)
    c.need(q, 'fixed-gap', 'the two caps buy different token amounts', tok(hi) > tok(lo), F_)
    c.need(q, 'fixed-args', 'the price comes from an argument account of this presale', q.typed('FixedPricePresaleExtraArgs') & fixed_arg(q, 'presale').eq(q.key('Presale')), fixed)
    # lock and vesting
    bps, lock, vest, imm = L('immediately_release_bps'), L('lock_duration'), L('vest_duration'), L('immediate_release_timestamp')
    given = has_vesting(q)
    c.need(q, 'lock-vest', 'lock plus vesting is under ten years', lock + vest < 3650 * DAY)
    c.need(q, 'release-bps', 'at most 100% is released immediately', bps <= 10000)
    c.need(q, 'full-release', 'a full immediate release has no lock or vesting and is due at the end', lock.eq(0) & vest.eq(0) & (imm.eq(0) | imm.eq(end)), bps.eq(10000))
    c.need(q, 'partial-release', 'a partial release has a lock or vesting', (lock >= 1) | (vest >= 1), given & (bps < 10000))
    c.need(q, 'release-none', 'with nothing released immediately the release time is unset or the end', imm.eq(0) | imm.eq(end), given & bps.eq(0))
    c.need(q, 'release-time', 'the immediate release lies between the end and the end of vesting', imm.eq(0) | ((imm >= end) & (imm <= end + lock + vest)), given)
    # the price itself
    q = c.q('initialize_fixed_price_presale_args')
    c.need(q, 'price', 'the fixed price is positive', q.final('FixedPricePresaleExtraArgs', 'q_price') >= 1)
    c.need(q, 'withdraw-flag', 'the withdraw flag is 0 or 1', q.final('FixedPricePresaleExtraArgs', 'disable_withdraw') <= 1)
    only_creator(c, 'FixedPricePresaleExtraArgs', 'initialize_fixed_price_presale_args')
    only_creator(c, 'Presale', 'initialize_presale')


def only_creator(c, obj, name):
    for q in c.all():
        if q.name != name:
            c.must(q, 'creates-' + obj, '%s is created only by %s' % (obj, name), obj not in q.inits(), '')


def mode_settings(c, q, A):
    """the mode's settings, at their byte positions"""
    flag = A('disable_earlier_presale_end_once_cap_reached')
    fixed, fcfs = A('presale_mode').eq(FIXED), A('presale_mode').eq(FCFS)
    c.same(q, 'price', 'records the price of the argument account', q.raw(0, 16, True), fixed_arg(q, 'q_price'), fixed)
    c.same(q, 'no-withdraw', 'records the withdraw flag of the argument account', q.raw(16, 1, True), fixed_arg(q, 'disable_withdraw'), fixed)
    c.same(q, 'early-end-fixed', 'records the early-end flag', q.raw(17, 1, True), flag, fixed)
    c.same(q, 'early-end-fcfs', 'records the early-end flag', q.raw(0, 1, True), flag, fcfs)


def c20(c):
    q = c.q('initialize_presale')
    A, L, R, n = init_args(q)
    P1 = q.P1
    for f in ('presale_mode', 'whitelist_mode', 'presale_maximum_cap', 'presale_minimum_cap', 'presale_end_time', 'unsold_token_action'):
        c.same(q, f, 'records the given ' + f, P1(f), A(f))
    c.same(q, 'start', 'records the given start, moved up to now', P1('presale_start_time'), vmax(A('presale_start_time'), q.now))
    c.same(q, 'created', 'records the creation time', P1('created_at'), q.now)
    c.same(q, 'count', 'records the number of registries', P1('total_presale_registry_count'), n)
    for f, g in (('lock_duration', 'lock_duration'), ('vest_duration', 'vest_duration'), ('immediate_release_timestamp', 'immediate_release_timestamp'),
                 ('immediate_release_bps', 'immediately_release_bps')):
        c.same(q, f, 'records the given ' + f, P1(f), L(g))
    given = has_vesting(q)
    end = A('presale_end_time')
    c.same(q, 'vesting-start', 'the lock ends a lock duration after the end', P1('vesting_start_time'), end + L('lock_duration'), given)
    c.same(q, 'vesting-end', 'vesting ends a vesting duration after that', P1('vesting_end_time'), end + L('lock_duration') + L('vest_duration'), given)
    c.need(q, 'schedule', 'the recorded schedule is consistent', schedule_ok(P1('presale_end_time'), P1('lock_duration'), P1('vest_duration'), P1('vesting_start_time'), P1('vesting_end_time'),
                                                                              P1('immediate_release_timestamp')))
    total = V.of(0)
    for i in range(5):
        G1 = lambda f: q.final('Presale', 'presale_registries', i, f)
        for f in REG_ARGS:
            c.same(q, 'registry-%d-%s' % (i, f), 'registry %d records the given %s' % (i, f), G1(f), cond(n > i, R(i, f), 0))
        for f in ('total_deposit', 'total_escrow', 'total_claimed_token', 'total_refunded_quote_token', 'total_deposit_fee'):
            c.same(q, 'registry-%d-%s' % (i, f), 'registry %d starts with zero %s' % (i, f), G1(f), 0)
        total = total + cond(n > i, R(i, 'presale_supply'), 0)
    for f in ('total_deposit', 'total_escrow', 'total_claimed_token', 'total_refunded_quote_token', 'total_deposit_fee', 'deposit_fee_collected', 'has_creator_withdrawn',
              'is_unsold_token_action_performed'):
        c.same(q, 'zero-' + f, f + ' starts at zero', P1(f), 0)
    c.same(q, 'supply', 'the supply is the sum of the registries', P1('presale_supply'), total)
    mode_settings(c, q, A)
    # accounts
    ms = q.token_moves()
    c.must(q, 'funding', 'creation transfers tokens', len(ms) >= 1, 'no token movement')
    one_at_most(c, q, ms)
    c.need(q, 'always-funded', 'every successful creation funds the vault', disj(*[m['g'] for m in ms]))
    for m in ms:
        loc = c.site(m['e'])
        c.must(q, 'kind', 'funded by a transfer under the payer\'s own authority', m['kind'] == 'transfer' and m['seeds'] == [], '', loc)
        c.need(q, 'dest', 'into the recorded base vault', m['dest'].eq(P1('base_token_vault')), m['g'], loc)
        c.need(q, 'mint', 'in the recorded base mint', m['mint'].eq(P1('base_mint')), m['g'], loc)
        c.need(q, 'authority', 'with the authority\'s signature', q.signed(m['authority']), m['g'], loc)
        c.need(q, 'gross-up', 'so that the vault receives exactly the supply', gross_up_ok(q, m, total), m['g'], loc)
    mints, vaults = {}, {}
    for e in q.effects('initialize_account3'):
        a = {k: V(q._key(v)) for k, v in e['accts'].items()}
        g = B(AND(e['g'], q.R.g))
        for side in ('base', 'quote'):
            hit = a['account'].eq(P1(side + '_token_vault')) & a['mint'].eq(P1(side + '_mint')) & a['authority'].eq(program_authority(c))
            if theory.prove(g.n, hit.n).ok:
                vaults[side] = vaults.get(side, BF) | g
    for side in ('base', 'quote'):
        c.need(q, side + '-vault', 'the recorded %s vault is a token account of the recorded mint under the program authority' % side, vaults.get(side, BF))
        c.need(q, side + '-vault-addr', 'the recorded %s vault is the canonical address for this presale' % side, P1(side + '_token_vault').eq(q.pda(side.encode() + b'_vault', q.key('Presale'))))
        flag = P1(side + '_token_program_flag')
        i = mint_index(P1(side + '_mint'))
        tok = V(leaf(T('bytes', interp_tok())))
        progs = [V(q._key(e['cpiprog'])) for e in q.effects('initialize_account3')
                 if any(isinstance(x, Term) and x.op == 'acct' and x.args[0] == i for x in leafset(e['accts']['mint']))]
        c.must(q, side + '-program', 'the %s vault is created under a token program' % side, len(progs) == 1, str(len(progs)))
        if progs:
            c.same(q, side + '-flag', 'records the %s token program' % side, flag, cond(progs[0].eq(tok), 0, 1))
    c.need(q, 'address', 'the presale lives at the address derived from its base key and mints', q.key('Presale').eq(q.pda(b'presale', P1('base'), P1('base_mint'), P1('quote_mint'))))
    c.need(q, 'base-signed', 'the base key signed', q.signed(P1('base')))
    c.must(q, 'owner', 'the recorded creator is the given creator account', is_account(q, P1('owner')), str(P1('owner')))
    # the stored state satisfies the facts the other rules rely on
    I = conj(P1('presale_mode') <= 2, P1('whitelist_mode') <= 2, P1('presale_minimum_cap') >= 1, P1('presale_minimum_cap') <= P1('presale_maximum_cap'),
             P1('presale_start_time') < P1('presale_end_time'), P1('immediate_release_bps') <= 10000,
             P1('total_presale_registry_count') >= 1, P1('total_presale_registry_count') <= 5,
             P1('immediate_release_timestamp') <= P1('vesting_start_time') + P1('vest_duration'))
    c.need(q, 'invariant', 'the stored configuration is within the bounds the other rules rely on', I)


def is_account(q, v):
    xs = leafset(v.n)
    return len(xs) == 1 and isinstance(xs[0], Term) and xs[0].op == 'key'


# ---------------------------------------------------------------- C21
def c21(c):
    q = c.q('perform_unsold_base_token_action')
    I = inv(q) & inv_fixed(q) & inv_registries(q)
    ms = q.token_moves()
    n = q.P('total_presale_registry_count')
    c.must(q, 'moves', 'the action moves tokens', len(ms) >= 1, 'no token movement')
    c.same_per(q, 'amount', 'removes exactly supply minus tokens sold', q.total(ms), lambda k, m: q.P('presale_supply') - total_sold(q, k, m), I)
    c.need(q, 'positive', 'only if something is unsold', q.total(ms) >= 1, inv(q))
    one_at_most(c, q, ms)
    act = q.P('unsold_token_action')
    for m in ms:
        loc = c.site(m['e'])
        c.need(q, 'source', 'taken from the base vault', m['source'].eq(q.P('base_token_vault')), m['g'], loc)
        c.need(q, 'mint', 'in the base mint', m['mint'].eq(q.P('base_mint')), m['g'], loc)
        if m['kind'] == 'burn':
            c.need(q, 'burn', 'burned only if the configured action is burn', act.eq(1), m['g'] & inv(q), loc)
        elif m['kind'] == 'transfer':
            c.need(q, 'refund', 'sent only if the configured action is refund', act.eq(0), m['g'] & inv(q), loc)
            c.need(q, 'refund-dest', 'sent to the creator\'s associated token account', ata_of_creator(q, m), m['g'], loc)
        else:
            c.must(q, 'kind', 'burned or transferred', False, m['kind'], loc)
    kinds = {m['kind'] for m in ms}
    c.must(q, 'both', 'both actions are implemented', {'burn', 'transfer'} <= kinds, str(kinds))
    for k, v in (('burn', 1), ('transfer', 0)):
        c.need(q, 'done-' + k, 'the configured action is carried out', disj(*[m['g'] for m in ms if m['kind'] == k]), inv(q) & act.eq(v))


# ---------------------------------------------------------------- C22
def c22(c):
    q = c.q('creator_collect_fee')
    ms = q.token_moves()
    n = q.P('total_presale_registry_count')
    I = inv(q) & inv_registries(q)
    c.must(q, 'moves', 'the collection moves tokens', len(ms) >= 1, 'no token movement')
    c.same(q, 'amount-plain', 'pays all recorded deposit fees of a fixed-price or first-come-first-served presale', q.total(ms), q.P('total_deposit_fee'), I & ~is_prorata(q))
    c.same_per(q, 'amount-prorata', 'pays the fees of a pro-rata presale minus the part refundable to buyers', q.total(ms), lambda k, m: fees_due(q, k, m), I & is_prorata(q))
    pays_from(c, q, ms, 'quote', inv(q))
    one_at_most(c, q, ms)
    # the refunds use the same formula
    q = c.q('withdraw_remaining_quote')
    d, f = refund(q)
    c.same(q, 'same-formula', 'refunds are computed by the same registry formula', q.total(q.token_moves()), d + f, inv(q) & inv_escrow(q) & inv_fixed(q) & cap_met(q))


# ---------------------------------------------------------------- C23
TIMING = ('presale_end_time', 'vesting_start_time', 'vesting_end_time', 'immediate_release_timestamp')


def early_end_off(q):
    return (is_fixed(q) & q.raw(17, 1).ne(0)) | (is_fcfs(q) & q.raw(0, 1).ne(0))


def schedule_ok(end, lock, vest, vs, ve, imm):
    """lock and vesting follow the end by the configured durations (or no schedule was configured)"""
    plain = vs.eq(end + lock) & ve.eq(end + lock + vest)
    none = conj(vs.eq(0), ve.eq(0), lock.eq(0), vest.eq(0), imm.eq(0))
    return (plain | none) & (imm <= end + lock + vest)


def c23(c):
    for q in c.all():
        if not q.has('Presale') or 'Presale' in q.inits():
            continue
        if q.name == 'deposit':
            continue
        for f in TIMING:
            ch = changed(q, 'Presale', f)
            c.must(q, 'untouched', 'only a deposit changes %s' % f, not ch, ', '.join(ch))
    q = c.q('deposit')
    I = inv(q) & inv_escrow(q)
    sold_out = (q.P1('total_deposit') >= q.P('presale_maximum_cap')) & ~is_prorata(q) & ~early_end_off(q)
    end, lock, vest = q.P('presale_end_time'), q.P('lock_duration'), q.P('vest_duration')
    imm = q.P('immediate_release_timestamp')
    keep = cond(imm >= end, imm - end, 0)
    c.same(q, 'end', 'the presale ends now exactly when the deposit sells it out', q.P1('presale_end_time'), cond(sold_out, q.now, end), I)
    c.same(q, 'lock-end', 'the lock end keeps its distance from the end', q.P1('vesting_start_time'), cond(sold_out, q.now + lock, q.P('vesting_start_time')), I)
    c.same(q, 'vest-end', 'the vesting end keeps its distance from the end', q.P1('vesting_end_time'), cond(sold_out, q.now + lock + vest, q.P('vesting_end_time')), I)
    c.same(q, 'immediate', 'the immediate release keeps its distance from the end', q.P1('immediate_release_timestamp'), cond(sold_out, q.now + keep, imm), I)
    J = schedule_ok(end, lock, vest, q.P('vesting_start_time'), q.P('vesting_end_time'), imm)
    c.need(q, 'schedule-kept', 'the schedule stays consistent', schedule_ok(q.P1('presale_end_time'), lock, vest, q.P1('vesting_start_time'), q.P1('vesting_end_time'), q.P1('immediate_release_timestamp')) |
           (q.P1('presale_end_time').eq(end)), I & J)
    c.need(q, 'order-kept', 'immediate release is never after the vesting end', q.P1('immediate_release_timestamp') <= q.P1('vesting_start_time') + vest, I & J)


# ---------------------------------------------------------------- C24
IMMUTABLE = {
    'Presale': ['owner', 'quote_mint', 'base_mint', 'base_token_vault', 'quote_token_vault', 'base', 'presale_mode', 'whitelist_mode', 'presale_maximum_cap', 'presale_minimum_cap',
                'presale_start_time', 'presale_supply', 'created_at', 'lock_duration', 'vest_duration', 'base_token_program_flag', 'quote_token_program_flag',
                'total_presale_registry_count', 'unsold_token_action', 'immediate_release_bps', 'presale_mode_raw_data',
                'presale_registries.[].presale_supply', 'presale_registries.[].buyer_minimum_deposit_cap', 'presale_registries.[].buyer_maximum_deposit_cap',
                'presale_registries.[].deposit_fee_bps', 'presale_registries.[*]'],
    'Escrow': ['presale', 'owner', 'registry_index', 'deposit_max_cap', 'created_at'],
    'MerkleRootConfig': ['root', 'presale', 'version'],
    'Operator': ['owner', 'creator'],
    'FixedPricePresaleExtraArgs': ['disable_withdraw', 'q_price', 'owner', 'presale'],
}


def c24(c):
    n = 0
    for q in c.all():
        for o in list(q.I.stidx):
            b = o.split('@')[0]
            if b not in IMMUTABLE or o in q.inits():
                continue
            for f in IMMUTABLE[b]:
                n += 1
                ch = changed(q, o, f)
                bad = [x for x in ch if not c_unchanged(q, o, x)]
                c.must(q, 'immutable', '%s.%s is not changed' % (b, f), not bad, 'changes ' + ', '.join(bad))
        whole = [k for k in q.changes if k[1] == '' and k[0].split('@')[0] in IMMUTABLE and k[0] not in q.inits()]
        c.must(q, 'whole', 'no state account is overwritten as a whole', not whole, str(whole))
        for m in q.I.effects:
            if m['kind'] == 'close' and AND(m['g'], q.R.g) != F:
                c.must(q, 'not-closed', 'a presale is never closed', q.objname(m['acct']) != 'Presale', '', c.site(m))
    c.must(None, 'instances', 'fields examined', n > 200, str(n))


def c_unchanged(q, o, f):
    """the recorded store writes back the value that was there"""
    ini, fin, ty = q.changes[(o, f)]
    return isinstance(ini, int) and isinstance(fin, int) and theory.prove(q.R.g, V(ini).eq(V(fin)).n).ok


# ---------------------------------------------------------------- C26
def positions(v):
    """(symbol text, node) of every integer position held in a loop-carried value"""
    if isinstance(v, int):
        yield v
    elif isinstance(v, Obj):
        for k in v.d:
            if isinstance(v.d[k], int) and not isinstance(v.d[k], bool) and k in ('pos', 'start', 'i'):
                yield v.d[k]
            elif isinstance(v.d[k], Obj):
                yield from positions(v.d[k])
    elif isinstance(v, Agg):
        for x in v.f:
            yield from positions(x)
    elif isinstance(v, Enum):
        for fs in v.v.values():
            for x in fs:
                yield from positions(x)


def counter_loops(q):
    """loops carrying a position that starts at 0 and grows by one per iteration: {(loop id, position text): position term}"""
    r = getattr(q, '_counters', None)
    if r is not None:
        return r
    r = {}
    for lid, L in q.I.loops.items():
        for k, (ini, phi) in L['phis'].items():
            ini, ph = q.I.expand(ini), q.I.expand(phi)
            a, b = list(positions(ini)), list(positions(ph))
            if len(a) != len(b):
                continue
            for j in range(len(a)):
                if not (isleaf(b[j]) and isinstance(VAL[b[j]], Poly)) or a[j] != V.of(0).n:
                    continue
                ok = True
                for s, bk in zip(L['steps'], L['back']):
                    st = list(positions(q.I.expand(s[k])))
                    ok = ok and len(st) == len(b) and restrict(st[j], bk.g) == (V(b[j]) + 1).n
                if ok:
                    r[(lid, pstr(VAL[b[j]]))] = V(b[j])
    q._counters = r
    return r


def for_all(q, array, pred, length):
    """condition under which every element of `array` (a symbol path) satisfied pred: some loop visited all of them, and each
    iteration it completed implies pred.  pred(path of the element) -> B"""
    r = BF
    for v in sorted(support(q.R.g)):
        a = ATOMS[v]
        if a[0] != 'b' or a[1].op != 'iterations_satisfy':
            continue
        lid, node = a[1].args[0], a[1].args[1]
        for (l2, txt), pos in counter_loops(q).items():
            if l2 != lid:
                continue
            el = tuple(array) + ('[%s]' % txt,)
            L = q.I.loops.get(lid)
            if theory.prove(AND(node, L['g']) if L and isinstance(L.get('g'), int) else node, pred(el).n).ok:
                r = r | (B(litnode(v)) & (pos >= length))
    return r


# ---------------------------------------------------------------- C25
def exact_range(op, a, b, ty, I):
    """condition that the exact result of the operation is representable in ty"""
    lo, hi = I.sym_range(ty)

    def f(x, y):
        x, y = aspoly(x), aspoly(y)
        if x is None or y is None:
            return TR          # unknown operands: pointers, lengths of unknown slices
        if op == 'Add':
            r = padd(x, y)
        elif op == 'Sub':
            r = padd(x, y, -1)
        elif op == 'Mul':
            r = pmul(x, y)
        elif op == 'Shl':
            if y.const is None or y.const < 0 or y.const >= ty['w']:
                return F
            r = pscale(x, 2 ** y.const)
        else:
            r = x
        return AND(GE0(padd(r, pconst(lo), -1)), GE0(padd(pconst(hi), r, -1)))
    return apply2(('exact', op, ty['name']), f, a, b)


def lossy_terms(x, seen, out):
    """truncated or undetermined values inside a diagram, term or polynomial"""
    if isinstance(x, int):
        if ('n', x) in seen:
            return
        seen.add(('n', x))
        for v in support(x):
            a = ATOMS[v]
            for y in a[1:]:
                lossy_terms(y, seen, out) if not isinstance(y, int) else None
        for t in leafset(x):
            lossy_terms(t, seen, out)
    elif isinstance(x, Poly):
        for mono, _ in x.m:
            for tid in mono:
                lossy_terms(Term.all[tid], seen, out)
    elif isinstance(x, Term):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'def':
            lossy_terms(x.args[0], seen, out)
            return
        if x.op == 'nondet' or x.op in ('fits', 'fits-'):
            out.append(x)
        if x.op == 'iterations_satisfy':
            lossy_terms(x.args[1], seen, out)
            return
        for y in x.args:
            if isinstance(y, (Term, Poly)):
                lossy_terms(y, seen, out)
            elif isinstance(y, tuple) and y and y[0] == 'dd':
                lossy_terms(y[1], seen, out)


def without_one_sided(g):
    """the success condition without the choices of which one side only adds refusals: an operation that may
    fail, whose failure is carried in a value for a while before the instruction is refused for it"""
    for v in sorted(support(g)):
        a = ATOMS[v]
        if a[0] == 'b' and a[1].op == 'nondet':
            l = litnode(v)
            c1, c0 = exists(AND(g, l), {v}), exists(AND(g, NOT(l)), {v})
            if AND(c0, NOT(c1)) == F or AND(c1, NOT(c0)) == F:
                g = OR(c0, c1)
    return g


def native_only(x):
    """lamport bookkeeping of the account framework (rent top-ups), not token, price or time arithmetic"""
    s = ' '.join(pstr(t) if isinstance(t, Poly) else tstr(t) if isinstance(t, Term) else '' for t in (leafset(x) if isinstance(x, int) else [x]))
    return 'rent_min(' in s or 'lamports(' in s


def clamp_allowed(q, a, b):
    """the two documented clamps: oversubscription below the cap is zero; a release time before the end counts as the end"""
    if not q.has('Presale'):
        return BF
    r = BF
    for x, y in (('total_deposit', 'presale_maximum_cap'), ('immediate_release_timestamp', 'presale_end_time')):
        for P in (q.P, q.P1):
            r = r | (V(a).eq(P(x)) & V(b).eq(P(y)))
    # asking how long ago something was that has not happened yet: what then follows is for the rules on those dates
    now = q.now
    for y in ('presale_start_time', 'presale_end_time', 'vesting_start_time', 'vesting_end_time', 'immediate_release_timestamp'):
        r = r | (V(a).eq(now) & V(b).eq(q.P(y)))
    return r


def c25(c):
    n = 0
    for q in c.all():
        I = inv(q) & inv_escrow(q) & inv_fixed(q) if q.has('Presale') and 'Presale' not in q.inits() and q.has('Escrow') and 'Escrow' not in q.inits() else inv_if(q)
        seen = {}
        for g, op, a, b, ty, stk, line, okn in q.I.lossy:
            if AND(g, q.R.g) == F or native_only(a) or native_only(b):
                continue
            ok = B(exact_range(op, a, b, ty, q.I) if okn is None else okn)
            if AND(AND(g, q.R.g), NOT(ok.n)) == F:
                n += 1
                continue
            key = (op, a, b, ty['name'], g)
            if key in seen:
                continue
            seen[key] = 1
            n += 1
            if op in ('Sub', 'CheckedSub'):
                ok = ok | clamp_allowed(q, a, b)
            where = ' > '.join(stk[-2:]) + ' (%s)' % line
            nm = {'Add': 'addition', 'Sub': 'subtraction', 'Mul': 'multiplication', 'Shl': 'shift', 'Cast': 'conversion'}.get(op, op)
            c.need(q, 'exact-%s' % op.lower(), 'every %s that can lose information makes the instruction fail' % nm, ok, B(g) & I, where)
        out = []
        sn = set()
        for k, (ini, fin, ty) in q.changes.items():
            for x in ([fin] if isinstance(fin, int) else []):
                lossy_terms(restrict(x, q.R.g), sn, out)
        for e in q.I.effects:
            g = AND(e['g'], q.R.g)
            if g == F:
                continue
            lossy_terms(restrict(e['g'], q.R.g), sn, out)
            if isinstance(e.get('amount'), int):
                lossy_terms(restrict(e['amount'], g), sn, out)
            if e['kind'] == 'event':
                for f, v in e['fields'].items():
                    v = q.I.expand(v) if not isinstance(v, int) else v
                    if isinstance(v, int):
                        lossy_terms(restrict(v, g), sn, out)
        lossy_terms(without_one_sided(q.R.g), sn, out)
        c.must(q, 'determined', 'no stored value, movement or event depends on whether an operation overflowed', not out, '; '.join(sorted({tstr(t)[:300] for t in out})[:3]))
    c.must(None, 'instances', 'arithmetic operations were found', n >= 20, 'found %d' % n)
    import tomllib
    import os
    try:
        t = tomllib.load(open(os.path.join(c.repo, 'Cargo.toml'), 'rb'))
        ov = t.get('profile', {}).get('release', {}).get('overflow-checks')
    except Exception as e:
        ov = str(e)
    c.must(None, 'overflow-checks', 'the deployed profile keeps overflow checks on', ov is True, 'profile.release.overflow-checks = %s' % ov, 'Cargo.toml')


EXT_OK = ('TransferFeeConfig', 'MetadataPointer', 'TokenMetadata', 'TransferHook')


def c26(c):
    q = c.q('initialize_presale')
    et = [t for t in c.prog.TY if t['k'] == 'enum' and tyshort(t['name']) == 'ExtensionType']
    tok = V(leaf(T('bytes', interp_tok())))
    nat = V(leaf(T('token2022_native_mint')))
    for side in ('base', 'quote'):
        i = mint_index(q.P1(side + '_mint'))
        if i is None:
            c.must(q, side + '-mint', 'the recorded %s mint is an account of the instruction' % side, False, str(q.P1(side + '_mint')))
            continue
        c.need(q, side + '-is-mint', 'the %s mint is a token mint' % side, B(BOOLT(T('typed', 'Mint', i))))
        own = V(leaf(T('owner', i)))
        legacy = own.eq(tok)
        c.need(q, side + '-not-native', 'the token-2022 native mint is rejected as %s mint' % side, V(leaf(T('key', i))).ne(nat), ~legacy)
        if not et:
            c.need(q, side + '-extensions', 'extensions of a token-2022 %s mint are checked' % side, legacy)
            continue
        names = [v['n'] for v in et[0]['vs']]
        ok = [names.index(x) for x in EXT_OK]
        array = ('exts@%s' % i,)
        length = V(leaf(pterm(T('sym', *array, 'len', lo=0, hi=2**32))))
        d = lambda el: V(leaf(pterm(T('sym', *el, '#', lo=0, hi=len(names) - 1))))
        c.need(q, side + '-extensions', 'every extension of a token-2022 %s mint is transfer fee, metadata pointer, token metadata or transfer hook' % side,
               for_all(q, array, lambda el: disj(*[d(el).eq(k) for k in ok]), length), ~legacy)


# ---------------------------------------------------------------- C27
def closes_of(q, obj):
    return [e for e, o in q.closes() if o == obj]


def c27(c):
    n = 0
    for q in c.all():
        # an account of each kind is created and closed only by its own instructions
        for obj, mk, cl in (('Operator', 'create_operator', 'revoke_operator'), ('MerkleRootConfig', 'create_merkle_root_config', 'close_merkle_root_config'),
                            ('PermissionedServerMetadata', 'create_permissioned_server_metadata', 'close_permissioned_server_metadata'),
                            ('FixedPricePresaleExtraArgs', 'initialize_fixed_price_presale_args', 'close_fixed_price_presale_args')):
            if obj in q.inits():
                c.must(q, 'creates-' + obj, '%s is created only by %s' % (obj, mk), q.name == mk, q.name)
                n += 1
            for e in closes_of(q, obj):
                c.must(q, 'closes-' + obj, '%s is closed only by %s' % (obj, cl), q.name == cl, q.name, c.site(e))
                n += 1
    c.must(None, 'instances', 'the eight creating and closing instructions were found', n >= 8, 'found %d' % n)
    q = c.q('create_operator')
    cr, ow = q.final('Operator', 'creator'), q.final('Operator', 'owner')
    c.need(q, 'appoint-signed', 'an operator is appointed only with the signature of the recorded creator', q.signed(cr))
    c.must(q, 'operator-account', 'the recorded operator is an account of the instruction other than the creator\'s', is_account(q, ow) and is_account(q, cr) and ow.n != cr.n, '%s / %s' % (ow, cr))
    c.need(q, 'operator-address', 'one account per creator and operator', q.key('Operator').eq(q.pda(b'operator', cr, ow)))
    q = c.q('revoke_operator')
    c.need(q, 'revoke-typed', 'what is revoked is an operator account', q.typed('Operator'))
    c.need(q, 'revoke-signed', 'an operator is revoked only with the signature of its creator', q.signed(q.init('Operator', 'creator')))
    c.need(q, 'revoke-closes', 'revoking closes the operator account', disj(*[B(e['g']) for e in closes_of(q, 'Operator')]))
    for obj, mk, cl in (('MerkleRootConfig', 'create_merkle_root_config', 'close_merkle_root_config'),
                        ('PermissionedServerMetadata', 'create_permissioned_server_metadata', 'close_permissioned_server_metadata')):
        q = c.q(mk)
        c.need(q, 'presale-typed', 'the presale is genuine', q.typed('Presale'))
        c.need(q, 'create-signed', 'created only with the signature of the presale creator', q.signed(q.P('owner')))
        c.need(q, 'create-mode', 'created only for a presale of the matching whitelist mode', q.P('whitelist_mode').eq(1) if obj == 'MerkleRootConfig' else (q.P('whitelist_mode') >= 1) & (q.P('whitelist_mode') <= 2))
        c.need(q, 'create-time', 'created only before the presale end', q.now < q.P('presale_end_time'), inv(q))
        c.same(q, 'create-presale', 'belongs to that presale', q.final(obj, 'presale'), q.key('Presale'))
        if obj == 'MerkleRootConfig':
            a = lambda f: q.arg(['params', 0], f)
            c.same(q, 'root', 'records the given root', q.final(obj, 'root'), a('root'))
            c.same(q, 'version', 'records the given version', q.final(obj, 'version'), a('version'))
            c.need(q, 'address', 'one account per presale and version', q.key(obj).eq(q.pda(b'merkle_root', q.key('Presale'), q.le(a('version'), 64))))
        else:
            c.need(q, 'address', 'one account per presale', q.key(obj).eq(q.pda(b'server_metadata', q.key('Presale'))))
        q = c.q(cl)
        c.need(q, 'close-typed', 'presale and account are genuine', q.typed('Presale') & q.typed(obj))
        c.need(q, 'close-signed', 'closed only with the signature of the presale creator', q.signed(q.P('owner')))
        c.need(q, 'close-own', 'closed only for the presale it belongs to', q.init(obj, 'presale').eq(q.key('Presale')))
        if obj == 'MerkleRootConfig':
            c.need(q, 'close-time', 'a Merkle root is not closed while the sale is ongoing', ~ongoing(q), inv(q))
    q = c.q('initialize_fixed_price_presale_args')
    fa = lambda f: q.final('FixedPricePresaleExtraArgs', f)
    ag = lambda f: q.arg(['params', 0], f)
    for f in ('presale', 'q_price', 'disable_withdraw'):
        c.same(q, 'args-' + f, 'the argument account records the given ' + f, fa(f), ag(f))
    c.need(q, 'args-address', 'one argument account per presale address', q.key('FixedPricePresaleExtraArgs').eq(q.pda(b'fixed_price_param', fa('presale'))))
    c.must(q, 'args-owner', 'the recorded owner is an account of the instruction', is_account(q, fa('owner')), str(fa('owner')))
    q = c.q('close_fixed_price_presale_args')
    c.need(q, 'args-close-typed', 'the argument account is genuine', q.typed('FixedPricePresaleExtraArgs'))
    c.need(q, 'args-close-signed', 'closed only with the signature of its owner', q.signed(fixed_arg(q, 'owner')))
    q = c.q('initialize_presale')
    fixed = init_args(q)[0]('presale_mode').eq(FIXED)
    c.need(q, 'args-use', 'an argument account is usable only for the presale it names', q.typed('FixedPricePresaleExtraArgs') & fixed_arg(q, 'presale').eq(q.key('Presale')), fixed)


# ---------------------------------------------------------------- C28
def arg_of_type(q, ty):
    """symbol path of the instruction argument of this type"""
    d = [t for t in q.prog.TY if t['k'] == 'struct' and t['name'].startswith('instruction::') and t['name'].split('::')[-1].replace('_', '').lower() == q.name.replace('_', '').lower()]
    for n, ft in (d[0]['vs'][0]['fs'] if d else []):
        if tyshort(q.prog.TY[ft]['name']) == ty:
            return ('arg', n)
    return None


def parse_loop(q, ref):
    """the loop and its carried Option whose payload a slice reference is, or None"""
    o = ref.obj
    if o[0] != 'D' or len(o[1]) < 2:
        return None
    L = q.I.loops.get(o[1][0])
    if L is None:
        return None
    for k, (ini, phi) in L['phis'].items():
        ph = q.I.expand(phi)
        if isinstance(ph, Enum) and 1 in ph.v and ph.v[1]:
            x = q.I.expand(ph.v[1][0])
            if isinstance(x, int) and isleaf(x) and VAL[x] is ref:
                return o[1][0], L, k, q.I.expand(ini), ph
            if isinstance(x, int) and isleaf(x) and isinstance(VAL[x], Ref) and VAL[x].obj == o:
                return o[1][0], L, k, q.I.expand(ini), ph
    return None


def c28(c):
    n = 0
    for q in c.all():
        ms = [m for m in q.token_moves() if m['kind'] == 'transfer']
        if not ms:
            continue
        effs = [e for e in q.I.effects if AND(e['g'], q.R.g) != F]
        for m in ms:
            n += 1
            e, loc = m['e'], c.site(m['e'])
            # memo
            d = mint_index(m['dest'])
            c.must(q, 'dest-known', 'the receiving account is an account of the instruction', d is not None, str(m['dest']), loc)
            if m['seeds'] != [] and d is not None:
                wants = V(leaf(T('owner', d))).ne(V(leaf(T('bytes', interp_tok())))) & B(BOOLT(T('has_ext', 'MemoTransfer', d))) & \
                    (V(leaf(pterm(T('sym', 'MemoTransfer@%s' % d, 'require_incoming_transfer_memos', '0', lo=0, hi=255)))) >= 1)
                before = BF
                for x in effs:
                    if x['kind'] == 'memo' and x['seq'] < e['seq']:
                        mid = [y for y in effs if x['seq'] < y['seq'] < e['seq'] and y['kind'] != 'hook']
                        g = B(x['g'])
                        for y in mid:
                            g = g & ~B(y['g'])
                        before = before | g
                c.need(q, 'memo', 'a memo immediately precedes the transfer when the receiving account requires one', before, m['g'] & wants, loc)
            # transfer hook
            i = mint_index(m['mint'])
            c.must(q, 'mint-known', 'the mint is an account of the instruction', i is not None, str(m['mint']), loc)
            if i is None:
                continue
            hooked = V(leaf(T('owner', i))).ne(V(leaf(T('bytes', interp_tok())))) & B(BOOLT(T('has_hook', i)))
            cover = BF
            slots = {}
            for x in effs:
                if x['kind'] != 'hook' or x['seq'] > e['seq']:
                    continue
                a = {k: V(q._key(v)) for k, v in x['accts'].items()}
                g = B(AND(x['g'], q.R.g))
                same = conj(*[a[f].eq(m[f]) for f in ('source', 'mint', 'dest', 'authority')]) & V(x['amount']).eq(m['amount']) & V(x['program']).eq(V(leaf(T('hook_program', i))))
                c.need(q, 'hook-true', 'the hook is told the true source, mint, destination, authority and amount', same, g & m['g'], loc)
                cover = cover | g
                for r, gr in leaves(x['extra']):
                    if AND(gr, g.n) == F:
                        continue
                    pl = parse_loop(q, r) if isinstance(r, Ref) else None
                    if pl is None and isinstance(r, Ref):
                        pl = direct_slice(q, r)
                    c.must(q, 'hook-extra', 'the extra accounts passed on are those described by the caller', pl is not None, vstr(r), loc)
                    if pl is not None and pl != 'direct':
                        slots[pl[0], pl[2]] = (pl, slots.get((pl[0], pl[2]), (None, F))[1])
                        slots[pl[0], pl[2]] = (pl, OR(slots[pl[0], pl[2]][1], AND(gr, g.n)))
            c.need(q, 'hook-forwarded', 'a mint with a transfer hook is moved only with the caller\'s extra hook accounts', cover, m['g'] & hooked, loc)
            if 'hook' in e:
                c.need(q, 'hook-attached', 'the extra accounts are attached to the transfer', B(apply1('hooktrue', lambda t: TR if str(t) == 'True' else F, e['hook'])), m['g'] & hooked, loc)
            parsed_ok(c, q, m, i, hooked, slots, loc)
    c.must(None, 'instances', 'the token transfers were found', n >= 8, 'found %d' % n)


def direct_slice(q, r):
    """a window of the instruction's own accounts"""
    return 'direct' if r.obj == ('accts',) and r.meta and r.meta[0] == 'w' else None


def parsed_ok(c, q, m, i, hooked, slots, loc):
    base = arg_of_type(q, 'RemainingAccountsInfo')
    c.must(q, 'slices-arg', 'the caller describes its extra accounts in an argument', base is not None, '', loc)
    if base is None:
        return
    arr = base + ('slices',)
    length = V(leaf(pterm(T('sym', *arr, 'len', lo=0, hi=2**32))))
    kind = kind_of(q, m)
    c.must(q, 'side', 'the transfer moves from or to one of the presale\'s vaults', kind is not None, '%s -> %s' % (m['source'], m['dest']), loc)
    if kind is None:
        return
    ty = lambda el: V(leaf(pterm(T('sym', *el, 'accounts_type', '#', lo=0, hi=1))))
    ln = lambda el: V(leaf(pterm(T('sym', *el, 'length', lo=0, hi=255))))
    c.need(q, 'slice-kind', 'descriptions of a wrong kind are rejected', length.eq(0) | for_all(q, arr, lambda el: ty(el).eq(kind), length), m['g'] & inv_if(q), loc)
    c.must(q, 'slice-used', 'the descriptions select the extra accounts', bool(slots), 'no hook uses parsed accounts', loc)
    for (pl, g) in slots.values():
        lid, L, k, ini, ph = pl
        some = V(ph.d)
        c.must(q, 'slice-start', 'no extra accounts are selected at first', isinstance(ini, Enum) and isleaf(ini.d) and VAL[ini.d] is P0, str(ini), loc)
        c.need(q, 'no-hook', 'extra hook accounts for a mint without a hook are rejected', length.eq(0) | some.eq(0), m['g'] & ~hooked & B(sel_of(q, slots, pl, m, kind)), loc)
        pos = [(t, p) for (l2, t), p in counter_loops(q).items() if l2 == lid]
        win = [(k2, x) for k2, (a, x) in L['phis'].items() if isinstance(q.I.expand(x), int) and slice_base(q.I.expand(x)) == (('accts',), ())]
        if not pos or not win:
            c.must(q, 'slice-walk', 'the descriptions are walked one by one over the remaining accounts', False, 'positions %s windows %s' % (pos, win), lid)
            continue
        el = tuple(arr) + ('[%s]' % pos[0][0],)
        w0 = VAL[q.I.expand(win[0][1])].meta
        wini = VAL[q.I.expand(L['phis'][win[0][0]][0])].meta if isleaf(q.I.expand(L['phis'][win[0][0]][0])) else None
        na = V(leaf(pterm(T('sym', 'naccounts', lo=0, hi=2**16))))
        for x in leafset(q.I.expand(L['phis'][win[0][0]][0])):
            c.must(q, 'slice-all', 'the walk covers the remaining accounts', isinstance(x, Ref) and padd(x.meta[1], x.meta[2]) == VAL[na.n], vstr(x), lid)
        for s, bk in zip(L['steps'], L['back']):
            v = q.I.expand(s[k])
            w1 = restrict(q.I.expand(s[win[0][0]]), bk.g)
            ok = struct_eq(v, ph)
            took = BF
            why = ''
            if not ok:
                if not isinstance(v, Enum) or 1 not in v.v:
                    c.must(q, 'slice-step', 'a description selects the next accounts', False, str(v), lid)
                    continue
                took = V(v.d).eq(1)
                pay = q.I.expand(v.v[1][0])
                new = BF
                for r, gr in leaves(restrict(pay, bk.g)):
                    if isinstance(r, Ref) and r.obj == ('accts',):
                        new = new | B(gr)
                        gg = B(AND(AND(bk.g, gr), took.n))
                        hit = V(leaf(r.meta[1])).eq(V(leaf(w0[1]))) & V(leaf(r.meta[2])).eq(ln(el))
                        okv = theory.prove(gg.n, (hit & ty(el).eq(slot_kind(q, m, slots, pl, kind)) & some.eq(0)).n)
                        c.must(q, 'slice-take', 'a description selects the next accounts of its length and its kind, once', okv.ok, okv.text(), lid)
                    elif isinstance(r, Ref):
                        pass
                    else:
                        c.must(q, 'slice-take', 'a description selects accounts of the instruction', False, vstr(r), lid)
            for x, gx in leaves(w1):
                if not isinstance(x, Ref):
                    c.must(q, 'slice-advance', 'selected accounts are consumed', False, vstr(x), lid)
                    continue
                adv = V(leaf(x.meta[1])).eq(V(leaf(w0[1])) + ln(el)) & V(leaf(x.meta[2])).eq(V(leaf(w0[2])) - ln(el)) & (V(leaf(w0[2])) >= ln(el))
                v2 = theory.prove(AND(bk.g, gx), adv.n)
                c.must(q, 'slice-advance', 'exactly the described accounts are consumed, and they exist', v2.ok, v2.text(), lid)


def inv_if(q):
    return inv(q) if q.has('Presale') and 'Presale' not in q.inits() else BT


def kind_of(q, m):
    """which kind of description belongs to the moved mint (0 base, 1 quote): the side whose vault it moves from or to"""
    P = q.P1 if 'Presale' in q.inits() else q.P
    side = [m['source'].eq(P(s + '_token_vault')) | m['dest'].eq(P(s + '_token_vault')) for s in ('base', 'quote')]
    for k in (0, 1):
        if theory.prove(AND(q.R.g, m['g'].n), side[k].n, hint=m['g'].n).ok:
            return V(leaf(pconst(k)))
    if 'Presale' not in q.inits() and theory.prove(AND(q.R.g, m['g'].n), cond_b(cap_met(q), side[1], side[0]).n).ok:
        return cond(cap_met(q), 1, 0)
    return None


def cond_b(c, a, b):
    return (c & a) | (~c & b)


def slot_kind(q, m, slots, pl, kind):
    g = slots[pl[0], pl[2]][1]
    return V(restrict(kind.n, AND(g, q.R.g)))


def sel_of(q, slots, pl, m, kind):
    """condition under which this slot is the one that belongs to the moved mint"""
    if len(slots) == 1:
        return TR
    g = AND(slots[pl[0], pl[2]][1], q.R.g)
    for k in (0, 1):
        if theory.prove(g, kind.eq(k).n).ok:
            return kind.eq(k).n
    return TR


# ---------------------------------------------------------------- C29
def c29(c):
    q = c.q('deposit')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    got = q.E1('total_deposit') - q.E('total_deposit')
    a = allowed_deposit(q)
    c.same(q, 'deposit-fixed', 'a fixed-price deposit is the rounded-up price of the whole tokens the allowed amount buys', got, quote_for(q, tokens_for(q, a)), I & is_fixed(q))
    c.need(q, 'deposit-within', 'never more than the allowed amount', got <= a, I & is_fixed(q))
    c.same(q, 'deposit-other', 'in the other modes the allowed amount is used unchanged', got, a, I & ~is_fixed(q))
    q = c.q('withdraw')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    out = q.E('total_deposit') - q.E1('total_deposit')
    x = q.arg(['max_amount', 0])
    c.same(q, 'withdraw-all', 'withdrawing the entire deposit returns it unreduced', out, q.E('total_deposit'), I & x.eq(q.E('total_deposit')))
    c.same(q, 'withdraw-fixed', 'a partial fixed-price withdrawal is the rounded-up price of whole tokens', out, quote_for(q, tokens_for(q, x)), I & is_fixed(q) & x.ne(q.E('total_deposit')))
    c.need(q, 'withdraw-within', 'never more than the requested amount', out <= x, I)
    c.same(q, 'withdraw-prorata', 'a pro-rata withdrawal is the requested amount', out, x, I & is_prorata(q))


# ---------------------------------------------------------------- C30
def net(q, m_mint, x):
    """x less the mint's transfer fee"""
    i = mint_index(m_mint)
    if i is None:
        return V(TOP)
    return cond(fee_terms(q, i, x), x - calc('calculate_fee', i, x), x)


def the_event(c, q, ty):
    es = [e for e in q.events() if e['ty'].split('::')[-1] == ty]
    c.must(q, 'event', 'emits %s' % ty, len(es) >= 1, 'not emitted')
    c.must(q, 'no-other-event', 'emits no other event', len(es) == len(q.events()), ', '.join(e['ty'] for e in q.events()))
    if es:
        c.need(q, 'event-always', 'every success emits it', disj(*[B(e['g']) for e in es]))
        for i in range(len(es)):
            c.must(q, 'event-once', 'not emitted in a loop', not es[i].get('loop'), '', c.site(es[i]))
            for j in range(i):
                c.need(q, 'event-once', 'not emitted twice', BF, B(es[i]['g']) & B(es[j]['g']), c.site(es[i]))
    return es


def evt(q, e, f):
    v = e['fields'].get(f)
    if v is None:
        raise Anchor('event %s has no field %s' % (e['ty'], f))
    v = q.I.expand(v) if not isinstance(v, int) else v
    return V(v) if isinstance(v, int) else V(TOP)


def c30(c):
    def check(name, ty, fields, under=None):
        q = c.q(name)
        for e in the_event(c, q, ty):
            g = B(e['g'])
            for f, want in fields(q).items():
                if isinstance(want, B):
                    c.need(q, f, 'reports ' + f, want, g if under is None else g & under(q), c.site(e))
                    continue
                ws = want if isinstance(want, list) else [want]
                u = g if under is None else g & under(q)
                if len(ws) == 1 and q.name == 'creator_collect_fee' and f == 'total_collected_fee':
                    c.same_per(q, f, 'the event\'s %s is the real one' % f, evt(q, e, f), ws[0], u & inv_registries(q))
                elif len(ws) == 1:
                    c.same(q, f, 'the event\'s %s is the real one' % f, evt(q, e, f), ws[0], u, c.site(e))
                else:
                    c.need(q, f, 'the event\'s %s is the real one' % f, disj(*[evt(q, e, f).eq(w) for w in ws]), u, c.site(e))

    def paid(q):
        ms = moves_out(q)
        if not ms:
            return V.of(0)
        return net(q, mint_of(q, ms), q.total(ms))

    def mint_of(q, ms):
        xs = {VAL[m['mint'].n] if isleaf(m['mint'].n) else None for m in ms}
        return V(leaf(xs.pop())) if len(xs) == 1 and None not in xs else V(TOP)
    inv1 = lambda q: inv(q) & inv_escrow(q) & inv_fixed(q)
    check('deposit', 'EvtDeposit', lambda q: dict(
        presale=q.key('Presale'), escrow=q.key('Escrow'), deposit_amount=q.E1('total_deposit') - q.E('total_deposit'),
        deposit_fee=q.E1('total_deposit_fee') - q.E('total_deposit_fee'), escrow_total_deposit_amount=q.E1('total_deposit'),
        presale_total_deposit_amount=q.P1('total_deposit')), inv1)
    check('withdraw', 'EvtWithdraw', lambda q: dict(
        presale=q.key('Presale'), escrow=q.key('Escrow'), withdraw_amount=paid(q), owner=q.E('owner'),
        escrow_total_deposit_amount=q.E1('total_deposit'), presale_total_deposit_amount=q.P1('total_deposit')), inv1)
    check('claim', 'EvtClaim', lambda q: dict(
        presale=q.key('Presale'), escrow=q.key('Escrow'), claim_amount=paid(q), owner=q.E('owner'),
        escrow_total_claim_amount=q.E1('total_claimed_token'), presale_total_claim_amount=q.P1('total_claimed_token')), inv1)
    check('withdraw_remaining_quote', 'EvtWithdrawRemainingQuote', lambda q: dict(
        presale=q.key('Presale'), escrow=q.key('Escrow'), amount_refunded=paid(q), owner=q.E('owner'),
        presale_total_refunded_quote_token=q.P1('total_refunded_quote_token')), inv1)
    check('creator_withdraw', 'EvtCreatorWithdraw', lambda q: dict(presale=q.key('Presale'), amount=paid(q), creator=q.P('owner')), inv)
    check('creator_collect_fee', 'EvtCreatorCollectFee', lambda q: dict(presale=q.key('Presale'), total_collected_fee=paid(q), owner=q.P('owner')), inv)
    check('perform_unsold_base_token_action', 'EvtPerformUnsoldBaseTokenAction', lambda q: dict(
        presale=q.key('Presale'), total_token_unsold=q.total(moves_out(q)), unsold_base_token_action=q.P('unsold_token_action')), inv)
    check('refresh_escrow', 'EvtEscrowRefresh', lambda q: dict(
        presale=q.key('Presale'), escrow=q.key('Escrow'), owner=q.E('owner'), pending_claim_token=q.E1('pending_claim_token'), current_timestamp=q.now))
    check('close_escrow', 'EvtEscrowClose', lambda q: dict(presale=q.key('Presale'), escrow=q.key('Escrow'), owner=q.E('owner')))
    for n in CREATE_ESCROW:
        check(n, 'EvtEscrowCreate', lambda q: dict(presale=q.key('Presale'), owner=q.E1('owner'), whitelist_mode=q.P('whitelist_mode'), total_escrow_count=q.P1('total_escrow')))


# ---------------------------------------------------------------- C34, C35: nothing permitted is refused
def _bases(a, out):
    if isinstance(a, Term):
        if a.op in ('div', 'def'):
            for x in a.args:
                _bases(x, out)
        else:
            out.add(tstr(a))
    elif isinstance(a, Poly):
        for k, _ in a.m:
            for i in k:
                _bases(Term.all[i], out)
    return out


def decided_by(v, names):
    """is this atom a comparison of numbers computed from stored state, the clock and the named inputs only?"""
    a = ATOMS[v]
    return a[0] == 'ge' and all(b.startswith(names) for b in _bases(a[1], set()))


def has_div(v):
    return any(Term.all[t].op == 'div' for t in theory.atom_terms(v))


def accepted(c, q, key, text, when, inputs=(), per=None):
    """obligation: whenever `when` holds of the stored state, the clock and the inputs, some choice of accounts, signatures,
    extra accounts and mint properties (and arithmetic that stays in range) makes the instruction succeed"""
    names = ('Presale.', 'Escrow.', 'clock.unix_timestamp') + tuple(inputs)
    g = theory.expand_node(q.R.g)
    h = exists(g, {v for v in support(g) if not decided_by(v, names)})
    aside = ''
    for k, m, sub in (cases(q) if per else [(0, 0, None)]):
        w, hh, pre = when.n, h, ''
        if per:
            pre = '%d registries, mode %d: ' % (k, m)
            w, hh = theory.subst_many(theory.expand_node(w), sub), theory.subst_many(h, sub)
            try:
                with theory.allowance():
                    w = AND(w, theory.subst_many(theory.expand_node(per(k, m).n), sub))
            except TooBig:
                aside = ' (%d registries in mode %d: too many cases)' % (k, m)
                continue
        v = theory.prove(w, hh, budget=(4000, 8) if per else None, hint=w)
        if not v.ok and v.lits is None:
            # undecided: leave the comparisons of rounded quotients aside
            hh = exists(hh, {x for x in support(hh) if has_div(x)})
            v = theory.prove(w, hh, hint=w)
            aside = ' (comparisons of rounded quotients left aside)'
        if not v.ok:
            return c.record(q, key, text, False, pre + 'refused, ' + v.text())
    return c.record(q, key, text + aside, True)


def totals_agree(q):
    """relations between the stored totals (kept by C05, C16): part sums never exceed their whole"""
    r = q.now >= 0
    if q.has('Escrow') and 'Escrow' not in q.inits():
        r = conj(r, q.E('total_deposit') <= q.G('total_deposit'), q.G('total_deposit') <= q.P('total_deposit'),
                 q.E('total_deposit_fee') <= q.G('total_deposit_fee'), q.G('total_escrow') >= 1, q.P('total_escrow') >= 1)
    return r


def claim_facts(q, t):
    """facts of arithmetic about the entitlement at t: parts are nonnegative and at most the whole"""
    z = q.E('total_deposit').eq(0) | q.G('total_deposit').eq(0)
    return conj(immediate_part(q) <= sold(q), vested_part(q, t) >= 0, z | (share(q, vested_part(q, t)) >= 0),
                z | (share(q, immediate_part(q)) >= 0), z | (share(q, sold(q) - immediate_part(q)) >= 0))


def wide_products(c, names):
    """no product of amounts is formed or stored undivided in a type it may not fit"""
    for name in names:
        q = c.q(name)
        bad, n = None, 0
        for g, a, b, v, ty, stk, loc in q.I.prods:
            if ty.get('w', 128) >= 128:
                continue
            n += 1
            hi = q.I.sym_range(ty)[1]
            for p in leafset(theory.expand_node(v)):
                if not isinstance(p, Poly) or (b is None and all(len(k) < 2 for k, _ in p.m)):
                    continue
                h = prange(p)[1]
                if h is None or h > hi:
                    bad = ('%s may exceed %s' % (pstr(p)[:300], ty['name']), ' > '.join(stk) + ' (%s)' % loc)
        c.must(q, 'wide', 'products of amounts are formed in a type wide enough for them', bad is None, bad[0] if bad else '', bad[1] if bad else None)


PAYOUTS = ('creator_withdraw', 'creator_collect_fee', 'perform_unsold_base_token_action', 'withdraw_remaining_quote', 'claim', 'refresh_escrow', 'close_escrow')


def c34(c):
    wide_products(c, PAYOUTS)
    q = c.q('creator_withdraw')
    accepted(c, q, 'creator', 'the creator can withdraw at any time after the end, once', inv(q) & totals_agree(q) & ended(q) & q.P('has_creator_withdrawn').eq(0))
    q = c.q('creator_collect_fee')
    I = inv(q) & inv_registries(q) & totals_agree(q)

    def part(k, m):
        r = BT
        for i in range(k if m == PRORATA else 0):
            a, b = registry_refund(q, i)
            z = q.P('total_deposit').eq(0) | q.G('total_deposit', i).eq(0)
            r = r & (z | conj(a >= 0, a <= q.G('total_deposit', i), b >= 0, b <= q.G('total_deposit_fee', i)))
        return r
    accepted(c, q, 'fee', 'the creator can collect the fees at any time after success, once', I & succeeded(q) & q.P('deposit_fee_collected').eq(0), per=part)
    q = c.q('perform_unsold_base_token_action')
    I = inv(q) & inv_fixed(q) & inv_registries(q) & totals_agree(q)
    accepted(c, q, 'unsold', 'unsold tokens can be disposed of at any time after success, once',
             I & succeeded(q) & q.P('is_unsold_token_action_performed').eq(0), per=lambda k, m: q.P('presale_supply') >= total_sold(q, k, m) + 1)
    q = c.q('withdraw_remaining_quote')
    I = inv(q) & inv_escrow(q) & inv_fixed(q) & totals_agree(q) & q.E('is_remaining_quote_withdrawn').eq(0)
    accepted(c, q, 'refund-failed', 'a buyer can be refunded at any time after failure, once', I & failed(q))
    accepted(c, q, 'refund-prorata', 'a buyer can be refunded at any time after a successful pro-rata presale, once', I & succeeded(q) & is_prorata(q))
    q = c.q('claim')
    I = inv(q) & inv_escrow(q) & inv_fixed(q) & totals_agree(q) & claim_facts(q, q.now)
    due = q.E('total_claimed_token') + q.E('pending_claim_token') <= entitlement(q, q.now)
    accepted(c, q, 'claim', 'a buyer can claim at any time after success', I & succeeded(q) & due)
    q = c.q('refresh_escrow')
    I = inv(q) & inv_escrow(q) & inv_fixed(q) & totals_agree(q) & claim_facts(q, q.now)
    due = q.E('total_claimed_token') + q.E('pending_claim_token') <= entitlement(q, q.now)
    accepted(c, q, 'refresh', 'an escrow can be refreshed after success', I & succeeded(q) & due)
    q = c.q('close_escrow')
    I = inv(q) & inv_escrow(q) & inv_fixed(q) & totals_agree(q)
    empty = q.E('total_deposit').eq(0) & q.E('total_deposit_fee').eq(0)
    back = q.E('is_remaining_quote_withdrawn').eq(1)
    accepted(c, q, 'close-ongoing', 'an empty escrow can be closed during the sale', I & ongoing(q) & empty)
    accepted(c, q, 'close-failed', 'a refunded or empty escrow can be closed after failure', I & failed(q) & (back | empty))
    accepted(c, q, 'close-done', 'a fully claimed and refunded escrow can be closed after success',
             I & claim_facts(q, q.P('vesting_start_time') + q.P('vest_duration')) & succeeded(q) & (back | ~is_prorata(q)) & q.E('total_claimed_token').eq(full_entitlement(q)))


def c35(c):
    wide_products(c, ('deposit', 'withdraw') + tuple(CREATE_ESCROW))
    q = c.q('deposit')
    I = inv(q) & inv_escrow(q) & inv_fixed(q) & totals_agree(q) & ongoing(q)
    I = I & (q.E('total_deposit') <= vmin(q.G('buyer_maximum_deposit_cap'), q.E('deposit_max_cap'))) & (is_prorata(q) | (q.P('total_deposit') <= q.P('presale_maximum_cap')))
    a = allowed_deposit(q)
    got = cond(is_fixed(q), quote_for(q, tokens_for(q, a)), a)
    I = I & (deposit_fee(q, got) >= 0) & (a >= 1) & (got >= 1) & (got <= a) & (q.E('total_deposit') + got >= q.G('buyer_minimum_deposit_cap'))
    x = str(q.arg(['max_amount', 0]))
    for n, m in (('prorata', is_prorata(q)), ('fcfs', is_fcfs(q)), ('fixed', is_fixed(q))):
        accepted(c, q, 'deposit-' + n, 'a deposit with room under every limit that reaches the buyer minimum is accepted', I & m, (x,))
    q = c.q('withdraw')
    x = q.arg(['max_amount', 0])
    I = inv(q) & inv_escrow(q) & inv_fixed(q) & totals_agree(q) & ongoing(q) & (q.E('total_deposit') <= q.G('buyer_maximum_deposit_cap')) & (x >= 1) & (x <= q.E('total_deposit'))
    left = q.E('total_deposit') - x
    accepted(c, q, 'withdraw-prorata', 'a pro-rata withdrawal leaving nothing or at least the buyer minimum is accepted',
             I & is_prorata(q) & (left.eq(0) | (left >= q.G('buyer_minimum_deposit_cap'))), (str(x),))
    out = cond(x.eq(q.E('total_deposit')), x, quote_for(q, tokens_for(q, x)))
    left = q.E('total_deposit') - out
    accepted(c, q, 'withdraw-fixed', 'so is a fixed-price one, unless withdrawal is disabled',
             I & is_fixed(q) & q.raw(16, 1).eq(0) & (out >= 1) & (out <= x) & (left.eq(0) | (left >= q.G('buyer_minimum_deposit_cap'))), (str(x),))
    for name, wm in zip(CREATE_ESCROW, (0, 2, 1)):
        q = c.q(name)
        idx, cap = q.E1('registry_index'), q.E1('deposit_max_cap')
        lo, hi = q.G('buyer_minimum_deposit_cap', idx), q.G('buyer_maximum_deposit_cap', idx)
        I = conj(inv(q), q.now >= 0, ongoing(q), q.P('whitelist_mode').eq(wm), idx < q.P('total_presale_registry_count'), hi >= 1, lo <= hi)
        if wm:
            I = conj(I, cap >= 1, cap >= lo, cap <= hi)
        accepted(c, q, 'open', 'an escrow with a valid registry and cap can be opened while the sale is open', I, ('arg.',))


# ---------------------------------------------------------------- C31
def at_most(c, q, key, text, a, *bounds, under=None, where=None):
    """obligation: a is at most one of the bounds whenever the instruction succeeds (and `under` holds); equality is tried first"""
    a, h = V.of(a), TR if under is None else under.n
    g = AND(q.R.g, h)
    for b in bounds:
        b = V.of(b)
        pr = theory.normal_pair(g, a.n, b.n) if g != F else None
        if pr is None or prove_equal(g, pr[0], pr[1], h).ok:
            return c.record(q, key, text, True)
        v = theory.prove(g, (a <= b).n, hint=h)
        if v.ok:
            break
    return c.record(q, key, text, v.ok, 'found %s, allowed %s; %s' % (a, b, v.text()), where)


def at_most_per(c, q, key, text, a, b, under):
    """at_most by cases on the number of registries and the mode"""
    bad = []
    n = q.P('total_presale_registry_count')
    c.need(q, key + '-cases', 'case distinction is complete', conj(n >= 1, n <= 5, mode(q) <= 2), under)
    xg, xu, xa = theory.expand_node(q.R.g), theory.expand_node(under.n), theory.expand_node(a.n)
    for k, m, sub in cases(q):
        gk = AND(theory.subst_many(xg, sub), theory.subst_many(xu, sub))
        if gk == F:
            continue
        ak = theory.subst_many(xa, sub)
        bk = theory.subst_many(theory.expand_node(b(k, m).n), sub)
        pr = theory.normal_pair(gk, ak, bk)
        if pr is None or prove_equal(gk, pr[0], pr[1]).ok:
            continue
        v = theory.prove(gk, (V(ak) <= V(bk)).n)
        if not v.ok:
            bad.append('%d registries, mode %d: found %s, allowed %s; %s' % (k, m, V(ak), V(bk), v.text()))
            break
    return c.record(q, key, text, not bad, '; '.join(bad))


def received(q, m, x):
    """the movement's amount, less the mint's transfer fee, is at least x"""
    i = mint_index(m['mint'])
    if i is None:
        return BF
    has = fee_terms(q, i, x)
    return gross_up_ok(q, m, x) | (~has & (m['amount'] >= x)) | (has & (m['amount'] - calc('calculate_fee', i, m['amount']) >= x))


# what the amounts owed are computed from, besides the totals: never changes
BASIS = {'Presale': ['quote_mint', 'base_mint', 'base_token_vault', 'quote_token_vault', 'presale_mode', 'presale_maximum_cap', 'presale_minimum_cap', 'presale_supply',
                     'total_presale_registry_count', 'presale_mode_raw_data', 'presale_registries.[].presale_supply', 'presale_registries.[*]'],
         'Escrow': ['presale', 'registry_index']}
TOTALS = [('Presale', 'total_deposit'), ('Presale', 'total_deposit_fee'), ('Presale', 'presale_registries.[].total_deposit'), ('Presale', 'presale_registries.[].total_deposit_fee')]


def c31(c):
    """one-sided conservation obligations per instruction; the sum over all escrows and histories is the lemma in DESIGN.md"""
    # creation: the vaults are the presale's own, and hold the supply from the start
    q = c.q('initialize_presale')
    ms = q.token_moves()
    c.need(q, 'funded', 'a presale is created only together with a payment into its base vault', disj(*[m['g'] for m in ms]))
    one_at_most(c, q, ms)
    for m in ms:
        loc = c.site(m['e'])
        c.need(q, 'funded-vault', 'paid into the recorded base vault in the recorded base mint',
               (m['dest'].eq(q.P1('base_token_vault')) if m['dest'] is not None else BF) & m['mint'].eq(q.P1('base_mint')), m['g'], loc)
        c.need(q, 'funded-amount', 'so that the vault receives at least the presale supply', received(q, m, q.P1('presale_supply')), m['g'], loc)
    s = V.of(0)
    for i in range(5):
        s = s + q.final('Presale', 'presale_registries', i, 'presale_supply')
    at_most(c, q, 'supply', 'the registries promise no more than the presale supply', s, q.P1('presale_supply'))
    for side in ('base', 'quote'):
        c.need(q, side + '-vault', 'no other presale uses this %s vault' % side, q.P1(side + '_token_vault').eq(q.pda(side.encode() + b'_vault', q.key('Presale'))))
    auth = program_authority(c)
    for e in q.effects('initialize_account3'):
        c.need(q, 'vault-authority', 'only the program can move tokens out of the vaults', V(q._key(e['accts']['authority'])).eq(auth), B(e['g']), c.site(e))
    for f in ('total_deposit', 'total_deposit_fee'):
        c.same(q, 'start-' + f, 'nothing is owed for deposits at creation', q.P1(f), 0)
        for i in range(5):
            c.same(q, 'start-' + f, 'nothing is owed for deposits at creation', q.final('Presale', 'presale_registries', i, f), 0)
    # the sale: what is promised is backed by what came in
    for name in ('deposit', 'withdraw'):
        q = c.q(name)
        I = inv(q) & inv_escrow(q) & inv_fixed(q)
        d = deltas(q)
        for x in ('', '_fee'):
            at_most(c, q, 'escrow' + x, 'the escrow\'s claim on its registry grows no more than the registry\'s total', d['escrow' + x], d['registry' + x], under=I)
            at_most(c, q, 'registry' + x, 'the registry\'s claim on the presale grows no more than the presale\'s total', d['registry' + x], d['presale' + x], under=I)
        c.need(q, 'before-end', 'only before the presale end, so never after a payout', q.now < q.P('presale_end_time'), I)
        ms = q.token_moves()
        one_at_most(c, q, ms)
        owed = d['presale'] + d['presale_fee']
        if name == 'deposit':
            c.need(q, 'collected', 'a deposit always collects', disj(*[m['g'] for m in ms if m['seeds'] == []]), I)
            for m in ms:
                loc = c.site(m['e'])
                c.must(q, 'direction', 'a deposit only pays in', m['seeds'] == [], m['kind'], loc)
                c.need(q, 'collected-vault', 'paid into the quote vault in the quote mint',
                       (m['dest'].eq(q.P('quote_token_vault')) if m['dest'] is not None else BF) & m['mint'].eq(q.P('quote_mint')), m['g'], loc)
                c.need(q, 'collected-amount', 'the vault receives at least what is added to deposits and fees', received(q, m, owed), m['g'] & I, loc)
        else:
            at_most(c, q, 'returned', 'a withdrawal pays no more than it takes off deposits and fees', q.total(ms), 0 - owed, under=I)
            pays_from(c, q, ms, 'quote', I)
        for o, f in TOTALS[2:]:
            idx = pstr(VAL[q.ridx.n])
            bad = [x for x in changed(q, o, f) if '[%s]' % idx not in x]
            c.must(q, 'other-registry', 'only the registry of the escrow changes', not bad, ', '.join(bad))
    # after the end
    q = c.q('creator_withdraw')
    ms = q.token_moves()
    one_at_most(c, q, ms)
    c.need(q, 'ended', 'the creator is paid only after the end', ended(q), inv(q))
    for m in ms:
        loc = c.site(m['e'])
        for side, u, lim in (('quote', cap_met(q), vmin(q.P('total_deposit'), q.P('presale_maximum_cap'))), ('base', ~cap_met(q), q.P('presale_supply'))):
            c.need(q, side + '-source', 'paid from the %s vault' % side, m['source'].eq(q.P(side + '_token_vault')), m['g'] & inv(q) & u, loc)
            at_most(c, q, side + '-amount', 'the creator gets at most the raised amount, or the supply back', m['amount'], lim, under=m['g'] & inv(q) & u, where=loc)
    q = c.q('creator_collect_fee')
    ms = q.token_moves()
    one_at_most(c, q, ms)
    c.need(q, 'success', 'fees are collected only after success', succeeded(q), inv(q))
    pays_from(c, q, ms, 'quote', inv(q))
    at_most_per(c, q, 'fees', 'the creator collects at most the fees not owed back to buyers', q.total(ms), lambda k, m: fees_due(q, k, m), inv(q) & inv_registries(q))
    q = c.q('perform_unsold_base_token_action')
    ms = q.token_moves()
    one_at_most(c, q, ms)
    c.need(q, 'success', 'unsold tokens are disposed of only after success', succeeded(q), inv(q))
    for m in ms:
        c.need(q, 'source', 'taken from the base vault', m['source'].eq(q.P('base_token_vault')), m['g'] & inv(q), c.site(m['e']))
    at_most_per(c, q, 'unsold', 'at most the supply minus the tokens sold is removed', q.total(ms), lambda k, m: q.P('presale_supply') - total_sold(q, k, m),
                inv(q) & inv_fixed(q) & inv_registries(q))
    q = c.q('withdraw_remaining_quote')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    ms = q.token_moves()
    one_at_most(c, q, ms)
    d, f = refund(q)
    c.need(q, 'ended', 'refunds only after the end, of a failed or pro-rata presale', ended(q) & (~cap_met(q) | is_prorata(q)), I)
    pays_from(c, q, ms, 'quote', I)
    at_most(c, q, 'refund-failed', 'a failed presale refunds at most deposit plus fee', q.total(ms), q.E('total_deposit') + q.E('total_deposit_fee'), under=I & ~cap_met(q))
    at_most(c, q, 'refund-prorata', 'a pro-rata presale refunds at most the buyer\'s share of the excess and its fee', q.total(ms), d + f, under=I & cap_met(q))
    q = c.q('claim')
    I = inv(q) & inv_escrow(q) & inv_fixed(q)
    ms = q.token_moves()
    one_at_most(c, q, ms)
    c.need(q, 'success', 'tokens are claimed only after success', succeeded(q), I)
    pays_from(c, q, ms, 'base', I)
    at_most(c, q, 'claimed', 'what a claim pays is recorded as claimed', q.total(ms), q.E1('total_claimed_token') - q.E('total_claimed_token'), under=I)
    due = entitlement(q, q.now) - q.E('total_claimed_token')
    at_most(c, q, 'entitled', 'nobody claims more than the share of the tokens sold', q.total(ms), due, full_entitlement(q) - q.E('total_claimed_token'), under=I)
    for q in c.all():
        for e in q.I.effects:
            k = e['kind']
            if k not in KNOWN_EFFECTS and not k.startswith('sys.') and AND(e['g'], q.R.g) != F:
                c.must(q, 'effect', 'no other token operation is used', False, 'calls ' + k, c.site(e))
        if q.name not in PAYOUTS_ALL:
            for m in q.token_moves():
                c.must(q, 'other-payout', 'nothing else moves tokens', m['seeds'] == [], m['kind'], c.site(m['e']))
        for m in moves_out(q):
            if q.has('Presale'):
                side = (m['source'].eq(q.P('base_token_vault')) & m['mint'].eq(q.P('base_mint'))) | (m['source'].eq(q.P('quote_token_vault')) & m['mint'].eq(q.P('quote_mint')))
                c.need(q, 'own-vault', 'a payout comes from the vaults of the presale whose books it changes', side, m['g'], c.site(m['e']))
        for o, f in TOTALS:
            if q.has(o) and o not in q.inits() and q.name not in ('deposit', 'withdraw'):
                ch = [x for x in changed(q, o, f) if not c_unchanged(q, o, x)]
                c.must(q, 'totals', '%s.%s is changed only by deposit and withdraw' % (o, f), not ch, ', '.join(ch))
        if q.has('Presale') and 'Presale' not in q.inits():
            c.need(q, 'end-kept', 'the end does not move once it has passed', q.P1('presale_end_time').eq(q.P('presale_end_time')), inv(q) & ended(q))
        if q.has('Escrow') and 'Escrow' in q.inits():
            for f in ('total_deposit', 'total_deposit_fee'):
                c.same(q, 'new-escrow', 'a new escrow is owed nothing', q.E1(f), 0)
        elif q.has('Escrow'):
            c.need(q, 'escrow-of-presale', 'an escrow is paid only by its own presale', q.E('presale').eq(q.key('Presale')))
            c.need(q, 'claimed-kept', 'what was claimed stays recorded', q.E1('total_claimed_token') >= q.E('total_claimed_token'), inv(q) & inv_escrow(q) & inv_fixed(q))
            if q.name not in ('deposit', 'withdraw'):
                for f in ('total_deposit', 'total_deposit_fee'):
                    at_most(c, q, 'escrow-' + f, 'nothing else adds to what an escrow is owed', q.E1(f), q.E(f))
        for o, fs in BASIS.items():
            if q.has(o) and o not in q.inits():
                for f in fs:
                    ch = [x for x in changed(q, o, f) if not c_unchanged(q, o, x)]
                    c.must(q, 'basis', '%s.%s is not changed' % (o, f), not ch, ', '.join(ch))
        # one-shot payouts
        for n, o, f in FLAGS:
            if q.has(o) and o not in q.inits():
                c.need(q, f + '-kept', 'a recorded payout stays recorded', q.final(o, f).eq(1), q.init(o, f).eq(1))
            if q.name == n:
                c.need(q, f + '-before', 'paid only if not recorded before', q.init(o, f).eq(0), q.init(o, f) <= 1)
                c.same(q, f + '-after', 'the payout is recorded', q.final(o, f), 1, q.init(o, f) <= 1)
        for e, o in q.closes():
            c.must(q, 'close', 'a presale account is never closed', o != 'Presale', 'closes a Presale', c.site(e))


PAYOUTS_ALL = ('deposit', 'withdraw', 'creator_withdraw', 'creator_collect_fee', 'perform_unsold_base_token_action', 'withdraw_remaining_quote', 'claim', 'initialize_presale')


# ---------------------------------------------------------------- C37
def c37(c):
    """administration that C27 permits is accepted and takes effect"""
    T0 = lambda q: q.now >= 0
    for n in ('create_operator', 'revoke_operator'):
        q = c.q(n)
        accepted(c, q, 'operator', 'can be done at any time', T0(q), ('arg.',))
    q = c.q('create_merkle_root_config')
    accepted(c, q, 'create-root', 'a Merkle root can be registered until the end', inv(q) & T0(q) & q.P('whitelist_mode').eq(1) & ~ended(q), ('arg.',))
    q = c.q('create_permissioned_server_metadata')
    accepted(c, q, 'create-metadata', 'server metadata can be registered until the end', inv(q) & T0(q) & (q.P('whitelist_mode') >= 1) & ~ended(q), ('arg.',))
    q = c.q('close_merkle_root_config')
    accepted(c, q, 'close-root', 'a Merkle root can be closed whenever the sale is not ongoing', inv(q) & T0(q) & ~ongoing(q), ('arg.', 'MerkleRootConfig.'))
    q = c.q('close_permissioned_server_metadata')
    accepted(c, q, 'close-metadata', 'server metadata can be closed at any time', inv(q) & T0(q), ('arg.',))
    q = c.q('close_fixed_price_presale_args')
    accepted(c, q, 'close-args', 'a fixed-price argument account can be closed at any time', T0(q), ('arg.',))
    for n, o in (('revoke_operator', 'Operator'), ('close_merkle_root_config', 'MerkleRootConfig'), ('close_permissioned_server_metadata', 'PermissionedServerMetadata'),
                 ('close_fixed_price_presale_args', 'FixedPricePresaleExtraArgs'), ('close_escrow', 'Escrow')):
        q = c.q(n)
        c.need(q, 'closed', 'the account is gone afterwards', disj(*[B(e['g']) for e in closes_of(q, o)]))


# ---------------------------------------------------------------- C38
FROZEN = ['total_deposit', 'total_deposit_fee', 'presale_minimum_cap', 'presale_maximum_cap', 'presale_start_time', 'presale_end_time', 'presale_supply', 'presale_mode',
          'vesting_start_time', 'vesting_end_time', 'vest_duration', 'lock_duration', 'immediate_release_timestamp', 'immediate_release_bps', 'unsold_token_action']


def c38(c):
    """once ended, a presale's outcome and everything shares are computed from are frozen"""
    n = 0
    for q in c.all():
        if not q.has('Presale') or 'Presale' in q.inits():
            continue
        U = inv(q) & ended(q)
        for f in FROZEN:
            n += 1
            if changed(q, 'Presale', f):
                c.same(q, f, f + ' does not change after the end', q.P1(f), q.P(f), U)
        for f in ('total_deposit', 'total_deposit_fee', 'presale_supply'):
            for x in changed(q, 'Presale', 'presale_registries.[].' + f):
                ini, fin, ty = q.changes[('Presale', x)]
                c.same(q, 'registry-' + f, 'the registry\'s %s does not change after the end' % f, V(fin), V(ini), U) if isinstance(ini, int) and isinstance(fin, int) else \
                    c.must(q, 'registry-' + f, 'the registry\'s %s does not change after the end' % f, False, x)
        whole = [k for k in q.changes if k[0] == 'Presale' and (k[1] == '' or k[1].endswith('[*]') or '@' in k[1])]
        c.must(q, 'whole', 'neither the registries nor the mode\'s settings are overwritten', all(theory.prove(AND(q.R.g, U.n), F).ok for k in whole), str(whole))
        if q.has('Escrow') and 'Escrow' not in q.inits():
            for f in ('total_deposit', 'total_deposit_fee'):
                n += 1
                if changed(q, 'Escrow', f):
                    c.same(q, 'escrow-' + f, 'the escrow\'s %s does not change after the end' % f, q.E1(f), q.E(f), U & inv_escrow(q))
        if 'Escrow' in q.inits():
            c.need(q, 'no-new-escrow', 'no escrow is opened after the end', ~ended(q), inv(q))
        # before the end: the end may only move to the present, never later, and the outcome of an ended presale is final
        c.need(q, 'end-earlier', 'the end never moves later, nor before the present', (q.P1('presale_end_time') <= q.P('presale_end_time')) &
               ((q.P1('presale_end_time') >= q.now) | q.P1('presale_end_time').eq(q.P('presale_end_time'))), inv(q))
        # ... so whether a payout is made after the end, and how much, hangs on nothing that still moves but its own record
        own = OUTCOME.get(q.name)
        if own is not None:
            n += 1
            U = U & inv_escrow(q) if q.has('Escrow') else U
            bad = []
            for v in sorted(support(q.R.g)):
                if not moving(gstr(litnode(v), 400), own):
                    continue
                l = litnode(v)
                c1, c0 = exists(AND(q.R.g, l), {v}), exists(AND(q.R.g, NOT(l)), {v})
                d = AND(U.n, ite(c1, NOT(c0), c0))
                if not (theory.prove(AND(d, l), F).ok or theory.prove(AND(d, NOT(l)), F).ok):
                    bad.append(gstr(l, 400))
            for e in [m['e'] for m in moves_out(q)]:
                if AND(AND(e['g'], q.R.g), U.n) == F or not isinstance(e.get('amount'), int):
                    continue
                am = restrict(e['amount'], AND(AND(e['g'], q.R.g), U.n))
                bad += [x for x in [vstr(t) for t in leafset(am)] + [gstr(litnode(v), 400) for v in support(am)] if moving(x, own)]
            c.must(q, 'outcome', 'whether and how much is paid after the end depends on nothing that still changes then', not bad, '; '.join(bad[:3]))
    c.must(None, 'instances', 'instructions on an existing presale were found', n > 150, str(n))


# payouts after the end -> the one record of the presale each may consult
OUTCOME = {'claim': '', 'withdraw_remaining_quote': '', 'creator_withdraw': 'has_creator_withdrawn', 'creator_collect_fee': 'deposit_fee_collected',
           'perform_unsold_base_token_action': 'is_unsold_token_action_performed'}


def moving(s, own):
    return any(x != own for x in re.findall(r'\bPresale\.(?:presale_registries\.\[[^\]]*\]\.)?(total_escrow|total_claimed_token|total_refunded_quote_token|has_creator_withdrawn|'
                                            r'deposit_fee_collected|is_unsold_token_action_performed)\b', s))



# ---------------------------------------------------------------- C39
WIRE = {
    'initialize_fixed_price_presale_args': 'presale:32 disable_withdraw:1 q_price:16 padding:64',
    'close_fixed_price_presale_args': '',
    'initialize_presale': 'presale_maximum_cap:8 presale_minimum_cap:8 presale_start_time:8 presale_end_time:8 whitelist_mode:1 presale_mode:1 unsold_token_action:1 '
                          'disable_earlier_presale_end_once_cap_reached:1 padding:30 immediately_release_bps:2 lock_duration:8 vest_duration:8 immediate_release_timestamp:8 padding:24 padding:32 '
                          'presale_registries( buyer_minimum_deposit_cap:8 buyer_maximum_deposit_cap:8 presale_supply:8 deposit_fee_bps:2 padding:32 ) slices( accounts_type:e1 length:1 )',
    'create_merkle_root_config': 'root:32 version:8',
    'close_merkle_root_config': '',
    'create_permissionless_escrow': '',
    'create_permissioned_escrow_with_creator': 'registry_index:1 deposit_cap:8 padding:32',
    'create_permissioned_escrow_with_merkle_proof': 'proof( :32 ) registry_index:1 deposit_cap:8 padding:32',
    'create_operator': '', 'revoke_operator': '',
    'deposit': 'max_amount:8 slices( accounts_type:e1 length:1 )',
    'withdraw': 'amount:8 slices( accounts_type:e1 length:1 )',
    'claim': 'slices( accounts_type:e1 length:1 )',
    'withdraw_remaining_quote': 'slices( accounts_type:e1 length:1 )',
    'perform_unsold_base_token_action': 'slices( accounts_type:e1 length:1 )',
    'close_escrow': '', 'refresh_escrow': '',
    'creator_withdraw': 'slices( accounts_type:e1 length:1 )',
    'creator_collect_fee': 'slices( accounts_type:e1 length:1 )',
    'create_permissioned_server_metadata': 'vec( :1 )',
    'close_permissioned_server_metadata': '',
}
SIZES = {'Presale': 1264, 'Escrow': 192, 'FixedPricePresaleExtraArgs': 160, 'MerkleRootConfig': 144, 'Operator': 128, 'PresaleRegistry': 160}
WIDTHS = {'Presale': dict(owner=32, quote_mint=32, base_mint=32, base_token_vault=32, quote_token_vault=32, base=32, presale_mode=1, whitelist_mode=1, deposit_fee_collected=1,
                          has_creator_withdrawn=1, base_token_program_flag=1, quote_token_program_flag=1, total_presale_registry_count=1, unsold_token_action=1,
                          is_unsold_token_action_performed=1, immediate_release_bps=2, presale_mode_raw_data=48, presale_registries=800),
          'PresaleRegistry': dict(deposit_fee_bps=2), 'Escrow': dict(presale=32, owner=32, is_remaining_quote_withdrawn=1, registry_index=1),
          'FixedPricePresaleExtraArgs': dict(disable_withdraw=1, q_price=16, owner=32, presale=32), 'MerkleRootConfig': dict(root=32, presale=32), 'Operator': dict(owner=32, creator=32)}
CODES = {'PresaleMode': dict(FixedPrice=0, Prorata=1, Fcfs=2), 'WhitelistMode': dict(Permissionless=0, PermissionWithMerkleProof=1, PermissionWithAuthority=2),
         'UnsoldTokenAction': dict(Refund=0, Burn=1), 'TokenProgramFlags': dict(SplToken=0, SplToken2022=1), 'AccountsType': dict(TransferHookBase=0, TransferHookQuote=1)}


def wire(prog, tid, name=''):
    """borsh encoding of a type as [(name, width or nested list)]"""
    t = prog.TY[tid]
    if t['k'] == 'struct':
        if re.match(r'(std|alloc)::vec::Vec<', t['name']):
            return [(name, wire(prog, t['ga'][0]))]
        r = []
        for n, ft in t['vs'][0]['fs']:
            r += wire(prog, ft, name if n == '0' else n)
        return r
    if t['k'] == 'enum':
        return [(name, 'e1')]
    return [(name, str(t.get('sz')))]


def wire_spec(words):
    r = []
    while words:
        w = words.pop(0)
        if w == ')':
            return r
        if w.endswith('('):
            r.append((w[:-1], wire_spec(words)))
        else:
            r.append(tuple(w.split(':')))
    return r


def flat_wire(x):
    for n, w in x:
        if isinstance(w, list):
            yield n, '('
            yield from flat_wire(w)
            yield '', ')'
        else:
            yield n, w


EXPLAIN = {'C39': 'Comparison of the type definitions of the current tree, as laid out by rustc (offsets, sizes, discriminants of the account and enum types, field sequence of the '
                  'instruction argument types), with the recorded byte format; every account type, coded enum and instruction is one or more obligations.'}


def c39(c):
    """layout of stored accounts and of instruction data"""
    prog = c.prog
    for s, fs in LAYOUT.items():
        t = prog.TY[struct_ty(prog, s)]
        have = {n: (t['off'][i], prog.TY[ft].get('sz')) for i, (n, ft) in enumerate(t['vs'][0]['fs'])}
        at = {o: (n, w) for n, (o, w) in have.items() if w}
        c.must(None, s + '-size', '%s takes %d bytes' % (s, SIZES[s]), t.get('sz') == SIZES[s], 'takes %s bytes' % t.get('sz'), t['name'])
        for f, off in fs.items():
            w = WIDTHS[s].get(f, 8)
            if f in have:
                ok, why = have[f] == (off, w), 'found at byte %s, %s bytes wide' % have[f]
            else:
                ok = off in at and at[off][1] == w and at[off][0] not in fs
                why = 'no field of that width at that place'
            c.must(None, '%s.%s' % (s, f), '%s.%s is stored at byte %d, %d bytes wide' % (s, f, off, w), ok, why, t['name'])
    t = struct_ty(prog, 'PermissionedServerMetadata')
    got = [x for x in flat_wire(wire(prog, t))]
    c.must(None, 'metadata', 'server metadata is the presale, padding and the url', [w for _, w in got] == ['32', '128', '(', '1', ')'], str(got))
    for e, codes in CODES.items():
        ts = [t for t in prog.TY if t['k'] == 'enum' and tyshort(t['name']) == e]
        for t in ts[:1]:
            have = {v['n']: int(v['d']) for v in t['vs']}
            for n, d in codes.items():
                c.must(None, '%s::%s' % (e, n), 'code %d stands for %s' % (d, n), have.get(n, d) == d, 'is %s' % have.get(n), t['name'])
    for name in c.names():
        if name not in WIRE:
            continue
        st = [i for i, t in enumerate(prog.TY) if t['k'] == 'struct' and t['name'] == 'instruction::' + ''.join(x.capitalize() for x in name.split('_'))]
        if not st:
            raise Anchor('no argument type of instruction %s' % name)
        want = list(flat_wire(wire_spec(WIRE[name].split())))
        got = list(flat_wire(wire(prog, st[0])))
        ok = [w for _, w in want] == [w for _, w in got]
        names = {n for n, _ in want if n != 'padding'}
        if ok:
            ok = all(a == b or b not in names for (a, w), (b, _) in zip(want, got) if w not in '()' and a != 'padding')
        c.must(None, 'data-' + name, 'the data of %s is encoded as before' % name, ok, 'found %s' % ' '.join('%s:%s' % x for x in got), name)
    q = c.q('initialize_presale')
    mode_settings(c, q, init_args(q)[0])
    missing = [n for n in WIRE if n not in c.names()]
    c.must(None, 'instructions', 'every instruction exists', not missing, ', '.join(missing))



class Conditions:
    """stands in for Ctx to read off the conditions a rule demands of an instruction, without checking them"""

    def __init__(self, c, name):
        self.c = c
        self.name = name
        self.found = []

    def q(self, name):
        return self.c.q(name)

    def all(self):
        return []

    def must(self, *a, **k):
        pass

    def need(self, q, key, text, phi, under=None, where=None):
        if q.name == self.name:
            self.found.append((key, phi if under is None else under >> phi))

    def same(self, q, key, text, a, b, under=None, where=None):
        self.need(q, key, text, V.of(a).eq(V.of(b)), under)


def c36(c):
    q = c.q('initialize_presale')
    k = Conditions(c, q.name)
    c19(k)
    A, L, R, n = init_args(q)
    fixed, price = A('presale_mode').eq(FIXED), fixed_arg(q, 'q_price')
    W = conj(q.now >= 0, fixed >> (price >= 1), sum((cond(n > i, R(i, 'presale_supply'), 0) for i in range(5)), V.of(0)) <= U64)
    for key, phi in k.found:
        if key != 'fixed-args':      # which account holds the price is not the configuration's business
            W = W & phi
    for i in range(1, 6):
        for m, nm in ((FIXED, 'fixed'), (PRORATA, 'prorata'), (FCFS, 'fcfs')):
            accepted(c, q, 'valid-%s-%d' % (nm, i), 'every valid configuration with %d registries is accepted' % i, W & n.eq(i) & A('presale_mode').eq(m), ('arg.', 'FixedPricePresaleExtraArgs.'))
    wide_products(c, ['initialize_presale'])
    q = c.q('initialize_fixed_price_presale_args')
    W = (q.arg(['params', 0], ['q_price', None]) >= 1) & (q.arg(['params', 0], ['disable_withdraw', None]) <= 1)
    accepted(c, q, 'price', 'every positive price with a known withdraw flag is accepted', W, ('arg.',))


def soundness(c):
    """thorough tier: every instruction is analysed, whichever the property needs"""
    for q in c.all():
        c.must(q, 'analysed', 'the instruction can succeed and was analysed', q.ok)
