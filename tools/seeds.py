#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ from this list, and (with --verify) confirms each
in a scratch copy of /repo: builds, stable tests pass, demo passes without and fails with it."""
import os, sys, shutil, subprocess, json, difflib
B = 'programs/presale/src/'; I = B + 'instructions/'; M = 'merkle-tree/src/'; H = B + 'presale_mode_handler/'
HEAD = 'mod sim;\n#[allow(unused_imports)]\nuse sim::*;\n#[allow(unused_imports)]\nuse anchor_lang::prelude::*;\nfn must(c: bool, m: &str) { if !c { println!("PROPERTY BROKEN: {m}"); std::process::exit(1) } }\n'
S = {}
def seed(id, prop, needs, breaks, edits, main): S[id] = (prop, needs, breaks, edits, HEAD + main)

seed('end-instant', 'C01', 'a deposit in exactly the second the sale ends',
 'the sale still counts as open at the end instant, so buyers can deposit when it is over',
 [(B+'state/presale.rs', '} else if current_timestamp < self.presale_end_time {', '} else if current_timestamp <= self.presale_end_time {')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 0, vec![reg(1_000_000, 10, 500_000, 0)]));
    let b = w.open(&s, 1);
    w.set_time(T0 + 999);
    must(w.deposit(&s, &b, 2000).is_ok(), "deposit in the last second");
    w.set_time(T0 + 1000);
    must(w.deposit(&s, &b, 2000).is_err(), "deposit at the end instant");
}''')

seed('collect-fee-failed', 'C02', 'a failed presale whose creator collects the fee before the buyers are refunded',
 'fees of a failed presale, owed back to the buyers, can be taken by the creator',
 [(I+'process_creator_collect_fee.rs', 'presale_progress == PresaleProgress::Completed && !presale.is_deposit_fee_collected()',
   '!matches!(presale_progress, PresaleProgress::NotStarted | PresaleProgress::Ongoing)\n        && !presale.is_deposit_fee_collected()')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(2, 0, vec![reg(1_000_000, 10, 500_000, 500)]));
    let b = w.open(&s, 1);
    must(w.deposit(&s, &b, 900).is_ok(), "deposit");
    w.set_time(T0 + 1000);
    let r = w.collect_fee(&s);
    must(w.refund(&s, &b).is_ok(), "refund of a failed presale");
    must(r.is_err(), "fee collected from a failed presale");
}''')

seed('creator-overpay', 'C03', 'an oversubscribed pro-rata presale', 
 'the creator withdraws all deposits, including the excess owed back to buyers',
 [(I+'process_creator_withdraw.rs', '''                // Prorata can have total_deposit > presale_maximum_cap
                presale.total_deposit.min(presale.presale_maximum_cap),''',
 '''                presale
                    .total_deposit
                    .max(presale.presale_minimum_cap)
                    .min(quote_token_vault.amount),''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 0, vec![reg(1_000_000, 10, 900_000, 0)]));
    let a = w.open(&s, 1);
    let b = w.open(&s, 2);
    w.deposit(&s, &a, 900_000).unwrap();
    w.deposit(&s, &b, 900_000).unwrap();
    w.set_time(T0 + 1000);
    w.creator_withdraw(&s, s.creator_quote, s.quote_vault, s.quote_mint).unwrap();
    must(w.balance(&s.creator_quote) == 1_000_000, "creator is paid the cap");
}''')

seed('refund-twice', 'C04', 'a second refund of the same escrow in a failed presale',
 'in a failed presale the refund is not recorded for escrows that also paid a deposit fee, so it can be repeated',
 [(I+'process_withdraw_remaining_quote.rs', '    escrow.update_remaining_quote_withdrawn()?;\n',
   '''    if refund_deposit_amount < escrow.total_deposit || escrow.total_deposit_fee == 0 {
        escrow.update_remaining_quote_withdrawn()?;
    }
''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 0, vec![reg(1_000_000, 10, 500_000, 500)]));
    let a = w.open(&s, 1);
    let b = w.open(&s, 2);
    w.deposit(&s, &a, 400).unwrap();
    w.deposit(&s, &b, 500).unwrap();
    w.set_time(T0 + 1000);
    must(w.refund(&s, &a).is_ok(), "first refund");
    must(w.refund(&s, &a).is_err(), "second refund");
}''')

seed('empty-escrow-fee', 'C05', 'withdrawing a whole deposit that paid a fee',
 'emptying an escrow forgets the fee it paid, while registry and presale still count it',
 [(B+'state/escrow.rs', '''        self.total_deposit = self.total_deposit.safe_sub(amount)?;
        Ok(())''', '''        self.total_deposit = self.total_deposit.safe_sub(amount)?;
        if self.total_deposit == 0 {
            self.total_deposit_fee = 0;
        }
        Ok(())''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 0, vec![reg(1_000_000, 10, 500_000, 500)]));
    let a = w.open(&s, 1);
    w.deposit(&s, &a, 4000).unwrap();
    w.withdraw(&s, &a, 1000).unwrap();
    must(w.escrow(&a.escrow).total_deposit_fee == w.presale(&s.presale).total_deposit_fee, "fees after partial withdrawal");
    w.withdraw(&s, &a, 3000).unwrap();
    must(w.escrow(&a.escrow).total_deposit_fee == w.presale(&s.presale).total_deposit_fee, "fees after full withdrawal");
}''')

seed('registry-lockstep', 'C05', 'a withdrawal by a buyer of a registry other than the first',
 "the withdrawn amount is subtracted from the first registry instead of the escrow's",
 [(B+'state/presale.rs', '''        let presale_registry = self.get_presale_registry_mut(escrow.registry_index.into())?;
        presale_registry.withdraw(escrow, amount)?;
''', '''        let registry_index = if escrow.total_deposit == amount {
            DEFAULT_PERMISSIONLESS_REGISTRY_INDEX
        } else {
            escrow.registry_index
        };
        let presale_registry = self.get_presale_registry_mut(registry_index.into())?;
        presale_registry.withdraw(escrow, amount)?;
''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 2, vec![reg(1_000_000, 1, 1_000_000, 0), reg(1_000_000, 1, 1_000_000, 0)]));
    let op = w.operator(&s, 0);
    let mut a = w.buyer(&s, 1);
    let mut b = w.buyer(&s, 2);
    w.open_auth(&s, &mut a, op, 0, 500_000).unwrap();
    w.open_auth(&s, &mut b, op, 1, 500_000).unwrap();
    w.deposit(&s, &a, 4000).unwrap();
    w.deposit(&s, &b, 3000).unwrap();
    w.withdraw(&s, &b, 3000).unwrap();
    let p = w.presale(&s.presale);
    must(p.presale_registries[0].total_deposit == 4000 && p.presale_registries[1].total_deposit == 0, "registry totals");
}''')

seed('fee-round-down', 'C06', 'a deposit whose fee is not a whole number of lamports',
 'the deposit fee is rounded down, so less than the configured rate is charged',
 [(B+'state/presale_registry.rs', 'self.deposit_fee_bps, Rounding::Up)', 'self.deposit_fee_bps, Rounding::Down)')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 0, vec![reg(1_000_000, 10, 500_000, 500)]));
    let a = w.open(&s, 1);
    for d in [190u64, 191, 192, 199, 12345] {
        let f0 = w.escrow(&a.escrow).total_deposit_fee;
        w.deposit(&s, &a, d).unwrap();
        let fee = w.escrow(&a.escrow).total_deposit_fee - f0;
        must(fee * 10_000 >= 500 * (d + fee), "fee reaches the configured rate");
    }
}''')

seed('personal-cap', 'C07', 'a whitelisted buyer with a personal cap below the registry maximum in a pro-rata presale',
 'the personal cap is ignored for pro-rata deposits',
 [(B+'presale_mode_handler/prorata_presale.rs', '''        escrow.get_remaining_deposit_quota(presale_registry.buyer_maximum_deposit_cap)
''', '''        Ok(presale_registry
            .buyer_maximum_deposit_cap
            .saturating_sub(escrow.total_deposit))
''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 2, vec![reg(1_000_000, 1, 1_000_000, 0)]));
    let op = w.operator(&s, 0);
    let mut a = w.buyer(&s, 1);
    w.open_auth(&s, &mut a, op, 0, 5000).unwrap();
    let _ = w.deposit(&s, &a, 3000);
    let _ = w.deposit(&s, &a, 4000);
    must(w.escrow(&a.escrow).total_deposit <= 5000, "personal cap");
}''')

seed('withdraw-below-min', 'C08', 'a partial withdrawal that would leave less than the buyer minimum',
 'the buyer range is checked before the withdrawal instead of after it',
 [(I+'process_withdraw.rs', '''    // 5. Update escrow and presale state
    presale_mode_handler.process_withdraw(&mut presale, &mut escrow, suggested_withdraw_amount)?;

    let presale_registry = presale.get_presale_registry(escrow.registry_index.into())?;
    presale_registry.validate_escrow_deposit(&escrow)?;
''', '''    // 5. Update escrow and presale state
    let presale_registry = presale.get_presale_registry(escrow.registry_index.into())?;
    presale_registry.validate_escrow_deposit(&escrow)?;

    presale_mode_handler.process_withdraw(&mut presale, &mut escrow, suggested_withdraw_amount)?;
''')], '''
fn main() {
    for mode in 0..2 {
        let mut w = World::new();
        let s = w.sale(0, &Cfg::new(mode, 0, vec![reg(1_000_000, 100, 500_000, 0)]));
        let a = w.open(&s, 1);
        w.deposit(&s, &a, 5000).unwrap();
        let _ = w.withdraw(&s, &a, 4950);
        let d = w.escrow(&a.escrow).total_deposit;
        must(d == 0 || d >= 100, "buyer minimum after withdrawal");
    }
}''')

seed('double-claim', 'C09', 'a refresh between release and claim (refresh, refresh, claim)',
 'tokens already pending are accumulated again by a second refresh in fixed-price presales',
 [(B+'presale_mode_handler/fixed_price_presale.rs', '.safe_sub(escrow.sum_claimed_and_pending_claim_amount()?)?;', '.safe_sub(escrow.total_claimed_token)?;')], '''
fn main() {
    for mode in 0..3 {
        let mut w = World::new();
        let s = w.sale(0, &Cfg::new(mode, 0, vec![reg(1_000_000, 100, 500_000, 0)]));
        let a = w.open(&s, 1);
        let b = w.open(&s, 2);
        w.deposit(&s, &a, 5000).unwrap();
        w.deposit(&s, &b, 5000).unwrap();
        w.set_time(T0 + 1000);
        w.refresh(&s, &a).unwrap();
        let _ = w.refresh(&s, &a);
        let _ = w.claim(&s, &a);
        let want = if mode == 0 { 5000 } else { 500_000 };
        must(w.balance(&a.base) == want, "claim after two refreshes");
    }
}''')

seed('vest-before-lock', 'C10', 'a claim between the immediate release and the end of a long lock',
 'the vested part starts to drip at the end of the lock only if there is vesting; with lock only it is released at once',
 [(B+'math/claim_math.rs', '''    if current_timestamp < vesting_start_time {
        return Ok(0);''', '''    if current_timestamp < vesting_start_time && vest_duration > 0 {
        return Ok(0);''')], '''
fn main() {
    let mut w = World::new();
    let mut c = Cfg::new(2, 0, vec![reg(1_000_000, 100, 500_000, 0)]);
    c.vest.immediately_release_bps = 1000;
    c.vest.lock_duration = 500;
    c.vest.immediate_release_timestamp = T0 as u64 + 1000;
    let s = w.sale(0, &c);
    let a = w.open(&s, 1);
    w.deposit(&s, &a, 5000).unwrap();
    w.set_time(T0 + 1100);
    w.claim(&s, &a).unwrap();
    must(w.balance(&a.base) == 100_000, "only the immediate part during the lock");
    w.set_time(T0 + 1500);
    w.claim(&s, &a).unwrap();
    must(w.balance(&a.base) == 1_000_000, "everything after the lock");
}''')

seed('round-release-up', 'C11', 'deposits whose share of the released tokens is not whole',
 'the released share of a buyer is rounded up, so the sum of shares can exceed the vault',
 [(B+'math/claim_math.rs', '''        .safe_mul(user_deposit.into())?
        .safe_div(total_deposit.into())?
        .safe_cast()?;

    Ok(user_immediate_release_token)''', '''        .safe_mul(user_deposit.into())?
        .div_ceil(total_deposit.into())
        .safe_cast()?;

    Ok(user_immediate_release_token)''')], '''
fn main() {
    let mut w = World::new();
    let mut c = Cfg::new(2, 0, vec![reg(1_000_001, 100, 500_000, 0)]);
    c.vest.immediately_release_bps = 10_000;
    c.vest.immediate_release_timestamp = T0 as u64 + 1000;
    let s = w.sale(0, &c);
    let bs: Vec<_> = (1..4).map(|i| w.open(&s, i)).collect();
    for b in &bs { w.deposit(&s, b, 5000).unwrap(); }
    w.set_time(T0 + 1000);
    for b in &bs { must(w.claim(&s, b).is_ok(), "every buyer can claim"); }
    must(w.balance(&bs[0].base) == 333_333, "share is rounded down");
}''')

seed('refund-wrong-share', 'C12', 'an oversubscribed pro-rata presale with two unequal registries',
 "an escrow's refund is computed as its share of the presale's total deposits instead of its registry's",
 [(B+'state/presale.rs', '''                let escrow_refund_amount = if presale_registry.total_deposit > 0 {
                    u128::from(escrow.total_deposit)
                        .safe_mul(refund_amount.into())?
                        .safe_div(presale_registry.total_deposit.into())?''',
 '''                let escrow_refund_amount = if presale_registry.total_deposit > 0 {
                    u128::from(escrow.total_deposit)
                        .safe_mul(refund_amount.into())?
                        .safe_div(self.total_deposit.into())?''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 2, vec![reg(1_000_000, 1, 1_000_000, 0), reg(1_000_000, 1, 1_000_000, 0)]));
    let op = w.operator(&s, 0);
    let mut a = w.buyer(&s, 1);
    let mut b = w.buyer(&s, 2);
    w.open_auth(&s, &mut a, op, 0, 1_000_000).unwrap();
    w.open_auth(&s, &mut b, op, 1, 1_000_000).unwrap();
    w.deposit(&s, &a, 1_000_000).unwrap();
    w.deposit(&s, &b, 1_000_000).unwrap();
    w.set_time(T0 + 1000);
    let q = w.balance(&a.quote);
    w.refund(&s, &a).unwrap();
    must(w.balance(&a.quote) - q == 500_000, "fair excess");
}''')

seed('refund-any-owner', 'C13', 'a caller passing somebody else\'s escrow to the refund instruction',
 'the refund no longer requires the signer to be the recorded owner of the escrow',
 [(I+'process_withdraw_remaining_quote.rs', '''        has_one = presale,
        has_one = owner
    )]''', '''        has_one = presale,
    )]''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 0, vec![reg(1_000_000, 10, 500_000, 0)]));
    let a = w.open(&s, 1);
    let thief = w.buyer(&s, 2);
    w.deposit(&s, &a, 500).unwrap();
    w.set_time(T0 + 1000);
    let mut x = thief;
    x.escrow = a.escrow;
    must(w.refund(&s, &x).is_err(), "refund with a foreign signer");
    must(w.refund(&s, &a).is_ok(), "refund by the owner");
}''')

seed('foreign-vault', 'C14', 'the creator of one failed presale naming the vault of another presale of the same mint',
 "the base vault passed to the creator's withdrawal is only compared by owner and mint, so another presale's vault can be drained",
 [(I+'process_creator_withdraw.rs', '''            accounts.base_token_vault.key() == presale.base_token_vault,
''', '''            accounts.base_token_vault.owner == presale_authority::ID
                && accounts.base_token_vault.mint == presale.base_mint,
''')], '''
fn main() {
    let mut w = World::new();
    let c = Cfg::new(1, 0, vec![reg(1_000_000, 10, 500_000, 0)]);
    let s = w.sale(0, &c);
    // a second presale of the same mint by somebody else
    let mut t = w.layout(1);
    t.base_mint = s.base_mint;
    t.presale = pda(&[b"presale", t.base.as_ref(), t.base_mint.as_ref(), t.quote_mint.as_ref()]);
    t.base_vault = pda(&[b"base_vault", t.presale.as_ref()]);
    t.quote_vault = pda(&[b"quote_vault", t.presale.as_ref()]);
    w.token(t.creator_base, t.base_mint, t.creator, 1_000_000);
    w.init(&t, &c).unwrap();
    w.set_time(T0 + 1000);
    must(w.creator_withdraw(&t, t.creator_base, s.base_vault, s.base_mint).is_err(), "foreign vault accepted");
    must(w.creator_withdraw(&t, t.creator_base, t.base_vault, t.base_mint).is_ok(), "own vault");
}''')

seed('foreign-operator', 'C15', 'an operator appointed by the creator of a different presale',
 'any operator account is accepted as long as its own owner signs',
 [(I+'create_escrow/process_create_permissioned_escrow_with_creator.rs', '''        operator.creator == presale.owner,
''', '''        operator.creator == presale.owner || presale.base != presale.owner,
''')], '''
fn main() {
    let mut w = World::new();
    let c = Cfg::new(1, 2, vec![reg(1_000_000, 1, 1_000_000, 0)]);
    let s = w.sale(0, &c);
    let t = w.sale(1, &c);
    let own = w.operator(&s, 0);
    let foreign = w.operator(&t, 1);
    let mut a = w.buyer(&s, 1);
    must(w.open_auth(&s, &mut a, foreign, 0, 1000).is_err(), "foreign operator accepted");
    must(w.open_auth(&s, &mut a, own, 0, 1000).is_ok(), "own operator");
}''')

seed('unconfigured-registry', 'C16', 'an operator opening an escrow in a registry slot that was never configured, for a buyer without a cap check',
 'the registry index is only checked against the maximum number of registries',
 [(I+'create_escrow/process_create_escrow.rs', 'registry_index < presale.total_presale_registry_count,', 'usize::from(registry_index) < MAX_PRESALE_REGISTRY_COUNT,'),
  (I+'create_escrow/process_create_escrow.rs', '''            deposit_cap >= registry.buyer_minimum_deposit_cap
                && deposit_cap <= registry.buyer_maximum_deposit_cap,''',
   '''            deposit_cap >= registry.buyer_minimum_deposit_cap
                && (registry.is_uninitialized()
                    || deposit_cap <= registry.buyer_maximum_deposit_cap),''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 2, vec![reg(1_000_000, 1, 1_000_000, 0)]));
    let op = w.operator(&s, 0);
    let mut a = w.buyer(&s, 1);
    must(w.open_auth(&s, &mut a, op, 1, 1000).is_err(), "escrow in an unconfigured registry");
    must(w.open_auth(&s, &mut a, op, 0, 1000).is_ok(), "escrow in a configured registry");
}''')

seed('merkle-cap-encoding', 'C17', 'a whitelist entry with a cap above 2^32',
 'the tool hashes only the low half of the cap for large caps, so the proofs it makes are rejected on chain',
 [(M+'tree_node.rs', '&self.deposit_cap.to_le_bytes(),', '&u64::from(self.deposit_cap as u32).to_le_bytes(),')], '''
use anchor_lang::solana_program::hash::hashv;
fn main() {
    for cap in [1u64, 77, 1 << 33, u64::MAX] {
        let nodes: Vec<_> = (0..5u8).map(|i| merkle_tree::tree_node::TreeNode { escrow_owner: key(i), registry_index: i % 2, deposit_cap: cap, proof: None }).collect();
        let t = merkle_tree::config_merkle_tree::ConfigMerkleTree::new(nodes, 0).unwrap();
        for n in &t.tree_nodes {
            let leaf = hashv(&[n.escrow_owner.as_ref(), &[n.registry_index], &n.deposit_cap.to_le_bytes()]);
            let leaf = hashv(&[&[0], leaf.as_ref()]);
            must(presale::verify(n.proof.clone().unwrap(), t.merkle_root, leaf.to_bytes()), "proof of the tool verifies on chain");
        }
    }
}''')

seed('close-mid-vesting', 'C18', 'closing an escrow in the middle of vesting right after a claim',
 'the close check compares against the tokens released so far instead of the complete entitlement',
 [(I+'process_close_escrow.rs', '''    let vesting_end_time = presale.vesting_start_time.safe_add(presale.vest_duration)?;
''', '''    let vesting_end_time = presale
        .vesting_start_time
        .safe_add(presale.vest_duration)?
        .min(current_timestamp);
''')], '''
fn main() {
    let mut w = World::new();
    let mut c = Cfg::new(2, 0, vec![reg(1_000_000, 100, 500_000, 0)]);
    c.vest.vest_duration = 1000;
    let s = w.sale(0, &c);
    let a = w.open(&s, 1);
    w.deposit(&s, &a, 5000).unwrap();
    w.set_time(T0 + 1500);
    w.claim(&s, &a).unwrap();
    must(w.close(&s, &a).is_err(), "closed with unvested tokens");
    w.set_time(T0 + 2000);
    w.claim(&s, &a).unwrap();
    must(w.close(&s, &a).is_ok(), "close when done");
}''')

seed('min-duration', 'C19', 'a presale whose configured start lies in the past, leaving a few seconds until its end',
 'the minimum duration is measured from the configured start instead of the effective start',
 [(I+'initialize_presale/params.rs', 'let presale_duration = self.presale_end_time.safe_sub(presale_start_time)?;', 'let presale_duration = self.presale_end_time.safe_sub(self.presale_start_time)?;')], '''
fn main() {
    let mut w = World::new();
    let mut c = Cfg::new(1, 0, vec![reg(1_000_000, 100, 500_000, 0)]);
    c.p.presale_start_time = T0 as u64 - 500;
    c.p.presale_end_time = T0 as u64 + 30;
    let s = w.layout(0);
    must(w.init(&s, &c).is_err(), "sale of 30 seconds accepted");
    c.p.presale_end_time = T0 as u64 + 60;
    must(w.init(&s, &c).is_ok(), "sale of 60 seconds");
}''')

seed('early-end-schedule', 'C23', 'a sold-out presale whose immediate release is later than its end',
 'ending early does not shift the immediate-release time by the configured distance',
 [(B+'state/presale.rs', '''            .immediate_release_timestamp
            .saturating_sub(self.presale_end_time);

        self.presale_end_time = new_presale_end_time;
''', '''            .immediate_release_timestamp
            .saturating_sub(self.presale_end_time.max(self.vesting_start_time));

        self.presale_end_time = new_presale_end_time;
''')], '''
fn main() {
    let mut w = World::new();
    let mut c = Cfg::new(2, 0, vec![reg(1_000_000, 100, 1_000_000, 0)]);
    c.p.disable_earlier_presale_end_once_cap_reached = 0;
    c.vest.immediately_release_bps = 1000;
    c.vest.lock_duration = 300;
    c.vest.vest_duration = 500;
    c.vest.immediate_release_timestamp = T0 as u64 + 1000 + 200;
    let s = w.sale(0, &c);
    let a = w.open(&s, 1);
    w.set_time(T0 + 100);
    w.deposit(&s, &a, 1_000_000).unwrap();
    let p = w.presale(&s.presale);
    must(p.presale_end_time == T0 as u64 + 100 && p.vesting_start_time == T0 as u64 + 400, "end and lock end");
    must(p.immediate_release_timestamp == T0 as u64 + 300, "immediate release keeps its distance to the end");
}''')

seed('unsold-empty-registry', 'C21', 'a fixed-price presale whose first registry got no deposits',
 'counting sold tokens stops at the first registry without deposits, so sold tokens are treated as unsold',
 [(B+'presale_mode_handler/fixed_price_presale.rs', '''            if presale_registry.total_deposit == 0 {
                continue;
            }
''', '''            if presale_registry.total_deposit == 0 {
                break;
            }
''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(0, 2, vec![reg(1_000_000, 1, 1_000_000, 0), reg(1_000_000, 1, 1_000_000, 0)]));
    let op = w.operator(&s, 0);
    let mut b = w.buyer(&s, 2);
    w.open_auth(&s, &mut b, op, 1, 1_000_000).unwrap();
    w.deposit(&s, &b, 3000).unwrap();
    w.set_time(T0 + 1000);
    w.unsold(&s).unwrap();
    must(w.balance(&s.base_vault) == 3000, "sold tokens stay in the vault");
}''')

seed('fee-collect-refunded', 'C22', 'fee collection in an oversubscribed pro-rata presale with several registries',
 'the fee part refundable for later registries is not deducted',
 [(B+'state/presale.rs', 'total_fee = total_fee.safe_add(registry_collected_fee)?;', '''total_fee = if total_fee == 0 {
                        registry_collected_fee
                    } else {
                        total_fee.safe_add(registry.total_deposit_fee)?
                    };''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 2, vec![reg(1_000_000, 1, 1_000_000, 500), reg(1_000_000, 1, 1_000_000, 500)]));
    let op = w.operator(&s, 0);
    let mut a = w.buyer(&s, 1);
    let mut b = w.buyer(&s, 2);
    w.open_auth(&s, &mut a, op, 0, 1_000_000).unwrap();
    w.open_auth(&s, &mut b, op, 1, 1_000_000).unwrap();
    w.deposit(&s, &a, 950_000).unwrap();
    w.deposit(&s, &b, 950_000).unwrap();
    let total = w.presale(&s.presale).total_deposit_fee;
    w.set_time(T0 + 1000);
    w.collect_fee(&s).unwrap();
    let got = w.balance(&s.creator_quote);
    // half of the deposits above 1_000_000 of 1_900_000 is refunded
    let refund = 2 * (50_000u64 * 450_000 / 950_000);
    must(got == total - refund, "fees net of refunds");
}''')

seed('native-2022', 'C26', 'a token-2022 mint with a permanent delegate after other, allowed extensions',
 'only the first extension of a mint is examined',
 [(B+'token2022.rs', '''            return Ok(false);
        }
    }
    Ok(true)''', '''            return Ok(false);
        }

        if e == ExtensionType::TransferHook {
            break;
        }
    }
    Ok(true)''')], '''
use anchor_spl::token_2022::spl_token_2022::{self, extension::*, state::Mint as M};
use anchor_lang::solana_program::{program_option::COption, program_pack::Pack};
fn mint(ext: &[ExtensionType]) -> Vec<u8> {
    let n = ExtensionType::try_calculate_account_len::<M>(ext).unwrap();
    let mut d = vec![0u8; n];
    let mut s = StateWithExtensionsMut::<M>::unpack_uninitialized(&mut d).unwrap();
    for e in ext {
        match e {
            ExtensionType::TransferHook => { s.init_extension::<transfer_hook::TransferHook>(true).unwrap(); }
            ExtensionType::PermanentDelegate => { s.init_extension::<permanent_delegate::PermanentDelegate>(true).unwrap(); }
            ExtensionType::MetadataPointer => { s.init_extension::<metadata_pointer::MetadataPointer>(true).unwrap(); }
            _ => unreachable!(),
        }
    }
    s.base = M { mint_authority: COption::None, supply: 1 << 40, decimals: 6, is_initialized: true, freeze_authority: COption::None };
    s.pack_base();
    s.init_account_type().unwrap();
    let _ = M::LEN;
    d
}
fn supported(ext: &[ExtensionType]) -> bool {
    let k = key(1);
    let mut data = mint(ext);
    let mut l = 1u64;
    let ai = AccountInfo::new(&k, false, false, &mut l, &mut data, &spl_token_2022::ID, false, 0);
    let ai: &'static AccountInfo<'static> = Box::leak(Box::new(unsafe { std::mem::transmute::<AccountInfo<'_>, AccountInfo<'static>>(ai) }));
    let m = InterfaceAccount::<anchor_spl::token_interface::Mint>::try_from(ai).unwrap();
    presale::is_supported_mint(&m).unwrap()
}
fn main() {
    use ExtensionType::*;
    must(supported(&[MetadataPointer, TransferHook]), "allowed extensions");
    must(!supported(&[PermanentDelegate]), "permanent delegate");
    must(!supported(&[MetadataPointer, PermanentDelegate]), "permanent delegate after metadata pointer");
    must(!supported(&[TransferHook, PermanentDelegate]), "permanent delegate after transfer hook");
}''')

seed('whole-tokens', 'C29', 'a fixed-price sale at a whole-number price and a deposit that is not a multiple of it',
 'a shortcut for whole-number prices credits the deposit in full instead of the price of whole tokens',
 [(B+'presale_mode_handler/fixed_price_presale.rs', '''        calculate_quote_token_without_surplus(self.q_price, max_deposit_amount)
''', '''        // Whole number price, no fraction of a lamport to cut off
        if self.q_price % SCALE_MULTIPLIER == 0 {
            return Ok(max_deposit_amount);
        }
        calculate_quote_token_without_surplus(self.q_price, max_deposit_amount)
''')], '''
fn main() {
    let mut c = Cfg::new(0, 0, vec![reg(1_000_000, 100, 500_000, 0)]);
    for (q, cases) in [(5u128 << 63, [(1000u64, 1000u64), (1001, 1000), (1004, 1003)]), (3 << 64, [(1000, 999), (1001, 999), (1004, 1002)])] {
    let mut w = World::new();
    c.q_price = q;
    let s = w.sale(0, &c);
    let a = w.open(&s, 1);
    for (d, want) in cases {
        let t0 = w.escrow(&a.escrow).total_deposit;
        w.deposit(&s, &a, d).unwrap();
        must(w.escrow(&a.escrow).total_deposit - t0 == want, "price of whole tokens");
    }
    }
}''')

seed('event-total', 'C30', 'an event of a withdrawal that follows another buyer\'s deposit',
 'the withdraw event reports the presale total before the withdrawal',
 [(I+'process_withdraw.rs', '''    // 5. Update escrow and presale state
''', '''    let presale_total_deposit_amount = presale.total_deposit;

    // 5. Update escrow and presale state
'''), (I+'process_withdraw.rs', 'presale_total_deposit_amount: presale.total_deposit,', 'presale_total_deposit_amount,')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 0, vec![reg(1_000_000, 10, 500_000, 0)]));
    let a = w.open(&s, 1);
    let b = w.open(&s, 2);
    w.deposit(&s, &a, 4000).unwrap();
    w.deposit(&s, &b, 3000).unwrap();
    w.withdraw(&s, &b, 1000).unwrap();
    let e = events();
    must(e.len() == 1, "one event");
    let d = &e[0][e[0].len() - 40..e[0].len() - 32];
    must(u64::from_le_bytes(d.try_into().unwrap()) == 6000, "reported total");
}''')

seed('start-clamp', 'C20', 'a presale whose configured start is already in the past',
 'the recorded start is the configured one, not the current time',
 [(B+'state/presale.rs', '''            presale_params.get_presale_start_time_without_going_backwards(current_timestamp);
        self.presale_end_time''', '''            presale_params.get_presale_start_time_without_going_backwards(self.created_at);
        self.presale_end_time''')], '''
fn main() {
    let mut w = World::new();
    let mut c = Cfg::new(1, 0, vec![reg(1_000_000, 100, 500_000, 0)]);
    c.p.presale_start_time = T0 as u64 - 500;
    let s = w.sale(0, &c);
    must(w.presale(&s.presale).presale_start_time == T0 as u64, "start moved up to now");
}''')

seed('fee-rate-forgotten', 'C24', 'closing the last open escrow of a registry while the sale is running',
 "when a registry loses its last escrow its deposit fee rate is reset, so later buyers of that registry pay no fee",
 [(B+'state/presale_registry.rs', '''        self.total_escrow = self.total_escrow.safe_sub(1)?;
''', '''        self.total_escrow = self.total_escrow.safe_sub(1)?;
        if self.total_escrow == 0 {
            self.deposit_fee_bps = 0;
        }
''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 0, vec![reg(1_000_000, 10, 500_000, 500)]));
    let a = w.open(&s, 1);
    w.close(&s, &a).unwrap();
    let b = w.open(&s, 2);
    w.deposit(&s, &b, 9_500).unwrap();
    must(w.presale(&s.presale).presale_registries[0].deposit_fee_bps == 500, "fee rate");
    must(w.escrow(&b.escrow).total_deposit_fee == 500, "fee charged");
}''')

seed('gross-truncated', 'C25', 'a deposit so large that deposit plus fee no longer fits the token amount type',
 'the charged amount is truncated to 64 bits, so a huge deposit is credited for almost nothing',
 [(B+'math/fee_math.rs', '        amount_included_fee: fee_included_deposit_amount.safe_cast()?,', '        amount_included_fee: fee_included_deposit_amount as u64,')], '''
fn main() {
    let mut w = World::new();
    let mut c = Cfg::new(1, 0, vec![reg(1_000_000, 10, u64::MAX, 5_000)]);
    c.p.presale_maximum_cap = u64::MAX;
    let s = w.sale(0, &c);
    let b = w.open(&s, 1);
    must(w.deposit(&s, &b, 5_000).is_ok(), "ordinary deposit");
    must(w.deposit(&s, &b, (1u64 << 63) + 1_000).is_err(), "deposit that cannot be charged");
}''')

seed('server-url-foreign', 'C27', "the owner of one presale closing another presale's server metadata",
 "a presale's server metadata can be closed, and its rent taken, by the owner of any other presale",
 [(I+'process_close_merkle_proof_metadata.rs', '''        mut,
        has_one = presale,
        close = rent_receiver,''', '''        mut,
        constraint = permissioned_server_metadata.presale != Pubkey::default() && presale.load()?.whitelist_mode != 0,
        close = rent_receiver,''')], '''
fn close(w: &mut World, s: &Sale, m: Pubkey) -> std::result::Result<(), String> {
    w.run(presale::instruction::ClosePermissionedServerMetadata {}, presale::accounts::ClosePermissionedServerMetadataCtx {
        presale: s.presale, permissioned_server_metadata: m, rent_receiver: s.creator, owner: s.creator,
        event_authority: event_authority(), program: presale::ID,
    })
}
fn main() {
    let mut w = World::new();
    let a = w.sale(0, &Cfg::new(1, 2, vec![reg(1_000_000, 1, 1_000_000, 0)]));
    let b = w.sale(1, &Cfg::new(1, 2, vec![reg(1_000_000, 1, 1_000_000, 0)]));
    let m = pda(&[presale::seeds::PERMISSIONED_SERVER_METADATA_PREFIX, a.presale.as_ref()]);
    w.run(presale::instruction::CreatePermissionedServerMetadata { server_url: "https://a".to_string() }, presale::accounts::CreatePermissionedServerMetadataCtx {
        presale: a.presale, permissioned_server_metadata: m, owner: a.creator, system_program: anchor_lang::solana_program::system_program::ID,
        event_authority: event_authority(), program: presale::ID,
    }).unwrap();
    must(close(&mut w, &b, m).is_err(), "metadata closed by a foreign creator");
    must(close(&mut w, &a, m).is_ok(), "metadata closed by its creator");
}''')

seed('hook-accounts-short', 'C28', 'a description of extra hook accounts longer than the accounts supplied',
 'an oversized description is silently cut to the accounts that are there',
 [(B+'token2022.rs', '''        if remaining_accounts.len() < slice.length as usize {
            return Err(PresaleError::InvalidRemainingAccountSlice.into());
        }

        let end_idx = slice.length as usize;
''', '''        if remaining_accounts.is_empty() {
            return Err(PresaleError::InvalidRemainingAccountSlice.into());
        }

        let end_idx = remaining_accounts.len().min(slice.length as usize);
''')], '''
fn main() {
    let k = key(1);
    let ai = |_: usize| -> AccountInfo<'static> {
        let l: &'static mut u64 = Box::leak(Box::new(1));
        let k: &'static Pubkey = Box::leak(Box::new(k));
        AccountInfo::new(k, false, false, l, &mut [], k, false, 0)
    };
    let accs: &'static [AccountInfo<'static>] = Box::leak((0..2).map(ai).collect::<Vec<_>>().into_boxed_slice());
    let parse = |n: u8| {
        let sl = [presale::RemainingAccountsSlice { accounts_type: presale::AccountsType::TransferHookBase, length: n }];
        let mut rest = accs;
        presale::parse_remaining_accounts_for_transfer_hook(&mut rest, &sl, &[presale::AccountsType::TransferHookBase])
            .map(|p| p.transfer_hook_base.map(|a| a.len()).unwrap_or(0))
    };
    must(matches!(parse(2), Ok(2)), "two of two accounts");
    must(matches!(parse(1), Ok(1)), "one of two accounts");
    must(parse(3).is_err(), "three of two accounts");
}''')

seed('fee-share-narrow', 'C34', 'an oversubscribed pro-rata presale whose fees are in the billions of units',
 'the product for the share of the refunded fee overflows, so the refund of every larger buyer is refused for good',
 [(B+'state/presale.rs', '''                    u128::from(escrow.total_deposit_fee)
                        .safe_mul(refund_fee.into())?
                        .safe_div(presale_registry.total_deposit_fee.into())?
                        .safe_cast()?''', '''                    escrow
                        .total_deposit_fee
                        .safe_mul(refund_fee)?
                        .safe_div(presale_registry.total_deposit_fee)?''')], '''
fn main() {
    for scale in [1u64, 1_000_000_000] {
        let mut w = World::new();
        let mut c = Cfg::new(1, 0, vec![reg(1_000_000, 10, 900_000 * scale, 500)]);
        c.p.presale_maximum_cap = 1_000_000 * scale;
        let s = w.sale(0, &c);
        let a = w.open(&s, 1);
        let b = w.open(&s, 2);
        w.deposit(&s, &a, 900_000 * scale).unwrap();
        w.deposit(&s, &b, 900_000 * scale).unwrap();
        w.set_time(T0 + 1000);
        must(w.refund(&s, &a).is_ok(), "excess refunded to the first buyer");
        must(w.refund(&s, &b).is_ok(), "excess refunded to the second buyer");
    }
}''')

seed('collect-empty-tier', 'C34', 'a completed presale with a registry nobody bought from',
 'fee collection is refused for good as soon as one registry has no deposits',
 [(B+'state/presale.rs', '                    let registry_collected_fee = registry.total_deposit_fee.safe_sub(refund_fee)?;',
 '''                    require!(
                        refund_fee < registry.total_deposit_fee || registry.deposit_fee_bps == 0,
                        PresaleError::InvalidTokenSupply
                    );
                    let registry_collected_fee = registry.total_deposit_fee.safe_sub(refund_fee)?;''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 2, vec![reg(500_000, 1, 1_000_000, 500), reg(500_000, 1, 1_000_000, 500)]));
    let op = w.operator(&s, 1);
    let mut a = w.buyer(&s, 1);
    w.open_auth(&s, &mut a, op, 0, 900_000).unwrap();
    w.deposit(&s, &a, 900_000).unwrap();
    w.set_time(T0 + 1000);
    must(w.collect_fee(&s).is_ok(), "fee of a completed presale collected");
}''')

seed('withdraw-last-deposit', 'C35', 'the only buyer of an open presale taking everything back',
 'a full withdrawal is refused when the escrow holds all deposits of the presale',
 [(I+'process_withdraw.rs', '        escrow.total_deposit >= max_amount,', '        escrow.total_deposit >= max_amount && presale.total_deposit > max_amount,')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 0, vec![reg(1_000_000, 10, 900_000, 0)]));
    let a = w.open(&s, 1);
    let b = w.open(&s, 2);
    w.deposit(&s, &a, 5_000).unwrap();
    w.deposit(&s, &b, 5_000).unwrap();
    must(w.withdraw(&s, &a, 1_000).is_ok(), "partial withdrawal");
    must(w.withdraw(&s, &a, 4_000).is_ok(), "full withdrawal beside another buyer");
    must(w.withdraw(&s, &b, 5_000).is_ok(), "full withdrawal of the only buyer");
}''')

seed('deposit-to-the-brim', 'C35', 'a first-come-first-served deposit larger than the room left',
 'the last deposit is refused when only a part of it fits under the cap',
 [(H+'fcfs_presale.rs', '        Ok(global_remaining_quota.min(personal_remaining_quota))',
 '''        if global_remaining_quota < presale_registry.buyer_minimum_deposit_cap {
            return Ok(0);
        }

        Ok(global_remaining_quota.min(personal_remaining_quota))''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(2, 0, vec![reg(1_000_000, 1_000, 1_000_000, 0)]));
    let a = w.open(&s, 1);
    let b = w.open(&s, 2);
    w.deposit(&s, &b, 1_000).unwrap();
    w.deposit(&s, &a, 998_500).unwrap();
    must(w.deposit(&s, &b, 5_000).is_ok(), "topping up with the room left");
    must(w.escrow(&b.escrow).total_deposit == 1_500, "the room left is taken");
}''')

seed('fixed-ticket', 'C36', 'a presale in which every buyer has to put in the same amount',
 'equal buyer minimum and maximum are refused for registries that charge a fee',
 [(I+'initialize_presale/params.rs', '            self.buyer_maximum_deposit_cap >= self.buyer_minimum_deposit_cap,',
 '            self.buyer_maximum_deposit_cap\n                .saturating_sub(self.buyer_minimum_deposit_cap)\n                .saturating_add(u64::from(self.deposit_fee_bps == 0))\n                > 0\n                && self.buyer_maximum_deposit_cap >= self.buyer_minimum_deposit_cap,')], '''
fn main() {
    for bps in [0, 100] {
        for (lo, hi) in [(10, 500_000), (700, 700)] {
            let mut w = World::new();
            let s = w.layout(0);
            must(w.init(&s, &Cfg::new(1, 0, vec![reg(1_000_000, lo, hi, bps)])).is_ok(), "valid presale is created");
        }
    }
}''')

seed('registry-excess-up', 'C31', 'an oversubscribed pro-rata presale with registries whose shares of the excess are not whole',
 'each registry is promised its share of the excess rounded up, so together they are promised more than the vault holds',
 [(B+'state/presale_registry.rs', '''            .safe_mul(self.total_deposit.into())?
            .safe_div(presale_total_deposit.into())?;
''', '''            .safe_mul(self.total_deposit.into())?
            .div_ceil(u128::from(presale_total_deposit));
''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 2, vec![reg(500_000, 1, 1_000_000, 0), reg(500_000, 1, 1_000_000, 0)]));
    let op = w.operator(&s, 0);
    let mut a = w.buyer(&s, 1);
    let mut b = w.buyer(&s, 2);
    w.open_auth(&s, &mut a, op, 0, 1_000_000).unwrap();
    w.open_auth(&s, &mut b, op, 1, 1_000_000).unwrap();
    w.deposit(&s, &a, 777_777).unwrap();
    w.deposit(&s, &b, 666_665).unwrap();
    w.set_time(T0 + 1000);
    must(w.creator_withdraw(&s, s.creator_quote, s.quote_vault, s.quote_mint).is_ok(), "creator withdrawal");
    must(w.refund(&s, &a).is_ok(), "first refund");
    must(w.refund(&s, &b).is_ok(), "last refund is covered by the vault");
}''')

seed('close-root-after-failure', 'C37', 'a failed presale with a registered Merkle root',
 'the root of a failed presale can never be closed and its rent stays locked',
 [(I+'process_close_merkle_root_config.rs', '''        progress != PresaleProgress::Ongoing,
''', '''        matches!(
            progress,
            PresaleProgress::NotStarted | PresaleProgress::Completed
        ),
''')], '''
fn main() {
    for at in [-50, 2000] {
        let mut w = World::new();
        let mut cfg = Cfg::new(1, 1, vec![reg(1_000_000, 1, 1_000_000, 0)]);
        cfg.p.presale_start_time = (T0 + 100) as u64;
        cfg.p.presale_end_time = (T0 + 1100) as u64;
        let s = w.sale(0, &cfg);
        let m = pda(&[b"merkle_root", s.presale.as_ref(), &7u64.to_le_bytes()]);
        w.run(presale::instruction::CreateMerkleRootConfig { params: presale::CreateMerkleRootConfigParams { root: [3; 32], version: 7 } }, presale::accounts::CreateMerkleRootConfigCtx {
            presale: s.presale, merkle_root_config: m, creator: s.creator, system_program: anchor_lang::solana_program::system_program::ID,
            event_authority: event_authority(), program: presale::ID,
        }).unwrap();
        w.set_time(T0 + 100 + at);
        must(w.run(presale::instruction::CloseMerkleRootConfig {}, presale::accounts::CloseMerkleRootConfigCtx {
            presale: s.presale, merkle_root_config: m, rent_receiver: s.creator, creator: s.creator,
            event_authority: event_authority(), program: presale::ID,
        }).is_ok(), "closing a root while the sale is not ongoing");
        must(!w.exists(&m), "the root is gone");
    }
}''')

seed('sold-out-grace', 'C38', 'a presale that sells out in its last minute',
 'selling out grants a minute of grace, which moves the end of a presale selling out late to after its configured end',
 [(B+'state/presale.rs', '''        self.recalculate_presale_timing(current_timestamp)
''', '''        self.recalculate_presale_timing(current_timestamp.safe_add(60)?)
''')], '''
fn main() {
    let mut w = World::new();
    let mut cfg = Cfg::new(2, 0, vec![reg(1_000_000, 1, 1_000_000, 0)]);
    cfg.p.disable_earlier_presale_end_once_cap_reached = 0;
    let s = w.sale(0, &cfg);
    let a = w.open(&s, 1);
    let end = w.presale(&s.presale).presale_end_time;
    w.set_time(end as i64 - 10);
    w.deposit(&s, &a, 1_000_000).unwrap();
    must(w.presale(&s.presale).presale_end_time <= end, "the end does not move later");
}''')

seed('registry-fields-swapped', 'C39', 'a registry with claims or refunds, read by its byte positions',
 'claimed and refunded totals of a registry change places in the stored account',
 [(B+'state/presale_registry.rs', '''    /// Total claimed base token. For statistic purpose only
    pub total_claimed_token: u64,
    /// Total refunded quote token. For statistic purpose only
    pub total_refunded_quote_token: u64,
''', '''    /// Total refunded quote token. For statistic purpose only
    pub total_refunded_quote_token: u64,
    /// Total claimed base token. For statistic purpose only
    pub total_claimed_token: u64,
''')], '''
fn main() {
    let mut w = World::new();
    let s = w.sale(0, &Cfg::new(1, 0, vec![reg(1_000_000, 1, 500_000, 0)]));
    let a = w.open(&s, 1);
    w.deposit(&s, &a, 50).unwrap();
    w.set_time(T0 + 1000);
    w.refund(&s, &a).unwrap();
    let p = w.presale(&s.presale);
    let b = bytemuck::bytes_of(&p);
    let at = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    must(at(464 + 8) == 50, "deposits at byte 8 of the registry");
    must(at(464 + 24) == 0, "claims at byte 24 of the registry");
    must(at(464 + 32) == 50, "refunds at byte 32 of the registry");
}''')

DEMO = '''#!/bin/bash
# Builds a small driver against /repo's current tree and runs it; everything stays in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cp -r "$D/Cargo.toml" "$D/src" "$W/" && cp /repo/Cargo.lock "$W/" && chmod -R u+w "$W" || exit 2
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER= CARGO_TARGET_DIR=${DEMO_TARGET:-$W/target}
cd "$W" && cargo build -q --offline 2>build.log || { tail -20 build.log; exit 2; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
'''
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = os.path.join(os.path.dirname(HERE), 'seeded')
def diff(edits):
    new = {}
    for f, o, n in edits:
        s = new.get(f) or open('/repo/' + f).read()
        assert s.count(o) == 1, (f, s.count(o), o)
        new[f] = s.replace(o, n)
    out = ''
    for f, s in new.items():
        out += ''.join(difflib.unified_diff(open('/repo/' + f).read().splitlines(1), s.splitlines(1), 'a/' + f, 'b/' + f))
    return out
def write(only=None):
    sim = open(HERE + '/sim/src/sim.rs').read(); ct = open(HERE + '/sim/Cargo.toml').read()
    for id, (prop, needs, br, edits, main) in S.items():
        if only and id not in only: continue
        d = f'{OUT}/{id}'; os.makedirs(d + '/src', exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff(edits))
        open(d + '/src/main.rs', 'w').write(main + '\n'); open(d + '/src/sim.rs', 'w').write(sim)
        open(d + '/Cargo.toml', 'w').write(ct); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": br}, open(d + '/meta.json', 'w'), indent=1)
if __name__ == '__main__':
    write(set(a for a in sys.argv[1:] if not a.startswith('-')))
