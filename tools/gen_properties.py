#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
B = "programs/presale/src/"
I = B + "instructions/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOHANDLER = "No instruction handler is executed by the 19 runnable tests (they need an on-chain build), and even the integration tests sample a handful of clock values, modes and account combinations. "

prop("C01", "Buyer deposits, withdrawals and escrow opening only while the sale is open",
 "Opening a buyer escrow (any of the three ways), depositing, and withdrawing a deposit succeed only when the cluster clock is at or after the presale start and strictly before the presale end. At any other time these instructions fail and change nothing.",
 ["inputs", "histories", "configurations"], "every clock value, presale state, presale mode, whitelist mode and instruction argument",
 NOHANDLER + "The boundary instants and every mode/whitelist combination form a product no sample covers.",
 [I+"process_deposit.rs", I+"process_withdraw.rs", I+"create_escrow/process_create_escrow.rs", B+"state/presale.rs"],
 [("progress computation from clock, start and end", B+"state/presale.rs"), ("progress guard in deposit, withdraw and escrow creation", I)],
 observe=["instruction result of deposit, withdraw, create_*_escrow"])

prop("C02", "Post-sale payouts only happen in the outcome that entitles to them",
 "Claiming bought tokens, collecting the deposit fee and disposing of unsold tokens succeed only after the presale end with total deposits at or above the minimum cap. Refunding remaining quote succeeds only after the end, and then only if the minimum cap was missed or the presale is pro-rata. The creator's withdrawal succeeds only after the end.",
 ["inputs", "histories", "configurations"], "every clock value, deposit total, cap, presale mode and history leading to the state",
 NOHANDLER + "The outcome depends on the ordering of clock, end, deposits and caps, each boundary of which must be decided for every instruction.",
 [I+"process_claim.rs", I+"process_withdraw_remaining_quote.rs", I+"process_creator_withdraw.rs", I+"process_creator_collect_fee.rs", I+"process_perform_unsold_base_token_action.rs", B+"state/presale.rs"],
 [("progress guards of the payout instructions", I), ("refund eligibility predicate", B+"state/presale.rs")],
 observe=["instruction result of claim, withdraw_remaining_quote, creator_withdraw, creator_collect_fee, perform_unsold_base_token_action"])

prop("C03", "Creator withdrawal pays the right asset and amount",
 "After a successful presale the creator's withdrawal pays exactly the smaller of total deposits and the maximum cap, in quote tokens from the presale's quote vault. After a failed presale it pays back exactly the whole presale supply, in base tokens from the presale's base vault. It never pays both and never pays anything else.",
 ["inputs", "histories", "configurations"], "every final presale state (over-, under- and exactly subscribed), every set of passed accounts",
 NOHANDLER + "The accounts are supplied by the caller as extra accounts, and the amount depends on the outcome; tests sample a few of these.",
 [I+"process_creator_withdraw.rs", B+"token2022.rs"],
 [("outcome match selecting vault, mint and amount", I+"process_creator_withdraw.rs"), ("validation of the passed vault and mint against the presale", I+"process_creator_withdraw.rs")],
 observe=["token transfer issued by creator_withdraw"])

prop("C04", "One-shot payouts cannot be repeated",
 "For a given presale the creator's withdrawal, the fee collection and the unsold-token action each succeed at most once, and for a given escrow the remaining-quote refund succeeds at most once. No instruction ever resets the record that such a payout took place.",
 ["histories"], "every sequence of instructions on a presale and its escrows",
 NOHANDLER + "At-most-once quantifies over all histories; a test replays one.",
 [I+"process_creator_withdraw.rs", I+"process_creator_collect_fee.rs", I+"process_perform_unsold_base_token_action.rs", I+"process_withdraw_remaining_quote.rs", B+"state/presale.rs", B+"state/escrow.rs"],
 [("one-shot flags checked before and set with every payout", B+"state/")],
 state=[("payout flags", "creator withdrawn, fee collected, unsold action performed (presale) and remaining quote withdrawn (escrow)", B+"state/")])

prop("C05", "Escrow, registry and presale totals move in lockstep",
 "Every deposit adds the same amount to the escrow's, its registry's and the presale's deposit totals, and the same fee to their three fee totals; every withdrawal of a deposit subtracts the same amount from the three deposit totals and leaves fees alone. No other instruction changes any of these totals, and a new escrow starts at zero.",
 ["inputs", "histories", "configurations"], "every amount, registry, mode and interleaving of buyers",
 NOHANDLER + "The invariant (registry total = sum of its escrows, presale total = sum of registries) spans all histories.",
 [B+"state/presale.rs", B+"state/presale_registry.rs", B+"state/escrow.rs", I+"process_deposit.rs", I+"process_withdraw.rs"],
 [("deposit/withdraw state updates", B+"state/")],
 state=[("deposit and fee totals", "quote deposited / deposit fee charged, at escrow, registry and presale level", B+"state/")])

prop("C06", "A deposit collects exactly what it credits plus the fee",
 "A successful deposit transfers, from a token account under the paying signer's authority into the presale's own quote vault, the credited amount plus the deposit fee recorded for it, grossed up for the mint's transfer fee so that the vault receives that sum in full. The deposit fee is the smallest amount that is at least the registry's fee rate applied to credited amount plus fee, and the credited amount is positive and never more than the requested maximum.",
 ["inputs", "configurations"], "every requested amount, fee rate, price, mint and presale state",
 NOHANDLER + "fee_math is tested on one amount at one rate.",
 [I+"process_deposit.rs", B+"math/fee_math.rs", B+"token2022.rs", B+"state/presale_registry.rs"],
 [("fee-included calculation", B+"math/fee_math.rs"), ("transfer from the payer", B+"token2022.rs")],
 observe=["token transfer issued by deposit", "escrow/presale deposit and fee totals"])

prop("C07", "Deposits never exceed the personal, registry or presale caps",
 "After any successful deposit the escrow's total is at most the smaller of its personal cap and its registry's buyer maximum, and at least the registry's buyer minimum. In fixed-price and first-come-first-served presales the presale's deposit total never exceeds the maximum cap. In fixed-price presales no deposit is accepted into a registry whose token supply is already sold out.",
 ["inputs", "histories", "configurations"], "every requested amount, cap, price, mode and prior deposits",
 NOHANDLER + "The bound must hold for every prior state and amount, including the exact boundary.",
 [I+"process_deposit.rs", B+"presale_mode_handler/fixed_price_presale.rs", B+"presale_mode_handler/fcfs_presale.rs", B+"presale_mode_handler/prorata_presale.rs", B+"state/escrow.rs", B+"state/presale_registry.rs"],
 [("remaining-quota computation per mode", B+"presale_mode_handler/"), ("escrow range check after deposit", B+"state/presale_registry.rs")])

prop("C08", "Withdrawing a deposit returns exactly what is deducted, where allowed",
 "A successful withdrawal transfers from the presale's quote vault exactly the positive amount deducted from the withdrawing escrow, which is at most the requested amount and at most the escrow's deposit, and leaves the escrow either empty or within its registry's buyer range. First-come-first-served presales, and fixed-price presales configured to disable withdrawal, never allow it.",
 ["inputs", "configurations"], "every requested amount, escrow balance, price, mode and withdraw setting",
 NOHANDLER + "Mode-specific behaviour multiplies the input space.",
 [I+"process_withdraw.rs", B+"presale_mode_handler/", B+"state/presale.rs", B+"state/presale_registry.rs", B+"state/escrow.rs"],
 [("mode capability check and amount suggestion", B+"presale_mode_handler/"), ("transfer to the owner", B+"token2022.rs")])

prop("C09", "A claim pays exactly the released, not yet claimed entitlement",
 "A successful claim transfers from the presale's base vault exactly the escrow's cumulative entitlement at that moment minus everything it claimed before, and adds that same amount to the claimed totals of the escrow, its registry and the presale, so repeated claims and refreshes in any order never pay the same token twice. Refreshing an escrow moves no tokens and, before success of the presale, changes no entitlement.",
 ["inputs", "histories"], "every sequence of claims and refreshes at every clock value",
 NOHANDLER + "Double payment arises from histories of refresh/claim that tests sample at a few instants.",
 [I+"process_claim.rs", I+"process_refresh_escrow.rs", B+"state/escrow.rs", B+"state/presale.rs", B+"presale_mode_handler/"],
 [("pending-claim accumulation", B+"presale_mode_handler/mod.rs"), ("claim state update", B+"state/escrow.rs")],
 state=[("claimed / pending amounts", "tokens already paid and released-but-unpaid tokens of an escrow", B+"state/escrow.rs")])

prop("C10", "Entitlement follows the configured release schedule",
 "A buyer's cumulative entitlement is the pro-rata share (by deposit within its registry, rounded down) of the immediate-release portion once the immediate-release time is reached, plus the same share of the vested portion, which is zero before the lock ends, then grows linearly with elapsed time over the vesting duration and is complete at its end. The amount being shared is the registry's whole supply in pro-rata and first-come-first-served presales, and in fixed-price presales the tokens bought at the fixed price by the registry's deposits, capped by the registry's supply.",
 ["inputs", "configurations"], "every clock value, schedule, release percentage, deposit and supply",
 "claim_math has no unit test at all; integration tests (not runnable here) sample a few instants of a few schedules.",
 [B+"math/claim_math.rs", B+"presale_mode_handler/"],
 [("cumulative claimable computation", B+"math/claim_math.rs"), ("per-mode sold-amount computation", B+"presale_mode_handler/")])

prop("C11", "Rounding always favours the vaults",
 "Every amount the program can pay out to or hold for a user - token entitlement, tokens bought for a deposit, oversubscription and fee refunds - is rounded down from its exact value. Every amount charged to a user - the deposit fee and the price of the tokens bought - is rounded up.",
 ["inputs", "configurations"], "every amount, price, rate and total",
 "The proptests cover one rounding helper of the fixed-price mode; nothing covers entitlement, refund or the composition.",
 [B+"math/", B+"presale_mode_handler/fixed_price_presale.rs", B+"state/presale.rs", B+"state/presale_registry.rs"],
 [("rounding direction of each division", B+"math/")])

prop("C12", "Refunds return the whole deposit on failure, the fair excess if oversubscribed",
 "In a failed presale the refund is exactly the escrow's deposit plus its deposit fee. In a successful pro-rata presale it is the escrow's share of its registry's share of the deposits above the maximum cap, plus the corresponding share of the deposit fee. The refunded sum is what is transferred from the presale's quote vault and what is added to the refund totals.",
 ["inputs", "histories", "configurations"], "every deposit distribution over escrows and registries, every fee rate, every outcome",
 NOHANDLER + "The shares depend on totals produced by arbitrary histories.",
 [I+"process_withdraw_remaining_quote.rs", B+"state/presale.rs", B+"state/presale_registry.rs"],
 [("remaining-quote computation", B+"state/presale.rs"), ("registry share computation", B+"state/presale_registry.rs")])

prop("C13", "Only the rightful signer can take assets out",
 "Claiming, withdrawing, refunding and closing an escrow succeed only with the signature of the owner recorded in that escrow. The creator's withdrawal and the fee collection succeed only with the signature of the creator recorded in that presale, and the refund of unsold tokens, which anyone may trigger, can only go to that creator's associated token account.",
 ["inputs", "histories"], "every set of accounts and signers a caller can pass",
 NOHANDLER + "Authorisation quantifies over all adversarial account lists; tests try a few wrong signers.",
 [I],
 [("signer and ownership constraints of the payout instructions", I)],
 observe=["instruction result for every account list"])

prop("C14", "Every token movement is pinned to the presale's own vaults and mints",
 "Any token transfer or burn from a vault uses the vault and mint recorded in the very presale whose state it updates, signed by the program's fixed authority, and any deposit or initial funding goes into that presale's own vault. An escrow can only be used together with the presale it was opened for, and all state accounts used are owned by the program and of the right type.",
 ["inputs"], "every set of accounts a caller can pass, including accounts of other presales",
 NOHANDLER + "Cross-presale confusion needs adversarial account lists that tests do not enumerate.",
 [I, B+"token2022.rs"],
 [("account binding constraints", I), ("transfer helpers", B+"token2022.rs")])

prop("C15", "Escrows are opened only through the presale's whitelist mode",
 "A permissionless escrow can be opened only on a presale configured permissionless. An authority escrow can be opened only on a presale configured for authority whitelisting and only with the signature of an operator appointed by that presale's creator. A Merkle escrow can be opened only on a presale configured for Merkle whitelisting and only with a proof, against a root registered for that presale, of the exact buyer, registry index and deposit cap being opened.",
 ["inputs", "configurations"], "every whitelist mode, operator, proof, root and account list",
 NOHANDLER + "Authorisation quantifies over adversarial proofs, operators and account lists.",
 [I+"create_escrow/"],
 [("whitelist mode guards, operator check, Merkle verification", I+"create_escrow/")])

prop("C16", "An escrow's identity and limits are what was authorised",
 "A new escrow lives at an address derived from its presale, buyer and registry index, so at most one exists per triple, and it records exactly these three together with its personal cap and opening time. The registry index always designates a configured registry; a requested personal cap is positive and within that registry's buyer range, and a permissionless escrow gets the registry maximum. Opening and closing an escrow increments and decrements the presale's and the registry's escrow counts by one.",
 ["inputs", "histories", "configurations"], "every buyer, registry index, cap and order of openings and closings",
 NOHANDLER + "Uniqueness and counts span histories.",
 [I+"create_escrow/", B+"state/escrow.rs", B+"state/presale.rs", I+"process_close_escrow.rs"],
 [("address seeds and initialisation", I+"create_escrow/"), ("escrow counters", B+"state/presale.rs")])

prop("C17", "Merkle tree tool and on-chain verifier agree",
 "The off-chain tree builder and the on-chain verifier hash a whitelist entry from the same fields in the same order and encoding, use the same distinct domain prefixes for leaves and inner nodes and the same ordered-pair rule at every level, so a proof produced for an entry verifies exactly that entry. The root account address the tool derives is the one the program uses. Leaves and inner nodes can never be confused with each other.",
 ["inputs", "programs"], "every whitelist, entry and proof length; both sibling implementations",
 "merkle-tree has no test; the on-chain side is not run by any runnable test.",
 ["merkle-tree/src/", I+"create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs"],
 [("leaf and node hashing in both crates", "merkle-tree/src/"), ("on-chain verification loop", I+"create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs")])

prop("C18", "An escrow can be closed only when nothing is owed to it",
 "Closing an escrow succeeds during the sale only if it holds no deposit and no paid fee; after a failed presale only if it was refunded or never had anything to refund; after a successful presale only if any refund due was withdrawn and everything it will ever be entitled to was claimed. Before the sale starts it never succeeds.",
 ["inputs", "histories", "configurations"], "every escrow and presale state, clock value and mode",
 NOHANDLER + "Whether something is owed depends on the whole history, mode and schedule.",
 [I+"process_close_escrow.rs", B+"state/presale.rs"],
 [("per-outcome emptiness checks", I+"process_close_escrow.rs")])

prop("C19", "Invalid presale configurations are rejected",
 "Creating a presale succeeds only if: 0 < minimum cap <= maximum cap; the effective start is not in the past and at most 30 days ahead, and the sale lasts at least 60 seconds and at most 30 days; there are 1 to 5 registries, several only under a permissioned whitelist, each with a positive supply, buyer minimum <= buyer maximum, 0 < buyer maximum <= maximum cap and a deposit fee of at most 50%; lock plus vesting is under 10 years, with the release percentage at most 100% and consistent with lock, vesting and immediate-release time; mode, whitelist, unsold-action and flag values are known ones. Fixed-price presales additionally need a positive price at which each registry's buyer minimum buys at least one token, the supply covers the maximum cap, and the two caps buy different token amounts; permissioned presales need buyer ranges as wide as the mode allows.",
 ["inputs", "configurations"], "every instruction argument",
 "Only the vesting arguments are covered by a runnable test, on a few samples.",
 [I+"initialize_presale/params.rs", I+"initialize_presale/process_initialize_presale.rs", I+"process_initialize_extra_presale_params.rs", B+"presale_mode_handler/"],
 [("argument validation", I+"initialize_presale/params.rs"), ("mode-specific validation", B+"presale_mode_handler/")])

prop("C20", "A created presale records its configuration and is fully funded",
 "A successfully created presale records the creator, mints, vaults, modes, caps, end time, unsold action, release schedule and registries exactly as given, with the start time moved up to the current time if it lies in the past and the lock/vesting times derived from the end time. Its supply is the sum of the registries' supplies, and exactly that amount, grossed up for the mint's transfer fee, is transferred from the payer into the presale's base vault in the same instruction; all totals and payout flags start at zero.",
 ["inputs", "configurations"], "every valid configuration",
 NOHANDLER + "Field-by-field agreement for every configuration is not sampled anywhere runnable.",
 [I+"initialize_presale/", B+"state/presale.rs", B+"state/presale_registry.rs", B+"presale_mode_handler/"],
 [("state initialisation", B+"state/presale.rs"), ("initial funding transfer", I+"initialize_presale/process_initialize_presale.rs")])

prop("C21", "Unsold base tokens are disposed of exactly and as configured",
 "After a successful presale the unsold-token action removes from the base vault exactly the presale supply minus the tokens sold, and only if that is positive, burning them or sending them to the creator according to the configured action. Tokens sold are, summed over all configured registries, the registry's whole supply if it received any deposit in pro-rata and first-come-first-served presales, and the tokens bought at the fixed price, capped by the registry's supply, in fixed-price presales.",
 ["inputs", "histories", "configurations"], "every mode, number of registries, deposit distribution and action",
 NOHANDLER + "The amount aggregates over registries in states produced by arbitrary histories.",
 [I+"process_perform_unsold_base_token_action.rs", B+"presale_mode_handler/", B+"state/presale.rs"],
 [("sold-token computation per mode", B+"presale_mode_handler/"), ("burn / refund", I+"process_perform_unsold_base_token_action.rs")])

prop("C22", "The creator collects exactly the deposit fees not owed back to buyers",
 "Fee collection pays, from the presale's quote vault, all deposit fees recorded for a fixed-price or first-come-first-served presale, and for a pro-rata presale the recorded fees of all configured registries minus the part refundable to buyers for the oversubscribed deposits, computed by the same registry formula the refunds use.",
 ["inputs", "histories", "configurations"], "every mode, number of registries, fee rate and deposit distribution",
 NOHANDLER + "The amount aggregates over registries in states produced by arbitrary histories.",
 [I+"process_creator_collect_fee.rs", B+"state/presale.rs", B+"state/presale_registry.rs"],
 [("collected-fee computation", B+"state/presale.rs")])

prop("C23", "A presale ends early only when sold out, and its schedule shifts with it",
 "Only a deposit can change the end of a presale, and it does so exactly when it brings total deposits to the maximum cap of a fixed-price or first-come-first-served presale not configured to stay open; the presale then ends at that moment, and lock end, vesting end and immediate-release time move so that the configured durations after the end are kept. Pro-rata presales never end early.",
 ["inputs", "histories", "configurations"], "every deposit, mode, setting and schedule",
 NOHANDLER + "The shift must keep every configured schedule consistent, for each mode and setting.",
 [I+"process_deposit.rs", B+"presale_mode_handler/", B+"state/presale.rs"],
 [("early-end trigger", B+"presale_mode_handler/mod.rs"), ("timing recalculation", B+"state/presale.rs")])

prop("C24", "Sale terms are immutable once the presale exists",
 "After creation no instruction changes a presale's creator, mints, vaults, modes, caps, start time, supply, registry configuration, durations, release percentage, price or settings, nor an escrow's presale, owner, registry, personal cap or opening time, nor a registered Merkle root or operator appointment.",
 ["histories"], "every sequence of instructions",
 "Immutability quantifies over all instructions and histories; no test can enumerate writers.",
 [B+"state/", I, B+"presale_mode_handler/"],
 [("no writer of configuration fields outside initialisation", B)])

prop("C25", "Token and time arithmetic never wraps or truncates silently",
 "Every addition, subtraction, multiplication, shift and narrowing conversion on token amounts, prices, rates, counts and timestamps either yields the exact mathematical result or makes the instruction fail without effect. Clamping to a bound happens only where the documented meaning is a clamp: oversubscription below the cap is zero, and a legacy immediate-release time before the end counts as the end. (Rent lamports computed by the account framework are not meant.)",
 ["inputs"], "every operand value",
 "Overflow needs extreme operands; the runnable tests cover small values and one mode.",
 [B+"math/safe_math.rs", B],
 [("checked arithmetic helpers", B+"math/safe_math.rs")])

prop("C26", "Only supported mints can be used in a presale",
 "A presale can be created only if both its base and its quote mint are legacy token mints, or token-2022 mints other than the token-2022 native mint that carry no extension besides transfer fee, metadata pointer, token metadata and transfer hook.",
 ["inputs"], "every mint and combination of extensions, for both mints",
 NOHANDLER + "The extension combinations are sampled, not enumerated.",
 [B+"token2022.rs", I+"initialize_presale/process_initialize_presale.rs"],
 [("extension allow-list applied to both mints", B+"token2022.rs")])

prop("C27", "Administrative accounts are managed only by their rightful authority",
 "An operator is appointed only with the signature of the appointing creator, recorded under exactly that creator and operator, and revoked only with that creator's signature. Merkle roots are created only for a Merkle-whitelist presale and server metadata only for a presale with a permissioned whitelist, both only before the presale end and with the signature of the presale's creator; both are closed only with that signature, and Merkle roots not while the sale is ongoing. A fixed-price argument account can be closed only with its recorded owner's signature and is usable only for the presale it names.",
 ["inputs", "histories"], "every account list, signer set, clock value and whitelist mode",
 NOHANDLER + "Authorisation quantifies over adversarial account lists.",
 [I],
 [("ownership constraints and phase guards", I)])

prop("C28", "Transfers honour memo and transfer-hook requirements",
 "Every transfer out of a vault is preceded by a memo when the receiving account requires one. Every transfer of a mint with a transfer hook forwards the caller's extra hook accounts with the true source, destination, authority and amount, and fails if they are missing; extra hook accounts for a mint without a hook are rejected, as are extra-account descriptions of a wrong, duplicate or oversized kind.",
 ["inputs", "configurations"], "every mint, receiving account and extra-account description",
 NOHANDLER + "The combinations of token extensions and malformed account descriptions are sampled at best.",
 [B+"token2022.rs", I],
 [("transfer helpers", B+"token2022.rs"), ("extra-account parsing", B+"token2022.rs")])

prop("C29", "Fixed-price purchases are charged for whole tokens only",
 "In fixed-price mode a deposit or partial withdrawal is reduced to the price, rounded up, of the whole number of tokens the allowed amount can buy, never exceeding that allowed amount; withdrawing the entire deposit returns it unreduced. In the other modes the allowed amount is used unchanged.",
 ["inputs", "configurations"], "every price, requested amount and balance",
 "A proptest samples the helper, but not that the instructions apply it to the right amount in each mode.",
 [B+"presale_mode_handler/", I+"process_deposit.rs", I+"process_withdraw.rs"],
 [("amount suggestion per mode", B+"presale_mode_handler/")])

prop("C30", "Emitted events report the state change that happened",
 "Each deposit, withdrawal, claim, refund, creator withdrawal, fee collection, unsold-token action, refresh, escrow opening and escrow closing emits exactly one event naming the presale (and escrow) acted on; the amounts it reports are the ones credited, charged or paid (claims, refunds and creator payouts net of the mint's transfer fee, unsold tokens gross), and the totals it reports are those stored after the instruction.",
 ["inputs", "configurations"], "every successful execution of these instructions",
 NOHANDLER + "No test inspects emitted events.",
 [I, B+"events.rs"],
 [("event emission in each handler", I)])

prop("C31", "Vault balances always cover everything still owed",
 "At every point of every history the base vault has received at least the whole presale supply and pays out at most that, and the quote vault holds at least the deposits, fees and refunds still payable: no deposit is credited beyond what the vault received; withdrawals, refunds, claims, the creator's withdrawal, fee collection and unsold-token disposal never pay more than the part of the books they are due from, so all of them together never exceed what came in; none is paid twice, in both outcomes, or from another presale's vault; and what the amounts are computed from does not change once payouts can start.",
 ["histories", "inputs", "configurations"], "every history over any number of escrows and registries",
 "A sum over an unbounded set of escrows after arbitrary histories; one unit of rounding in the wrong direction shows only to the last buyer.",
 [B],
 [("lockstep totals, floor shares and one-shot flags together", B)])

# ---- listed but not claimed (see MANIFEST not_applicable) ----
prop("C32", "Every buyer can eventually take everything owed",
 "From every reachable state after the sale there is a sequence of instructions by which each buyer obtains its full entitlement or refund and closes its escrow, without any arithmetic failure.",
 ["histories", "inputs"], "every reachable state",
 "Liveness over all reachable states.",
 [B],
 [("claim, refund and close instructions", I)])


# ---- nothing permitted is refused ----
prop("C34", "Payouts are never refused to those entitled to them",
 "With the right accounts and signature, and as long as every amount paid or stored fits its number type, no payout is refused on any other ground than these: the creator's withdrawal before the end or a second time; fee collection and unsold-token disposal before the end, after failure, a second time or with nothing unsold; a claim before success; a refund before the end, a second time, or after a successful presale that is not pro-rata; closing an escrow that is still owed something as in C18. In particular no intermediate product overflows.",
 ["inputs", "histories", "configurations"], "every stored state, clock value and amount",
 NOHANDLER + "A refusal that needs one particular state (another payout made, a total reached, a zero share) is not among the sampled ones, and it locks funds for good.",
 [I, B+"state/presale.rs", B+"state/presale_registry.rs", B+"presale_mode_handler/", B+"math/"],
 [("guards of the payout handlers", I), ("share and refund arithmetic", B+"state/")])
prop("C35", "Permitted deposits, withdrawals and escrow openings are accepted",
 "While the sale is open, with the right accounts and signature and amounts that fit their number types: a deposit is accepted whenever the amount left after all caps (in fixed-price mode also reduced to whole tokens) is positive and brings the escrow to its buyer minimum; a withdrawal of a positive amount up to the deposit is accepted in pro-rata and in fixed-price presales with withdrawal enabled whenever what it returns is positive and it leaves the escrow empty or at its buyer minimum; an escrow can be opened by the presale's whitelist mode for every configured registry and every positive personal cap within its buyer range.",
 ["inputs", "histories", "configurations"], "every stored state, clock value and requested amount",
 NOHANDLER + "Refusals at boundaries (exact fill, exact minimum, last second) need the boundary to be sampled.",
 [I, B+"state/", B+"presale_mode_handler/"],
 [("guards of the buyer handlers", I), ("quota computation per mode", B+"presale_mode_handler/")])
prop("C36", "Every valid presale configuration is accepted",
 "A configuration that satisfies all conditions of C19, and whose registry supplies sum to at most 2^64-1, is not refused on account of its parameters, in any presale and whitelist mode and with any number of registries up to five; and any positive fixed price with a known withdraw flag can be stored for it.",
 ["inputs", "configurations"], "every parameter combination",
 "The tests create a handful of configurations; boundary values of one validation in one mode are not among them.",
 [B+"instructions/initialize_presale/", B+"presale_mode_handler/", B+"state/presale.rs"],
 [("parameter validation", B+"instructions/initialize_presale/params.rs"), ("mode-specific validation", B+"presale_mode_handler/")])

prop("C37", "Permitted administration is accepted and takes effect",
 "With the right accounts and signature: operators can be created and revoked at any time; a Merkle root of a Merkle-whitelist presale, and server metadata of any permissioned presale, can be registered until the presale's end; a Merkle root can be closed whenever the sale is not ongoing (not yet started, completed or failed), server metadata and fixed-price argument accounts at any time. Revoking or closing really removes the account.",
 ["histories", "configurations"], "every stored state and clock value",
 NOHANDLER + "A refusal in one of the four progress states needs that state to be sampled.",
 [I],
 [("guards of the administration handlers", I)])
prop("C38", "Once ended, a presale's outcome is final",
 "The stored end time never moves later, and moves earlier only to the present or a later moment. From the end on, no instruction changes the presale's deposits, fees, caps, supply, registries' deposits, fees and supplies, mode settings, times or vesting terms, nor any escrow's deposit or fee, and no escrow is opened; so success or failure and every share stay what they were at the end.",
 ["histories", "inputs"], "every instruction on every stored state after the end, in any order",
 NOHANDLER + "An order of instructions around the end that reopens or shifts the sale is not among the sampled ones.",
 [B+"state/presale.rs", I],
 [("timing recalculation and progress", B+"state/presale.rs"), ("handlers available after the end", I)])
prop("C39", "Stored accounts and instruction data keep their byte format",
 "Every field of a presale, registry, escrow, operator, Merkle root, server-metadata and fixed-price argument account, and each mode setting inside a presale, keeps its byte position and width, and each account its size; the codes of modes, actions, token programs and hook account slices keep their meaning; and each instruction exists with its arguments in the same order and widths. So existing accounts and the requests of existing clients are decoded as before.",
 ["configurations", "histories"], "every account already stored and every client request",
 "The tests build and read accounts with the same type definitions, so a moved field or a renumbered code is invisible to them.",
 [B+"state/", B+"instructions/", B+"lib.rs"],
 [("account layouts", B+"state/"), ("instruction arguments", I), ("enum codes", B+"state/")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
