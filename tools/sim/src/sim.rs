//! A miniature runtime: executes presale instructions natively, with the real
//! SPL token programs for token CPIs and a small system-program stand-in.
//! Everything lives in memory.
#![allow(dead_code)]
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{
    entrypoint::MAX_PERMITTED_DATA_INCREASE,
    instruction::Instruction,
    program_error::ProgramError,
    program_option::COption,
    program_pack::Pack,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    system_instruction::SystemInstruction,
    system_program,
};
use anchor_lang::{AccountDeserialize, Discriminator, InstructionData, ToAccountMetas};
use anchor_spl::token::spl_token;
use anchor_spl::token_2022::spl_token_2022;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Mutex;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Acc {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub executable: bool,
}

static NOW: Mutex<i64> = Mutex::new(0);
static EPOCH: Mutex<u64> = Mutex::new(0);
static RET: Mutex<Option<(Pubkey, Vec<u8>)>> = Mutex::new(None);
static STACK: Mutex<Vec<Pubkey>> = Mutex::new(Vec::new());
/// (program, data, amounts...) of every CPI of the current instruction
pub static CPIS: Mutex<Vec<(Pubkey, Vec<Pubkey>, Vec<u8>)>> = Mutex::new(Vec::new());

struct Stubs;
fn log(_m: &str) {
    if std::env::var("SIM_LOG").is_ok() {
        println!("log: {_m}");
    }
}
impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        log(m)
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = Clock {
            unix_timestamp: *NOW.lock().unwrap(),
            epoch: *EPOCH.lock().unwrap(),
            ..Clock::default()
        };
        unsafe { std::ptr::write_unaligned(p as *mut Clock, c) };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(p as *mut Rent, Rent::default()) };
        0
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        RET.lock().unwrap().clone()
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        let p = *STACK.lock().unwrap().last().unwrap();
        *RET.lock().unwrap() = Some((p, d.to_vec()));
    }
    fn sol_get_stack_height(&self) -> u64 {
        STACK.lock().unwrap().len() as u64
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> std::result::Result<(), ProgramError> {
        let caller = *STACK.lock().unwrap().last().unwrap();
        let pdas: Vec<Pubkey> = seeds
            .iter()
            .map(|s| Pubkey::create_program_address(s, &caller).unwrap())
            .collect();
        let mut accs: Vec<AccountInfo<'static>> = vec![];
        for m in &ix.accounts {
            let ai = infos
                .iter()
                .find(|a| *a.key == m.pubkey)
                .ok_or(ProgramError::NotEnoughAccountKeys)?;
            if m.is_signer && !(ai.is_signer || pdas.contains(&m.pubkey)) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !ai.is_writable {
                return Err(ProgramError::InvalidArgument);
            }
            let mut c: AccountInfo<'static> =
                unsafe { std::mem::transmute::<AccountInfo<'_>, AccountInfo<'static>>(ai.clone()) };
            c.is_signer = m.is_signer;
            c.is_writable = m.is_writable;
            accs.push(c);
        }
        CPIS.lock().unwrap().push((
            ix.program_id,
            ix.accounts.iter().map(|m| m.pubkey).collect(),
            ix.data.clone(),
        ));
        STACK.lock().unwrap().push(ix.program_id);
        *RET.lock().unwrap() = None;
        let r = dispatch(&ix.program_id, accs, &ix.data);
        STACK.lock().unwrap().pop();
        r
    }
}

fn dispatch(
    pid: &Pubkey,
    accs: Vec<AccountInfo<'static>>,
    data: &[u8],
) -> std::result::Result<(), ProgramError> {
    let accs: &'static [AccountInfo<'static>] = Box::leak(accs.into_boxed_slice());
    if *pid == spl_token::ID {
        spl_token::processor::Processor::process(pid, accs, data)
    } else if *pid == spl_token_2022::ID {
        spl_token_2022::processor::Processor::process(pid, accs, data)
    } else if *pid == system_program::ID {
        system(accs, data)
    } else if *pid == presale::ID {
        presale::entry(pid, accs, data)
    } else if *pid == anchor_spl::memo::ID {
        Ok(())
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}

fn system(accs: &'static [AccountInfo<'static>], data: &[u8]) -> std::result::Result<(), ProgramError> {
    let mv = |a: &AccountInfo, b: &AccountInfo, n: u64| -> std::result::Result<(), ProgramError> {
        if !a.is_signer || *a.owner != system_program::ID {
            return Err(ProgramError::MissingRequiredSignature);
        }
        let l = a.lamports().checked_sub(n).ok_or(ProgramError::InsufficientFunds)?;
        **a.try_borrow_mut_lamports()? = l;
        **b.try_borrow_mut_lamports()? += n;
        Ok(())
    };
    // bincode: u32 tag, then fields
    let tag = u32::from_le_bytes(data[0..4].try_into().unwrap());
    let u = |o: usize| u64::from_le_bytes(data[o..o + 8].try_into().unwrap());
    let k = |o: usize| Pubkey::new_from_array(data[o..o + 32].try_into().unwrap());
    match tag {
        0 => {
            if accs[1].lamports() > 0 || accs[1].data_len() > 0 || !accs[1].is_signer {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            mv(&accs[0], &accs[1], u(4))?;
            accs[1].realloc(u(12) as usize, true)?;
            accs[1].assign(&k(20));
            Ok(())
        }
        1 => {
            accs[0].assign(&k(4));
            Ok(())
        }
        2 => mv(&accs[0], &accs[1], u(4)),
        8 => {
            accs[0].realloc(u(4) as usize, true)?;
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

#[derive(Clone, Default)]
pub struct World {
    pub accs: BTreeMap<Pubkey, Acc>,
}

pub fn key(n: u8) -> Pubkey {
    let mut b = [7u8; 32];
    b[0] = n;
    Pubkey::new_from_array(b)
}

/// event payloads emitted by the last instruction
pub fn events() -> Vec<Vec<u8>> {
    CPIS.lock()
        .unwrap()
        .iter()
        .filter(|c| c.0 == presale::ID)
        .map(|c| c.2[8..].to_vec())
        .collect()
}

impl World {
    pub fn new() -> World {
        set_syscall_stubs(Box::new(Stubs));
        std::panic::set_hook(Box::new(|i| log(&format!("panic: {i}"))));
        let mut w = World::default();
        for p in [
            spl_token::ID,
            spl_token_2022::ID,
            system_program::ID,
            presale::ID,
            anchor_spl::memo::ID,
        ] {
            w.accs.insert(
                p,
                Acc {
                    lamports: 1,
                    owner: Pubkey::default(),
                    data: vec![],
                    executable: true,
                },
            );
        }
        for (i, a) in w.accs.values_mut().enumerate() {
            let _ = i;
            a.owner = anchor_lang::solana_program::bpf_loader::ID;
        }
        w.set_time(1_000_000);
        w
    }
    pub fn set_time(&self, t: i64) {
        *NOW.lock().unwrap() = t;
    }
    pub fn set_epoch(&self, e: u64) {
        *EPOCH.lock().unwrap() = e;
    }
    pub fn fund(&mut self, k: Pubkey) {
        let a = self.accs.entry(k).or_default();
        a.lamports = 1_000_000_000_000;
    }
    pub fn mint(&mut self, k: Pubkey, decimals: u8) {
        let m = spl_token::state::Mint {
            mint_authority: COption::None,
            supply: u64::MAX / 2,
            decimals,
            is_initialized: true,
            freeze_authority: COption::None,
        };
        let mut data = vec![0; spl_token::state::Mint::LEN];
        m.pack_into_slice(&mut data);
        self.accs.insert(
            k,
            Acc {
                lamports: 1_000_000_000,
                owner: spl_token::ID,
                data,
                executable: false,
            },
        );
    }
    pub fn token(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        let t = spl_token::state::Account {
            mint,
            owner,
            amount,
            state: spl_token::state::AccountState::Initialized,
            ..Default::default()
        };
        let mut data = vec![0; spl_token::state::Account::LEN];
        t.pack_into_slice(&mut data);
        self.accs.insert(
            k,
            Acc {
                lamports: 1_000_000_000,
                owner: spl_token::ID,
                data,
                executable: false,
            },
        );
    }
    /// SPL Token balance (165-byte base layout, both token programs)
    pub fn balance(&self, k: &Pubkey) -> u64 {
        u64::from_le_bytes(self.accs[k].data[64..72].try_into().unwrap())
    }
    pub fn supply(&self, mint: &Pubkey) -> u64 {
        u64::from_le_bytes(self.accs[mint].data[36..44].try_into().unwrap())
    }
    pub fn load<T: bytemuck::Pod + Discriminator>(&self, k: &Pubkey) -> T {
        let d = &self.accs[k].data;
        assert_eq!(&d[..8], T::DISCRIMINATOR);
        bytemuck::pod_read_unaligned(&d[8..8 + std::mem::size_of::<T>()])
    }
    pub fn store<T: bytemuck::Pod>(&mut self, k: &Pubkey, v: &T) {
        let d = &mut self.accs.get_mut(k).unwrap().data;
        d[8..8 + std::mem::size_of::<T>()].copy_from_slice(bytemuck::bytes_of(v));
    }
    pub fn presale(&self, k: &Pubkey) -> presale::Presale {
        self.load(k)
    }
    pub fn escrow(&self, k: &Pubkey) -> presale::Escrow {
        self.load(k)
    }
    pub fn exists(&self, k: &Pubkey) -> bool {
        self.accs.get(k).map_or(false, |a| a.owner == presale::ID && !a.data.is_empty())
    }

    /// Execute one instruction as a transaction: nothing is kept if it fails.
    pub fn exec(
        &mut self,
        data: Vec<u8>,
        metas: Vec<AccountMeta>,
    ) -> std::result::Result<(), String> {
        CPIS.lock().unwrap().clear();
        // One block per account, laid out like the loader's input region, with the
        // data placed so that the zero-copy structs are aligned on this host.
        let mut first: BTreeMap<Pubkey, usize> = BTreeMap::new();
        let mut infos: Vec<AccountInfo<'static>> = vec![];
        for (i, m) in metas.iter().enumerate() {
            if let Some(j) = first.get(&m.pubkey) {
                let c = infos[*j].clone();
                infos.push(c);
                continue;
            }
            first.insert(m.pubkey, i);
            let a = self.accs.get(&m.pubkey).cloned().unwrap_or_default();
            let (s, wr) = metas
                .iter()
                .filter(|x| x.pubkey == m.pubkey)
                .fold((false, false), |(s, w), x| (s | x.is_signer, w | x.is_writable));
            let n = (88 + a.data.len() + MAX_PERMITTED_DATA_INCREASE).div_ceil(16) + 1;
            let words: &'static mut [u128] = Box::leak(vec![0u128; n].into_boxed_slice());
            let p = words.as_mut_ptr() as *mut u8;
            infos.push(unsafe {
                *(p.add(4) as *mut u32) = a.data.len() as u32;
                *(p.add(8) as *mut [u8; 32]) = m.pubkey.to_bytes();
                *(p.add(40) as *mut [u8; 32]) = a.owner.to_bytes();
                *(p.add(72) as *mut u64) = a.lamports;
                *(p.add(80) as *mut u64) = a.data.len() as u64;
                std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(88), a.data.len());
                AccountInfo {
                    key: &*(p.add(8) as *const Pubkey),
                    owner: &*(p.add(40) as *const Pubkey),
                    lamports: Rc::new(RefCell::new(&mut *(p.add(72) as *mut u64))),
                    data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(
                        p.add(88),
                        a.data.len(),
                    ))),
                    is_signer: s,
                    is_writable: wr,
                    executable: a.executable,
                    rent_epoch: u64::MAX,
                }
            });
        }
        let infos: &'static [AccountInfo<'static>] = Box::leak(infos.into_boxed_slice());
        let d: &'static [u8] = Box::leak(data.into_boxed_slice());
        *STACK.lock().unwrap() = vec![presale::ID];
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            presale::entry(&presale::ID, infos, d)
        }));
        match r {
            Err(_) => return Err("panic".into()),
            Ok(Err(e)) => return Err(format!("{e:?}")),
            Ok(Ok(())) => {}
        }
        for (k, i) in first {
            let ai = &infos[i];
            let a = Acc {
                lamports: ai.lamports(),
                owner: *ai.owner,
                data: ai.data.borrow().to_vec(),
                executable: ai.executable,
            };
            let old = self.accs.get(&k).cloned().unwrap_or_default();
            if a != old {
                if !ai.is_writable {
                    return Err(format!("read-only account {k} modified"));
                }
                self.accs.insert(k, a);
            }
        }
        Ok(())
    }

    pub fn run<A: ToAccountMetas, D: InstructionData>(
        &mut self,
        d: D,
        a: A,
    ) -> std::result::Result<(), String> {
        self.exec(d.data(), a.to_account_metas(None))
    }
    pub fn run_with<A: ToAccountMetas, D: InstructionData>(
        &mut self,
        d: D,
        a: A,
        extra: Vec<AccountMeta>,
    ) -> std::result::Result<(), String> {
        let mut m = a.to_account_metas(None);
        m.extend(extra);
        self.exec(d.data(), m)
    }
}

pub fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &presale::ID).0
}
pub fn event_authority() -> Pubkey {
    pda(&[b"__event_authority"])
}
pub fn no_rem() -> presale::RemainingAccountsInfo {
    presale::RemainingAccountsInfo { slices: vec![] }
}

/// A presale with its mints, creator and token accounts.
#[derive(Clone, Copy)]
pub struct Sale {
    pub presale: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub creator: Pubkey,
    pub creator_base: Pubkey,
    pub creator_quote: Pubkey,
    pub base: Pubkey,
}

pub const T0: i64 = 1_000_000;

pub struct Cfg {
    pub p: presale::PresaleArgs,
    pub regs: Vec<presale::PresaleRegistryArgs>,
    pub vest: presale::LockedVestingArgs,
    pub q_price: u128,
    pub disable_withdraw: u8,
}
pub fn reg(supply: u64, min: u64, max: u64, bps: u16) -> presale::PresaleRegistryArgs {
    presale::PresaleRegistryArgs {
        presale_supply: supply,
        buyer_minimum_deposit_cap: min,
        buyer_maximum_deposit_cap: max,
        deposit_fee_bps: bps,
        ..Default::default()
    }
}
impl Cfg {
    /// mode: 0 fixed price, 1 pro rata, 2 fcfs. Sale open at T0..T0+1000.
    pub fn new(mode: u8, whitelist: u8, regs: Vec<presale::PresaleRegistryArgs>) -> Cfg {
        Cfg {
            p: presale::PresaleArgs {
                presale_maximum_cap: 1_000_000,
                presale_minimum_cap: 1_000,
                presale_start_time: T0 as u64,
                presale_end_time: T0 as u64 + 1000,
                whitelist_mode: whitelist,
                presale_mode: mode,
                unsold_token_action: 0,
                disable_earlier_presale_end_once_cap_reached: 1,
                padding: [0; 30],
            },
            regs,
            vest: Default::default(),
            q_price: 1u128 << 64,
            disable_withdraw: 0,
        }
    }
}

impl World {
    /// Lay out mints, creator and token accounts for sale number `n`; nothing is created on chain yet.
    pub fn layout(&mut self, n: u8) -> Sale {
        let base_mint = key(10 + n * 20);
        let quote_mint = key(11 + n * 20);
        let creator = key(12 + n * 20);
        let base = key(13 + n * 20);
        self.mint(base_mint, 6);
        self.mint(quote_mint, 6);
        self.fund(creator);
        let presale = pda(&[b"presale", base.as_ref(), base_mint.as_ref(), quote_mint.as_ref()]);
        let s = Sale {
            presale,
            base_mint,
            quote_mint,
            base_vault: pda(&[b"base_vault", presale.as_ref()]),
            quote_vault: pda(&[b"quote_vault", presale.as_ref()]),
            creator,
            creator_base: anchor_spl::associated_token::get_associated_token_address(
                &creator, &base_mint,
            ),
            creator_quote: anchor_spl::associated_token::get_associated_token_address(
                &creator, &quote_mint,
            ),
            base,
        };
        self.token(s.creator_base, base_mint, creator, u64::MAX / 4);
        self.token(s.creator_quote, quote_mint, creator, 0);
        s
    }

    pub fn init(&mut self, s: &Sale, c: &Cfg) -> std::result::Result<(), String> {
        let mut extra = vec![];
        if c.p.presale_mode == 0 {
            let params = pda(&[b"fixed_price_param", s.presale.as_ref()]);
            self.run(
                presale::instruction::InitializeFixedPricePresaleArgs {
                    params: presale::InitializeFixedPricePresaleExtraArgs {
                        presale: s.presale,
                        disable_withdraw: c.disable_withdraw,
                        q_price: c.q_price,
                        ..Default::default()
                    },
                },
                presale::accounts::InitializeFixedPricePresaleArgsCtx {
                    fixed_price_presale_params: params,
                    owner: s.creator,
                    payer: s.creator,
                    system_program: system_program::ID,
                    event_authority: event_authority(),
                    program: presale::ID,
                },
            )?;
            extra.push(AccountMeta::new_readonly(params, false));
        }
        self.run_with(
            presale::instruction::InitializePresale {
                params: presale::InitializePresaleArgs {
                    presale_params: c.p,
                    locked_vesting_params: c.vest,
                    padding: [0; 32],
                    presale_registries: c.regs.clone(),
                },
                remaining_account_info: no_rem(),
            },
            presale::accounts::InitializePresaleCtx {
                presale_mint: s.base_mint,
                presale: s.presale,
                presale_authority: presale::presale_authority::ID,
                quote_token_mint: s.quote_mint,
                presale_vault: s.base_vault,
                quote_token_vault: s.quote_vault,
                payer_presale_token: s.creator_base,
                creator: s.creator,
                base: s.base,
                payer: s.creator,
                base_token_program: spl_token::ID,
                quote_token_program: spl_token::ID,
                system_program: system_program::ID,
                event_authority: event_authority(),
                program: presale::ID,
            },
            extra,
        )
    }
    /// Lay out and create sale `n`.
    pub fn sale(&mut self, n: u8, c: &Cfg) -> Sale {
        let s = self.layout(n);
        self.init(&s, c).expect("initialize_presale");
        s
    }
    pub fn buyer(&mut self, s: &Sale, n: u8) -> Buyer {
        let owner = key(100 + n);
        self.fund(owner);
        let quote = anchor_spl::associated_token::get_associated_token_address(&owner, &s.quote_mint);
        let base = anchor_spl::associated_token::get_associated_token_address(&owner, &s.base_mint);
        self.token(quote, s.quote_mint, owner, u64::MAX / 8);
        self.token(base, s.base_mint, owner, 0);
        Buyer { owner, quote, base, reg: 0, escrow: escrow_key(&s.presale, &owner, 0) }
    }
    /// Buyer `n` with an open permissionless escrow
    pub fn open(&mut self, s: &Sale, n: u8) -> Buyer {
        let b = self.buyer(s, n);
        self.open_escrow(s, &b).expect("create_permissionless_escrow");
        b
    }
    pub fn open_escrow(&mut self, s: &Sale, b: &Buyer) -> std::result::Result<(), String> {
        self.run(
            presale::instruction::CreatePermissionlessEscrow {},
            presale::accounts::CreatePermissionlessEscrowCtx {
                presale: s.presale,
                escrow: b.escrow,
                owner: b.owner,
                payer: b.owner,
                system_program: system_program::ID,
                event_authority: event_authority(),
                program: presale::ID,
            },
        )
    }
    pub fn operator(&mut self, s: &Sale, n: u8) -> (Pubkey, Pubkey) {
        let owner = key(200 + n);
        self.fund(owner);
        let operator = pda(&[b"operator", s.creator.as_ref(), owner.as_ref()]);
        self.run(
            presale::instruction::CreateOperator {},
            presale::accounts::CreateOperatorCtx {
                operator,
                operator_owner: owner,
                creator: s.creator,
                system_program: system_program::ID,
                event_authority: event_authority(),
                program: presale::ID,
            },
        )
        .expect("create_operator");
        (operator, owner)
    }
    /// Open escrow on an authority-whitelist presale
    pub fn open_auth(
        &mut self,
        s: &Sale,
        b: &mut Buyer,
        op: (Pubkey, Pubkey),
        reg: u8,
        cap: u64,
    ) -> std::result::Result<(), String> {
        b.reg = reg;
        b.escrow = escrow_key(&s.presale, &b.owner, reg);
        self.run(
            presale::instruction::CreatePermissionedEscrowWithCreator {
                params: presale::CreatePermissionedEscrowWithCreatorParams {
                    registry_index: reg,
                    deposit_cap: cap,
                    padding: [0; 32],
                },
            },
            presale::accounts::CreatePermissionedEscrowWithCreatorCtx {
                presale: s.presale,
                escrow: b.escrow,
                owner: b.owner,
                operator: op.0,
                operator_owner: op.1,
                payer: b.owner,
                system_program: system_program::ID,
                event_authority: event_authority(),
                program: presale::ID,
            },
        )
    }
    pub fn deposit(&mut self, s: &Sale, b: &Buyer, n: u64) -> std::result::Result<(), String> {
        self.run(
            presale::instruction::Deposit { max_amount: n, remaining_account_info: no_rem() },
            presale::accounts::DepositCtx {
                presale: s.presale,
                quote_token_vault: s.quote_vault,
                quote_mint: s.quote_mint,
                escrow: b.escrow,
                payer_quote_token: b.quote,
                payer: b.owner,
                token_program: spl_token::ID,
                event_authority: event_authority(),
                program: presale::ID,
            },
        )
    }
    pub fn withdraw(&mut self, s: &Sale, b: &Buyer, n: u64) -> std::result::Result<(), String> {
        self.run(
            presale::instruction::Withdraw { amount: n, remaining_account_info: no_rem() },
            presale::accounts::WithdrawCtx {
                presale: s.presale,
                quote_token_vault: s.quote_vault,
                quote_mint: s.quote_mint,
                presale_authority: presale::presale_authority::ID,
                escrow: b.escrow,
                owner_quote_token: b.quote,
                owner: b.owner,
                token_program: spl_token::ID,
                memo_program: anchor_spl::memo::ID,
                event_authority: event_authority(),
                program: presale::ID,
            },
        )
    }
    pub fn claim(&mut self, s: &Sale, b: &Buyer) -> std::result::Result<(), String> {
        self.run(
            presale::instruction::Claim { remaining_accounts_info: no_rem() },
            presale::accounts::ClaimCtx {
                presale: s.presale,
                base_token_vault: s.base_vault,
                base_mint: s.base_mint,
                presale_authority: presale::presale_authority::ID,
                escrow: b.escrow,
                owner_base_token: b.base,
                owner: b.owner,
                token_program: spl_token::ID,
                memo_program: anchor_spl::memo::ID,
                event_authority: event_authority(),
                program: presale::ID,
            },
        )
    }
    pub fn refund(&mut self, s: &Sale, b: &Buyer) -> std::result::Result<(), String> {
        self.run(
            presale::instruction::WithdrawRemainingQuote { remaining_accounts_info: no_rem() },
            presale::accounts::WithdrawRemainingQuoteCtx {
                presale: s.presale,
                quote_token_vault: s.quote_vault,
                quote_mint: s.quote_mint,
                presale_authority: presale::presale_authority::ID,
                escrow: b.escrow,
                owner_quote_token: b.quote,
                owner: b.owner,
                token_program: spl_token::ID,
                memo_program: anchor_spl::memo::ID,
                event_authority: event_authority(),
                program: presale::ID,
            },
        )
    }
    pub fn refresh(&mut self, s: &Sale, b: &Buyer) -> std::result::Result<(), String> {
        self.run(
            presale::instruction::RefreshEscrow {},
            presale::accounts::RefreshEscrowCtx {
                presale: s.presale,
                escrow: b.escrow,
                event_authority: event_authority(),
                program: presale::ID,
            },
        )
    }
    pub fn close(&mut self, s: &Sale, b: &Buyer) -> std::result::Result<(), String> {
        self.run(
            presale::instruction::CloseEscrow {},
            presale::accounts::CloseEscrowCtx {
                presale: s.presale,
                escrow: b.escrow,
                owner: b.owner,
                rent_receiver: b.owner,
                event_authority: event_authority(),
                program: presale::ID,
            },
        )
    }
    pub fn unsold(&mut self, s: &Sale) -> std::result::Result<(), String> {
        self.run(
            presale::instruction::PerformUnsoldBaseTokenAction { remaining_accounts_info: no_rem() },
            presale::accounts::PerformUnsoldBaseTokenActionCtx {
                presale: s.presale,
                base_token_vault: s.base_vault,
                base_mint: s.base_mint,
                presale_authority: presale::presale_authority::ID,
                creator_base_token: s.creator_base,
                token_program: spl_token::ID,
                memo_program: anchor_spl::memo::ID,
                event_authority: event_authority(),
                program: presale::ID,
            },
        )
    }
    pub fn collect_fee(&mut self, s: &Sale) -> std::result::Result<(), String> {
        self.run(
            presale::instruction::CreatorCollectFee { remaining_accounts_info: no_rem() },
            presale::accounts::CreatorCollectFeeCtx {
                presale: s.presale,
                presale_authority: presale::presale_authority::ID,
                quote_token_vault: s.quote_vault,
                quote_mint: s.quote_mint,
                fee_receiving_account: s.creator_quote,
                owner: s.creator,
                token_program: spl_token::ID,
                memo_program: anchor_spl::memo::ID,
                event_authority: event_authority(),
                program: presale::ID,
            },
        )
    }
    /// vault/mint are the two extra accounts of creator_withdraw
    pub fn creator_withdraw(
        &mut self,
        s: &Sale,
        to: Pubkey,
        vault: Pubkey,
        mint: Pubkey,
    ) -> std::result::Result<(), String> {
        self.run_with(
            presale::instruction::CreatorWithdraw { remaining_accounts_info: no_rem() },
            presale::accounts::CreatorWithdrawCtx {
                presale: s.presale,
                presale_authority: presale::presale_authority::ID,
                owner_token: to,
                owner: s.creator,
                token_program: spl_token::ID,
                memo_program: anchor_spl::memo::ID,
                event_authority: event_authority(),
                program: presale::ID,
            },
            vec![AccountMeta::new(vault, false), AccountMeta::new_readonly(mint, false)],
        )
    }
}

pub fn escrow_key(presale: &Pubkey, owner: &Pubkey, reg: u8) -> Pubkey {
    pda(&[b"escrow", presale.as_ref(), owner.as_ref(), &[reg]])
}

#[derive(Clone, Copy)]
pub struct Buyer {
    pub owner: Pubkey,
    pub quote: Pubkey,
    pub base: Pubkey,
    pub reg: u8,
    pub escrow: Pubkey,
}

#[allow(unused)]
fn _unused(_: SystemInstruction) {
    let _ = <spl_token::state::Account as Pack>::LEN;
    fn f<T: AccountDeserialize>() {}
}
