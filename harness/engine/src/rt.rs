//! A minimal Solana runtime: just enough to run the real program behind its entry point.
//!
//! Accounts are serialized the way the on-chain loader does it and handed to the program's
//! entry point. Calls into other programs go to the real SPL token processor or to
//! small emulations of the system and associated token programs. A failing or panicking
//! instruction has no effect. As on chain, an instruction fails if it changes an account it may not
//! change or if lamports are not conserved.

use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE};
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub exec: bool,
}

#[derive(Default)]
struct Ctx {
    clock: Clock,
    ret: Vec<u8>,
    logs: Vec<Vec<u8>>,
    depth: u32,
    keys: Vec<Pubkey>,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

struct Stubs;

fn rent() -> Rent {
    Rent::default()
}

pub fn min_rent(len: usize) -> u64 {
    rent().minimum_balance(len)
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, _message: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, fields: &[&[u8]]) {
        CTX.with(|c| {
            for f in fields {
                c.borrow_mut().logs.push(f.to_vec())
            }
        })
    }
    fn sol_remaining_compute_units(&self) -> u64 {
        1_000_000
    }
    fn sol_get_stack_height(&self) -> u64 {
        CTX.with(|c| c.borrow().depth as u64)
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        CTX.with(|c| c.borrow_mut().ret = data.to_vec())
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        CTX.with(|c| Some((crate::abi::PROGRAM, c.borrow().ret.clone())))
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        CTX.with(|c| unsafe { *(var_addr as *mut Clock) = c.borrow().clock.clone() });
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = rent() };
        0
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let pdas: Vec<Pubkey> = seeds
            .iter()
            .map(|s| {
                Pubkey::create_program_address(s, &crate::abi::PROGRAM)
                    .map_err(|_| ProgramError::InvalidSeeds)
            })
            .collect::<Result<_, _>>()?;
        let mut accs: Vec<AccountInfo> = vec![];
        for m in &ix.accounts {
            let ai = infos
                .iter()
                .find(|ai| *ai.key == m.pubkey)
                .ok_or(ProgramError::NotEnoughAccountKeys)?;
            // privileges must not be escalated
            if m.is_signer && !ai.is_signer && !pdas.contains(&m.pubkey) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !ai.is_writable {
                return Err(ProgramError::InvalidAccountData);
            }
            let mut a = ai.clone();
            a.is_signer = m.is_signer;
            a.is_writable = m.is_writable;
            accs.push(a);
        }
        // the callee must be among the accounts of the instruction
        if !CTX.with(|c| c.borrow().keys.contains(&ix.program_id)) {
            return Err(ProgramError::NotEnoughAccountKeys);
        }
        if ix.program_id == spl_token::ID {
            spl_token::processor::Processor::process(&ix.program_id, &accs, &ix.data)
        } else if ix.program_id == solana_program::system_program::ID {
            system(&accs, &ix.data)
        } else if ix.program_id == crate::abi::ata_program() {
            ata(&accs, &ix.data)
        } else if ix.program_id == crate::abi::PROGRAM {
            // event emission by self call
            CTX.with(|c| c.borrow_mut().logs.push(ix.data.clone()));
            if accs.len() == 1
                && accs[0].is_signer
                && *accs[0].key
                    == crate::abi::pda(&[b"__event_authority"], &crate::abi::PROGRAM)
            {
                Ok(())
            } else {
                Err(ProgramError::InvalidArgument)
            }
        } else {
            Err(ProgramError::IncorrectProgramId)
        }
    }
}

fn move_lamports(from: &AccountInfo, to: &AccountInfo, n: u64) -> ProgramResult {
    if !from.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if !from.data_is_empty() {
        return Err(ProgramError::InvalidArgument);
    }
    if **from.try_borrow_lamports()? < n {
        return Err(ProgramError::InsufficientFunds);
    }
    **from.try_borrow_mut_lamports()? -= n;
    **to.try_borrow_mut_lamports()? += n;
    Ok(())
}

fn allocate(a: &AccountInfo, space: usize) -> ProgramResult {
    if !a.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if !a.data_is_empty() || *a.owner != solana_program::system_program::ID {
        return Err(ProgramError::AccountAlreadyInitialized);
    }
    a.realloc(space, true)
}

fn assign(a: &AccountInfo, owner: &Pubkey) -> ProgramResult {
    if !a.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if *a.owner != solana_program::system_program::ID {
        return Err(ProgramError::IllegalOwner);
    }
    a.assign(owner);
    Ok(())
}

fn system(accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let tag = u32::from_le_bytes(data[0..4].try_into().unwrap());
    let u = |o: usize| u64::from_le_bytes(data[o..o + 8].try_into().unwrap());
    let k = |o: usize| Pubkey::try_from(&data[o..o + 32]).unwrap();
    match tag {
        0 => {
            if **accs[1].try_borrow_lamports()? > 0 {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            allocate(&accs[1], u(12) as usize)?;
            assign(&accs[1], &k(20))?;
            move_lamports(&accs[0], &accs[1], u(4))
        }
        1 => assign(&accs[0], &k(4)),
        2 => move_lamports(&accs[0], &accs[1], u(4)),
        8 => allocate(&accs[0], u(4) as usize),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

fn ata(accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if !data.is_empty() && data[0] != 0 {
        return Err(ProgramError::InvalidInstructionData);
    }
    let (payer, acc, wallet, mint) = (&accs[0], &accs[1], &accs[2], &accs[3]);
    if *acc.key != crate::abi::ata(wallet.key, mint.key) {
        return Err(ProgramError::InvalidSeeds);
    }
    if *acc.owner != solana_program::system_program::ID || !acc.data_is_empty() {
        return Err(ProgramError::IllegalOwner);
    }
    let need = min_rent(165).saturating_sub(**acc.try_borrow_lamports()?);
    move_lamports(payer, acc, need)?;
    acc.realloc(165, true)?;
    acc.assign(&spl_token::ID);
    let ix = spl_token::instruction::initialize_account3(&spl_token::ID, acc.key, mint.key, wallet.key)?;
    spl_token::processor::Processor::process(&spl_token::ID, &[acc.clone(), mint.clone()], &ix.data)
}

#[derive(Clone)]
pub struct Rt {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub clock: Clock,
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

pub struct Done {
    pub ret: Vec<u8>,
    pub logs: Vec<Vec<u8>>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    Err(u64),
    Panic,
    Runtime(&'static str),
    /// a client that would not or could not
    Client(String),
}

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
    if std::env::var("VERIF_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

pub fn set_clock(clock: &Clock) {
    CTX.with(|c| c.borrow_mut().clock = clock.clone());
}

impl Rt {
    pub fn new() -> Self {
        let mut rt = Rt {
            accts: BTreeMap::new(),
            clock: Clock::default(),
        };
        for p in [
            spl_token::ID,
            solana_program::system_program::ID,
            crate::abi::ata_program(),
            crate::abi::PROGRAM,
        ] {
            rt.accts.insert(
                p,
                Acct {
                    lamports: 1,
                    data: vec![],
                    owner: solana_program::bpf_loader::ID,
                    exec: true,
                },
            );
        }
        rt
    }

    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).cloned().unwrap_or(Acct {
            lamports: 0,
            data: vec![],
            owner: solana_program::system_program::ID,
            exec: false,
        })
    }

    /// Runs one instruction of the program under test.
    pub fn exec(&mut self, metas: &[Meta], data: &[u8]) -> Result<Done, Fail> {
        // privileges of an account named several times are combined
        let mut uniq: Vec<Meta> = vec![];
        let mut pos: Vec<usize> = vec![];
        for m in metas {
            match uniq.iter().position(|u| u.key == m.key) {
                Some(i) => {
                    uniq[i].signer |= m.signer;
                    uniq[i].writable |= m.writable;
                    pos.push(i);
                }
                None => {
                    pos.push(uniq.len());
                    uniq.push(m.clone());
                }
            }
        }
        let pre: Vec<Acct> = uniq.iter().map(|m| self.get(&m.key)).collect();

        let mut words = 2 + data.len() / 8 + 8;
        for a in &pre {
            words += 16 + (a.data.len() + MAX_PERMITTED_DATA_INCREASE) / 8 + 2;
        }
        words += metas.len();
        let mut buf = vec![0u64; words];
        let base = buf.as_mut_ptr() as *mut u8;
        let mut o = 0usize;
        macro_rules! put {
            ($b:expr) => {{
                let b: &[u8] = $b;
                unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), base.add(o), b.len()) };
                o += b.len();
            }};
        }
        put!(&(metas.len() as u64).to_le_bytes());
        let mut seen = vec![usize::MAX; uniq.len()];
        let mut at = vec![0usize; uniq.len()];
        for (i, u) in pos.iter().enumerate() {
            if seen[*u] != usize::MAX {
                put!(&[seen[*u] as u8, 0, 0, 0, 0, 0, 0, 0]);
                continue;
            }
            seen[*u] = i;
            let (m, a) = (&uniq[*u], &pre[*u]);
            put!(&[0xff, m.signer as u8, m.writable as u8, a.exec as u8, 0, 0, 0, 0]);
            put!(m.key.as_ref());
            at[*u] = o; // owner, lamports, length, data
            put!(a.owner.as_ref());
            put!(&a.lamports.to_le_bytes());
            put!(&(a.data.len() as u64).to_le_bytes());
            put!(&a.data);
            o += MAX_PERMITTED_DATA_INCREASE;
            o = (o + 7) / 8 * 8;
            put!(&0u64.to_le_bytes());
        }
        put!(&(data.len() as u64).to_le_bytes());
        put!(data);
        put!(crate::abi::PROGRAM.as_ref());
        assert!(o <= words * 8);

        CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.clock = self.clock.clone();
            c.ret.clear();
            c.logs.clear();
            c.depth = 1;
            c.keys = uniq.iter().map(|m| m.key).collect();
        });
        let res = catch_unwind(AssertUnwindSafe(|| {
            let (pid, infos, ixd) = unsafe { solana_program::entrypoint::deserialize(base) };
            let infos: &'static [AccountInfo<'static>] =
                unsafe { std::mem::transmute(infos.as_slice()) };
            let r = openbook_v2::entry(pid, infos, ixd);
            // Dropping the vector behind `infos` happens at the end of this closure.
            r
        }));
        match res {
            Err(_) => return Err(Fail::Panic),
            Ok(Err(e)) => return Err(Fail::Err(e.into())),
            Ok(Ok(())) => {}
        }

        let rd = |o: usize, n: usize| unsafe { std::slice::from_raw_parts(base.add(o), n) };
        let mut post: Vec<Acct> = vec![];
        for (i, a) in pre.iter().enumerate() {
            let o = at[i];
            let owner = Pubkey::try_from(rd(o, 32)).unwrap();
            let lamports = u64::from_le_bytes(rd(o + 32, 8).try_into().unwrap());
            let len = u64::from_le_bytes(rd(o + 40, 8).try_into().unwrap()) as usize;
            if len > a.data.len() + MAX_PERMITTED_DATA_INCREASE {
                return Err(Fail::Runtime("realloc"));
            }
            post.push(Acct {
                lamports,
                data: rd(o + 48, len).to_vec(),
                owner,
                exec: a.exec,
            });
        }
        let sum = |v: &[Acct]| v.iter().map(|a| a.lamports as u128).sum::<u128>();
        if sum(&pre) != sum(&post) {
            return Err(Fail::Runtime("lamports"));
        }
        for (i, m) in uniq.iter().enumerate() {
            if pre[i] != post[i] && !m.writable {
                return Err(Fail::Runtime("readonly"));
            }
            let a = &post[i];
            if a.lamports != 0
                && pre[i].data.len() != a.data.len()
                && a.lamports < min_rent(a.data.len())
            {
                return Err(Fail::Runtime("rent"));
            }
        }
        for (m, a) in uniq.iter().zip(post) {
            if a.lamports == 0 {
                self.accts.remove(&m.key);
            } else {
                self.accts.insert(m.key, a);
            }
        }
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            Ok(Done {
                ret: std::mem::take(&mut c.ret),
                logs: std::mem::take(&mut c.logs),
            })
        })
    }
}
