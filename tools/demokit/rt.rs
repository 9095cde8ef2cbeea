//! Emulation of the part of the Solana runtime the program relies on: accounts
//! and their ownership rules, signer/writable privileges, sysvars, CPIs into
//! the system and token programs, return data, and atomicity.
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE},
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_instruction::SystemInstruction,
    system_program, sysvar,
};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Once,
};

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Account {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
}

#[derive(Default, Clone)]
pub struct Bank {
    pub now: i64,
    pub accounts: BTreeMap<Pubkey, Account>,
}

#[derive(Debug, Clone)]
pub struct TxResult {
    pub ok: bool,
    pub err: String,
    pub ret: Option<Vec<u8>>,
}

thread_local! {
    static NOW: Cell<i64> = Cell::new(0);
    static RET: RefCell<Option<Vec<u8>>> = RefCell::new(None);
    static PRE: RefCell<Vec<Account>> = RefCell::new(vec![]);
    static CPI_ERR: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: Cell<bool> = Cell::new(false);
    static PRIV: RefCell<BTreeMap<Pubkey, (bool, bool)>> = RefCell::new(BTreeMap::new());
    // addresses of the accounts of the running instruction, in order of first use
    static KEYS: RefCell<Vec<Pubkey>> = RefCell::new(vec![]);
    // instead of running CPIs, record them
    static CAUGHT: RefCell<Option<Vec<Caught>>> = RefCell::new(None);
}

/// A CPI: the instruction, the accounts passed along, the signer seeds.
pub type Caught = (Instruction, Vec<Pubkey>, Vec<Vec<Vec<u8>>>);

/// Runs `f` with its CPIs recorded, not executed.
pub fn catch_cpi(f: impl FnOnce() -> ProgramResult) -> Vec<Caught> {
    CAUGHT.with(|c| *c.borrow_mut() = Some(vec![]));
    let r = f();
    let l = CAUGHT.with(|c| c.borrow_mut().take()).unwrap();
    assert!(r.is_ok(), "the client's CPI fails: {r:?}");
    l
}

pub const NATIVE_LOADER: Pubkey = solana_program::pubkey!("NativeLoader1111111111111111111111111111111");

struct Stubs;

impl SyscallStubs for Stubs {
    fn sol_log(&self, _message: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let c = Clock { unix_timestamp: NOW.with(|n| n.get()), ..Clock::default() };
        unsafe { *(var_addr as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = Rent::default() };
        0
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        RET.with(|r| *r.borrow_mut() = Some(data.to_vec()));
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        RET.with(|r| r.borrow().clone()).map(|d| (mplx_rewards::id(), d))
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        if CAUGHT.with(|c| match c.borrow_mut().as_mut() {
            None => false,
            Some(l) => {
                let seeds = seeds.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect();
                l.push((ix.clone(), infos.iter().map(|i| *i.key).collect(), seeds));
                true
            }
        }) {
            return Ok(());
        }
        let r = cpi(ix, infos, seeds);
        if let Err(e) = &r {
            // a failed CPI aborts the transaction, whatever the caller does next
            CPI_ERR.with(|c| *c.borrow_mut() = Some(format!("{e:?}")));
        }
        r
    }
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let me = mplx_rewards::id();
    let mut signers = vec![];
    for s in seeds {
        signers.push(
            Pubkey::create_program_address(s, &me).map_err(|_| ProgramError::InvalidSeeds)?,
        );
    }
    // the caller's own changes must already be legal
    let cur: Vec<Option<Account>> = KEYS.with(|k| {
        k.borrow().iter().map(|key| infos.iter().find(|i| i.key == key).map(snapshot)).collect()
    });
    PRE.with(|p| {
        let pre = p.borrow();
        for (i, c) in cur.iter().enumerate() {
            if let Some(c) = c {
                let (_, w) = PRIV.with(|pr| pr.borrow()[&KEYS.with(|k| k.borrow()[i])]);
                check_change(&pre[i], c, w, &me)?;
            }
        }
        Ok::<(), ProgramError>(())
    })?;
    let mut callee: Vec<AccountInfo> = vec![];
    for m in &ix.accounts {
        let i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
        let (s, w) = PRIV.with(|p| p.borrow().get(&m.pubkey).copied()).unwrap_or((false, false));
        if m.is_signer && !s && !signers.contains(&m.pubkey) {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if m.is_writable && !w {
            return Err(ProgramError::InvalidArgument);
        }
        let mut c = i.clone();
        c.is_signer = m.is_signer;
        c.is_writable = m.is_writable;
        callee.push(c);
    }
    if ix.program_id == spl_token::id() {
        let before: Vec<Account> = callee.iter().map(snapshot).collect();
        spl_token::processor::Processor::process(&ix.program_id, &callee, &ix.data)?;
        for (b, c) in before.iter().zip(callee.iter()) {
            let w = ix.accounts.iter().any(|m| m.pubkey == *c.key && m.is_writable);
            check_change(b, &snapshot(c), w, &spl_token::id())?;
        }
    } else if ix.program_id == system_program::id() {
        system(ix, &callee)?;
    } else {
        return Err(ProgramError::IncorrectProgramId);
    }
    // what the callee did is not the caller's doing
    PRE.with(|p| {
        let mut pre = p.borrow_mut();
        KEYS.with(|k| {
            for (i, key) in k.borrow().iter().enumerate() {
                if let Some(c) = callee.iter().find(|c| c.key == key) {
                    pre[i] = snapshot(c);
                }
            }
        });
    });
    Ok(())
}

fn system(ix: &Instruction, a: &[AccountInfo]) -> ProgramResult {
    let six: SystemInstruction =
        bincode_de(&ix.data).ok_or(ProgramError::InvalidInstructionData)?;
    let transfer = |from: &AccountInfo, to: &AccountInfo, n: u64| -> ProgramResult {
        if !from.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !from.is_writable || !to.is_writable || *from.owner != system_program::id() || !from.data_is_empty() {
            return Err(ProgramError::InvalidArgument);
        }
        if from.lamports() < n {
            return Err(ProgramError::InsufficientFunds);
        }
        **from.lamports.borrow_mut() -= n;
        **to.lamports.borrow_mut() += n;
        Ok(())
    };
    let allocate = |to: &AccountInfo, space: u64| -> ProgramResult {
        if !to.is_signer || !to.is_writable {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !to.data_is_empty() || *to.owner != system_program::id() {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        if space as usize > MAX_PERMITTED_DATA_INCREASE {
            return Err(ProgramError::InvalidRealloc);
        }
        let mut d = to.data.borrow_mut();
        let p = d.as_mut_ptr();
        // the buffer has room for this (see `run`)
        *d = unsafe {
            *(p.sub(8) as *mut u64) = space;
            std::slice::from_raw_parts_mut(p, space as usize)
        };
        d.fill(0);
        Ok(())
    };
    let assign = |to: &AccountInfo, owner: &Pubkey| -> ProgramResult {
        if to.owner != owner {
            if !to.is_signer || !to.is_writable || *to.owner != system_program::id() {
                return Err(ProgramError::MissingRequiredSignature);
            }
            to.assign(owner);
        }
        Ok(())
    };
    let need = |n: usize| if a.len() < n { Err(ProgramError::NotEnoughAccountKeys) } else { Ok(()) };
    match six {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            need(2)?;
            if a[1].lamports() > 0 {
                return Err(ProgramError::Custom(0)); // AccountAlreadyInUse
            }
            allocate(&a[1], space)?;
            assign(&a[1], &owner)?;
            transfer(&a[0], &a[1], lamports)
        }
        SystemInstruction::Transfer { lamports } => {
            need(2)?;
            transfer(&a[0], &a[1], lamports)
        }
        SystemInstruction::Allocate { space } => {
            need(1)?;
            allocate(&a[0], space)
        }
        SystemInstruction::Assign { owner } => {
            need(1)?;
            assign(&a[0], &owner)
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// System instructions are bincode: u32 tag, then little-endian fields.
fn bincode_de(d: &[u8]) -> Option<SystemInstruction> {
    let tag = u32::from_le_bytes(d.get(0..4)?.try_into().ok()?);
    let u = |i: usize| -> Option<u64> { Some(u64::from_le_bytes(d.get(i..i + 8)?.try_into().ok()?)) };
    let k = |i: usize| -> Option<Pubkey> { Some(Pubkey::new_from_array(d.get(i..i + 32)?.try_into().ok()?)) };
    Some(match tag {
        0 => SystemInstruction::CreateAccount { lamports: u(4)?, space: u(12)?, owner: k(20)? },
        1 => SystemInstruction::Assign { owner: k(4)? },
        2 => SystemInstruction::Transfer { lamports: u(4)? },
        8 => SystemInstruction::Allocate { space: u(4)? },
        _ => return None,
    })
}

fn snapshot(i: &AccountInfo) -> Account {
    // try_borrow: the running program may hold a borrow of an account it did not pass on
    Account {
        lamports: i.try_borrow_lamports().map(|l| **l).unwrap_or(0),
        data: i.try_borrow_data().map(|d| d.to_vec()).unwrap_or_default(),
        owner: *i.owner,
    }
}

/// May `program` turn `pre` into `post`?
fn check_change(pre: &Account, post: &Account, writable: bool, program: &Pubkey) -> ProgramResult {
    if pre == post {
        return Ok(());
    }
    if !writable {
        return Err(ProgramError::Custom(0xffff_0001));
    }
    if pre.owner != post.owner && (pre.owner != *program || post.data.iter().any(|b| *b != 0)) {
        return Err(ProgramError::IllegalOwner);
    }
    if pre.data != post.data && pre.owner != *program {
        return Err(ProgramError::IllegalOwner);
    }
    if post.lamports < pre.lamports && pre.owner != *program {
        return Err(ProgramError::IllegalOwner);
    }
    if post.data.len() > pre.data.len() + MAX_PERMITTED_DATA_INCREASE {
        return Err(ProgramError::InvalidRealloc);
    }
    Ok(())
}

static INIT: Once = Once::new();

pub fn init() {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            // a panic inside the program is an aborted transaction, i.e. data
            if !QUIET.with(|q| q.get()) {
                hook(i)
            }
        }));
    });
}

pub fn rent_account() -> Account {
    let r = Rent::default();
    let mut d = vec![];
    d.extend_from_slice(&r.lamports_per_byte_year.to_le_bytes());
    d.extend_from_slice(&r.exemption_threshold.to_le_bytes());
    d.push(r.burn_percent);
    Account { lamports: 1, data: d, owner: sysvar::id() }
}

/// The input buffer of the program's entry point.
struct Abi {
    buf: Vec<u128>,
    // per account: where it starts
    at: Vec<usize>,
}

impl Abi {
    /// None if the accounts would not be aligned as this machine needs it (the
    /// runtime aligns to 8 bytes, which is enough for the program there).
    fn new(ix: &Instruction, keys: &[Pubkey], pre: &[Account], privs: &BTreeMap<Pubkey, (bool, bool)>) -> Option<Abi> {
        let size = 16 + ix.accounts.len() * 16 + keys.len() * (128 + MAX_PERMITTED_DATA_INCREASE)
            + pre.iter().map(|a| a.data.len()).sum::<usize>() + ix.data.len() + 64;
        let mut v: Vec<u8> = Vec::with_capacity(size);
        let mut at: Vec<usize> = vec![];
        let mut place: Vec<usize> = vec![];
        v.extend_from_slice(&(ix.accounts.len() as u64).to_le_bytes());
        for (i, m) in ix.accounts.iter().enumerate() {
            let k = keys.iter().position(|k| *k == m.pubkey).unwrap();
            if k < at.len() {
                v.extend_from_slice(&[place[k] as u8, 0, 0, 0, 0, 0, 0, 0]);
                continue;
            }
            at.push(v.len());
            place.push(i);
            let a = &pre[k];
            let (s, w) = privs[&m.pubkey];
            let x = a.owner == NATIVE_LOADER;
            v.extend_from_slice(&[0xff, s as u8, w as u8, x as u8]);
            v.extend_from_slice(&[0; 4]);
            v.extend_from_slice(m.pubkey.as_ref());
            v.extend_from_slice(a.owner.as_ref());
            v.extend_from_slice(&a.lamports.to_le_bytes());
            v.extend_from_slice(&(a.data.len() as u64).to_le_bytes());
            if v.len() % 16 != 0 && a.owner != spl_token::id() && a.owner != sysvar::id() {
                return None;
            }
            v.extend_from_slice(&a.data);
            v.resize(v.len() + MAX_PERMITTED_DATA_INCREASE, 0);
            v.resize((v.len() + 7) / 8 * 8, 0);
            v.extend_from_slice(&0u64.to_le_bytes());
        }
        v.extend_from_slice(&(ix.data.len() as u64).to_le_bytes());
        v.extend_from_slice(&ix.data);
        v.extend_from_slice(ix.program_id.as_ref());
        let mut buf = vec![0u128; v.len() / 16 + 2];
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), buf.as_mut_ptr() as *mut u8, v.len()) };
        Some(Abi { buf, at })
    }

    fn accounts(&self) -> Vec<Account> {
        let b = unsafe { std::slice::from_raw_parts(self.buf.as_ptr() as *const u8, self.buf.len() * 16) };
        let u = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        self.at
            .iter()
            .map(|&i| Account {
                owner: Pubkey::new_from_array(b[i + 40..i + 72].try_into().unwrap()),
                lamports: u(i + 72),
                data: b[i + 88..i + 88 + u(i + 80) as usize].to_vec(),
            })
            .collect()
    }
}

type Outcome = std::thread::Result<ProgramResult>;

fn direct<F>(
    ix: &Instruction,
    keys: &[Pubkey],
    pre: &[Account],
    privs: &BTreeMap<Pubkey, (bool, bool)>,
    f: F,
) -> (Outcome, Vec<Account>)
where
    F: for<'a> FnOnce(&'a Pubkey, &'a [AccountInfo<'a>], &'a [u8]) -> ProgramResult,
{
    // one buffer per account: 16 bytes of header (realloc writes the length
    // there), the data, and room to grow; 16-aligned
    let n = keys.len();
    let mut bufs: Vec<Vec<u128>> = pre
        .iter()
        .map(|a| vec![0u128; 1 + (a.data.len() + MAX_PERMITTED_DATA_INCREASE) / 16 + 2])
        .collect();
    let mut lamports: Vec<u64> = pre.iter().map(|a| a.lamports).collect();
    let owners: Vec<Pubkey> = pre.iter().map(|a| a.owner).collect();
    let data: Vec<u8> = ix.data.clone();
    let mut uniq: Vec<AccountInfo> = vec![];
    let mut lam: &mut [u64] = &mut lamports;
    for i in 0..n {
        let (l0, rest) = lam.split_first_mut().unwrap();
        lam = rest;
        let len = pre[i].data.len();
        let bytes: &mut [u8] = unsafe {
            let base = bufs[i].as_mut_ptr() as *mut u8;
            *(base.add(8) as *mut u64) = len as u64;
            std::slice::from_raw_parts_mut(base.add(16), len)
        };
        bytes.copy_from_slice(&pre[i].data);
        let (s, w) = privs[&keys[i]];
        uniq.push(AccountInfo::new(&keys[i], s, w, l0, bytes, &owners[i], false, 0));
    }
    let list: Vec<AccountInfo> = ix
        .accounts
        .iter()
        .map(|m| uniq[keys.iter().position(|k| *k == m.pubkey).unwrap()].clone())
        .collect();
    QUIET.with(|q| q.set(true));
    // SAFETY: the infos outlive the call; nothing the program returns borrows them
    let outcome = catch_unwind(AssertUnwindSafe(|| unsafe {
        let l: &[AccountInfo<'static>] = std::mem::transmute(&list[..]);
        let d: &'static [u8] = std::mem::transmute(&data[..]);
        let id: &'static Pubkey = Box::leak(Box::new(ix.program_id));
        f(id, l, d)
    }));
    QUIET.with(|q| q.set(false));
    let post = uniq.iter().map(snapshot).collect();
    (outcome, post)
}

impl Bank {
    fn get(&self, k: &Pubkey) -> Account {
        if *k == sysvar::rent::id() {
            return rent_account();
        }
        if *k == system_program::id() || *k == spl_token::id() || *k == mplx_rewards::id() {
            return Account { lamports: 1, data: vec![], owner: NATIVE_LOADER };
        }
        self.accounts.get(k).cloned().unwrap_or(Account { lamports: 0, data: vec![], owner: system_program::id() })
    }

    /// Runs one transaction holding one instruction of the program.
    pub fn run(&mut self, ix: &Instruction) -> TxResult {
        self.run_how(ix, true, |id, accs, data| mplx_rewards::instructions::process_instruction(id, accs, data))
    }

    pub fn run_with<F>(&mut self, ix: &Instruction, f: F) -> TxResult
    where
        F: for<'a> FnOnce(&'a Pubkey, &'a [AccountInfo<'a>], &'a [u8]) -> ProgramResult,
    {
        self.run_how(ix, false, f)
    }

    fn run_how<F>(&mut self, ix: &Instruction, enter: bool, f: F) -> TxResult
    where
        F: for<'a> FnOnce(&'a Pubkey, &'a [AccountInfo<'a>], &'a [u8]) -> ProgramResult,
    {
        init();
        NOW.with(|n| n.set(self.now));
        RET.with(|r| *r.borrow_mut() = None);
        CPI_ERR.with(|r| *r.borrow_mut() = None);
        // privileges belong to the account
        let mut keys: Vec<Pubkey> = vec![];
        let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for AccountMeta { pubkey, is_signer, is_writable } in &ix.accounts {
            if !keys.contains(pubkey) {
                keys.push(*pubkey);
            }
            let e = privs.entry(*pubkey).or_insert((false, false));
            e.0 |= *is_signer;
            e.1 |= *is_writable;
        }
        // sysvars and programs are never writable
        for k in [system_program::id(), spl_token::id(), mplx_rewards::id(), sysvar::rent::id()] {
            if let Some(e) = privs.get_mut(&k) {
                e.1 = false;
            }
        }
        let pre: Vec<Account> = keys.iter().map(|k| self.get(k)).collect();
        PRE.with(|p| *p.borrow_mut() = pre.clone());
        KEYS.with(|k| *k.borrow_mut() = keys.clone());
        PRIV.with(|p| *p.borrow_mut() = privs.clone());

        let abi = if enter { Abi::new(ix, &keys, &pre, &privs) } else { None };
        let (outcome, post) = match abi {
            Some(mut abi) => {
                // through the program's entry point, as the runtime enters it
                QUIET.with(|q| q.set(true));
                let p = abi.buf.as_mut_ptr() as *mut u8;
                let r = catch_unwind(AssertUnwindSafe(|| unsafe { mplx_rewards::entrypoint::entrypoint(p) }));
                QUIET.with(|q| q.set(false));
                let post = abi.accounts();
                (r.map(|code| if code == 0 { Ok(()) } else { Err(ProgramError::from(code)) }), post)
            }
            None => direct(ix, &keys, &pre, &privs, f),
        };
        let mut err = match outcome {
            Ok(Ok(())) => String::new(),
            Ok(Err(e)) => format!("{e:?}"),
            Err(_) => "panic".into(),
        };
        if err.is_empty() {
            if let Some(e) = CPI_ERR.with(|c| c.borrow().clone()) {
                err = format!("failed CPI: {e}");
            }
        }
        if err.is_empty() {
            PRE.with(|p| {
                for (i, a) in p.borrow().iter().enumerate() {
                    if let Err(e) = check_change(a, &post[i], privs[&keys[i]].1, &ix.program_id) {
                        err = format!("{e:?} account change");
                        return;
                    }
                }
            });
        }
        let sum = |v: &[Account]| v.iter().map(|a| a.lamports as u128).sum::<u128>();
        if err.is_empty() && sum(&pre) != sum(&post) {
            err = "unbalanced lamports".into();
        }
        if !err.is_empty() {
            return TxResult { ok: false, err, ret: None };
        }
        for (k, a) in keys.iter().zip(post) {
            if a.lamports == 0 {
                self.accounts.remove(k); // purged, whatever its data
            } else if self.get(k) != a {
                self.accounts.insert(*k, a);
            }
        }
        TxResult { ok: true, err, ret: RET.with(|r| r.borrow().clone()) }
    }
}
