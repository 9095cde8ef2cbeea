//! A small laboratory: pools, users and their token accounts on the emulated runtime.
#![allow(dead_code)]
use crate::rt::{Account, Bank, TxResult};
pub use mplx_rewards::utils::LockupPeriod::{self, Flex, OneYear, SixMonths, ThreeMonths};
use mplx_rewards::instruction as ix;
use solana_program::{hash::hashv, instruction::Instruction, program_option::COption, program_pack::Pack, pubkey::Pubkey, rent::Rent, system_program};
use spl_token::state::{Account as TokAccount, AccountState, Mint};
use std::collections::BTreeMap;

pub const DAY: u64 = 86400;
/// the beginning of a day
pub const T0: u64 = 19676 * DAY;
const POOL_LEN: usize = 176 + 32 + 365 * 32 + 32 + 1095 * 48;

pub fn id() -> Pubkey { mplx_rewards::id() }
pub fn named(kind: &str, n: &str) -> Pubkey { Pubkey::new_from_array(hashv(&[b"lab", kind.as_bytes(), n.as_bytes()]).to_bytes()) }
pub fn w(n: &str) -> Pubkey { named("wallet", n) }

#[derive(Clone)]
pub struct Lab {
    pub bank: Bank,
    pub pool: String,
    pub last: String,
    /// signer of pool instructions
    pub auth: String,
}

impl Lab {
    /// A pool "p" with its authorities "auth", "fill", "dist"; a mint; the filler's tokens.
    pub fn new() -> Lab {
        let mut l = Lab { bank: Bank::default(), pool: "p".into(), last: String::new(), auth: "auth".into() };
        l.bank.now = T0 as i64;
        l.mint("m");
        for n in ["auth", "fill", "dist", "payer"] { l.rich(n); }
        l.tok("fill", "fill", u64::MAX / 4);
        assert!(l.init("p"), "{}", l.last);
        l
    }
    pub fn rich(&mut self, n: &str) { self.bank.accounts.insert(w(n), Account { lamports: 1_000_000_000_000, data: vec![], owner: system_program::id() }); }
    pub fn mint(&mut self, m: &str) {
        let mut data = vec![0; Mint::LEN];
        Mint::pack(Mint { mint_authority: COption::None, supply: u64::MAX, decimals: 6, is_initialized: true, freeze_authority: COption::None }, &mut data).unwrap();
        self.bank.accounts.insert(named("mint", m), Account { lamports: 1_000_000_000, data, owner: spl_token::id() });
    }
    pub fn tok(&mut self, name: &str, owner: &str, amount: u64) { self.tok_of("m", name, w(owner), amount) }
    pub fn tok_of(&mut self, mint: &str, name: &str, owner: Pubkey, amount: u64) {
        let st = TokAccount { mint: named("mint", mint), owner, amount, delegate: COption::None, state: AccountState::Initialized, is_native: COption::None, delegated_amount: 0, close_authority: COption::None };
        let mut data = vec![0; TokAccount::LEN];
        TokAccount::pack(st, &mut data).unwrap();
        self.bank.accounts.insert(named("tok", name), Account { lamports: 2_039_280, data, owner: spl_token::id() });
    }
    pub fn run(&mut self, i: &Instruction) -> bool { self.run_full(i).ok }
    pub fn run_full(&mut self, i: &Instruction) -> TxResult {
        let r = self.bank.run(i);
        self.last = r.err.clone();
        r
    }
    pub fn p(&self) -> Pubkey { named("pool", &self.pool) }
    pub fn m(&self, u: &str) -> Pubkey { Pubkey::find_program_address(&[b"mining", w(u).as_ref(), self.p().as_ref()], &id()).0 }
    pub fn vault(&self) -> Pubkey { Pubkey::find_program_address(&[b"vault", self.p().as_ref(), named("mint", "m").as_ref()], &id()).0 }
    pub fn raw_pool(&mut self, name: &str) {
        self.bank.accounts.insert(named("pool", name), Account { lamports: Rent::default().minimum_balance(POOL_LEN), data: vec![0; POOL_LEN], owner: id() });
    }
    /// Creates pool `name` and makes it the current one.
    pub fn init(&mut self, name: &str) -> bool {
        self.pool = name.into();
        self.raw_pool(name);
        let i = self.init_ix();
        self.run(&i)
    }
    pub fn init_ix(&self) -> Instruction { ix::initialize_pool(&id(), &self.p(), &named("mint", "m"), &self.vault(), &w("payer"), &w("auth"), &w("fill"), &w("dist")) }
    pub fn join(&mut self, u: &str) -> bool {
        if !self.bank.accounts.contains_key(&w(u)) { self.rich(u); self.tok(u, u, 0); }
        let i = ix::initialize_mining(&id(), &self.p(), &self.m(u), &w("payer"), &w(u));
        self.run(&i)
    }
    pub fn deposit_ix(&self, u: &str, n: u64, l: LockupPeriod, d: &str) -> Instruction { ix::deposit_mining(&id(), &self.p(), &self.m(u), &w(&self.auth), &self.m(d), n, l, &w(u), &w(d)) }
    pub fn deposit(&mut self, u: &str, n: u64, l: LockupPeriod, d: &str) -> bool { let i = self.deposit_ix(u, n, l, d); self.run(&i) }
    pub fn withdraw_ix(&self, u: &str, n: u64, d: &str) -> Instruction { ix::withdraw_mining(&id(), &self.p(), &self.m(u), &w(&self.auth), &self.m(d), n, &w(u), &w(d)) }
    pub fn withdraw(&mut self, u: &str, n: u64, d: &str) -> bool { let i = self.withdraw_ix(u, n, d); self.run(&i) }
    pub fn extend_ix(&self, u: &str, old: LockupPeriod, new: LockupPeriod, start: u64, base: u64, add: u64, d: &str) -> Instruction {
        ix::extend_stake(&id(), &self.p(), &self.m(u), &w(&self.auth), &self.m(d), old, new, start, base, add, &w(u), &w(d))
    }
    pub fn extend(&mut self, u: &str, old: LockupPeriod, new: LockupPeriod, start: u64, base: u64, add: u64, d: &str) -> bool {
        let i = self.extend_ix(u, old, new, start, base, add, d);
        self.run(&i)
    }
    pub fn claim_ix(&self, u: &str) -> Instruction { ix::claim(&id(), &self.p(), &named("mint", "m"), &self.vault(), &self.m(u), &w(u), &w(&self.auth), &named("tok", u)) }
    /// The amount the claim says it paid.
    pub fn claim(&mut self, u: &str) -> Option<u64> {
        let i = self.claim_ix(u);
        let r = self.run_full(&i);
        if r.ok { r.ret.filter(|d| d.len() == 8).map(|d| u64::from_le_bytes(d.try_into().unwrap())) } else { None }
    }
    pub fn fill_ix(&self, n: u64, ends: u64) -> Instruction { ix::fill_vault(&id(), &self.p(), &named("mint", "m"), &self.vault(), &w("fill"), &named("tok", "fill"), n, ends) }
    pub fn fill(&mut self, n: u64, ends: u64) -> bool { let i = self.fill_ix(n, ends); self.run(&i) }
    pub fn distribute_ix(&self) -> Instruction { ix::distribute_rewards(&id(), &self.p(), &w("dist")) }
    pub fn distribute(&mut self) -> bool { let i = self.distribute_ix(); self.run(&i) }
    pub fn slash_ix(&self, u: &str, native: u64, weighted: u64, exp: Option<u64>) -> Instruction { ix::slash(&id(), &w(&self.auth), &self.p(), &self.m(u), &w(u), native, weighted, exp) }
    pub fn slash(&mut self, u: &str, native: u64, weighted: u64, exp: Option<u64>) -> bool { let i = self.slash_ix(u, native, weighted, exp); self.run(&i) }
    pub fn penal(&mut self, u: &str, n: u64) -> bool { let i = ix::decrease_rewards(&id(), &w(&self.auth), &self.p(), &self.m(u), &w(u), n); self.run(&i) }
    pub fn close_ix(&self, u: &str, target: &str) -> Instruction { ix::close_mining(&id(), &self.m(u), &w(u), &w(target), &w(&self.auth), &self.p()) }
    pub fn close(&mut self, u: &str, target: &str) -> bool { let i = self.close_ix(u, target); self.run(&i) }
    pub fn delegate_ix(&self, u: &str, old: &str, new: &str, n: u64) -> Instruction { ix::change_delegate(&id(), &self.p(), &self.m(u), &w(&self.auth), &w(u), &self.m(old), &self.m(new), &w(new), n) }
    pub fn delegate(&mut self, u: &str, old: &str, new: &str, n: u64) -> bool { let i = self.delegate_ix(u, old, new, n); self.run(&i) }

    pub fn now(&self) -> u64 { self.bank.now as u64 }
    pub fn tick(&mut self, n: u64) { self.bank.now += n as i64; }
    pub fn days(&mut self, n: u64) { self.tick(n * DAY); }
    pub fn day(&self) -> u64 { self.now() / DAY * DAY }

    fn data(&self, k: &Pubkey) -> &[u8] { &self.bank.accounts.get(k).expect("account").data }
    fn u(&self, k: &Pubkey, i: usize) -> u64 { u64::from_le_bytes(self.data(k)[i..i + 8].try_into().unwrap()) }
    fn u128(&self, k: &Pubkey, i: usize) -> u128 { u128::from_le_bytes(self.data(k)[i..i + 16].try_into().unwrap()) }
    pub fn exists(&self, u: &str) -> bool { self.bank.accounts.contains_key(&self.m(u)) }
    pub fn share(&self, u: &str) -> u64 { self.u(&self.m(u), 112) }
    pub fn unclaimed(&self, u: &str) -> u64 { self.u(&self.m(u), 120) }
    pub fn others(&self, u: &str) -> u64 { self.u(&self.m(u), 128) }
    pub fn index_of(&self, u: &str) -> u128 { self.u128(&self.m(u), 96) }
    pub fn index(&self) -> u128 { self.u128(&self.p(), 128) }
    pub fn total(&self) -> u64 { self.u(&self.p(), 144) }
    pub fn ends_at(&self) -> u64 { self.u(&self.p(), 152) }
    pub fn avail(&self) -> u64 { self.u(&self.p(), 160) }
    pub fn boosts(&self, u: &str) -> BTreeMap<u64, u64> { tree(&self.data(&self.m(u))[144..], 50) }
    pub fn pool_boosts(&self) -> BTreeMap<u64, u64> { tree(&self.data(&self.p())[176..176 + 32 + 365 * 32], 365) }
    pub fn tokens(&self, name: &str) -> u64 { TokAccount::unpack(self.data(&named("tok", name))).unwrap().amount }
    pub fn in_vault(&self) -> u64 { TokAccount::unpack(self.data(&self.vault())).unwrap().amount }
    pub fn lamports(&self, k: &Pubkey) -> u64 { self.bank.accounts.get(k).map_or(0, |a| a.lamports) }
}

fn tree(d: &[u8], cap: usize) -> BTreeMap<u64, u64> {
    let u32le = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap()) as usize;
    let u64le = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    let mut out = BTreeMap::new();
    let mut todo = vec![u32le(0)];
    while let Some(n) = todo.pop() {
        if n == 0 || n > cap || out.len() > cap { continue; }
        let at = 32 + (n - 1) * 32;
        out.insert(u64le(at + 16), u64le(at + 24));
        todo.push(u32le(at));
        todo.push(u32le(at + 4));
    }
    out
}
