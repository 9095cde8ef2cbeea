//! Between the symbolic world and accounts/bytes: addresses, account layouts
//! and instruction data, written down independently of the program's own
//! encoders and decoders.
use crate::itf::*;
use crate::rt::{Account, Bank, TxResult};
use solana_program::{
    hash::hashv,
    instruction::{AccountMeta, Instruction},
    program_option::COption,
    program_pack::Pack,
    pubkey::Pubkey,
    rent::Rent,
    system_program, sysvar,
};
use spl_token::state::{Account as TokAccount, AccountState, Mint};
use std::collections::BTreeMap;

pub const MINING_LEN: usize = 144 + 32 + 50 * 32;
pub const POOL_HEAD: usize = 176;
pub const POOL_LEN: usize = POOL_HEAD + 32 + 365 * 32 + 32 + 1095 * 48;

#[derive(Clone, Default)]
pub struct Sim {
    pub bank: Bank,
    pub names: BTreeMap<Pubkey, Acct>,
    keys: BTreeMap<Acct, Pubkey>,
}

thread_local! {
    static BLANK: std::cell::RefCell<std::collections::HashMap<String, Pubkey>> = Default::default();
}
fn named(kind: &str, n: &str) -> Pubkey {
    let key = |salt: &[u8]| Pubkey::new_from_array(hashv(&[b"mplxh", kind.as_bytes(), n.as_bytes(), salt]).to_bytes());
    // these begin with a zero byte, so that accounts that begin with them do
    if matches!((kind, n), ("pool", "p1") | ("wallet", "auth")) {
        return BLANK.with(|b| *b.borrow_mut().entry(kind.to_string()).or_insert_with(|| (0u16..).map(|i| key(&i.to_le_bytes())).find(|k| k.as_ref()[0] == 0).unwrap()));
    }
    key(&[])
}
/// The nameless wallet, nobody's, is the zero address.
pub fn wallet_key(n: &str) -> Pubkey {
    if n.is_empty() {
        return Pubkey::default();
    }
    named("wallet", n)
}

impl Sim {
    pub fn key(&mut self, a: &Acct) -> Pubkey {
        if let Some(k) = self.keys.get(a) {
            return *k;
        }
        let id = mplx_rewards::id();
        let k = match a {
            Acct::Pool(p) => named("pool", p),
            Acct::Mining(p, o) => {
                Pubkey::find_program_address(
                    &[b"mining", wallet_key(o).as_ref(), named("pool", p).as_ref()],
                    &id,
                )
                .0
            }
            Acct::Vault(p, m) => {
                Pubkey::find_program_address(
                    &[b"vault", named("pool", p).as_ref(), named("mint", m).as_ref()],
                    &id,
                )
                .0
            }
            Acct::Tok(t) => named("tok", t),
            Acct::Mint(m) => named("mint", m),
            Acct::Wallet(n) => wallet_key(n),
            Acct::Prog(n) => match n.as_str() {
                "system" => system_program::id(),
                "token" => spl_token::id(),
                "rent" => sysvar::rent::id(),
                "rewards" => id,
                _ => named("prog", n),
            },
            Acct::Foreign(k, n) => named("foreign", &format!("{k}/{n}")),
        };
        self.keys.insert(a.clone(), k);
        self.names.insert(k, a.clone());
        k
    }

    fn wallet_name(&self, k: &Pubkey) -> String {
        match self.names.get(k) {
            Some(Acct::Wallet(n)) => n.clone(),
            _ if *k == Pubkey::default() => "".into(),
            _ => format!("?{k}"),
        }
    }
    fn mint_name(&self, k: &Pubkey) -> String {
        match self.names.get(k) {
            Some(Acct::Mint(n)) => n.clone(),
            _ if *k == Pubkey::default() => "".into(),
            _ => format!("?{k}"),
        }
    }

    /// Every ordinary token account may be spent from and closed by another participant's wallet,
    /// which makes it nobody else's: only the owner counts.
    fn tok_account(&mut self, t: &TokenSt) -> Account {
        let other = match t.owner.as_str() {
            "a" => "b",
            "b" => "c",
            "c" => "a",
            _ => "a",
        };
        let other = COption::Some(self.key(&Acct::Wallet(other.into())));
        let st = TokAccount {
            mint: self.key(&Acct::Mint(t.mint.clone())),
            owner: self.key(&Acct::Wallet(t.owner.clone())),
            amount: t.amount,
            delegate: other,
            state: AccountState::Initialized,
            is_native: COption::None,
            delegated_amount: 0,
            close_authority: other,
        };
        let mut data = vec![0; TokAccount::LEN];
        TokAccount::pack(st, &mut data).unwrap();
        Account { lamports: Rent::default().minimum_balance(TokAccount::LEN), data, owner: spl_token::id() }
    }

    /// A world without pools, minings and vaults: what exists before the program is used.
    pub fn genesis(w: &World) -> Sim {
        let mut s = Sim::default();
        assert!(w.pools.is_empty() && w.minings.is_empty() && w.vaults.is_empty(), "not a genesis world");
        s.bank.now = w.now as i64;
        for n in ["system", "token", "rent", "rewards"] {
            s.key(&Acct::Prog(n.into()));
        }
        for (p, len) in &w.raw {
            let k = s.key(&Acct::Pool(p.clone()));
            s.bank.accounts.insert(
                k,
                Account {
                    lamports: Rent::default().minimum_balance(*len as usize),
                    data: vec![0; *len as usize],
                    owner: mplx_rewards::id(),
                },
            );
        }
        for m in &w.mints {
            let k = s.key(&Acct::Mint(m.clone()));
            let mut data = vec![0; Mint::LEN];
            Mint::pack(
                Mint {
                    mint_authority: COption::None,
                    supply: u64::MAX,
                    decimals: 6,
                    is_initialized: true,
                    freeze_authority: COption::None,
                },
                &mut data,
            )
            .unwrap();
            s.bank.accounts.insert(
                k,
                Account { lamports: Rent::default().minimum_balance(Mint::LEN), data, owner: spl_token::id() },
            );
        }
        for (t, st) in &w.toks {
            let k = s.key(&Acct::Tok(t.clone()));
            let a = s.tok_account(st);
            s.bank.accounts.insert(k, a);
        }
        for (n, l) in &w.wallets {
            let k = s.key(&Acct::Wallet(n.clone()));
            if *l > 0 {
                s.bank.accounts.insert(k, Account { lamports: *l, data: vec![], owner: system_program::id() });
            }
        }
        s
    }

    fn donate(&mut self, to: &Acct, n: u64) {
        let k = self.key(to);
        let e = self.bank.accounts.entry(k).or_insert(Account {
            lamports: 0,
            data: vec![],
            owner: system_program::id(),
        });
        e.lamports += n;
    }

    fn fund(&mut self, tok: &str, n: u64) {
        let k = self.key(&Acct::Tok(tok.into()));
        let a = self.bank.accounts.get_mut(&k).expect("fund: unknown token account");
        let mut t = TokAccount::unpack(&a.data).unwrap();
        t.amount += n;
        TokAccount::pack(t, &mut a.data).unwrap();
    }

    /// An account owned by some other program, with the bytes of a real one.
    fn forge(&mut self, a: &Acct) {
        if let Acct::Foreign(kind, name) = a {
            let model = match kind.as_str() {
                "pool" => Acct::Pool(name.clone()),
                "tok" => Acct::Tok(name.clone()),
                k => match k.strip_prefix("mining of ") {
                    Some(p) => Acct::Mining(p.into(), name.clone()),
                    None => panic!("unknown forgery {k}"),
                },
            };
            let mk = self.key(&model);
            let data = self.bank.accounts.get(&mk).map(|x| x.data.clone()).unwrap_or_default();
            let k = self.key(a);
            self.bank
                .accounts
                .insert(k, Account { lamports: 1_000_000_000, data, owner: named("prog", "foreign") });
        }
    }

    pub fn instruction(&mut self, ix: &Ix, metas: &[Meta]) -> Instruction {
        let accounts = metas
            .iter()
            .map(|m| AccountMeta { pubkey: self.key(&m.a), is_signer: m.s, is_writable: m.w })
            .collect();
        Instruction { program_id: mplx_rewards::id(), accounts, data: self.encode(ix) }
    }

    /// Registers every name an instruction mentions, so that projections can name it.
    pub fn encode(&mut self, ix: &Ix) -> Vec<u8> {
        let mut d: Vec<u8> = vec![];
        let lock = |s: &str| -> u8 {
            match s {
                "None" => 0,
                "Flex" => 1,
                "ThreeMonths" => 2,
                "SixMonths" => 3,
                "OneYear" => 4,
                x => panic!("unknown lockup {x}"),
            }
        };
        let w = |s: &mut Self, n: &str| s.key(&Acct::Wallet(n.into())).to_bytes();
        match ix {
            Ix::InitializePool { fill, dist } => {
                d.push(0);
                d.extend(w(self, fill));
                d.extend(w(self, dist));
            }
            Ix::FillVault { rewards, ends_at } => {
                d.push(1);
                d.extend(rewards.to_le_bytes());
                d.extend(ends_at.to_le_bytes());
            }
            Ix::InitializeMining { owner } => {
                d.push(2);
                d.extend(w(self, owner));
            }
            Ix::DepositMining { amount, lockup, owner, delegate } => {
                d.push(3);
                d.extend(amount.to_le_bytes());
                d.push(lock(lockup));
                d.extend(w(self, owner));
                d.extend(w(self, delegate));
            }
            Ix::WithdrawMining { amount, owner, delegate } => {
                d.push(4);
                d.extend(amount.to_le_bytes());
                d.extend(w(self, owner));
                d.extend(w(self, delegate));
            }
            Ix::Claim => d.push(5),
            Ix::ExtendStake { old, new, start, base, add, owner, delegate } => {
                d.push(6);
                d.push(lock(old));
                d.push(lock(new));
                d.extend(start.to_le_bytes());
                d.extend(base.to_le_bytes());
                d.extend(add.to_le_bytes());
                d.extend(w(self, owner));
                d.extend(w(self, delegate));
            }
            Ix::DistributeRewards => d.push(7),
            Ix::CloseMining => d.push(8),
            Ix::ChangeDelegate { amount, new_delegate } => {
                d.push(9);
                d.extend(amount.to_le_bytes());
                d.extend(w(self, new_delegate));
            }
            Ix::Slash { owner, native, mult, exp } => {
                d.push(10);
                d.extend(w(self, owner));
                d.extend(native.to_le_bytes());
                d.extend(mult.to_le_bytes());
                match exp {
                    None => d.push(0),
                    Some(e) => {
                        d.push(1);
                        d.extend(e.to_le_bytes());
                    }
                }
            }
            Ix::DecreaseRewards { owner, n } => {
                d.push(11);
                d.extend(w(self, owner));
                d.extend(n.to_le_bytes());
            }
        }
        d
    }

    fn transact(&mut self, ix: &Ix, metas: &[Meta]) -> TxResult {
        for m in metas {
            self.forge(&m.a);
        }
        let i = self.instruction(ix, metas);
        self.bank.run(&i)
    }

    pub fn step(&mut self, c: &Cmd) -> TxResult {
        let none = TxResult { ok: true, err: String::new(), ret: None };
        match c {
            Cmd::Tick(n) => {
                self.bank.now += *n as i64;
                none
            }
            Cmd::Fund { tok, amount } => {
                self.fund(tok, *amount);
                none
            }
            Cmd::Donate { to, amount } => {
                self.donate(to, *amount);
                none
            }
            Cmd::Nop => none,
            Cmd::Tx { ix, metas } => self.transact(ix, metas),
            Cmd::Daily { n, ix, metas } => {
                let mut all = none;
                for _ in 0..*n {
                    self.bank.now += 86400;
                    let r = self.transact(ix, metas);
                    all.ret = r.ret;
                    if all.ok && !r.ok {
                        all.ok = false;
                        all.err = r.err;
                    }
                }
                all
            }
            Cmd::Bundle { ixs, dest, gift } => {
                let before = self.bank.clone();
                let mut l: Vec<Instruction> = vec![];
                for (ix, metas) in ixs {
                    for m in metas {
                        self.forge(&m.a);
                    }
                    l.push(self.instruction(ix, metas));
                }
                let mut r = self.bank.run_all(&l);
                if r.ok && *gift > 0 {
                    self.donate(dest, *gift);
                    r.ret = None;
                }
                if r.ok {
                    self.bank.purge();
                } else {
                    self.bank = before;
                }
                r
            }
            Cmd::Garbled { ix, metas, how } => {
                let mut i = self.instruction(ix, metas);
                let d = &mut i.data;
                match how {
                    0 => d.clear(),
                    1 => d[0] = 12,
                    2 => d[0] = 255,
                    3 => d.push(0),
                    4 => {
                        d.pop();
                    }
                    _ => match ix {
                        Ix::DepositMining { .. } => d[9] = 5,
                        Ix::ExtendStake { .. } => d[2] = 5,
                        Ix::Slash { exp: None, .. } => *d.last_mut().unwrap() = 2,
                        _ => d[0] |= 0x80,
                    },
                }
                self.bank.run(&i)
            }
        }
    }

    /// The symbolic state of everything that exists.
    pub fn project(&self) -> Result<World, String> {
        let mut w = World { now: self.bank.now as u64, ..World::default() };
        for (k, a) in &self.bank.accounts {
            let name = self.names.get(k).ok_or_else(|| format!("unnamed account {k}"))?;
            let mut parked = || {
                w.parked.insert(name.clone(), a.lamports);
            };
            match name {
                Acct::Pool(p) => {
                    if a.owner != mplx_rewards::id() {
                        return Err(format!("pool {p} owned by {}", a.owner));
                    }
                    if a.data.iter().all(|b| *b == 0) {
                        w.raw.insert(p.clone(), a.data.len() as u64);
                    } else {
                        let st = self.pool(&a.data).map_err(|e| format!("pool {p}: {e}"))?;
                        w.pools.insert(p.clone(), st);
                    }
                }
                Acct::Mining(p, o) => {
                    if a.owner == system_program::id() {
                        parked();
                    } else if a.owner == mplx_rewards::id() && a.data.iter().all(|b| *b == 0) {
                        w.husks.insert((p.clone(), o.clone()), a.lamports);
                    } else {
                        let st = self.mining(k, a, p, o).map_err(|e| format!("mining {p}/{o}: {e}"))?;
                        w.minings.insert((p.clone(), o.clone()), st);
                    }
                }
                Acct::Vault(p, m) => {
                    if a.owner == system_program::id() {
                        parked();
                    } else {
                        w.vaults.insert((p.clone(), m.clone()), self.tok(&a.data)?);
                    }
                }
                Acct::Tok(t) => {
                    w.toks.insert(t.clone(), self.tok(&a.data)?);
                }
                Acct::Mint(m) => {
                    w.mints.insert(m.clone());
                }
                Acct::Wallet(n) => {
                    w.wallets.insert(n.clone(), a.lamports);
                }
                Acct::Prog(_) | Acct::Foreign(..) => {}
            }
        }
        Ok(w)
    }

    fn tok(&self, d: &[u8]) -> Result<TokenSt, String> {
        let t = TokAccount::unpack(d).map_err(|e| format!("token account: {e:?}"))?;
        Ok(TokenSt { mint: self.mint_name(&t.mint), owner: self.wallet_name(&t.owner), amount: t.amount })
    }

    fn pool(&self, d: &[u8]) -> Result<PoolSt, String> {
        if d.len() != POOL_LEN {
            return Err(format!("length {}", d.len()));
        }
        if d[169] != 1 {
            return Err(format!("account type {}", d[169]));
        }
        let sched = POOL_HEAD + 32 + 365 * 32;
        Ok(PoolSt {
            dep: self.wallet_name(&pk(d, 0)),
            dist: self.wallet_name(&pk(d, 32)),
            fill: self.wallet_name(&pk(d, 64)),
            mint: self.mint_name(&pk(d, 96)),
            index: u128le(d, 128),
            total: u64le(d, 144),
            ends_at: u64le(d, 152),
            avail: u64le(d, 160),
            sched: tree(&d[POOL_HEAD..sched], 365, 8)?,
            cum: tree(&d[sched..], 1095, 16)?,
        })
    }

    fn mining(&self, k: &Pubkey, a: &Account, p: &str, o: &str) -> Result<MiningSt, String> {
        let d = &a.data;
        if a.owner != mplx_rewards::id() {
            return Err(format!("owned by {}", a.owner));
        }
        if d.len() != MINING_LEN {
            return Err(format!("length {}", d.len()));
        }
        if d[137] != 2 {
            return Err(format!("account type {}", d[137]));
        }
        if pk(d, 0) != named("pool", p) || pk(d, 32) != wallet_key(o) {
            return Err("pool or owner recorded in it differs from its address".into());
        }
        let seeds: [&[u8]; 4] = [b"mining", &d[32..64], &d[0..32], &[d[136]]];
        if Pubkey::create_program_address(&seeds, &mplx_rewards::id()).ok() != Some(*k) {
            return Err("bump recorded in it does not lead to its address".into());
        }
        Ok(MiningSt {
            index: u128le(d, 96),
            share: u64le(d, 112),
            unclaimed: u64le(d, 120),
            others: u64le(d, 128),
            sched: tree(&d[144..], 50, 8)?,
            lamports: a.lamports,
        })
    }
}

fn pk(d: &[u8], i: usize) -> Pubkey {
    Pubkey::new_from_array(d[i..i + 32].try_into().unwrap())
}
fn u64le(d: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(d[i..i + 8].try_into().unwrap())
}
fn u128le(d: &[u8], i: usize) -> u128 {
    u128::from_le_bytes(d[i..i + 16].try_into().unwrap())
}
fn u32le(d: &[u8], i: usize) -> u32 {
    u32::from_le_bytes(d[i..i + 4].try_into().unwrap())
}

/// A sokoban red-black tree: root u32, 12 bytes of padding, size u64, bump u32,
/// free list u32, then nodes of [left, right, parent, colour] u32, key u64
/// (padded to the value's alignment), value.
fn tree(d: &[u8], cap: usize, vlen: usize) -> Result<BTreeMap<u64, u128>, String> {
    let node = 16 + if vlen == 16 { 32 } else { 16 };
    if d.len() != 32 + cap * node {
        return Err(format!("tree of {} bytes", d.len()));
    }
    let mut out = BTreeMap::new();
    let mut last: Option<u64> = None;
    let (mut stack, mut cur) = (vec![], u32le(d, 0));
    let mut n = 0;
    while cur != 0 || !stack.is_empty() {
        while cur != 0 {
            if cur as usize > cap || stack.len() > cap {
                return Err("broken tree".into());
            }
            stack.push(cur);
            cur = u32le(d, 32 + (cur as usize - 1) * node);
        }
        let c = stack.pop().unwrap() as usize - 1;
        let at = 32 + c * node;
        let key = u64le(d, at + 16);
        let val = if vlen == 16 { u128le(d, at + 32) } else { u64le(d, at + 24) as u128 };
        if last.map_or(false, |l| l >= key) {
            return Err("unordered tree".into());
        }
        last = Some(key);
        out.insert(key, val);
        n += 1;
        if n > cap {
            return Err("cyclic tree".into());
        }
        cur = u32le(d, at + 4);
    }
    if u64le(d, 16) as usize != n {
        return Err(format!("tree of {n} nodes says {}", u64le(d, 16)));
    }
    Ok(out)
}
