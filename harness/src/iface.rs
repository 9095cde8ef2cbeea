//! iface OUT SPEC_FILES... -- REPLAY_FILES...
//!
//! The repository's instruction builders and Rust client against the interface
//! in spec/iface.qnt (behaviours in SPEC_FILES), and its account readers on the
//! accounts the program writes (REPLAY_FILES are behaviours of spec/mbt.qnt).
//! One JSON line {"who", "what"} per discrepancy, a last line with counts; OUT
//! receives the cases for the JavaScript client and the interface description.
use mplxh::itf::*;
use mplxh::rt::{self, catch_cpi};
use mplxh::wire::{Sim, MINING_LEN, POOL_HEAD, POOL_LEN};
use num_traits::FromPrimitive;
#[cfg(not(noclient))]
use rewards::{accounts as ra, instructions as ri, types::LockupPeriod as RL};
use serde_json::{json, Value};
use solana_program::{
    account_info::AccountInfo,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use sokoban::NodeAllocatorMap;
use std::collections::{BTreeMap, BTreeSet};

type PL = mplx_rewards::utils::LockupPeriod;

fn pl(s: &str) -> PL {
    match s {
        "None" => PL::None,
        "Flex" => PL::Flex,
        "ThreeMonths" => PL::ThreeMonths,
        "SixMonths" => PL::SixMonths,
        "OneYear" => PL::OneYear,
        x => panic!("lockup {x}"),
    }
}
#[cfg(not(noclient))]
fn rl(s: &str) -> RL {
    match s {
        "None" => RL::None,
        "Flex" => RL::Flex,
        "ThreeMonths" => RL::ThreeMonths,
        "SixMonths" => RL::SixMonths,
        "OneYear" => RL::OneYear,
        x => panic!("lockup {x}"),
    }
}

#[derive(Default)]
struct Report {
    said: BTreeSet<(String, String)>,
    compared: BTreeMap<String, u64>,
}
impl Report {
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, who: &str, what: &str, want: &T, got: &T) {
        *self.compared.entry(who.into()).or_default() += 1;
        if want != got {
            let what = format!("{what}: the specification says {want:?}, not {got:?}");
            if self.said.len() < 200 && self.said.insert((who.into(), what.clone())) {
                println!("{}", json!({"who": who, "what": what}));
            }
        }
    }
    fn ix(&mut self, who: &str, name: &str, want: &Instruction, got: &Instruction) {
        self.eq(who, &format!("{name}, program"), &want.program_id, &got.program_id);
        self.eq(who, &format!("{name}, data"), &want.data, &got.data);
        self.eq(who, &format!("{name}, number of accounts"), &want.accounts.len(), &got.accounts.len());
        for (i, (a, b)) in want.accounts.iter().zip(&got.accounts).enumerate() {
            self.eq(who, &format!("{name}, address of account {i}"), &a.pubkey, &b.pubkey);
            self.eq(who, &format!("{name}, account {i} signer/writable"), &(a.is_signer, a.is_writable), &(b.is_signer, b.is_writable));
        }
    }
}

fn atoms(s: &mut Sim, l: &Value) -> Vec<u8> {
    let mut d = vec![];
    for a in l.as_array().unwrap() {
        let v = &a["value"];
        match a["tag"].as_str().unwrap() {
            "B1" => d.push(int(v) as u8),
            "B8" => d.extend(int(v).to_le_bytes()),
            "B16" => d.extend(u128v(v).to_le_bytes()),
            "Key" => d.extend(s.key(&acct(v)).to_bytes()),
            x => panic!("atom {x}"),
        }
    }
    d
}

fn info(k: &Pubkey) -> AccountInfo<'static> {
    let k: &'static Pubkey = Box::leak(Box::new(*k));
    let l: &'static mut u64 = Box::leak(Box::new(1));
    AccountInfo::new(k, true, true, l, &mut [], k, false, 0)
}

fn metas_of(extra: bool) -> Vec<AccountMeta> {
    if !extra {
        return vec![];
    }
    // more of them than any instruction has accounts of its own
    (200..212).map(|n: u8| AccountMeta { pubkey: Pubkey::new_from_array([n; 32]), is_signer: n & 1 == 1, is_writable: n & 2 == 2 }).collect()
}

/// All the ways the Rust client has of making one instruction.
macro_rules! client {
    ($r:expr, $want:expr, $plain:ident, $builder:ident, $cpi:ident, $cpia:ident, $cpib:ident,
     [$($slot:ident = $i:expr),*], [$($arg:ident = $v:expr),*], $args:tt) => {{
        let name = stringify!($plain);
        let want: &Instruction = $want;
        let k: Vec<Pubkey> = want.accounts.iter().map(|a| a.pubkey).collect();
        let infos: Vec<AccountInfo<'static>> = k.iter().map(info).collect();
        let prog = info(&Pubkey::new_from_array([77; 32]));
        for extra in [false, true] {
            let rest = metas_of(extra);
            let mut w = want.clone();
            w.accounts.extend(rest.clone());
            let rinfos: Vec<AccountInfo<'static>> = rest.iter().map(|m| info(&m.pubkey)).collect();
            let rtup: Vec<(&AccountInfo<'static>, bool, bool)> =
                rest.iter().zip(&rinfos).map(|(m, i)| (i, m.is_writable, m.is_signer)).collect();
            let plain = ri::$plain { $($slot: k[$i]),* };
            client!(@plain $r, name, &w, plain, extra, &rest, $args);
            // 0: the customary programs left out; 1: named; 2: others named
            for how in 0..3 {
                let mut b = ri::$builder::new();
                let mut w = w.clone();
                $( if !["rent", "token_program", "system_program"].contains(&stringify!($slot)) || how == 1 {
                    b.$slot(k[$i]);
                } else if how == 2 {
                    w.accounts[$i].pubkey = Pubkey::new_from_array([66 + $i; 32]);
                    b.$slot(w.accounts[$i].pubkey);
                } )*
                $( b.$arg($v); )*
                if extra {
                    b.add_remaining_account(rest[0].clone()).add_remaining_accounts(&rest[1..]);
                }
                $r.ix("Rust client, builder", name, &w, &b.instruction());
            }
            let accounts = || ri::$cpia { $($slot: &infos[$i]),* };
            let cpi = client!(@cpi $cpi, &prog, accounts(), $args);
            let mut runs = vec![];
            let seeds: &[&[&[u8]]] = &[&[b"seed", &[7]]];
            if extra {
                runs.push(("CPI", false, catch_cpi(|| cpi.invoke_with_remaining_accounts(&rtup))));
                runs.push(("CPI, signed", true, catch_cpi(|| cpi.invoke_signed_with_remaining_accounts(seeds, &rtup))));
            } else {
                runs.push(("CPI", false, catch_cpi(|| cpi.invoke())));
                runs.push(("CPI, signed", true, catch_cpi(|| cpi.invoke_signed(seeds))));
            }
            let mut b = ri::$cpib::new(&prog);
            $( b.$slot(&infos[$i]); )*
            $( b.$arg($v); )*
            if extra {
                b.add_remaining_account(rtup[0].0, rtup[0].1, rtup[0].2).add_remaining_accounts(&rtup[1..]);
            }
            runs.push(("CPI builder", false, catch_cpi(|| b.invoke())));
            runs.push(("CPI builder, signed", true, catch_cpi(|| b.invoke_signed(seeds))));
            for (how, signed, calls) in runs {
                let who = format!("Rust client, {how}");
                $r.eq(&who, &format!("{name}, number of calls"), &1, &calls.len());
                for (ix, passed, s) in calls {
                    $r.ix(&who, name, &w, &ix);
                    let missing: Vec<&Pubkey> = w.accounts.iter().map(|m| &m.pubkey).filter(|p| !passed.contains(p)).collect();
                    $r.eq(&who, &format!("{name}, accounts not passed on"), &vec![], &missing);
                    let want_seeds: Vec<Vec<Vec<u8>>> = if signed { vec![vec![b"seed".to_vec(), vec![7]]] } else { vec![] };
                    $r.eq(&who, &format!("{name}, seeds"), &want_seeds, &s);
                }
            }
        }
    }};
    (@plain $r:expr, $name:expr, $w:expr, $p:expr, $extra:expr, $rest:expr, ()) => {
        let i = if $extra { $p.instruction_with_remaining_accounts($rest) } else { $p.instruction() };
        $r.ix("Rust client", $name, $w, &i);
    };
    (@plain $r:expr, $name:expr, $w:expr, $p:expr, $extra:expr, $rest:expr, ($args:expr)) => {
        let i = if $extra { $p.instruction_with_remaining_accounts($args, $rest) } else { $p.instruction($args) };
        $r.ix("Rust client", $name, $w, &i);
    };
    (@cpi $cpi:ident, $prog:expr, $acc:expr, ()) => { ri::$cpi::new($prog, $acc) };
    (@cpi $cpi:ident, $prog:expr, $acc:expr, ($args:expr)) => { ri::$cpi::new($prog, $acc, $args) };
}

#[cfg(noclient)]
fn clients(_: &mut Report, _: &mut Sim, _: &Ix, _: &Instruction) {}

#[cfg(not(noclient))]
fn clients(r: &mut Report, s: &mut Sim, ix: &Ix, want: &Instruction) {
    let mut w = |n: &String| s.key(&Acct::Wallet(n.clone()));
    match ix {
        Ix::InitializePool { fill, dist } => {
            let (f, d) = (w(fill), w(dist));
            client!(r, want, InitializePool, InitializePoolBuilder, InitializePoolCpi, InitializePoolCpiAccounts, InitializePoolCpiBuilder,
                [reward_pool = 0, reward_mint = 1, vault = 2, payer = 3, deposit_authority = 4, rent = 5, token_program = 6, system_program = 7],
                [fill_authority = f, distribute_authority = d],
                (ri::InitializePoolInstructionArgs { fill_authority: f, distribute_authority: d }));
        }
        Ix::FillVault { rewards, ends_at } => client!(r, want, FillVault, FillVaultBuilder, FillVaultCpi, FillVaultCpiAccounts, FillVaultCpiBuilder,
            [reward_pool = 0, reward_mint = 1, vault = 2, fill_authority = 3, source_token_account = 4, token_program = 5],
            [rewards = *rewards, distribution_ends_at = *ends_at],
            (ri::FillVaultInstructionArgs { rewards: *rewards, distribution_ends_at: *ends_at })),
        Ix::InitializeMining { owner } => {
            let o = w(owner);
            client!(r, want, InitializeMining, InitializeMiningBuilder, InitializeMiningCpi, InitializeMiningCpiAccounts, InitializeMiningCpiBuilder,
                [reward_pool = 0, mining = 1, payer = 2, system_program = 3], [mining_owner = o],
                (ri::InitializeMiningInstructionArgs { mining_owner: o }))
        }
        Ix::DepositMining { amount, lockup, owner, delegate } => {
            let (o, d) = (w(owner), w(delegate));
            client!(r, want, DepositMining, DepositMiningBuilder, DepositMiningCpi, DepositMiningCpiAccounts, DepositMiningCpiBuilder,
                [reward_pool = 0, mining = 1, deposit_authority = 2, delegate_mining = 3], [amount = *amount, lockup_period = rl(lockup), mining_owner = o, delegate = d],
                (ri::DepositMiningInstructionArgs { amount: *amount, lockup_period: rl(lockup), mining_owner: o, delegate: d }))
        }
        Ix::WithdrawMining { amount, owner, delegate } => {
            let (o, d) = (w(owner), w(delegate));
            client!(r, want, WithdrawMining, WithdrawMiningBuilder, WithdrawMiningCpi, WithdrawMiningCpiAccounts, WithdrawMiningCpiBuilder,
                [reward_pool = 0, mining = 1, deposit_authority = 2, delegate_mining = 3], [amount = *amount, mining_owner = o, delegate = d],
                (ri::WithdrawMiningInstructionArgs { amount: *amount, mining_owner: o, delegate: d }))
        }
        Ix::Claim => client!(r, want, Claim, ClaimBuilder, ClaimCpi, ClaimCpiAccounts, ClaimCpiBuilder,
            [reward_pool = 0, reward_mint = 1, vault = 2, mining = 3, mining_owner = 4, deposit_authority = 5,
             mining_owner_reward_token_account = 6, token_program = 7], [], ()),
        Ix::ExtendStake { old, new, start, base, add, owner, delegate } => {
            let (o, d) = (w(owner), w(delegate));
            client!(r, want, ExtendStake, ExtendStakeBuilder, ExtendStakeCpi, ExtendStakeCpiAccounts, ExtendStakeCpiBuilder,
                [reward_pool = 0, mining = 1, deposit_authority = 2, delegate_mining = 3], [old_lockup_period = rl(old), new_lockup_period = rl(new), deposit_start_ts = *start, base_amount = *base,
                 additional_amount = *add, mining_owner = o, delegate = d],
                (ri::ExtendStakeInstructionArgs { old_lockup_period: rl(old), new_lockup_period: rl(new), deposit_start_ts: *start,
                 base_amount: *base, additional_amount: *add, mining_owner: o, delegate: d }))
        }
        Ix::DistributeRewards => client!(r, want, DistributeRewards, DistributeRewardsBuilder, DistributeRewardsCpi, DistributeRewardsCpiAccounts,
            DistributeRewardsCpiBuilder, [reward_pool = 0, distribute_authority = 1], [], ()),
        Ix::CloseMining => client!(r, want, CloseMining, CloseMiningBuilder, CloseMiningCpi, CloseMiningCpiAccounts, CloseMiningCpiBuilder,
            [mining = 0, mining_owner = 1, target_account = 2, deposit_authority = 3, reward_pool = 4], [], ()),
        Ix::ChangeDelegate { amount, new_delegate } => {
            let d = w(new_delegate);
            client!(r, want, ChangeDelegate, ChangeDelegateBuilder, ChangeDelegateCpi, ChangeDelegateCpiAccounts, ChangeDelegateCpiBuilder,
                [reward_pool = 0, mining = 1, deposit_authority = 2, mining_owner = 3, old_delegate_mining = 4, new_delegate_mining = 5], [staked_amount = *amount, new_delegate = d],
                (ri::ChangeDelegateInstructionArgs { staked_amount: *amount, new_delegate: d }))
        }
        Ix::Slash { owner, native, mult, exp } => {
            let o = w(owner);
            // the builder's optional argument is set by its bare value
            if let Some(e) = exp {
                client!(r, want, Slash, SlashBuilder, SlashCpi, SlashCpiAccounts, SlashCpiBuilder,
                    [deposit_authority = 0, reward_pool = 1, mining = 2], [mining_owner = o, slash_amount_in_native = *native, slash_amount_multiplied_by_period = *mult, stake_expiration_date = *e],
                    (ri::SlashInstructionArgs { mining_owner: o, slash_amount_in_native: *native, slash_amount_multiplied_by_period: *mult, stake_expiration_date: Some(*e) }))
            } else {
                client!(r, want, Slash, SlashBuilder, SlashCpi, SlashCpiAccounts, SlashCpiBuilder,
                    [deposit_authority = 0, reward_pool = 1, mining = 2], [mining_owner = o, slash_amount_in_native = *native, slash_amount_multiplied_by_period = *mult],
                    (ri::SlashInstructionArgs { mining_owner: o, slash_amount_in_native: *native, slash_amount_multiplied_by_period: *mult, stake_expiration_date: None }))
            }
        }
        Ix::DecreaseRewards { owner, n } => {
            let o = w(owner);
            client!(r, want, DecreaseRewards, DecreaseRewardsBuilder, DecreaseRewardsCpi, DecreaseRewardsCpiAccounts, DecreaseRewardsCpiBuilder,
                [deposit_authority = 0, reward_pool = 1, mining = 2], [mining_owner = o, decreased_weighted_stake_number = *n],
                (ri::DecreaseRewardsInstructionArgs { mining_owner: o, decreased_weighted_stake_number: *n }))
        }
    }
}

fn builders(s: &mut Sim, ix: &Ix, want: &Instruction) -> Instruction {
    use mplx_rewards::instruction as pi;
    let id = &want.program_id;
    let k: Vec<Pubkey> = want.accounts.iter().map(|a| a.pubkey).collect();
    let mut w = |n: &String| s.key(&Acct::Wallet(n.clone()));
    match ix {
        Ix::InitializePool { fill, dist } => pi::initialize_pool(id, &k[0], &k[1], &k[2], &k[3], &k[4], &w(fill), &w(dist)),
        Ix::FillVault { rewards, ends_at } => pi::fill_vault(id, &k[0], &k[1], &k[2], &k[3], &k[4], *rewards, *ends_at),
        Ix::InitializeMining { owner } => pi::initialize_mining(id, &k[0], &k[1], &k[2], &w(owner)),
        Ix::DepositMining { amount, lockup, owner, delegate } => {
            pi::deposit_mining(id, &k[0], &k[1], &k[2], &k[3], *amount, pl(lockup), &w(owner), &w(delegate))
        }
        Ix::WithdrawMining { amount, owner, delegate } => pi::withdraw_mining(id, &k[0], &k[1], &k[2], &k[3], *amount, &w(owner), &w(delegate)),
        Ix::Claim => pi::claim(id, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6]),
        Ix::ExtendStake { old, new, start, base, add, owner, delegate } => {
            pi::extend_stake(id, &k[0], &k[1], &k[2], &k[3], pl(old), pl(new), *start, *base, *add, &w(owner), &w(delegate))
        }
        Ix::DistributeRewards => pi::distribute_rewards(id, &k[0], &k[1]),
        Ix::CloseMining => pi::close_mining(id, &k[0], &k[1], &k[2], &k[3], &k[4]),
        Ix::ChangeDelegate { amount, new_delegate } => {
            pi::change_delegate(id, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &w(new_delegate), *amount)
        }
        Ix::Slash { owner, native, mult, exp } => pi::slash(id, &k[0], &k[1], &k[2], &w(owner), *native, *mult, *exp),
        Ix::DecreaseRewards { owner, n } => pi::decrease_rewards(id, &k[0], &k[1], &k[2], &w(owner), *n),
    }
}

fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}

/// The readers of accounts: fields as JSON, in the order of the layout.
#[cfg(not(noclient))]
fn read_pool(p: &ra::RewardPool) -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("depositAuthority", p.deposit_authority.to_bytes().to_vec()),
        ("distributeAuthority", p.distribute_authority.to_bytes().to_vec()),
        ("fillAuthority", p.fill_authority.to_bytes().to_vec()),
        ("rewardMint", p.reward_mint.to_bytes().to_vec()),
        ("indexWithPrecision", p.index_with_precision.to_le_bytes().to_vec()),
        ("totalShare", p.total_share.to_le_bytes().to_vec()),
        ("distributionEndsAt", p.distribution_ends_at.to_le_bytes().to_vec()),
        ("tokensAvailableForDistribution", p.tokens_available_for_distribution.to_le_bytes().to_vec()),
        ("tokenAccountBump", vec![p.token_account_bump]),
        ("data", p.data.to_vec()),
    ]
}
#[cfg(not(noclient))]
fn read_mining(m: &ra::Mining) -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("rewardPool", m.reward_pool.to_bytes().to_vec()),
        ("owner", m.owner.to_bytes().to_vec()),
        ("rewardMint", m.reward_mint.to_bytes().to_vec()),
        ("indexWithPrecision", m.index_with_precision.to_le_bytes().to_vec()),
        ("share", m.share.to_le_bytes().to_vec()),
        ("unclaimedRewards", m.unclaimed_rewards.to_le_bytes().to_vec()),
        ("stakeFromOthers", m.stake_from_others.to_le_bytes().to_vec()),
        ("bump", vec![m.bump]),
        ("data", m.data.to_vec()),
    ]
}

#[cfg(not(noclient))]
fn client_reads(r: &mut Report, what: &str, want: &[(String, Vec<u8>)], d: &[u8]) {
    let n: usize = want.iter().map(|(_, v)| v.len()).sum();
    let key = Pubkey::new_from_array([9; 32]);
    let mut l = 5;
    let mut copy = d.to_vec();
    let ai = AccountInfo::new(&key, false, false, &mut l, &mut copy, &key, false, 0);
    let (a, b) = if what == "RewardPool" {
        r.eq("Rust client", "length of RewardPool", &n, &ra::RewardPool::LEN);
        (ra::RewardPool::from_bytes(d).map(|x| read_pool(&x)), ra::RewardPool::try_from(&ai).map(|x| read_pool(&x)))
    } else {
        r.eq("Rust client", "length of Mining", &n, &ra::Mining::LEN);
        (ra::Mining::from_bytes(d).map(|x| read_mining(&x)), ra::Mining::try_from(&ai).map(|x| read_mining(&x)))
    };
    for got in [a, b] {
        match got {
            Err(e) => r.eq("Rust client", &format!("{what} decodes"), &"fine".to_string(), &e.to_string()),
            Ok(got) => {
                let got: Vec<(String, Vec<u8>)> = got.into_iter().map(|(n, v)| (n.to_string(), v)).collect();
                for (w, g) in want.iter().zip(&got) {
                    r.eq("Rust client", &format!("decoded {what}"), w, g);
                }
            }
        }
    }
}

/// A made-up account, decoded by the Rust client.
fn head(r: &mut Report, what: &str, want: &[(String, Vec<u8>)], tail: usize) -> Vec<u8> {
    let mut d: Vec<u8> = want.iter().flat_map(|(_, v)| v.clone()).collect();
    let n = d.len();
    d.resize(n + tail, 0);
    #[cfg(not(noclient))]
    client_reads(r, what, want, &d);
    d.truncate(n);
    d
}

/// The accounts as the program wrote them, through every reader there is.
fn readers(r: &mut Report, sim: &mut Sim, w: &World, cases: &mut BTreeMap<Vec<u8>, Value>) {
    for (p, st) in &w.pools {
        let k = sim.key(&Acct::Pool(p.clone()));
        let vault = Pubkey::find_program_address(&[b"vault", k.as_ref(), sim.key(&Acct::Mint(st.mint.clone())).as_ref()], &mplx_rewards::id());
        let d = sim.bank.accounts[&k].data.clone();
        let mut wk = |n: &String| sim.key(&Acct::Wallet(n.clone())).to_bytes().to_vec();
        let want: Vec<(String, Vec<u8>)> = vec![
            ("depositAuthority".into(), wk(&st.dep)),
            ("distributeAuthority".into(), wk(&st.dist)),
            ("fillAuthority".into(), wk(&st.fill)),
            ("rewardMint".into(), sim.key(&Acct::Mint(st.mint.clone())).to_bytes().to_vec()),
            ("indexWithPrecision".into(), st.index.to_le_bytes().to_vec()),
            ("totalShare".into(), st.total.to_le_bytes().to_vec()),
            ("distributionEndsAt".into(), st.ends_at.to_le_bytes().to_vec()),
            ("tokensAvailableForDistribution".into(), st.avail.to_le_bytes().to_vec()),
            ("tokenAccountBump".into(), vec![vault.1]),
            ("data".into(), vec![1, 0, 0, 0, 0, 0, 0]),
        ];
        let flat: Vec<u8> = want.iter().flat_map(|x| x.1.clone()).collect();
        r.eq("program", "stored RewardPool", &hex(&flat), &hex(&d[..POOL_HEAD]));
        r.eq("program", "address of the vault", &vault, &mplx_rewards::utils::find_vault_program_address(&mplx_rewards::id(), &k, &sim.key(&Acct::Mint(st.mint.clone()))));
        let flat = head(r, "RewardPool", &want, POOL_LEN - POOL_HEAD);
        note(cases, "RewardPool", &want, flat);
        match mplx_rewards::state::WrappedImmutableRewardPool::from_bytes(aligned(&d)) {
            Err(e) => r.eq("program", "reading a RewardPool", &"fine".to_string(), &format!("{e:?}")),
            Ok(x) => {
                let sched: BTreeMap<u64, u128> = x.weighted_stake_diffs.iter().map(|(d, v)| (*d, *v as u128)).collect();
                let cum: BTreeMap<u64, u128> = x.cumulative_index.iter().map(|(d, v)| (*d, *v)).collect();
                r.eq("program", "reading the end dates of a RewardPool", &st.sched, &sched);
                r.eq("program", "reading the history of a RewardPool", &st.cum, &cum);
                let h = x.pool;
                r.eq("program", "reading a RewardPool",
                    &(st.index, st.total, st.ends_at, st.avail),
                    &(h.index_with_precision, h.total_share, h.distribution_ends_at, h.tokens_available_for_distribution));
            }
        }
    }
    for ((p, o), st) in &w.minings {
        let k = sim.key(&Acct::Mining(p.clone(), o.clone()));
        let (pk, ok) = (sim.key(&Acct::Pool(p.clone())), sim.key(&Acct::Wallet(o.clone())));
        let d = sim.bank.accounts[&k].data.clone();
        let at = Pubkey::find_program_address(&[b"mining", ok.as_ref(), pk.as_ref()], &mplx_rewards::id());
        r.eq("program", "address of the mining", &at, &mplx_rewards::utils::find_mining_program_address(&mplx_rewards::id(), &ok, &pk));
        let want: Vec<(String, Vec<u8>)> = vec![
            ("rewardPool".into(), pk.to_bytes().to_vec()),
            ("owner".into(), ok.to_bytes().to_vec()),
            ("rewardMint".into(), vec![0; 32]),
            ("indexWithPrecision".into(), st.index.to_le_bytes().to_vec()),
            ("share".into(), st.share.to_le_bytes().to_vec()),
            ("unclaimedRewards".into(), st.unclaimed.to_le_bytes().to_vec()),
            ("stakeFromOthers".into(), st.others.to_le_bytes().to_vec()),
            ("bump".into(), vec![at.1]),
            ("data".into(), vec![2, 0, 0, 0, 0, 0, 0]),
        ];
        let flat: Vec<u8> = want.iter().flat_map(|x| x.1.clone()).collect();
        let got = &d[..144];
        // the mint may be recorded or not: nothing reads it
        r.eq("program", "stored Mining", &hex(&[&flat[..64], &flat[96..]].concat()), &hex(&[&got[..64], &got[96..]].concat()));
        let flat = head(r, "Mining", &want, MINING_LEN - 144);
        note(cases, "Mining", &want, flat);
        match mplx_rewards::state::WrappedImmutableMining::from_bytes(aligned(&d)) {
            Err(e) => r.eq("program", "reading a Mining", &"fine".to_string(), &format!("{e:?}")),
            Ok(x) => {
                let sched: BTreeMap<u64, u128> = x.weighted_stake_diffs.iter().map(|(d, v)| (*d, *v as u128)).collect();
                r.eq("program", "reading the end dates of a Mining", &st.sched, &sched);
                let m = x.mining;
                r.eq("program", "reading a Mining", &(st.index, st.share, st.unclaimed, st.others),
                    &(m.index_with_precision, m.share, m.unclaimed_rewards, m.stake_from_others));
            }
        }
    }
}

thread_local! { static BUF: std::cell::RefCell<Vec<u128>> = Default::default(); }
/// A copy at an address aligned as the runtime aligns account data.
fn aligned(d: &[u8]) -> &'static [u8] {
    BUF.with(|b| {
        let mut b = b.borrow_mut();
        b.clear();
        b.resize(d.len() / 16 + 2, 0);
        unsafe {
            std::ptr::copy_nonoverlapping(d.as_ptr(), b.as_mut_ptr() as *mut u8, d.len());
            std::slice::from_raw_parts(b.as_ptr() as *const u8, d.len())
        }
    })
}

fn note(cases: &mut BTreeMap<Vec<u8>, Value>, what: &str, want: &[(String, Vec<u8>)], flat: Vec<u8>) {
    if cases.len() < 400 {
        let fields: Vec<Value> = want.iter().map(|(n, v)| json!([n, hex(v)])).collect();
        cases.insert(flat.clone(), json!({"what": what, "fields": fields, "bytes": hex(&flat)}));
    }
}

fn main() {
    rt::init();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cut = args.iter().position(|a| a == "--").expect("--");
    let (out, specs, replays) = (&args[0], &args[1..cut], &args[cut + 1..]);
    let mut r = Report::default();
    let mut sim = Sim::default();
    let mut cases: BTreeMap<String, Value> = BTreeMap::new();
    let mut heads: BTreeMap<Vec<u8>, Value> = BTreeMap::new();
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut facts = Value::Null;
    for f in specs {
        let itf: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        facts = itf["states"][0]["facts"].clone();
        for s in itf["states"].as_array().unwrap().iter().skip(1) {
            let c = cmd(&s["cmd"]);
            let Cmd::Tx { ix, metas } = &c else { continue };
            let shown = &s["shown"];
            let name = shown["name"].as_str().unwrap().to_string();
            let mut data = vec![int(&shown["tag"]) as u8];
            let mut jargs = vec![];
            for a in shown["args"].as_array().unwrap() {
                let v = atoms(&mut sim, &a["v"]);
                jargs.push(json!([a["n"], a["ty"], hex(&v)]));
                data.extend(v);
            }
            let accounts: Vec<AccountMeta> =
                metas.iter().map(|m| AccountMeta { pubkey: sim.key(&m.a), is_signer: m.s, is_writable: m.w }).collect();
            let want = Instruction { program_id: mplx_rewards::id(), accounts, data };
            let mine = sim.instruction(ix, metas);
            assert_eq!(mine, want, "the harness and the specification disagree about {c:?}");
            use std::panic::{catch_unwind, AssertUnwindSafe as S};
            match catch_unwind(S(|| builders(&mut sim, ix, &want))) {
                Ok(b) => r.ix("program's builder", &name, &want, &b),
                Err(_) => r.eq("program's builder", &name, &"an instruction", &"panic"),
            }
            if catch_unwind(S(|| clients(&mut r, &mut sim, ix, &want))).is_err() {
                r.eq("Rust client", &name, &"an instruction", &"panic");
            }
            *kinds.entry(name.clone()).or_default() += 1;
            let slots: Vec<Value> = shown["slots"].as_array().unwrap().iter().zip(&want.accounts)
                .map(|(n, m)| json!([n, m.pubkey.to_string(), m.is_signer, m.is_writable])).collect();
            cases.insert(format!("{c:?}"), json!({"name": name, "tag": want.data[0], "args": jargs, "slots": slots, "data": hex(&want.data)}));
            for h in s["heads"]["#set"].as_array().unwrap() {
                let what = h["what"].as_str().unwrap();
                let want: Vec<(String, Vec<u8>)> = h["fields"].as_array().unwrap().iter().map(|f| {
                    let n = f["n"].as_str().unwrap().to_string();
                    let v = if n.ends_with("ump") { vec![(cases.len() % 256) as u8] } else { atoms(&mut sim, &f["v"]) };
                    (n, v)
                }).collect();
                let flat = head(&mut r, what, &want, 64);
                note(&mut heads, what, &want, flat);
            }
        }
    }
    let mut worlds = 0u64;
    heads = heads.into_iter().take(300).collect();
    for f in replays {
        let itf: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let states = itf["states"].as_array().unwrap();
        let mut sim = Sim::genesis(&world(&states[0]["w"]));
        for s in states.iter().skip(1) {
            sim.step(&cmd(&s["cmd"]));
            match sim.project() {
                Err(e) => {
                    r.eq("program", "accounts are readable", &"yes".to_string(), &e);
                    break;
                }
                Ok(w) => {
                    worlds += 1;
                    readers(&mut r, &mut sim, &w, &mut heads);
                }
            }
        }
    }
    // error codes and enumerations
    let list = |n: &str| -> Vec<String> { facts[n].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
    let mut errors = vec![];
    let names = list("errors");
    for i in 0..64u32 {
        let a = mplx_rewards::error::MplxRewardsError::from_u32(i);
        r.eq("program", &format!("name of error {i}"), &names.get(i as usize).cloned(), &a.as_ref().map(|e| format!("{e:?}")));
        if let Some(e) = &a {
            let c: solana_program::program_error::ProgramError = e.clone().into();
            r.eq("program", "error code", &solana_program::program_error::ProgramError::Custom(i), &c);
            errors.push(json!([i, format!("{e:?}"), e.to_string()]));
        }
        #[cfg(not(noclient))]
        {
            let b = rewards::errors::MplxRewardsError::from_u32(i);
            r.eq("Rust client", &format!("error {i}"), &a.map(|e| (format!("{e:?}"), e.to_string())), &b.map(|e| (format!("{e:?}"), e.to_string())));
        }
    }
    let types = list("accountTypes");
    for i in 0..=255u8 {
        if let Some(want) = types.get(i as usize) {
            let t = mplx_rewards::state::AccountType::from(i);
            r.eq("program", &format!("account type {i}"), &(want.clone(), i), &(format!("{t:?}"), t.into()));
        }
        #[cfg(not(noclient))]
        {
            let got = <rewards::types::AccountType as num_traits::FromPrimitive>::from_u8(i).map(|x| format!("{x:?}"));
            r.eq("Rust client", &format!("account type {i}"), &types.get(i as usize).cloned(), &got);
            let got = RL::from_u8(i).map(|x| format!("{x:?}"));
            r.eq("Rust client", &format!("lockup period {i}"), &list("lockups").get(i as usize).cloned(), &got);
        }
    }
    #[cfg(not(noclient))]
    r.eq("Rust client", "address of the program", &mplx_rewards::id(), &rewards::programs::MPLX_REWARDS_ID);
    let o = json!({"program": mplx_rewards::id().to_string(), "instructions": cases.values().collect::<Vec<_>>(),
        "accounts": heads.values().collect::<Vec<_>>(), "errors": errors, "facts": facts,
        "constants": {"tokenProgram": spl_token::id().to_string(), "systemProgram": solana_program::system_program::id().to_string(),
                      "rent": solana_program::sysvar::rent::id().to_string()}});
    std::fs::write(out, o.to_string()).unwrap();
    println!("{}", json!({"compared": r.compared, "kinds": kinds, "cases": cases.len(), "accounts": heads.len(), "worlds": worlds}));
}
