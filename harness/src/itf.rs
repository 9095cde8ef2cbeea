//! The symbolic world of the specification, and its ITF (JSON) encoding.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Acct {
    Pool(String),
    Mining(String, String),
    Vault(String, String),
    Tok(String),
    Mint(String),
    Wallet(String),
    Prog(String),
    Foreign(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Meta {
    pub a: Acct,
    pub s: bool,
    pub w: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ix {
    InitializePool { fill: String, dist: String },
    FillVault { rewards: u64, ends_at: u64 },
    InitializeMining { owner: String },
    DepositMining { amount: u64, lockup: String, owner: String, delegate: String },
    WithdrawMining { amount: u64, owner: String, delegate: String },
    Claim,
    ExtendStake { old: String, new: String, start: u64, base: u64, add: u64, owner: String, delegate: String },
    DistributeRewards,
    CloseMining,
    ChangeDelegate { amount: u64, new_delegate: String },
    Slash { owner: String, native: u64, mult: u64, exp: Option<u64> },
    DecreaseRewards { owner: String, n: u64 },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Tx { ix: Ix, metas: Vec<Meta> },
    Garbled { ix: Ix, metas: Vec<Meta>, how: u64 },
    Daily { n: u64, ix: Ix, metas: Vec<Meta> },
    Bundle { ixs: Vec<(Ix, Vec<Meta>)>, dest: Acct, gift: u64 },
    Tick(u64),
    Fund { tok: String, amount: u64 },
    Donate { to: Acct, amount: u64 },
    Nop,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct PoolSt {
    pub dep: String,
    pub dist: String,
    pub fill: String,
    pub mint: String,
    pub index: u128,
    pub total: u64,
    pub ends_at: u64,
    pub avail: u64,
    pub sched: BTreeMap<u64, u128>,
    pub cum: BTreeMap<u64, u128>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct MiningSt {
    pub index: u128,
    pub share: u64,
    pub unclaimed: u64,
    pub others: u64,
    pub sched: BTreeMap<u64, u128>,
    pub lamports: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TokenSt {
    pub mint: String,
    pub owner: String,
    pub amount: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct World {
    pub now: u64,
    pub raw: BTreeMap<String, u64>,
    pub pools: BTreeMap<String, PoolSt>,
    pub minings: BTreeMap<(String, String), MiningSt>,
    pub vaults: BTreeMap<(String, String), TokenSt>,
    pub toks: BTreeMap<String, TokenSt>,
    pub mints: BTreeSet<String>,
    pub wallets: BTreeMap<String, u64>,
    pub parked: BTreeMap<Acct, u64>,
    pub husks: BTreeMap<(String, String), u64>,
}

// ------------------------------------------------------------------ decoding
pub fn big(v: &Value) -> i128 {
    if let Some(n) = v.as_i64() {
        return n as i128;
    }
    if let Some(n) = v.as_u64() {
        return n as i128;
    }
    if let Some(s) = v.get("#bigint").and_then(|x| x.as_str()) {
        return s.parse::<i128>().unwrap_or_else(|_| panic!("bad bigint {s}"));
    }
    panic!("not an int: {v}")
}
pub fn int(v: &Value) -> u64 {
    // values that do not fit are not expressible on the wire
    u64::try_from(big(v)).unwrap_or_else(|_| panic!("not a u64: {v}"))
}
pub fn u128v(v: &Value) -> u128 {
    if let Some(s) = v.get("#bigint").and_then(|x| x.as_str()) {
        return s.parse::<u128>().unwrap_or_else(|_| panic!("bad bigint {s}"));
    }
    u128::try_from(big(v)).unwrap()
}
pub fn st(v: &Value) -> String {
    v.as_str().unwrap_or_else(|| panic!("not a string: {v}")).to_string()
}
pub fn bo(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("not a bool: {v}"))
}
pub fn tup2(v: &Value) -> (String, String) {
    let t = v["#tup"].as_array().unwrap_or_else(|| panic!("not a tuple: {v}"));
    (st(&t[0]), st(&t[1]))
}
pub fn pairs(v: &Value) -> Vec<(&Value, &Value)> {
    v["#map"]
        .as_array()
        .unwrap_or_else(|| panic!("not a map: {v}"))
        .iter()
        .map(|p| (&p[0], &p[1]))
        .collect()
}
pub fn acct(v: &Value) -> Acct {
    let x = &v["value"];
    match v["tag"].as_str().unwrap_or_else(|| panic!("not a variant: {v}")) {
        "APool" => Acct::Pool(st(x)),
        "AMining" => {
            let t = tup2(x);
            Acct::Mining(t.0, t.1)
        }
        "AVault" => {
            let t = tup2(x);
            Acct::Vault(t.0, t.1)
        }
        "ATok" => Acct::Tok(st(x)),
        "AMint" => Acct::Mint(st(x)),
        "AWallet" => Acct::Wallet(st(x)),
        "AProg" => Acct::Prog(st(x)),
        "AForeign" => {
            let t = tup2(x);
            Acct::Foreign(t.0, t.1)
        }
        t => panic!("unknown account kind {t}"),
    }
}
fn metas(v: &Value) -> Vec<Meta> {
    v.as_array().unwrap().iter().map(|m| Meta { a: acct(&m["a"]), s: bo(&m["s"]), w: bo(&m["w"]) }).collect()
}
pub fn cmd(v: &Value) -> Cmd {
    let x = &v["value"];
    match v["tag"].as_str().unwrap_or_else(|| panic!("not a variant: {v}")) {
        "Tx" => Cmd::Tx { ix: ix(&x["ix"]), metas: metas(&x["metas"]) },
        "Garbled" => Cmd::Garbled { ix: ix(&x["ix"]), metas: metas(&x["metas"]), how: int(&x["how"]) },
        "Daily" => Cmd::Daily { n: int(&x["n"]), ix: ix(&x["ix"]), metas: metas(&x["metas"]) },
        "Bundle" => Cmd::Bundle {
            ixs: x["ixs"].as_array().unwrap().iter().map(|t| (ix(&t["ix"]), metas(&t["metas"]))).collect(),
            dest: acct(&x["dest"]),
            gift: int(&x["gift"]),
        },
        "Tick" => Cmd::Tick(int(x)),
        "Fund" => Cmd::Fund { tok: st(&x["tok"]), amount: int(&x["amount"]) },
        "Donate" => Cmd::Donate { to: acct(&x["to"]), amount: int(&x["amount"]) },
        "Nop" => Cmd::Nop,
        t => panic!("unknown command {t}"),
    }
}
pub fn ix(v: &Value) -> Ix {
    let x = &v["value"];
    match v["tag"].as_str().unwrap() {
        "InitializePool" => Ix::InitializePool { fill: st(&x["fillAuth"]), dist: st(&x["distAuth"]) },
        "FillVault" => Ix::FillVault { rewards: int(&x["rewards"]), ends_at: int(&x["endsAt"]) },
        "InitializeMining" => Ix::InitializeMining { owner: st(&x["owner"]) },
        "DepositMining" => Ix::DepositMining {
            amount: int(&x["amount"]),
            lockup: st(&x["lockup"]),
            owner: st(&x["owner"]),
            delegate: st(&x["delegate"]),
        },
        "WithdrawMining" => Ix::WithdrawMining {
            amount: int(&x["amount"]),
            owner: st(&x["owner"]),
            delegate: st(&x["delegate"]),
        },
        "Claim" => Ix::Claim,
        "ExtendStake" => Ix::ExtendStake {
            old: st(&x["oldLockup"]),
            new: st(&x["newLockup"]),
            start: int(&x["startTs"]),
            base: int(&x["base"]),
            add: int(&x["add"]),
            owner: st(&x["owner"]),
            delegate: st(&x["delegate"]),
        },
        "DistributeRewards" => Ix::DistributeRewards,
        "CloseMining" => Ix::CloseMining,
        "ChangeDelegate" => Ix::ChangeDelegate { amount: int(&x["amount"]), new_delegate: st(&x["newDelegate"]) },
        "Slash" => Ix::Slash {
            owner: st(&x["owner"]),
            native: int(&x["native"]),
            mult: int(&x["mult"]),
            exp: if bo(&x["hasExp"]) { Some(int(&x["exp"])) } else { None },
        },
        "DecreaseRewards" => Ix::DecreaseRewards { owner: st(&x["owner"]), n: int(&x["n"]) },
        t => panic!("unknown instruction {t}"),
    }
}
fn tokst(v: &Value) -> TokenSt {
    TokenSt { mint: st(&v["mint"]), owner: st(&v["owner"]), amount: int(&v["amount"]) }
}
fn dates(v: &Value) -> BTreeMap<u64, u128> {
    pairs(v).into_iter().map(|(k, x)| (int(k), u128v(x))).collect()
}
pub fn world(v: &Value) -> World {
    let strs = |v: &Value| -> Vec<String> { v["#set"].as_array().unwrap().iter().map(st).collect() };
    World {
        now: int(&v["now"]),
        raw: pairs(&v["rawPools"]).into_iter().map(|(k, x)| (st(k), int(x))).collect(),
        pools: pairs(&v["pools"])
            .into_iter()
            .map(|(k, p)| {
                (
                    st(k),
                    PoolSt {
                        dep: st(&p["depAuth"]),
                        dist: st(&p["distAuth"]),
                        fill: st(&p["fillAuth"]),
                        mint: st(&p["mint"]),
                        index: u128v(&p["index"]),
                        total: int(&p["total"]),
                        ends_at: int(&p["endsAt"]),
                        avail: int(&p["avail"]),
                        sched: dates(&p["sched"]),
                        cum: dates(&p["cum"]),
                    },
                )
            })
            .collect(),
        minings: pairs(&v["minings"])
            .into_iter()
            .map(|(k, m)| {
                (
                    tup2(k),
                    MiningSt {
                        index: u128v(&m["index"]),
                        share: int(&m["share"]),
                        unclaimed: int(&m["unclaimed"]),
                        others: int(&m["others"]),
                        sched: dates(&m["sched"]),
                        lamports: int(&m["lamports"]),
                    },
                )
            })
            .collect(),
        vaults: pairs(&v["vaults"]).into_iter().map(|(k, t)| (tup2(k), tokst(t))).collect(),
        toks: pairs(&v["toks"]).into_iter().map(|(k, t)| (st(k), tokst(t))).collect(),
        mints: strs(&v["mints"]).into_iter().collect(),
        wallets: pairs(&v["wallets"]).into_iter().map(|(k, n)| (st(k), int(n))).collect(),
        parked: pairs(&v["parked"])
            .into_iter()
            .map(|(k, n)| (acct(k), int(n)))
            .filter(|(_, n)| *n > 0)
            .collect(),
        husks: pairs(&v["husks"]).into_iter().map(|(k, n)| (tup2(k), int(n))).collect(),
    }
}

// ------------------------------------------------------------------ encoding
fn jint(n: impl ToString) -> Value {
    json!({"#bigint": n.to_string()})
}
fn jmap(v: Vec<(Value, Value)>) -> Value {
    json!({"#map": v.into_iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()})
}
fn jtup(a: &str, b: &str) -> Value {
    json!({"#tup": [a, b]})
}
pub fn jacct(a: &Acct) -> Value {
    let (t, v) = match a {
        Acct::Pool(x) => ("APool", json!(x)),
        Acct::Mining(x, y) => ("AMining", jtup(x, y)),
        Acct::Vault(x, y) => ("AVault", jtup(x, y)),
        Acct::Tok(x) => ("ATok", json!(x)),
        Acct::Mint(x) => ("AMint", json!(x)),
        Acct::Wallet(x) => ("AWallet", json!(x)),
        Acct::Prog(x) => ("AProg", json!(x)),
        Acct::Foreign(x, y) => ("AForeign", jtup(x, y)),
    };
    json!({"tag": t, "value": v})
}
fn jdates(m: &BTreeMap<u64, u128>) -> Value {
    jmap(m.iter().map(|(k, v)| (jint(k), jint(v))).collect())
}
fn jtok(t: &TokenSt) -> Value {
    json!({"mint": t.mint, "owner": t.owner, "amount": jint(t.amount)})
}
pub fn jworld(w: &World) -> Value {
    json!({
        "now": jint(w.now),
        "rawPools": jmap(w.raw.iter().map(|(k, v)| (json!(k), jint(v))).collect()),
        "pools": jmap(w.pools.iter().map(|(k, p)| (json!(k), json!({
            "depAuth": p.dep, "distAuth": p.dist, "fillAuth": p.fill, "mint": p.mint,
            "index": jint(p.index), "total": jint(p.total), "endsAt": jint(p.ends_at), "avail": jint(p.avail),
            "sched": jdates(&p.sched), "cum": jdates(&p.cum)}))).collect()),
        "minings": jmap(w.minings.iter().map(|((p, o), m)| (jtup(p, o), json!({
            "index": jint(m.index), "share": jint(m.share), "unclaimed": jint(m.unclaimed),
            "others": jint(m.others), "sched": jdates(&m.sched), "lamports": jint(m.lamports)}))).collect()),
        "vaults": jmap(w.vaults.iter().map(|((p, m), t)| (jtup(p, m), jtok(t))).collect()),
        "toks": jmap(w.toks.iter().map(|(k, t)| (json!(k), jtok(t))).collect()),
        "mints": {"#set": w.mints.iter().collect::<Vec<_>>()},
        "wallets": jmap(w.wallets.iter().map(|(k, v)| (json!(k), jint(v))).collect()),
        "parked": jmap(w.parked.iter().map(|(k, v)| (jacct(k), jint(v))).collect()),
        "husks": jmap(w.husks.iter().map(|((p, o), v)| (jtup(p, o), jint(v))).collect()),
    })
}
