//! mplxh replay [--dump DIR] FILE...
//!
//! Each FILE is an ITF behaviour of the specification (variables w, cmd, out).
//! The commands are run on the real program; after each one the outcome and
//! the whole projected state are compared with the behaviour's.  One JSON line
//! per file goes to stdout.  With --dump, the observed execution of every file
//! that differs (at most 160, and all scripts and probes) is written to DIR for
//! trace validation.  The last line counts the distinct worlds and transitions that were compared.
use mplxh::itf::*;
use mplxh::{rt, wire::Sim};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn tag(c: &Value) -> String {
    match c["tag"].as_str() {
        Some("Tx") => c["value"]["ix"]["tag"].as_str().unwrap_or("?").to_string(),
        Some(t) => t.to_string(),
        None => "?".into(),
    }
}

static DUMPED: AtomicUsize = AtomicUsize::new(0);

// Reasons for which an abort is as good as an error (judge.qnt decides).
const MISADDRESSED: &[&str] = &[
    "NotOurs", "WrongMining", "WrongPool", "WrongDelegate", "NotAPool", "NotAToken", "WrongVault", "WrongMint", "WrongProgram", "WrongDestination",
    "SameDelegate", "NotEnoughAccounts", "ReadOnly", "MissingSigner", "WrongAuthority", "AddressInUse", "CannotPay", "WrongLength",
];

#[derive(Default)]
struct Seen {
    worlds: HashSet<u64>,
    transitions: HashSet<u64>,
    // transitions that change something or are refused
    effective: HashSet<u64>,
}

fn hash(v: &Value) -> u64 {
    let mut h = DefaultHasher::new();
    v.to_string().hash(&mut h);
    h.finish()
}

fn nz(mut w: World) -> World {
    w.wallets.retain(|_, l| *l > 0);
    w.parked.retain(|_, l| *l > 0);
    w
}

fn replay(file: &str, dump: Option<&str>, dump_all: bool, seen: &mut Seen) -> Value {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{file}: {e}"));
    let itf: Value = serde_json::from_str(&text).unwrap_or_else(|e| panic!("{file}: {e}"));
    drop(text);
    let states = itf["states"].as_array().expect("states");
    let genesis = world(&states[0]["w"]);
    let mut sim = Sim::genesis(&genesis);
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut diff: Option<Value> = None;
    let mut broken: Option<Value> = None;
    let mut obs: Vec<(Value, Option<World>)> = vec![];
    let g = sim.project();
    assert_eq!(g.as_ref().ok().map(|g| nz(g.clone())), Some(nz(genesis)), "{file}: genesis does not survive projection");
    let mut at = hash(&states[0]["w"]);
    seen.worlds.insert(at);
    for (i, s) in states.iter().enumerate().skip(1) {
        let c = cmd(&s["cmd"]);
        let to = hash(&s["w"]);
        let edge = at.rotate_left(17) ^ hash(&s["cmd"]);
        seen.worlds.insert(to);
        seen.transitions.insert(edge);
        if to != at || !bo(&s["out"]["ok"]) {
            seen.effective.insert(edge);
        }
        at = to;
        let r = sim.step(&c);
        let ret: i128 = match (&c, &r.ret) {
            (Cmd::Tx { .. } | Cmd::Bundle { .. }, Some(d)) if d.len() == 8 => u64::from_le_bytes(d[..].try_into().unwrap()) as i128,
            (_, Some(_)) => -2,
            _ => -1,
        };
        let p = sim.project();
        let why = s["out"]["why"].as_str().unwrap_or("");
        let key = if bo(&s["out"]["ok"]) { format!("{}:ok", tag(&s["cmd"])) } else { format!("{}:{}", tag(&s["cmd"]), why) };
        *stats.entry(key).or_default() += 1;
        let panic = r.err.contains("panic");
        if panic {
            *stats.entry(format!("PANIC:{}:{}", tag(&s["cmd"]), why)).or_default() += 1;
        }
        match &p {
            Err(e) => {
                broken = Some(json!({"step": i, "cmd": s["cmd"], "err": e}));
                obs.push((json!({"cmd": s["cmd"], "ok": r.ok, "err": r.err, "panic": panic, "ret": ret.to_string(), "broken": e}), None));
                break;
            }
            Ok(w) => {
                obs.push((json!({"cmd": s["cmd"], "ok": r.ok, "err": r.err, "panic": panic, "ret": ret.to_string()}), Some(w.clone())));
                if diff.is_none() {
                    let same = !(panic && !MISADDRESSED.contains(&why))
                        && r.ok == bo(&s["out"]["ok"])
                        && ret == big(&s["out"]["ret"])
                        && nz(w.clone()) == nz(world(&s["w"]));
                    if !same {
                        diff = Some(json!({"step": i, "cmd": s["cmd"],
                            "expected": {"ok": s["out"]["ok"], "why": why, "ret": s["out"]["ret"]},
                            "observed": {"ok": r.ok, "err": r.err, "ret": ret.to_string()}}));
                    }
                }
            }
        }
    }
    // scripts and probes, of which there are few
    let base = std::path::Path::new(file).file_name().unwrap().to_string_lossy();
    let rare = base.starts_with("script") || base.starts_with("probe");
    let mut out = json!({"file": file, "steps": states.len() - 1, "stats": stats, "diff": diff, "broken": broken});
    if let (Some(dir), true) = (dump, (diff.is_some() || broken.is_some()) && (rare || DUMPED.fetch_add(1, Ordering::SeqCst) < 160) || dump_all) {
        let name = std::path::Path::new(file).file_name().unwrap().to_string_lossy().replace(".itf.json", ".obs.json");
        let path = format!("{dir}/{name}");
        let obs: Vec<Value> = obs
            .into_iter()
            .map(|(mut o, w)| {
                if let Some(w) = w {
                    o["w"] = jworld(&w);
                }
                o
            })
            .collect();
        let o = json!({"init": states[0]["w"], "source": file, "steps": obs});
        std::fs::write(&path, serde_json::to_string(&o).unwrap()).unwrap();
        out["obs"] = json!(path);
    }
    out
}

fn main() {
    rt::init();
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() || args[0] != "replay" {
        eprintln!("usage: mplxh replay [--dump DIR] [--dump-all] FILE...");
        std::process::exit(2);
    }
    args.remove(0);
    let mut dump = None;
    let mut all = false;
    let mut files = vec![];
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--dump" => dump = it.next(),
            "--dump-all" => all = true,
            _ => files.push(a),
        }
    }
    let next = AtomicUsize::new(0);
    let out = Mutex::new(());
    let bad = AtomicUsize::new(0);
    let total = Mutex::new(Seen::default());
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(files.len().max(1));
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| {
                let mut seen = Seen::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= files.len() {
                        break;
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        replay(&files[i], dump.as_deref(), all, &mut seen)
                    }));
                    match r {
                        Ok(v) => {
                            let _g = out.lock().unwrap();
                            println!("{v}");
                        }
                        Err(_) => {
                            bad.fetch_add(1, Ordering::SeqCst);
                        }
                    }
                }
                let mut t = total.lock().unwrap();
                t.worlds.extend(seen.worlds);
                t.transitions.extend(seen.transitions);
                t.effective.extend(seen.effective);
            });
        }
    });
    let t = total.lock().unwrap();
    println!("{}", json!({"worlds": t.worlds.len(), "transitions": t.transitions.len(), "effective": t.effective.len()}));
    if bad.load(Ordering::SeqCst) > 0 {
        std::process::exit(2);
    }
}
