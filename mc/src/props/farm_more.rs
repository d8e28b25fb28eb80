//! F06, F07, F09 the farming contract: who may do what, storage, upgrades.
use super::*;
use crate::chain::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::fail;
use crate::ops::*;
use crate::props::access::forged;
use crate::props::farm::*;
use crate::vm::*;
use crate::Ctx;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

// ---- F06: who may do what

#[derive(Clone, Copy, PartialEq)]
enum Role {
    Owner,
    Myself,
    Nobody,
    User(&'static str),
}
struct Priv {
    m: &'static str,
    args: Value,
    role: Role,
    /// Exactly one yoctoNEAR, or this much.
    pay: Result<(), u128>,
    /// Valid while the contract is paused.
    always: bool,
    running: Option<bool>,
}
fn table() -> Vec<Priv> {
    let mut v = vec![];
    let mut p = |m: &'static str, args: Value, role: Role, pay: Result<(), u128>, running: Option<bool>| v.push(Priv { m, args, role, pay, always: running.is_none(), running });
    use Role::*;
    p("set_owner", json!({ "owner_id": "new.test" }), Owner, Err(0), None);
    p("force_clean_farm", json!({ "farm_id": "r1.test#0" }), Owner, Err(0), None);
    p("modify_seed_min_deposit", json!({"seed_id": S1, "min_deposit": "77"}), Owner, Err(0), None);
    p("create_simple_farm", json!({"terms": terms(S1, R2, 0, 5, 7), "min_deposit": "5"}), Owner, Err(NEAR / 10), None);
    p("create_simple_farm", json!({"terms": terms("s2.test", R2, 0, 5, 7), "min_deposit": "5"}), Owner, Err(NEAR / 10), None);
    p("pause_contract", json!({}), Owner, Ok(()), Some(true));
    p("resume_contract", json!({}), Owner, Ok(()), Some(false));
    p("migrate", json!({}), Myself, Err(0), None);
    p("new", json!({ "owner_id": BOB }), Nobody, Err(0), None);
    let u = User;
    // what ordinary users sign for: an access key without full rights cannot attach NEAR
    p("withdraw_seed", json!({"seed_id": S1, "amount": "5"}), u(ALICE), Ok(()), Some(true));
    p("withdraw_seed", json!({"seed_id": M0, "amount": "5"}), u(ALICE), Ok(()), Some(true));
    p("withdraw_reward", json!({ "token_id": R1 }), u(ALICE), Ok(()), Some(true));
    p("withdraw_reward", json!({"token_id": R1, "amount": "5"}), u(ALICE), Ok(()), Some(true));
    p("storage_withdraw", json!({"amount": "5"}), u(ALICE), Ok(()), Some(true));
    p("storage_unregister", json!({}), u(DAN), Ok(()), Some(true));
    p("storage_deposit", json!({}), u(CAROL), Err(NEAR), Some(true));
    p("claim_reward_by_farm", json!({"farm_id": "s1.test#0"}), u(ALICE), Err(0), Some(true));
    p("claim_reward_by_seed", json!({ "seed_id": S1 }), u(ALICE), Err(0), Some(true));
    p("remove_user_rps_by_farm", json!({"farm_id": "r2.test#0"}), u(ALICE), Err(0), Some(true));
    v
}
fn effect(a: &World, b: &World, o: &Outcome) -> Option<String> {
    if a.kv[FARM].digest() != b.kv[FARM].digest() {
        return Some("changed the contract's state".into());
    }
    if let Some(e) = o.execs.iter().skip(1).find(|e| e.pred == FARM) {
        return Some(format!("made the contract call {}.{}", e.recv, e.method));
    }
    if a.tok != b.tok {
        return Some("moved tokens".into());
    }
    if a.near_of(FARM) != b.near_of(FARM) {
        return Some("left NEAR with the contract".into());
    }
    None
}
fn none(a: &World, b: &World, o: &Outcome) -> Option<String> {
    if o.ok && o.execs.len() == 1 {
        return effect(a, b, o).filter(|e| !e.contains("NEAR"));
    }
    effect(a, b, o)
}
fn is_paused(v: &Viewer) -> bool {
    v.get("get_metadata", json!({}))["state"] == json!("Paused")
}
fn probe(p: Priv) -> Op {
    op(format!("everyone tries {} {}", p.m, p.args), move |x| {
        let v = x.view(FARM);
        let (owner, paused) = (owner_of(&v), is_paused(&v));
        let w0 = x.w.clone();
        let (mut yes, mut no) = (0, 0);
        let callers: Vec<&str> = match p.role {
            Role::User(u) => vec![u],
            _ => vec![OWNER, ALICE, BOB, CAROL, DAN, FARM, S1, R1],
        };
        for who in callers {
            for dep in match p.pay {
                Ok(()) => vec![0, 1, 2, NEAR / 10],
                Err(n) => vec![n],
            } {
                x.w = w0.clone();
                let o = x.call(who, FARM, p.m, p.args.clone(), dep);
                let may = match p.role {
                    Role::Owner => who == owner,
                    Role::Myself => who == FARM,
                    Role::Nobody => false,
                    Role::User(_) => !paused,
                };
                if !may || (p.pay.is_ok() && dep != 1) {
                    no += 1;
                    if let Some(e) = none(&w0, &x.w, &o) {
                        fail!(format!("f06:{}", p.m), "{} (owner {}, {}) called {}({}) with {} yoctoNEAR and {}", who, owner, if paused { "paused" } else { "running" }, p.m, p.args, dep, e);
                    }
                } else if p.always || p.running == Some(!paused) {
                    yes += 1;
                    let did = p.m == "migrate" || effect(&w0, &x.w, &o).filter(|e| !e.contains("NEAR")).is_some();
                    ensure!(o.ok && did, format!("f06:refused:{}", p.m), "{} (owner {}, {}) may call {}({}) but: {}", who, owner, if paused { "paused" } else { "running" }, p.m, p.args, if o.ok { "no effect" } else { &o.err });
                }
            }
        }
        x.w = w0;
        x.class = format!("{} accepted, {} without effect", yes, no);
        x.log.clear();
        Ok(())
    })
}
fn forge(m: &'static str, args: Value) -> Op {
    op(format!("everyone forges {} {}", m, args), move |x| {
        let w0 = x.w.clone();
        let sets: Vec<Vec<PResult>> = vec![vec![], vec![PResult::Failed], vec![PResult::Ok(vec![])], vec![PResult::Ok(b"\"5\"".to_vec())]];
        let (mut n, mut own) = (0, false);
        for set in &sets {
            for who in [OWNER, ALICE, BOB, CAROL, S1, R1, MF] {
                x.w = w0.clone();
                let o = forged(x, FARM, who, m, &args, set, 0);
                n += 1;
                if let Some(e) = none(&w0, &x.w, &o) {
                    fail!(format!("f06:callback:{}", m), "{} called {}({}) itself, with results {:?}, and {}", who, m, args, set, e);
                }
            }
            x.w = w0.clone();
            own |= forged(x, FARM, FARM, m, &args, set, 0).ok;
        }
        ensure!(own, "f06:callback:own", "the contract's own callback {}({}) is refused for every answer", m, args);
        x.w = w0;
        x.class = format!("{} forgeries", n);
        Ok(())
    })
}
/// Anybody can say that tokens were sent: it must not create stakes or rewards in real tokens.
fn claim_sent(m: &'static str, args: Value) -> Op {
    op(format!("everyone says {} {}", m, args), move |x| {
        let w0 = x.w.clone();
        for who in [OWNER, ALICE, BOB, CAROL, R2, "evil.test"] {
            x.w = w0.clone();
            let o = x.call(who, FARM, m, args.clone(), 0);
            if let Some(e) = none(&w0, &x.w, &o) {
                fail!(format!("f06:sent:{}", m), "{} called {}({}) and {}", who, m, args, e);
            }
        }
        x.w = w0;
        x.log.clear();
        x.class = "no effect".into();
        Ok(())
    })
}
fn pausing() -> Vec<Op> {
    vec![
        tx(OWNER, FARM, "pause_contract", json!({}), 1),
        tx(OWNER, FARM, "resume_contract", json!({}), 1),
    ]
}
/// While paused, only the owner changes anything, apart from the contract's own callbacks.
fn paused_judge(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let v = env.view(pre, FARM);
    if !is_paused(&v) {
        for e in log {
            if e.recv == FARM && e.pred == OWNER && e.method == "pause_contract" {
                ensure!(is_paused(&env.view(post, FARM)), "f06:pause", "the owner paused the contract, it is running");
            }
        }
        return Ok(());
    }
    let owner = owner_of(&v);
    let only_users = log.iter().all(|e| e.recv != FARM || (e.pred != owner && e.pred != FARM));
    if only_users {
        ensure!(pre.kv[FARM].digest() == post.kv[FARM].digest(), "f06:paused", "the contract is paused and {:?} changed it", log.iter().map(|e| format!("{}.{}({}) by {}", e.recv, e.method, e.args, e.pred)).collect::<Vec<_>>());
    }
    for e in log {
        if e.recv == FARM && e.pred == FARM {
            ensure!(e.ok, "f06:callback", "the contract is paused and its own {} failed: {}", e.method, e.err);
        }
        if e.recv == FARM && e.pred != owner && e.pred != FARM && e.method.ends_with("on_transfer") {
            let all = u(&serde_json::from_str::<Value>(&e.args).unwrap_or_default()["amount"]);
            let back = e.ret.as_ref().and_then(|r| serde_json::from_slice::<Value>(r).ok()).map(|r| u(&r));
            ensure!(!e.ok || back == Some(all), "f06:paused", "the contract is paused and took {} of {}", all - back.unwrap_or(0).min(all), e.pred);
        }
    }
    Ok(())
}
pub fn f06(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    v.push(mk(cx, "who may do what", move |cx| {
        let mut s = base(cx);
        // a farm that is over, and a record of a farm that was cleared
        new_farm(&mut s, R1, R1, 0, 10, 1, 1);
        new_farm(&mut s, R2, R1, 0, 10, 1, 1);
        for t in [R1, R2] {
            put(&mut s, ALICE, t, 5, "");
            s.must(CAROL, R1, "ft_transfer_call", json!({"receiver_id": FARM, "amount": "1", "msg": format!("{}#0", t)}), 1);
        }
        s.w.ts += 65 * SEC;
        s.must(ALICE, FARM, "claim_reward_by_seed", json!({ "seed_id": S1 }), 0);
        s.must(OWNER, FARM, "force_clean_farm", json!({"farm_id": "r2.test#0"}), 0);
        s.w.ts += 65 * SEC;
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = 4;
        sc.ops = pausing();
        sc.ops.push(tx(OWNER, FARM, "set_owner", json!({ "owner_id": ALICE }), 0));
        sc.ops.push(tx(ALICE, FARM, "set_owner", json!({ "owner_id": OWNER }), 0));
        sc.ops.push(tx(ALICE, FARM, "pause_contract", json!({}), 1));
        sc.ops.push(tx(ALICE, FARM, "resume_contract", json!({}), 1));
        sc.ops.extend(table().into_iter().map(probe));
        for (m, a) in [
            ("callback_post_withdraw_reward", json!({"token_id": R1, "sender_id": BOB, "amount": "5"})),
            ("callback_post_withdraw_ft_seed", json!({"seed_id": S1, "sender_id": BOB, "amount": "5"})),
            ("callback_post_withdraw_mft_seed", json!({"seed_id": M0, "sender_id": BOB, "amount": "5"})),
        ] {
            sc.ops.push(forge(m, a));
        }
        for (m, a) in [
            ("ft_on_transfer", json!({"sender_id": ALICE, "amount": "100", "msg": ""})),
            ("ft_on_transfer", json!({"sender_id": ALICE, "amount": "100", "msg": "s1.test#0"})),
            ("mft_on_transfer", json!({"token_id": ":0", "sender_id": ALICE, "amount": "100", "msg": ""})),
            ("mft_on_transfer", json!({"token_id": S1, "sender_id": ALICE, "amount": "100", "msg": ""})),
        ] {
            // (r2.test itself is a seed)
            if !(m == "ft_on_transfer" && a["msg"] == "") {
                sc.ops.push(claim_sent(m, a));
            }
        }
        sc.ops.push(op("everyone tries upgrade", move |x| {
            let w0 = x.w.clone();
            let owner = owner_of(&x.view(FARM));
            for who in [OWNER, ALICE, BOB, FARM] {
                x.w = w0.clone();
                let o = x.call_raw(who, FARM, "upgrade", vec![0, 97, 115, 109], 0);
                if who != owner {
                    if let Some(e) = none(&w0, &x.w, &o) {
                        fail!("f06:upgrade", "{} (owner is {}) called upgrade and {}", who, owner, e);
                    }
                } else {
                    ensure!(o.ok && o.execs.len() > 1, "f06:refused:upgrade", "the owner {} cannot upgrade: {}", who, o.err);
                }
            }
            x.w = w0;
            x.log.clear();
            x.class = "upgrade".into();
            Ok(())
        }));
        sc
    }));
    v.push(mk(cx, "paused in flight", move |cx| {
        let mut s = base(cx);
        s.w.ts += 65 * SEC;
        s.must(ALICE, FARM, "claim_reward_by_seed", json!({ "seed_id": S1 }), 0);
        may_fail(&mut s);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.interleave = true;
        sc.max_pending = 3;
        sc.depth = if cx.thorough { 8 } else { 6 };
        sc.ops = pausing();
        sc.ops.extend(vec![
            unstake(ALICE, S1, None),
            unstake(ALICE, M0, Some(15)),
            take(ALICE, R1, None),
            stake(BOB, S1, 77),
            stake(BOB, M0, 50),
            fund(R1, 300_000, "s1.test#0"),
            claim_seed(ALICE, S1),
            tx(BOB, FARM, "storage_withdraw", json!({}), 1),
            wait(60),
        ]);
        sc.step = Box::new(paused_judge);
        sc.inv = Box::new(|env, w| {
            let v = env.view(w, FARM);
            books_inv(w, &v, "f06", &[S1, M0, R1, R2])?;
            stakes_inv(&v, "f06")
        });
        sc
    }));
    v
}

// ---- F07: storage

const ENTRY: u128 = 84;
const RPS: u128 = 165;
const FIXED: u128 = 92;

fn usage(v: &Viewer, who: &str) -> Option<(u128, u128)> {
    let s = v.get("get_user_storage_state", json!({ "account_id": who }));
    if s.is_null() {
        None
    } else {
        Some((u(&s["deposit"]), u(&s["usage"])))
    }
}
/// The farms an account has a record of its last claim for.
fn recs(w: &World, who: &str) -> BTreeSet<String> {
    let p = format!("rec.{}.", who);
    w.ghost.iter().filter(|(k, v)| k.starts_with(&p) && **v != big(0)).map(|(k, _)| k[p.len()..].to_string()).collect()
}
/// Closed the account with such records left behind.
fn stale(w: &World, who: &str) -> bool {
    w.g(&format!("stale.{}", who)) != big(0)
}
fn expected(seeds: usize, rewards: usize, recs: usize) -> u128 {
    (FIXED + ENTRY * (seeds + rewards) as u128 + RPS * recs as u128) * BYTE
}
fn farms_of(v: &Viewer, seed: &str) -> Vec<String> {
    live(v).into_iter().filter(|f| f.seed == seed).map(|f| f.id).collect()
}
/// What kind of use of the contract a call is: the staked seed, claimed seed or farm.
fn seed_sent(e: &Exec) -> Option<String> {
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    if !e.method.ends_with("transfer_call") || a["msg"] != "" {
        return None;
    }
    Some(match a["token_id"].as_str() {
        Some(t) => format!("{}@{}", e.recv, &t[1..]),
        None => e.recv.clone(),
    })
}
/// Keeps the record of claims next to the contract.
fn noted(o: Op) -> Op {
    let Op { label, f, .. } = o;
    op(label, move |x| {
        let v = x.view(FARM);
        f(x)?;
        if x.skipped || x.log.is_empty() {
            return Ok(());
        }
        let p = x.view(FARM);
        let e = x.log[0].clone();
        let who = e.pred.clone();
        let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
        let set = |x: &mut X, farm: &str, n: u128| x.w.gset(&format!("rec.{}.{}", who, farm), big(n));
        let ok = e.ok && x.log.iter().all(|e| e.ok);
        match &e.method[..] {
            "ft_transfer_call" | "mft_transfer_call" if ok => {
                if let Some(s) = seed_sent(&e) {
                    for f in farms_of(&v, &s) {
                        set(x, &f, 1);
                    }
                }
            }
            "claim_reward_by_seed" if ok => {
                for f in farms_of(&v, a["seed_id"].as_str().unwrap()) {
                    set(x, &f, 1);
                }
            }
            "claim_reward_by_farm" if ok => {
                let id = a["farm_id"].as_str().unwrap();
                if live(&v).iter().any(|f| f.id == id) {
                    set(x, id, 1);
                }
            }
            "withdraw_seed" if ok => {
                let s = a["seed_id"].as_str().unwrap();
                let keep = stakes(&p, &who).contains_key(s);
                for f in farms_of(&p, s) {
                    set(x, &f, keep as u128);
                }
            }
            "remove_user_rps_by_farm" if ok => {
                let id = a["farm_id"].as_str().unwrap();
                if !live(&v).iter().any(|f| f.id == id) {
                    set(x, id, 0);
                }
            }
            "storage_unregister" if ok => {
                let all = recs(&x.w, &who);
                if !all.is_empty() {
                    x.w.gset(&format!("stale.{}", who), big(1));
                }
                for f in all {
                    set(x, &f, 0);
                }
            }
            _ => {}
        }
        Ok(())
    })
}
fn storage_inv(env: &Env, w: &World) -> R {
    let v = env.view(w, FARM);
    let min = u(&v.get("storage_balance_bounds", json!({}))["min"]);
    ensure!(min == MIN_STORAGE, "f07:min", "the least deposit is {}", min);
    let mut owed = 0;
    for who in WHO {
        let (s, r) = (stakes(&v, who), rewards(&v, who));
        match (paid(&v, who), usage(&v, who)) {
            (None, None) => ensure!(s.is_empty() && r.is_empty(), "f07:gone", "{} has no account but stakes {:?} and rewards {:?}", who, s, r),
            (Some((total, avail)), Some((dep, used))) => {
                owed += total;
                ensure!(dep == total, "f07:views", "{} has paid {} and {}", who, total, dep);
                ensure!(avail == total.saturating_sub(used), "f07:available", "{} has paid {}, uses {}, and is told {} is free", who, total, used, avail);
                if !stale(w, who) {
                    let held = r.values().filter(|n| **n > 0).count();
                    let want = expected(s.len(), held, recs(w, who).len());
                    ensure!(used == want, "f07:usage", "{} has {} seeds, {} rewards and claimed from {:?}; its storage is {}, not {}", who, s.len(), held, recs(w, who), used, want);
                }
            }
            (a, b) => fail!("f07:views", "{} is told {:?} and {:?}", who, a, b),
        }
    }
    ensure!(w.near_of(FARM) >= owed as i128, "f07:backed", "the contract owes {} of storage deposits and has {}", owed, w.near_of(FARM));
    Ok(())
}
fn storage_judge(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let e = match log.first() {
        Some(e) => e,
        _ => return Ok(()),
    };
    let (v, p) = (env.view(pre, FARM), env.view(post, FARM));
    let who = &e.pred[..];
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let what = format!("{}.{}({}) by {} with {}", e.recv, e.method, e.args, who, e.deposit);
    let growth = (post.kv[FARM].usage as i128 - pre.kv[FARM].usage as i128) * BYTE as i128;
    let mut near: BTreeMap<&str, i128> = BTreeMap::new();
    let mut tot: BTreeMap<&str, i128> = BTreeMap::new();
    let mut gone = false;
    let mine = usage(&v, who);
    let d = e.deposit;
    if !e.ok {
        ensure!(pre.kv[FARM].digest() == post.kv[FARM].digest(), "f07:refused", "{} was refused but left something changed", what);
    } else {
        near.insert(who, -(d as i128));
    }
    // what the account would use, had it claimed from these farms
    let after = |seed: Option<&str>, farms: &[String]| {
        let mut r: BTreeSet<String> = rewards(&v, who).into_keys().collect();
        let mut k = recs(pre, who);
        for f in live(&v) {
            if farms.contains(&f.id) {
                k.insert(f.id.clone());
                if pending(&v, who, &f.id) > 0 {
                    r.insert(f.rew.clone());
                }
            }
        }
        let mut s: BTreeSet<String> = stakes(&v, who).into_keys().collect();
        s.extend(seed.map(|x| x.to_string()));
        expected(s.len(), r.len(), k.len())
    };
    let fits = |n: u128| mine.map(|(dep, _)| dep > 0 && dep >= n).unwrap_or(false);
    let sure = !stale(pre, who);
    let may: Option<bool> = match &e.method[..] {
        "storage_deposit" => {
            let to = a["account_id"].as_str().unwrap_or(who);
            let reg = usage(&v, to).filter(|x| x.0 > 0);
            let only = a["registration_only"] == json!(true);
            if e.ok {
                let take = if only { MIN_STORAGE } else { d };
                near.insert(who, -(take as i128));
                tot.insert(WHO.iter().find(|x| **x == to).unwrap(), take as i128);
            }
            Some(match reg {
                None => d >= MIN_STORAGE,
                Some((dep, used)) => !only && dep + d >= used,
            })
        }
        "storage_withdraw" => {
            let (dep, used) = mine.unwrap_or((0, 0));
            let n = a["amount"].as_str().map(|x| x.parse().unwrap()).unwrap_or(dep.saturating_sub(used));
            if e.ok {
                near.insert(who, n as i128 - 1);
                tot.insert(who, -(n as i128));
            }
            Some(d == 1 && dep > 0 && dep >= used + n)
        }
        "storage_unregister" => {
            let full = stakes(&v, who).len() > 0 || rewards(&v, who).values().any(|x| *x > 0);
            if e.ok && mine.is_some() {
                near.insert(who, mine.unwrap().0 as i128 - 1);
                gone = true;
            }
            Some(d == 1 && !full)
        }
        "claim_reward_by_seed" => {
            let n = after(None, &farms_of(&v, a["seed_id"].as_str().unwrap()));
            if sure { Some(fits(n)) } else { None }
        }
        "claim_reward_by_farm" => {
            let n = after(None, &[a["farm_id"].as_str().unwrap().to_string()]);
            if sure { Some(fits(n)) } else { None }
        }
        "withdraw_seed" => {
            let n = u(&a["amount"]);
            Some(d == 1 && n <= of(&stakes(&v, who), a["seed_id"].as_str().unwrap()) && stakes(&v, who).contains_key(a["seed_id"].as_str().unwrap()))
        }
        "withdraw_reward" => {
            let r = rewards(&v, who);
            let t = a["token_id"].as_str().unwrap();
            let n = a["amount"].as_str().map(|x| x.parse::<u128>().unwrap()).unwrap_or(0);
            Some(d == 1 && r.contains_key(t) && of(&r, t) >= n)
        }
        "ft_transfer_call" | "mft_transfer_call" if e.ok => {
            if let Some(s) = seed_sent(e) {
                let took = of(&stakes(&p, who), &s) > of(&stakes(&v, who), &s);
                if let (true, Some((_, _, least))) = (sure, seed_info(&v, &s)) {
                    let n = after(Some(&s), &farms_of(&v, &s));
                    let may = fits(n) && u(&a["amount"]) >= least;
                    ensure!(took == may, "f07:stake", "{} was {} as stake; it needs {} of storage, paid is {:?}", what, if took { "taken" } else { "not taken" }, n, mine);
                }
            }
            None
        }
        "create_simple_farm" => {
            if e.ok {
                ensure!(growth > 0, "f07:grown", "{} took no storage", what);
                near.insert(who, -growth);
            }
            None
        }
        _ => None,
    };
    if let Some(may) = may {
        ensure!(e.ok == may, "f07:accept", "{} was {}: {} (has paid and uses {:?})", what, if e.ok { "accepted" } else { "refused" }, e.err, mine);
    }
    for y in WHO {
        let got = post.near_of(y) - pre.near_of(y);
        let want = near.get(y).cloned().unwrap_or(0);
        ensure!(got == want, format!("f07:near:{}", e.method), "{}: {} should get {} NEAR and got {}", what, y, want, got);
        let (b, c) = (paid(&v, y), paid(&p, y));
        if gone && *y == who {
            ensure!(c.is_none(), "f07:closed", "{}: the account is still there", what);
            continue;
        }
        ensure!(b.is_none() || c.is_some(), "f07:account", "{}: {} no longer has an account", what, y);
        ensure!(b.is_some() || c.is_none() || tot.contains_key(y), "f07:account", "{}: {} has an account all of a sudden", what, y);
        let got = c.map(|x| x.0 as i128).unwrap_or(0) - b.map(|x| x.0 as i128).unwrap_or(0);
        let want = tot.get(y).cloned().unwrap_or(0);
        ensure!(got == want, format!("f07:paid:{}", e.method), "{}: what {} has paid for storage should change by {} and changed by {}", what, y, want, got);
    }
    // what an account's records really take is covered by what it is told to use
    if (e.method.starts_with("claim") || seed_sent(e).is_some()) && sure {
        let u1 = usage(&p, who).map(|x| x.1).unwrap_or(0) as i128;
        let u0 = mine.map(|x| x.1).unwrap_or(0) as i128;
        ensure!(growth <= (u1 - u0).max(0), "f07:covered", "{} made the contract's storage grow by {} and {} is told to use {} more", what, growth, who, u1 - u0);
    }
    Ok(())
}
fn deposit_storage(who: &'static str, to: Option<&'static str>, only: Option<bool>, n: u128, name: &str) -> Op {
    let mut a = json!({});
    if let Some(t) = to {
        a["account_id"] = json!(t);
    }
    if let Some(o) = only {
        a["registration_only"] = json!(o);
    }
    txn(&format!("{} storage_deposit {} {}", short(who), a, name), who, FARM, "storage_deposit", a, n)
}
/// Deposits what is missing for the next claim or stake, or a yocto less.
fn top_up(who: &'static str, need: u128, less: u128) -> Op {
    op(format!("{} deposits storage up to {} bytes, {} yocto less", short(who), need, less), move |x| {
        let dep = usage(&x.view(FARM), who).map(|x| x.0).unwrap_or(0);
        if dep == 0 || dep + less >= need * BYTE {
            return x.skip();
        }
        x.call(who, FARM, "storage_deposit", json!({}), need * BYTE - less - dep);
        Ok(())
    })
}
pub fn f07(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    v.push(mk(cx, "accounts", move |cx| {
        let mut s = base(cx);
        s.must(DAN, FARM, "storage_unregister", json!({}), 1);
        // bob has paid for what he uses only
        s.must(BOB, FARM, "storage_withdraw", json!({}), 1);
        s.must(ALICE, FARM, "storage_withdraw", json!({}), 1);
        for f in ["s1.test#0", "s1.test#1", "mf.test@0#0"] {
            s.w.gset(&format!("rec.{}.{}", ALICE, f), big(1));
        }
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = if cx.thorough { 6 } else { 5 };
        sc.ops = vec![
            deposit_storage(DAN, None, None, MIN_STORAGE - 1, "min-1"),
            deposit_storage(DAN, None, None, MIN_STORAGE, "min"),
            deposit_storage(DAN, None, Some(true), NEAR, "a lot"),
            deposit_storage(DAN, None, Some(true), MIN_STORAGE - 1, "min-1"),
            deposit_storage(BOB, Some(DAN), None, NEAR, "a lot"),
            deposit_storage(BOB, Some(DAN), Some(true), NEAR, "a lot"),
            deposit_storage(BOB, Some(ALICE), Some(true), NEAR, "a lot"),
            deposit_storage(BOB, Some(ALICE), Some(false), 84 * BYTE, "one entry"),
            top_up(BOB, FIXED + ENTRY + 2 * RPS, 0),
            top_up(BOB, FIXED + ENTRY + 2 * RPS, 1),
            top_up(BOB, FIXED + RPS, 1),
            tx(BOB, FARM, "storage_withdraw", json!({}), 1),
            tx(BOB, FARM, "storage_withdraw", json!({"amount": "1"}), 1),
            tx(BOB, FARM, "storage_withdraw", json!({ "amount": (ENTRY * BYTE).to_string() }), 1),
            tx(BOB, FARM, "storage_withdraw", json!({"amount": "0"}), 1),
            tx(DAN, FARM, "storage_withdraw", json!({}), 1),
            tx(ALICE, FARM, "storage_withdraw", json!({}), 1),
            tx(BOB, FARM, "storage_unregister", json!({}), 1),
            tx(DAN, FARM, "storage_unregister", json!({}), 1),
            tx(ALICE, FARM, "storage_unregister", json!({ "force": true }), 1),
            stake(BOB, S1, 77),
            stake(DAN, S1, 77),
            stake(BOB, M0, 50),
            unstake(BOB, S1, None),
            unstake(ALICE, S1, None),
            unstake(ALICE, M0, Some(7)),
            claim_farm(BOB, "s1.test#0"),
            claim_seed(DAN, S1),
            claim_seed(ALICE, S1),
            claim_farm(ALICE, "s1.test#1"),
            claim_farm(DAN, "mf.test@0#0"),
            take(ALICE, R1, None),
            take_named(ALICE, R1),
            tx(ALICE, FARM, "remove_user_rps_by_farm", json!({"farm_id": "s1.test#0"}), 0),
            tx(BOB, FARM, "remove_user_rps_by_farm", json!({"farm_id": "s1.test#0"}), 0),
            clean("s1.test#0"),
            wait(61),
            wait(400),
        ]
        .into_iter()
        .map(noted)
        .collect();
        sc.inv = Box::new(storage_inv);
        sc.step = Box::new(storage_judge);
        sc
    }));
    v.push(mk(cx, "farms", move |cx| {
        let s = base(cx);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = 4;
        for (seed, per) in [(S1, 5), ("other.test", 7)] {
            for how in ["plenty", "exact", "short"] {
                sc.ops.push(op(format!("owner creates a farm of {} with {}", seed, how), move |x| {
                    if live(&x.view(FARM)).len() > 8 {
                        return x.skip();
                    }
                    let a = json!({"terms": terms(seed, R2, 0, per, 60), "min_deposit": "5"});
                    let mut d = NEAR;
                    if how != "plenty" {
                        let mut w = x.w.clone();
                        let mut ch = Chooser::new(vec![]);
                        x.env.submit(&mut w, &mut ch, OWNER, FARM, "create_simple_farm", a.clone(), NEAR);
                        d = (w.kv[FARM].usage - x.w.kv[FARM].usage) as u128 * BYTE - (how == "short") as u128;
                    }
                    let o = x.call(OWNER, FARM, "create_simple_farm", a, d);
                    ensure!(o.ok == (how != "short"), "f07:charge", "a farm of {} with {} ({}) was {}: {}", seed, how, d, if o.ok { "made" } else { "refused" }, o.err);
                    Ok(())
                }));
            }
        }
        sc.ops.push(tx(ALICE, FARM, "create_simple_farm", json!({"terms": terms(S1, R2, 0, 5, 60), "min_deposit": "5"}), NEAR));
        sc.ops.push(clean("s1.test#0"));
        sc.ops.push(fund(R1, 1000, "s1.test#0"));
        sc.ops.push(wait(500));
        sc.inv = Box::new(|env, w| {
            let v = env.view(w, FARM);
            let owed: u128 = WHO.iter().filter_map(|a| paid(&v, a)).map(|x| x.0).sum();
            ensure!(w.near_of(FARM) >= owed as i128, "f07:backed", "the contract owes {} of storage deposits and has {}", owed, w.near_of(FARM));
            Ok(())
        });
        sc.step = Box::new(storage_judge);
        sc
    }));
    v
}

// ---- F09: upgrades

const NEW: &str = "this tree";

fn world(cx: &Ctx) -> Sb {
    let old = Arc::new(Code::load(FARM, "/repo/releases/ref_farming_release.wasm"));
    let mut env = Env::new();
    env.library.push((NEW.into(), cx.farm.clone()));
    env.codes.insert(FARM, old);
    for t in [S1, R1, R2] {
        env.actors.insert(t.into(), Actor::Token { fail: false });
    }
    env.actors.insert(MF.into(), Actor::Mft { fail: false });
    let mut w = World::new();
    w.kv.insert(FARM, Kv::new());
    w.add_near(FARM, 1000 * NEAR as i128);
    let mut s = Sb { env, w };
    s.must(OWNER, FARM, "new", json!({ "owner_id": OWNER }), 0);
    let t = sec(&s.w);
    new_farm(&mut s, S1, R1, 0, 97_001, 60, 10);
    new_farm(&mut s, S1, R2, t + 500, 50_003, 100, 10);
    new_farm(&mut s, S1, R2, 0, 50_003, 10, 10);
    new_farm(&mut s, M0, R1, 0, 31_007, 60, 1);
    new_farm(&mut s, M0, R2, 0, 31_007, 60, 1);
    for a in [ALICE, BOB, DAN] {
        join(&mut s, a);
    }
    put(&mut s, CAROL, R1, 500_000, &format!("{}#0", S1));
    put(&mut s, CAROL, R2, 180_000, &format!("{}#1", S1));
    put(&mut s, CAROL, R2, 90_000, &format!("{}#2", S1));
    put(&mut s, CAROL, R1, 200_000, &format!("{}#0", M0));
    put(&mut s, ALICE, S1, 300, "");
    put(&mut s, ALICE, M0, 40, "");
    put(&mut s, BOB, S1, 77, "");
    s.w.ts += 65 * SEC;
    s.must(ALICE, FARM, "claim_reward_by_seed", json!({ "seed_id": S1 }), 0);
    s.must(BOB, FARM, "claim_reward_by_farm", json!({"farm_id": "s1.test#2"}), 0);
    s.must(OWNER, FARM, "force_clean_farm", json!({"farm_id": "s1.test#2"}), 0);
    for (t, n) in [(S1, 1000), (M0, 1000)] {
        for a in [ALICE, BOB, DAN] {
            s.mint(t, a, n);
        }
    }
    for t in REWS {
        s.mint(t, CAROL, 5_000_000);
    }
    s
}
fn on_new(w: &World, env: &Env) -> bool {
    w.deployed.get(FARM).map(|i| env.library[*i].0 == NEW).unwrap_or(false)
}
fn seen(s: &Viewer, code: &Code) -> Vec<(String, Value)> {
    let mut out = vec![];
    let mut q = |m: &str, a: Value| {
        if code.exports.iter().any(|x| x == m) {
            if let Ok(r) = s.try_get(m, a.clone()) {
                out.push((format!("{}({})", m, a), r));
            }
        }
    };
    let page = PAGE();
    for m in ["get_metadata", "get_number_of_farms", "get_number_of_outdated_farms", "list_farms", "list_outdated_farms", "list_rewards_info", "list_seeds", "list_seeds_info", "storage_balance_bounds"] {
        q(m, page.clone());
    }
    for s in SEEDS {
        q("list_farms_by_seed", json!({ "seed_id": s }));
        q("get_seed_info", json!({ "seed_id": s }));
    }
    let farms: Vec<String> = SEEDS.iter().flat_map(|s| (0..3).map(move |i| format!("{}#{}", s, i))).collect();
    for f in &farms {
        q("get_farm", json!({ "farm_id": f }));
        q("get_outdated_farm", json!({ "farm_id": f }));
    }
    for a in WHO {
        for m in ["list_rewards", "list_user_seeds", "storage_balance_of", "get_user_storage_state"] {
            q(m, json!({ "account_id": a }));
        }
        for t in REWS {
            q("get_reward", json!({"account_id": a, "token_id": t}));
        }
        for f in &farms {
            q("get_unclaimed_reward", json!({"account_id": a, "farm_id": f}));
            q("get_user_rps", json!({"account_id": a, "farm_id": f}));
        }
    }
    out
}
/// Everything the old answer said, the new one says too; lists come in any order.
fn covers(new: &Value, old: &Value) -> bool {
    match (new, old) {
        (Value::Object(n), Value::Object(o)) => o.iter().all(|(k, x)| k == "version" || n.get(k).map(|y| covers(y, x)).unwrap_or(x.is_null())),
        (Value::Array(n), Value::Array(o)) => n.len() == o.len() && o.iter().all(|x| n.iter().any(|y| covers(y, x))),
        _ => new == old,
    }
}
fn up_judge(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    for e in log {
        if e.recv != FARM {
            continue;
        }
        if e.pred == FARM && e.method == "migrate" {
            ensure!(e.ok, "f09:refused", "the upgrade by the owner failed: {}", e.err);
        }
        if e.method == "upgrade" && e.pred != FARM {
            ensure!(e.ok == (e.pred == OWNER), "f09:who", "upgrade by {} was {}: {}", e.pred, if e.ok { "accepted" } else { "refused" }, e.err);
        }
        if ["migrate", "new"].contains(&&e.method[..]) && e.pred != FARM {
            ensure!(!e.ok, "f09:who", "{} by {} was accepted", e.method, e.pred);
        }
    }
    if post.deployed.get(FARM) != pre.deployed.get(FARM) || log.iter().any(|e| e.recv == FARM && e.pred == FARM && e.method == "migrate") {
        let (v, p) = (env.view(pre, FARM), env.view(post, FARM));
        let (a, b) = (env.code(pre, FARM).unwrap(), env.code(post, FARM).unwrap());
        let after = seen(&p, b);
        for (q, old) in seen(&v, a) {
            match after.iter().find(|x| x.0 == q) {
                None => fail!("f09:lost", "{} was {} and can no longer be answered after the upgrade", q, old),
                Some((_, new)) => ensure!(covers(new, &old), "f09:changed", "the upgrade changed {} from {} to {}", q, old, new),
            }
        }
        ensure!(pre.tok == post.tok, "f09:tokens", "the upgrade moved tokens");
        ensure!(pre.near == post.near, "f09:near", "the upgrade moved NEAR");
    }
    Ok(())
}
fn up_inv(env: &Env, w: &World) -> R {
    if !on_new(w, env) {
        return Ok(());
    }
    let v = env.view(w, FARM);
    books_inv(w, &v, "f09", &[S1, M0, R1, R2])?;
    stakes_inv(&v, "f09")?;
    rewards_inv(&v, "f09")?;
    if w.quiet() && v.get("get_metadata", json!({}))["state"] == json!("Running") {
        free(env, w)?;
    }
    Ok(())
}
pub fn f09(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    let up = |who: &'static str| {
        op(format!("{} upgrades", short(who)), move |x| {
            x.call_raw(who, FARM, "upgrade", NEW.as_bytes().to_vec(), 0);
            Ok(())
        })
    };
    v.push(mk(cx, "from 1.1.0", move |cx| {
        let s = world(cx);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.depth = if cx.thorough { 6 } else { 5 };
        sc.ops = vec![
            up(OWNER),
            up(ALICE),
            tx(OWNER, FARM, "migrate", json!({}), 0),
            tx(ALICE, FARM, "migrate", json!({}), 0),
            tx(OWNER, FARM, "new", json!({ "owner_id": ALICE }), 0),
            stake(BOB, M0, 50),
            stake(DAN, S1, 77),
            unstake(ALICE, S1, None),
            unstake(BOB, S1, Some(7)),
            claim_seed(ALICE, S1),
            claim_farm(BOB, "s1.test#0"),
            take(ALICE, R1, None),
            fund(R2, 100_000, "mf.test@0#1"),
            fund(R1, 300_000, "s1.test#0"),
            clean("s1.test#0"),
            create(S1, R2, 150, 30_011, 50),
            tx(OWNER, FARM, "pause_contract", json!({}), 1),
            tx(OWNER, FARM, "resume_contract", json!({}), 1),
            wait(60),
            wait(500),
        ];
        sc.step = Box::new(up_judge);
        sc.inv = Box::new(up_inv);
        sc
    }));
    v.push(mk(cx, "from 1.1.0, in flight", move |cx| {
        let mut s = world(cx);
        may_fail(&mut s);
        let mut sc = Scenario::new("", s.env, s.w);
        sc.interleave = true;
        sc.max_pending = 2;
        sc.depth = if cx.thorough { 8 } else { 6 };
        sc.ops = vec![up(OWNER), unstake(ALICE, S1, None), unstake(ALICE, M0, Some(15)), take(ALICE, R1, None), stake(BOB, S1, 77), stake(BOB, M0, 50), fund(R1, 300_000, "s1.test#0"), wait(60)];
        sc.step = Box::new(up_judge);
        sc.inv = Box::new(up_inv);
        sc
    }));
    v
}
