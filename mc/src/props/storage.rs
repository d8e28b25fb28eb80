//! E14 what accounts pay for storage.
use super::*;
use crate::chain::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::ops::*;
use crate::props::custody::*;
use crate::props::shares::*;
use crate::vm::*;
use crate::Ctx;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const DAN: &str = "dan.test";
pub const WHO: &[&str] = &[OWNER, ALICE, BOB, CAROL, DAN, REF, GUARD, BURROW, BOOST];

/// What an account has paid in, and what of it is free.
fn paid(v: &Viewer, who: &str) -> Option<(u128, u128)> {
    let b = v.get("storage_balance_of", json!({ "account_id": who }));
    if b.is_null() {
        None
    } else {
        Some((u(&b["total"]), u(&b["available"])))
    }
}
fn bounds(v: &Viewer) -> u128 {
    u(&v.get("storage_balance_bounds", json!({}))["min"])
}
fn ntok(v: &Viewer, who: &str) -> u128 {
    deposits(v, who).len() as u128
}
const PER_TOKEN: u128 = 148 * BYTE;

fn storage_inv(env: &Env, w: &World) -> R {
    let v = env.view(w, EX);
    let min = bounds(&v);
    let mut owed = 0u128;
    for who in WHO {
        if let Some((total, avail)) = paid(&v, who) {
            owed += total;
            let used = min + PER_TOKEN * ntok(&v, who);
            // the owner is credited what nobody else can take, without asking for storage
            ensure!(*who == OWNER || total >= used, "e14:unpaid", "{} uses {} of storage but has paid {}", who, used, total);
            ensure!(avail == total.saturating_sub(used), "e14:available", "{} has paid {}, uses {}, and is told {} is free", who, total, used, avail);
        } else {
            ensure!(ntok(&v, who) == 0, "e14:gone", "{} has no account but has tokens", who);
        }
    }
    ensure!(w.near_of(EX) >= owed as i128, "e14:backed", "the exchange owes {} of storage deposits and has {}", owed, w.near_of(EX));
    Ok(())
}

/// Judges one settled transaction: who paid and got what NEAR.
fn storage_judge(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let e = match log.first() {
        Some(e) => e,
        _ => return Ok(()),
    };
    let (v, p) = (env.view(pre, EX), env.view(post, EX));
    let who = &e.pred[..];
    // a transfer with a message runs the exchange's code too
    let x = log.iter().find(|y| y.recv == EX && (y.pred == e.pred || y.method == "ft_on_transfer")).unwrap_or(e);
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let what = format!("{}.{}({}) by {} with {}", e.recv, e.method, e.args, who, e.deposit);
    let growth = (post.kv[EX].usage as i128 - pre.kv[EX].usage as i128) * BYTE as i128;
    let (grown, freed) = (growth.max(0), (-growth).max(0));
    let mut near: BTreeMap<&str, i128> = BTreeMap::new();
    let mut tot: BTreeMap<&str, i128> = BTreeMap::new();
    let mut gone = false;
    let mine = paid(&v, who);
    if !e.ok {
        ensure!(pre.kv[EX].digest() == post.kv[EX].digest(), "e14:refused", "{} was refused but left something changed", what);
    }
    let min = bounds(&v);
    let me = if e.ok { -(e.deposit as i128) } else { 0 };
    let d = e.deposit;
    let may: Option<bool> = match &e.method[..] {
        "storage_deposit" => {
            let to = a["account_id"].as_str().unwrap_or(who);
            let reg = paid(&v, to);
            let take = match (a["registration_only"] == json!(true), reg) {
                (true, Some(_)) => 0,
                (true, None) => min.min(d),
                _ => d,
            };
            if e.ok {
                near.insert(who, -(take as i128));
                tot.insert(WHO.iter().find(|x| **x == to).unwrap(), take as i128);
            }
            Some(reg.is_some() || d >= min)
        }
        "storage_withdraw" => {
            let avail = mine.map(|x| x.1).unwrap_or(0);
            let n = a["amount"].as_str().map(|x| x.parse().unwrap()).unwrap_or(0u128);
            let n = if n == 0 { avail } else { n };
            if e.ok {
                near.insert(who, n as i128 - 1);
                tot.insert(who, -(n as i128));
            }
            Some(d == 1 && avail > 0 && n <= avail)
        }
        "storage_unregister" => {
            let full = ntok(&v, who) > 0 || shadow(&v, who).len() > 0;
            if e.ok {
                near.insert(who, mine.map(|x| x.0 as i128).unwrap_or(0) - 1);
                gone = mine.is_some();
            }
            Some(d == 1 && !full)
        }
        "register_tokens" => {
            let have = deposits(&v, who);
            let ts: std::collections::BTreeSet<String> = a["token_ids"].as_array().unwrap().iter().map(|t| t.as_str().unwrap().to_string()).collect();
            let new = ts.iter().filter(|t| !have.contains_key(*t)).count() as u128;
            near.insert(who, me);
            Some(d == 1 && mine.map(|m| m.0 >= min + PER_TOKEN * (have.len() as u128 + new)).unwrap_or(false))
        }
        "mft_unregister" => {
            if e.ok {
                near.insert(who, freed - 1);
            }
            None
        }
        "donation_share" => {
            if e.ok {
                near.insert(who, -1 + if mine.is_none() { freed } else { 0 });
                if mine.is_some() {
                    tot.insert(who, freed);
                }
            }
            None
        }
        "shadow_action" if a["action"].as_str().unwrap().starts_with("From") => {
            near.insert(who, me);
            tot.insert(who, freed);
            None
        }
        "on_burrow_liquidation" => {
            let l = a["liquidation_account_id"].as_str().unwrap();
            if e.ok {
                tot.insert(WHO.iter().find(|x| **x == l).unwrap(), freed);
            }
            None
        }
        "add_simple_pool" | "add_stable_swap_pool" | "add_liquidity" | "add_stable_liquidity" | "mft_register" | "shadow_action" => {
            if e.ok {
                near.insert(who, -grown);
            }
            if e.ok && e.method != "shadow_action" {
                ensure!(growth >= 0, "e14:shrunk", "{} freed storage", what);
            }
            None
        }
        "ft_transfer_call" => {
            near.insert(who, me);
            let m: Value = serde_json::from_str(a["msg"].as_str().unwrap_or("")).unwrap_or_default();
            if x.ok && m["add_liquidity_infos"].is_array() {
                tot.insert(who, -grown);
            }
            None
        }
        _ => {
            near.insert(who, me);
            None
        }
    };
    if let Some(may) = may {
        ensure!(e.ok == may, "e14:accept", "{} was {}: {} (has paid {:?}, minimum {})", what, if e.ok { "accepted" } else { "refused" }, e.err, mine, min);
    }
    for y in WHO {
        let got = post.near_of(y) - pre.near_of(y);
        let want = near.get(y).cloned().unwrap_or(0);
        ensure!(got == want, format!("e14:near:{}", e.method), "{}: {} should get {} NEAR and got {}; storage grew by {}", what, y, want, got, growth);
        let (b, c) = (paid(&v, y), paid(&p, y));
        if gone && *y == who {
            ensure!(c.is_none(), "e14:closed", "{}: the account is still there", what);
            continue;
        }
        ensure!(b.is_none() || c.is_some(), "e14:account", "{}: {} no longer has an account", what, y);
        let opened = b.is_none() && c.is_some();
        // an account may be opened for the owner, to keep what could not be returned to anybody
        ensure!(!opened || tot.contains_key(y) || *y == OWNER, "e14:account", "{}: {} has an account all of a sudden", what, y);
        let got = c.map(|x| x.0 as i128).unwrap_or(0) - b.map(|x| x.0 as i128).unwrap_or(0);
        let want = tot.get(y).cloned().unwrap_or(0);
        ensure!(got == want, format!("e14:paid:{}", e.method), "{}: what {} has paid for storage should change by {} and changed by {}; storage grew by {}", what, y, want, got, growth);
    }
    Ok(())
}

/// A call that pays for storage out of the attached NEAR: with plenty, with exactly enough, and
/// with one yocto too little, where enough is what the state really grows by.
fn charged(who: &'static str, method: &'static str, args: Value) -> Vec<Op> {
    vec!["plenty", "exact", "short"]
        .into_iter()
        .map(|how| {
            let args = args.clone();
            let how: &str = how;
            op(format!("{} {} {} {}", short(who), method, args, how), move |x| {
                let try_ = |x: &X, d: u128| {
                    let mut w = x.w.clone();
                    let mut ch = Chooser::new(vec![]);
                    let (_, e) = x.env.submit(&mut w, &mut ch, who, EX, method, args.clone(), d);
                    (e, w)
                };
                if how == "plenty" {
                    x.call(who, EX, method, args.clone(), NEAR);
                    return Ok(());
                }
                let (e, w) = try_(x, NEAR);
                if !e.ok {
                    return x.skip();
                }
                let cost = (w.kv[EX].usage as i128 - x.w.kv[EX].usage as i128).max(0) as u128 * BYTE;
                if how == "short" && cost < 2 {
                    return x.skip();
                }
                let o = x.call(who, EX, method, args.clone(), if how == "exact" { cost.max(1) } else { cost - 1 });
                ensure!(o.ok == (how == "exact"), "e14:charge", "{}({}) takes {} of storage; with {} attached it was {}: {}", method, args, cost, if how == "exact" { "exactly that" } else { "a yocto less" }, if o.ok { "accepted" } else { "refused" }, o.err);
                Ok(())
            })
        })
        .collect()
}
fn deposit_storage(who: &'static str, to: Option<&'static str>, only: Option<bool>, n: u128, name: &str) -> Op {
    let mut a = json!({});
    if let Some(t) = to {
        a["account_id"] = json!(t);
    }
    if let Some(o) = only {
        a["registration_only"] = json!(o);
    }
    txn(&format!("{} storage_deposit {} {}", short(who), a, name), who, EX, "storage_deposit", a, n)
}
const MIN: u128 = 102 * BYTE;

fn setup(cx: &Ctx) -> Sb {
    let mut s = exchange(&cx.ex, 1600, 400);
    s.env.actors.insert(BOOST.into(), Actor::Shadow);
    s.env.actors.insert(BURROW.into(), Actor::Shadow);
    for a in [OWNER, ALICE] {
        s.storage(a, NEAR / 10);
        for t in [T1, T2] {
            s.deposit(a, t, 1_000_000_000);
        }
    }
    s.simple_pool(T1, T2, 30);
    s.add_liq(OWNER, 0, &[10_000_000, 30_000_000]);
    for a in [ALICE, BOB, DAN] {
        s.mint(T1, a, 1_000_000);
        s.mint(T2, a, 1_000_000);
    }
    s
}
/// Bob has room for two tokens and a bit; dan has no account.
pub fn s_accounts(cx: &Ctx) -> Scenario {
    let mut s = setup(cx);
    tokens_may_fail(&mut s);
    s.storage(BOB, MIN + 2 * PER_TOKEN + 5);
    let mut sc = Scenario::new("", s.env, s.w);
    let o = &mut sc.ops;
    for (n, k) in [(MIN - 1, "min-1"), (MIN, "min"), (MIN + PER_TOKEN, "one token"), (0, "0")] {
        o.push(deposit_storage(DAN, None, None, n, k));
    }
    o.push(deposit_storage(DAN, None, Some(true), MIN - 1, "min-1"));
    o.push(deposit_storage(DAN, None, Some(true), NEAR, "a lot"));
    o.push(deposit_storage(BOB, None, None, 7, "7"));
    o.push(deposit_storage(BOB, Some(DAN), None, MIN + PER_TOKEN, "one token"));
    o.push(deposit_storage(ALICE, Some(BOB), Some(true), PER_TOKEN, "148"));
    o.push(deposit_storage(ALICE, Some(DAN), Some(true), PER_TOKEN, "148"));
    for (who, n) in [(BOB, None), (BOB, Some(3)), (BOB, Some(PER_TOKEN)), (BOB, Some(PER_TOKEN + 6)), (DAN, None), (DAN, Some(PER_TOKEN)), (DAN, Some(0))] {
        o.push(tx(who, EX, "storage_withdraw", json!({ "amount": n.map(|x: u128| x.to_string()) }), 1));
    }
    o.push(tx(BOB, EX, "storage_withdraw", json!({}), 0));
    for who in [BOB, DAN, ALICE] {
        o.push(tx(who, EX, "storage_unregister", json!({}), 1));
    }
    o.push(tx(DAN, EX, "storage_unregister", json!({ "force": true }), 1));
    o.push(tx(BOB, EX, "storage_unregister", json!({}), 0));
    for (who, t) in [(BOB, vec![T1]), (BOB, vec![T1, T2]), (BOB, vec![T1, T2, T3]), (BOB, vec![T3, T3]), (DAN, vec![T1])] {
        o.push(tx(who, EX, "register_tokens", json!({ "token_ids": t }), 1));
    }
    for (who, t) in [(BOB, T1), (BOB, T3), (DAN, T1)] {
        o.push(tx(who, EX, "unregister_tokens", json!({ "token_ids": [t] }), 1));
        o.push(withdraw_op(who, t, 0, true, false));
    }
    for (who, t) in [(BOB, T1), (DAN, T1), (DAN, T2)] {
        o.push(deposit_op(who, t, 1000));
    }
    o.push(tx(BOB, EX, "swap", json!({"actions": [act(0, T1, T2, Some(500), 0)]}), 1));
    o.push(tx(DAN, EX, "swap", json!({"actions": [act(0, T1, T2, Some(500), 0)]}), 1));
    o.push(tx(ALICE, EX, "mft_transfer", json!({"token_id": T1, "receiver_id": BOB, "amount": "10"}), 1));
    o.push(tx(ALICE, EX, "mft_transfer", json!({"token_id": T2, "receiver_id": DAN, "amount": "10"}), 1));
    o.push(tx(BOB, EX, "donation_token", json!({"token_id": T1, "unregister": true}), 1));
    o.push(tx(DAN, EX, "claim_lostfound", json!({"token_id": T1}), 1));
    sc
}
/// Pools, shares and pledges; dan has shares but no account.
fn s_shares(cx: &Ctx) -> Scenario {
    let mut s = setup(cx);
    for (a, n) in [(BOB, NEAR / 10), (DAN, NEAR / 10)] {
        s.storage(a, n);
        s.deposit(a, T1, 100_000);
        s.deposit(a, T2, 100_000);
    }
    s.stable_pool(&[T1, T2], &[6, 6], 30, 100);
    s.add_liq(ALICE, 0, &[10_000, 30_000]);
    s.add_liq(DAN, 0, &[1_000, 3_000]);
    for t in [T1, T2] {
        s.one(DAN, "withdraw", json!({"token_id": t, "amount": "0", "unregister": true}));
    }
    s.one(DAN, "storage_unregister", json!({}));
    assert!(!registered(&s.env.view(&s.w, EX), DAN));
    let mut sc = Scenario::new("", s.env, s.w);
    let o = &mut sc.ops;
    o.extend(charged(BOB, "add_simple_pool", json!({"tokens": [T1, T3], "fee": 25})));
    o.extend(charged(OWNER, "add_stable_swap_pool", json!({"tokens": [T1, T3], "decimals": [6, 6], "fee": 25, "amp_factor": 100})));
    for who in [BOB, ALICE] {
        o.extend(charged(who, "add_liquidity", json!({"pool_id": 0, "amounts": ["1000", "3000"]})));
    }
    o.extend(charged(BOB, "add_stable_liquidity", json!({"pool_id": 1, "amounts": ["2000", "2000"], "min_shares": "0"})));
    o.extend(charged(BOB, "mft_register", json!({"token_id": ":0", "account_id": CAROL})));
    o.extend(charged(BOB, "mft_register", json!({"token_id": ":0", "account_id": BOB})));
    for (who, a) in [(ALICE, "ToFarming"), (ALICE, "ToBurrowland"), (BOB, "ToFarming")] {
        o.extend(charged(who, "shadow_action", json!({"action": a, "pool_id": 0, "amount": "1000", "msg": ""})));
    }
    for (who, a, n) in [(ALICE, "FromFarming", None), (ALICE, "FromBurrowland", None), (ALICE, "FromFarming", Some("1000"))] {
        o.push(tx(who, EX, "shadow_action", json!({"action": a, "pool_id": 0, "amount": n, "msg": ""}), 0));
    }
    for who in [ALICE, BOB, CAROL, DAN] {
        o.push(tx(who, EX, "mft_unregister", json!({"token_id": ":0"}), 1));
    }
    for who in [ALICE, DAN] {
        for un in [false, true] {
            o.push(tx(who, EX, "donation_share", json!({"pool_id": 0, "unregister": un}), 1));
        }
    }
    let all = { let v = sc.env.view(&sc.init, EX); shares(&v, 0, ALICE) };
    let o = &mut sc.ops;
    o.push(op("alice removes all her liquidity", move |x| {
        let n = shares(&x.view(EX), 0, ALICE);
        if n == 0 {
            return x.skip();
        }
        x.call(ALICE, EX, "remove_liquidity", json!({"pool_id": 0, "shares": n.to_string(), "min_amounts": ["0", "0"]}), 1);
        Ok(())
    }));
    o.push(tx(ALICE, EX, "mft_transfer", json!({"token_id": ":0", "receiver_id": BOB, "amount": "500"}), 1));
    o.push(tx(ALICE, EX, "mft_transfer", json!({"token_id": ":0", "receiver_id": DAN, "amount": all.to_string()}), 1));
    o.push(tx(DAN, EX, "mft_transfer", json!({"token_id": ":0", "receiver_id": BOB, "amount": "500"}), 1));
    o.push(tx(BURROW, EX, "on_burrow_liquidation", json!({"liquidator_account_id": BOB, "liquidation_account_id": ALICE, "shadow_id": "shadow_ref_v1-0", "liquidate_share_amount": "1000", "min_token_amounts": ["0", "0"]}), 0));
    o.push(tx(BOB, EX, "storage_withdraw", json!({}), 1));
    o.push(tx(ALICE, EX, "storage_withdraw", json!({}), 1));
    o.push(deposit_storage(BOB, None, None, NEAR / 100, "some"));
    let zap = |pool: u64, k: &str| {
        let mut i = json!({"pool_id": pool, "amounts": ["1000", "3000"]});
        i[k] = if k == "min_shares" { json!("0") } else { json!(["0", "0"]) };
        json!({"hot_zap_actions": [act(0, T1, T2, Some(10_000), 0)], "add_liquidity_infos": [i]})
    };
    o.push(ft_call("bob zaps into pool 0", BOB, T1, 20_000, zap(0, "min_amounts")));
    o.push(ft_call("bob zaps into pool 1", BOB, T1, 20_000, zap(1, "min_shares")));
    sc
}

/// Alice's NEAR, in her wallet, on its way to her, paid in and locked in pledge records, is constant.
fn s_overlap(cx: &Ctx) -> Scenario {
    let mut s = setup(cx);
    s.add_liq(ALICE, 0, &[10_000, 30_000]);
    let other = s.simple_pool(T1, T3, 20);
    s.deposit(OWNER, T3, 1_000_000);
    s.deposit(ALICE, T3, 1_000_000);
    s.add_liq(ALICE, other, &[10_000, 30_000]);
    let pledge = |n: u64, a: &str, amt: Option<&str>| json!({"action": a, "pool_id": n, "amount": amt, "msg": ""});
    // what a record takes
    let mut c = Sb { env: Env::new(), w: s.w.clone() };
    std::mem::swap(&mut c.env, &mut s.env);
    let before = c.w.kv[EX].usage;
    c.must(ALICE, EX, "shadow_action", pledge(0, "ToFarming", Some("1000")), NEAR / 100);
    let cost = (c.w.kv[EX].usage - before) as i128 * BYTE as i128;
    std::mem::swap(&mut c.env, &mut s.env);
    let sum = move |env: &Env, w: &World| {
        let v = env.view(w, EX);
        let coming: i128 = w.pending.iter().filter(|r| r.recv == ALICE).map(|r| r.deposit() as i128).sum();
        w.near_of(ALICE) + coming + paid(&v, ALICE).map(|x| x.0 as i128).unwrap_or(0) + cost * shadow(&v, ALICE).len() as i128
    };
    let start = sum(&s.env, &s.w);
    let mut sc = Scenario::new("", s.env, s.w);
    sc.interleave = true;
    sc.max_pending = 4;
    for n in [0, other] {
        for (a, amt, d) in [("ToFarming", Some("1000"), NEAR / 100), ("ToBurrowland", Some("700"), NEAR / 100), ("FromFarming", None, 0), ("FromBurrowland", None, 0)] {
            if n == 0 || a.ends_with("Farming") {
                sc.ops.push(tx(ALICE, EX, "shadow_action", pledge(n, a, amt), d));
            }
        }
    }
    sc.ops.push(deposit_storage(ALICE, None, None, NEAR / 100, "some"));
    sc.inv = Box::new(move |env, w| {
        storage_inv(env, w)?;
        let now = sum(env, w);
        ensure!(now == start, "e14:pledges", "alice's NEAR, what she has paid for storage and what her pledges lock ({} records of {}) were {} together and are {}", shadow(&env.view(w, EX), ALICE).len(), cost, start, now);
        Ok(())
    });
    sc
}

pub fn e14(cx: &Ctx) -> Mk {
    let mut v: Mk = vec![];
    v.push(mk(cx, "pledges overlap", |c| {
        let mut sc = s_overlap(c);
        sc.depth = if c.thorough { 9 } else { 7 };
        sc
    }));
    for (n, f, d) in [("accounts", s_accounts as fn(&Ctx) -> Scenario, if cx.thorough { 5 } else { 4 }), ("shares and pledges", s_shares, if cx.thorough { 5 } else { 4 })] {
        v.push(mk(cx, n, move |c| {
            let mut sc = f(c);
            sc.depth = d;
            sc.step = Box::new(storage_judge);
            sc.inv = Box::new(storage_inv);
            sc
        }));
    }
    v
}
