//! E24 what the protocol may take, E26 creation of pools.
use super::*;
use crate::chain::*;
use crate::ensure;
use crate::exh::*;
use crate::explore::*;
use crate::ops::*;
use crate::props::custody::tokens_may_fail;
use crate::rates::*;
use crate::vm::*;
use crate::Ctx;
use num_bigint::BigInt;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const NEWOWNER: &str = "newowner.test";
const WHO: &[&str] = &[OWNER, ALICE, BOB, CAROL, REF, GUARD, EX, NEWOWNER];

// ---- E24

/// Everything somebody has: inner balances, lost-and-found, wallets and shares.
fn belongings(w: &World, v: &Viewer, who: &str, toks: &[&str], n: u64) -> BTreeMap<String, BigInt> {
    let mut m = BTreeMap::new();
    for t in toks {
        m.insert(format!("in {}", t), big(deposit_v(v, who, t)));
        m.insert(format!("lost {}", t), big(lostfound(v, who, t)));
        if who != EX {
            m.insert(format!("wallet {}", t), big(w.bal(t, who)));
        }
    }
    for p in 0..n {
        m.insert(format!("shares {}", p), big(shares(v, p, who)));
    }
    m
}
fn income_judge(toks: &'static [&'static str]) -> impl Fn(&Env, &World, &World, &[Exec]) -> R {
    move |env, pre, post, log| {
        let e = match log.first() {
            Some(e) if e.recv == EX && e.pred != EX => e,
            _ => return Ok(()),
        };
        let (v, p) = (env.view(pre, EX), env.view(post, EX));
        let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
        let who = &e.pred[..];
        let owner = v.get("get_owner", json!({})).as_str().unwrap().to_string();
        let role = who == owner || who == GUARD;
        let what = format!("{}({}) by {}", e.method, e.args, who);
        let npools = u(&v.get("get_number_of_pools", json!({}))) as u64;
        // who gets what, besides which nobody's belongings change
        let mut d: BTreeMap<(String, String), BigInt> = BTreeMap::new();
        let mut add = |w: &str, k: String, n: BigInt| *d.entry((w.to_string(), k)).or_default() += n;
        let mut res: BTreeMap<u64, Vec<BigInt>> = BTreeMap::new();
        match &e.method[..] {
            "remove_exchange_fee_liquidity" => {
                let (id, n) = (a["pool_id"].as_u64().unwrap(), u(&a["shares"]));
                let o = pool(&v, id);
                let have = shares(&v, id, EX);
                let mins = us(&a["min_amounts"]);
                let pays: Vec<BigInt> = us(&v.get("get_pool", json!({ "pool_id": id }))["amounts"]).iter().map(|x| big(*x)).collect();
                let fair: Vec<BigInt> = pays.iter().map(|x| x * big(n) / big(o.supply.max(1))).collect();
                let got: Vec<BigInt> = o.tokens.iter().map(|t| big(deposit_v(&p, &owner, t)) - deposit_v(&v, &owner, t)).collect();
                if !role || e.deposit != 1 || n > have || !registered(&v, &owner) {
                    ensure!(!e.ok, "e24:fees", "{} was accepted (the exchange has {} shares)", what, have);
                } else if n > 0 && n * 2 < o.supply && mins.iter().all(|m| *m == 0) {
                    ensure!(e.ok, "e24:refused", "{} was refused: {}", what, e.err);
                }
                if e.ok {
                    for i in 0..fair.len() {
                        // amounts are kept in the pool's own precision
                        ensure!(got[i] <= fair[i] && got[i] >= &fair[i] - 1, "e24:fees", "{}: {} of the shares of pool {} are worth {} {}, the owner is credited {}", what, n, id, fair[i], o.tokens[i], got[i]);
                        ensure!(got[i] >= big(mins[i]), "e24:min", "{}: the owner is credited {}", what, got[i]);
                        add(&owner, format!("in {}", o.tokens[i]), got[i].clone());
                    }
                    res.insert(id, got);
                    add(EX, format!("shares {}", id), -big(n));
                }
            }
            "withdraw_owner_token" => {
                let (t, n) = (a["token_id"].as_str().unwrap(), u(&a["amount"]));
                let may = role && e.deposit == 1 && n > 0 && n <= deposit_v(&v, &owner, t);
                ensure!(e.ok == may, "e24:owner", "{} was {}: {}", what, if e.ok { "accepted" } else { "refused" }, e.err);
                if e.ok {
                    let paid = log.iter().any(|x| x.recv == t && x.ok);
                    if paid {
                        add(&owner, format!("in {}", t), -big(n));
                        add(&owner, format!("wallet {}", t), big(n));
                    }
                }
            }
            "donation_share" => {
                let id = a["pool_id"].as_u64().unwrap();
                let have = shares(&v, id, who);
                let n = a["amount"].as_str().map(|x| x.parse().unwrap()).unwrap_or(have);
                let un = a["unregister"] == json!(true) && n < have;
                ensure!(e.ok == (e.deposit == 1 && n > 0 && n <= have && !un), "e24:donation", "{} was {}: {}", what, if e.ok { "accepted" } else { "refused" }, e.err);
                if e.ok {
                    add(who, format!("shares {}", id), -big(n));
                    add(EX, format!("shares {}", id), big(n));
                }
            }
            "donation_token" => {
                let t = a["token_id"].as_str().unwrap();
                let have = deposit_v(&v, who, t);
                let n = a["amount"].as_str().map(|x| x.parse().unwrap()).unwrap_or(have);
                let un = a["unregister"] == json!(true) && n < have;
                ensure!(e.ok == (e.deposit == 1 && n > 0 && n <= have && !un && registered(&v, &owner)), "e24:donation", "{} was {}: {}", what, if e.ok { "accepted" } else { "refused" }, e.err);
                if e.ok {
                    add(who, format!("in {}", t), -big(n));
                    add(&owner, format!("in {}", t), big(n));
                }
            }
            "modify_admin_fee" | "modify_total_fee" | "set_owner" | "insert_referral" | "update_referral" | "remove_referral" => {}
            _ => return Ok(()),
        }
        for x in WHO {
            let (b, c) = (belongings(pre, &v, x, toks, npools), belongings(post, &p, x, toks, npools));
            for (k, n) in &b {
                let want = d.get(&(x.to_string(), k.clone())).cloned().unwrap_or_default();
                let got = &c[k] - n;
                ensure!(got == want, format!("e24:{}", e.method), "{}: {} of {} should change by {} and changed by {}", what, k, x, want, got);
            }
        }
        for id in 0..npools {
            let (o, q) = (pool(&v, id), pool(&p, id));
            for i in 0..o.tokens.len() {
                let want = res.get(&id).map(|r| r[i].clone()).unwrap_or_default();
                let got = big(o.amounts[i]) - q.amounts[i];
                ensure!(got >= want && got <= &want + 1, format!("e24:{}", e.method), "{}: pool {} gave {} of {}, expected {}", what, id, got, o.tokens[i], want);
            }
        }
        Ok(())
    }
}
/// What settings may never be.
fn income_inv(env: &Env, w: &World) -> R {
    let v = env.view(w, EX);
    let adm = u(&v.get("metadata", json!({}))["admin_fee_bps"]);
    ensure!(adm <= 8000, "e24:share", "the protocol takes {} of 10000 of the fees", adm);
    if let Some(o) = v.get("list_referrals", json!({})).as_object() {
        for (k, x) in o {
            ensure!(u(x) > 0 && u(x) < 10_000, "e24:referral", "referrer {} gets {} of 10000", k, x);
        }
    }
    for p in v.get("get_pools", json!({"from_index": 0, "limit": 100})).as_array().unwrap() {
        ensure!(u(&p["total_fee"]) < 10_000, "e24:fee", "a pool takes {} of 10000", p["total_fee"]);
    }
    Ok(())
}
const TOKS: &[&str] = &[T1, T2, T3, USD];

fn income_setup(cx: &Ctx) -> Sb {
    let mut s = exchange(&cx.ex, 1600, 400);
    tokens(&mut s, &[USD]);
    for a in [OWNER, ALICE, BOB, NEWOWNER] {
        s.storage(a, NEAR / 10);
    }
    for t in [T1, T2, T3] {
        s.deposit(ALICE, t, 1_000_000 * E18);
        s.deposit(BOB, t, 1_000_000 * E18);
    }
    s.deposit(ALICE, USD, 1_000_000 * E6);
    s.deposit(BOB, USD, 1_000_000 * E6);
    s.deposit(OWNER, T1, 1000);
    s.simple_pool(T1, T2, 300);
    s.stable_pool(&[T2, USD, T3], &[18, 6, 18], 250, 240);
    s.add_liq(ALICE, 0, &[1_000 * E18 + 1, 3_000 * E18 + 2]);
    s.add_stable(ALICE, 1, &[500 * E18 + 5, 510 * E6 + 1, 490 * E18]);
    s.must(REF, EX, "mft_register", json!({"token_id": ":0", "account_id": REF}), NEAR / 10);
    s.one(OWNER, "insert_referral", json!({"referral_id": REF, "fee_bps": 2500}));
    s
}
fn fee_taken(who: &'static str, id: u64, part: &'static str, min: bool) -> Op {
    op(format!("{} takes {} of the fee shares of pool {}{}", short(who), part, id, if min { ", minimum too high" } else { "" }), move |x| {
        let v = x.view(EX);
        let s = shares(&v, id, EX);
        let n = match part {
            "all" => s,
            "half" => s / 2,
            "one" => 1,
            "none" => 0,
            _ => s + 1,
        };
        let o = pool(&v, id);
        let mins: Vec<String> = o.amounts.iter().map(|a| if min { (big(*a) * n / o.supply.max(1) + 1u32).to_string() } else { "0".into() }).collect();
        let y = if part == "half" && who == GUARD { 0 } else { 1 };
        x.call(who, EX, "remove_exchange_fee_liquidity", json!({"pool_id": id, "shares": n.to_string(), "min_amounts": mins}), y);
        Ok(())
    })
}
pub fn e24(cx: &Ctx) -> Mk {
    let th = cx.thorough;
    vec![mk(cx, "income", move |cx| {
        let mut s = income_setup(cx);
        tokens_may_fail(&mut s);
        let mut sc = Scenario::new("", s.env, s.w);
        let o = &mut sc.ops;
        for r in [Value::Null, json!(REF)] {
            o.push(tx(BOB, EX, "swap", json!({"actions": [act(0, T1, T2, Some(77 * E18 + 1), 0), act(1, T2, USD, None, 0)], "referral_id": r}), 1));
        }
        o.push(tx(BOB, EX, "add_stable_liquidity", json!({"pool_id": 1, "amounts": strs(&[0, 71 * E6 + 1, 0]), "min_shares": "1"}), NEAR / 100));
        for id in [0, 1] {
            for part in ["all", "half", "one", "none", "more"] {
                o.push(fee_taken(OWNER, id, part, false));
            }
            o.push(fee_taken(OWNER, id, "all", true));
            o.push(fee_taken(GUARD, id, "all", false));
            o.push(fee_taken(GUARD, id, "half", false));
            o.push(fee_taken(ALICE, id, "half", false));
            o.push(fee_taken(NEWOWNER, id, "all", false));
        }
        for (who, n, y) in [(OWNER, 400, 1), (OWNER, 0, 1), (GUARD, 1000, 1), (GUARD, 1, 0), (NEWOWNER, 1, 1), (BOB, 1, 1), (OWNER, 1001, 1)] {
            o.push(tx(who, EX, "withdraw_owner_token", json!({"token_id": T1, "amount": n.to_string()}), y));
        }
        for (who, id) in [(ALICE, 0), (BOB, 1), (REF, 0)] {
            for (n, un) in [(Some(1000u128), false), (Some(0), false), (None, false), (None, true), (Some(1), true)] {
                o.push(tx(who, EX, "donation_share", json!({"pool_id": id, "amount": n.map(|x| x.to_string()), "unregister": un}), 1));
            }
        }
        o.push(tx(ALICE, EX, "donation_share", json!({"pool_id": 0, "amount": (u128::MAX).to_string()}), 1));
        for (who, t) in [(ALICE, T1), (BOB, USD), (CAROL, T1)] {
            for (n, un) in [(Some(1000u128), false), (None, true), (Some(1), true)] {
                o.push(tx(who, EX, "donation_token", json!({"token_id": t, "amount": n.map(|x| x.to_string()), "unregister": un}), 1));
            }
        }
        for f in [0, 8000, 8001, 10_000] {
            o.push(tx(OWNER, EX, "modify_admin_fee", json!({ "admin_fee_bps": f }), 1));
        }
        for f in [0, 9_999, 10_000] {
            o.push(tx(GUARD, EX, "modify_total_fee", json!({ "pool_id": 0, "total_fee": f }), 1));
            o.push(tx(OWNER, EX, "update_referral", json!({ "referral_id": REF, "fee_bps": f }), 1));
            o.push(tx(GUARD, EX, "insert_referral", json!({ "referral_id": BOB, "fee_bps": f }), 1));
        }
        o.push(tx(OWNER, EX, "set_owner", json!({ "owner_id": NEWOWNER }), 0));
        o.push(tx(OWNER, EX, "set_owner", json!({ "owner_id": NEWOWNER }), 1));
        sc.depth = if cx.thorough { 4 } else { 3 };
        sc.step = Box::new(income_judge(TOKS));
        sc.inv = Box::new(income_inv);
        sc
    })]
}

// ---- E26

/// What a pool is, apart from what is in it.
fn nature(v: &Viewer, id: u64) -> Value {
    let p = v.get("get_pool", json!({ "pool_id": id }));
    let m = match p["pool_kind"].as_str().unwrap() {
        "STABLE_SWAP" => "get_stable_pool",
        "RATED_SWAP" => "get_rated_pool",
        "DEGEN_SWAP" => "get_degen_pool",
        _ => "",
    };
    let dec = if m.is_empty() { Value::Null } else { v.get(m, json!({ "pool_id": id }))["decimals"].clone() };
    json!([p["pool_kind"], p["token_account_ids"], p["total_fee"], dec, p["amp"]])
}
const KINDS: &[(&str, &str)] = &[("add_simple_pool", "SIMPLE_POOL"), ("add_stable_swap_pool", "STABLE_SWAP"), ("add_rated_swap_pool", "RATED_SWAP"), ("add_degen_swap_pool", "DEGEN_SWAP")];

fn pools_judge(env: &Env, pre: &World, post: &World, log: &[Exec]) -> R {
    let e = match log.first() {
        Some(e) => e,
        _ => return Ok(()),
    };
    let (v, p) = (env.view(pre, EX), env.view(post, EX));
    let a: Value = serde_json::from_str(&e.args).unwrap_or_default();
    let who = &e.pred[..];
    let (n0, n1) = (u(&v.get("get_number_of_pools", json!({}))) as u64, u(&p.get("get_number_of_pools", json!({}))) as u64);
    let what = format!("{}({}) by {}", e.method, e.args, who);
    let kind = KINDS.iter().find(|k| k.0 == e.method);
    for id in 0..n0 {
        let (b, c) = (nature(&v, id), nature(&p, id));
        let mut want = b.clone();
        if e.ok && e.method == "modify_total_fee" && a["pool_id"].as_u64() == Some(id) {
            want[2] = a["total_fee"].clone();
        }
        ensure!(c == want, "e26:nature", "{}: pool {} was {} and is {}", what, id, b, c);
        if kind.is_some() {
            ensure!(pool(&v, id) == pool(&p, id), "e26:others", "{} changed pool {}", what, id);
        }
    }
    match kind {
        None => ensure!(n1 == n0, "e26:count", "{} changed the number of pools from {} to {}", what, n0, n1),
        Some((_, k)) => {
            let toks: Vec<&str> = a["tokens"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
            let set: BTreeSet<&&str> = toks.iter().collect();
            let (fee, amp) = (a["fee"].as_u64().unwrap(), a["amp_factor"].as_u64().unwrap_or(1));
            let role = who == OWNER || who == GUARD;
            let simple = *k == "SIMPLE_POOL";
            let max = 24;
            let dec: Vec<u64> = a["decimals"].as_array().map(|d| d.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
            let good = set.len() == toks.len()
                && fee < 10_000
                && if simple { toks.len() == 2 } else { role && dec.len() == toks.len() && dec.iter().all(|d| *d >= 1 && *d <= max) && (1..=1_000_000).contains(&amp) }
                && e.deposit == NEAR;
            ensure!(e.ok == good, "e26:accept", "{} was {}: {}", what, if e.ok { "accepted" } else { "refused" }, e.err);
            ensure!(n1 == n0 + if e.ok { 1 } else { 0 }, "e26:count", "{}: there were {} pools and are {}", what, n0, n1);
            if e.ok {
                ensure!(e.ret.as_ref().map(|r| String::from_utf8_lossy(r).to_string()) == Some(n0.to_string()), "e26:id", "{} returned {:?} for pool {}", what, e.ret, n0);
                let o = pool(&p, n0);
                ensure!(o.kind == *k && o.tokens == toks && o.fee == fee as u128 && o.supply == 0 && o.amounts == vec![0; toks.len()], "e26:new", "{} made {:?}", what, o);
                let nat = nature(&p, n0);
                ensure!(simple || (nat[3] == json!(dec) && (o.amp as u64) == amp), "e26:new", "{} made {}", what, nat);
                for w in WHO {
                    ensure!(shares(&p, n0, w) == 0, "e26:new", "{}: {} has shares of the new pool", what, w);
                }
            }
        }
    }
    // before anybody provided every token, nothing can be traded or minted
    let id = a["pool_id"].as_u64().or(a["actions"][0]["pool_id"].as_u64());
    if let Some(id) = id.filter(|i| *i < n0) {
        let o = pool(&v, id);
        if o.supply == 0 && e.recv == EX {
            match &e.method[..] {
                "swap" => ensure!(!e.ok, "e26:empty", "{} was accepted by an empty pool", what),
                "add_liquidity" | "add_stable_liquidity" if e.ok => {
                    let q = pool(&p, id);
                    ensure!(us(&a["amounts"]).iter().all(|x| *x > 0) && q.amounts == us(&a["amounts"]), "e26:first", "{}: a first deposit made the reserves {:?}", what, q.amounts);
                    ensure!(q.supply > 0 && shares(&p, id, who) == q.supply, "e26:first", "{}: the first provider has {} of {} shares", what, shares(&p, id, who), q.supply);
                }
                _ => {}
            }
        }
    }
    Ok(())
}
pub fn e26(cx: &Ctx) -> Mk {
    let th = cx.thorough;
    vec![mk(cx, "creation", move |cx| {
        let mut s = exchange(&cx.ex, 1600, 400);
        tokens(&mut s, &[ST, USD]);
        for a in [OWNER, ALICE, BOB] {
            s.storage(a, NEAR / 10);
            for (t, one) in [(T1, E18), (T2, E18), (WNEAR, E24), (ST, E24), (USD, E6)] {
                s.deposit(a, t, 1_000_000 * one);
            }
        }
        rate_quotes(&mut s, 12 * E24 / 10, E24, E24);
        s.one(OWNER, "register_rated_token", json!({"rate_type": "STNEAR", "token_id": ST}));
        s.must(CAROL, EX, "update_token_rate", json!({ "token_id": ST }), 0);
        degen_setup(&mut s, 35_000, 100_000_000);
        let mut sc = Scenario::new("", s.env, s.w);
        let o = &mut sc.ops;
        let simple = |who, toks: &[&str], fee: u32| tx(who, EX, "add_simple_pool", json!({"tokens": toks, "fee": fee}), NEAR);
        o.push(simple(BOB, &[T1, T2], 0));
        o.push(simple(ALICE, &[T2, T1], 9_999));
        o.push(simple(ALICE, &[T1, T2], 10_000));
        o.push(simple(ALICE, &[T1, T1], 30));
        o.push(simple(ALICE, &[T1], 30));
        o.push(simple(ALICE, &[], 30));
        o.push(simple(ALICE, &[T1, T2, ST], 30));
        for (m, t, d) in [("add_stable_swap_pool", vec![T1, USD], vec![18u8, 6u8]), ("add_rated_swap_pool", vec![ST, WNEAR], vec![24, 24]), ("add_degen_swap_pool", vec![T1, USD], vec![18, 6])] {
            let k = |who: &'static str, t: &[&str], d: &[u8], fee: u32, amp: u64| tx(who, EX, m, json!({"tokens": t, "decimals": d, "fee": fee, "amp_factor": amp}), NEAR);
            o.push(k(OWNER, &t, &d, 30, 1));
            o.push(k(GUARD, &t, &d, 9_999, 1_000_000));
            o.push(k(BOB, &t, &d, 30, 100));
            o.push(k(OWNER, &t, &d, 10_000, 100));
            o.push(k(OWNER, &t, &d, 30, 0));
            o.push(k(OWNER, &t, &d, 30, 1_000_001));
            o.push(k(OWNER, &t, &d[..1], 30, 100));
            o.push(k(OWNER, &t[..1].iter().chain(&t[..1]).cloned().collect::<Vec<_>>(), &d, 30, 100));
            o.push(k(OWNER, &[t[0], t[1], t[0]], &[d[0], d[1], d[0]], 30, 100));
            o.push(k(OWNER, &t, &[d[0], 0], 30, 100));
            o.push(k(OWNER, &t, &[25, d[1]], 30, 100));
            o.push(k(OWNER, &t, &[1, 24], 30, 100));
        }
        for (who, id) in [(ALICE, 0u64), (BOB, 1)] {
            for z in [false, true] {
                o.push(op(format!("{} adds liquidity to pool {}{}", short(who), id, if z { ", one token missing" } else { "" }), move |x| {
                    let v = x.view(EX);
                    if u(&v.get("get_number_of_pools", json!({}))) as u64 <= id {
                        return x.skip();
                    }
                    let q = pool(&v, id);
                    let mut am: Vec<u128> = q.tokens.iter().map(|t| if t == USD { 70 * E6 + 1 } else if t == ST || t == WNEAR { 50 * E24 + 3 } else { 90 * E18 + 7 }).collect();
                    if z {
                        am[1] = 0;
                    }
                    let (m, k, n) = if q.kind == "SIMPLE_POOL" { ("add_liquidity", "min_amounts", Value::Null) } else { ("add_stable_liquidity", "min_shares", json!("0")) };
                    x.call(who, EX, m, json!({"pool_id": id, "amounts": strs(&am), k: n}), NEAR / 100);
                    Ok(())
                }));
            }
            o.push(op(format!("{} trades in pool {}", short(who), id), move |x| {
                let v = x.view(EX);
                if u(&v.get("get_number_of_pools", json!({}))) as u64 <= id {
                    return x.skip();
                }
                let q = pool(&v, id);
                x.call(who, EX, "swap", json!({"actions": [act(id, &q.tokens[0], &q.tokens[1], Some(1_000_000), 0)]}), 1);
                Ok(())
            }));
        }
        for (who, id, f) in [(OWNER, 0, 77), (GUARD, 1, 9_999), (BOB, 0, 1), (OWNER, 0, 10_000), (OWNER, 7, 5)] {
            o.push(tx(who, EX, "modify_total_fee", json!({"pool_id": id, "total_fee": f}), 1));
        }
        o.push(tx(OWNER, EX, "modify_admin_fee", json!({"admin_fee_bps": 1}), 1));
        sc.depth = if th { 5 } else { 4 };
        sc.step = Box::new(pools_judge);
        sc
    })]
}
